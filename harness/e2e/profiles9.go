package e2e

import (
	"sync/atomic"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verifh/core"
	"verifh/kbroker"
)

func init() {
	// members end at once while the cluster is slow to commit, and others take their partitions over immediately
	profiles["handover"] = func(w *World) {
		r := w.r
		w.bounded()
		w.mayFail = true
		w.plan.Parts = pick(r, 1, 1, 2, 3)
		w.plan.MaxOuts = pick(r, 1, 3)
		w.pickStrategies()
		slow := pick(r, ms(20), ms(300), 3*time.Second)
		keys := map[int16]bool{26: true}
		if r.IntN(3) == 0 {
			keys[24], keys[0] = true, true
			slow = min(slow, ms(300))
		}
		share := uint64(pick(r, 20, 60, 100))
		seed := r.Uint64()
		var n counter
		var on atomic.Bool
		var poison atomic.Pointer[App]
		refuse := w.refuseMarkers()
		w.cluster(kbroker.Config{Fault: func(rq *kbroker.Request) (f kbroker.Fault) {
			if on.Load() && keys[rq.Key] {
				if x := core.Mix(seed, n.next()); x%100 < share {
					f.Delay = time.Duration(x >> 8 % uint64(slow))
				}
			}
			return
		}, ProduceFault: func(inst, topic string, p int32, txn bool, recs []kmsg.Record) int16 {
			if a := poison.Load(); a != nil && txn && inst == a.in.Name {
				return 10
			}
			return refuse(inst, topic, p, txn, recs)
		}})
		w.note("slow=%v keys=%v share=%d", slow, keys, share)
		if r.IntN(2) == 0 {
			// rare but long stalls anywhere
			p := core.Perturb{Seed: r.Uint64(), SiteProb: uint32(2000 + r.IntN(30000)), SleepProb: uint32(200 + r.IntN(2000)), YieldProb: uint32(r.IntN(20000)), MaxSleep: pick(r, ms(200), ms(800), 1500*time.Millisecond), MaxHits: int64(2 + r.IntN(12))}
			w.note("stalls up to %v", p.MaxSleep)
			w.ungraceful.Store(true)
			core.ApplyPerturb(p)
		}
		o := w.appOpts()
		start := func() *App {
			o.Name = ""
			o.TxnErr = func(error) streams.ErrorResponse { return streams.FailConsumer }
			a := w.newApp(o)
			w.step("start %s", a)
			return a
		}
		start()
		start()
		w.settled(90*time.Second, "handover")
		on.Store(true)
		rounds := 2 + r.IntN(4)
		wait := w.background(150+r.IntN(300), time.Duration(rounds)*4*time.Second)
		for i := 0; i < rounds; i++ {
			w.randSleep(pick(r, ms(50), time.Second, 4*time.Second))
			l := w.liveApps()
			if len(l) == 0 {
				start()
				continue
			}
			a := l[r.IntN(len(l))]
			if len(l) < 2 || r.IntN(3) == 0 {
				start()
			}
			switch r.IntN(6) {
			case 0:
				w.step("%s cannot produce any more", a)
				w.ungraceful.Store(true)
				poison.Store(a)
				w.randSleep(time.Second)
			case 1:
				w.step("stop %s", a)
				w.graceful(a)
				w.randSleep(3 * time.Second)
				a.stop(true)
			default:
				w.step("stop %s now", a)
				a.stop(true)
			}
			w.stops.Add(1)
			if r.IntN(2) == 0 {
				start()
			}
		}
		wait()
		on.Store(false)
		w.endReplacing("handover", start)
	}
}

func init() {
	// the balance strategies are changed by deployments: members of one group are configured differently, with a strategy in common, so that
	// the group goes from one protocol to another while members prepare partitions, leave, crash and come back
	profiles["mixed"] = func(w *World) {
		w.bounded()
		r := w.r
		type L = []streams.BalanceStrategy
		const ra, rr, co, in = streams.RangeBalanceStrategy, streams.RoundRobinBalanceStrategy, streams.CooperativeStickyBalanceStrategy, streams.IncrementalBalanceStrategy
		set := pick(r, []L{{in, co}, {co}}, []L{{in, co}, {co}}, []L{{in, co}, {co, in}}, []L{{in}, {in, co}, {co, in}}, []L{{in, ra}, {ra}}, []L{{in, rr, co}, {co, rr}, {rr}}, []L{{co, ra}, {ra}, {ra, in}}, []L{{in, co}, {co, in}, {in, co}})
		if w.c.Param("set", "") == "eager" { // a known finding, see DESIGN.md: a client with an eager strategy gives up its partitions in every rebalance
			set = []L{{in, co, ra}, {in, co}, {co, in}}
		}
		w.plan.Parts = pick(r, 1, 2, 3, 4, 6, 8)
		w.cluster(kbroker.Config{ProduceFault: w.refuseMarkers()})
		w.note("strategies of members %v", set)
		n := 100 + r.IntN(400)
		dur := time.Duration(2+r.IntN(20)) * time.Second
		if r.IntN(3) == 0 {
			w.load(r.IntN(100), 0)
		}
		o := w.appOpts()
		start := func() *App {
			o.Name = ""
			o.Strategies = set[r.IntN(len(set))]
			a := w.newApp(o)
			w.step("start %s %v", a, o.Strategies)
			return a
		}
		for i := 1 + r.IntN(3); i > 0; i-- {
			start()
			w.randSleep(2 * time.Second)
		}
		wait := w.background(n, dur)
		calm := r.IntN(2) == 0
		for i := 2 + r.IntN(6); i > 0; i-- {
			w.randSleep(4 * time.Second)
			live := w.liveApps()
			if len(live) == 0 {
				start()
				continue
			}
			a := live[r.IntN(len(live))]
			switch x := r.IntN(8); {
			case x < 3 && len(live) < 5:
				start()
			case x < 6:
				w.step("stop %s", a)
				w.graceful(a)
				if r.IntN(2) == 0 { // its successor comes while it leaves
					w.randSleep(2 * time.Second)
					start()
				}
			case x == 6 && !calm:
				w.step("kill %s", a)
				a.kill()
			case x == 7 && !calm:
				w.step("stop now %s", a)
				w.stops.Add(1)
				a.stop(true)
			}
		}
		wait()
		if len(w.liveApps()) == 0 {
			start()
		}
		w.end("mixed", 150*time.Second)
	}
}

// refuseMarkers lets the cluster refuse markers now and then, with errors that are not to be retried by a client: nobody but the one
// who waits for a marker sends it again. No replies may be lost in addition, a client reuses the numbers of records it gave up on.
func (w *World) refuseMarkers() func(inst, topic string, p int32, txn bool, recs []kmsg.Record) int16 {
	r := w.r
	share, code, seed := pick(r, uint64(0), 0, 0, 15, 60), pick(r, int16(10), 44, 87), r.Uint64()
	if share > 0 {
		w.note("%d%% of the markers are refused with code %d", share, code)
	}
	var n counter
	return func(inst, topic string, p int32, txn bool, recs []kmsg.Record) int16 {
		if share == 0 || txn || len(recs) != 1 || len(recs[0].Headers) != 1 || recs[0].Headers[0].Key != "gkes__mark" {
			return 0
		}
		if core.Mix(seed, n.next())%100 >= share {
			return 0
		}
		w.c.Count("markers refused", 1)
		return code
	}
}
