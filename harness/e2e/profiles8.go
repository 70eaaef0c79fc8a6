package e2e

import (
	"time"

	"verifh/core"
	"verifh/kbroker"
)

func init() {
	// many pending transactions: the cluster is slow to commit, transactions are small, events are many and complete late,
	// out of order or all at once
	profiles["wide"] = func(w *World) {
		r := w.r
		pl, e := &w.plan, &w.eos
		pl.Parts = pick(r, 1, 1, 2, 4, 8)
		pl.MaxOuts = min(pl.MaxOuts, 3)
		pl.BigOuts = min(pl.BigOuts, 3)
		pl.Modes[mRaw] += r.IntN(4)
		pl.Modes[mChain] += r.IntN(4)
		pl.Burst = pick(r, 30, 200, 600)
		e.PoolSize = pick(r, 2, 3, 4, 6)
		e.PendingTxnCount = pick(r, 1, 2, 3, 5)
		e.MaxBatchSize = pick(r, 1, 2, 5, 20, 100)
		e.TargetBatchSize = 1 + r.IntN(e.MaxBatchSize)
		e.BatchDelay = pick(r, ms(1), ms(10), ms(100))
		pl.JobMax = pick(r, 0, ms(10), ms(200))
		pl.HandlerMax = pick(r, 0, ms(1), ms(20))
		if e.MaxBatchSize > 20 {
			pl.JobMax, pl.HandlerMax = min(pl.JobMax, ms(10)), min(pl.HandlerMax, ms(5))
		}
		pl.Fan = pick(r, 0, 4, 40, 150)
		pl.Stampede = r.IntN(2) == 0
		w.pickStrategies()
		slow := pick(r, 0, ms(20), ms(100), ms(500))
		if pl.Parts == 1 {
			slow *= 4
		}
		// a partition is given up after the events that have been accepted before, those of all partitions: this must not take as long as a rebalance
		slow = min(slow, 20*time.Second/time.Duration(4*pl.Parts*e.PoolSize))
		always := r.IntN(2) == 0
		writes := pick(r, 0, ms(5), ms(100))
		seed := r.Uint64()
		var n counter
		tr := &traps{}
		w.cluster(kbroker.Config{Fault: func(rq *kbroker.Request) kbroker.Fault {
			f := tr.fault(rq)
			switch x := core.Mix(seed, n.next()); rq.Key {
			case 26:
				if slow > 0 {
					f.Delay = slow
					if !always {
						f.Delay = time.Duration(x % uint64(slow))
					}
				}
			case 0, 24, 28:
				if writes > 0 && x%3 == 0 {
					f.Delay = time.Duration(x / 3 % uint64(writes))
				}
			}
			return f
		}})
		w.note("slow=%v always=%v writes=%v fan=%d stampede=%v", slow, always, writes, pl.Fan, pl.Stampede)
		o := w.appOpts()
		total := min(1500, 50+r.IntN(e.MaxBatchSize*100))
		if pl.Fan > 0 {
			pl.Modes[mSched], pl.Modes[mBatch] = 0, 0
		}
		if pl.Fan > 40 {
			pl.Burst, total = pick(r, 20, 60), min(200, total)
		}
		if r.IntN(3) == 0 {
			w.load(total/2, 0)
		}
		start := func() {
			o.Name = ""
			a := w.newApp(o)
			w.step("start %s", a)
		}
		start()
		w.settled(60*time.Second, "wide")
		wait := w.background(total, time.Duration(r.IntN(10))*time.Second)
		for i := r.IntN(5); i > 0; i-- {
			w.randSleep(3 * time.Second)
			live := w.liveApps()
			switch k := r.IntN(6); {
			case k < 3 && len(live) < 4 || len(live) == 0:
				start()
			case k == 3 && len(live) > 1:
				a := live[r.IntN(len(live))]
				w.step("stop %s", a)
				w.graceful(a)
			case k == 4 && len(live) > 1 && r.IntN(2) == 0:
				a := live[r.IntN(len(live))]
				w.step("kill %s", a)
				a.kill()
			default:
				p := int32(r.IntN(pl.Parts))
				w.appendEvents(p, pl.Burst)
			}
		}
		wait()
		if len(w.liveApps()) == 0 {
			start()
		}
		w.end("wide", 150*time.Second)
	}
}
