package e2e

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aws/go-kafka-event-source/streams"

	"verifh/core"
	"verifh/kbroker"
	"verifh/rebal"
)

// meter is the metrics consumer of one application.
type meter struct {
	app   *App
	kind  string // normal, slow, blocked, released, none
	mu    sync.Mutex
	got   []streams.Metric
	gate  chan struct{}
	in    atomic.Int32
	delay time.Duration
	user  map[int]streams.Metric // emitted by the user, by number
	userN int
	flood bool // the buffer may have been full
}

func (m *meter) handle(x streams.Metric) {
	if m.in.Add(1) != 1 {
		m.app.w.fail("C30", "metrics handler runs concurrently", "%s: %+v", m.app, x)
	}
	defer m.in.Add(-1)
	switch m.kind {
	case "blocked", "released":
		<-m.gate
	case "slow":
		time.Sleep(time.Duration(core.Mix(m.app.w.seed, uint64(x.Count)) % uint64(m.delay)))
	}
	m.mu.Lock()
	m.got = append(m.got, x)
	m.mu.Unlock()
}

// emit sends n metrics of the user's.
func (m *meter) emit(n int, exact bool) {
	t0 := time.Now()
	for i := 0; i < n; i++ {
		m.mu.Lock()
		m.userN++
		x := streams.Metric{Operation: "user", Count: m.userN, StartTime: time.Unix(int64(m.userN), 0), EndTime: time.Unix(int64(m.userN)+5, 0), Topic: fmt.Sprint(m.userN), Bytes: m.userN * 3, Partition: int32(m.userN % 7), PartitionCount: 2}
		if m.userN%3 == 0 {
			x.ExecuteTime = time.Unix(int64(m.userN)+1, 0)
		}
		m.user[m.userN] = x
		m.mu.Unlock()
		t := time.Now()
		m.app.es.EmitMetric(x)
		if d := time.Since(t); d > time.Second || exact && d > 0 {
			m.app.w.fail("C30", "emitting a metric blocks", "%s (consumer %s): EmitMetric took %v", m.app, m.kind, d)
		}
	}
	if exact && time.Since(t0) > 0 {
		m.app.w.fail("C30", "emitting a metric blocks", "%s (consumer %s): %d took %v", m.app, m.kind, n, time.Since(t0))
	}
	m.app.w.c.Count("metrics emitted by the application", int64(n))
}

type txnSize struct{ recs, bytes, parts int }

// committedSizes are the sizes of the committed transactions of the application.
func (w *World) committedSizes(a *App) (l []txnSize) {
	w.b.Lock()
	defer w.b.Unlock()
	for _, t := range w.b.AllTxns {
		if t.Inst != a.o.Name || t.State != kbroker.TxnCommitted {
			continue
		}
		var s txnSize
		ps := map[tpKey]bool{}
		for _, r := range t.Recs {
			if r.Control {
				continue
			}
			s.recs++
			s.bytes += len(r.Key) + len(r.Value)
			for _, h := range r.Headers {
				s.bytes += len(h.Key) + len(h.Value)
			}
			if r.Topic == "gkes_commit_log_"+a.o.Group {
				if tt, p, _, ok := commitEntry(r); ok {
					ps[tpKey{tt, p}] = true
				}
			}
		}
		s.parts = len(ps)
		if s.recs > 0 {
			l = append(l, s)
		}
	}
	return
}

func (m *meter) check(ready map[int32]int, told map[int32]int) {
	a, w := m.app, m.app.w
	m.mu.Lock()
	got := append([]streams.Metric(nil), m.got...)
	m.mu.Unlock()
	want := w.committedSizes(a)
	left := map[txnSize]int{}
	for _, s := range want {
		left[s]++
	}
	running := a.live()
	exact := !m.flood && running && m.kind != "blocked"
	prepped := map[int32]int{}
	seen := map[int]bool{}
	var unknown []txnSize
	txns := 0
	for _, x := range got {
		if x.StartTime.After(x.EndTime) || x.ExecuteTime.Before(x.StartTime) || x.ExecuteTime.After(x.EndTime) {
			w.fail("C30", "metric with wrong times", "%s: %+v", a, x)
		}
		switch x.Operation {
		case "user":
			u, ok := m.user[x.Count]
			if u.ExecuteTime.IsZero() {
				u.ExecuteTime = u.StartTime
			}
			if !ok || seen[x.Count] || x != u {
				w.fail("C30", "metric altered or repeated", "%s: got %+v, emitted %+v (repeated=%v)", a, x, u, seen[x.Count])
			}
			seen[x.Count] = true
		case streams.TxnCommitOperation:
			txns++
			if x.Topic != a.o.Topic || x.GroupId != a.o.Group {
				w.fail("C30", "metric of another topic or group", "%s: %+v", a, x)
			}
			s := txnSize{x.Count, x.Bytes, x.PartitionCount}
			if left[s] == 0 {
				unknown = append(unknown, s)
			}
			left[s]--
		case streams.PartitionPreppedOperation:
			prepped[x.Partition]++
			if x.GroupId != a.o.Group || x.PartitionCount != 1 {
				w.fail("C30", "wrong preparation metric", "%s: %+v", a, x)
			}
		default:
			w.fail("C30", "unknown metric", "%s: %+v", a, x)
		}
	}
	var missing []txnSize
	for s, n := range left {
		for ; n > 0; n-- {
			missing = append(missing, s)
		}
	}
	if len(unknown) > 0 {
		w.fail("C30", "metric does not match its transaction", "%s: no committed transaction of (records, bytes, partitions) %v; transactions without a metric: %v", a, unknown, head(missing))
	} else if exact && len(missing) > 0 {
		w.fail("C30", "transaction without a metric", "%s: %d transactions, %d metrics; missing (records, bytes, partitions) %v", a, len(want), txns, head(missing))
	}
	if exact {
		var lost []int
		for n := range m.user {
			if !seen[n] {
				lost = append(lost, n)
			}
		}
		sort.Ints(lost)
		if len(lost) > 0 {
			w.fail("C30", "metric lost", "%s: %d of %d metrics emitted by the application never arrive: %v", a, len(lost), len(m.user), lost[:min(len(lost), 10)])
		}
		for p := range ready {
			if prepped[p] == 0 {
				w.fail("C30", "preparation without a metric", "%s: partition %d was reported ready, no metric", a, p)
			}
		}
		w.c.Count("transactions compared with their metric", int64(txns))
		w.c.Count("preparations compared with their metric", int64(len(ready)))
	}
	for p, n := range prepped {
		if n > told[p] {
			w.fail("C30", "metric of a preparation that did not take place", "%s: partition %d: %d metrics, told to prepare %d times", a, p, n, told[p])
		}
	}
}

func head[T any](l []T) []T { return l[:min(len(l), 10)] }

func init() {
	// metrics consumers of every kind, and metrics emitted at every moment
	profiles["metrics"] = func(w *World) {
		r := w.r
		w.bounded()
		w.plan.Parts = pick(r, 1, 2, 3, 4, 6)
		w.strat = pick(r, nil, nil, []streams.BalanceStrategy{streams.IncrementalBalanceStrategy}, []streams.BalanceStrategy{streams.CooperativeStickyBalanceStrategy})
		w.cluster(kbroker.Config{})
		exact := r.IntN(2) == 0
		if exact {
			core.ApplyPerturb(core.Perturb{})
		}
		w.note("strategies=%v exact=%v", w.strat, exact)
		ready, told := map[string]map[int32]int{}, map[string]map[int32]int{}
		w.onPlan = func(p kbroker.SyncPlan, ms []rebal.Meta, plan map[string]rebal.Plan) {
			for _, m := range p.Members {
				if ready[m.Inst] == nil {
					ready[m.Inst], told[m.Inst] = map[int32]int{}, map[int32]int{}
				}
				for _, me := range ms {
					if me.ID == m.ID {
						for _, tp := range me.Ready {
							ready[m.Inst][tp.Partition]++
						}
					}
				}
				for _, tp := range plan[m.ID].Prepare {
					told[m.Inst][tp.Partition]++
				}
			}
		}
		o := w.appOpts()
		var ms_ []*meter
		start := func() *meter {
			m := &meter{kind: pick(r, "normal", "normal", "slow", "blocked", "released", "none"), gate: make(chan struct{}), user: map[int]streams.Metric{}, delay: pick(r, ms(2), ms(40))}
			o.Name = ""
			o.Metrics = m.handle
			if m.kind == "none" {
				o.Metrics = nil
			}
			o.Hold = true
			a := w.newApp(o)
			m.app = a
			if r.IntN(3) == 0 {
				m.emit(1+r.IntN(50), exact) // before anything runs
			}
			a.consume()
			w.step("start %s, metrics consumer %s", a, m.kind)
			ms_ = append(ms_, m)
			return m
		}
		if r.IntN(2) == 0 {
			w.load(r.IntN(150), 0)
		}
		start()
		if r.IntN(2) == 0 {
			w.settled(60*time.Second, "metrics")
			start()
		}
		wait := w.background(60+r.IntN(300), time.Duration(1+r.IntN(5))*time.Second)
		for i := r.IntN(6); i > 0; i-- {
			w.randSleep(2 * time.Second)
			m := ms_[r.IntN(len(ms_))]
			switch r.IntN(5) {
			case 0:
				if m.userN < 600 {
					m.emit(1+r.IntN(200), exact)
				}
			case 1:
				w.step("flood %s", m.app)
				m.mu.Lock()
				m.flood = true
				m.mu.Unlock()
				var wg sync.WaitGroup
				for g := 0; g < 3; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						m.emit(700+int(w.seed%300), exact)
					}()
				}
				wg.Wait()
			case 2:
				if l := w.liveApps(); len(l) < 3 {
					start()
				}
			case 3:
				if l := w.liveApps(); len(l) > 1 {
					a := l[r.IntN(len(l))]
					w.step("stop %s", a)
					w.graceful(a)
					if r.IntN(2) == 0 {
						for _, x := range ms_ {
							if x.app == a {
								x.emit(20, exact)
								a.waitDone("metrics")
								w.step("emit after done")
								x.emit(pick(r, 10, 3000), exact)
							}
						}
					}
				}
			case 4:
				if l := w.liveApps(); len(l) > 1 {
					a := l[r.IntN(len(l))]
					w.step("kill %s", a)
					a.kill()
				}
			}
		}
		wait()
		w.end("metrics", 120*time.Second)
		for _, m := range ms_ {
			if m.kind == "released" {
				close(m.gate)
			}
		}
		time.Sleep(pick(r, 3*time.Second, 30*time.Second))
		// an idle application commits in time, whatever the metrics consumer does
		for i := 0; exact && i < 3; i++ {
			p := int32(r.IntN(w.plan.Parts))
			w.appendEvents(p, 1)
			if !w.drain(100*time.Second, "metrics, idle") {
				break
			}
			time.Sleep(3 * time.Second)
		}
		for _, m := range ms_ {
			m.mu.Lock()
			n := len(m.user)
			slow := m.kind == "slow"
			m.mu.Unlock()
			if slow {
				time.Sleep(time.Duration(n+1000) * m.delay)
			}
			if m.app.dead.Load() {
				continue
			}
			rd, td := map[int32]int{}, map[int32]int{}
			w.b.Lock()
			for p, n := range ready[m.app.o.Name] {
				rd[p] = n
			}
			for p, n := range told[m.app.o.Name] {
				td[p] = n
			}
			w.b.Unlock()
			if m.kind != "none" {
				m.check(rd, td)
			}
			w.c.Count("metrics consumers: "+m.kind, 1)
		}
		if len(ms_) > 1 && r.IntN(2) == 0 {
			// metrics while stopping, from several goroutines
			var end atomic.Bool
			var wg sync.WaitGroup
			for _, m := range ms_ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for !end.Load() {
						m.emit(5, false)
						time.Sleep(ms(5))
					}
				}()
			}
			w.stopRest()
			end.Store(true)
			wg.Wait()
		}
	}
}
