package e2e

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aws/go-kafka-event-source/streams"

	"verifh/kbroker"
)

// bounded keeps the work an application may have accepted far below the session timeout.
func (w *World) bounded() {
	pl := &w.plan
	pl.JobMax = min(pl.JobMax, ms(10))
	pl.HandlerMax = min(pl.HandlerMax, ms(1))
	pl.Burst = min(pl.Burst, 30)
}

// pickStrategies draws the balance strategies all applications use.
func (w *World) pickStrategies() {
	w.strat = pick(w.r, nil, nil, nil,
		[]streams.BalanceStrategy{streams.IncrementalBalanceStrategy},
		[]streams.BalanceStrategy{streams.IncrementalBalanceStrategy, streams.CooperativeStickyBalanceStrategy},
		[]streams.BalanceStrategy{streams.CooperativeStickyBalanceStrategy, streams.IncrementalBalanceStrategy},
		[]streams.BalanceStrategy{streams.CooperativeStickyBalanceStrategy},
		[]streams.BalanceStrategy{streams.RangeBalanceStrategy},
		[]streams.BalanceStrategy{streams.RoundRobinBalanceStrategy},
		[]streams.BalanceStrategy{streams.RangeBalanceStrategy, streams.RoundRobinBalanceStrategy})
	w.note("strategies=%v", w.strat)
}

// background runs the load beside the driver; the returned function waits for its end.
func (w *World) background(n int, d time.Duration) (wait func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		w.load(n, d)
	}()
	return func() { <-done }
}

func (w *World) randSleep(max time.Duration) {
	switch w.r.IntN(4) {
	case 0:
		time.Sleep(time.Duration(w.r.Int64N(int64(max/20) + 1)))
	default:
		time.Sleep(time.Duration(w.r.Int64N(int64(max) + 1)))
	}
}

func (w *World) step(f string, a ...any) {
	w.desc = append(w.desc, fmt.Sprintf("%v ", time.Since(w.t0).Round(time.Microsecond))+fmt.Sprintf(f, a...))
	w.logf(f, a...)
}

// owners lists the applications that own each partition.
func (w *World) owners() map[int32][]*App {
	w.mu.Lock()
	defer w.mu.Unlock()
	m := map[int32][]*App{}
	for _, a := range w.apps {
		if a.dead.Load() || a.zombie.Load() || a.o.Group != w.group {
			continue
		}
		for p, ps := range a.parts {
			if ps.activated > 0 && ps.revoked == 0 {
				m[p] = append(m[p], a)
			}
		}
	}
	return m
}

// settled waits until every partition is active on exactly one live application.
func (w *World) settled(limit time.Duration, why string) bool {
	t0 := time.Now()
	for {
		own := w.owners()
		ok := true
		for p := int32(0); p < int32(w.plan.Parts); p++ {
			if len(own[p]) != 1 || !own[p][0].live() {
				ok = false
			}
		}
		if ok {
			w.c.Count("ownership complete after changes", 1)
			return true
		}
		if len(w.liveApps()) == 0 {
			return false
		}
		if time.Since(t0) > limit {
			prop := "C05"
			if w.stops.Load() > 0 {
				prop = "C28"
			}
			w.fail(prop, "partitions are not owned by the remaining members", "%s: %v after the last change: owners %v\ngroup %+v\n%s", why, limit, own, w.b.GroupInfo(w.group, srcTopic), libStacks())
			return false
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// owned reports how long to wait until load can be taken for granted.
func (w *World) end(why string, limit time.Duration) {
	if w.drain(limit, why) {
		w.settled(90*time.Second, why)
	}
	time.Sleep(ms(300))
}

// graceful stops the application in the background and checks that it ends.
func (w *World) graceful(a *App) {
	w.stops.Add(1)
	a.stop(false)
}

// trap fires once, at the n-th request of an application that matches.
type trap struct {
	inst  string
	keys  map[int16]bool
	n     int64
	after bool
	f     func()
	fired atomic.Bool
}

type traps struct {
	mu sync.Mutex
	l  []*trap
}

func (t *traps) set(x *trap) {
	t.mu.Lock()
	t.l = append(t.l, x)
	t.mu.Unlock()
}

func (t *traps) fault(rq *kbroker.Request) (f kbroker.Fault) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, x := range t.l {
		if x.inst != rq.Inst || !x.keys[rq.Key] || x.fired.Load() {
			continue
		}
		x.n--
		if x.n > 0 {
			continue
		}
		x.fired.Store(true)
		if x.after {
			f.After, f.DropAfter = x.f, true
		} else {
			f.Before, f.DropBefore = x.f, true
		}
		return
	}
	return
}

func init() {
	// applications come and go gracefully while events flow
	profiles["move"] = func(w *World) {
		w.bounded()
		w.plan.Parts = pick(w.r, 2, 3, 4, 6, 8)
		w.pickStrategies()
		w.cluster(kbroker.Config{})
		r := w.r
		n := 100 + r.IntN(500)
		dur := time.Duration(2+r.IntN(20)) * time.Second
		if r.IntN(3) == 0 {
			w.load(r.IntN(100), 0)
		}
		if r.IntN(6) == 0 { // some stores take their time
			w.stallMax = pick(r, ms(50), 400*time.Millisecond, 1300*time.Millisecond, 2500*time.Millisecond)
			w.stalls.Store(int64(1 + r.IntN(8)))
			w.note("stores stall up to %d times for %v", w.stalls.Load(), w.stallMax)
		}
		o := w.appOpts()
		start := func() {
			o.Name = ""
			a := w.newApp(o)
			w.step("start %s", a)
		}
		for i := 1 + r.IntN(3); i > 0; i-- {
			start()
			w.randSleep(2 * time.Second)
		}
		wait := w.background(n, dur)
		for i := 1 + r.IntN(5); i > 0; i-- {
			w.randSleep(4 * time.Second)
			live := w.liveApps()
			if len(live) > 1 && (r.IntN(2) == 0 || len(live) > 4) {
				a := live[r.IntN(len(live))]
				w.step("stop %s", a)
				w.graceful(a)
			} else if len(live) <= 4 {
				start()
			}
		}
		wait()
		w.end("move", 120*time.Second)
	}
}

func init() {
	// applications crash, also at particular requests, are stopped immediately, leave gracefully and come back
	profiles["crash"] = func(w *World) {
		w.bounded()
		r := w.r
		w.plan.Parts = pick(r, 1, 2, 3, 4, 6)
		w.pickStrategies()
		tr := &traps{}
		w.cluster(kbroker.Config{Fault: tr.fault})
		n := 100 + r.IntN(400)
		dur := time.Duration(2+r.IntN(15)) * time.Second
		if r.IntN(3) == 0 {
			w.load(r.IntN(100), 0)
		}
		o := w.appOpts()
		start := func() {
			o.Name = ""
			a := w.newApp(o)
			w.step("start %s", a)
		}
		for i := 1 + r.IntN(2); i > 0; i-- {
			start()
			w.randSleep(time.Second)
		}
		wait := w.background(n, dur)
		keys := [][]int16{{0}, {24}, {26}, {24, 26, 0}, {22}, {11}, {14}, {1}, {26}, {26}, {0, 26}, {13, 12}}
		for i := 1 + r.IntN(4); i > 0; i-- {
			w.randSleep(3 * time.Second)
			live := w.liveApps()
			if len(live) == 0 {
				start()
				continue
			}
			a := live[r.IntN(len(live))]
			switch r.IntN(8) {
			case 0, 1:
				w.step("kill %s", a)
				a.kill()
			case 2, 3, 4:
				ks := keys[r.IntN(len(keys))]
				m := map[int16]bool{}
				for _, k := range ks {
					m[k] = true
				}
				x := &trap{inst: a.o.Name, keys: m, n: int64(1 + r.IntN(30)), after: r.IntN(2) == 0}
				x.f = func() { a.kill(); w.c.Count("crashes at a chosen request", 1) }
				w.step("kill %s at request %v number %d after=%v", a, ks, x.n, x.after)
				tr.set(x)
				for k := 0; k < 40 && !a.dead.Load(); k++ {
					time.Sleep(ms(100))
				}
				if !a.dead.Load() {
					x.fired.Store(true)
					a.kill()
				}
			case 5:
				w.step("stop now %s", a)
				w.stops.Add(1)
				a.stop(true)
			case 6:
				w.step("stop %s", a)
				w.graceful(a)
				if r.IntN(2) == 0 {
					w.randSleep(2 * time.Second)
					w.step("kill %s", a)
					a.kill()
				}
			case 7:
				start()
			}
			w.c.Count("crashes and stops", 1)
			if r.IntN(3) > 0 {
				w.randSleep(8 * time.Second)
			}
			if len(w.liveApps()) < 1 || r.IntN(3) == 0 {
				start()
			}
		}
		wait()
		if len(w.liveApps()) == 0 {
			start()
		}
		w.end("crash", 150*time.Second)
	}
}
