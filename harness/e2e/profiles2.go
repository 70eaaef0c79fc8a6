package e2e

import (
	"fmt"
	"sync"
	"time"

	"github.com/aws/go-kafka-event-source/streams"

	"verifh/core"
	"verifh/kbroker"
)

// waiters checks that everybody who waits for the end of an application is told.
func (a *App) waiters(n int) (check func()) {
	var mu sync.Mutex
	told := 0
	for i := 0; i < n; i++ {
		go func() {
			<-a.es.Done()
			mu.Lock()
			told++
			mu.Unlock()
		}()
	}
	return func() {
		if !a.waitDone("stop") {
			return
		}
		// latecomers are told as well
		late := false
		select {
		case <-a.es.Done():
			late = true
		default:
		}
		time.Sleep(ms(1))
		mu.Lock()
		defer mu.Unlock()
		if told != n || !late {
			a.w.fail("C28", "done is not signalled to every waiter", "%s: %d of %d waiters were told; a later one: %v", a, told, n, late)
		}
		a.w.c.Count("waiters told", int64(n))
	}
}

// markStop records that the application is being stopped by other means than App.stop.
func (a *App) markStop() {
	a.w.mu.Lock()
	if !a.stopping.Load() {
		a.stopping.Store(true)
		a.stopAt = time.Now()
	}
	a.w.mu.Unlock()
	a.w.stops.Add(1)
}

func init() {
	// applications are stopped in every way at every moment
	profiles["stop"] = func(w *World) {
		r := w.r
		w.bounded()
		w.plan.Parts = pick(r, 1, 2, 3, 4, 6)
		w.pickStrategies()
		cfg := kbroker.Config{ProduceFault: w.refuseMarkers()}
		if r.IntN(3) == 0 {
			cfg.JoinDelay = time.Duration(r.IntN(3000)) * time.Millisecond
		}
		w.cluster(cfg)
		if r.IntN(2) == 0 {
			w.load(r.IntN(300), 0)
		}
		o := w.appOpts()
		start := func(hold bool) *App {
			o.Name, o.Hold = "", hold
			a := w.newApp(o)
			w.step("start %s hold=%v", a, hold)
			return a
		}
		for i := r.IntN(3); i > 0; i-- {
			start(false)
			w.randSleep(2 * time.Second)
		}
		wait := w.background(r.IntN(400), time.Duration(1+r.IntN(15))*time.Second)
		var checks []func()
		for i := 1 + r.IntN(4); i > 0; i-- {
			hold := r.IntN(6) == 0
			var a *App
			if l := w.liveApps(); len(l) > 0 && r.IntN(2) == 0 {
				a = l[r.IntN(len(l))]
				hold = false
			} else {
				a = start(hold)
			}
			nw := r.IntN(4)
			check := a.waiters(nw)
			checks = append(checks, check)
			w.randSleep(pick(r, ms(2), ms(60), time.Second, 4*time.Second))
			how := r.IntN(8)
			w.step("stop %s way %d", a, how)
			w.c.Count(fmt.Sprintf("stop way %d", how), 1)
			if hold && r.IntN(2) == 0 {
				if how > 2 {
					how = r.IntN(2)
				}
				defer func() { a.es.ConsumeEvents() }() // too late
			}
			switch how {
			case 0, 1:
				w.graceful(a)
			case 2:
				a.stop(true)
				w.stops.Add(1)
			case 3: // graceful, then impatient
				w.graceful(a)
				w.randSleep(pick(r, ms(2), ms(100), 2*time.Second))
				a.stop(true)
			case 4: // repeatedly
				w.graceful(a)
				for k := 0; k < 3; k++ {
					w.randSleep(ms(50))
					a.stop(k == 2 && r.IntN(2) == 0)
				}
			case 5: // from several goroutines at once
				now := r.IntN(3) == 0
				for k := 0; k < 4; k++ {
					go a.stop(now && k == 3)
				}
				w.stops.Add(1)
				for !a.stopping.Load() {
					time.Sleep(ms(1))
				}
			case 6: // through a channel
				c := make(chan struct{})
				called := make(chan struct{})
				go a.es.WaitForChannel(c, func() { close(called) })
				a.markStop()
				close(c)
				checks = append(checks, func() {
					if !a.waitDone("WaitForChannel") {
						return
					}
					select {
					case <-called:
					case <-time.After(5 * time.Second):
						w.fail("C28", "WaitForChannel does not return", "%s is done", a)
					}
				})
			case 7: // while it loads or rebalances
				start(false)
				w.randSleep(ms(200))
				w.graceful(a)
			}
			if r.IntN(2) == 0 {
				check()
				checks = checks[:len(checks)-1]
			}
			w.randSleep(3 * time.Second)
		}
		wait()
		for _, c := range checks {
			c()
		}
		if len(w.liveApps()) == 0 {
			start(false)
		}
		w.end("stop", 120*time.Second)
	}

	// an idle application
	profiles["trickle"] = func(w *World) {
		r := w.r
		pl := &w.plan
		pl.HandlerMax = 0
		pl.JobMax = min(pl.JobMax, ms(10))
		pl.MaxOuts = min(pl.MaxOuts, 3)
		pl.BigOuts = 0
		pl.Modes[mBProd], pl.Modes[mBad] = 0, 0
		e := &w.eos
		e.BatchDelay = pick(r, ms(5), ms(20), ms(200), ms(500), 2*time.Second)
		e.MaxBatchSize = pick(r, 5, 20, 1000)
		e.TargetBatchSize = e.MaxBatchSize - r.IntN(3)
		lat := pick(r, 100*time.Microsecond, ms(1), ms(3))
		w.cluster(kbroker.Config{Latency: func(int16) time.Duration { return lat }, ReplyDelay: func(int16) time.Duration { return lat }, MarkerDelay: func() time.Duration { return 0 }})
		core.ApplyPerturb(core.Perturb{Seed: r.Uint64(), YieldProb: uint32(r.IntN(20000)), SiteProb: 8000, MaxHits: 100})
		o := w.appOpts()
		o.BatchDelay = min(o.BatchDelay, ms(1))
		a := w.newApp(o)
		w.settled(60*time.Second, "trickle")
		slack := 40*lat + ms(30)
		for i := 20 + r.IntN(40); i > 0; i-- {
			n := pick(r, 1, 1, 1, 2, 4)
			p := int32(r.IntN(pl.Parts))
			w.appendEvents(p, n)
			evs := w.lastEvents(p, n)
			t0 := time.Now()
			for {
				if ok, _ := w.allCommitted(); ok {
					break
				}
				if time.Since(t0) > e.BatchDelay+60*time.Second {
					for _, e := range evs {
						w.mu.Lock()
						done := len(e.completed) > 0
						w.mu.Unlock()
						if done {
							w.fail("C16", "pending event is not committed", "%s: event %s (%s) of an idle application has been completed, but not committed for %v, batch delay %v", a, e.ID, modeNames[e.Mode], time.Since(t0), w.eos.BatchDelay)
						}
					}
					w.stalled("trickle", time.Since(t0))
					return
				}
				time.Sleep(ms(1))
			}
			now := time.Now()
			for _, e := range evs {
				w.mu.Lock()
				c := e.starts[len(e.starts)-1]
				d := now.Sub(c.done)
				w.mu.Unlock()
				if d > w.eos.BatchDelay+slack {
					w.fail("C16", "pending event committed late", "%s: event %s (%s) of an idle application is committed %v after its completion, batch delay %v (latency %v)", a, e.ID, modeNames[e.Mode], d, w.eos.BatchDelay, lat)
				}
				w.c.Count("idle commits timed", 1)
			}
			switch r.IntN(3) {
			case 0:
				time.Sleep(time.Duration(r.Int64N(int64(3 * w.eos.BatchDelay))))
			case 1:
				time.Sleep(time.Duration(r.Int64N(int64(20 * time.Second))))
			}
		}
	}

	// interjections of every kind, while partitions move
	profiles["ij"] = func(w *World) {
		r := w.r
		w.bounded()
		w.plan.Parts = pick(r, 1, 2, 3, 4)
		w.pickStrategies()
		busy := r.IntN(3) == 0
		if busy {
			e := &w.eos
			e.MaxBatchSize, e.PoolSize = 1+r.IntN(5), 2+r.IntN(2)
			e.TargetBatchSize = 1 + r.IntN(e.MaxBatchSize)
			w.ijWait = e.MaxBatchSize*e.PoolSize + 40
			w.plan.Parts = pick(r, 1, 2)
		}
		w.cluster(kbroker.Config{})
		o := w.appOpts()
		for i := r.IntN(3); i > 0; i-- {
			every := pick(r, ms(200), time.Second, 3*time.Second)
			o.Periodic = append(o.Periodic, Periodic{Name: fmt.Sprintf("p%d", i), Every: every, Jitter: pick(r, 0, every/10, every/2), Async: r.IntN(2) == 0, Dur: pick(r, 0, ms(1), ms(20))})
		}
		w.note("periodic %+v", o.Periodic)
		start := func() {
			o.Name = ""
			a := w.newApp(o)
			w.step("start %s", a)
		}
		for i := 1 + r.IntN(2); i > 0; i-- {
			start()
			w.randSleep(time.Second)
		}
		wait := w.background(r.IntN(400), 10*time.Second)
		var wg sync.WaitGroup
		stopCallers := make(chan struct{})
		for k := 1 + r.IntN(4); k > 0; k-- {
			seed := r.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				n := uint64(0)
				for {
					select {
					case <-stopCallers:
						return
					default:
					}
					n++
					x := core.Mix(seed, n)
					w.mu.Lock()
					a := w.apps[int(x%uint64(len(w.apps)))]
					w.mu.Unlock()
					if a.dead.Load() || !a.up.Load() {
						time.Sleep(ms(10))
						continue
					}
					switch x >> 20 % 10 {
					case 0:
						a.interjectAll(x, false)
					case 1:
						a.interjectAll(x, true)
					default:
						a.interject(int32(x>>32%uint64(w.plan.Parts)), x)
					}
					time.Sleep(time.Duration(core.Mix(x, 1) % uint64(ms(400))))
				}
			}()
		}
		for i := r.IntN(4); i > 0; i-- {
			w.randSleep(4 * time.Second)
			live := w.liveApps()
			switch {
			case busy && r.IntN(2) == 0:
				w.appendEvents(int32(r.IntN(w.plan.Parts)), 100+r.IntN(500))
			case len(live) > 1 && r.IntN(2) == 0:
				a := live[r.IntN(len(live))]
				w.step("stop %s", a)
				w.graceful(a)
			case len(live) > 0 && r.IntN(4) == 0:
				a := live[r.IntN(len(live))]
				w.step("stop now %s", a)
				w.stops.Add(1)
				a.stop(true)
			default:
				start()
			}
		}
		if len(w.liveApps()) == 0 {
			start()
		}
		wait()
		w.end("ij", 120*time.Second)
		w.quiet(o.Periodic)
		close(stopCallers)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			w.fail("C11", "interjection caller not released", "callers are still blocked after 100s\n%s", libStacks())
		}
	}
}

func (w *World) lastEvents(p int32, n int) []*Ev {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.evs[p]
	return append([]*Ev(nil), l[len(l)-n:]...)
}

// stable tells whether the application has owned the active partition all the time since t.
type tenure struct {
	active, revoking bool
	epoch            int
}

func (a *App) tenure(p int32) tenure {
	a.w.mu.Lock()
	defer a.w.mu.Unlock()
	ps := a.part(p)
	return tenure{ps.activated > 0 && ps.revoked == 0, ps.willRevoke > 0, ps.epoch}
}

// ijCmd is an interjection; it returns the function to hand to the library.
func (a *App) ijCmd(ij *Ij, x uint64, what string, onRun func(p int32)) streams.Interjector[*Store] {
	w := a.w
	return func(ec *streams.EventContext[*Store], now time.Time) streams.ExecutionState {
		st := ec.Store()
		defer st.enter("interjection " + what)()
		if a.dead.Load() {
			return streams.Incomplete
		}
		k := ij
		if k == nil {
			k = a.newIj("all", ec.TopicPartition().Partition)
		}
		if onRun != nil {
			onRun(ec.TopicPartition().Partition)
		}
		if d := time.Since(now); d > time.Second || d < 0 {
			w.fail("C11", "wrong interjection time", "%v off", d)
		}
		a.ijRun(k, ec, what)
		sync := x>>40%3 != 0
		late := !sync && x>>44%2 == 0
		if !late {
			a.ijWrite(k, ec, false)
		}
		w.sleepFor(x, ms(1))
		if sync {
			return streams.Complete
		}
		go func() {
			w.sleepFor(x>>3, ms(20))
			ec.AsyncJobComplete(func() streams.ExecutionState {
				defer st.enter("interjection finalizer")()
				if a.dead.Load() {
					return streams.Incomplete
				}
				if late {
					a.ijWrite(k, ec, true)
				}
				return streams.Complete
			})
		}()
		return streams.Incomplete
	}
}

func (a *App) interject(p int32, x uint64) {
	w := a.w
	ij := a.newIj("one", p)
	before := a.tenure(p)
	if !w.race {
		w.mu.Lock()
		if ps := a.part(p); before.active && !before.revoking {
			ij.asked, ij.begun, ij.epoch = true, ps.begun, ps.epoch
		}
		w.mu.Unlock()
	}
	done, failed := a.isDone.Load(), a.failed.Load() || a.stopping.Load()
	t0 := time.Now()
	ch := a.es.Interject(p, a.ijCmd(ij, x, "one-off", nil))
	callTook := time.Since(t0)
	w.c.Count("interjections requested", 1)
	var err error
	select {
	case err = <-ch:
	case <-time.After(100 * time.Second):
		w.fail("C11", "interjection not answered", "%s partition %d: no answer after 100s, before %+v, now %+v (stopping=%v done=%v)\n%s", a, p, before, a.tenure(p), a.stopping.Load(), a.isDone.Load(), libStacks())
		return
	}
	took := time.Since(t0)
	after := a.tenure(p)
	if w.race || a.dead.Load() {
		return
	}
	w.mu.Lock()
	runs, rp := ij.runs, ij.p
	w.mu.Unlock()
	desc := fmt.Sprintf("%s partition %d: error %v after %v, ran %d times, before %+v, after %+v", a, p, err, took, runs, before, after)
	switch {
	case runs > 1:
		w.fail("C11", "interjection ran more than once", "%s", desc)
	case err == nil && runs == 0:
		w.fail("C11", "success reported for an interjection that did not run", "%s", desc)
	case runs == 1 && rp != p:
		w.fail("C11", "interjection ran in another partition", "%s: %d", desc, rp)
	case before.active && !before.revoking && after.active && !after.revoking && before.epoch == after.epoch && !failed && !a.failed.Load() && !a.stopping.Load() && err != nil:
		w.fail("C11", "interjection into an active partition fails", "%s", desc)
	case (!before.active && before == after || done) && runs == 0 && (err == nil || callTook > 2*time.Second || took > 2*time.Second):
		w.fail("C11", "no immediate error for a partition that is not owned", "%s (done before: %v)", desc, done)
	}
	if err == nil {
		w.c.Count("interjections answered with success", 1)
	} else {
		w.c.Count("interjections answered with an error", 1)
	}
}

func (a *App) interjectAll(x uint64, sync_ bool) {
	w := a.w
	var before []tenure
	for p := 0; p < w.plan.Parts; p++ {
		before = append(before, a.tenure(int32(p)))
	}
	stopping := a.stopping.Load() || a.failed.Load()
	var mu sync.Mutex
	runs := map[int32]int{}
	in, overlap := 0, false
	f := a.ijCmd(nil, x, "all", func(p int32) {
		mu.Lock()
		runs[p]++
		mu.Unlock()
	})
	g := func(ec *streams.EventContext[*Store], now time.Time) streams.ExecutionState {
		mu.Lock()
		in++
		overlap = overlap || in > 1
		mu.Unlock()
		defer func() {
			mu.Lock()
			in--
			mu.Unlock()
		}()
		return f(ec, now)
	}
	done := make(chan struct{})
	go func() {
		if sync_ {
			a.es.InterjectAllSync(g)
		} else {
			a.es.InterjectAll(g)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		w.fail("C11", "interjection caller not released", "%s: InterjectAll (sync %v) does not return\n%s", a, sync_, libStacks())
		return
	}
	if w.race || a.dead.Load() {
		return
	}
	w.c.Count("InterjectAll calls", 1)
	mu.Lock()
	defer mu.Unlock()
	for p := range before {
		n := runs[int32(p)]
		after := a.tenure(int32(p))
		b := before[p]
		if n > 1 {
			w.fail("C11", "interjection ran more than once", "%s partition %d: InterjectAll ran %d times", a, p, n)
		}
		if b.active && !b.revoking && after.active && !after.revoking && b.epoch == after.epoch && !stopping && !a.stopping.Load() && !a.failed.Load() && n == 0 {
			w.fail("C11", "InterjectAll misses an active partition", "%s partition %d (sync %v): before %+v after %+v", a, p, sync_, b, after)
		}
	}
	if sync_ && overlap {
		w.fail("C11", "InterjectAllSync runs in parallel", "%s", a)
	}
}

// quiet watches the periodic interjections of a settled group for a while.
func (w *World) quiet(ps []Periodic) {
	if len(ps) == 0 || len(w.liveApps()) == 0 || w.race {
		return
	}
	var worst time.Duration
	for _, pi := range ps {
		worst = max(worst, pi.Every+pi.Jitter+pi.Dur)
	}
	from := time.Now()
	const slack = time.Second
	for time.Since(from) < 4*(worst+slack) {
		time.Sleep(ms(250))
		w.mu.Lock()
		for _, a := range w.apps {
			if !a.live() || a.zombie.Load() {
				continue
			}
			for p, s := range a.parts {
				if s.activated == 0 || s.willRevoke > 0 {
					continue
				}
				for _, pi := range ps {
					last := s.lastIj[pi.Name]
					if last.Before(from) {
						last = from
					}
					if s.activatedAt.After(last) {
						last = s.activatedAt
					}
					if d := time.Since(last); d > pi.Every+pi.Jitter+2*pi.Dur+slack {
						w.failL("C11", "periodic interjection does not fire", "%s partition %d %s: nothing for %v, every %v jitter %v async %v", a, p, pi.Name, d, pi.Every, pi.Jitter, pi.Async)
						s.lastIj[pi.Name] = time.Now()
					}
				}
			}
		}
		w.mu.Unlock()
	}
	w.c.Count("periodic interjections watched", 1)
}
