package e2e

import (
	"fmt"
	"os"
	"os/signal"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/aws/go-kafka-event-source/streams"

	"verifh/kbroker"
)

func init() {
	// events that cannot be decoded, under every policy
	profiles["decode"] = func(w *World) {
		r := w.r
		w.bounded()
		w.plan.Parts = pick(r, 1, 2, 3)
		w.plan.Modes[mBad] = pick(r, 1, 3, 20)
		w.plan.Modes[mSync2]++
		w.plan.Modes[mDefault]++
		w.pickStrategies()
		policy := pick(r, "default", "default", "default", "continue", "continue", "fail", "fail", "fail", "fail", "exit")
		w.note("policy=%s", policy)
		w.mayFail = policy == "fail" || policy == "exit"
		w.cluster(kbroker.Config{})
		o := w.appOpts()
		start := func() *App {
			o.Name = ""
			a := w.newApp(o)
			w.step("start %s", a)
			return a
		}
		if policy == "default" {
			w.decodeDefault = true
			o.RawConf = func(c *streams.EventSourceConfig) { c.DeserializationErrorHandler = nil }
		}
		if policy == "default" || policy == "continue" {
			start()
			wait := w.background(100+r.IntN(300), time.Duration(1+r.IntN(8))*time.Second)
			for i := r.IntN(4); i > 0; i-- {
				w.randSleep(2 * time.Second)
				if l := w.liveApps(); len(l) > 1 && r.IntN(2) == 0 {
					w.graceful(l[r.IntN(len(l))])
				} else if len(l) < 3 {
					start()
				}
			}
			wait()
			w.end("decode", 120*time.Second)
			return
		}
		// one application refuses an event: it is not committed, and neither is what follows, until somebody else takes over
		vo := o
		vo.Name = "victim"
		var victim *App
		var refused atomic.Int64
		nth := int64(1 + r.IntN(pick(r, 1, 5, 20)))
		var seen atomic.Int64
		type refusal struct {
			p   int32
			off int64
		}
		ref := make(chan refusal, 100)
		think := pick(r, 0, ms(1), ms(40), ms(200), 700*time.Millisecond)
		vo.DecodeErr = func(ec streams.ErrorContext, t string, err error) streams.ErrorResponse {
			if seen.Add(1) < nth {
				victim.decodeErr(ec, t, err)
				return streams.Continue
			}
			if victim.dead.Load() {
				return streams.FailConsumer
			}
			refused.Add(1)
			victim.ungraceful("refuses to continue after a decode error")
			in, ok := ec.Input()
			if w.race {
				return streams.FailConsumer
			}
			if policy == "exit" {
				w.c.Count("exits after a decode error", 1)
				w.c.ExpectExit(strings.SplitN(err.Error(), "\n", 2)[0])
				return streams.FatallyExit
			}
			w.mu.Lock()
			e := w.byOff[ec.TopicPartition().Partition][ec.Offset()]
			w.mu.Unlock()
			if e == nil || e.Mode != mBad || !ok || in.Offset() != ec.Offset() || in.RecordType() != t {
				w.fail("C14", "decode error for the wrong event", "%v@%d type %q input %v", ec.TopicPartition(), ec.Offset(), t, ok)
			}
			select {
			case ref <- refusal{ec.TopicPartition().Partition, ec.Offset()}:
			default:
			}
			time.Sleep(think) // a transaction may be waiting for it
			return streams.FailConsumer
		}
		victim = w.newApp(vo)
		w.step("start victim, refuses decode error %d", nth)
		w.settled(60*time.Second, "decode")
		if r.IntN(2) == 0 {
			start()
			w.settled(60*time.Second, "decode")
		}
		wait := w.background(100+r.IntN(200), 5*time.Second)
		wait()
		for k := 0; k < 100 && refused.Load() == 0; k++ {
			time.Sleep(ms(100))
		}
		if policy == "exit" && refused.Load() > 0 && !w.race {
			time.Sleep(10 * time.Second)
			w.fail("C15", "process does not exit", "the decode error handler asked to exit, state %v done %v\n%s", victim.es.State(), victim.isDone.Load(), libStacks())
			w.finish()
		}
		if refused.Load() > 0 {
			w.c.Count("events refused by the decode error handler", refused.Load())
			var x refusal
			if !w.race {
				x = <-ref
			}
			// nobody has processed it as long as the victim owns it
			for k := 0; k < 50 && !w.race; k++ {
				w.mu.Lock()
				e := w.byOff[x.p][x.off]
				done := e != nil && len(e.completed) > 0
				w.mu.Unlock()
				pos := w.position(x.p)
				if pos > x.off && !done && !w.race {
					w.fail("C14", "an event whose decode error was refused is committed", "partition %d offset %d, position %d", x.p, x.off, pos)
					break
				}
				time.Sleep(ms(50))
			}
			// it stops and leaves the group at once
			w.checkFailed("decode")
		} else {
			victim.stop(false)
			w.stops.Add(1)
		}
		w.load(30, time.Second)
		w.endReplacing("decode", start)
	}

	// everything an application can be asked before it consumes, and after it is done
	profiles["early"] = func(w *World) {
		r := w.r
		w.bounded()
		w.plan.Parts = pick(r, 1, 2, 4)
		w.pickStrategies()
		w.cluster(kbroker.Config{})
		o := w.appOpts()
		if r.IntN(2) == 0 {
			o.Metrics = func(streams.Metric) {}
		}
		if r.IntN(2) == 0 {
			w.load(r.IntN(200), 0)
		}
		others := r.IntN(2)
		for i := 0; i < others; i++ {
			a := w.newApp(o)
			w.step("start %s", a)
			if r.IntN(2) == 0 {
				w.settled(60*time.Second, "early")
			}
		}
		poke := func(a *App, when string) {
			done := make(chan struct{})
			what := r.IntN(6)
			x := r.Uint64()
			p := int32(r.IntN(w.plan.Parts))
			w.step("%s: %s call %d", a, when, what)
			go func() {
				defer close(done)
				switch what {
				case 0, 1:
					a.interject(p, x)
				case 2:
					a.interjectAll(x, true)
				case 3:
					a.interjectAll(x, false)
				case 4:
					a.es.EmitMetric(streams.Metric{Operation: "user", Count: 1, StartTime: time.Now(), EndTime: time.Now()})
				case 5:
					if s := a.es.State(); s != streams.Healthy && !a.failed.Load() {
						w.fail("C15", "healthy consumer is reported unhealthy", "%s: %s: %v", a, when, s)
					}
					if s := a.es.Source(); s.Topic() != a.o.Topic || s.GroupId() != a.o.Group {
						w.fail("C25", "source differs from its configuration", "%s: %+v", a, s.Config())
					}
					if rs := a.es.ForkRunStatus(); when != "while stopping" && rs.Running() != (when != "after done") {
						w.fail("C28", "run status is wrong", "%s: %s: forked run status running=%v", a, when, rs.Running())
					}
				}
			}()
			select {
			case <-done:
			case <-time.After(110 * time.Second):
				w.fail("C28", "call does not return", "%s: %s: call %d\n%s", a, when, what, libStacks())
			}
			w.c.Count("calls "+when, 1)
		}
		o.Hold, o.Name = true, ""
		a := w.newApp(o)
		w.step("%s is created", a)
		for i := r.IntN(5); i > 0; i-- {
			poke(a, "before consuming")
			if r.IntN(3) == 0 {
				w.randSleep(time.Second)
			}
		}
		if r.IntN(3) == 0 {
			// never consumes, or too late
			check := a.waiters(r.IntN(3))
			now := r.IntN(3) == 0
			w.step("%s is stopped before it consumes, now=%v", a, now)
			if now {
				a.stop(true)
				w.stops.Add(1)
			} else {
				w.graceful(a)
			}
			if r.IntN(2) == 0 {
				w.randSleep(ms(20))
				a.es.ConsumeEvents()
			}
			check()
			a.waitDone("before consuming")
		} else {
			w.randSleep(2 * time.Second)
			a.consume()
			for i := r.IntN(4); i > 0; i-- {
				w.randSleep(ms(500))
				poke(a, "while starting")
			}
			wait := w.background(r.IntN(200), 3*time.Second)
			wait()
			if others > 0 && r.IntN(2) == 0 || r.IntN(4) == 0 {
				w.graceful(a)
				for i := r.IntN(3); i > 0; i-- {
					poke(a, "while stopping")
					w.randSleep(ms(100))
				}
				a.waitDone("early")
			}
		}
		if a.isDone.Load() {
			for i := 1 + r.IntN(4); i > 0; i-- {
				poke(a, "after done")
			}
		}
		w.step("end")
		if len(w.liveApps()) == 0 {
			o.Hold, o.Name = false, ""
			w.newApp(o)
		}
		w.end("early", 120*time.Second)
	}

	// applications stopped by signals, in real time: the signals of a process do not reach a bubble
	profiles["signals"] = func(w *World) {
		r := w.r
		w.plan.JobMax = min(w.plan.JobMax, ms(10))
		w.plan.Parts = pick(r, 1, 2, 3)
		w.plan.CLParts = 1
		w.bounded()
		w.pickStrategies()
		w.cluster(kbroker.Config{})
		all := []os.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGUSR1, syscall.SIGUSR2}
		safe := make(chan os.Signal, 1000)
		signal.Notify(safe, all...) // the process must survive
		a := w.newApp(w.appOpts())
		w.load(r.IntN(50), 0)
		useDefault := r.IntN(3) == 0
		nilHook := r.IntN(3) == 0
		var hooked, veto atomic.Int64
		vetoes := int64(r.IntN(3))
		if nilHook {
			vetoes = 0
		}
		veto.Store(vetoes)
		var sigs []os.Signal
		if !useDefault {
			sigs = all[r.IntN(3):]
		}
		use := sigs
		if useDefault {
			use = all[:2]
		}
		hook := func(s os.Signal) bool {
			hooked.Add(1)
			ok := false
			for _, u := range use {
				ok = ok || u == s
			}
			if !ok {
				w.fail("C28", "hook gets another signal", "%v, wanted %v", s, use)
			}
			return veto.Add(-1) < 0
		}
		if nilHook {
			hook = nil
		}
		w.note("signals %v default=%v hook=%v vetoes=%d", use, useDefault, !nilHook, vetoes)
		if r.IntN(2) == 0 {
			w.settled(60*time.Second, "signals")
		}
		returned := make(chan struct{})
		go func() {
			a.es.WaitForSignals(hook, sigs...)
			select {
			case <-a.es.Done():
			default:
				w.fail("C28", "WaitForSignals returns before done", "%s", a)
			}
			close(returned)
		}()
		listening := func() bool {
			for _, g := range strings.Split(libStacks(), "\n\n") {
				if strings.Contains(g, "WaitForSignals") && strings.Contains(g, "[chan receive") {
					return true
				}
			}
			return false
		}
		for i := 0; i < 3000 && !listening(); i++ {
			time.Sleep(ms(10))
		}
		for k := int64(0); k < vetoes; k++ {
			h := hooked.Load()
			syscall.Kill(os.Getpid(), use[r.IntN(len(use))].(syscall.Signal))
			for i := 0; i < 3000 && hooked.Load() == h; i++ {
				time.Sleep(ms(10))
			}
			if hooked.Load() != h+1 {
				w.fail("C28", "hook not called", "%s: called %d times instead of %d", a, hooked.Load(), h+1)
			}
			time.Sleep(ms(100))
			select {
			case <-a.es.Done():
				w.fail("C28", "stopped although the hook vetoes it", "%s", a)
			default:
			}
		}
		a.markStop()
		syscall.Kill(os.Getpid(), use[r.IntN(len(use))].(syscall.Signal))
		signal.Notify(safe, all...)
		select {
		case <-returned:
		case <-time.After(100 * time.Second):
			w.fail("C28", "WaitForSignals does not return", "%s\n%s", a, libStacks())
		}
		signal.Notify(safe, all...)
		w.c.Count("applications stopped by a signal", 1)
		w.c.Count("signals vetoed", vetoes)
		a.waitDone("signal")
		o := w.appOpts()
		o.Name = ""
		w.newApp(o)
		w.end(strings.TrimSpace(fmt.Sprint("signals")), 120*time.Second)
	}
}
