package e2e

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verifh/core"
	"verifh/kbroker"
)

// errors clients are expected to retry
var retriable = map[int16][]int16{0: {6, 7, 19}, 1: {6, 5}, 3: {5}, 10: {15, 14}, 11: {15, 16, 14}, 14: {15, 16}, 12: {15, 16}, 22: {15, 51}, 24: {51, 16, 14}, 26: {51, 16, 15}, 13: {15}}

// storm makes requests fail in ways clients are expected to survive.
type storm struct {
	seed               uint64
	n                  counter
	on                 atomic.Bool
	drop, code, delay  int // out of 1000
	maxDelay           time.Duration
	keys               map[int16]bool // nil: all
	inst               atomic.Pointer[string]
	drops, codes, slow atomic.Int64
}

func (s *storm) fault(rq *kbroker.Request) (f kbroker.Fault) {
	if !s.on.Load() || s.keys != nil && !s.keys[rq.Key] {
		return
	}
	if i := s.inst.Load(); i != nil && *i != rq.Inst {
		return
	}
	x := core.Mix(s.seed, s.n.next())
	y := int(x % 1000)
	switch {
	case y < s.drop:
		s.drops.Add(1)
		if x>>20&1 == 0 {
			f.DropBefore = true
		} else {
			f.DropAfter = true
		}
	case y < s.drop+s.code:
		l := retriable[rq.Key]
		if ip, ok := rq.Req.(*kmsg.InitProducerIDRequest); ok && ip.TransactionalID == nil {
			l = nil // such requests need no coordinator
		}
		if len(l) > 0 {
			s.codes.Add(1)
			f.Code = l[int(x>>20)%len(l)]
		}
	case y < s.drop+s.code+s.delay:
		s.slow.Add(1)
		f.Delay = time.Duration(x >> 20 % uint64(s.maxDelay))
	}
	return
}

func init() {
	// the network and the brokers misbehave in ways clients are expected to survive
	profiles["faults"] = func(w *World) {
		r := w.r
		w.bounded()
		w.mayFail = true
		w.plan.Parts = pick(r, 1, 2, 3, 4)
		w.pickStrategies()
		st := &storm{seed: r.Uint64(), drop: pick(r, 0, 3, 20, 80), code: pick(r, 0, 20, 150), delay: pick(r, 0, 20, 100), maxDelay: pick(r, ms(20), ms(200), time.Second)}
		if r.IntN(3) == 0 {
			st.keys = map[int16]bool{}
			for _, k := range pick(r, []int16{0}, []int16{26}, []int16{24, 26}, []int16{1}, []int16{0, 24, 26, 22}, []int16{11, 12, 13, 14}) {
				st.keys[k] = true
			}
		}
		tr := &traps{}
		w.cluster(kbroker.Config{Nodes: pick(r, 1, 3, 3), Fault: func(rq *kbroker.Request) kbroker.Fault {
			if f := tr.fault(rq); f.Before != nil || f.After != nil {
				return f
			}
			return st.fault(rq)
		}})
		w.note("storm drop=%d code=%d delay=%d max=%v keys=%v", st.drop, st.code, st.delay, st.maxDelay, st.keys)
		o := w.appOpts()
		start := func() *App {
			o.Name = ""
			a := w.newApp(o)
			w.step("start %s", a)
			return a
		}
		for i := 1 + r.IntN(2); i > 0; i-- {
			start()
			w.randSleep(time.Second)
		}
		wait := w.background(100+r.IntN(400), time.Duration(3+r.IntN(10))*time.Second)
		for i := 2 + r.IntN(6); i > 0; i-- {
			w.randSleep(2 * time.Second)
			switch r.IntN(8) {
			case 0, 1, 2, 3:
				d := time.Duration(r.Int64N(int64(3 * time.Second)))
				st.inst.Store(nil)
				if l := w.liveApps(); len(l) > 0 && r.IntN(3) == 0 {
					st.inst.Store(&l[0].o.Name)
				}
				w.step("storm for %v", d)
				st.on.Store(true)
				time.Sleep(d)
				st.on.Store(false)
			case 4:
				w.step("leaders move")
				w.b.MoveLeaders()
			case 5:
				if l := w.liveApps(); len(l) > 0 {
					a := l[r.IntN(len(l))]
					w.step("cut %s", a)
					a.in.Cut()
				}
			case 6:
				if l := w.liveApps(); len(l) > 0 {
					a := l[r.IntN(len(l))]
					d := time.Duration(r.Int64N(int64(time.Second)))
					w.step("%s is cut off for %v", a, d)
					a.in.SetDown(true)
					time.Sleep(d)
					a.in.SetDown(false)
				}
			case 7:
				live := w.liveApps()
				if len(live) > 1 && r.IntN(2) == 0 {
					a := live[r.IntN(len(live))]
					w.step("stop %s", a)
					w.graceful(a)
				} else if len(live) > 0 && r.IntN(2) == 0 {
					a := live[r.IntN(len(live))]
					w.step("kill %s", a)
					a.kill()
				} else {
					start()
				}
			}
			if len(w.liveApps()) == 0 {
				start()
			}
		}
		wait()
		st.on.Store(false)
		w.endReplacing("faults", start)
		w.c.Count("requests dropped", st.drops.Load())
		w.c.Count("requests answered with an error", st.codes.Load())
		w.c.Count("requests delayed", st.slow.Load())
	}
}

// endReplacing drains, replacing applications which failed.
func (w *World) endReplacing(why string, start func() *App) {
	for i := 0; i < 6; i++ {
		if len(w.liveApps()) == 0 {
			start()
		}
		if w.drain(150*time.Second, why) {
			w.settled(100*time.Second, why)
			break
		}
		if len(w.liveApps()) > 0 {
			break // stalled and reported
		}
	}
	w.checkFailed(why)
	time.Sleep(ms(300))
}

// checkFailed: applications whose error handler decided to fail are unhealthy and end.
func (w *World) checkFailed(why string) {
	if w.race {
		return
	}
	w.mu.Lock()
	all := append([]*App(nil), w.apps...)
	w.mu.Unlock()
	for _, a := range all {
		if a.dead.Load() {
			continue
		}
		if a.failed.Load() {
			for k := 0; k < 3000 && !a.isDone.Load(); k++ {
				time.Sleep(20 * time.Millisecond)
			}
			if !a.isDone.Load() {
				w.fail("C15", "failed consumer does not end", "%s: %s: transaction errors %v, state %v\n%s", why, a, a.txnErrs, a.es.State(), libStacks())
				continue
			}
			if a.es.State() != streams.Unhealthy {
				w.fail("C15", "failed consumer is reported healthy", "%s: %s: transaction errors %v", why, a, a.txnErrs)
			}
			gi := w.b.GroupInfo(a.o.Group, a.o.Topic)
			for _, m := range gi.Members {
				if m == a.o.Name {
					w.fail("C15", "failed consumer does not leave the group", "%s: %s: %+v", why, a, gi)
				}
			}
			w.c.Count("failed consumers checked", 1)
		} else if a.es.State() != streams.Healthy {
			w.fail("C15", "consumer failed without a decision to fail", "%s: %s: transaction errors %v", why, a, a.txnErrs)
		}
	}
}

// A fatal fault and how to inject it.
type poison struct {
	kind   string
	inst   string
	n      int64 // at the n-th occasion
	topic  string
	key    int16
	code   int16
	w      *World
	armed  atomic.Bool
	hit    atomic.Int64
	many   int64 // so many times
	hitAt  time.Time
	mu     sync.Mutex
	onHit  func()
	evs    []string
	silent bool
}

func (x *poison) strike(what string) bool {
	if !x.armed.Load() {
		return false
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.n--
	if x.n > 0 || x.hit.Load() >= x.many {
		return false
	}
	if x.hit.Add(1) == 1 {
		x.hitAt = time.Now()
		if x.onHit != nil {
			x.onHit()
		}
	}
	x.evs = append(x.evs, what)
	x.w.logf("poison %s strikes %s: %s", x.kind, x.inst, what)
	return true
}

func (x *poison) produce(inst, topic string, p int32, txn bool, recs []kmsg.Record) int16 {
	if inst != x.inst || !txn || x.kind != "produce" {
		return 0
	}
	if x.topic != "" && !strings.HasPrefix(topic, x.topic) {
		return 0
	}
	if x.strike(fmt.Sprintf("%s/%d %d records", topic, p, len(recs))) {
		return x.code
	}
	return 0
}

func (x *poison) fault(rq *kbroker.Request) (f kbroker.Fault) {
	if x.kind != "request" || rq.Inst != x.inst || rq.Key != x.key {
		return
	}
	if rq.Key == 22 {
		if p, ok := rq.Req.(*kmsg.InitProducerIDRequest); ok && p.TransactionalID == nil {
			return
		}
	}
	if rq.Key == 26 {
		if p, ok := rq.Req.(*kmsg.EndTxnRequest); ok && !p.Commit {
			return
		}
	}
	if x.strike(fmt.Sprintf("request %d", rq.Key)) {
		f.Code = x.code
	}
	return
}

func init() {
	// transactions fail for good
	profiles["policy"] = func(w *World) {
		r := w.r
		w.bounded()
		w.mayFail = true
		w.plan.Parts = pick(r, 1, 2, 3)
		w.plan.MaxOuts = pick(r, 1, 3)
		w.pickStrategies()
		policy := pick(r, "default", "fail", "fail", "continue", "continue", "exit")
		x := &poison{w: w, inst: "victim", n: int64(1 + r.IntN(pick(r, 3, 40))), many: 1}
		switch r.IntN(8) {
		case 0, 1, 2, 3:
			x.kind, x.topic, x.code = "produce", pick(r, "out", "gkes_change", "gkes_commit", ""), pick(r, int16(10), 87, 29)
			if r.IntN(3) == 0 {
				x.many = int64(2 + r.IntN(6))
			}
		case 4, 5:
			x.kind, x.key, x.code = "request", 26, pick(r, int16(48), 53, 47)
		case 6:
			x.kind, x.key, x.code = "request", 24, pick(r, int16(53), 29, 48)
		case 7:
			x.kind = "hang"
		}
		if policy == "continue" {
			w.lenientLoss = true
		}
		w.note("policy=%s poison=%s topic=%q key=%d code=%d n=%d many=%d", policy, x.kind, x.topic, x.key, x.code, x.n, x.many)
		w.cluster(kbroker.Config{Fault: x.fault, ProduceFault: x.produce})
		o := w.appOpts()
		var told atomic.Int64
		var toldAt atomic.Int64
		var victim *App
		decide := func(resp streams.ErrorResponse) streams.TxnErrorHandler {
			return func(err error) streams.ErrorResponse {
				if told.Add(1) == 1 {
					toldAt.Store(time.Now().UnixNano())
				}
				victim.failedAt.Store(time.Now().UnixNano())
				if resp == streams.FatallyExit {
					w.c.ExpectExit(strings.SplitN(err.Error(), "\n", 2)[0])
				}
				return resp
			}
		}
		vo := o
		vo.Name = "victim"
		switch policy {
		case "default":
			vo.RawConf = func(c *streams.EventSourceConfig) { c.TxnErrorHandler = nil }
			x.onHit = func() { victim.ungraceful("poisoned") }
		case "fail":
			vo.TxnErr = decide(streams.FailConsumer)
		case "continue":
			vo.TxnErr = decide(streams.Continue)
			x.onHit = func() { w.ungraceful.Store(true) }
		case "exit":
			vo.TxnErr = decide(streams.FatallyExit)
		}
		if x.kind == "hang" {
			w.plan.Modes[mRaw] += 5
			w.hangEv = &hang{n: x.n}
		}
		w.load(r.IntN(60), 0)
		victim = w.newApp(vo)
		w.step("start victim")
		w.settled(60*time.Second, "policy")
		others := r.IntN(2)
		for i := 0; i < others; i++ {
			o.Name = ""
			a := w.newApp(o)
			w.step("start %s", a)
		}
		w.settled(60*time.Second, "policy")
		if w.hangEv != nil {
			w.hangEv.app.Store(victim)
		}
		x.armed.Store(true)
		wait := w.background(100+r.IntN(200), 5*time.Second)
		for k := 0; k < 100 && x.hit.Load() == 0 && !(w.hangEv != nil && w.hangEv.hit.Load()); k++ {
			time.Sleep(ms(100))
		}
		wait()
		hit := x.hit.Load() > 0
		limit := 75 * time.Second
		if w.hangEv != nil && w.hangEv.hit.Load() {
			hit = true
		}
		if hit {
			w.c.Count("poisoned: "+policy+" "+x.kind, 1)
			w.mustReact(victim, policy, x, &told, limit)
		}
		x.armed.Store(false)
		if w.hangEv != nil {
			w.hangEv.release()
		}
		w.load(30+r.IntN(60), time.Second)
		if policy == "continue" {
			w.ungraceful.Store(true)
			if !victim.live() || victim.isDone.Load() || victim.es.State() != streams.Healthy {
				w.fail("C15", "consumer ends although the decision was to continue", "state %v done %v errors %v", victim.es.State(), victim.isDone.Load(), victim.txnErrs)
			}
			if x.kind == "request" {
				w.noFinal = true // its producer is lost, but it must end when asked to
				time.Sleep(5 * time.Second)
				return
			}
			for p := 0; p < w.plan.Parts; p++ {
				w.appendEvents(int32(p), 5) // the progress of earlier events may be lost
			}
			w.drain(100*time.Second, "after continuing")
			return
		}
		w.endReplacing("policy", func() *App {
			o.Name = ""
			return w.newApp(o)
		})
	}
}

// mustReact checks that the fault is reported and that the decision is honoured.
func (w *World) mustReact(a *App, policy string, x *poison, told *atomic.Int64, limit time.Duration) {
	t0 := time.Now()
	wait := func(what string, cond func() bool) bool {
		for !cond() {
			if time.Since(t0) > limit {
				w.fail("C15", what, "policy %s, %s: nothing for %v after the fault %v; state %v done %v\n%s", policy, x.kind, limit, x.evs, a.es.State(), a.isDone.Load(), libStacks())
				return false
			}
			time.Sleep(ms(20))
		}
		return true
	}
	if policy == "default" {
		wait("consumer does not fail", func() bool { return a.isDone.Load() })
		return
	}
	if !wait("transaction error not reported", func() bool { return told.Load() > 0 }) {
		return
	}
	switch policy {
	case "fail":
		wait("consumer does not fail", func() bool { return a.isDone.Load() })
	case "exit":
		time.Sleep(10 * time.Second)
		w.fail("C15", "process does not exit", "the error handler asked to exit, state %v done %v\n%s", a.es.State(), a.isDone.Load(), libStacks())
	}
}

// hang keeps one event from completing.
type hang struct {
	mu   sync.Mutex
	n    int64
	app  atomic.Pointer[App]
	hit  atomic.Bool
	held []func()
	open bool
}

// hold keeps the completion back, if it is the chosen one.
func (h *hang) hold(a *App, f func()) bool {
	if h.app.Load() != a {
		return false
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.open || h.hit.Load() {
		return false
	}
	h.n--
	if h.n > 0 {
		return false
	}
	h.hit.Store(true)
	if a.cfg.TxnErrorHandler == nil {
		a.ungraceful("an event hangs")
	}
	h.held = append(h.held, f)
	return true
}

func (h *hang) release() {
	h.mu.Lock()
	l := h.held
	h.open, h.held = true, nil
	h.mu.Unlock()
	for _, f := range l {
		go f()
	}
}
