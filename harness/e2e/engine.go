package e2e

import (
	"fmt"
	"math/rand/v2"
	"os"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aws/go-kafka-event-source/streams"

	"verifh/core"
	"verifh/kbroker"
	"verifh/rebal"
)

func init() { core.Register("e2e", engine) }

type profile func(w *World)

var profiles = map[string]profile{}

type traceLogger struct{}

func (traceLogger) p(l, f string, a ...any) {
	trace("[%s] %s", l, fmt.Sprintf(f, a...))
}
func (t traceLogger) Tracef(f string, a ...any) {}
func (t traceLogger) Debugf(f string, a ...any) { t.p("D", f, a...) }
func (t traceLogger) Infof(f string, a ...any)  { t.p("I", f, a...) }
func (t traceLogger) Warnf(f string, a ...any)  { t.p("W", f, a...) }
func (t traceLogger) Errorf(f string, a ...any) { t.p("E", f, a...) }

type nullLogger struct{}

func (nullLogger) Tracef(string, ...any) {}
func (nullLogger) Debugf(string, ...any) {}
func (nullLogger) Infof(string, ...any)  {}
func (nullLogger) Warnf(string, ...any)  {}
func (nullLogger) Errorf(string, ...any) {}

func setLogger() {
	if v := os.Getenv("VDEBUG"); v != "" || traceDir != "" {
		lv := streams.LogLevelError
		if v == "2" || traceDir != "" {
			lv = streams.LogLevelDebug
		}
		streams.InitLogger(traceLogger{}, lv)
	} else {
		streams.InitLogger(nullLogger{}, streams.LogLevelNone)
	}
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.IntN(len(l))] }

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// latency draws request latencies (broker goroutines; own generator).
type latency struct {
	seed uint64
	n    func() uint64
	base time.Duration
	jit  time.Duration
	tail int // percent of requests that take 20 times as long
}

func engine(c *core.Ctx) {
	setLogger()
	name := c.Param("profile", "base")
	pf := profiles[name]
	if pf == nil {
		c.T.Fatalf("no profile %q", name)
	}
	w := &World{c: c, seed: c.Seed, r: c.Rng, group: "grp", evs: map[int32][]*Ev{}, byOff: map[int32]map[int64]*Ev{}, byID: map[string]*Ev{}, appended: map[int32]int64{},
		ijs: map[string]*Ij{}, tokens: map[int64]*token{}, hseqP: map[int32]uint64{}, marks: map[tpKey]int64{}, gracefulOnly: true, race: c.Param("race", "") != ""}
	traceReset()
	stop := c.Watch("C01", "livelock", 60*time.Second, 240*time.Second, func() int64 { return w.vtick.Load() })
	_ = stop
	run := func() {
		go func() {
			for {
				time.Sleep(time.Second)
				w.vtick.Add(1)
			}
		}()
		w.t0 = time.Now()
		w.configure()
		pf(w)
		w.wrapUp()
	}
	if realTime[name] {
		run()
		return
	}
	synctest.Test(c.T, func(t *testing.T) { run() })
}

// realTime lists the profiles which cannot run in a bubble.
var realTime = map[string]bool{"signals": true}

// configure draws the common part of a case.
func (w *World) configure() {
	r := w.r
	pl := &w.plan
	pl.Parts = pick(r, 1, 2, 3, 4, 6)
	if w.seed%24 == 5 {
		pl.Parts = 13
	}
	pl.Out0, pl.Out1 = 1+r.IntN(3), 1+r.IntN(3)
	pl.Keys = pick(r, 1, 2, 5, 30)
	pl.Modes = make([]int, nModes)
	switch r.IntN(4) {
	case 0: // one dominant mode
		pl.Modes[r.IntN(nModes)] = 10
		pl.Modes[mSync]++
	default:
		for i := range pl.Modes {
			pl.Modes[i] = r.IntN(4)
		}
		pl.Modes[mSync]++
	}
	if pl.Modes[mBad] > 1 {
		pl.Modes[mBad] = 1
	}
	pl.MaxOuts = pick(r, 0, 1, 3, 6)
	pl.BigOuts = pick(r, 0, 0, 3, 15)
	pl.Headers, pl.Types = r.IntN(2) == 0, r.IntN(2) == 0
	pl.CLParts = pick(r, 1, 2, 5)
	pl.JobMax = pick(r, 0, ms(1), ms(10), ms(200))
	pl.HandlerMax = pick(r, 0, 0, 50*time.Microsecond, ms(2))
	pl.Burst = pick(r, 1, 5, 30, 150)
	pl.DelProb, pl.EmptyProb = pick(r, 0, 10, 40), pick(r, 0, 5)
	pl.PadMax = pick(r, 0, 10, 300)
	pl.Quiet = pick(r, 0, 0, 10, 50)
	pl.GlobalKeys = r.IntN(2) == 0
	pl.Split = r.IntN(5) == 0
	e := &w.eos
	e.PoolSize = pick(r, 1, 2, 3, 5)
	e.PendingTxnCount = pick(r, 1, 1, 2, 4)
	e.MaxBatchSize = pick(r, 1, 2, 5, 20, 100, 1000)
	e.TargetBatchSize = 1 + r.IntN(e.MaxBatchSize)
	if r.IntN(3) == 0 {
		e.TargetBatchSize = e.MaxBatchSize
	}
	e.BatchDelay = pick(r, ms(1), ms(5), ms(20), ms(100))
}

// network draws the size of the cluster and its latencies.
func network(r *rand.Rand, cfg *kbroker.Config) string {
	if cfg.Nodes == 0 {
		cfg.Nodes = pick(r, 1, 1, 3)
	}
	base := pick(r, 0, 100*time.Microsecond, ms(1), ms(5))
	jit := pick(r, 0, 200*time.Microsecond, ms(3))
	tail := pick(r, 0, 0, 2)
	lseed := r.Uint64()
	var n = new(counter)
	draw := func(salt uint64) time.Duration {
		x := core.Mix(lseed, n.next()*31+salt)
		d := base
		if jit > 0 {
			d += time.Duration(x % uint64(jit))
		}
		if tail > 0 && int(x>>32%100) < tail {
			d = d*20 + ms(1)
		}
		return d
	}
	if cfg.Latency == nil {
		cfg.Latency = func(key int16) time.Duration { return draw(uint64(key)) }
	}
	if cfg.ReplyDelay == nil {
		cfg.ReplyDelay = func(key int16) time.Duration { return draw(uint64(key)+1000) / 2 }
	}
	if cfg.MarkerDelay == nil {
		mk := pick(r, 0, 0, ms(1), ms(10))
		cfg.MarkerDelay = func() time.Duration {
			if mk == 0 {
				return 0
			}
			return time.Duration(core.Mix(lseed, n.next()) % uint64(mk))
		}
	}
	return fmt.Sprintf("nodes=%d latency=%v+%v tail=%d", cfg.Nodes, base, jit, tail)
}

// cluster builds the cluster; fault and others may be set in cfg.
func (w *World) cluster(cfg kbroker.Config) {
	net := network(w.r, &cfg)
	if debugging {
		cfg.Logf = trace
	}
	w.b = kbroker.New(cfg)
	w.b.OnTxnEnd = w.onTxnEnd
	w.b.OnGone = w.onGone
	w.b.OnSync = w.onSync
	pl := &w.plan
	w.b.CreateTopic(srcTopic, pl.Parts, nil)
	w.b.CreateTopic("out0", pl.Out0, nil)
	w.b.CreateTopic("out1", pl.Out1, nil)
	w.b.CreateTopic(sideTopic, 2, nil)
	w.b.CreateTopic("side2", 2, nil)
	if pl.Split {
		for t, v := range map[string]string{srcTopic: "source", sideTopic: "source", "side2": "source", "out0": "state", "out1": "state"} {
			w.b.Topic(t).View = v
		}
	}
	for p := int32(0); p < int32(pl.Parts); p++ {
		w.byOff[p] = map[int64]*Ev{}
		w.evs[p] = nil
	}
	w.note("profile=%s %s plan=%+v eos=%+v", w.c.Param("profile", "base"), net, *pl, w.eos)
	w.perturb()
}

func (w *World) perturb() {
	r := w.r
	p := core.Perturb{Seed: r.Uint64(), YieldProb: uint32(r.IntN(pick(r, 300, 20000, 65535))), SiteProb: uint32(r.IntN(pick(r, 700, 8000, 32000))), MaxHits: int64(5 + r.IntN(400)), Racy: w.race}
	w.jobSleep = r.IntN(2) == 0
	switch r.IntN(3) {
	case 0:
		p.SleepProb, p.MaxSleep = uint32(r.IntN(20000)), ms(3)
	case 1:
		p.SleepProb, p.MaxSleep = uint32(r.IntN(6000)), ms(40)
	}
	core.ApplyPerturb(p)
}

// load produces n events in bursts, spread over d.
func (w *World) load(n int, d time.Duration) {
	r := rand.New(rand.NewPCG(w.seed, 99))
	left := n
	steps := n/w.plan.Burst + 1
	hot := r.IntN(4) == 0
	for left > 0 {
		k := 1 + r.IntN(w.plan.Burst)
		if k > left {
			k = left
		}
		p := int32(r.IntN(w.plan.Parts))
		if hot && r.IntN(3) > 0 {
			p = 0
		}
		w.appendEvents(p, k)
		left -= k
		if d > 0 {
			time.Sleep(time.Duration(r.Int64N(int64(2*d)/int64(steps) + 1)))
		}
	}
}

func (w *World) schedCfg() streams.SchedulerConfig {
	r := w.r
	return streams.SchedulerConfig{Concurrency: 1 + r.IntN(6), WorkerQueueDepth: pick(r, 0, 1, 3, 20), MaxConcurrentKeys: 1 + r.IntN(30)}
}

func (w *World) appOpts() AppOpts {
	r := w.r
	o := AppOpts{SchedCfg: w.schedCfg(), BatchMax: 1 + r.IntN(10), BatchConc: 1 + r.IntN(3), BatchDelay: pick(r, 0, ms(1), ms(30)), CBSleep: pick(r, 0, 0, ms(3))}
	o.Strategies = w.strategies()
	return o
}

func (w *World) strategies() []streams.BalanceStrategy { return w.strat }

// onGone is told when the coordinator gives up on a member; the broker's lock is held.
func (w *World) onGone(group, inst, why string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, a := range w.apps {
		if a.o.Name != inst || a.dead.Load() || a.o.Group != group {
			continue
		}
		w.logf("%s is thrown out of the group: %s", a, why)
		w.c.Count("live members thrown out: "+why, 1)
		if why == "rebalance" && !w.mayFail && !w.race {
			w.failL("C05", "a live member blocks the rebalance until it is thrown out", "%s (stopping=%v failed=%v)\n%s", a, a.stopping.Load(), a.failed.Load(), libStacks())
		}
		a.zombie.Store(true)
		w.tainted.Store(true)
	}
}

// onSync judges every plan of the incremental balancer; the broker's lock is held.
func (w *World) onSync(p kbroker.SyncPlan) {
	if w.race || p.Protocol != streams.IncrementalCoopProtocol {
		return
	}
	var ms []rebal.Meta
	plan := map[string]rebal.Plan{}
	counts := map[string]int32{}
	for _, m := range p.Members {
		me, err := rebal.ParseMeta(m.ID, m.Metadata)
		if err != nil {
			w.fail("C13", "unreadable join metadata", "%v", err)
			return
		}
		for _, t := range me.Topics {
			counts[t] = int32(w.plan.Parts)
			if n, ok := w.otherParts[t]; ok {
				counts[t] = n
			}
		}
		ms = append(ms, me)
	}
	for id, b := range p.Assigned {
		pl, err := rebal.ParsePlan(b)
		if err != nil {
			w.fail("C12", "unreadable plan", "%v", err)
			return
		}
		plan[id] = pl
	}
	if w.onPlan != nil {
		w.onPlan(p, ms, plan)
	}
	for _, x := range rebal.CheckPlan(ms, plan, counts) {
		w.fail("C12", x.Kind, "%s\n%s", x.Detail, rebal.Describe(ms, plan))
	}
	w.c.Count("plans checked", 1)
}

// wrapUp runs the final oracles and stops what still runs.
func (w *World) wrapUp() {
	w.final()
	w.stopRest()
	w.stats()
	w.finish()
}

func (w *World) stats() {
	w.c.Count("requests served", w.b.Requests.Load())
	w.c.Count("records appended", w.b.Appends.Load())
	sites, pts := core.PerturbSites()
	w.c.Count("schedule points perturbed", pts)
	w.c.Count("schedule point sites seen (summed over cases)", int64(sites))
	w.c.Saw(w.fingerprint())
	w.c.Sample("%v", w.desc)
}

// stopRest stops all live applications and checks that they end.
func (w *World) stopRest() {
	l := w.liveApps()
	for i, a := range l {
		a.stop(false)
		if i%2 == 0 {
			a.waitDone("final stop")
		}
	}
	w.mu.Lock()
	all := append([]*App(nil), w.apps...)
	w.mu.Unlock()
	for _, a := range all {
		if !a.dead.Load() && !a.zombie.Load() && (a.stopping.Load() || a.failed.Load()) {
			a.waitDone("final stop")
		}
	}
}

const stopLimit = 150 * time.Second

// waitDone waits until the application has signalled done and left the group.
func (a *App) waitDone(why string) bool {
	w := a.w
	t0 := time.Now()
	for !a.isDone.Load() {
		if time.Since(t0) > stopLimit {
			w.fail("C28", "stop does not end", "%s: %s: not done after %v (stop requested %v ago, failed=%v)\n%s", a, why, stopLimit, time.Since(a.stopAt), a.failed.Load(), libStacks())
			a.zombie.Store(true)
			return false
		}
		time.Sleep(20 * time.Millisecond)
	}
	w.c.Count("stops completed", 1)
	gi := w.b.GroupInfo(a.o.Group, a.o.Topic)
	for _, m := range gi.Members {
		if m == a.o.Name {
			w.fail("C28", "still in the group after done", "%s: %s: %+v", a, why, gi)
		}
	}
	return true
}

type counter struct{ n atomic.Uint64 }

func (c *counter) next() uint64 { return c.n.Add(1) }

func init() {
	profiles["base"] = func(w *World) {
		w.cluster(kbroker.Config{})
		r := w.r
		if r.IntN(2) == 0 {
			w.load(r.IntN(60), 0) // present before the application starts
		}
		n := 1
		if r.IntN(4) == 0 {
			n = 2
		}
		for i := 0; i < n; i++ {
			w.newApp(w.appOpts())
		}
		time.Sleep(pick(r, 0, ms(30), ms(1500)))
		w.load(20+r.IntN(400), pick(r, 0, ms(200), 3*time.Second))
		w.drain(100*time.Second, "base")
		time.Sleep(ms(300))
	}
}
