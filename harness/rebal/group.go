package rebal

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"verifh/core"
	"verifh/kbroker"
)

func init() { core.Register("group", groupEngine) }

// live is a real client with a real balancer in a group at the in-memory cluster. Only what it is asked to do is played.
type live struct {
	e        *groupRun
	w        *watched
	h        *handler
	in       *kbroker.Instance
	cl       *kgo.Client
	ready    chan struct{}
	mu       sync.Mutex
	cancel   map[TP]context.CancelFunc
	leaving  bool
	graceful <-chan struct{}
	stopped  bool
	left     chan struct{}
	own      map[TP]bool
}

type groupRun struct {
	c        *core.Ctx
	r        *rand.Rand
	b        *kbroker.Cluster
	topics   []string
	counts   map[string]int32
	mu       sync.Mutex
	log      []string
	ms       []*live
	prep     time.Duration
	failP    int
	t0       time.Time
	rmu      sync.Mutex
	gens     int
	last     []Meta
	lastP    map[string]Plan
	bad      bool
	tight    bool
	expelled bool
}

func (e *groupRun) logf(f string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.log = append(e.log, fmt.Sprintf("%v ", time.Since(e.t0).Round(time.Millisecond))+fmt.Sprintf(f, a...))
	if len(e.log) > 400 {
		e.log = e.log[100:]
	}
}

func (e *groupRun) fail(prop, kind, f string, a ...any) {
	e.mu.Lock()
	l := append([]string(nil), e.log...)
	e.bad = true
	e.mu.Unlock()
	s := ""
	for _, x := range l {
		s += x + "\n"
	}
	e.c.Violate(prop, kind, "%s\npartitions %v\n%s", fmt.Sprintf(f, a...), e.counts, s)
}

func (e *groupRun) rnd(n int) int {
	e.rmu.Lock()
	defer e.rmu.Unlock()
	return e.r.IntN(n)
}

func (e *groupRun) start() *live {
	m := &live{e: e, cancel: map[TP]context.CancelFunc{}, left: make(chan struct{}), ready: make(chan struct{}), own: map[TP]bool{}}
	name := fmt.Sprintf("m%d", len(e.ms))
	m.in = e.b.Instance(name)
	m.w = newWatched(name, e.fail)
	m.h = &handler{w: m.w, onPrepare: m.prepare, onForget: m.forget, client: func() *kgo.Client {
		<-m.ready
		return m.cl
	}}
	m.w.IncrementalGroupRebalancer = streams.IncrementalRebalancer(m.h)
	slow := time.Duration(0)
	if e.rnd(3) == 0 {
		slow = time.Duration(e.rnd(300)) * time.Millisecond
	}
	opts, _ := m.in.Config()
	opts = append(opts, kgo.ConsumerGroup("g"), kgo.ConsumeTopics(e.topics...), kgo.Balancers(m.w), kgo.DisableAutoCommit(),
		kgo.SessionTimeout(6*time.Second), kgo.FetchMaxWait(time.Second),
		kgo.OnPartitionsAssigned(func(_ context.Context, _ *kgo.Client, as map[string][]int32) {
			var tps []TP
			m.mu.Lock()
			for t, l := range as {
				for _, p := range l {
					tp := TP{Partition: p, Topic: t}
					if !m.own[tp] { // the client repeats an assignment when it is interrupted
						m.own[tp] = true
						tps = append(tps, tp)
					}
				}
			}
			m.mu.Unlock()
			if slow > 0 {
				time.Sleep(slow)
			}
			for _, tp := range tps {
				m.forget(tp) // it stops being a preparation
			}
			if len(tps) > 0 {
				e.logf("%s got %v", name, tps)
				m.w.PartitionsAssigned(tps...)
			}
		}),
		kgo.OnPartitionsRevoked(func(_ context.Context, _ *kgo.Client, as map[string][]int32) {
			if slow > 0 {
				time.Sleep(slow)
			}
			m.gone(as)
			e.logf("%s gave up %v", name, as)
		}),
		kgo.OnPartitionsLost(func(_ context.Context, _ *kgo.Client, as map[string][]int32) {
			m.gone(as)
			e.logf("%s lost %v", name, as)
		}))
	cl, err := kgo.NewClient(opts...)
	if err != nil {
		panic(err)
	}
	m.cl = cl
	close(m.ready)
	e.ms = append(e.ms, m)
	e.logf("%s joins", name)
	return m
}

func (m *live) gone(as map[string][]int32) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for t, l := range as {
		for _, p := range l {
			delete(m.own, TP{Partition: p, Topic: t})
		}
	}
}

func (m *live) prepare(tp TP) {
	ctx, cancel := context.WithCancel(context.Background())
	m.mu.Lock()
	if m.own[tp] {
		m.mu.Unlock()
		cancel()
		return
	}
	m.cancel[tp] = cancel
	m.mu.Unlock()
	d := time.Duration(0)
	if m.e.prep > 0 {
		d = time.Duration(m.e.rnd(int(m.e.prep)))
	}
	fails := m.e.rnd(100) < m.e.failP
	go func() {
		select {
		case <-ctx.Done():
			return
		case <-time.After(d):
		}
		m.mu.Lock()
		delete(m.cancel, tp)
		m.mu.Unlock()
		cancel()
		if fails {
			m.e.logf("%s fails %v", m.w.name, tp)
			m.w.PartitionPreparationFailed(tp)
		} else {
			m.e.logf("%s prepared %v", m.w.name, tp)
			m.w.PartitionPrepared(tp)
		}
	}()
}

func (m *live) forget(tp TP) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if c := m.cancel[tp]; c != nil {
		c()
		delete(m.cancel, tp)
	}
}

func (m *live) leave() {
	if m.leaving {
		return
	}
	m.leaving = true
	m.e.logf("%s leaves", m.w.name)
	m.graceful = m.w.GracefullyLeaveGroup()
	go func() {
		<-m.graceful
		m.mu.Lock()
		if m.stopped {
			m.mu.Unlock()
			return
		}
		m.stopped = true
		m.mu.Unlock()
		m.e.logf("%s has left", m.w.name)
		m.cl.Close()
		close(m.left)
	}()
}

func (m *live) crash() {
	m.mu.Lock()
	if m.stopped {
		m.mu.Unlock()
		return
	}
	m.stopped = true
	m.mu.Unlock()
	m.e.logf("%s crashes", m.w.name)
	go func() {
		m.in.Kill()
		m.cl.Close()
		m.mu.Lock()
		for _, c := range m.cancel {
			c()
		}
		m.mu.Unlock()
		close(m.left)
	}()
}

func (m *live) up() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return !m.stopped
}

func groupEngine(c *core.Ctx) {
	stop := c.Watch("C12", "livelock", 60*time.Second, 240*time.Second, nil)
	defer stop()
	core.ApplyPerturb(core.Perturb{Seed: c.Rng.Uint64(), YieldProb: uint32(c.Rng.IntN(40000)), SiteProb: uint32(c.Rng.IntN(30000)), SleepProb: uint32(c.Rng.IntN(20000)), MaxSleep: 5 * time.Millisecond, MaxHits: 300})
	defer core.ApplyPerturb(core.Perturb{})
	synctest.Test(c.T, func(t *testing.T) {
		e := &groupRun{c: c, r: c.Rng, counts: map[string]int32{}, t0: time.Now()}
		e.run()
	})
}

func (e *groupRun) run() {
	c := e.c
	r := rand.New(rand.NewPCG(e.r.Uint64(), 7))
	e.topics = []string{"a", "b"}[:1+r.IntN(4)/3]
	total := 0
	lat := []time.Duration{0, time.Millisecond, 10 * time.Millisecond}[r.IntN(3)]
	lseed := r.Uint64()
	var n uint64
	var nmu sync.Mutex
	draw := func(int16) time.Duration {
		if lat == 0 {
			return 0
		}
		nmu.Lock()
		n++
		x := core.Mix(lseed, n)
		nmu.Unlock()
		return time.Duration(x % uint64(lat))
	}
	faults := r.IntN(4) == 0
	fseed, fn := r.Uint64(), uint64(0)
	e.b = kbroker.New(kbroker.Config{Nodes: 1 + r.IntN(2), Latency: draw, ReplyDelay: draw, Fault: func(q *kbroker.Request) (f kbroker.Fault) {
		if !faults {
			return
		}
		if q.Key == 11 || q.Key == 12 || q.Key == 14 {
			nmu.Lock()
			fn++
			x := core.Mix(fseed, fn)
			nmu.Unlock()
			if fn < 60 && x%17 == 0 {
				switch x / 17 % 3 {
				case 0:
					f.DropAfter = true
				case 1:
					f.DropBefore = true
				default:
					f.Code = 27 // rebalance in progress
					if q.Key == 11 {
						f.Code = 14 // the coordinator is loading
					}
				}
			}
		}
		return
	}})
	for _, t := range e.topics {
		e.counts[t] = int32(1 + r.IntN([]int{4, 10, 20}[r.IntN(3)]))
		total += int(e.counts[t])
		e.b.CreateTopic(t, int(e.counts[t]), nil)
	}
	e.b.OnSync = e.onSync
	e.b.OnGone = func(_, inst, why string) {
		e.logf("%s is thrown out: %s", inst, why)
	}
	e.prep = []time.Duration{0, 50 * time.Millisecond, 3 * time.Second}[r.IntN(3)]
	e.failP = []int{0, 0, 10}[r.IntN(3)]
	for i := 1 + r.IntN(3); i > 0; i-- {
		e.start()
		time.Sleep(time.Duration(r.IntN(3000)) * time.Millisecond)
	}
	for i := r.IntN(10); i > 0; i-- {
		var ups []*live
		for _, m := range e.ms {
			if m.up() {
				ups = append(ups, m)
			}
		}
		switch k := e.rnd(10); {
		case k < 4 && len(ups) < 6 || len(ups) == 0:
			e.start()
		case k < 7:
			ups[e.rnd(len(ups))].leave()
		case k < 8:
			ups[e.rnd(len(ups))].crash()
		case k < 9:
			m := ups[e.rnd(len(ups))]
			m.cl.ForceRebalance()
		}
		if e.rnd(4) > 0 {
			time.Sleep(time.Duration(e.rnd([]int{30, 1000, 8000}[e.rnd(3)])) * time.Millisecond)
		}
	}
	e.failP = 0
	staying := 0
	for _, m := range e.ms {
		if m.up() && !m.leaving {
			staying++
		}
	}
	if staying == 0 {
		e.start()
	}
	// everybody is prompt from here on: each move takes a preparation and a few rounds
	limit := 3*time.Minute + time.Duration(2*total)*(e.prep+5*time.Second)
	why := e.balanced(limit)
	if why != "" && !e.bad {
		e.fail("C12", "does not converge", "%s after %v\n%s", why, limit, e.describe())
	}
	if why == "" {
		rests := false
		for i := 0; i < 8 && !rests; i++ { // a rebalance that was still asked for takes a few generations
			before := e.b.GroupInfo("g", e.topics[0])
			time.Sleep(15 * time.Second)
			after := e.b.GroupInfo("g", e.topics[0])
			rests = before.Gen == after.Gen && after.State == "Stable"
		}
		if !rests {
			e.fail("C12", "a balanced group does not come to rest", "generation %d\n%s", e.b.GroupInfo("g", e.topics[0]).Gen, e.describe())
		}
		if w := e.balanced(time.Minute); w != "" {
			e.fail("C12", "a balanced group changes", "%s\n%s", w, e.describe())
		}
	}
	synctest.Wait()
	for _, m := range e.ms {
		if m.up() || m.leaving {
			m.w.finished()
		}
		c.Count("joins checked", int64(m.w.checked))
		c.Count("syncs", int64(m.w.syncs))
	}
	for _, m := range e.ms {
		m.mu.Lock()
		was := m.stopped
		m.stopped = true
		m.mu.Unlock()
		if !was {
			m.in.Kill()
			m.cl.Close()
		}
	}
	c.Count("generations", int64(e.gens))
	c.Saw(core.HashStr(fmt.Sprint(e.log)))
	c.Sample("%v", e.log)
	c.Finish()
}

func (e *groupRun) describe() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	s := Describe(e.last, e.lastP)
	for _, m := range e.ms {
		m.mu.Lock()
		s += fmt.Sprintf("%s stopped=%v leaving=%v owns [%s]\n", m.w.name, m.stopped, m.leaving, sorted(m.own))
		m.mu.Unlock()
	}
	return s
}

// balanced waits until the group is balanced, and says what is missing if it is not in time.
func (e *groupRun) balanced(limit time.Duration) string {
	why := ""
	for end := time.Now().Add(limit); ; {
		why = ""
		gi := e.b.GroupInfo("g", e.topics[0])
		if gi.State != "Stable" {
			why = "the group is " + gi.State
		}
		var ms []Meta
		for _, m := range e.ms {
			m.mu.Lock()
			stopped := m.stopped
			me := Meta{ID: m.w.name, Topics: e.topics, Owned: map[TP]bool{}}
			for tp := range m.own {
				me.Owned[tp] = true
			}
			m.mu.Unlock()
			if stopped {
				continue
			}
			m.w.mu.Lock()
			for tp := range m.w.preparing {
				me.Preparing = append(me.Preparing, tp)
			}
			for tp := range m.w.ready {
				me.Ready = append(me.Ready, tp)
			}
			m.w.mu.Unlock()
			if m.leaving {
				why = m.w.name + " has not left yet"
			}
			ms = append(ms, me)
		}
		if why == "" {
			if w, ok := Balanced(ms, e.counts); !ok {
				why = w
			}
		}
		if why == "" || !time.Now().Before(end) {
			return why
		}
		time.Sleep(500 * time.Millisecond)
	}
}

// onSync judges the plan of a generation; the broker's lock is held.
func (e *groupRun) onSync(p kbroker.SyncPlan) {
	var ms []Meta
	plan := map[string]Plan{}
	for _, m := range p.Members {
		me, err := ParseMeta(m.ID, m.Metadata)
		if err != nil {
			e.fail("C13", "unreadable join metadata", "%v", err)
			return
		}
		ms = append(ms, me)
	}
	for id, b := range p.Assigned {
		pl, err := ParsePlan(b)
		if err != nil {
			e.fail("C12", "unreadable plan", "%v", err)
			return
		}
		plan[id] = pl
	}
	e.logf("generation %d by %s\n%s", p.Gen, p.Leader, Describe(ms, plan))
	for _, x := range CheckPlan(ms, plan, e.counts) {
		e.fail("C12", x.Kind, "%s\n%s", x.Detail, Describe(ms, plan))
	}
	e.mu.Lock()
	e.gens++
	e.last, e.lastP = ms, plan
	e.mu.Unlock()
	e.c.Count("plans checked", 1)
}
