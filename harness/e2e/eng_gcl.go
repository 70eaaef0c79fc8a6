package e2e

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verifh/core"
	"verifh/kbroker"
)

func init() { core.Register("gcl", gclEngine) }

// gev is something that happened to one partition of one follower.
type gev struct {
	kind string // got, pausing, paused, resume, resumed
	off  int64
	at   time.Time
}

type follower struct {
	g      *gclRun
	name   string
	gcl    streams.GlobalChangeLog[*follower]
	halt   func()
	r      *rand.Rand
	slow   int
	fails  bool
	mu     sync.Mutex
	evs    map[int32][]gev
	gate   int
	stopAt time.Time
	late   []string
}

func (f *follower) ReceiveChange(r streams.IncomingRecord) error {
	g := f.g
	tp := r.TopicPartition()
	f.mu.Lock()
	f.gate++
	if f.gate > 1 {
		g.fail("concurrent deliveries", "%s: two entries are delivered at once: %v@%d", f.name, tp, r.Offset())
	}
	f.evs[tp.Partition] = append(f.evs[tp.Partition], gev{"got", r.Offset(), time.Now()})
	if !f.stopAt.IsZero() && time.Since(f.stopAt) > 30*time.Second {
		f.late = append(f.late, fmt.Sprintf("%v@%d %v after Stop", tp, r.Offset(), time.Since(f.stopAt)))
	}
	d := time.Duration(0)
	if f.slow > 0 && f.r.IntN(100) < f.slow {
		d = time.Duration(f.r.IntN(20)) * time.Millisecond
	}
	fails := f.fails && f.r.IntN(4) == 0
	f.mu.Unlock()
	g.mu.Lock()
	rec := g.recs[gkey{tp.Partition, r.Offset()}]
	g.mu.Unlock()
	if tp.Topic != g.topic {
		g.fail("wrong topic", "%s: %v", f.name, tp)
	}
	if rec == nil {
		rec = g.lookup(tp.Partition, r.Offset())
	}
	if rec == nil {
		g.fail("entry delivered that is not a committed one", "%s: %v@%d key %q", f.name, tp, r.Offset(), r.Key())
	} else {
		ty, _ := rec.Header("__grt__")
		h, _ := rec.Header("h")
		if string(r.Key()) != string(rec.Key) || string(r.Value()) != string(rec.Value) || r.RecordType() != ty || string(r.HeaderValue("h")) != h {
			g.fail("entry altered", "%s: %v@%d key %q value %q type %q, written as %v", f.name, tp, r.Offset(), r.Key(), r.Value(), r.RecordType(), rec)
		}
	}
	if d > 0 {
		time.Sleep(d)
	}
	f.mu.Lock()
	f.gate--
	f.mu.Unlock()
	g.c.Count("entries delivered", 1)
	if fails {
		return errors.New("receiver error")
	}
	return nil
}

func (f *follower) add(p int32, e gev) {
	f.mu.Lock()
	e.at = time.Now()
	f.evs[p] = append(f.evs[p], e)
	f.mu.Unlock()
}

type gkey struct {
	p   int32
	off int64
}

type gclRun struct {
	c     *core.Ctx
	r     *rand.Rand
	b     *kbroker.Cluster
	topic string
	parts int
	desc  []string
	mu    sync.Mutex
	recs  map[gkey]*kbroker.Rec
	fs    []*follower
	lastQ map[string]time.Time // last request of an instance
}

func (g *gclRun) fail(kind, f string, a ...any) {
	g.c.Violate("C26", kind, "%s\n%s", fmt.Sprintf(f, a...), strings.Join(g.desc, "\n"))
}

// lookup finds a record that a read-committed reader may have got.
func (g *gclRun) lookup(p int32, off int64) *kbroker.Rec {
	l := g.b.Records(g.topic, p)
	g.b.Lock()
	defer g.b.Unlock()
	i := sort.Search(len(l), func(i int) bool { return l[i].Offset >= off })
	if i < len(l) && l[i].Offset == off && l[i].Committed() {
		g.mu.Lock()
		g.recs[gkey{p, off}] = l[i]
		g.mu.Unlock()
		return l[i]
	}
	return nil
}

func gclEngine(c *core.Ctx) {
	setLogger()
	stop := c.Watch("C26", "livelock", 60*time.Second, 240*time.Second, nil)
	defer stop()
	core.ApplyPerturb(core.Perturb{Seed: c.Rng.Uint64(), YieldProb: uint32(c.Rng.IntN(30000)), SiteProb: uint32(c.Rng.IntN(30000)), SleepProb: uint32(c.Rng.IntN(10000)), MaxSleep: ms(3), MaxHits: 200})
	synctest.Test(c.T, func(t *testing.T) {
		g := &gclRun{c: c, r: c.Rng, recs: map[gkey]*kbroker.Rec{}, lastQ: map[string]time.Time{}, topic: "global"}
		g.run()
	})
}

func (g *gclRun) step(f string, a ...any) { g.desc = append(g.desc, fmt.Sprintf(f, a...)) }

func (g *gclRun) run() {
	c, r := g.c, g.r
	st := &storm{seed: r.Uint64(), maxDelay: ms(200), keys: map[int16]bool{1: true, 3: true, 2: true}}
	if r.IntN(3) == 0 {
		st.drop, st.code, st.delay = pick(r, 0, 30), pick(r, 0, 100), pick(r, 0, 100)
	}
	var qmu sync.Mutex
	cfg := kbroker.Config{Fault: func(q *kbroker.Request) kbroker.Fault {
		qmu.Lock()
		g.lastQ[q.Inst] = time.Now()
		qmu.Unlock()
		if q.Inst[0] != 'f' {
			return kbroker.Fault{}
		}
		return st.fault(q)
	}, MaxTxnMillis: 900000}
	net := network(r, &cfg)
	g.b = kbroker.New(cfg)
	g.parts = pick(r, 1, 2, 3, 5, 9)
	g.b.CreateTopic(g.topic, g.parts, nil)
	g.b.CreateTopic("other", g.parts, nil)
	g.step("%s parts=%d storm drop=%d code=%d delay=%d", net, g.parts, st.drop, st.code, st.delay)
	n := 0
	plain := func(k int) {
		for ; k > 0; k-- {
			n++
			g.b.Append(g.topic, int32(r.IntN(g.parts)), g.rec(n))
			if r.IntN(5) == 0 {
				g.b.Append("other", int32(r.IntN(g.parts)), g.rec(-n))
			}
		}
	}
	plain(r.IntN(pick(r, 2, 300)))
	st.on.Store(true)
	total := time.Duration(5+r.IntN(60)) * time.Second
	end := time.Now().Add(total)
	var wg sync.WaitGroup
	for i := r.IntN(3); i > 0; i-- {
		wg.Add(1)
		name := fmt.Sprintf("p%d", i)
		pr := rand.New(rand.NewPCG(r.Uint64(), 1))
		go func() {
			defer wg.Done()
			g.producer(name, pr, end)
		}()
	}
	newF := func() {
		f := &follower{g: g, name: fmt.Sprintf("f%d", len(g.fs)), r: rand.New(rand.NewPCG(r.Uint64(), 2)), evs: map[int32][]gev{}, slow: pick(r, 0, 0, 5, 40), fails: r.IntN(2) == 0}
		in := g.b.Instance(f.name)
		pol := streams.CompactCleanupPolicy
		if r.IntN(2) == 0 {
			pol = streams.DeleteCleanupPolicy
		}
		if r.IntN(3) == 0 {
			rs := sak.NewRunStatus(context.Background())
			f.gcl = streams.NewGlobalChangeLogWithRunStatus(rs.Fork(), in, f, g.parts, g.topic, pol)
			f.halt = rs.Halt
		} else {
			f.gcl = streams.NewGlobalChangeLog(in, f, g.parts, g.topic, pol)
			f.halt = f.gcl.Stop
		}
		if r.IntN(6) == 0 { // some partitions are not followed from the beginning
			f.gcl.PauseAllPartitions()
			for p := 0; p < g.parts; p++ {
				f.add(int32(p), gev{kind: "paused"})
			}
			f.gcl.Start()
			if r.IntN(2) == 0 {
				g.pauseResume(f)
			}
		} else {
			f.gcl.Start()
		}
		g.fs = append(g.fs, f)
		g.step("%s slow=%d fails=%v", f.name, f.slow, f.fails)
	}
	newF()
	for time.Now().Before(end) {
		time.Sleep(time.Duration(r.Int64N(int64(pick(r, ms(30), 2*time.Second, 8*time.Second)))))
		f := g.fs[r.IntN(len(g.fs))]
		switch k := r.IntN(12); {
		case k < 4:
			plain(r.IntN(pick(r, 3, 60, 400)))
		case k < 7:
			g.pauseResume(f)
		case k < 8 && len(g.fs) < 4:
			newF()
		case k < 9:
			if len(g.fs) > 1 && f.stopAt.IsZero() {
				g.step("%s stops", f.name)
				f.mu.Lock()
				f.stopAt = time.Now()
				f.mu.Unlock()
				f.halt()
			}
		case k < 10:
			g.b.MoveLeaders()
		case k < 11:
			g.b.Compact(g.topic, nil)
		}
	}
	wg.Wait()
	st.on.Store(false)
	time.Sleep(50 * time.Second) // open transactions are ended by the coordinator
	plain(5)
	for p := 0; p < g.parts; p++ {
		n++
		g.b.Append(g.topic, int32(p), g.rec(n))
	}
	slowest := time.Now()
	g.finished(40 * time.Second)
	_ = slowest
	for _, f := range g.fs {
		g.check(f)
	}
	for _, f := range g.fs {
		if !f.stopAt.IsZero() {
			continue
		}
		f.mu.Lock()
		f.stopAt = time.Now()
		f.mu.Unlock()
		f.halt()
	}
	time.Sleep(20 * time.Second)
	for p := 0; p < g.parts; p++ {
		n++
		g.b.Append(g.topic, int32(p), g.rec(n))
	}
	time.Sleep(20 * time.Second)
	for _, f := range g.fs {
		f.mu.Lock()
		if len(f.late) > 0 {
			g.fail("delivery goes on after Stop", "%s: %v", f.name, f.late)
		}
		st := f.stopAt
		f.mu.Unlock()
		qmu.Lock()
		q := g.lastQ[f.name]
		qmu.Unlock()
		if q.Sub(st) > 30*time.Second {
			g.fail("still reads after Stop", "%s: last request %v after Stop", f.name, q.Sub(st))
		}
		c.Count("followers stopped", 1)
	}
	h := core.HashStr(fmt.Sprint(g.desc))
	for _, f := range g.fs {
		for p := 0; p < g.parts; p++ {
			h = core.Mix(h, uint64(len(f.evs[int32(p)])))
		}
	}
	c.Saw(h)
	c.Sample("%v", g.desc)
	c.Finish()
}

func (g *gclRun) rec(n int) kmsg.Record {
	var hs []kmsg.Header
	if n%3 == 0 {
		hs = append(hs, kmsg.Header{Key: "__grt__", Value: []byte(fmt.Sprintf("t%d", n%7))})
	}
	if n%4 == 0 {
		hs = append(hs, kmsg.Header{Key: "h", Value: []byte(fmt.Sprint(n))})
	}
	v := []byte(fmt.Sprintf("v%d", n))
	if n%11 == 0 {
		v = nil
	}
	return kmsg.Record{Key: []byte(fmt.Sprintf("k%d", n%17)), Value: v, Headers: hs}
}

// pauseResume interrupts one or all partitions of a follower and resumes them somewhere.
func (g *gclRun) pauseResume(f *follower) {
	r := g.r
	if !f.stopAt.IsZero() {
		return
	}
	var ps []int32
	all := r.IntN(3) == 0
	for p := 0; p < g.parts; p++ {
		if all || r.IntN(g.parts) == 0 {
			ps = append(ps, int32(p))
		}
	}
	pauseFirst := r.IntN(5) > 0
	if pauseFirst {
		for _, p := range ps {
			f.add(p, gev{kind: "pausing"})
		}
		if all {
			f.gcl.PauseAllPartitions()
		} else {
			for _, p := range ps {
				f.gcl.Pause(p)
			}
		}
		for _, p := range ps {
			f.add(p, gev{kind: "paused"})
		}
		g.step("%s pauses %v", f.name, ps)
		time.Sleep(time.Duration(r.Int64N(int64(pick(r, ms(1), ms(100), 30*time.Second)))))
	}
	for _, p := range ps {
		recs := g.b.Records(g.topic, p)
		x := int64(0)
		if n := len(recs); n > 0 {
			x = int64(r.IntN(int(recs[n-1].Offset) + 2))
		}
		g.step("%s resumes %d at %d", f.name, p, x)
		f.add(p, gev{kind: "resume", off: x})
		f.gcl.ResumePartitionAt(p, x)
		f.add(p, gev{kind: "resumed"})
		g.c.Count("resumptions", 1)
	}
}

// producer writes transactions, some of which are aborted or left open.
func (g *gclRun) producer(name string, r *rand.Rand, end time.Time) {
	n := 0
	for time.Now().Before(end) {
		in := g.b.Instance(fmt.Sprintf("%s-%d", name, n))
		opts, _ := in.Config()
		opts = append(opts, kgo.TransactionalID(name), kgo.RecordPartitioner(kgo.ManualPartitioner()), kgo.TransactionTimeout(20*time.Second), kgo.ProducerLinger(0))
		cl, err := kgo.NewClient(opts...)
		if err != nil {
			panic(err)
		}
		for k := r.IntN(12); k >= 0 && time.Now().Before(end); k-- {
			if cl.BeginTransaction() != nil {
				break
			}
			for i := r.IntN(12); i >= 0; i-- {
				n++
				kr := g.rec(1000000 + n)
				rec := &kgo.Record{Topic: g.topic, Partition: int32(r.IntN(g.parts)), Key: kr.Key, Value: kr.Value}
				for _, h := range kr.Headers {
					rec.Headers = append(rec.Headers, kgo.RecordHeader{Key: h.Key, Value: h.Value})
				}
				cl.Produce(context.Background(), rec, nil)
				if r.IntN(3) == 0 {
					time.Sleep(time.Duration(r.Int64N(int64(pick(r, ms(5), time.Second)))))
				}
			}
			ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
			cl.Flush(ctx)
			commit := kgo.TransactionEndTry(r.IntN(3) > 0)
			err := cl.EndTransaction(ctx, commit)
			cancel()
			if err != nil {
				break
			}
			g.c.Count("transactions ended", 1)
			time.Sleep(time.Duration(r.Int64N(int64(ms(300)))))
		}
		if r.IntN(2) == 0 && cl.BeginTransaction() == nil { // leave one open
			for i := r.IntN(5); i >= 0; i-- {
				cl.ProduceSync(context.Background(), &kgo.Record{Topic: g.topic, Partition: int32(r.IntN(g.parts)), Key: []byte("open"), Value: []byte("open")})
			}
			g.c.Count("transactions left open", 1)
		}
		in.Kill()
		cl.Close()
		time.Sleep(time.Duration(r.Int64N(int64(ms(3000)))))
		n++
	}
}

// finished waits until every running follower has caught up, or for a time.
func (g *gclRun) finished(limit time.Duration) {
	t0 := time.Now()
	last := -1
	for {
		n := 0
		for _, f := range g.fs {
			f.mu.Lock()
			for _, l := range f.evs {
				n += len(l)
			}
			f.mu.Unlock()
		}
		if n != last {
			last, t0 = n, time.Now()
		}
		if time.Since(t0) > limit {
			return
		}
		time.Sleep(500 * time.Millisecond)
	}
}

// check decides whether what a follower got of each partition is what the log and the interruptions explain.
func (g *gclRun) check(f *follower) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for p := int32(0); p < int32(g.parts); p++ {
		var recs []*kbroker.Rec
		for _, r := range g.b.Records(g.topic, p) {
			if r.Committed() {
				recs = append(recs, r)
			}
		}
		at := map[int64]int{}
		for i, r := range recs {
			at[r.Offset] = i
		}
		// gap tells whether an entry that was not compacted away lies in [from, to)
		gap := func(from, to int64) *kbroker.Rec {
			i := sort.Search(len(recs), func(i int) bool { return recs[i].Offset >= from })
			for ; i < len(recs) && recs[i].Offset < to; i++ {
				if !recs[i].Gone() {
					return recs[i]
				}
			}
			return nil
		}
		type exp struct {
			off int64
			gen int
		}
		match := func(from, off int64) bool { return from <= off && gap(from, off) == nil }
		set := map[exp]bool{{0, 0}: true}
		starts := []int64{0} // where each generation of deliveries begins
		var paused time.Time
		evs := f.evs[p]
		tail := func(i int) string {
			s := ""
			for k := max(0, i-12); k <= i && k < len(evs); k++ {
				s += fmt.Sprintf("%s %d; ", evs[k].kind, evs[k].off)
			}
			return s
		}
		ok := true
		for i, e := range evs {
			switch e.kind {
			case "paused":
				paused = e.at
			case "resume":
				paused = time.Time{}
				starts = append(starts, e.off)
			case "got":
				k, known := at[e.off]
				if !known {
					g.fail("entry delivered that is not a committed one", "%s partition %d offset %d: %s", f.name, p, e.off, tail(i))
					ok = false
					break
				}
				vis := recs[k].Time
				if t := recs[k].Txn; t != nil {
					vis = t.Ended
				}
				if !paused.IsZero() && vis.Sub(paused) > 8*time.Second {
					g.fail("paused partition is delivered", "%s partition %d offset %d became visible %v after the pause: %s", f.name, p, e.off, vis.Sub(paused), tail(i))
					ok = false
					break
				}
				next := map[exp]bool{}
				for s := range set {
					if match(s.off, e.off) {
						next[exp{e.off + 1, s.gen}] = true
					}
					for n := s.gen + 1; n < len(starts); n++ {
						if match(starts[n], e.off) {
							next[exp{e.off + 1, n}] = true
						}
					}
				}
				if len(next) == 0 {
					g.fail("entries missing or out of order", "%s partition %d offset %d, expected one of %v or the beginning of one of %v: %s", f.name, p, e.off, set, starts, tail(i))
					ok = false
				}
				set = next
			}
			if !ok {
				break
			}
		}
		if !ok || !f.stopAt.IsZero() || !paused.IsZero() {
			continue
		}
		last := len(starts) - 1
		done := gap(starts[last], 1<<60) == nil
		for s := range set {
			done = done || s.gen == last && gap(s.off, 1<<60) == nil
		}
		if !done {
			g.fail("entries are not delivered", "%s partition %d: %v from %d on, expected %v or the beginning of %v: %s", f.name, p, gap(0, 1<<60), starts[last], set, starts, tail(len(evs)))
		}
		g.c.Count("partitions checked to the end", 1)
	}
}
