package e2e

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kerr"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verifh/core"
	"verifh/kbroker"
)

func init() { core.Register("producer", producerEngine) }

// pcall is one record handed to a standalone producer, and what became of it.
type pcall struct {
	id       string
	topic    string // as set
	part     int32
	key, val []byte
	typ      string
	hdrs     []Hdr
	how      string
	told     atomic.Int32
	err      error
	limited  bool // the context may end
	rec      *streams.Record
	asked    time.Time
}

type prodRun struct {
	c       *core.Ctx
	r       *rand.Rand
	b       *kbroker.Cluster
	desc    []string
	mu      sync.Mutex
	calls   []*pcall
	reject  map[string][]int16 // by id: permanently rejected with these codes
	rejPar  map[int16]bool     // all codes used
	closeAt time.Time
	limited bool
	drops   bool
	nparts  map[string]int
	closed  atomic.Bool
	n       atomic.Int64
}

func (g *prodRun) fail(prop, kind, f string, a ...any) {
	g.c.Violate(prop, kind, "%s\n%s limited=%v", fmt.Sprintf(f, a...), strings.Join(g.desc, "\n"), g.limited)
}

func producerEngine(c *core.Ctx) {
	setLogger()
	stop := c.Watch("C10", "livelock", 60*time.Second, 240*time.Second, nil)
	defer stop()
	core.ApplyPerturb(core.Perturb{Seed: c.Rng.Uint64(), YieldProb: uint32(c.Rng.IntN(30000)), SiteProb: uint32(c.Rng.IntN(30000)), SleepProb: uint32(c.Rng.IntN(10000)), MaxSleep: ms(3), MaxHits: 200})
	synctest.Test(c.T, func(t *testing.T) {
		g := &prodRun{c: c, r: c.Rng, reject: map[string][]int16{}, rejPar: map[int16]bool{}}
		g.run()
	})
}

func idOf(r kmsg.Record) string {
	for _, h := range r.Headers {
		if h.Key == "id" {
			return string(h.Value)
		}
	}
	return ""
}

func (g *prodRun) run() {
	c, r := g.c, g.r
	st := &storm{seed: r.Uint64(), maxDelay: ms(200), keys: map[int16]bool{0: true, 3: true, 22: true}}
	if r.IntN(3) == 0 {
		st.drop, st.code, st.delay = pick(r, 0, 30, 150), pick(r, 0, 100), pick(r, 0, 100)
	}
	g.drops = st.drop > 0
	st.on.Store(true)
	rejProb := pick(r, 0, 0, 5, 40)
	if rejProb > 0 {
		// A client that lost a reply can be told that records were rejected
		// although they are on the log; and it fails records that were
		// buffered for a partition when it cannot learn about the topic.
		st.drop, st.code = 0, 0
	}
	if st.code > 0 {
		delete(st.keys, 3)
	}
	rseed := r.Uint64()
	var rn counter
	cfg := kbroker.Config{Fault: st.fault, ProduceFault: func(inst, topic string, p int32, txn bool, recs []kmsg.Record) int16 {
		if rejProb == 0 {
			return 0
		}
		x := core.Mix(rseed, rn.next())
		if int(x%100) >= rejProb {
			return 0
		}
		code := []int16{10, 29, 87}[x>>20%3]
		g.mu.Lock()
		g.rejPar[code] = true
		for _, rec := range recs {
			g.reject[idOf(rec)] = append(g.reject[idOf(rec)], code)
		}
		g.mu.Unlock()
		return code
	}}
	net := network(r, &cfg)
	g.b = kbroker.New(cfg)
	g.nparts = map[string]int{"d": 1 + r.IntN(9), "a": 1 + r.IntN(9), "b": 1 + r.IntN(3)}
	for t, n := range g.nparts {
		g.b.CreateTopic(t, n, nil)
	}
	g.desc = append(g.desc, fmt.Sprintf("%s topics=%v storm drop=%d code=%d delay=%d reject=%d", net, g.nparts, st.drop, st.code, st.delay, rejProb))
	in := g.b.Instance("producer")
	p := streams.NewProducer(streams.Destination{DefaultTopic: "d", Cluster: in})
	closeEarly := r.IntN(6) == 0
	pads := pick(r, 5, 5, 300)
	var wg sync.WaitGroup
	nCallers, per := 1+r.IntN(6), 1+r.IntN(60)
	for k := 0; k < nCallers; k++ {
		wg.Add(1)
		cr := rand.New(rand.NewPCG(r.Uint64(), uint64(k)))
		go func() {
			defer wg.Done()
			for i := 0; i < per && !g.closed.Load(); i++ {
				g.one(p, cr, fmt.Sprintf("%d.%d", k, i), pads)
				if cr.IntN(4) == 0 {
					time.Sleep(time.Duration(cr.Int64N(int64(pick(cr, ms(1), ms(20), ms(300))))))
				}
			}
		}()
	}
	if closeEarly {
		time.Sleep(time.Duration(r.Int64N(int64(time.Second))))
		g.closed.Store(true)
		g.mu.Lock()
		g.closeAt = time.Now()
		g.mu.Unlock()
		time.Sleep(time.Microsecond)
		g.desc = append(g.desc, "closed early")
		p.Close()
	}
	ended := make(chan struct{})
	go func() { wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(4 * time.Minute):
		g.mu.Lock()
		late := false
		for _, x := range g.calls {
			late = late || x.told.Load() == 0 && x.how == "sync" && g.afterClose(x)
		}
		g.mu.Unlock()
		if late {
			break
		}
		g.fail("C10", "synchronous produce does not return", "%s", libStacks())
	}
	st.on.Store(false)
	for t0 := time.Now(); time.Since(t0) < 2*time.Minute; time.Sleep(100 * time.Millisecond) {
		open := 0
		g.mu.Lock()
		for _, x := range g.calls {
			if x.told.Load() == 0 && x.how != "async without callback" {
				open++
			}
		}
		g.mu.Unlock()
		if open == 0 {
			break
		}
	}
	time.Sleep(time.Second)
	g.check()
	if !closeEarly {
		p.Close()
	}
	c.Saw(core.HashStr(fmt.Sprint(g.desc, len(g.calls), g.n.Load())))
	c.Sample("%v", g.desc)
	c.Finish()
}

// one produces one record in one of the ways there are.
func (g *prodRun) one(p *streams.Producer, r *rand.Rand, id string, pads int) {
	x := &pcall{id: id, part: -1}
	rec := streams.NewRecord()
	if err := rec.Error(); err != nil {
		g.fail("C19", "new record is not empty", "a new record has the error %v", err)
	}
	x.topic = pick(r, "", "", "d", "a", "b")
	if r.IntN(40) == 0 {
		x.topic = "missing"
	}
	topic := x.topic
	if topic == "" {
		topic = "d"
	}
	rb := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		return b
	}
	var steps []func()
	if x.topic != "" {
		steps = append(steps, func() { rec.WithTopic(x.topic) })
	}
	if r.IntN(2) == 0 && g.nparts[topic] > 0 {
		x.part = int32(r.IntN(g.nparts[topic]))
		steps = append(steps, func() { rec.WithPartition(x.part) })
	}
	if r.IntN(4) > 0 {
		x.key = rb(1 + r.IntN(12))
		steps = append(steps, pick(r, func() { rec.WithKey(x.key[:len(x.key)/2], x.key[len(x.key)/2:]) }, func() { rec.WriteKeyString(string(x.key)) }, func() { rec.KeyWriter().Write(x.key) }))
	}
	if r.IntN(6) > 0 {
		x.val = rb(1 + r.IntN(pads))
		steps = append(steps, pick(r, func() { rec.WithValue(x.val[:1], x.val[1:]) }, func() { rec.WriteValue(x.val) }, func() { rec.ValueWriter().Write(x.val) }))
	}
	if r.IntN(2) == 0 {
		x.typ = fmt.Sprintf("type%d", r.IntN(5))
		steps = append(steps, func() { rec.WithRecordType(x.typ) })
	}
	r.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
	for _, s := range steps {
		s()
	}
	for k := r.IntN(3); k > 0; k-- {
		h := Hdr{fmt.Sprintf("h%d", r.IntN(3)), string(rb(r.IntN(5)))}
		x.hdrs = append(x.hdrs, h)
		rec.WithHeader(h.K, []byte(h.V))
	}
	rec.WithHeader("id", []byte(id))
	x.rec, x.asked = rec, time.Now()
	ctx, cancel := context.Background(), context.CancelFunc(func() {})
	switch k := r.IntN(12); {
	case k == 0 && !g.drops: // a client reuses the numbers of records it gave up on after lost replies
		ctx, cancel = context.WithTimeout(ctx, time.Duration(1+r.Int64N(int64(ms(20)))))
		x.limited = true
		g.mu.Lock()
		g.limited = true
		g.mu.Unlock()
	case k == 1:
		ctx, cancel = context.WithTimeout(ctx, time.Hour)
	}
	x.how = pick(r, "sync", "sync", "async", "async", "async without callback")
	if r.IntN(8) == 0 && !x.limited && x.topic != "" && x.topic != "missing" && x.part < 0 {
		// not for this topic; the record is used again
		if err := p.Produce(ctx, rec.WithTopic("missing")); err == nil {
			g.fail("C10", "success reported for a record that is not on the log", "%s produced to a missing topic", x.id)
		}
		rec.WithTopic(x.topic).WithPartition(streams.AutoAssign) // the client reports a partition
		x.asked = time.Now()
		g.c.Count("records produced again", 1)
	}
	g.mu.Lock()
	g.calls = append(g.calls, x)
	g.mu.Unlock()
	tell := func(err error) {
		if x.told.Add(1) > 1 {
			g.fail("C10", "record reported more than once", "%s %s", x.id, x.how)
		}
		g.mu.Lock()
		x.err = err
		g.mu.Unlock()
		if err == nil && !g.onLog(x) {
			g.fail("C10", "success reported for a record that is not on the log", "%s %s topic %q", x.id, x.how, x.topic)
		}
		g.c.Count("records reported", 1)
	}
	release := r.IntN(2) == 0
	switch x.how {
	case "sync":
		err := p.Produce(ctx, rec)
		tell(err)
		cancel()
		if release {
			rec.Release()
		}
	case "async":
		p.ProduceAsync(ctx, rec, func(got *streams.Record, err error) {
			if got != rec {
				g.fail("C10", "callback for another record", "%s", x.id)
			}
			tell(err)
			cancel()
			if release {
				got.Release()
			}
		})
	default:
		p.ProduceAsync(ctx, rec, nil)
		_ = cancel
	}
}

// afterClose tells whether a call may have reached the client after it was
// closed; it says nothing about such records.
func (g *prodRun) afterClose(x *pcall) bool {
	return !g.closeAt.IsZero() && !x.asked.Before(g.closeAt.Add(-ms(50)))
}

func (g *prodRun) onLog(x *pcall) bool { return len(g.found(x)) > 0 }

func (g *prodRun) found(x *pcall) (l []*kbroker.Rec) {
	for t, n := range g.nparts {
		for p := 0; p < n; p++ {
			for _, r := range g.b.Records(t, int32(p)) {
				if id, _ := r.Header("id"); id == x.id {
					l = append(l, r)
				}
			}
		}
	}
	return
}

func (g *prodRun) check() {
	g.mu.Lock()
	defer g.mu.Unlock()
	by := map[string][]*kbroker.Rec{}
	for t, n := range g.nparts {
		for p := 0; p < n; p++ {
			for _, r := range g.b.Records(t, int32(p)) {
				id, _ := r.Header("id")
				by[id] = append(by[id], r)
			}
		}
	}
	for _, x := range g.calls {
		l := by[x.id]
		delete(by, x.id)
		if len(l) > 1 {
			g.fail("C10", "record written more than once", "%s: %v", x.id, l)
		}
		if len(l) > 0 {
			g.compare(x, l[0])
		}
		if x.how == "async without callback" {
			if code := g.reject[x.id]; code != nil && len(l) > 0 {
				g.fail("C10", "rejected record on the log", "%s: codes %v, %v", x.id, code, l[0])
			}
			if !g.closed.Load() && !x.limited && len(g.rejPar) == 0 && !g.limited && x.topic != "missing" && len(l) == 0 {
				g.fail("C10", "record not written", "%s %s", x.id, x.how)
			}
			continue
		}
		n := x.told.Load()
		if n == 0 {
			if g.afterClose(x) {
				continue
			}
			g.fail("C10", "record never reported", "%s %s topic %q: nothing for %v (closed=%v)\n%s", x.id, x.how, x.topic, time.Since(x.asked), g.closed.Load(), libStacks())
			continue
		}
		g.n.Add(int64(core.HashStr(fmt.Sprint(x.id, x.err)) % 1000))
		code := g.reject[x.id]
		rejected := code != nil
		ctxErr := g.limited && (errors.Is(x.err, context.DeadlineExceeded) || errors.Is(x.err, context.Canceled)) // the client lets it spread to the records beside
		var ke *kerr.Error
		isKafka := errors.As(x.err, &ke)
		switch {
		case x.err == nil && len(l) == 0:
			g.fail("C10", "success reported for a record that is not on the log", "%s %s topic %q rejected with %v", x.id, x.how, x.topic, code)
		case rejected && len(l) > 0:
			g.fail("C10", "rejected record on the log", "%s: codes %v, %v", x.id, code, l[0])
		case rejected && x.err == nil:
			g.fail("C10", "rejection not reported", "%s: codes %v", x.id, code)
		case rejected && (!isKafka || !slices.Contains(code, ke.Code)) && !ctxErr && !g.closed.Load() && !(isKafka && g.rejPar[ke.Code]):
			g.fail("C10", "another error than the cluster's reported", "%s: %v instead of codes %v", x.id, x.err, code)
		case x.err != nil && !rejected && x.topic != "missing" && !ctxErr && !g.closed.Load() && !(isKafka && g.rejPar[ke.Code] && len(l) == 0): // a rejection fails what is buffered for the same partition
			g.fail("C10", "error reported without a reason", "%s %s: %v, on the log: %v", x.id, x.how, x.err, l)
		}
		if rejected {
			g.c.Count("rejections compared", 1)
		}
	}
	for id, l := range by {
		g.fail("C10", "record nobody produced", "%s: %v", id, l[0])
	}
}

func (g *prodRun) compare(x *pcall, r *kbroker.Rec) {
	topic := x.topic
	if topic == "" {
		topic = "d"
	}
	bad := func(what string, got, want any) {
		g.fail("C10", "record altered: "+what, "%s: got %v, expected %v: %v", x.id, got, want, r)
		g.fail("C19", "record altered: "+what, "%s: got %v, expected %v: %v", x.id, got, want, r)
	}
	if r.Topic != topic {
		bad("topic", r.Topic, topic)
	}
	if !bytes.Equal(r.Key, x.key) || (len(x.key) == 0) != (r.Key == nil) {
		bad("key", r.Key, x.key)
	}
	if !bytes.Equal(r.Value, x.val) || (len(x.val) == 0) != (r.Value == nil) {
		bad("value", r.Value, x.val)
	}
	if x.part >= 0 && r.Partition != x.part {
		bad("partition", r.Partition, x.part)
		g.fail("C24", "explicit partition ignored", "%s: %v, expected partition %d", x.id, r, x.part)
	}
	if x.part < 0 && len(x.key) > 0 {
		if want := autoPart(x.key, g.nparts[topic]); r.Partition != want {
			g.fail("C24", "wrong partition for the key", "%s: %v, expected partition %d of %d", x.id, r, want, g.nparts[topic])
		}
	}
	var hs []Hdr
	typ, types := "", 0
	for _, h := range r.Headers {
		switch h.Key {
		case "id":
		case streams.RecordTypeHeaderKey:
			typ, types = string(h.Value), types+1
		default:
			hs = append(hs, Hdr{h.Key, string(h.Value)})
		}
	}
	if typ != x.typ || types > 1 {
		bad("record type", typ, x.typ)
	}
	if fmt.Sprint(hs) != fmt.Sprint(x.hdrs) {
		bad("headers", hs, x.hdrs)
	}
	g.c.Count("records compared", 1)
}

var _ = kgo.ErrClientClosed
