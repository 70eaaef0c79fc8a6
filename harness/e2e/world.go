package e2e

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kerr"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verifh/core"
	"verifh/kbroker"
	"verifh/rebal"
)

const (
	srcTopic  = "src"
	sideTopic = "side"
)

type World struct {
	c     *core.Ctx
	b     *kbroker.Cluster
	r     *rand.Rand // driver only
	seed  uint64
	plan  Plan
	eos   streams.EosConfig
	group string
	race  bool // record nothing that would order goroutines
	desc  []string
	t0    time.Time

	mu       sync.Mutex // never held across calls of the library or the broker
	apps     []*App
	evs      map[int32][]*Ev
	byOff    map[int32]map[int64]*Ev
	byID     map[string]*Ev
	appended map[int32]int64 // events appended
	ijs      map[string]*Ij
	ijN      int
	tokens   map[int64]*token
	tokenN   int64
	seq      int64
	hseq     uint64 // hash of the order of handler starts
	hseqP    map[int32]uint64
	marks    map[tpKey]int64 // committed positions
	nTxn     int64

	lenientLoss   bool // a Continue policy is in force: content checks are off
	decodeDefault bool // the application sets no handler for decode errors
	gracefulOnly  bool // no crash, immediate stop, failure or lost session so far
	ungraceful    atomic.Bool
	noFinal       bool
	strat         []streams.BalanceStrategy
	stops         atomic.Int64
	tainted       atomic.Bool // a live member lost its session: ownership was not exclusive, which is not judged
	mayFail       bool        // faults are injected: applications may fail
	vtick         atomic.Int64
	progress      atomic.Int64
	jobSleep      bool
	stalls        atomic.Int64  // how often a store may stall while it is populated
	stallMax      time.Duration // for how long
	hangEv        *hang
	sideReject    map[string][]int16 // by value: rejected with these codes
	sideCodes     map[int16]bool
	sideTimeout   time.Duration // batch producers give records up
	ijWait        int           // an interjection waits for so many events at most
	sideJudge     bool                                                                  // no fault reaches the side topics but rejections
	otherParts    map[string]int32                                                      // partitions of further topics
	preset        map[int32]int64                                                       // group offsets before the first application started
	onPlan        func(p kbroker.SyncPlan, ms []rebal.Meta, plan map[string]rebal.Plan) // under the broker's lock
}

type tpKey struct {
	t string
	p int32
}

type token struct {
	id   int64
	app  *App
	p    int32
	off  int64
	typ  string
	raw  string
	used bool
}

// Ij is one interjection call.
type Ij struct {
	id, name  string
	p         int32
	app       *App
	started   time.Time
	runs      int
	completed bool
	val       uint64
	asked     bool // with the number of events begun before, in the ownership epoch
	begun     int
	epoch     int
}

type AppOpts struct {
	Name       string
	Strategies []streams.BalanceStrategy
	Commit     bool
	TxnErr     streams.TxnErrorHandler
	DecodeErr  streams.DeserializationErrorHandler
	Metrics    streams.MetricsHandler
	Periodic   []Periodic
	SchedCfg   streams.SchedulerConfig
	BatchMax   int
	BatchConc  int
	BatchDelay time.Duration
	ClientOpts []kgo.Opt
	CBSleep    time.Duration // sleep inside lifecycle callbacks
	Group      string
	Topic      string
	RawConf    func(*streams.EventSourceConfig)
	Hold       bool // do not start consuming
}

type Periodic struct {
	Name          string
	Every, Jitter time.Duration
	Async         bool
	Dur           time.Duration
}

// partState follows one partition on one application.
type partState struct {
	p                                        int32
	epoch                                    int
	assigned, activated, willRevoke, revoked int // counts in the current ownership
	activatedAt                              time.Time
	revokedAt                                time.Time
	willAt                                   time.Time
	activeStore                              *Store
	lastIj                                   map[string]time.Time
	begun                                    int // events
	busy                                     atomic.Int32
}

func (ps *partState) owned() bool { return (ps.assigned > 0 || ps.activated > 0) && ps.revoked == 0 }

type App struct {
	w        *World
	idx      int
	o        AppOpts
	in       *kbroker.Instance
	es       *streams.EventSource[*Store]
	cfg      streams.EventSourceConfig
	dead     atomic.Bool // crashed: nothing it does counts
	zombie   atomic.Bool // thrown out of the group, or hanging: not judged any more
	started  time.Time
	stopping atomic.Bool
	stopAt   time.Time
	stopNow  bool
	doneAt   time.Time
	isDone   atomic.Bool
	up       atomic.Bool // created and set up
	failedAt atomic.Int64
	failed   atomic.Bool // the transaction error handler asked for failure
	parts    map[int32]*partState
	stores   map[int32]*Store
	txnErrs  []string
	sched    *streams.AsyncJobScheduler[*Store, string, *job]
	batcher  *streams.AsyncBatcher[*Store, string, *job]
	bprod    *streams.BatchProducer[*Store]
	metrics  []streams.Metric
	inflight int64
}

func (a *App) String() string { return a.o.Name }

type job struct {
	call  *Call
	ec    *streams.EventContext[*Store]
	execs atomic.Int32
}

// Store is the state of one partition on one application.
type Store struct {
	app     *App
	w       *World
	p       int32
	n       int
	ps      *partState
	data    map[string]string
	recv    []change
	busy    int32
	what    string
	revoked bool
	revCnt  int
	active  bool
	hgate   int
}

type change struct {
	off      int64
	key, val string
	ev       string
}

func (s *Store) enter(what string) func() {
	if s.w.race {
		s.hgate++ // plain access: the race detector sees two unordered callbacks
		return func() { s.hgate++ }
	}
	if s.app.dead.Load() {
		return func() {}
	}
	if !atomic.CompareAndSwapInt32(&s.busy, 0, 1) {
		s.w.fail("C07", "concurrent callbacks", "%s: %s of partition %d runs while %s is running", s.app, what, s.p, s.what)
		return func() {}
	}
	ok := s.ps.busy.CompareAndSwap(0, 1)
	if !ok {
		s.w.fail("C07", "concurrent callbacks", "%s: %s of partition %d runs while another callback of an older store of the same partition is running", s.app, what, s.p)
	}
	s.what = what
	return func() {
		if ok {
			s.ps.busy.Store(0)
		}
		s.what = "(finished) " + what
		atomic.StoreInt32(&s.busy, 0)
	}
}

func (s *Store) ReceiveChange(r streams.IncomingRecord) error {
	defer s.enter("ReceiveChange")()
	if s.revoked && !s.app.dead.Load() {
		s.w.fail("C17", "store used after revocation", "%s: store of partition %d receives offset %d after Revoked", s.app, s.p, r.Offset())
	}
	if s.active && !s.app.dead.Load() {
		s.w.fail("C06", "change delivered after activation", "%s: store of partition %d receives offset %d key %q after the partition was activated", s.app, s.p, r.Offset(), r.Key())
	}
	if tp := r.TopicPartition(); tp.Partition != s.p {
		s.w.fail("C06", "change of another partition", "%s: store of partition %d receives a record of %v", s.app, s.p, tp)
	}
	s.recv = append(s.recv, change{r.Offset(), string(r.Key()), string(r.Value()), string(r.HeaderValue("ev"))})
	s.apply(string(r.Key()), r.Value())
	if s.w.jobSleep && r.Offset()%7 == 3 {
		time.Sleep(100 * time.Microsecond)
	}
	if s.w.stallMax > 0 && r.Offset()%5 == 2 && s.w.stalls.Add(-1) >= 0 {
		s.w.c.Count("stalls while a store is populated", 1)
		time.Sleep(s.w.stallMax)
	}
	if r.Offset()%13 == 5 {
		return errors.New("receiver error") // must not matter
	}
	return nil
}

func (s *Store) apply(k string, v []byte) {
	if len(v) == 0 {
		delete(s.data, k)
	} else {
		s.data[k] = string(v)
	}
}

func (s *Store) Revoked() {
	defer s.enter("Revoked")()
	if s.app.dead.Load() || s.w.race {
		return
	}
	s.revCnt++
	if s.revCnt > 1 {
		s.w.fail("C17", "store revoked twice", "%s partition %d", s.app, s.p)
	}
	s.revoked = true
	s.w.mu.Lock()
	if s.ps.revoked > 0 && s == s.ps.activeStore {
		s.w.failL("C17", "store revoked after the revoked callback", "%s partition %d", s.app, s.p)
	}
	s.w.mu.Unlock()
}

func (w *World) fail(prop, kind, f string, a ...any) {
	if w.tainted.Load() {
		switch prop {
		case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C17":
			w.c.Count("verdicts withheld after a lost session", 1)
			return
		}
	}
	detail := fmt.Sprintf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(w.desc, "\n"))
	w.c.Violate(prop, kind, "%s", detail)
	traceKeep(prop + " " + kind + "\n" + detail)
}

// failL is fail while holding w.mu.
func (w *World) failL(prop, kind, f string, a ...any) { w.fail(prop, kind, f, a...) }

func (w *World) logf(f string, a ...any) {
	if debugging {
		trace("## %s", fmt.Sprintf(f, a...))
	}
}

func (w *World) note(f string, a ...any) { w.desc = append(w.desc, fmt.Sprintf(f, a...)) }

// newApp builds and starts an application.
func (w *World) newApp(o AppOpts) *App {
	if o.Group == "" {
		o.Group = w.group
	}
	if o.Topic == "" {
		o.Topic = srcTopic
	}
	w.mu.Lock()
	a := &App{w: w, idx: len(w.apps), o: o, parts: map[int32]*partState{}, stores: map[int32]*Store{}}
	if a.o.Name == "" {
		a.o.Name = fmt.Sprintf("app%d", a.idx)
	}
	w.apps = append(w.apps, a)
	w.mu.Unlock()
	a.in = w.b.Instance(a.o.Name)
	var state streams.Cluster
	if w.plan.Split {
		a.in.View = "source"
		a.in.Twin = w.b.Instance(a.o.Name)
		a.in.Twin.View = "state"
		state = a.in.Twin
	}
	cfg := streams.EventSourceConfig{
		GroupId:               o.Group,
		Topic:                 o.Topic,
		NumPartitions:         w.plan.Parts,
		CommitLogPartitions:   w.plan.CLParts,
		SourceCluster:         a.in,
		StateCluster:          state,
		BalanceStrategies:     o.Strategies,
		CommitOffsets:         o.Commit,
		EosConfig:             w.eos,
		OnPartitionAssigned:   a.cb("assigned"),
		OnPartitionActivated:  a.cb("activated"),
		OnPartitionWillRevoke: a.cb("willRevoke"),
		OnPartitionRevoked:    a.cb("revoked"),
		TxnErrorHandler: func(err error) streams.ErrorResponse {
			a.txnErr(err)
			if o.TxnErr == nil {
				a.ungraceful("transaction error: %v", err)
				return streams.FailConsumer
			}
			r := o.TxnErr(err)
			if r != streams.Continue {
				a.ungraceful("transaction error: %v", err)
			}
			return r
		},
		DeserializationErrorHandler: o.DecodeErr,
		MetricsHandler:              o.Metrics,
	}
	if cfg.DeserializationErrorHandler == nil {
		cfg.DeserializationErrorHandler = func(ec streams.ErrorContext, t string, err error) streams.ErrorResponse {
			a.decodeErr(ec, t, err)
			return streams.Continue
		}
	}
	if o.RawConf != nil {
		o.RawConf(&cfg)
	}
	a.cfg = cfg
	es, err := streams.NewEventSource(cfg, a.newStore, a.handleDefault, o.ClientOpts...)
	if err != nil {
		w.fail("C25", "application not created", "NewEventSource: %v", err)
		w.finish()
	}
	a.es = es
	a.setup()
	a.up.Store(true)
	w.logf("%s starts", a)
	if !o.Hold {
		a.consume()
	}
	go func() {
		<-es.Done()
		w.mu.Lock()
		a.doneAt = time.Now()
		w.mu.Unlock()
		a.isDone.Store(true)
		w.logf("%s done", a)
	}()
	return a
}

func (a *App) consume() {
	a.started = time.Now()
	a.es.ConsumeEvents()
}

func (a *App) ungraceful(f string, args ...any) {
	if a.failed.CompareAndSwap(false, true) {
		a.w.ungraceful.Store(true)
		a.w.logf("%s fails: %s", a, fmt.Sprintf(f, args...))
	}
}

func (a *App) txnErr(err error) {
	if a.w.race {
		return
	}
	if !a.w.mayFail && !a.dead.Load() && !a.zombie.Load() {
		if debugging {
			trace("%s", core.Stacks())
		}
		a.w.fail("C01", "transaction error without a fault", "%s: %v (stopping=%v)", a, err, a.stopping.Load())
	}
	a.w.logf("%s txn error: %v", a, err)
	a.w.mu.Lock()
	a.txnErrs = append(a.txnErrs, fmt.Sprint(err))
	a.w.mu.Unlock()
}

func (a *App) setup() {
	es := a.es
	sc := a.o.SchedCfg
	if sc.Concurrency == 0 {
		sc = streams.SchedulerConfig{Concurrency: 4, WorkerQueueDepth: 10, MaxConcurrentKeys: 20}
	}
	var err error
	a.sched, err = streams.CreateAsyncJobScheduler(es, a.schedProcess, a.schedFinalize, sc)
	if err != nil {
		panic(err)
	}
	if a.o.BatchMax == 0 {
		a.o.BatchMax, a.o.BatchConc, a.o.BatchDelay = 8, 2, 3*time.Millisecond
	}
	a.batcher = streams.NewAsyncBatcher[*Store](a.batchExec, a.o.BatchMax, a.o.BatchConc, a.o.BatchDelay)
	if a.w.plan.Modes[mBProd] > 0 {
		var opts []kgo.Opt
		if a.w.sideTimeout > 0 {
			opts = append(opts, kgo.RecordDeliveryTimeout(a.w.sideTimeout))
		}
		a.bprod = streams.NewBatchProducer[*Store](streams.Destination{DefaultTopic: sideTopic, Cluster: a.in}, opts...)
	}
	for m := 0; m < nModes; m++ {
		if m == mDefault {
			continue
		}
		mode := m
		streams.RegisterEventType(es, a.decoder("t."+modeNames[m]), func(ec *streams.EventContext[*Store], t *token) streams.ExecutionState {
			return a.handleTyped(ec, t, mode)
		}, "t."+modeNames[m])
	}
	for i := range a.o.Periodic {
		pi := a.o.Periodic[i]
		es.ScheduleInterjection(func(ec *streams.EventContext[*Store], now time.Time) streams.ExecutionState {
			return a.periodic(ec, now, pi)
		}, pi.Every, pi.Jitter)
	}
}

func (a *App) newStore(tp streams.TopicPartition) *Store {
	w := a.w
	s := &Store{app: a, w: w, p: tp.Partition, data: map[string]string{}}
	w.mu.Lock()
	defer w.mu.Unlock()
	s.ps = a.part(tp.Partition)
	if old := a.stores[tp.Partition]; old != nil {
		s.n = old.n + 1
	}
	a.stores[tp.Partition] = s
	return s
}

// part returns the state of a partition; w.mu must be held.
func (a *App) part(p int32) *partState {
	ps := a.parts[p]
	if ps == nil {
		ps = &partState{p: p, lastIj: map[string]time.Time{}}
		a.parts[p] = ps
	}
	return ps
}

func (a *App) cb(what string) streams.SourcePartitionEventHandler {
	return func(_ *streams.Source, p int32) {
		if a.w.race {
			return
		}
		a.lifecycle(what, p)
		if a.o.CBSleep > 0 {
			time.Sleep(time.Duration(core.Mix(a.w.seed, core.HashStr(what)+uint64(p)) % uint64(a.o.CBSleep)))
		}
	}
}

func (a *App) lifecycle(what string, p int32) {
	w := a.w
	if a.dead.Load() {
		return
	}
	w.logf("%s partition %d %s", a, p, what)
	w.c.Count("lifecycle callbacks", 1)
	var ents []change
	if what == "activated" || what == "revoked" {
		ents = w.committedChanges(a, p)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	ps := a.part(p)
	bad := func(kind string) {
		w.failL("C17", kind, "%s partition %d: %s callback with assigned=%d activated=%d willRevoke=%d revoked=%d in this ownership", a, p, what, ps.assigned, ps.activated, ps.willRevoke, ps.revoked)
	}
	switch what {
	case "assigned":
		if ps.assigned > 0 && ps.revoked == 0 {
			bad("assigned twice")
		}
		if ps.activated > 0 && ps.revoked == 0 {
			bad("activated before assigned")
		}
		ps.epoch++
		ps.assigned, ps.activated, ps.willRevoke, ps.revoked = 1, 0, 0, 0
		ps.lastIj = map[string]time.Time{}
		ps.activeStore = nil
	case "activated":
		if ps.assigned == 0 || ps.revoked > 0 {
			bad("activated without ownership")
		} else if ps.activated > 0 {
			bad("activated twice")
		} else if ps.willRevoke > 0 {
			// revoked while activating: allowed, as long as the revoked callback comes later
		}
		ps.activated++
		ps.activatedAt = time.Now()
		st := a.stores[p]
		if st == nil {
			w.failL("C06", "no store", "%s partition %d activated without a store", a, p)
			break
		}
		ps.activeStore = st
		st.active = true
		w.c.Count("activations", 1)
		w.checkLoaded(a, st, ents)
	case "willRevoke":
		if ps.assigned == 0 || ps.revoked > 0 {
			bad("willRevoke without ownership")
		} else if ps.willRevoke > 0 {
			bad("willRevoke twice")
		}
		ps.willRevoke++
		ps.willAt = time.Now()
	case "revoked":
		if ps.assigned == 0 {
			bad("revoked without ownership")
		} else if ps.willRevoke == 0 {
			bad("revoked without willRevoke")
		} else if ps.revoked > 0 {
			bad("revoked twice")
		}
		if ps.activeStore != nil && !ps.activeStore.revoked {
			w.failL("C17", "store not told of revocation before the revoked callback", "%s partition %d", a, p)
		}
		if s := ps.activeStore; s != nil && !w.lenientLoss && !a.stopNow && !a.failed.Load() && !a.zombie.Load() {
			w.checkGivenUp(a, s, ents)
		}
		ps.revoked++
		ps.revokedAt = time.Now()
		w.c.Count("ownerships ended", 1)
	}
}

// committedChanges returns what a read-committed reader of a change log sees now.
func (w *World) committedChanges(a *App, p int32) []change {
	var l []change
	topic := a.es.Source().StateStoreTopicName()
	recs := w.b.Records(topic, p)
	w.b.Lock()
	defer w.b.Unlock()
	for _, r := range recs {
		if !r.Committed() || isMark(r) || r.Gone() {
			continue
		}
		ev, _ := r.Header("ev")
		l = append(l, change{r.Offset, string(r.Key), string(r.Value), ev})
	}
	return l
}

func isMark(r *kbroker.Rec) bool {
	return len(r.Headers) == 1 && r.Headers[0].Key == "gkes__mark"
}

func (w *World) checkLoaded(a *App, st *Store, want []change) {
	got := st.recv
	n := len(want)
	for i := 0; i < len(got) || i < n; i++ {
		if i >= len(got) {
			w.failL("C06", "change-log entry missing at activation", "%s partition %d: activated with %d of %d entries; first missing: offset %d key %q", a, st.p, len(got), n, want[i].off, want[i].key)
			return
		}
		if i >= n {
			w.failL("C06", "entry delivered that is not a committed one", "%s partition %d: %d entries received, %d committed; extra: offset %d key %q", a, st.p, len(got), n, got[i].off, got[i].key)
			return
		}
		if got[i] != want[i] {
			w.failL("C06", "wrong change-log entry delivered", "%s partition %d: entry %d is offset %d key %q, expected offset %d key %q", a, st.p, i, got[i].off, got[i].key, want[i].off, want[i].key)
			return
		}
	}
	w.c.Count("state entries checked at activation", int64(n))
}

// checkGivenUp compares the store of a partition that was given up gracefully with what its next owner will load.
func (w *World) checkGivenUp(a *App, s *Store, ents []change) {
	st := map[string]string{}
	for _, c := range ents {
		if len(c.val) == 0 {
			delete(st, c.key)
		} else {
			st[c.key] = c.val
		}
	}
	for k, v := range s.data {
		if st[k] != v {
			w.failL("C06", "store differs from its change log", "%s partition %d, given up: key %s is %q in memory, %q on the log", a, s.p, k, v, st[k])
		}
	}
	for k := range st {
		if _, ok := s.data[k]; !ok {
			w.failL("C06", "store differs from its change log", "%s partition %d, given up: key %s is on the log only", a, s.p, k)
		}
	}
	w.c.Count("stores compared with their change log when given up", 1)
}

// ---- event handling

func (a *App) decoder(typ string) streams.IncomingRecordDecoder[*token] {
	return func(r streams.IncomingRecord) (*token, error) {
		if strings.HasSuffix(typ, ".bad") {
			if a.w.decodeDefault {
				a.decodeErr(recErr{r}, typ, fmt.Errorf("cannot decode %s", typ))
			}
			return nil, fmt.Errorf("cannot decode %s", typ)
		}
		t := &token{app: a, p: r.TopicPartition().Partition, off: r.Offset(), typ: r.RecordType(), raw: string(r.Value())}
		if a.w.race {
			return t, nil
		}
		a.w.mu.Lock()
		a.w.tokenN++
		t.id = a.w.tokenN
		a.w.tokens[t.id] = t
		a.w.mu.Unlock()
		if typ != r.RecordType() {
			a.w.fail("C14", "wrong decoder", "decoder of %q gets an event of type %q", typ, r.RecordType())
		}
		return t, nil
	}
}

// recErr is the context of a decode error which the library's own handler gets.
type recErr struct{ streams.IncomingRecord }

func (r recErr) Input() (streams.IncomingRecord, bool) { return r.IncomingRecord, true }

func (a *App) decodeErr(ec streams.ErrorContext, t string, err error) {
	w := a.w
	if w.race || a.dead.Load() {
		return
	}
	w.c.Count("decode errors", 1)
	if t != "t.bad" || !strings.Contains(fmt.Sprint(err), "cannot decode") {
		w.fail("C14", "wrong decode error", "type %q error %v", t, err)
	}
	w.mu.Lock()
	e := w.byOff[ec.TopicPartition().Partition][ec.Offset()]
	if e != nil {
		e.completed = append(e.completed, a)
		e.starts = append(e.starts, &Call{app: a, ev: e, seq: w.next(), at: time.Now(), done: time.Now()})
	}
	w.mu.Unlock()
	if e == nil || e.Mode != mBad {
		w.fail("C14", "decode error for the wrong event", "%v@%d", ec.TopicPartition(), ec.Offset())
	}
}

func (w *World) next() int64 { w.seq++; return w.seq }

func (a *App) handleDefault(ec *streams.EventContext[*Store], r streams.IncomingRecord) streams.ExecutionState {
	w := a.w
	t := r.RecordType()
	for m, n := range modeNames {
		if m != mDefault && t == "t."+n {
			w.fail("C14", "default handler for a known type", "type %q", t)
		}
	}
	in, ok := ec.Input()
	if !ok || in.Offset() != r.Offset() || string(in.Value()) != string(r.Value()) {
		w.fail("C14", "input differs", "Input() differs from the record handed to the default handler")
	}
	return a.begin(ec, string(r.Value()), mDefault)
}

func (a *App) handleTyped(ec *streams.EventContext[*Store], t *token, mode int) streams.ExecutionState {
	w := a.w
	if !w.race && !a.dead.Load() {
		w.mu.Lock()
		used := t.used
		t.used = true
		w.mu.Unlock()
		in, _ := ec.Input()
		if used || t.app != a || t.off != ec.Offset() || t.p != ec.TopicPartition().Partition || t.raw != string(in.Value()) {
			w.fail("C14", "handler got a wrong value", "handler of %s got the value decoded for %d@%d (used before: %v) at %v@%d", modeNames[mode], t.p, t.off, used, ec.TopicPartition(), ec.Offset())
		}
		if t.typ != "t."+modeNames[mode] {
			w.fail("C14", "wrong handler", "handler of %s got an event of type %q", modeNames[mode], t.typ)
		}
	}
	return a.begin(ec, t.raw, mode)
}

// begin is the body of every handler.
func (a *App) begin(ec *streams.EventContext[*Store], raw string, mode int) streams.ExecutionState {
	w := a.w
	st := ec.Store()
	defer st.enter("event handler")()
	tp := ec.TopicPartition()
	var e *Ev
	if w.race {
		e = w.plan.event(w.seed, tp.Partition, ec.Offset()) // no shared memory
		return a.run(&Call{app: a, ev: e}, ec, st)
	}
	w.progress.Add(1)
	if a.dead.Load() {
		return streams.Incomplete
	}
	w.mu.Lock()
	e = w.byOff[tp.Partition][ec.Offset()]
	if e == nil {
		w.mu.Unlock()
		w.fail("C01", "unknown event", "%s handles %v@%d which was never produced", a, tp, ec.Offset())
		return streams.Complete
	}
	c := &Call{app: a, ev: e, seq: w.next(), at: time.Now()}
	ps := a.part(tp.Partition)
	c.epoch = ps.epoch
	if debugging {
		trace("## %s handles %s", a, e.ID)
	}
	if string(e.Value) != raw || e.Mode != mode || tp.Topic != srcTopic {
		w.failL("C14", "event altered", "%s handles %v@%d as %s with value %q, produced as %s", a, tp, ec.Offset(), modeNames[mode], raw, modeNames[e.Mode])
	}
	if ps.activated == 0 || ps.revoked > 0 {
		w.failL("C17", "event handled outside of activation", "%s partition %d event %s: activated=%d revoked=%d", a, tp.Partition, e.ID, ps.activated, ps.revoked)
	}
	if st != ps.activeStore && ps.activeStore != nil || st.p != tp.Partition || st.app != a {
		w.failL("C07", "store of another partition", "%s event %s got store %s/%d#%d", a, e.ID, st.app, st.p, st.n)
	}
	if st.revoked {
		w.failL("C17", "store used after revocation", "%s event %s handled with a revoked store", a, e.ID)
	}
	if a.isDone.Load() && !a.doneAt.IsZero() && time.Since(a.doneAt) > 0 {
		w.failL("C28", "handler runs after done", "%s event %s handled %v after done", a, e.ID, time.Since(a.doneAt))
	}
	for _, o := range w.apps {
		if o == a || o.dead.Load() || o.zombie.Load() || o.o.Group != a.o.Group {
			continue
		}
		if q := o.parts[tp.Partition]; q != nil && q.owned() && !o.failed.Load() {
			w.failL("C05", "two owners", "%s handles %s while %s has not given up partition %d (assigned=%d activated=%d willRevoke=%d revoked=%d)", a, e.ID, o, tp.Partition, q.assigned, q.activated, q.willRevoke, q.revoked)
		}
	}
	for _, s := range e.starts {
		if s.app == a && s.epoch == c.epoch {
			w.failL("C01", "event handled twice in one ownership", "%s handles %s again", a, e.ID)
		} else if !s.app.dead.Load() && !s.app.zombie.Load() && !s.app.stopNow && !w.lenientLoss && !s.app.failed.Load() {
			prop := "C05"
			if s.app.stopping.Load() {
				prop = "C28"
			}
			w.failL(prop, "event handled again after a graceful move", "%s handles %s which %s has already handled (stopping=%v)", a, e.ID, s.app, s.app.stopping.Load())
		}
	}
	if n := len(e.starts); n > 0 {
		w.c.Count("redeliveries", 1)
	}
	e.starts = append(e.starts, c)
	a.part(tp.Partition).begun++
	h := w.hseqP[tp.Partition]
	w.hseqP[tp.Partition] = core.Mix(h, uint64(e.N))
	w.hseq = core.Mix(w.hseq, uint64(tp.Partition))
	w.mu.Unlock()
	if t := a.failedAt.Load(); t != 0 && !w.lenientLoss && time.Since(time.Unix(0, t)) > 10*time.Second {
		w.fail("C15", "failed consumer goes on processing", "%s event %s handled %v after the decision to fail", a, e.ID, time.Since(time.Unix(0, t)))
	}
	w.c.Count("events handled", 1)
	return a.run(c, ec, st)
}

func (w *World) sleepFor(h uint64, max time.Duration) {
	if max <= 0 {
		return
	}
	if h%3 != 0 {
		runtime.Gosched()
		return
	}
	time.Sleep(time.Duration(h % uint64(max)))
}

func (a *App) run(c *Call, ec *streams.EventContext[*Store], st *Store) streams.ExecutionState {
	w, e := a.w, c.ev
	w.sleepFor(core.Mix(e.H, 21), w.plan.HandlerMax)
	if e.lastStage() == 0 {
		chain := a.change(c, ec, st)
		a.forward(c, ec, 0, chain)
		return a.complete(c, st)
	}
	a.forward(c, ec, 0, 0)
	switch e.Mode {
	case mSched:
		key := e.Key
		if !w.plan.GlobalKeys {
			key = fmt.Sprintf("%d/%s", e.P, e.Key)
		}
		return a.sched.Schedule(ec, key, &job{call: c, ec: ec})
	case mBatch:
		key := fmt.Sprintf("%d/%s", e.P, e.Key)
		b := streams.NewBatchItems(ec, key, func(ec2 *streams.EventContext[*Store], bi *streams.BatchItems[*Store, string, *job]) streams.ExecutionState {
			return a.finish(c, ec, ec2)
		})
		for i := 0; i < e.Items; i++ {
			b.Add(&job{call: c, ec: ec})
		}
		return a.batcher.Add(b)
	case mRaw:
		go func() {
			w.sleepFor(core.Mix(e.H, 22), w.plan.JobMax)
			done := func() {
				ec.AsyncJobComplete(func() streams.ExecutionState { return a.finish(c, ec, ec) })
			}
			if w.hangEv == nil || !w.hangEv.hold(a, done) {
				done()
			}
		}()
		return streams.Incomplete
	case mChain:
		if h := core.Mix(e.H, 26); h%4 == 0 && w.mayFan() {
			return a.fanOut(c, ec, st, 2+int(h/4%uint64(4+w.plan.Fan)))
		}
		go func() {
			w.sleepFor(core.Mix(e.H, 23), w.plan.JobMax)
			ec.AsyncJobComplete(func() streams.ExecutionState {
				func() {
					defer st.enter("finalizer (first of two)")()
					runtime.Gosched()
				}()
				go func() {
					w.sleepFor(core.Mix(e.H, 24), w.plan.JobMax)
					ec.AsyncJobComplete(func() streams.ExecutionState { return a.finish(c, ec, ec) })
				}()
				return streams.Incomplete
			})
		}()
		return streams.Incomplete
	case mBProd:
		return a.runBProd(c, ec)
	}
	panic("mode")
}

// mayFan: the completions which await the worker are bounded. If there are more than one per event, a handler must not wait for the
// components which complete others meanwhile.
func (w *World) mayFan() bool {
	if w.plan.Modes[mSched]+w.plan.Modes[mBatch] == 0 {
		return true
	}
	return w.plan.Fan == 0 && w.eos.MaxBatchSize*w.eos.PoolSize*5 <= 400
}

// fanOut runs n jobs side by side; the finalizer of the one which is last completes the event.
func (a *App) fanOut(c *Call, ec *streams.EventContext[*Store], st *Store, n int) streams.ExecutionState {
	w := a.w
	left := n // finalizers of one partition do not run concurrently
	for i := 0; i < n; i++ {
		i := uint64(i)
		go func() {
			w.sleepFor(core.Mix(c.ev.H, 200+i), w.plan.JobMax)
			if w.plan.Stampede {
				time.Sleep(time.Until(time.Now().Truncate(ms(500)).Add(ms(500))))
			}
			ec.AsyncJobComplete(func() streams.ExecutionState {
				leave := st.enter("finalizer (one of many)")
				left--
				n := left
				if i == 0 {
					time.Sleep(ms(2)) // others pile up
				}
				runtime.Gosched()
				leave()
				if n > 0 {
					return streams.Incomplete
				}
				return a.finish(c, ec, ec)
			})
		}()
	}
	return streams.Incomplete
}

func (a *App) schedProcess(key string, j *job) error {
	if j.execs.Add(1) != 1 && !a.w.race {
		a.w.fail("C08", "job processed twice", "event %s", j.call.ev.ID)
	}
	a.w.sleepFor(core.Mix(j.call.ev.H, 25), a.w.plan.JobMax)
	return fmt.Errorf("result of %s", j.call.ev.ID)
}

func (a *App) schedFinalize(ec *streams.EventContext[*Store], key string, j *job, err error) streams.ExecutionState {
	if !a.w.race && (j.execs.Load() != 1 || err == nil || err.Error() != "result of "+j.call.ev.ID) {
		a.w.fail("C08", "finalizer without its result", "event %s: processed %d times, error %v", j.call.ev.ID, j.execs.Load(), err)
	}
	return a.finish(j.call, j.ec, ec)
}

func (a *App) batchExec(batch []*streams.BatchItem[string, *job]) {
	var h uint64
	for _, it := range batch {
		h = core.Mix(h, it.Value.call.ev.H)
		it.Value.execs.Add(1)
	}
	a.w.sleepFor(h, a.w.plan.JobMax)
}

func (a *App) runBProd(c *Call, ec *streams.EventContext[*Store]) streams.ExecutionState {
	return a.sideBatch(c, ec, int(core.Mix(c.ev.H, 91)%3)/2)
}

func sideValue(id string, i int, seq int64) string { return fmt.Sprintf("side %s %d %d", id, i, seq) }

// sideBatch produces a batch whose callback produces again as often as asked.
func (a *App) sideBatch(c *Call, ec *streams.EventContext[*Store], again int) streams.ExecutionState {
	w, e := a.w, c.ev
	var recs []*streams.Record
	base := 1000 * again
	for i := base; i < base+e.Side; i++ {
		r := streams.NewRecord()
		if err := r.Error(); err != nil && !w.race {
			w.fail("C19", "new record is not empty", "event %s: a new record has the error %v", e.ID, err)
		}
		r.WithKeyString(e.ID).WithValue([]byte(sideValue(e.ID, i, c.seq))).WithHeader("call", []byte(fmt.Sprint(c.seq)))
		if i%2 == 1 {
			r.WithTopic("side2").WithRecordType("sidetype")
		}
		if i%3 == 1 {
			r.WithPartition(int32(i % 2))
		}
		recs = append(recs, r)
	}
	if e.NilCB {
		// completes without telling; the change is recorded now
		a.change(c, ec, ec.Store())
		if !w.race {
			w.mu.Lock()
			e.completed = append(e.completed, a)
			w.mu.Unlock()
		}
		return a.bprod.Produce(ec, recs, nil, c)
	}
	return a.bprod.Produce(ec, recs, func(ec2 *streams.EventContext[*Store], rs []*streams.Record, ud any) streams.ExecutionState {
		if !w.race && !a.dead.Load() {
			if ud != any(c) || len(rs) != len(recs) {
				w.fail("C10", "wrong batch callback arguments", "event %s: %d records of %d, user data %v", e.ID, len(rs), len(recs), ud)
			}
			var logged map[string][]*kbroker.Rec
			if len(rs) > 0 {
				logged = w.sideLog()
			}
			for i, r := range rs {
				if r != recs[i] {
					w.fail("C10", "wrong batch callback arguments", "event %s: record %d is not the one produced", e.ID, i)
				}
				w.checkSide(a, logged, e.ID, base+i, c.seq, r.Error())
			}
			if len(rs) > 32 {
				w.c.Count("large batches produced", 1)
			}
			w.c.Count("batch produce callbacks", 1)
		}
		if again > 0 {
			defer ec.Store().enter("batch callback")()
			if !w.race && !a.dead.Load() && ec2 != ec {
				w.fail("C10", "wrong event context", "event %s: the batch callback got the context of %v@%d", e.ID, ec2.TopicPartition(), ec2.Offset())
			}
			return a.sideBatch(c, ec, again-1)
		}
		return a.finish(c, ec, ec2)
	}, c)
}

// sideLog returns what batch producers wrote, by value.
func (w *World) sideLog() map[string][]*kbroker.Rec {
	m := map[string][]*kbroker.Rec{}
	for _, t := range []string{sideTopic, "side2"} {
		for p := int32(0); p < 2; p++ {
			for _, r := range w.b.Records(t, p) {
				m[string(r.Value)] = append(m[string(r.Value)], r)
			}
		}
	}
	return m
}

// checkSide judges what a batch producer reports about a record.
func (w *World) checkSide(a *App, logged map[string][]*kbroker.Rec, id string, i int, seq int64, err error) {
	topic, typ := sideTopic, ""
	if i%2 == 1 {
		topic, typ = "side2", "sidetype"
	}
	want := sideValue(id, i, seq)
	part := int32(autoPart([]byte(id), 2))
	if i%3 == 1 {
		part = int32(i % 2)
	}
	n := 0
	for _, r := range logged[want] {
		n++
		h, _ := r.Header("call")
		gt, _ := r.Header(streams.RecordTypeHeaderKey)
		if r.Topic != topic || string(r.Key) != id || h != fmt.Sprint(seq) || gt != typ || r.Partition != part {
			w.fail("C10", "record altered", "event %s record %d: %v, expected topic %s type %q partition %d", id, i, r, topic, typ, part)
		}
	}
	w.mu.Lock()
	codes := w.sideReject[want]
	var ke *kerr.Error
	isKafka := errors.As(err, &ke)
	known := isKafka && w.sideCodes[ke.Code]
	w.mu.Unlock()
	givenUp := w.sideTimeout > 0 && errors.Is(err, kgo.ErrRecordTimeout)
	switch {
	case err == nil && n == 0:
		w.fail("C10", "success reported for a record that is not on the log", "event %s: record %d", id, i)
	case err == nil && codes != nil && w.sideTimeout == 0: // (after a change of leaders a client asks again)
		w.fail("C10", "rejection not reported", "event %s: record %d: codes %v", id, i, codes)
	case n > 1:
		w.fail("C10", "record written more than once", "event %s: record %d: %d times", id, i, n)
	case err != nil && codes != nil && n > 0:
		w.fail("C10", "rejected record on the log", "event %s: record %d: codes %v", id, i, codes)
	case err != nil && codes != nil && !known && !givenUp:
		w.fail("C10", "another error than the cluster's reported", "event %s: record %d: %v instead of codes %v", id, i, err, codes)
	case err != nil && givenUp:
		w.c.Count("records given up", 1)
	case err != nil && w.sideJudge && !known && !a.dead.Load() && !a.stopping.Load():
		w.fail("C10", "error reported without a reason", "event %s: record %d: %v", id, i, err)
	}
	if codes != nil {
		w.c.Count("rejections compared", 1)
	}
}

// finish is the finalizer of asynchronous events.
func (a *App) finish(c *Call, ec, got *streams.EventContext[*Store]) streams.ExecutionState {
	w, e := a.w, c.ev
	st := ec.Store()
	defer st.enter("finalizer")()
	if !w.race && !a.dead.Load() {
		w.progress.Add(1)
		if got != ec {
			w.fail("C08", "wrong event context", "the finalizer of %s got the context of %v@%d", e.ID, got.TopicPartition(), got.Offset())
		}
		w.mu.Lock()
		c.fin++
		ps := a.part(e.P)
		if c.fin > 1 {
			w.failL("C01", "event finalized twice", "%s event %s", a, e.ID)
		}
		if ps.epoch != c.epoch || ps.revoked > 0 || st.revoked {
			w.failL("C17", "finalizer runs after revocation", "%s event %s: revoked=%d store revoked=%v", a, e.ID, ps.revoked, st.revoked)
		}
		if a.isDone.Load() && time.Since(a.doneAt) > 0 {
			w.failL("C28", "handler runs after done", "%s event %s finalized %v after done", a, e.ID, time.Since(a.doneAt))
		}
		w.mu.Unlock()
		w.c.Count("finalizers", 1)
	}
	if a.dead.Load() {
		return streams.Incomplete
	}
	chain := a.change(c, ec, st)
	a.forward(c, ec, 1, chain)
	return a.complete(c, st)
}

func (a *App) complete(c *Call, st *Store) streams.ExecutionState {
	if a.w.race {
		return streams.Complete
	}
	a.w.mu.Lock()
	c.done = time.Now()
	if !a.dead.Load() {
		c.ev.completed = append(c.ev.completed, a)
	}
	a.w.mu.Unlock()
	return streams.Complete
}

// change applies the event's state change and returns the new chain value.
func (a *App) change(c *Call, ec *streams.EventContext[*Store], st *Store) uint64 {
	e := c.ev
	if e.Quiet {
		return 0
	}
	v := chainNext(parseChain([]byte(st.data[e.CKey])), e.ID)
	cle := streams.NewChangeLogEntry().WithKeyString(e.CKey).WithHeader("ev", []byte(e.ID))
	var val []byte
	if !e.Del {
		val = []byte(chainStr(v) + ":" + e.ID)
		cle.WriteValue(val)
	}
	st.apply(e.CKey, val)
	ec.RecordChange(cle)
	if e.lastStage() == 0 {
		a.lastWriter(ec, st, e.ID)
	}
	return v
}

// lastWriter is a key that all synchronous events and interjections of a partition write.
func (a *App) lastWriter(ec *streams.EventContext[*Store], st *Store, id string) {
	st.apply("lw", []byte(id))
	ec.RecordChange(streams.NewChangeLogEntry().WithKeyString("lw").WithValue([]byte(id)).WithHeader("ev", []byte("lw")))
}

func (a *App) forward(c *Call, ec *streams.EventContext[*Store], stage int, chain uint64) {
	e := c.ev
	w := a.w
	var recs []*streams.Record
	for i := range e.Outs {
		o := &e.Outs[i]
		if o.Stage != stage {
			continue
		}
		var n int64
		if !w.race {
			n = atomic.AddInt64(&w.nTxn, 1)
		}
		r := streams.NewRecord()
		for _, h := range o.Hdrs {
			r.WithHeader(h.K, []byte(h.V))
		}
		r.WithHeader("ev", []byte(e.ID)).WithHeader("ix", []byte(fmt.Sprint(o.Idx))).WithHeader("cn", []byte(fmt.Sprint(n))).WithTopic(o.Topic)
		if o.Part >= 0 {
			r.WithPartition(o.Part)
		}
		if o.Key != "" {
			r.WriteKeyString(o.Key)
		}
		r.WriteValue(e.value(o, chain))
		if o.Type != "" {
			r.WithRecordType(o.Type)
		}
		if i%2 == 0 {
			ec.Forward(r)
		} else {
			recs = append(recs, r)
			ec.Forward(recs...)
			recs = nil
		}
	}
}

// ---- interjections

func (a *App) newIj(name string, p int32) *Ij {
	w := a.w
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ijN++
	ij := &Ij{id: fmt.Sprintf("ij%d", w.ijN), name: name, p: p, app: a}
	w.ijs[ij.id] = ij
	return ij
}

// ijRun notes that an interjection runs.
func (a *App) ijRun(ij *Ij, ec *streams.EventContext[*Store], what string) {
	w := a.w
	st := ec.Store()
	p := ec.TopicPartition().Partition
	if !w.race {
		w.mu.Lock()
		ij.runs++
		ij.p = p
		ij.started = time.Now()
		ps := a.part(p)
		if ps.activated == 0 || ps.revoked > 0 || st.revoked {
			w.failL("C17", "interjection outside of activation", "%s partition %d %s: activated=%d revoked=%d store revoked=%v", a, p, what, ps.activated, ps.revoked, st.revoked)
		}
		if st != ps.activeStore && ps.activeStore != nil {
			w.failL("C07", "store of another partition", "%s interjection on %d got store %s/%d#%d", a, p, st.app, st.p, st.n)
		}
		if a.isDone.Load() && time.Since(a.doneAt) > 0 {
			w.failL("C28", "handler runs after done", "%s interjection %s on partition %d runs %v after done", a, what, p, time.Since(a.doneAt))
		}
		if !ec.IsInterjection() || ec.Offset() != -1 {
			w.failL("C11", "not marked as interjection", "%s", what)
		}
		if _, ok := ec.Input(); ok {
			w.failL("C11", "not marked as interjection", "%s has an input", what)
		}
		if w.ijWait > 0 && ij.asked && ij.epoch == ps.epoch && ps.begun > ij.begun+w.ijWait {
			w.failL("C11", "interjection starves", "%s partition %d %s: %d events were started since it was requested, at most %d can be pending", a, p, what, ps.begun-ij.begun, w.eos.MaxBatchSize*w.eos.PoolSize)
		}
		w.mu.Unlock()
		w.c.Count("interjections run", 1)
	}
}

// ijWrite makes the changes of an interjection.
func (a *App) ijWrite(ij *Ij, ec *streams.EventContext[*Store], late bool) {
	w := a.w
	st := ec.Store()
	p := ec.TopicPartition().Partition
	k := "ij/" + ij.name
	if late {
		k += "/" + ij.id // what completes late may be committed after what comes later
	}
	var n uint64
	if len(st.data[k]) == 8 {
		n = binary.BigEndian.Uint64([]byte(st.data[k]))
	}
	n++
	ij.val = n
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	st.apply(k, b[:])
	ec.RecordChange(streams.NewChangeLogEntry().WithKeyString(k).WithValue(b[:]).WithHeader("ev", []byte(ij.id)))
	if !late {
		a.lastWriter(ec, st, ij.id)
	}
	var cn int64
	if !w.race {
		cn = atomic.AddInt64(&w.nTxn, 1)
	}
	ec.Forward(streams.NewRecord().WithTopic("out0").WithPartition(0).WithKeyString(fmt.Sprintf("%s/%d", k, p)).WithValue(b[:]).
		WithHeader("ev", []byte(ij.id)).WithHeader("cn", []byte(fmt.Sprint(cn))).WithHeader("sp", []byte(fmt.Sprint(p))))
}

func (a *App) periodic(ec *streams.EventContext[*Store], now time.Time, pi Periodic) streams.ExecutionState {
	w := a.w
	st := ec.Store()
	defer st.enter("interjection " + pi.Name)()
	if a.dead.Load() {
		return streams.Incomplete
	}
	p := ec.TopicPartition().Partition
	ij := a.newIj(pi.Name, p)
	if !w.race {
		w.mu.Lock()
		ps := a.part(p)
		last, ok := ps.lastIj[pi.Name]
		tol := time.Millisecond
		if !ok {
			last, tol = ps.activatedAt, 200*time.Millisecond // the timer starts a little before the callback
		}
		if d := time.Since(last); d < pi.Every-pi.Jitter-tol && !last.IsZero() {
			w.failL("C11", "periodic interjection too early", "%s %s on partition %d after %v, every %v jitter %v", a, pi.Name, p, d, pi.Every, pi.Jitter)
		}
		if d := now.Sub(time.Now()); d > time.Millisecond || d < -time.Second {
			w.failL("C11", "wrong interjection time", "%v off", d)
		}
		w.mu.Unlock()
	}
	a.ijRun(ij, ec, pi.Name)
	late := pi.Async && core.HashStr(ij.id)%2 == 0
	if !late {
		a.ijWrite(ij, ec, false)
	}
	w.sleepFor(core.Mix(w.seed, core.HashStr(ij.id)+1), pi.Dur)
	done := func() {
		if w.race {
			return
		}
		w.mu.Lock()
		ij.completed = true
		a.part(p).lastIj[pi.Name] = time.Now()
		w.mu.Unlock()
	}
	if !pi.Async {
		done()
		return streams.Complete
	}
	go func() {
		w.sleepFor(core.Mix(w.seed, core.HashStr(ij.id)), pi.Dur)
		ec.AsyncJobComplete(func() streams.ExecutionState {
			defer st.enter("interjection finalizer")()
			if a.dead.Load() {
				return streams.Incomplete
			}
			if late {
				a.ijWrite(ij, ec, true)
			}
			done()
			return streams.Complete
		})
	}()
	return streams.Incomplete
}

// ---- driving

func (w *World) appendEvents(p int32, n int) {
	now := time.Now()
	for i := 0; i < n; i++ {
		w.mu.Lock()
		num := int64(len(w.evs[p]))
		e := w.plan.event(w.seed, p, num)
		e.AddAt = now
		w.evs[p] = append(w.evs[p], e)
		w.byID[e.ID] = e
		e.Off = w.nextOff(p)
		w.byOff[p][e.Off] = e
		w.mu.Unlock()
		var hs []kmsg.Header
		if e.Type != "" {
			hs = append(hs, kmsg.Header{Key: streams.RecordTypeHeaderKey, Value: []byte(e.Type)})
		}
		if e.H%5 == 0 {
			hs = append(hs, kmsg.Header{Key: "x", Value: []byte("y")})
		}
		off := w.b.Append(srcTopic, p, kmsg.Record{Key: []byte(e.Key), Value: e.Value, Headers: hs})
		if off != e.Off {
			panic(fmt.Sprintf("source offset %d, expected %d", off, e.Off))
		}
	}
}

func (w *World) nextOff(p int32) int64 { n := w.appended[p]; w.appended[p]++; return n }

func (a *App) kill() {
	a.w.ungraceful.Store(true)
	a.dead.Store(true)
	a.in.Kill()
	a.w.logf("%s killed", a)
}

func (a *App) stop(now bool) {
	w := a.w
	w.mu.Lock()
	if !a.stopping.Load() {
		a.stopping.Store(true)
		a.stopAt = time.Now()
	}
	if now {
		a.stopNow = true
		w.ungraceful.Store(true)
	}
	w.mu.Unlock()
	w.logf("%s stop now=%v", a, now)
	if now {
		a.es.StopNow()
	} else {
		a.es.Stop()
	}
}

func (a *App) live() bool {
	return !a.dead.Load() && !a.stopping.Load() && !a.failed.Load()
}

func (w *World) liveApps() (l []*App) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, a := range w.apps {
		if a.live() {
			l = append(l, a)
		}
	}
	return
}

// commitEntry decodes a commit-log entry.
func commitEntry(r *kbroker.Rec) (t string, p int32, off int64, ok bool) {
	if len(r.Key) < 8 || len(r.Value) != 8 {
		return
	}
	return string(r.Key[8:]), int32(int64(binary.LittleEndian.Uint64(r.Key))), int64(binary.LittleEndian.Uint64(r.Value)), true
}

func (w *World) commitTopic() string { return "gkes_commit_log_" + w.group }

// position returns the committed position of a partition.
func (w *World) position(p int32) int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.marks[tpKey{srcTopic, p}]
}

func (w *World) allCommitted() (bool, int64) {
	var sum int64
	ok := true
	w.mu.Lock()
	defer w.mu.Unlock()
	for p, l := range w.evs {
		m := w.marks[tpKey{srcTopic, p}]
		sum += m
		if len(l) > 0 && m <= l[len(l)-1].Off {
			ok = false
		}
	}
	return ok, sum
}

// drain waits until everything produced is committed.
func (w *World) drain(limit time.Duration, why string) bool {
	last, at := int64(-1), time.Now()
	lastP := int64(-1)
	for {
		ok, sum := w.allCommitted()
		if ok {
			return true
		}
		if pr := w.progress.Load(); sum != last || pr != lastP {
			last, lastP, at = sum, pr, time.Now()
		}
		if len(w.liveApps()) == 0 {
			if !w.mayFail {
				w.stalled(why+": no application is left", 0)
			}
			return false
		}
		if time.Since(at) > limit {
			w.stalled(why, limit)
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func (w *World) stalled(why string, limit time.Duration) {
	var sb strings.Builder
	w.mu.Lock()
	var ps []int
	for p := range w.evs {
		ps = append(ps, int(p))
	}
	sort.Ints(ps)
	for _, p := range ps {
		l := w.evs[int32(p)]
		m := w.marks[tpKey{srcTopic, int32(p)}]
		fmt.Fprintf(&sb, "partition %d: committed %d of %d", p, m, len(l))
		for _, e := range l {
			if e.Off >= m {
				fmt.Fprintf(&sb, "; next %s (%s) starts=%d completed=%v", e.ID, modeNames[e.Mode], len(e.starts), e.completed)
				break
			}
		}
		sb.WriteString("\n")
	}
	for _, a := range w.apps {
		fmt.Fprintf(&sb, "%s: dead=%v stopping=%v done=%v failed=%v txn errors=%v state=%v\n", a, a.dead.Load(), a.stopping.Load(), a.isDone.Load(), a.failed.Load(), a.txnErrs, a.es.State())
		for _, p := range ps {
			if s := a.parts[int32(p)]; s != nil {
				fmt.Fprintf(&sb, "   %d: assigned=%d activated=%d willRevoke=%d revoked=%d\n", p, s.assigned, s.activated, s.willRevoke, s.revoked)
			}
		}
	}
	w.mu.Unlock()
	gi := w.b.GroupInfo(w.group, srcTopic)
	fmt.Fprintf(&sb, "group: %+v\n", gi)
	for _, t := range w.b.OpenTxns() {
		fmt.Fprintf(&sb, "open txn %d of %s since %v\n", t.ID, t.Inst, t.Begun)
	}
	if debugging {
		trace("%s", core.Stacks())
	}
	w.fail("C01", "stalled: "+why, "nothing was committed for %v\n%s\n%s", limit, sb.String(), libStacks())
}

// libStacks are the stacks of goroutines that are in the library.
func libStacks() string {
	var keep []string
	for _, g := range strings.Split(core.Stacks(), "\n\n") {
		if strings.Contains(g, "go-kafka-event-source/streams.") {
			l := strings.Split(g, "\n")
			if len(l) > 9 {
				l = l[:9]
			}
			keep = append(keep, strings.Join(l, "\n"))
		}
	}
	s := strings.Join(keep, "\n\n")
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

func (w *World) finish() {
	w.c.Finish()
}

var _ = context.Background
