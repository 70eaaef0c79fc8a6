package rebal

import (
	"fmt"
	"sort"
	"sync"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
)

// watched passes everything on to the real balancer and compares what it reports with what it has been told.
type watched struct {
	streams.IncrementalGroupRebalancer
	name string
	fail func(prop, kind, f string, a ...any)

	mu        sync.Mutex
	busy, ver int
	// the state the member must report; only meaningful while nothing is going on
	preparing, ready map[TP]bool
	leaving, defunct bool
	owns             map[TP]bool // the last assignment
	// calls the handler has to receive, and those it received
	wantPrepare, wantForget map[TP]int
	gotPrepare, gotForget   map[TP]int
	asked, wantAsked        int
	hist                    []string
	joins, checked, syncs   int
	parsing                 bool
	inOp                    map[TP]int  // partitions of operations in progress
	amb                     map[TP]bool // which of two concurrent operations came first is not known
	leaveBusy, leaveMixed   bool
	graceful                <-chan struct{}
}

func newWatched(name string, fail func(prop, kind, f string, a ...any)) *watched {
	return &watched{name: name, fail: fail, preparing: map[TP]bool{}, ready: map[TP]bool{}, owns: map[TP]bool{},
		wantPrepare: map[TP]int{}, wantForget: map[TP]int{}, gotPrepare: map[TP]int{}, gotForget: map[TP]int{}, inOp: map[TP]int{}, amb: map[TP]bool{}}
}

func (w *watched) note(f string, a ...any) { // mu held
	w.hist = append(w.hist, fmt.Sprintf(f, a...))
}

func (w *watched) history() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return fmt.Sprintf("%s: %v", w.name, w.hist)
}

func (w *watched) begin() {
	w.mu.Lock()
	w.busy++
	w.ver++
	w.mu.Unlock()
}

func (w *watched) end() {
	w.mu.Lock()
	w.busy--
	w.ver++
	w.mu.Unlock()
}

func (w *watched) JoinGroupMetadata(topics []string, owned map[string][]int32, gen int32) []byte {
	w.mu.Lock()
	quiet, ver := w.busy == 0, w.ver
	wp, wr := set(w.preparing), set(w.ready)
	leaving, defunct := w.leaving, w.defunct
	quiet = quiet && len(w.amb) == 0
	w.joins++
	w.mu.Unlock()
	b := w.IncrementalGroupRebalancer.JoinGroupMetadata(topics, owned, gen)
	w.mu.Lock()
	quiet = quiet && ver == w.ver
	w.mu.Unlock()
	m, err := ParseMeta(w.name, b)
	if err != nil {
		w.fail("C13", "unreadable join metadata", "%v", err)
		return b
	}
	own := map[TP]bool{}
	for t, l := range owned {
		for _, p := range l {
			own[TP{Partition: p, Topic: t}] = true
		}
	}
	if sorted(own) != sorted(m.Owned) {
		w.fail("C13", "does not report what it owns", "owns [%s], reports [%s]\n%s", sorted(own), sorted(m.Owned), w.history())
	}
	ts, gs := append([]string(nil), topics...), append([]string(nil), m.Topics...)
	sort.Strings(ts)
	sort.Strings(gs)
	if fmt.Sprint(ts) != fmt.Sprint(gs) {
		w.fail("C13", "does not report it's topics", "%v, reports %v", topics, m.Topics)
	}
	if !quiet {
		return b
	}
	w.mu.Lock()
	w.checked++
	w.note("join(own=[%s] prep=%v ready=%v st=%d)", sorted(own), m.Preparing, m.Ready, m.Status)
	w.mu.Unlock()
	if got := list(m.Preparing); got != wp {
		w.fail("C13", "wrong report of what is being prepared", "prepares [%s], reports [%s]\n%s", wp, got, w.history())
	}
	if got := list(m.Ready); got != wr {
		w.fail("C13", "wrong report of what is ready", "is ready for [%s], reports [%s]\n%s", wr, got, w.history())
	}
	want := streams.ActiveMember
	if leaving {
		want = streams.InactiveMember
	}
	if defunct {
		want = streams.Defunct
	}
	if m.Status != want {
		w.fail("C13", "leave not announced", "status %d instead of %d\n%s", m.Status, want, w.history())
	}
	if leaving && m.LeftAt == 0 {
		w.fail("C13", "leave not announced", "no time of leaving\n%s", w.history())
	}
	return b
}

func set(m map[TP]bool) string { return sorted(m) }

func list(l []TP) string {
	m := map[TP]bool{}
	for _, tp := range l {
		m[tp] = true
	}
	if len(m) != len(l) {
		return fmt.Sprintf("repeated %v", l)
	}
	return sorted(m)
}

func (w *watched) ParseSyncAssignment(b []byte) (map[string][]int32, error) {
	w.begin()
	defer w.end()
	pl, perr := ParsePlan(b)
	// what is expected of it is settled first, as it may be followed before the call returns
	w.mu.Lock()
	w.syncs++
	w.note("sync(%s prepare=%v forget=%v)", sorted(pl.Assigned), pl.Prepare, pl.Forget)
	w.parsing = true
	w.leaveMixed = w.leaveBusy
	for tp := range w.inOp {
		w.amb[tp] = true
	}
	for _, tp := range pl.Forget {
		if w.preparing[tp] || w.ready[tp] {
			delete(w.preparing, tp)
			delete(w.ready, tp)
			w.wantForget[tp]++
		}
	}
	last := w.leaving && !w.defunct && len(pl.Assigned) == 0
	if !last && perr == nil {
		for _, tp := range pl.Prepare {
			if !w.preparing[tp] {
				w.preparing[tp] = true
				w.wantPrepare[tp]++
			}
		}
		if len(pl.Forget) > 0 {
			w.wantAsked++
		}
	}
	w.mu.Unlock()
	res, err := w.IncrementalGroupRebalancer.ParseSyncAssignment(b)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.parsing = false
	if (err != nil) != (perr != nil) && len(b) > 0 {
		w.fail("C13", "sync assignment misread", "%v / %v", err, perr)
	}
	if err != nil {
		return res, err
	}
	got := map[TP]bool{}
	for t, l := range res {
		for _, p := range l {
			got[TP{Partition: p, Topic: t}] = true
		}
	}
	if sorted(got) != sorted(pl.Assigned) {
		w.fail("C13", "sync assignment misread", "assigned [%s], read [%s]", sorted(pl.Assigned), sorted(got))
	}
	w.owns = got
	for _, tp := range pl.Forget {
		if w.gotForget[tp] != w.wantForget[tp] && !w.amb[tp] {
			w.fail("C13", "not released although told to forget", "%v: %d of %d times\n%v", tp, w.gotForget[tp], w.wantForget[tp], w.hist)
		}
	}
	closed := false
	select {
	case <-w.graceful:
		closed = true
	default:
	}
	switch {
	case w.leaveMixed:
		if closed && !last {
			// none of the partitions were prepared
			for _, tp := range pl.Prepare {
				w.amb[tp] = true
			}
		}
		w.defunct = closed
	case last:
		w.defunct = true
		if w.graceful != nil && !closed {
			w.fail("C13", "leave not finished although nothing is owned", "%v", w.hist)
		}
	}
	if closed && len(got) > 0 && !w.defunct {
		w.fail("C13", "leave finished although partitions are owned", "owns [%s]\n%v", sorted(got), w.hist)
	}
	return res, err
}

func (w *watched) op(what string, tps []TP, f func(), model func()) {
	w.begin()
	defer w.end()
	w.mu.Lock()
	w.note("%s(%v)", what, tps)
	for _, tp := range tps {
		w.inOp[tp]++
		if w.parsing {
			w.amb[tp] = true
		}
	}
	w.mu.Unlock()
	f()
	w.mu.Lock()
	for _, tp := range tps {
		if w.inOp[tp]--; w.inOp[tp] == 0 {
			delete(w.inOp, tp)
		}
	}
	model()
	w.mu.Unlock()
}

func (w *watched) PartitionPrepared(tp TP) {
	w.op("prepared", []TP{tp}, func() { w.IncrementalGroupRebalancer.PartitionPrepared(tp) }, func() {
		if w.preparing[tp] {
			delete(w.preparing, tp)
			w.ready[tp] = true
			if !w.amb[tp] {
				w.wantAsked++
			}
		}
	})
}

func (w *watched) PartitionPreparationFailed(tp TP) {
	w.op("failed", []TP{tp}, func() { w.IncrementalGroupRebalancer.PartitionPreparationFailed(tp) }, func() {
		if w.preparing[tp] || w.ready[tp] {
			delete(w.preparing, tp)
			delete(w.ready, tp)
			if !w.amb[tp] {
				w.wantAsked++
			}
		}
	})
}

func (w *watched) PartitionsAssigned(tps ...TP) {
	w.op("assigned", tps, func() { w.IncrementalGroupRebalancer.PartitionsAssigned(tps...) }, func() {
		for _, tp := range tps {
			delete(w.preparing, tp)
			delete(w.ready, tp)
		}
		if len(tps) > 0 {
			w.wantAsked++
		}
	})
}

func (w *watched) GracefullyLeaveGroup() <-chan struct{} {
	var ch <-chan struct{}
	w.mu.Lock()
	w.leaveBusy = true
	w.leaveMixed = w.leaveMixed || w.parsing
	w.mu.Unlock()
	w.op("leave", nil, func() { ch = w.IncrementalGroupRebalancer.GracefullyLeaveGroup() }, func() {
		if !w.leaving {
			w.leaving = true
			w.wantAsked++
		}
		w.leaveBusy = false
		if w.graceful != nil && w.graceful != ch {
			w.fail("C13", "another channel for the same leave", "%v", w.hist)
		}
		w.graceful = ch
	})
	return ch
}

// finished compares what the handler was asked to do at the end, when nothing is going on any more.
func (w *watched) finished() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range []struct {
		what      string
		want, got map[TP]int
	}{{"prepare", w.wantPrepare, w.gotPrepare}, {"forget", w.wantForget, w.gotForget}} {
		for tp, n := range x.want {
			if x.got[tp] != n && !w.amb[tp] {
				w.fail("C13", "instruction not followed", "%v: told to %s %d times, did it %d times\n%s: %v", tp, x.what, n, x.got[tp], w.name, w.hist)
			}
		}
		for tp, n := range x.got {
			if x.want[tp] != n && !w.amb[tp] {
				w.fail("C13", "did what it was not told", "%v: told to %s %d times, did it %d times\n%s: %v", tp, x.what, x.want[tp], n, w.name, w.hist)
			}
		}
	}
	if w.asked < w.wantAsked {
		w.fail("C13", "did not ask for another round", "%d changes, asked %d times\n%s: %v", w.wantAsked, w.asked, w.name, w.hist)
	}
}

// handler carries out instructions.
type handler struct {
	w         *watched
	client    func() *kgo.Client
	onPrepare func(TP)
	onForget  func(TP)
}

func (h *handler) PrepareTopicPartition(tp TP) {
	h.w.mu.Lock()
	h.w.gotPrepare[tp]++
	h.w.note("PREPARE(%v)", tp)
	h.w.mu.Unlock()
	if h.onPrepare != nil {
		h.onPrepare(tp)
	}
}

func (h *handler) ForgetPreparedTopicPartition(tp TP) {
	if h.onForget != nil {
		h.onForget(tp)
	}
	h.w.mu.Lock()
	h.w.gotForget[tp]++
	h.w.note("FORGET(%v)", tp)
	h.w.mu.Unlock()
}

func (h *handler) Client() *kgo.Client {
	h.w.mu.Lock()
	h.w.asked++
	h.w.mu.Unlock()
	return h.client()
}
