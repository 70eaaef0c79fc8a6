package e2e

import (
	"encoding/binary"
	"fmt"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verifh/core"
	"verifh/kbroker"
)

// mini is an application of another group or topic: it copies every record to "fout".
type mini struct {
	w            *World
	name         string
	group, topic string
	in           *kbroker.Instance
	es           *streams.EventSource[*miniStore]
	dead, done   atomic.Bool
}

type miniStore struct {
	m *mini
	p int32
	n int64
}

func (s *miniStore) ReceiveChange(r streams.IncomingRecord) error {
	if len(r.Value()) == 8 {
		s.n = int64(binary.BigEndian.Uint64(r.Value()))
	}
	return nil
}
func (s *miniStore) Revoked() {}

func (w *World) newMini(name, group, topic string, parts, clParts int, strat []streams.BalanceStrategy, eos streams.EosConfig) *mini {
	m := &mini{w: w, name: name, group: group, topic: topic}
	m.in = w.b.Instance(name)
	es, err := streams.NewEventSource(streams.EventSourceConfig{
		GroupId: group, Topic: topic, NumPartitions: parts, CommitLogPartitions: clParts, SourceCluster: m.in,
		BalanceStrategies: strat, EosConfig: eos,
		TxnErrorHandler: func(err error) streams.ErrorResponse {
			if !m.dead.Load() && !w.mayFail && !w.tainted.Load() {
				w.fail("C27", "transaction error without a fault", "%s: %v", name, err)
			}
			return streams.FailConsumer
		},
	}, func(tp streams.TopicPartition) *miniStore { return &miniStore{m: m, p: tp.Partition} }, m.handle)
	if err != nil {
		w.fail("C25", "application not created", "NewEventSource: %v", err)
		w.finish()
	}
	m.es = es
	es.ConsumeEvents()
	go func() {
		<-es.Done()
		m.done.Store(true)
	}()
	return m
}

func (m *mini) handle(ec *streams.EventContext[*miniStore], r streams.IncomingRecord) streams.ExecutionState {
	if m.dead.Load() {
		return streams.Incomplete
	}
	w := m.w
	tp := ec.TopicPartition()
	if tp.Topic != m.topic {
		w.fail("C27", "event of another topic", "%s of %s gets %v@%d", m.name, m.topic, tp, ec.Offset())
	}
	w.progress.Add(1)
	st := ec.Store()
	async := core.Mix(w.seed, uint64(ec.Offset()))
	emit := func() streams.ExecutionState {
		n := "-"
		if async%4 != 0 {
			st.n++
			n = fmt.Sprint(st.n)
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], uint64(st.n))
			ec.RecordChange(streams.NewChangeLogEntry().WithKeyString("n").WithValue(b[:]))
		}
		ec.Forward(streams.NewRecord().WithTopic("fout").WithPartition(tp.Partition%2).WithKeyString(fmt.Sprintf("%s/%s/%d", m.group, m.topic, tp.Partition)).
			WithValue([]byte(fmt.Sprint(ec.Offset()))).WithHeader("n", []byte(n)))
		return streams.Complete
	}
	if h := async; h%4 == 0 {
		go func() {
			w.sleepFor(h>>8, ms(5))
			ec.AsyncJobComplete(emit)
		}()
		return streams.Incomplete
	}
	return emit()
}

// miniSeen reads what was committed for a group and topic: by partition the offsets in committed order.
func (w *World) miniSeen(group, topic string, part int32) (offs []int64, ns []string) {
	key := fmt.Sprintf("%s/%s/%d", group, topic, part)
	for _, r := range w.b.Records("fout", part%2) {
		if !r.Committed() || string(r.Key) != key {
			continue
		}
		var o int64
		fmt.Sscan(string(r.Value), &o)
		n, _ := r.Header("n")
		offs = append(offs, o)
		if n != "-" {
			ns = append(ns, n)
		}
	}
	return
}

func init() {
	// other groups and topics share the cluster, the commit log and partition numbers
	profiles["groups"] = func(w *World) {
		r := w.r
		w.bounded()
		w.plan.Parts = pick(r, 1, 2, 3, 4)
		w.strat = pick(r, nil, nil, []streams.BalanceStrategy{streams.CooperativeStickyBalanceStrategy}, []streams.BalanceStrategy{streams.RangeBalanceStrategy})
		w.cluster(kbroker.Config{})
		parts2 := 1 + r.IntN(6)
		if r.IntN(4) == 0 {
			parts2 = 9 + r.IntN(12)
		}
		w.otherParts = map[string]int32{"src2": int32(parts2)}
		w.b.CreateTopic("src2", parts2, nil)
		w.b.CreateTopic("fout", 2, nil)
		in2 := make([]int64, parts2)
		var inMu sync.Mutex
		add2 := func(p, n int) {
			for i := 0; i < n; i++ {
				w.b.Append("src2", int32(p), kmsg.Record{Key: []byte("k"), Value: []byte(fmt.Sprintf("%d.%d", p, i))})
				inMu.Lock()
				in2[p]++
				inMu.Unlock()
			}
		}
		type kind struct {
			group, topic string
			parts, cl    int
		}
		all := []kind{{"grp", "src2", parts2, w.plan.CLParts}, {"grp2", "src", w.plan.Parts, 1 + r.IntN(4)}, {"grp2", "src2", parts2, 0}, {"gr", "src", w.plan.Parts, 1 + r.IntN(4)}}
		all[2].cl = all[1].cl
		var kinds []kind
		for _, k := range all {
			if r.IntN(3) > 0 {
				kinds = append(kinds, k)
			}
		}
		w.note("strategies=%v src2=%d kinds=%v", w.strat, parts2, kinds)
		o := w.appOpts()
		var minis []*mini
		startMain := func() {
			o.Name = ""
			a := w.newApp(o)
			w.step("start %s", a)
		}
		startMini := func(k kind) {
			m := w.newMini(fmt.Sprintf("mini%d", len(minis)), k.group, k.topic, k.parts, k.cl, w.strat, w.eos)
			w.step("start %s for %s/%s", m.name, k.group, k.topic)
			minis = append(minis, m)
		}
		liveMinis := func(k kind) (l []*mini) {
			for _, m := range minis {
				if m.group == k.group && m.topic == k.topic && !m.dead.Load() {
					l = append(l, m)
				}
			}
			return
		}
		foreign := func() {
			// entries which concern nobody
			p := int32(r.IntN(w.plan.Parts))
			key := func(p int64, t string) []byte {
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], uint64(p))
				return append(b[:], t...)
			}
			var val [8]byte
			binary.LittleEndian.PutUint64(val[:], uint64(r.IntN(1000)))
			rec := kmsg.Record{Key: key(int64(p), pick(r, "src3", "sr", "srcc", "", "src2x", "Src")), Value: val[:]}
			switch r.IntN(6) {
			case 0:
				rec.Key = []byte("src")[:r.IntN(4)]
			case 1:
				rec.Value = val[:r.IntN(8)]
			case 2:
				rec.Key = key(int64(p)+pick(r, int64(100), 256, 65536), "src")
			case 3:
				rec.Key, rec.Value = nil, nil
			}
			cl := pick(r, "gkes_commit_log_grp", "gkes_commit_log_grp", "gkes_commit_log_grp2")
			if t := w.b.Topic(cl); t != nil {
				w.b.Append(cl, int32(r.IntN(len(t.Parts))), rec)
				w.c.Count("foreign commit-log entries", 1)
			}
		}
		if r.IntN(2) == 0 {
			w.load(r.IntN(60), 0)
			for p := range in2 {
				add2(p, r.IntN(20))
			}
		}
		// an application waits for what it has just written, and a broker does not compact that
		young := func(r *kbroker.Rec) bool { return len(r.Headers) > 0 && time.Since(r.Time) < 2*time.Minute }
		startMain()
		for _, k := range kinds {
			w.randSleep(ms(300))
			startMini(k)
		}
		wait := w.background(60+r.IntN(200), time.Duration(2+r.IntN(8))*time.Second)
		for i := 2 + r.IntN(8); i > 0; i-- {
			w.randSleep(1500 * time.Millisecond)
			for k := r.IntN(4); k > 0; k-- {
				add2(r.IntN(parts2), 1+r.IntN(15))
			}
			for k := r.IntN(3); k > 0; k-- {
				foreign()
			}
			if r.IntN(3) == 0 {
				w.c.Count("commit-log entries compacted", int64(w.b.Compact("gkes_commit_log_grp", young)+w.b.Compact("gkes_commit_log_grp2", young)))
			}
			switch r.IntN(6) {
			case 0:
				if l := w.liveApps(); len(l) < 3 {
					startMain()
				}
			case 1:
				if l := w.liveApps(); len(l) > 1 {
					w.step("stop %s", l[0])
					w.graceful(l[0])
				} else {
					w.step("kill %s", l[0])
					l[0].kill()
					startMain()
				}
			case 2, 3:
				if len(kinds) == 0 {
					break
				}
				k := kinds[r.IntN(len(kinds))]
				l := liveMinis(k)
				if len(l) > 0 {
					m := l[0]
					if r.IntN(2) == 0 {
						w.step("kill %s", m.name)
						w.ungraceful.Store(true)
						m.dead.Store(true)
						m.in.Kill()
					} else {
						w.step("stop %s", m.name)
						m.dead.Store(true) // not to be chosen again
						m.es.Stop()
						<-m.es.Done()
					}
				}
				if len(liveMinis(k)) == 0 || r.IntN(2) == 0 {
					startMini(k)
				}
			}
		}
		wait()
		if len(w.liveApps()) == 0 {
			startMain()
		}
		for _, k := range kinds {
			if len(liveMinis(k)) == 0 {
				startMini(k)
			}
		}
		w.end("groups", 120*time.Second)
		want := func(k kind, p int) int64 {
			if k.topic == "src2" {
				return in2[p]
			}
			return int64(len(w.evs[int32(p)]))
		}
		last, at := int64(-1), time.Now()
		for {
			ok := true
			for _, k := range kinds {
				for p := 0; p < k.parts; p++ {
					if offs, _ := w.miniSeen(k.group, k.topic, int32(p)); int64(len(offs)) < want(k, p) {
						ok = false
					}
				}
			}
			if ok {
				break
			}
			if x := w.progress.Load(); x != last {
				last, at = x, time.Now()
			} else if time.Since(at) > 100*time.Second {
				break
			}
			time.Sleep(ms(500))
		}
		time.Sleep(time.Second)
		for _, k := range kinds {
			for p := 0; p < k.parts; p++ {
				offs, ns := w.miniSeen(k.group, k.topic, int32(p))
				slices.Sort(offs) // asynchronous events overtake others
				for i, n := range ns {
					if n != fmt.Sprint(i+1) {
						w.fail("C27", "state of a group, topic and partition disturbed", "%s/%s partition %d of %d: counter %v follows %d", k.group, k.topic, p, k.parts, n, i)
						break
					}
				}
				for i := 0; i < len(offs) || int64(i) < want(k, p); i++ {
					if i >= len(offs) || int64(i) >= want(k, p) || offs[i] != int64(i) {
						w.fail("C27", "progress of a group, topic and partition disturbed", "%s/%s partition %d of %d: %d records, %d committed outputs; first difference at %d: %v\n%s", k.group, k.topic, p, k.parts, want(k, p), len(offs), i, offs[min(i, len(offs)):min(i+4, len(offs))], libStacks())
						break
					}
				}
				w.c.Count("records of other groups and topics checked", want(k, p))
			}
		}
		for _, m := range minis {
			if !m.dead.Load() && r.IntN(2) == 0 {
				m.dead.Store(true)
				m.es.Stop()
			}
		}
	}

	// the group was used by an ordinary consumer before, and ordinary commits go on
	profiles["migrate"] = func(w *World) {
		r := w.r
		w.bounded()
		w.plan.Parts = pick(r, 1, 2, 3, 4)
		w.pickStrategies()
		w.mayFail = r.IntN(4) == 0
		st := &storm{seed: r.Uint64(), drop: 20, code: pick(r, 0, 100), delay: 50, maxDelay: ms(200)}
		w.cluster(kbroker.Config{Fault: st.fault})
		w.preset = map[int32]int64{}
		for p := int32(0); p < int32(w.plan.Parts); p++ {
			if r.IntN(4) == 0 {
				continue
			}
			n := r.IntN(20)
			for i := 0; i < n; i++ {
				w.nextOff(p)
				w.b.Append(srcTopic, p, kmsg.Record{Key: []byte("old"), Value: []byte("old"), Headers: []kmsg.Header{{Key: streams.RecordTypeHeaderKey, Value: []byte("t.sync")}}})
			}
			w.preset[p] = int64(n)
			w.marks[tpKey{srcTopic, p}] = int64(n)
			w.b.SetGroupOffset(w.group, srcTopic, p, int64(n))
			if r.IntN(3) == 0 { // another group's and topic's offsets do not matter
				w.b.SetGroupOffset("other", srcTopic, p, int64(r.IntN(50)))
				w.b.SetGroupOffset(w.group, "other", p, int64(r.IntN(50)))
			}
		}
		if r.IntN(2) == 0 {
			w.load(r.IntN(100), 0)
		}
		o := w.appOpts()
		o.Commit = r.IntN(4) > 0
		w.note("preset=%v commit=%v faults=%v", w.preset, o.Commit, w.mayFail)
		start := func() *App {
			o.Name = ""
			if r.IntN(4) == 0 {
				o.Commit = !o.Commit
			}
			a := w.newApp(o)
			w.step("start %s commit=%v", a, o.Commit)
			return a
		}
		start()
		wait := w.background(100+r.IntN(300), time.Duration(3+r.IntN(15))*time.Second)
		for i := 1 + r.IntN(5); i > 0; i-- {
			w.randSleep(5 * time.Second)
			l := w.liveApps()
			switch r.IntN(5) {
			case 0:
				if len(l) < 4 {
					start()
				}
			case 1, 2:
				if len(l) > 1 {
					a := l[r.IntN(len(l))]
					w.step("stop %s", a)
					w.graceful(a)
				} else {
					start()
				}
			case 3:
				if len(l) > 0 {
					a := l[r.IntN(len(l))]
					w.step("kill %s", a)
					a.kill()
				}
			case 4:
				if w.mayFail {
					w.step("storm")
					st.on.Store(true)
					w.randSleep(2 * time.Second)
					st.on.Store(false)
				}
			}
			if len(w.liveApps()) == 0 {
				start()
			}
		}
		wait()
		if w.mayFail {
			w.endReplacing("migrate", start)
		} else {
			w.end("migrate", 120*time.Second)
		}
		time.Sleep(7 * time.Second) // the next ordinary commits
		// with ordinary commits enabled on every member, they follow the committed position
		follow := true
		for _, a := range w.liveApps() {
			follow = follow && a.o.Commit
		}
		if follow && !w.race && len(w.liveApps()) > 0 {
			for p := int32(0); p < int32(w.plan.Parts); p++ {
				w.appendEvents(p, 1+r.IntN(4))
			}
			done := w.drain(120*time.Second, "migrate")
			time.Sleep(15 * time.Second)
			for p := int32(0); p < int32(w.plan.Parts) && done; p++ {
				if got, _ := w.b.GroupOffset(w.group, srcTopic, p); got != w.appended[p] {
					w.fail("C27", "ordinary group commits do not follow", "partition %d: all %d records processed 15 s ago, offset of the group %d", p, w.appended[p], got)
				}
				w.c.Count("group offsets found at the committed position", 1)
			}
		}
		if o.Commit {
			l := w.liveApps()
			for _, a := range l {
				a.stop(false)
				a.waitDone("migrate")
			}
		}
	}
}
