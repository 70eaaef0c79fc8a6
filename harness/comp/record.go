package comp

import (
	"bytes"
	"context"
	"encoding/binary"
	ejson "encoding/json"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"verifh/core"
)

func init() {
	core.Register("record", recordEngine)
	core.Register("partitioner", partitionerEngine)
}

// recModel is what has been set on a record.
type recModel struct {
	topic     string
	part      int32
	key, val  []byte
	headers   []kgo.RecordHeader
	rtype     string
	typeFirst bool
}

func (m *recModel) want() []kgo.RecordHeader {
	h := append([]kgo.RecordHeader(nil), m.headers...)
	if m.rtype != "" {
		h = append(h, kgo.RecordHeader{Key: streams.RecordTypeHeaderKey, Value: []byte(m.rtype)})
	}
	return h
}

func rb(r *rand.Rand, max int) []byte {
	b := make([]byte, r.IntN(max+1))
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// headersDiffer compares headers; the record type may be at any position.
func headersDiffer(got []kgo.RecordHeader, m *recModel) bool {
	var rest []kgo.RecordHeader
	types := 0
	for _, h := range got {
		if h.Key == streams.RecordTypeHeaderKey {
			types++
			if string(h.Value) != m.rtype {
				return true
			}
			continue
		}
		rest = append(rest, h)
	}
	if len(rest) != len(m.headers) || types > 1 || (types == 1) != (m.rtype != "") {
		return true
	}
	for i, h := range rest {
		if h.Key != m.headers[i].Key || !bytes.Equal(h.Value, m.headers[i].Value) {
			return true
		}
	}
	return false
}

func (m *recModel) clone() *recModel {
	c := *m
	c.key, c.val = bytes.Clone(m.key), bytes.Clone(m.val)
	c.headers = nil
	for _, h := range m.headers {
		c.headers = append(c.headers, kgo.RecordHeader{Key: h.Key, Value: bytes.Clone(h.Value)})
	}
	return &c
}

func (m *recModel) String() string {
	return fmt.Sprintf("topic=%q part=%d key=%x value=%x headers=%v type=%q", m.topic, m.part, m.key, m.val, m.headers, m.rtype)
}

// differs explains how a plain record differs from what was set.
func (m *recModel) differs(k *kgo.Record) string {
	switch {
	case k.Topic != m.topic:
		return "topic"
	case k.Partition != m.part:
		return "partition"
	case !bytes.Equal(k.Key, m.key):
		return "key"
	case len(m.key) == 0 && k.Key != nil:
		return "key (empty instead of absent)"
	case !bytes.Equal(k.Value, m.val):
		return "value"
	case len(m.val) == 0 && k.Value != nil:
		return "value (empty instead of absent, no deletion)"
	case headersDiffer(k.Headers, m):
		return "headers"
	}
	return ""
}

func (m *recModel) differsIn(in streams.IncomingRecord) string {
	k := &kgo.Record{Topic: in.TopicPartition().Topic, Partition: in.TopicPartition().Partition, Key: in.Key(), Value: in.Value(), Headers: in.Headers()}
	if d := m.differs(k); d != "" {
		return d
	}
	if in.RecordType() != m.rtype {
		return "record type"
	}
	seen := map[string]bool{}
	for _, h := range m.headers {
		if seen[h.Key] || h.Key == streams.RecordTypeHeaderKey {
			continue
		}
		seen[h.Key] = true
		if !bytes.Equal(in.HeaderValue(h.Key), h.Value) {
			return "header value"
		}
	}
	if in.HeaderValue("no such header") != nil {
		return "header value"
	}
	return ""
}

func recordEngine(c *core.Ctx) {
	r0 := c.Rng
	core.ApplyPerturb(core.Perturb{Seed: r0.Uint64(), YieldProb: uint32(r0.IntN(40000))})
	defer core.ApplyPerturb(core.Perturb{})
	g := 1 + r0.IntN(5)
	per := 1 + r0.IntN(40)
	var wg sync.WaitGroup
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			recordWorker(c, r, per)
		}(rand.New(rand.NewPCG(r0.Uint64(), 3)))
	}
	wg.Wait()
	if r0.IntN(3) == 0 {
		entryChecks(c)
	}
	incomingChecks(c)
}

type snapshot struct {
	m    *recModel
	k    *kgo.Record
	in   streams.IncomingRecord
	isIn bool
}

func recordWorker(c *core.Ctx, r *rand.Rand, n int) {
	type live struct {
		rec *streams.Record
		m   *recModel
		ops strings.Builder
	}
	var open []*live
	var kept []snapshot
	check := func(l *live) bool {
		if l.rec.TopicPartition() != (streams.TopicPartition{Topic: l.m.topic, Partition: l.m.part}) {
			c.Violate("C19", "record differs from what was set", "TopicPartition() is %+v\nset: %v\n%s", l.rec.TopicPartition(), l.m, l.ops.String())
			return false
		}
		if l.rec.Error() != nil {
			c.Violate("C19", "recycled record leaks", "a new record has the error %v\n%s", l.rec.Error(), l.ops.String())
			return false
		}
		k := l.rec.ToKafkaRecord()
		if d := l.m.differs(k); d != "" {
			c.Violate("C19", "record differs from what was set", "%s differs: topic=%q part=%d key=%x value=%x headers=%v\nset: %v\n%s", d, k.Topic, k.Partition, k.Key, k.Value, k.Headers, l.m, l.ops.String())
			return false
		}
		if !k.Timestamp.IsZero() || k.Offset != 0 {
			c.Violate("C19", "recycled record leaks", "a new record has the offset %d and the time %v", k.Offset, k.Timestamp)
			return false
		}
		kept = append(kept, snapshot{m: l.m.clone(), k: k})
		if r.IntN(2) == 0 {
			in := l.rec.AsIncomingRecord()
			if d := l.m.differsIn(in); d != "" {
				c.Violate("C19", "incoming record differs from what was set", "%s differs\nset: %v\n%s", d, l.m, l.ops.String())
				return false
			}
			kept = append(kept, snapshot{m: l.m.clone(), in: in, isIn: true})
		}
		return true
	}
	pool := r.IntN(2) == 0
	for i := 0; i < n; i++ {
		if len(open) == 0 || len(open) < 4 && r.IntN(3) == 0 {
			l := &live{rec: streams.NewRecord(), m: &recModel{part: streams.AutoAssign}}
			open = append(open, l)
			if !check(l) {
				return
			}
		}
		x := r.IntN(len(open))
		l := open[x]
		for o := r.IntN(8); o > 0; o-- {
			k := r.IntN(13)
			fmt.Fprintf(&l.ops, "%d ", k)
			a, b := rb(r, 12), rb(r, 3)
			if r.IntN(30) == 0 {
				a = rb(r, 5000)
			}
			self := l.rec
			switch k {
			case 0:
				l.rec.WriteKey(a, b)
				l.m.key = append(append(l.m.key, a...), b...)
			case 1:
				l.rec.WriteKeyString(string(a), string(b))
				l.m.key = append(append(l.m.key, a...), b...)
			case 2:
				l.rec.KeyWriter().Write(a)
				l.m.key = append(l.m.key, a...)
			case 3:
				self = l.rec.WithKey(a)
				l.m.key = append(l.m.key, a...)
			case 4:
				self = l.rec.WithKeyString(string(a), string(b))
				l.m.key = append(append(l.m.key, a...), b...)
			case 5:
				l.rec.WriteValue(a, b)
				l.m.val = append(append(l.m.val, a...), b...)
			case 6:
				l.rec.WriteValueString(string(a))
				l.m.val = append(l.m.val, a...)
			case 7:
				l.rec.ValueWriter().WriteString(string(a))
				l.m.val = append(l.m.val, a...)
			case 8:
				self = l.rec.WithValue(a, b)
				l.m.val = append(append(l.m.val, a...), b...)
			case 9:
				h := fmt.Sprintf("h%d", r.IntN(4))
				self = l.rec.WithHeader(h, a)
				l.m.headers = append(l.m.headers, kgo.RecordHeader{Key: h, Value: bytes.Clone(a)})
			case 10:
				l.m.rtype = []string{"", "t", "type2", string(rune('a' + r.IntN(26)))}[r.IntN(4)]
				self = l.rec.WithRecordType(l.m.rtype)
			case 11:
				l.m.topic = fmt.Sprintf("topic%d", r.IntN(3))
				self = l.rec.WithTopic(l.m.topic)
			case 12:
				l.m.part = int32(r.IntN(40)) - 1
				self = l.rec.WithPartition(l.m.part)
			}
			if self != l.rec {
				c.Violate("C19", "builder returns another record", "operation %d", k)
				return
			}
			if r.IntN(4) == 0 && !check(l) {
				return
			}
		}
		if !check(l) {
			return
		}
		if r.IntN(3) == 0 && pool {
			l.rec.Release()
			open = append(open[:x], open[x+1:]...)
			c.Count("records recycled", 1)
		}
		if r.IntN(5) == 0 {
			runtime.Gosched()
		}
		c.Saw(core.HashStr(l.m.String()))
	}
	for _, l := range open {
		if !check(l) {
			return
		}
		l.rec.Release()
	}
	// nothing that was converted may change, whatever happens to the pool
	for _, s := range kept {
		d := ""
		if s.isIn {
			d = s.m.differsIn(s.in)
		} else {
			d = s.m.differs(s.k)
		}
		if d != "" {
			c.Violate("C19", "converted record changed later", "%s differs\nset: %v", d, s.m)
			return
		}
	}
	c.Count("records converted", int64(len(kept)))
	if len(kept) > 0 {
		c.Sample("%v", kept[len(kept)-1].m)
	}
}

// entryChecks builds change-log entries and records them.
func entryChecks(c *core.Ctx) {
	r := c.Rng
	m := &recModel{topic: "changes", part: int32(r.IntN(5))}
	tp := streams.TopicPartition{Topic: m.topic, Partition: m.part}
	var e streams.ChangeLogEntry
	var thing jsonThing
	isJson := r.IntN(2) == 0
	if isJson {
		thing = randThing(c, 1)
		var err error
		e, err = streams.CreateJsonChangeLogEntry(thing)
		if err != nil {
			c.Violate("C19", "entry refused", "%v: %v", thing, err)
			return
		}
	} else if r.IntN(2) == 0 {
		v := randInt64(c)
		e, _ = streams.CreateChangeLogEntry(v, streams.Int64Codec)
		m.val = binary.BigEndian.AppendUint64(nil, uint64(v))
		if got, err := streams.Int64Codec.Decode(entryRecordAt(e, tp).Value()); err != nil || got != v {
			c.Violate("C19", "entry differs from what was set", "%d became %d, %v", v, got, err)
		}
		return
	} else {
		e = streams.NewChangeLogEntry()
	}
	for o := r.IntN(8); o > 0; o-- {
		a, b := rb(r, 9), rb(r, 3)
		k := r.IntN(10)
		if isJson && k >= 4 && k < 8 {
			continue
		}
		switch k {
		case 0:
			e.WriteKey(a, b)
			m.key = append(append(m.key, a...), b...)
		case 1:
			e.WriteKeyString(string(a), string(b))
			m.key = append(append(m.key, a...), b...)
		case 2:
			e = e.WithKey(a)
			m.key = append(m.key, a...)
		case 3:
			e.KeyWriter().Write(a)
			m.key = append(m.key, a...)
		case 4:
			e = e.WithValue(a)
			m.val = append(m.val, a...)
		case 5:
			e.WriteValue(a, b)
			m.val = append(append(m.val, a...), b...)
		case 6:
			e.WriteValueString(string(a), string(b))
			m.val = append(append(m.val, a...), b...)
		case 7:
			e.ValueWriter().Write(a)
			m.val = append(m.val, a...)
		case 8:
			m.rtype = []string{"x", "yy", ""}[r.IntN(3)]
			e = e.WithEntryType(m.rtype)
		case 9:
			e = e.WithKeyString(string(a))
			m.key = append(m.key, a...)
			h := fmt.Sprintf("h%d", r.IntN(3))
			e = e.WithHeader(h, b)
			m.headers = append(m.headers, kgo.RecordHeader{Key: h, Value: b})
		}
	}
	in := entryRecordAt(e, tp)
	if isJson {
		var got jsonThing
		if err := ejson.Unmarshal(in.Value(), &got); err != nil || fmt.Sprint(got) != fmt.Sprint(thing) && !deq(got, thing) {
			c.Violate("C19", "entry differs from what was set", "%+v became %q: %v", thing, in.Value(), err)
		}
		m.val = in.Value()
	}
	// topic and partition are set where the entry is produced; the captured record is compared without them
	m.topic, m.part = in.TopicPartition().Topic, in.TopicPartition().Partition
	if d := m.differsIn(in); d != "" {
		c.Violate("C19", "entry differs from what was set", "%s differs\nset: %v", d, m)
	}
	c.Count("entries", 1)
}

func entryRecordAt(e streams.ChangeLogEntry, tp streams.TopicPartition) streams.IncomingRecord {
	p := &ceProducer[int]{}
	ec := streams.MockInterjectionEventContext[int](context.Background(), tp, tp.Topic, 0, nil, p)
	ec.RecordChange(e)
	return p.recs[0].AsIncomingRecord()
}

// incomingChecks: a raw record with a type set by SetRecordType.
func incomingChecks(c *core.Ctx) {
	r := c.Rng
	k := &kgo.Record{Key: rb(r, 5), Value: rb(r, 5)}
	for i := r.IntN(3); i > 0; i-- {
		k.Headers = append(k.Headers, kgo.RecordHeader{Key: fmt.Sprintf("h%d", r.IntN(3)), Value: rb(r, 4)})
	}
	n := len(k.Headers)
	t := fmt.Sprintf("type%d", r.IntN(100))
	streams.SetRecordType(k, t)
	if len(k.Headers) != n+1 || k.Headers[n].Key != streams.RecordTypeHeaderKey || string(k.Headers[n].Value) != t {
		c.Violate("C19", "record type of a plain record", "headers %v after setting the type %q", k.Headers, t)
	}
}

type constPartitioner struct{ v int }

func (p constPartitioner) ForTopic(string) kgo.TopicPartitioner { return p }
func (p constPartitioner) RequiresConsistency(*kgo.Record) bool { return true }
func (p constPartitioner) Partition(_ *kgo.Record, n int) int   { return p.v % n }

func partitionerEngine(c *core.Ctx) {
	r := c.Rng
	ref := kgo.StickyKeyPartitioner(nil).ForTopic("reference")
	over := map[string]kgo.Partitioner{}
	for i := r.IntN(4); i > 0; i-- {
		over[fmt.Sprintf("t%d", r.IntN(5))] = constPartitioner{r.IntN(1000)}
	}
	var def kgo.Partitioner = kgo.StickyKeyPartitioner(nil)
	defConst := -1
	if r.IntN(4) == 0 {
		defConst = r.IntN(1000)
		def = constPartitioner{defConst}
	}
	var op streams.OptionalPartitioner
	if len(over) == 0 && r.IntN(2) == 0 {
		op = streams.NewOptionalPartitioner(def)
	} else {
		op = streams.NewOptionalPerTopicPartitioner(def, over)
	}
	tps := map[string]kgo.TopicPartitioner{}
	for i := 0; i < 60; i++ {
		topic := fmt.Sprintf("t%d", r.IntN(6))
		tp := tps[topic]
		if tp == nil {
			tp = op.ForTopic(topic)
			tps[topic] = tp
		}
		n := []int{1, 2, 1 + r.IntN(10), 1 + r.IntN(1000), 1 << r.IntN(16)}[r.IntN(5)]
		rec := streams.NewRecord().WithTopic(topic).WithKey(rb(r, 40))
		if r.IntN(3) == 0 {
			rec.WithValue(rb(r, 5))
		}
		manual := r.IntN(2) == 0
		part := int32(r.IntN(n))
		if r.IntN(8) == 0 {
			part = 0
		}
		if manual {
			rec.WithPartition(part)
		}
		k := rec.ToKafkaRecord()
		key := bytes.Clone(k.Key)
		got := tp.Partition(k, n)
		cst, isConst := over[topic]
		want := -1
		switch {
		case manual:
			want = int(part)
		case isConst:
			want = cst.(constPartitioner).v % n
		case defConst >= 0:
			want = defConst % n
		case key != nil:
			want = int((Murmur2(key) & 0x7fffffff) % uint32(n))
			if w := ref.Partition(k, n); w != want {
				c.Inconclusive("the reference hash differs from the client's: %d %d", w, want)
			}
		default:
			if got < 0 || got >= n {
				c.Violate("C24", "partition out of range", "record without key: %d of %d", got, n)
			}
		}
		if want >= 0 && got != want {
			kind := "explicit partition not respected"
			if !manual {
				kind = "key not sent to its partition"
			}
			c.Violate("C24", kind, "topic %s, %d partitions, key %x, partition set: %v(%d): chose %d, not %d; overrides %v", topic, n, key, manual, part, got, want, over)
			return
		}
		if (manual || key != nil) && !tp.RequiresConsistency(k) {
			c.Violate("C24", "partition depends on availability", "a record with key %x, partition %v(%d) may be sent to another partition when its leader is unavailable", key, manual, part)
			return
		}
		if k.Partition != part && manual || !bytes.Equal(k.Key, key) {
			c.Violate("C24", "partitioner alters the record", "%+v", k)
		}
		rec.Release()
		c.Count("records partitioned", 1)
		c.Saw(core.HashStr(fmt.Sprint(topic, n, key, manual, part, isConst, defConst)))
	}
}

// Murmur2 is the canonical Kafka key hash.
func Murmur2(b []byte) uint32 {
	const m = 0x5bd1e995
	h := uint32(0x9747b28c) ^ uint32(len(b))
	for ; len(b) >= 4; b = b[4:] {
		k := binary.LittleEndian.Uint32(b) * m
		h = h*m ^ (k^k>>24)*m
	}
	for i := len(b) - 1; i >= 0; i-- {
		h ^= uint32(b[i]) << (8 * i)
	}
	if len(b) > 0 {
		h *= m
	}
	h = (h ^ h>>13) * m
	return h ^ h>>15
}
