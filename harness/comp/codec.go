// Package comp holds the monitors of single components: reference models run next to the real code.
package comp

import (
	"bytes"
	"cmp"
	"context"
	ejson "encoding/json"
	"math"
	"reflect"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/aws/go-kafka-event-source/streams"
	"verifh/core"
)

func init() {
	core.Register("codec", codecEngine)
}

// guarded places b directly before an inaccessible page, so that any read past its end faults; the bytes before it are
// filled with fill.
type guardPage struct {
	mem  []byte
	size int
}

func newGuardPage() *guardPage {
	const pg = 4096
	mem, err := syscall.Mmap(-1, 0, 16*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(mem[15*pg:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return &guardPage{mem, 15 * pg}
}

func (g *guardPage) place(b []byte) []byte {
	off := g.size - len(b)
	copy(g.mem[off:g.size], b)
	return g.mem[off:g.size:g.size]
}

var theGuard = newGuardPage()

type jsonThing struct {
	A string             `json:"a"`
	B int64              `json:"b"`
	C []string           `json:"c,omitempty"`
	D map[string]float64 `json:"d,omitempty"`
	E *jsonThing         `json:"e,omitempty"`
	F bool               `json:"f"`
	G []byte             `json:"g,omitempty"`
}

func randInt64(c *core.Ctx) int64 {
	switch c.Rng.IntN(6) {
	case 0:
		edges := []int64{0, 1, -1, 2, -2, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MinInt64 + 2, math.MaxInt32, math.MinInt32,
			255, 256, 257, -255, -256, -257, 65535, 65536, -65536, 1 << 40, -(1 << 40), 127, 128, -128, -129}
		return edges[c.Rng.IntN(len(edges))]
	case 1:
		return int64(c.Rng.Uint64())
	case 2:
		return int64(c.Rng.IntN(2000)) - 1000
	case 3:
		v := int64(1) << c.Rng.IntN(63)
		return v + int64(c.Rng.IntN(5)) - 2
	case 4:
		v := -(int64(1) << c.Rng.IntN(63))
		return v + int64(c.Rng.IntN(5)) - 2
	}
	return int64(c.Rng.Uint64() >> c.Rng.IntN(64))
}

func randString(c *core.Ctx, max int) string {
	n := c.Rng.IntN(max + 1)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch c.Rng.IntN(8) {
		case 0:
			sb.WriteRune(rune(c.Rng.IntN(0x10000)))
		case 1:
			sb.WriteByte("\"\\/\b\n\t\x00<>&"[c.Rng.IntN(10)])
		default:
			sb.WriteByte(byte('a' + c.Rng.IntN(26)))
		}
	}
	// JSON cannot carry invalid UTF-8, which is not what is tested here
	return strings.ToValidUTF8(sb.String(), "?")
}

func randBytes(c *core.Ctx, max int) []byte {
	b := make([]byte, c.Rng.IntN(max+1))
	for i := range b {
		b[i] = byte(c.Rng.Uint32())
	}
	return b
}

func randThing(c *core.Ctx, depth int) jsonThing {
	t := jsonThing{A: randString(c, 12), B: randInt64(c), F: c.Rng.IntN(2) == 0}
	for i := c.Rng.IntN(3); i > 0; i-- {
		t.C = append(t.C, randString(c, 6))
	}
	if c.Rng.IntN(3) == 0 {
		t.D = map[string]float64{}
		for i := 1 + c.Rng.IntN(3); i > 0; i-- {
			t.D[randString(c, 5)] = c.Rng.NormFloat64() * 1e6
		}
	}
	if depth > 0 && c.Rng.IntN(2) == 0 {
		e := randThing(c, depth-1)
		t.E = &e
	}
	if g := randBytes(c, 10); len(g) > 0 {
		t.G = g
	}
	return t
}

// encode checks that the codec appends exactly its encoding to whatever the buffer holds.
func encode[T any](c *core.Ctx, name string, codec streams.Codec[T], v T) ([]byte, bool) {
	pre := randBytes(c, 4)
	buf := bytes.NewBuffer(append([]byte(nil), pre...))
	var err error
	if !c.Guard("C18", name+"/encode-panic", func() { err = codec.Encode(buf, v) }) {
		return nil, false
	}
	if err != nil {
		c.Violate("C18", name+"/encode-error", "encoding %#v failed: %v", v, err)
		return nil, false
	}
	all := buf.Bytes()
	if !bytes.HasPrefix(all, pre) {
		c.Violate("C18", name+"/encode-clobbers", "encoding %#v altered earlier buffer contents %x -> %x", v, pre, all)
		return nil, false
	}
	return append([]byte(nil), all[len(pre):]...), true
}

func roundTrip[T any](c *core.Ctx, name string, codec streams.Codec[T], v T, equal func(a, b T) bool) []byte {
	b, ok := encode(c, name, codec, v)
	if !ok {
		return nil
	}
	var got T
	var err error
	if !c.Guard("C18", name+"/decode-panic", func() { got, err = codec.Decode(theGuard.place(b)) }) {
		return b
	}
	if err != nil || !equal(got, v) {
		c.Violate("C18", name+"/roundtrip", "value %#v encoded as %x decoded as %#v, err=%v", v, b, got, err)
	}
	c.Count("roundtrips", 1)
	return b
}

func eq[T comparable](a, b T) bool { return a == b }
func deq[T any](a, b T) bool       { return reflect.DeepEqual(a, b) }

// hostile decodes arbitrary bytes: value or error, no panic, no fault, and independent of neighbouring memory.
func hostile[T any](c *core.Ctx, name string, codec streams.Codec[T], b []byte) {
	var v1, v2, v3 T
	var e1, e2, e3 error
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	if !c.Guard("C18", name+"/decode-hostile", func() { v1, e1 = codec.Decode(theGuard.place(b)) }) {
		c.Violate("C18", name+"/decode-hostile-input", "input %x", b)
		return
	}
	mk := func(fill byte) []byte {
		m := bytes.Repeat([]byte{fill}, len(b)+64)
		copy(m[32:], b)
		return m[32 : 32+len(b) : 32+len(b)]
	}
	c.Guard("C18", name+"/decode-hostile", func() {
		v2, e2 = codec.Decode(mk(0))
		v3, e3 = codec.Decode(mk(0xff))
	})
	if (e2 == nil) != (e3 == nil) || (e1 == nil) != (e2 == nil) || (e2 == nil && (!reflect.DeepEqual(v2, v3) || !reflect.DeepEqual(v1, v2))) {
		c.Violate("C18", name+"/decode-reads-outside", "decoding %x depends on memory outside the input: %#v,%v / %#v,%v / %#v,%v", b, v1, e1, v2, e2, v3, e3)
	}
	c.Count("hostile_decodes", 1)
}

func capture(f func(ec *streams.EventContext[int])) *streams.Record {
	cp := &captureProducer{}
	ec := streams.MockEventContext[int](context.Background(), nil, "changes", 0, nil, cp)
	f(ec)
	if len(cp.recs) != 1 {
		return nil
	}
	return cp.recs[0]
}

type captureProducer struct{ recs []*streams.Record }

func (p *captureProducer) ProduceRecord(_ *streams.EventContext[int], r *streams.Record, _ func(*streams.Record, error)) {
	p.recs = append(p.recs, r)
}

func codecEngine(c *core.Ctx) {
	i64 := randInt64(c)
	roundTrip[int64](c, "int64", streams.Int64Codec, i64, eq[int64])
	roundTrip[int](c, "int", streams.IntCodec, int(i64), eq[int])
	roundTrip[int32](c, "int32", streams.Int32Codec, int32(i64), eq[int32])
	// sortable integers
	j64 := randInt64(c)
	if c.Rng.IntN(2) == 0 {
		j64 = i64 + int64(c.Rng.IntN(5)) - 2
	}
	a := roundTrip[int64](c, "sortable", streams.LexoInt64Codec, i64, eq[int64])
	b := roundTrip[int64](c, "sortable", streams.LexoInt64Codec, j64, eq[int64])
	if a != nil && b != nil && bytes.Compare(a, b) != cmp.Compare(i64, j64) {
		c.Violate("C18", "sortable/order", "integers %d and %d compare %d but their encodings %x and %x compare %d", i64, j64, cmp.Compare(i64, j64), a, b, bytes.Compare(a, b))
	}
	c.Saw(core.Mix(uint64(i64), uint64(j64)))
	// strings and bytes
	s := randString(c, 40)
	if c.Rng.IntN(3) == 0 {
		s = string(randBytes(c, 40)) // the string codec is byte-transparent
	}
	roundTrip[string](c, "string", streams.StringCodec, s, eq[string])
	roundTrip[[]byte](c, "bytes", streams.ByteCodec, randBytes(c, 40), func(a, b []byte) bool { return bytes.Equal(a, b) })
	// JSON
	th := randThing(c, 2)
	roundTrip[jsonThing](c, "json", streams.JsonCodec[jsonThing]{}, th, deq[jsonThing])
	if c.Rng.IntN(4) == 0 {
		roundTrip[*jsonThing](c, "json-ptr", streams.JsonCodec[*jsonThing]{}, &th, deq[*jsonThing])
		roundTrip[int64](c, "json-int64", streams.JsonCodec[int64]{}, i64, eq[int64])
		roundTrip[int32](c, "json-int32", streams.JsonCodec[int32]{}, int32(i64), eq[int32])
		roundTrip[float64](c, "json-float", streams.JsonCodec[float64]{}, c.Rng.NormFloat64()*math.Pow(10, float64(c.Rng.IntN(12)-6)), eq[float64])
		roundTrip[string](c, "json-string", streams.JsonCodec[string]{}, randString(c, 20), eq[string])
		roundTrip[bool](c, "json-bool", streams.JsonCodec[bool]{}, i64%2 == 0, eq[bool])
		roundTrip[[]int64](c, "json-slice", streams.JsonCodec[[]int64]{}, []int64{i64, j64}, deq[[]int64])
		roundTrip[map[string]int64](c, "json-map", streams.JsonCodec[map[string]int64]{}, map[string]int64{randString(c, 8): i64, "k": j64}, deq[map[string]int64])
		roundTrip[[]byte](c, "json-bytes", streams.JsonCodec[[]byte]{}, append(randBytes(c, 20), 1), deq[[]byte])
	}
	// records built by the JSON helpers
	c.Guard("C18", "json-helper/panic", func() {
		typ := randString(c, 8)
		r := streams.JsonItemEncoder(typ, th)
		got, err := streams.JsonItemDecoder[jsonThing](r.AsIncomingRecord())
		if err != nil || !reflect.DeepEqual(got, th) || r.AsIncomingRecord().RecordType() != typ {
			c.Violate("C18", "json-helper/roundtrip", "encoded %#v as type %q, decoded %#v type %q err %v", th, typ, got, r.AsIncomingRecord().RecordType(), err)
		}
		r.Release()
		cr := capture(func(ec *streams.EventContext[int]) {
			ec.RecordChange(streams.EncodeJsonChangeLogEntryValue(typ, th).WithKey([]byte("k")))
		})
		if cr == nil {
			c.Violate("C18", "json-entry/missing", "recording one change produced no record")
			return
		}
		in := cr.AsIncomingRecord()
		got, err = streams.JsonItemDecoder[jsonThing](in)
		if err != nil || !reflect.DeepEqual(got, th) || in.RecordType() != typ || string(in.Key()) != "k" {
			c.Violate("C18", "json-entry/roundtrip", "change entry %#v type %q decoded as %#v type %q key %q err %v", th, typ, got, in.RecordType(), in.Key(), err)
		}
		cr.Release()
		e2, err := streams.CreateJsonChangeLogEntry(th)
		if err != nil {
			c.Violate("C18", "json-entry/create-error", "%v", err)
			return
		}
		cr = capture(func(ec *streams.EventContext[int]) { ec.RecordChange(e2) })
		in = cr.AsIncomingRecord()
		if got, err = streams.JsonItemDecoder[jsonThing](in); err != nil || !reflect.DeepEqual(got, th) {
			c.Violate("C18", "json-entry/create-roundtrip", "%#v -> %#v, %v", th, got, err)
		}
		cr.Release()
		e3, err := streams.CreateChangeLogEntry[int64](i64, streams.LexoInt64Codec)
		if err != nil {
			c.Violate("C18", "entry/create-error", "%v", err)
			return
		}
		cr = capture(func(ec *streams.EventContext[int]) { ec.RecordChange(e3) })
		if v, err := streams.LexoInt64Codec.Decode(cr.AsIncomingRecord().Value()); err != nil || v != i64 {
			c.Violate("C18", "entry/create-roundtrip", "%d -> %d, %v", i64, v, err)
		}
		cr.Release()
	})
	// arbitrary input
	var h []byte
	switch c.Rng.IntN(4) {
	case 0:
		h = randBytes(c, 12)
	case 1:
		h = randBytes(c, 64)
	case 2:
		h, _ = ejson.Marshal(th)
		h = h[:c.Rng.IntN(len(h)+1)]
	default:
		h, _ = ejson.Marshal(th)
		if len(h) > 0 {
			h[c.Rng.IntN(len(h))] = byte(c.Rng.Uint32())
		}
	}
	hostile[int64](c, "int64", streams.Int64Codec, h)
	hostile[int](c, "int", streams.IntCodec, h)
	hostile[int32](c, "int32", streams.Int32Codec, h)
	hostile[int64](c, "sortable", streams.LexoInt64Codec, h)
	hostile[string](c, "string", streams.StringCodec, h)
	hostile[jsonThing](c, "json", streams.JsonCodec[jsonThing]{}, h)
	hostile[int64](c, "json-int64", streams.JsonCodec[int64]{}, h)
	for l := 0; l <= 16; l++ {
		if c.Iter%50 == 0 {
			hostile[int64](c, "int64", streams.Int64Codec, randBytesN(c, l))
			hostile[int64](c, "sortable", streams.LexoInt64Codec, randBytesN(c, l))
		}
	}
	if c.Iter == c.Job.Start {
		c.Sample("ints %d,%d -> sortable %x,%x; json %+v; hostile input %x", i64, j64, a, b, th, h)
	}
}

func randBytesN(c *core.Ctx, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.Rng.Uint32())
	}
	return b
}
