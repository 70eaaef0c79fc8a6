package comp

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/stores"
	"verifh/core"
)

func init() {
	core.Register("store", storeEngine)
	core.Register("heap", heapEngine)
}

type item struct {
	K string `json:"k"`
	V int64  `json:"v"`
	S string `json:"s,omitempty"`
}

func (i item) Key() string { return i.K }

type ceProducer[T any] struct{ recs []*streams.Record }

func (p *ceProducer[T]) ProduceRecord(_ *streams.EventContext[T], r *streams.Record, _ func(*streams.Record, error)) {
	p.recs = append(p.recs, r)
}

// entryRecord turns a change-log entry into what a later incarnation would receive for it.
func entryRecord(e streams.ChangeLogEntry, tp streams.TopicPartition) streams.IncomingRecord {
	p := &ceProducer[int]{}
	var input *streams.Record
	ec := streams.MockInterjectionEventContext[int](context.Background(), tp, tp.Topic, 0, nil, p)
	_ = input
	ec.RecordChange(e)
	return p.recs[0].AsIncomingRecord()
}

type altCodec struct{ streams.JsonCodec[item] }

func storeEngine(c *core.Ctx) {
	tp := streams.TopicPartition{Topic: "changes", Partition: int32(c.Rng.IntN(4))}
	mk := func() *stores.SimpleStore[item] {
		if c.Rng.IntN(2) == 0 {
			return stores.NewJsonSimpleStore[item](tp)
		}
		return stores.NewSimpleStore[item](tp, altCodec{})
	}
	s := mk()
	model := map[string]item{}
	var log []streams.IncomingRecord
	keys := 1 + c.Rng.IntN(8)
	if c.Rng.IntN(4) == 0 {
		keys = 200
	}
	keyOf := func() string {
		k := c.Rng.IntN(keys)
		switch k {
		case 0:
			return ""
		case 1:
			return "\x00x"
		}
		return fmt.Sprintf("key%d", k)
	}
	n := 1 + c.Rng.IntN(60)
	var sb strings.Builder
	check := func(st *stores.SimpleStore[item], what string) bool {
		for k := 0; k < keys; k++ {
			key := fmt.Sprintf("key%d", k)
			if k == 0 {
				key = ""
			} else if k == 1 {
				key = "\x00x"
			}
			got, ok := st.Get(key)
			want, wok := model[key]
			if ok != wok || (ok && !reflect.DeepEqual(got, want)) {
				c.Violate("C20", "simple/"+what, "after %s: get(%q)=%+v,%v want %+v,%v", sb.String(), key, got, ok, want, wok)
				return false
			}
		}
		return true
	}
	ok := c.Guard("C20", "simple/panic", func() {
		for i := 0; i < n; i++ {
			k := keyOf()
			it := item{K: k, V: int64(c.Rng.IntN(100)), S: randString(c, 4)}
			switch c.Rng.IntN(3) {
			case 0, 1:
				log = append(log, entryRecord(s.Put(it), tp))
				model[k] = it
				fmt.Fprintf(&sb, "put(%q,%d) ", k, it.V)
			case 2:
				e, had := s.Delete(it)
				_, want := model[k]
				if had != want {
					c.Violate("C20", "simple/delete-result", "delete(%q) reported %v, want %v after %s", k, had, want, sb.String())
				}
				if had {
					log = append(log, entryRecord(e, tp))
				}
				delete(model, k)
				fmt.Fprintf(&sb, "del(%q) ", k)
			}
			c.Count("store_ops", 1)
		}
		if !check(s, "contents") {
			return
		}
		// replay everything, and also from an arbitrary point onto a copy made by replaying the prefix
		f := mk()
		for i, r := range log {
			if err := f.ReceiveChange(r); err != nil {
				c.Violate("C20", "simple/replay-error", "entry %d: %v", i, err)
			}
		}
		check(f, "replay")
		g := mk()
		cut := c.Rng.IntN(len(log) + 1)
		for _, r := range log {
			g.ReceiveChange(r)
		}
		for _, r := range log[cut:] { // delivered again, as after a resume
			g.ReceiveChange(r)
		}
		check(g, "replay-twice")
		// compaction keeps the last entry of each key
		last := map[string]int{}
		for i, r := range log {
			last[string(r.Key())] = i
		}
		h := mk()
		for i, r := range log {
			if last[string(r.Key())] == i {
				h.ReceiveChange(r)
			}
		}
		check(h, "replay-compacted")
		// an undecodable entry is an error and changes nothing
		bad := streams.NewRecord().WithKeyString("key3").WithValue([]byte(`{"k":`)).AsIncomingRecord()
		if err := f.ReceiveChange(bad); err == nil {
			c.Violate("C20", "simple/bad-entry", "undecodable change-log entry was accepted")
		}
		check(f, "after-bad-entry")
		f.Revoked()
	})
	_ = ok
	c.Saw(core.HashStr(sb.String()))
	if c.Iter == c.Job.Start {
		c.Sample("%s", sb.String())
	}
	shardedTree(c)
}

func shardedTree(c *core.Ctx) {
	exp := c.Rng.IntN(7)
	type kv struct {
		k string
		v int
	}
	tree := stores.NewShardedTree(exp, stores.StringHash, func(a, b kv) bool { return a.k < b.k })
	model := map[string]int{}
	c.Guard("C20", "sharded/panic", func() {
		n := c.Rng.IntN(200)
		keys := 1 + c.Rng.IntN(64)
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", c.Rng.IntN(keys))
			sh := tree.For(k)
			if sh == nil || tree.For(strings.Clone(k)) != sh {
				c.Violate("C20", "sharded/routing", "key %q is not routed to one shard (exponent %d)", k, exp)
				return
			}
			switch c.Rng.IntN(4) {
			case 0, 1:
				old, had := sh.ReplaceOrInsert(kv{k, i})
				want, whad := model[k]
				if had != whad || (had && old.v != want) {
					c.Violate("C20", "sharded/replace", "key %q: %v,%v want %v,%v", k, old, had, want, whad)
				}
				model[k] = i
			case 2:
				old, had := sh.Delete(kv{k: k})
				want, whad := model[k]
				if had != whad || (had && old.v != want) {
					c.Violate("C20", "sharded/delete", "key %q: %v,%v want %v,%v", k, old, had, want, whad)
				}
				delete(model, k)
			case 3:
				got, had := sh.Get(kv{k: k})
				want, whad := model[k]
				if had != whad || (had && got.v != want) {
					c.Violate("C20", "sharded/get", "key %q: %v,%v want %v,%v", k, got, had, want, whad)
				}
			}
			if tree.Len() != len(model) {
				c.Violate("C20", "sharded/len", "Len()=%d want %d", tree.Len(), len(model))
				return
			}
		}
		// documented shard count, order within each shard, and every key where it is routed
		shards := map[any]bool{}
		for i := 0; i < 4000 && len(shards) < 2<<exp; i++ {
			shards[tree.For(fmt.Sprintf("probe%d", i))] = true
		}
		if exp <= 5 && len(shards) != 2<<exp {
			c.Violate("C20", "sharded/shards", "exponent %d gave %d shards, want %d", exp, len(shards), 2<<exp)
		}
		for k, v := range model {
			if got, ok := tree.For(k).Get(kv{k: k}); !ok || got.v != v {
				c.Violate("C20", "sharded/final", "key %q: %v,%v want %d", k, got, ok, v)
			}
			prev := ""
			first := true
			tree.For(k).Ascend(func(x kv) bool {
				if !first && x.k <= prev {
					c.Violate("C20", "sharded/order", "shard not ordered: %q after %q", x.k, prev)
				}
				first, prev = false, x.k
				return true
			})
		}
		if !stores.NumberLess(1, 2) || stores.NumberLess(2, 2) || stores.NumberLess(3, 2) || !stores.StringLess("a", "b") || stores.StringLess("b", "b") {
			c.Violate("C20", "sharded/less", "less functions disagree with the order")
		}
		if stores.StringHash("abc") != stores.ByteHash([]byte("abc")) {
			c.Violate("C20", "sharded/hash", "string and byte hash of equal content differ")
		}
	})
}

type prio struct {
	p  int
	id int
}

func (a prio) HasPriorityOver(b prio) bool { return a.p < b.p }

// boxed gives the heap items whose priority can be changed in place.
type boxed struct{ *prio }

func (a boxed) HasPriorityOver(b boxed) bool { return a.p < b.p }

func heapEngine(c *core.Ctx) {
	type pi = stores.PrioritizedItem[boxed]
	var live []*pi
	nid := 0
	span := 1 + c.Rng.IntN(30)
	if c.Rng.IntN(3) == 0 {
		span = 1000
	}
	newItem := func() boxed {
		nid++
		return boxed{&prio{p: c.Rng.IntN(span), id: nid}}
	}
	var init []boxed
	for i := c.Rng.IntN(20); i > 0; i-- {
		init = append(init, newItem())
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "new(%d) ", len(init))
	c.Guard("C21", "panic", func() {
		h := stores.NewMinMaxHeap(init...)
		held := map[int]bool{}
		for _, b := range init {
			held[b.id] = true
		}
		prioOf := map[int]*prio{}
		for _, b := range init {
			prioOf[b.id] = b.prio
		}
		extremes := func() (lo, hi int) {
			lo, hi = 1<<60, -1<<60
			for id := range held {
				p := prioOf[id].p
				lo, hi = min(lo, p), max(hi, p)
			}
			return
		}
		check := func(op string) bool {
			if h.Len() != len(held) {
				c.Violate("C21", "len", "after %s: Len()=%d want %d", sb.String(), h.Len(), len(held))
				return false
			}
			peekMin := c.Rng.IntN(2) == 0
			peekMax := c.Rng.IntN(2) == 0
			if len(held) == 0 {
				if h.Min() != nil || h.Max() != nil {
					c.Violate("C21", "empty", "after %s: empty heap reports an extreme", sb.String())
					return false
				}
				return true
			}
			lo, hi := extremes()
			if peekMin {
				sb.WriteString("min ")
				if m := h.Min(); m == nil || m.Value.p != lo || !held[m.Value.id] {
					c.Violate("C21", "min/"+op, "after %s: minimum %v, want %d", sb.String(), m, lo)
					return false
				}
			}
			if peekMax {
				sb.WriteString("max ")
				if m := h.Max(); m == nil || m.Value.p != hi || !held[m.Value.id] {
					c.Violate("C21", "max/"+op, "after %s: maximum %v, want %d", sb.String(), m, hi)
					return false
				}
			}
			return true
		}
		if !check("init") {
			return
		}
		n := 1 + c.Rng.IntN(80)
		for i := 0; i < n; i++ {
			op := ""
			switch k := c.Rng.IntN(10); {
			case k < 4:
				op = "push"
				it := &pi{Value: newItem()}
				held[it.Value.id] = true
				prioOf[it.Value.id] = it.Value.prio
				live = append(live, it)
				fmt.Fprintf(&sb, "push(%d) ", it.Value.p)
				h.Push(it)
			case k < 6 && len(live) > 0:
				op = "update"
				it := live[c.Rng.IntN(len(live))]
				if !held[it.Value.id] {
					continue
				}
				it.Value.p = c.Rng.IntN(span)
				fmt.Fprintf(&sb, "update(#%d=%d) ", it.Value.id, it.Value.p)
				h.Update(it)
			case k < 7 && len(live) > 0:
				op = "remove"
				it := live[c.Rng.IntN(len(live))]
				if !held[it.Value.id] {
					continue
				}
				fmt.Fprintf(&sb, "remove(#%d) ", it.Value.id)
				h.Remove(it)
				delete(held, it.Value.id)
			case k == 7 || k == 8:
				lo, hi := extremes()
				var m *pi
				want := lo
				if k == 7 {
					op = "popmin"
					m = h.PopMin()
				} else {
					op = "popmax"
					want = hi
					m = h.PopMax()
				}
				sb.WriteString(op + " ")
				if len(held) == 0 {
					if m != nil {
						c.Violate("C21", op+"-empty", "%s on empty heap returned %v", op, m)
						return
					}
					continue
				}
				if m == nil || m.Value.p != want || !held[m.Value.id] {
					c.Violate("C21", op, "after %s: got %v want priority %d", sb.String(), m, want)
					return
				}
				delete(held, m.Value.id)
			default:
				op = "peek"
			}
			c.Count("heap_ops", 1)
			if !check(op) {
				return
			}
		}
		// drain: in order from a chosen end, or alternating
		mode := c.Rng.IntN(3)
		want := make([]int, 0, len(held))
		for id := range held {
			want = append(want, prioOf[id].p)
		}
		sort.Ints(want)
		for k := 0; len(want) > 0; k++ {
			fromMin := mode == 0 || mode == 2 && c.Rng.IntN(2) == 0
			var m *pi
			var w int
			if fromMin {
				m, w = h.PopMin(), want[0]
				want = want[1:]
			} else {
				m, w = h.PopMax(), want[len(want)-1]
				want = want[:len(want)-1]
			}
			if m == nil || m.Value.p != w || !held[m.Value.id] {
				c.Violate("C21", "drain", "after %s: drain step %d (from min: %v) got %v want %d", sb.String(), k, fromMin, m, w)
				return
			}
			delete(held, m.Value.id)
		}
		if h.Len() != 0 || h.PopMin() != nil || h.PopMax() != nil {
			c.Violate("C21", "drain-empty", "heap not empty after draining")
		}
	})
	c.Saw(core.HashStr(sb.String()))
	if c.Iter == c.Job.Start {
		c.Sample("%s", sb.String())
	}
}
