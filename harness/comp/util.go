package comp

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/aws/go-kafka-event-source/streams/sak"
	"verifh/core"
)

func init() { core.Register("util", utilEngine) }

func utilEngine(c *core.Ctx) {
	switch c.Rng.IntN(4) {
	case 0:
		poolRun(c)
	case 1:
		runStatusRun(c)
	case 2:
		listRun(c)
	case 3:
		helpersRun(c)
	}
}

type poolItem struct {
	id             int
	owner          int32 // 1: borrowed
	dirty          int32
	resets, frees  int32
	payload        [2]int64
	resetWhileFree int32
}

// poolRun lets several goroutines borrow and return items and watches every single hand-over.
func poolRun(c *core.Ctx) {
	r := c.Rng
	size := []int{0, 1, 1 + r.IntN(4), r.IntN(64)}[r.IntN(4)]
	g := 1 + r.IntN(6)
	ops := 1 + r.IntN(300)
	maxHold := 1 + r.IntN(5)
	withReset := r.IntN(6) > 0
	foreign := r.IntN(4) == 0 // items which the pool has not made are returned as well
	desc := fmt.Sprintf("pool size=%d goroutines=%d ops=%d hold=%d reset=%v foreign=%v", size, g, ops, maxHold, withReset, foreign)
	core.ApplyPerturb(core.Perturb{Seed: r.Uint64(), YieldProb: uint32(r.IntN(65536))})
	defer core.ApplyPerturb(core.Perturb{})
	bad := func(kind, f string, a ...any) { c.Violate("C22", kind, "%s\n%s", fmt.Sprintf(f, a...), desc) }
	var made, fromPool, kept int64
	var ids int64
	mk := func() *poolItem { return &poolItem{id: int(atomic.AddInt64(&ids, 1)), owner: 1} }
	factory := func() *poolItem { atomic.AddInt64(&made, 1); return mk() }
	var reset func(*poolItem) *poolItem
	if withReset {
		reset = func(i *poolItem) *poolItem {
			atomic.AddInt32(&i.resets, 1)
			if atomic.LoadInt32(&i.owner) != 1 {
				atomic.AddInt32(&i.resetWhileFree, 1)
			}
			i.payload = [2]int64{}
			atomic.StoreInt32(&i.dirty, 0)
			// from here on the next borrower may have it
			atomic.StoreInt32(&i.owner, 0)
			return i
		}
	}
	p := sak.NewPool(size, factory, reset)
	seeds := make([]uint64, g)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	var hist []string
	var mu sync.Mutex
	var borrows int64
	work := func(k int) {
		r := rand.New(rand.NewPCG(seeds[k], 1))
		var held []*poolItem
		give := func(i *poolItem) {
			i.payload[0] = int64(k + 1)
			atomic.StoreInt32(&i.dirty, 1)
			if !withReset {
				atomic.StoreInt32(&i.dirty, 0)
				atomic.StoreInt32(&i.owner, 0)
			}
			n := atomic.LoadInt32(&i.resets)
			if p.Release(i) {
				atomic.AddInt64(&kept, 1)
			} else if withReset && atomic.LoadInt32(&i.resets) != n+1 {
				bad("item not reset", "item %d was refused and reset %d times", i.id, atomic.LoadInt32(&i.resets)-n)
			}
		}
		for o := 0; o < ops; o++ {
			switch {
			case len(held) == 0 || len(held) < maxHold && r.IntN(2) == 0:
				i := p.Borrow()
				atomic.AddInt64(&borrows, 1)
				if i == nil {
					bad("nil item", "Borrow returned nil")
					return
				}
				if i.payload != [2]int64{} && withReset {
					bad("item not reset", "item %d was handed out with data of goroutine %d", i.id, i.payload[0])
				}
				if atomic.LoadInt32(&i.resetWhileFree) > 0 {
					bad("item reset while free", "item %d was reset after it had been returned to the pool", i.id)
				}
				// fresh items are marked as borrowed by the factory, they have not been in the pool
				if atomic.LoadInt32(&i.resets) == 0 && i.payload[1] == 0 && i.frees == 0 {
					i.frees = 1
					if withReset && atomic.LoadInt32(&i.owner) != 1 {
						bad("item handed out twice", "item %d is new, but not as the factory made it", i.id)
					}
				} else {
					atomic.AddInt64(&fromPool, 1)
				}
				atomic.StoreInt32(&i.owner, 1)
				i.payload[1] = int64(k + 1)
				held = append(held, i)
			default:
				x := r.IntN(len(held))
				i := held[x]
				if i.payload[1] != int64(k+1) {
					bad("item handed out twice", "item %d is held by goroutine %d, but was written by %d", i.id, k+1, i.payload[1])
				}
				held = append(held[:x], held[x+1:]...)
				give(i)
			}
			if foreign && r.IntN(5) == 0 {
				give(mk())
			}
			if r.IntN(8) == 0 {
				runtime.Gosched()
			}
		}
		for _, i := range held {
			if i.payload[1] != int64(k+1) {
				bad("item handed out twice", "item %d is held by goroutine %d, but was written by %d", i.id, k+1, i.payload[1])
			}
			give(i)
		}
		mu.Lock()
		hist = append(hist, fmt.Sprint(k))
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func() { defer wg.Done(); work(k) }()
	}
	wg.Wait()
	// what is left in the pool
	m0 := atomic.LoadInt64(&made)
	served := atomic.LoadInt64(&borrows) - m0
	left := atomic.LoadInt64(&kept) - served
	if left < 0 || left > int64(size) {
		bad("pool exceeds its size", "%d items are kept in a pool of size %d (%d returned and kept, %d handed out again)", left, size, kept, served)
	}
	seen := map[*poolItem]bool{}
	for n := int64(0); ; n++ {
		i := p.Borrow()
		if atomic.LoadInt64(&made) > m0 {
			if n != left {
				bad("items lost or duplicated", "%d items were kept, %d could be borrowed", left, n)
			}
			break
		}
		if seen[i] {
			bad("item handed out twice", "item %d was borrowed twice at the end", i.id)
			break
		}
		seen[i] = true
	}
	c.Count("pool borrows", borrows)
	c.Count("pool reuse", served)
	c.Saw(core.HashStr(fmt.Sprint(desc, hist, served)))
	c.Sample("%s: %d borrows, %d reused, %d left", desc, borrows, served, left)
}

type statusNode struct {
	rs     sak.RunStatus
	parent *statusNode
	same   *statusNode // shares the halt of this one (WithValue)
	halted bool
	key    any
	name   string
}

func (n *statusNode) down() bool {
	for x := n; x != nil; x = x.parent {
		if x.root().halted {
			return true
		}
	}
	return false
}

func (n *statusNode) root() *statusNode {
	for n.same != nil {
		n = n.same
	}
	return n
}

func (n *statusNode) state() string {
	s := ""
	if n.rs.Running() {
		s += "running "
	}
	if n.rs.Err() == nil {
		s += "noerr "
	}
	select {
	case <-n.rs.Done():
	default:
		s += "notdone "
	}
	if n.rs.Ctx().Err() == nil {
		s += "ctxnoerr "
	}
	return s
}

func runStatusRun(c *core.Ctx) {
	r := c.Rng
	var nodes []*statusNode
	var sb strings.Builder
	var cancels []context.CancelFunc
	var cnodes []*statusNode
	bad := func(kind, f string, a ...any) { c.Violate("C22", kind, "%s\n%s", fmt.Sprintf(f, a...), sb.String()) }
	check := func() bool {
		for _, n := range nodes {
			want := "running noerr notdone ctxnoerr "
			if n.down() {
				want = ""
			}
			if s := n.state(); s != want {
				if want == "" {
					bad("halt did not reach a descendant", "%s should be halted, but is [%s]", n.name, s)
				} else {
					bad("halted although nobody halted it", "%s should be running, but is [%s]", n.name, s)
				}
				return false
			}
			if n.key != nil && n.rs.Ctx().Value(n.key) != n.name {
				bad("value lost", "%s has lost its value", n.name)
				return false
			}
		}
		return true
	}
	add := func() {
		name := fmt.Sprintf("n%d", len(nodes))
		n := &statusNode{name: name}
		var p *statusNode
		if len(nodes) > 0 {
			p = nodes[r.IntN(len(nodes))]
		}
		switch k := r.IntN(8); {
		case k == 0 || p == nil:
			if r.IntN(2) == 0 {
				n.rs = sak.NewRunStatus(nil)
				fmt.Fprintf(&sb, "%s=New(nil) ", name)
				break
			}
			ctx, cancel := context.WithCancel(context.Background())
			cn := &statusNode{name: name + "ctx"}
			n.parent = cn
			cancels, cnodes = append(cancels, cancel), append(cnodes, cn)
			n.rs = sak.NewRunStatus(ctx)
			fmt.Fprintf(&sb, "%s=New(ctx) ", name)
		case k < 3:
			n.key = name
			n.rs = p.rs.WithValue(n.key, name)
			n.same, n.parent = p, p
			fmt.Fprintf(&sb, "%s=%s.WithValue ", name, p.name)
		case k < 4:
			n.rs = sak.NewRunStatus(p.rs.Ctx())
			n.parent = p
			fmt.Fprintf(&sb, "%s=New(%s) ", name, p.name)
		default:
			n.rs = p.rs.Fork()
			n.parent = p
			fmt.Fprintf(&sb, "%s=%s.Fork ", name, p.name)
		}
		nodes = append(nodes, n)
	}
	steps := 2 + r.IntN(30)
	haltP := 2 + r.IntN(6)
	for i := 0; i < steps; i++ {
		if len(nodes) == 0 || r.IntN(haltP) > 0 {
			add()
		} else if len(cancels) > 0 && r.IntN(4) == 0 {
			x := r.IntN(len(cancels))
			cancels[x]()
			cnodes[x].halted = true
			fmt.Fprintf(&sb, "cancel(%s) ", cnodes[x].name)
		} else {
			n := nodes[r.IntN(len(nodes))]
			n.rs.Halt()
			n.root().halted = true
			fmt.Fprintf(&sb, "%s.Halt ", n.name)
		}
		if !check() {
			return
		}
	}
	// concurrent forks and halts
	g := 1 + r.IntN(5)
	type made struct {
		rs sak.RunStatus
		p  *statusNode
	}
	outs := make([][]made, g)
	var halts [][]*statusNode
	for k := 0; k < g; k++ {
		var h []*statusNode
		for i := r.IntN(4); i > 0; i-- {
			h = append(h, nodes[r.IntN(len(nodes))])
		}
		halts = append(halts, h)
	}
	var wg sync.WaitGroup
	for k := 0; k < g; k++ {
		wg.Add(1)
		x := rand.New(rand.NewPCG(r.Uint64(), 2))
		go func() {
			defer wg.Done()
			for _, n := range halts[k] {
				p := nodes[x.IntN(len(nodes))]
				outs[k] = append(outs[k], made{p.rs.Fork(), p})
				n.rs.Halt()
				if n.rs.Running() {
					bad("halt did not reach a descendant", "%s is running after Halt returned", n.name)
				}
			}
		}()
	}
	wg.Wait()
	for k := range halts {
		for _, n := range halts[k] {
			n.root().halted = true
			fmt.Fprintf(&sb, "||%s.Halt ", n.name)
		}
	}
	for k := range outs {
		for _, m := range outs[k] {
			nodes = append(nodes, &statusNode{rs: m.rs, parent: m.p, name: "fork of " + m.p.name})
		}
	}
	check()
	for _, f := range cancels {
		f()
	}
	c.Count("run state checks", int64(len(nodes)*steps))
	c.Saw(core.HashStr(sb.String()))
	c.Sample("%s", sb.String())
}

type listElem struct {
	e  *sak.Element[int]
	in int // which list, -1: none
}

func listRun(c *core.Ctx) {
	r := c.Rng
	nl := 1 + r.IntN(3)
	var lists []*sak.List[int]
	model := make([][]*listElem, nl)
	for i := 0; i < nl; i++ {
		if r.IntN(2) == 0 {
			lists = append(lists, sak.NewList[int]())
		} else {
			lists = append(lists, &sak.List[int]{})
		}
	}
	var all []*listElem
	var sb strings.Builder
	bad := func(kind, f string, a ...any) { c.Violate("C22", kind, "%s\n%s", fmt.Sprintf(f, a...), sb.String()) }
	index := func(l int, e *listElem) int {
		for i, x := range model[l] {
			if x == e {
				return i
			}
		}
		return -1
	}
	ins := func(l, at int, e *listElem) {
		m := append([]*listElem(nil), model[l][:at]...)
		m = append(m, e)
		model[l] = append(m, model[l][at:]...)
		e.in = l
	}
	del := func(l int, e *listElem) {
		i := index(l, e)
		model[l] = append(append([]*listElem(nil), model[l][:i]...), model[l][i+1:]...)
	}
	next := 0
	fresh := func(e *sak.Element[int], v int) *listElem {
		x := &listElem{e: e, in: -1}
		if e == nil || e.Value != v {
			return nil
		}
		all = append(all, x)
		return x
	}
	check := func() bool {
		for l, lst := range lists {
			if lst.Len() != len(model[l]) {
				bad("list length", "list %d has length %d, not %d", l, lst.Len(), len(model[l]))
				return false
			}
			i := 0
			for e := lst.Front(); e != nil; e = e.Next() {
				if i >= len(model[l]) || model[l][i].e != e {
					bad("list order", "list %d differs at %d (forwards)", l, i)
					return false
				}
				i++
			}
			if i != len(model[l]) {
				bad("list order", "list %d ends after %d of %d elements", l, i, len(model[l]))
				return false
			}
			for e := lst.Back(); e != nil; e = e.Prev() {
				i--
				if i < 0 || model[l][i].e != e {
					bad("list order", "list %d differs at %d (backwards)", l, i)
					return false
				}
			}
			if i != 0 {
				bad("list order", "list %d ends early backwards, %d left", l, i)
				return false
			}
		}
		for _, x := range all {
			if x.in < 0 && (x.e.Next() != nil || x.e.Prev() != nil) {
				bad("removed element still linked", "a removed element has neighbours")
				return false
			}
		}
		return true
	}
	ops := 1 + r.IntN(60)
	for o := 0; o < ops; o++ {
		l := r.IntN(nl)
		lst := lists[l]
		k := r.IntN(12)
		if len(all) == 0 && k > 1 && k < 10 {
			k = r.IntN(2)
		}
		var a, b *listElem
		if len(all) > 0 {
			a, b = all[r.IntN(len(all))], all[r.IntN(len(all))]
			if len(model[l]) > 0 && r.IntN(3) > 0 {
				a = model[l][r.IntN(len(model[l]))]
				if r.IntN(2) == 0 {
					b = model[l][r.IntN(len(model[l]))]
				}
			}
		}
		next++
		v := next
		fmt.Fprintf(&sb, "%d.%d ", l, k)
		switch k {
		case 0, 1:
			var e *sak.Element[int]
			at := len(model[l])
			if k == 0 {
				e = lst.PushBack(v)
			} else {
				e = lst.PushFront(v)
				at = 0
			}
			x := fresh(e, v)
			if x == nil {
				bad("wrong element", "a push returned the wrong element")
				return
			}
			ins(l, at, x)
		case 2, 3:
			var e *sak.Element[int]
			at := index(l, a)
			if k == 2 {
				e = lst.InsertBefore(v, a.e)
			} else {
				e = lst.InsertAfter(v, a.e)
				at++
			}
			if a.in != l {
				if e != nil {
					bad("element of another list accepted", "an insertion next to an element of another list returned an element")
					return
				}
				break
			}
			x := fresh(e, v)
			if x == nil {
				bad("wrong element", "an insertion returned the wrong element")
				return
			}
			ins(l, at, x)
		case 4:
			if got := lst.Remove(a.e); got != a.e.Value {
				bad("wrong value removed", "Remove returned %d, not %d", got, a.e.Value)
				return
			}
			if a.in == l {
				del(l, a)
				a.in = -1
			}
		case 5, 6:
			if k == 5 {
				lst.MoveToFront(a.e)
			} else {
				lst.MoveToBack(a.e)
			}
			if a.in == l {
				del(l, a)
				at := 0
				if k == 6 {
					at = len(model[l])
				}
				ins(l, at, a)
			}
		case 7, 8:
			if k == 7 {
				lst.MoveBefore(a.e, b.e)
			} else {
				lst.MoveAfter(a.e, b.e)
			}
			if a.in == l && b.in == l && a != b {
				del(l, a)
				at := index(l, b)
				if k == 8 {
					at++
				}
				ins(l, at, a)
			}
		case 9:
			if r.IntN(4) > 0 {
				break
			}
			// elements of a list which is cleared may not be used any more
			lst.Init()
			var rest []*listElem
			for _, x := range all {
				if x.in != l {
					rest = append(rest, x)
				}
			}
			all, model[l] = rest, nil
		default:
			ol := r.IntN(nl)
			if len(model[ol]) > 40 {
				break
			}
			var vals []int
			for _, x := range model[ol] {
				vals = append(vals, x.e.Value)
			}
			n0 := len(model[l])
			if k == 10 {
				lst.PushBackList(lists[ol])
			} else {
				lst.PushFrontList(lists[ol])
			}
			// adopt the copies
			var es []*sak.Element[int]
			for e := lst.Front(); e != nil && len(es) <= n0+len(vals); e = e.Next() {
				es = append(es, e)
			}
			if len(es) != n0+len(vals) {
				bad("list length", "a list of %d elements has %d after a list of %d was added", n0, len(es), len(vals))
				return
			}
			at := n0
			if k == 11 {
				at = 0
			}
			for i, v := range vals {
				x := &listElem{e: es[at+i]}
				if x.e.Value != v {
					bad("list order", "a copied list has the wrong values")
					return
				}
				all = append(all, x)
				ins(l, at+i, x)
			}
		}
		if !check() {
			return
		}
	}
	c.Count("list operations", int64(ops))
	c.Saw(core.HashStr(sb.String()))
}

func minmax[T sak.Number](c *core.Ctx, name string, gen func() T) {
	n := c.Rng.IntN(6)
	vals := make([]T, n)
	for i := range vals {
		vals[i] = gen()
		if i > 0 && c.Rng.IntN(4) == 0 {
			vals[i] = vals[c.Rng.IntN(i)]
		}
	}
	s := append([]T(nil), vals...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	var lo, hi T
	if n > 0 {
		lo, hi = s[0], s[n-1]
	}
	if g := sak.MinN(vals...); g != lo {
		c.Violate("C22", "wrong minimum", "%s: MinN%v = %v", name, vals, g)
	}
	if g := sak.MaxN(vals...); g != hi {
		c.Violate("C22", "wrong maximum", "%s: MaxN%v = %v", name, vals, g)
	}
	a, b := gen(), gen()
	lo, hi = a, b
	if b < a {
		lo, hi = b, a
	}
	if g := sak.Min(a, b); g != lo {
		c.Violate("C22", "wrong minimum", "%s: Min(%v,%v) = %v", name, a, b, g)
	}
	if g := sak.Max(a, b); g != hi {
		c.Violate("C22", "wrong maximum", "%s: Max(%v,%v) = %v", name, a, b, g)
	}
	c.Saw(core.HashStr(fmt.Sprint(name, vals, a, b)))
}

func absval[T sak.SignedNumber](c *core.Ctx, name string, v T) {
	g := sak.Abs(v)
	if g < 0 || g != v && g != -v {
		c.Violate("C22", "wrong absolute value", "%s: Abs(%v) = %v", name, v, g)
	}
}

type pair struct {
	A int
	B string
}

func helpersRun(c *core.Ctx) {
	r := c.Rng
	i64 := func() int64 { return randInt64(c) }
	small := func() int64 { return int64(r.IntN(7)) - 3 }
	f64 := func() float64 {
		return []float64{0, 1, -1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), r.NormFloat64() * 1e6}[r.IntN(9)]
	}
	for k := 0; k < 20; k++ {
		minmax(c, "int", func() int { return int(i64()) })
		minmax(c, "small", func() int { return int(small()) })
		minmax(c, "int8", func() int8 { return int8(i64()) })
		minmax(c, "int16", func() int16 { return int16(i64()) })
		minmax(c, "int32", func() int32 { return int32(i64()) })
		minmax(c, "int64", i64)
		minmax(c, "uint", func() uint { return uint(i64()) })
		minmax(c, "uint8", func() uint8 { return uint8(i64()) })
		minmax(c, "uint32", func() uint32 { return uint32(i64()) })
		minmax(c, "uint64", func() uint64 { return uint64(i64()) })
		minmax(c, "float64", f64)
		minmax(c, "float32", func() float32 { return float32(small()) / 2 })
		if v := i64(); v != math.MinInt64 {
			absval(c, "int64", v)
		}
		if v := int32(i64()); v != math.MinInt32 {
			absval(c, "int32", v)
		}
		if v := int8(i64()); v != math.MinInt8 {
			absval(c, "int8", v)
		}
		absval(c, "float64", f64())
		absval(c, "small", small())
	}
	n := r.IntN(20)
	in := make([]pair, n)
	for i := range in {
		in[i] = pair{r.IntN(5), randString(c, 4)}
	}
	orig := append([]pair(nil), in...)
	ptrs := sak.ToPtrSlice(in)
	back := sak.ToStructSlice(ptrs)
	if len(ptrs) != n || len(back) != n {
		c.Violate("C22", "slice helpers", "%d values became %d pointers and %d values", n, len(ptrs), len(back))
		return
	}
	distinct := map[*pair]bool{}
	for i := range ptrs {
		distinct[ptrs[i]] = true
		if *ptrs[i] != orig[i] || back[i] != orig[i] {
			c.Violate("C22", "slice helpers", "element %d is %v / %v, not %v", i, *ptrs[i], back[i], orig[i])
			return
		}
		ptrs[i].A += 1000
		if in[i] != orig[i] || back[i] != orig[i] {
			c.Violate("C22", "slice helpers", "a pointer of ToPtrSlice refers to the original slice")
			return
		}
	}
	if len(distinct) != n {
		c.Violate("C22", "slice helpers", "ToPtrSlice has repeated a pointer")
	}
	m := map[int]string{}
	for i := 0; i < n; i++ {
		m[r.IntN(30)] = randString(c, 3)
	}
	cp := sak.MapCopy(m)
	keys := sak.MapKeysToSlice(m)
	vals := sak.MapValuesToSlice(m)
	var wantVals []string
	wantKeys := map[int]bool{}
	for k, v := range m {
		wantKeys[k] = true
		wantVals = append(wantVals, v)
		if w, ok := cp[k]; !ok || w != v {
			c.Violate("C22", "map helpers", "MapCopy lost %d", k)
		}
	}
	for _, k := range keys {
		if !wantKeys[k] {
			c.Violate("C22", "map helpers", "MapKeysToSlice has %d, which is no key or repeated", k)
		}
		delete(wantKeys, k)
	}
	sort.Strings(wantVals)
	sort.Strings(vals)
	if len(cp) != len(m) || len(wantKeys) != 0 || strings.Join(wantVals, "\x00") != strings.Join(vals, "\x00") || len(vals) != len(m) {
		c.Violate("C22", "map helpers", "map of %d: copy %d, keys left %d, values %q instead of %q", len(m), len(cp), len(wantKeys), vals, wantVals)
	}
	cp[-1] = "x"
	if _, ok := m[-1]; ok {
		c.Violate("C22", "map helpers", "MapCopy shares the map")
	}
	v := r.IntN(100)
	pv := sak.Ptr(v)
	*pv++
	if *pv != v+1 || sak.Ptr(v) == sak.Ptr(v) {
		c.Violate("C22", "pointer helper", "Ptr(%d) = %d", v, *pv)
	}
	if (*int)(sak.Noescape(unsafe.Pointer(pv))) != pv {
		c.Violate("C22", "pointer helper", "Noescape is not the identity")
	}
	func() {
		e := error(nil)
		if r.IntN(2) == 0 {
			e = fmt.Errorf("x")
		}
		defer func() {
			if x := recover(); (x != nil) != (e != nil) || x != nil && x != any(e) {
				c.Violate("C22", "must", "Must with error %v: panic %v", e, x)
			}
		}()
		if sak.Must(v, e) != v {
			c.Violate("C22", "must", "Must changed the value")
		}
	}()
	c.Count("helper calls", 20*50)
}
