package comp

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"verifh/core"
)

func init() { core.Register("batch", batchEngine) }

type batchItem struct {
	ev         *batchEvent
	idx, key   int
	executed   int
	batchNo    int64 // sequence of the batch start
	pos        int
	start, end int64
}

type batchEvent struct {
	adder, seq, key  int
	foreign          bool // has items of other keys
	items            []*batchItem
	called, returned int64
	callbacks        int
	cbAt             int64
	ec               *streams.EventContext[nilStore]
	b                *streams.BatchItems[nilStore, int, *batchItem]
}

func batchEngine(c *core.Ctx) {
	r := c.Rng
	const prop = "C09"
	stop := c.Watch(prop, "livelock", 25*time.Second, 200*time.Second, nil)
	defer stop()
	maxSize := 1 + r.IntN(8)
	if r.IntN(6) == 0 {
		maxSize = 100
	}
	maxConc := 1 + r.IntN(4)
	delay := []time.Duration{0, time.Millisecond, 20 * time.Millisecond, -3 * time.Millisecond}[r.IntN(4)]
	adders := 1 + r.IntN(3)
	per := 1 + r.IntN(30)
	if r.IntN(10) == 0 {
		per = 150
	}
	keys := 1 + r.IntN(6)
	if r.IntN(4) == 0 {
		keys = 50
	}
	maxItems := 1 + r.IntN(4)
	if r.IntN(5) == 0 {
		maxItems = 20
	}
	zeroProb := r.IntN(5)
	foreignProb := r.IntN(2) * r.IntN(5)
	shuffle := r.IntN(3) == 0
	nilCb := r.IntN(15) == 0
	maxDur := []time.Duration{0, 50 * time.Microsecond, 3 * time.Millisecond, 100 * time.Millisecond}[r.IntN(4)]
	chanCap := r.IntN(4)
	gapMax := []int{1, 300, 5000}[r.IntN(3)]
	desc := fmt.Sprintf("maxSize=%d maxConc=%d delay=%v adders=%d per=%d keys=%d maxItems=%d zero=%d foreign=%d shuffle=%v maxDur=%v cap=%d gap=%d", maxSize, maxConc, delay, adders, per, keys, maxItems, zeroProb, foreignProb, shuffle, maxDur, chanCap, gapMax)
	core.ApplyPerturb(perturbFor(r, 2*time.Millisecond))
	defer core.ApplyPerturb(core.Perturb{})
	execSeed := r.Uint64()
	var events [][]*batchEvent
	total := 0
	for a := 0; a < adders; a++ {
		var l []*batchEvent
		for i := 0; i < per; i++ {
			e := &batchEvent{adder: a, seq: i, key: r.IntN(keys)}
			if r.IntN(5) >= zeroProb {
				for k := 1 + r.IntN(maxItems); k > 0; k-- {
					it := &batchItem{ev: e, idx: len(e.items), key: e.key}
					if r.IntN(5) < foreignProb {
						it.key = r.IntN(keys)
						e.foreign = e.foreign || it.key != e.key
					}
					e.items = append(e.items, it)
				}
			}
			total += len(e.items)
			l = append(l, e)
		}
		events = append(events, l)
	}

	synctest.Test(c.T, func(t *testing.T) {
		var mu sync.Mutex
		var clock, batches int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		fail := func(kind, f string, a ...any) { c.Violate(prop, kind, "%s\n%s", fmt.Sprintf(f, a...), desc) }
		er := rand.New(rand.NewPCG(execSeed, 3))
		running := 0
		keyRunning := map[int]int{}
		var order []*batchItem
		maxRunning := 0
		exec := func(batch []*streams.BatchItem[int, *batchItem]) {
			mu.Lock()
			running++
			if running > maxRunning {
				maxRunning = running
			}
			if running > maxConc {
				fail("concurrency bound", "%d batches running, limit %d", running, maxConc)
			}
			if len(batch) > maxSize || len(batch) == 0 {
				fail("batch size", "batch of %d items, limit %d", len(batch), maxSize)
			}
			batches++
			no := batches
			seen := map[int]bool{}
			orig := append([]*streams.BatchItem[int, *batchItem]{}, batch...)
			for pos, bi := range orig {
				it := bi.Value
				if it == nil {
					fail("item lost its value", "batch item without value, key %v", bi.Key())
					continue
				}
				if bi.Key() != it.key {
					fail("item key", "item %d/%d/%d of key %d executed with key %d", it.ev.adder, it.ev.seq, it.idx, it.key, bi.Key())
				}
				it.executed++
				if it.executed > 1 {
					fail("executed twice", "item %d/%d/%d executed %d times", it.ev.adder, it.ev.seq, it.idx, it.executed)
				}
				if it.ev.callbacks > 0 {
					fail("callback before execution", "item %d/%d/%d executed after the callback of its event", it.ev.adder, it.ev.seq, it.idx)
				}
				it.batchNo, it.pos, it.start = no, pos, tick()
				seen[it.key] = true
				order = append(order, it)
			}
			for k := range seen {
				keyRunning[k]++
				if keyRunning[k] > 1 {
					fail("key exclusivity", "key %d is in %d running batches", k, keyRunning[k])
				}
			}
			dur := time.Duration(0)
			if maxDur > 0 {
				dur = time.Duration(er.Int64N(int64(maxDur)))
			}
			mu.Unlock()
			if dur > 0 {
				time.Sleep(dur)
			} else {
				runtime.Gosched()
			}
			mu.Lock()
			for i, bi := range orig {
				if bi.Value == nil {
					continue
				}
				bi.UserData = bi.Value
				bi.Err = fmt.Errorf("%d/%d/%d", bi.Value.ev.adder, bi.Value.ev.seq, bi.Value.idx)
				bi.Value.end = tick()
				_ = i
			}
			if shuffle {
				er.Shuffle(len(batch), func(i, j int) { batch[i], batch[j] = batch[j], batch[i] })
			}
			for k := range seen {
				keyRunning[k]--
			}
			running--
			mu.Unlock()
		}
		b := streams.NewAsyncBatcher[nilStore, int, *batchItem](exec, maxSize, maxConc, delay)
		byB := map[*streams.BatchItems[nilStore, int, *batchItem]]*batchEvent{}
		done := 0
		cb := func(ec *streams.EventContext[nilStore], bi *streams.BatchItems[nilStore, int, *batchItem]) streams.ExecutionState {
			mu.Lock()
			defer mu.Unlock()
			e := byB[bi]
			if e == nil {
				fail("unknown callback", "callback with an unknown batch")
				return streams.Complete
			}
			e.callbacks++
			e.cbAt = tick()
			if e.callbacks > 1 {
				fail("callback twice", "event %d/%d: callback fired %d times", e.adder, e.seq, e.callbacks)
				return streams.Complete
			}
			done++
			if ec != e.ec || bi.Key() != e.key {
				fail("callback arguments", "event %d/%d: callback with a different event or key", e.adder, e.seq)
			}
			if len(bi.Items()) != len(e.items) {
				fail("callback items", "event %d/%d: %d items, want %d", e.adder, e.seq, len(bi.Items()), len(e.items))
				return streams.Complete
			}
			for i, x := range bi.Items() {
				it := e.items[i]
				if x.Value != it || x.Key() != it.key {
					fail("callback items", "event %d/%d: item %d is another one", e.adder, e.seq, i)
				}
				if it.executed == 0 || it.end == 0 {
					fail("callback before execution", "event %d/%d: callback before item %d was executed", e.adder, e.seq, i)
				} else if x.UserData != any(it) || x.Err == nil || x.Err.Error() != fmt.Sprintf("%d/%d/%d", e.adder, e.seq, i) {
					fail("result lost", "event %d/%d item %d: callback sees UserData %v Err %v", e.adder, e.seq, i, x.UserData, x.Err)
				}
			}
			return streams.Complete
		}
		var ecb streams.BatchCallback[nilStore, int, *batchItem] = cb
		if nilCb {
			ecb = nil
		}
		finished := make(chan struct{})
		var wg sync.WaitGroup
		var nilDone atomic.Int64
		quit := make(chan struct{})
		for a := range events {
			comp := completer{make(chan streams.AsyncJob[nilStore], chanCap)}
			go func() {
				for {
					select {
					case j := <-comp.ch:
						if st := j.Finalize(); st != streams.Complete {
							fail("callback result lost", "finalizer returned %v", st)
						}
						if nilCb {
							nilDone.Add(1)
						}
					case <-quit:
						return
					}
				}
			}()
			wg.Add(1)
			pr := rand.New(rand.NewPCG(execSeed, uint64(10+a)))
			go func() {
				defer wg.Done()
				for _, e := range events[a] {
					if pr.IntN(3) == 0 {
						time.Sleep(time.Duration(pr.IntN(gapMax)) * time.Microsecond)
					}
					e.ec = streams.MockEventContext[nilStore](context.Background(), nil, "", nilStore{}, comp, nil)
					e.b = streams.NewBatchItems[nilStore, int, *batchItem](e.ec, e.key, ecb)
					for i := 0; i < len(e.items); {
						it := e.items[i]
						if it.key != e.key {
							e.b.AddWithKey(it.key, it)
							i++
							continue
						}
						var run []*batchItem
						for i < len(e.items) && e.items[i].key == e.key && len(run) < 3 {
							run = append(run, e.items[i])
							i++
						}
						e.b.Add(run...)
					}
					mu.Lock()
					byB[e.b] = e
					e.called = tick()
					mu.Unlock()
					st := b.Add(e.b)
					mu.Lock()
					e.returned = tick()
					mu.Unlock()
					if st != streams.Incomplete {
						fail("Add result", "Add returned %v", st)
					}
				}
			}()
		}
		go func() {
			wg.Wait()
			for {
				mu.Lock()
				d := done
				mu.Unlock()
				if nilCb {
					d = int(nilDone.Load())
				}
				if d >= adders*per {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			close(finished)
		}()
		limit := time.Minute + time.Duration(total+adders*per)*(maxDur+60*time.Millisecond)
		select {
		case <-finished:
		case <-time.After(limit):
			mu.Lock()
			var un []string
			for _, l := range events {
				for _, e := range l {
					if e.callbacks == 0 && !nilCb && len(un) < 10 {
						un = append(un, fmt.Sprintf("event %d/%d key %d items %d added=%v", e.adder, e.seq, e.key, len(e.items), e.returned != 0))
					}
				}
			}
			c.Violate(prop, "callback never fired", "after %v: %s\n%s\n%s", limit, strings.Join(un, "; "), desc, core.Stacks())
			c.Finish()
		}
		time.Sleep(10*time.Second + maxDur) // late duplicates
		close(quit)
		mu.Lock()
		defer mu.Unlock()
		h := core.HashStr(desc)
		for _, it := range order {
			h = core.Mix(h, uint64(it.ev.adder)<<40|uint64(it.ev.seq)<<20|uint64(it.idx)<<12|uint64(it.batchNo))
		}
		for a, l := range events {
			lastItem := map[int]*batchItem{}
			lastCb := map[int]*batchEvent{}
			for _, e := range l {
				for _, it := range e.items {
					if it.executed != 1 {
						fail("not exactly once", "item %d/%d/%d executed %d times", a, e.seq, it.idx, it.executed)
					}
					if p := lastItem[it.key]; p != nil && (p.batchNo > it.batchNo || p.batchNo == it.batchNo && p.pos > it.pos) {
						fail("key order", "key %d: item %d/%d/%d (batch %d pos %d) executed before %d/%d/%d (batch %d pos %d)", it.key, a, e.seq, it.idx, it.batchNo, it.pos, a, p.ev.seq, p.idx, p.batchNo, p.pos)
					}
					lastItem[it.key] = it
				}
				if !nilCb && !e.foreign {
					if p := lastCb[e.key]; p != nil && p.cbAt > e.cbAt {
						fail("callback order", "key %d: callback of event %d/%d (%d items) before that of %d (%d items)", e.key, a, e.seq, len(e.items), p.seq, len(p.items))
					}
					lastCb[e.key] = e
				}
			}
		}
		// across adders, by real time
		last := map[int]*batchItem{}
		for _, it := range order {
			if p := last[it.key]; p != nil && it.ev.returned != 0 && it.ev.returned < p.ev.called {
				fail("key order", "key %d: item %d/%d was added before %d/%d but executed after it", it.key, it.ev.adder, it.ev.seq, p.ev.adder, p.ev.seq)
			}
			last[it.key] = it
		}
		c.Count("batches", batches)
		c.Count("items_executed", int64(len(order)))
		c.Count("callbacks", int64(done))
		if maxRunning == maxConc && maxConc > 1 {
			c.Count("cases_reaching_the_concurrency_limit", 1)
		}
		if len(order) > 1 {
			c.Saw(h)
		}
		c.Sample("%s -> %d batches", desc, batches)
	})
	_, nh := core.PerturbSites()
	c.Count("perturb_sleeps", nh)
}
