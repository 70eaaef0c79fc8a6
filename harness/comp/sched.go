package comp

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
	"verifh/core"
)

func init() { core.Register("sched", schedEngine) }

// nilStore satisfies streams.StateStore.
type nilStore struct{}

func (nilStore) ReceiveChange(streams.IncomingRecord) error { return nil }
func (nilStore) Revoked()                                   {}

type completer struct {
	ch chan streams.AsyncJob[nilStore]
}

func (c completer) AsyncComplete(j streams.AsyncJob[nilStore]) { c.ch <- j }

type schedJob struct {
	part, seq, key                  int
	token                           int64
	err                             error
	called, returned                int64 // logical clock around Schedule
	state                           streams.ExecutionState
	procStart, procEnd              int64
	processed, finalized            int
	finAt                           int64
	ec                              *streams.EventContext[nilStore]
	dur                             time.Duration
	scheduledBefore, afterHaltStart bool
}

type schedKey struct{ k int }

// perturbFor draws a schedule perturbation. In plain builds it has no effect.
func perturbFor(r *rand.Rand, maxSleep time.Duration) core.Perturb {
	p := core.Perturb{Seed: r.Uint64()}
	switch r.IntN(5) {
	case 0:
	case 1:
		p.YieldProb = uint32(r.IntN(65536))
	default:
		p.YieldProb = uint32(r.IntN(20000))
		p.SiteProb = uint32(2000 + r.IntN(30000))
		p.SleepProb = uint32(200 + r.IntN(30000))
		p.MaxSleep = time.Duration(1+r.IntN(int(maxSleep/time.Microsecond))) * time.Microsecond
		p.MaxHits = 400
	}
	return p
}

func schedEngine(c *core.Ctx) {
	r := c.Rng
	const prop = "C08"
	stop := c.Watch(prop, "livelock", 25*time.Second, 200*time.Second, nil)
	defer stop()
	conc := 1 + r.IntN(4)
	if r.IntN(6) == 0 {
		conc = 1 + r.IntN(16)
	}
	cfg := streams.SchedulerConfig{Concurrency: conc, WorkerQueueDepth: r.IntN(6), MaxConcurrentKeys: r.IntN(8)}
	if r.IntN(5) == 0 {
		cfg.WorkerQueueDepth = 20 + r.IntN(30)
	}
	parts := 1 + r.IntN(3)
	perPart := 1 + r.IntN(40)
	if r.IntN(8) == 0 {
		perPart = 200
	}
	keys := 1 + r.IntN(6)
	if r.IntN(4) == 0 {
		keys = 40
	}
	reconf := r.IntN(2) == 0
	mode := r.IntN(4) // 0,1: run to the end; 2: halt at a random time; 3: halt then keep scheduling
	halt := mode >= 2
	maxDur := []time.Duration{0, 50 * time.Microsecond, 2 * time.Millisecond, 200 * time.Millisecond}[r.IntN(4)]
	nilFinalizer := r.IntN(10) == 0
	chanCap := r.IntN(3)
	if r.IntN(2) == 0 {
		chanCap = parts * perPart
	}
	desc := fmt.Sprintf("conc=%d depth=%d maxKeys=%d parts=%d perPart=%d keys=%d reconf=%v halt=%v maxDur=%v cap=%d", conc, cfg.WorkerQueueDepth, cfg.MaxConcurrentKeys, parts, perPart, keys, reconf, halt, maxDur, chanCap)
	core.ApplyPerturb(perturbFor(r, 2*time.Millisecond))
	defer core.ApplyPerturb(core.Perturb{})

	synctest.Test(c.T, func(t *testing.T) {
		var mu sync.Mutex
		var clock int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		running := map[int]int{} // key -> jobs running
		total, maxTotal := 0, 0
		var order []*schedJob // in order of processing start
		byTok := map[int64]*schedJob{}
		var jobs [][]*schedJob
		var tok int64
		var bad []string
		fail := func(kind, f string, a ...any) {
			bad = append(bad, kind)
			c.Violate(prop, kind, "%s\n%s", fmt.Sprintf(f, a...), desc)
		}
		rs := sak.NewRunStatus(context.Background())
		proc := func(k schedKey, v int64) error {
			mu.Lock()
			j := byTok[v]
			if j == nil {
				fail("unknown job", "processor called with unknown value %d key %v", v, k)
				mu.Unlock()
				return nil
			}
			if j.key != k.k {
				fail("job/key mismatch", "value of key %d processed with key %d", j.key, k.k)
			}
			j.processed++
			if j.processed > 1 {
				fail("processed twice", "job %d/%d processed %d times", j.part, j.seq, j.processed)
			}
			running[k.k]++
			if running[k.k] > 1 {
				fail("key concurrency", "key %d has %d jobs running", k.k, running[k.k])
			}
			total++
			if total > maxTotal {
				maxTotal = total
			}
			if total > conc {
				fail("concurrency bound", "%d jobs running, concurrency %d", total, conc)
			}
			j.procStart = tick()
			order = append(order, j)
			mu.Unlock()
			if j.dur > 0 {
				time.Sleep(j.dur)
			} else {
				runtime.Gosched()
			}
			mu.Lock()
			running[k.k]--
			total--
			j.procEnd = tick()
			mu.Unlock()
			return j.err
		}
		var fin streams.AsyncJobFinalizer[nilStore, schedKey, int64] = func(ec *streams.EventContext[nilStore], k schedKey, v int64, err error) streams.ExecutionState {
			mu.Lock()
			defer mu.Unlock()
			j := byTok[v]
			if j == nil {
				fail("unknown job", "finalizer called with unknown value %d", v)
				return streams.Complete
			}
			j.finalized++
			j.finAt = tick()
			if j.finalized > 1 {
				fail("finalized twice", "job %d/%d finalized %d times", j.part, j.seq, j.finalized)
			}
			if j.processed == 0 || j.procEnd == 0 {
				fail("finalized unprocessed", "job %d/%d finalized before it was processed", j.part, j.seq)
			}
			if ec != j.ec || k.k != j.key || err != j.err {
				fail("finalizer arguments", "job %d/%d key %d: finalizer got key %v err %v (want %v) same event %v", j.part, j.seq, j.key, k, err, j.err, ec == j.ec)
			}
			return streams.Complete
		}
		if nilFinalizer {
			fin = nil
		}
		s, err := streams.NewAsyncJobScheduler[nilStore, schedKey, int64](rs, proc, fin, cfg)
		if err != nil {
			c.Violate(prop, "constructor", "%v for %+v", err, cfg)
			return
		}
		errX := errors.New("job error")
		for p := 0; p < parts; p++ {
			l := make([]*schedJob, perPart)
			for i := range l {
				tok++
				j := &schedJob{part: p, seq: i, key: r.IntN(keys), token: tok}
				if r.IntN(3) == 0 {
					j.err = errX
				}
				if maxDur > 0 {
					j.dur = time.Duration(r.Int64N(int64(maxDur)))
				}
				l[i] = j
				byTok[tok] = j
			}
			jobs = append(jobs, l)
		}
		gaps := make([]uint64, parts)
		for p := range gaps {
			gaps[p] = r.Uint64()
		}
		var haltStart, haltDone atomic.Int64
		var wg sync.WaitGroup
		nProcessed := func() (n int) {
			mu.Lock()
			defer mu.Unlock()
			for _, l := range jobs {
				for _, j := range l {
					if nilFinalizer && j.procEnd != 0 || j.finalized > 0 {
						n++
					}
				}
			}
			return
		}
		for p := 0; p < parts; p++ {
			// completions of a partition may be handled by the same loop that schedules (as in the library) or concurrently
			comp := completer{make(chan streams.AsyncJob[nilStore], chanCap)}
			quit := make(chan struct{})
			separate := chanCap < parts*perPart
			if separate {
				go func() {
					for {
						select {
						case j := <-comp.ch:
							j.Finalize()
						case <-quit:
							return
						}
					}
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				pr := rand.New(rand.NewPCG(gaps[p], 1))
				for _, j := range jobs[p] {
					if !separate {
						for drained := false; !drained; {
							select {
							case x := <-comp.ch:
								x.Finalize()
							default:
								drained = true
							}
						}
					}
					if pr.IntN(4) == 0 {
						time.Sleep(time.Duration(pr.IntN(2000)) * time.Microsecond)
					}
					mu.Lock()
					j.ec = streams.MockEventContext[nilStore](context.Background(), nil, "", nilStore{}, comp, nil)
					j.called = tick()
					mu.Unlock()
					hs := haltDone.Load() != 0
					st := s.Schedule(j.ec, schedKey{j.key}, j.token)
					mu.Lock()
					j.returned = tick()
					j.state = st
					j.scheduledBefore = haltStart.Load() == 0
					j.afterHaltStart = hs
					if st == streams.Complete && j.processed == 0 {
						fail("reported complete without processing", "Schedule of job %d/%d returned Complete, halted=%v", p, j.seq, hs)
					}
					mu.Unlock()
				}
				// finish
				ch := comp.ch
				if separate {
					ch = nil
				}
				for {
					select {
					case x := <-ch:
						x.Finalize()
					case <-quit:
						return
					case <-time.After(time.Millisecond):
						if nProcessed() == parts*perPart || haltDone.Load() != 0 {
							return
						}
					}
				}
			}()
			defer close(quit)
		}
		stopReconf := make(chan struct{})
		var rwg sync.WaitGroup
		if reconf {
			rwg.Add(1)
			rr := rand.New(rand.NewPCG(r.Uint64(), 2))
			go func() {
				defer rwg.Done()
				for i := 0; i < 30; i++ {
					select {
					case <-stopReconf:
						return
					case <-time.After(time.Duration(rr.IntN(3000)) * time.Microsecond):
					}
					if rr.IntN(3) == 0 {
						s.SetWorkerQueueDepth(rr.IntN(8))
					} else {
						n := rr.IntN(10)
						if rr.IntN(4) == 0 {
							n = rr.IntN(60)
						}
						s.SetMaxConcurrentKeys(n)
					}
					c.Count("reconfigurations", 1)
				}
			}()
		}
		haltAt := time.Duration(0)
		if halt {
			haltAt = time.Duration(r.IntN(20000)) * time.Microsecond
			go func() {
				time.Sleep(haltAt)
				haltStart.Store(1)
				rs.Halt()
				haltDone.Store(1)
			}()
		}
		all := make(chan struct{})
		go func() { wg.Wait(); close(all) }()
		limit := 2*time.Minute + time.Duration(parts*perPart)*(maxDur+30*time.Millisecond)
		select {
		case <-all:
		case <-time.After(limit):
			mu.Lock()
			kind := "job never finished"
			if halt {
				kind = "caller blocked after shutdown"
			}
			var un []string
			for _, l := range jobs {
				for _, j := range l {
					if j.called != 0 && j.returned == 0 {
						un = append(un, fmt.Sprintf("Schedule of %d/%d key %d has not returned", j.part, j.seq, j.key))
					} else if j.finalized == 0 && j.called != 0 {
						un = append(un, fmt.Sprintf("%d/%d key %d processed=%d", j.part, j.seq, j.key, j.processed))
					}
				}
			}
			if len(un) > 10 {
				un = un[:10]
			}
			c.Violate(prop, kind, "after %v: %s\n%s\n%s", limit, strings.Join(un, "; "), desc, core.Stacks())
			c.Finish()
		}
		close(stopReconf)
		rwg.Wait()
		if halt && mode == 3 {
			// nothing may be reported complete now
			for haltDone.Load() == 0 {
				time.Sleep(time.Millisecond)
			}
			ec := streams.MockEventContext[nilStore](context.Background(), nil, "", nilStore{}, completer{make(chan streams.AsyncJob[nilStore], 4)}, nil)
			ret := make(chan streams.ExecutionState, 1)
			go func() { ret <- s.Schedule(ec, schedKey{1000}, -1) }()
			select {
			case st := <-ret:
				if st == streams.Complete {
					fail("reported complete without processing", "Schedule after shutdown returned Complete")
				}
			case <-time.After(time.Minute):
				c.Violate(prop, "caller blocked after shutdown", "Schedule after shutdown does not return\n%s\n%s", desc, core.Stacks())
				c.Finish()
			}
		}
		rs.Halt()
		time.Sleep(10*time.Second + maxDur)
		mu.Lock()
		// per key: processing order respects the order of scheduling
		last := map[int]*schedJob{}
		lastPart := map[[2]int]int{}
		h := core.HashStr(desc)
		for _, j := range order {
			h = core.Mix(h, uint64(j.part)<<40|uint64(j.seq)<<8|uint64(j.key))
			if l := last[j.key]; l != nil && j.returned != 0 && j.returned < l.called {
				fail("key order", "key %d: job %d/%d was scheduled before %d/%d but processed after it", j.key, j.part, j.seq, l.part, l.seq)
			}
			if l, ok := lastPart[[2]int{j.part, j.key}]; ok && l >= j.seq {
				fail("key order", "key %d partition %d: job %d processed after job %d", j.key, j.part, j.seq, l)
			}
			last[j.key] = j
			lastPart[[2]int{j.part, j.key}] = j.seq
		}
		for _, l := range jobs {
			lf := map[int]*schedJob{}
			for _, j := range l {
				if !nilFinalizer && j.finalized > 0 {
					if x := lf[j.key]; x != nil && x.finAt > j.finAt {
						fail("finalizer order", "key %d: job %d/%d finalized after %d", j.key, x.part, x.seq, j.seq)
					}
					lf[j.key] = j
				}
				if !halt && (j.processed != 1 || !nilFinalizer && j.finalized != 1) {
					fail("not exactly once", "job %d/%d processed %d times finalized %d times", j.part, j.seq, j.processed, j.finalized)
				}
			}
		}
		c.Count("jobs_processed", int64(len(order)))
		if maxTotal == conc && conc > 1 {
			c.Count("cases_reaching_the_concurrency_limit", 1)
		}
		if halt {
			c.Count("halts", 1)
		}
		mu.Unlock()
		if len(order) > 1 {
			c.Saw(h)
		}
		c.Sample("%s -> %d processed", desc, len(order))
	})
	ns, nh := core.PerturbSites()
	c.Count("perturb_sleeps", nh)
	_ = ns
}
