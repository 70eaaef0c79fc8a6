// Package core is the small frame around all monitors: what a job is, how it reports, and how it draws random choices.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
)

// Job is one process run of the suite binary. Iterations Start..Start+N-1 are run; each derives its own seed.
type Job struct {
	Check   string            `json:"check"`
	Engine  string            `json:"engine"`
	Variant string            `json:"variant"` // plain, instr, race
	Seed    uint64            `json:"seed"`
	Start   int               `json:"start"`
	N       int               `json:"n"`
	Tier    string            `json:"tier"`
	Params  map[string]string `json:"params,omitempty"`
	Out     string            `json:"-"`
}

type Violation struct {
	Prop   string `json:"prop"`
	Kind   string `json:"kind"` // stable signature of what failed
	Detail string `json:"detail"`
	Iter   int    `json:"iter"`
}

type Result struct {
	Violations   []Violation      `json:"violations,omitempty"`
	Counters     map[string]int64 `json:"counters"`
	Distinct     []uint64         `json:"distinct,omitempty"`
	Samples      []string         `json:"samples,omitempty"`
	Inconclusive []string         `json:"inconclusive,omitempty"`
	Done         bool             `json:"done"`
	ExpectExit   string           `json:"expect_exit,omitempty"` // the process is expected to panic with this text
}

// Ctx is handed to an engine for one iteration at a time.
type Ctx struct {
	Job    Job
	T      *testing.T
	Iter   int
	Seed   uint64
	Rng    *rand.Rand
	mu     sync.Mutex
	res    *Result
	dist   map[uint64]struct{}
	counts map[string]int64
	curF   *os.File
}

func Mix(a, b uint64) uint64 {
	x := a ^ (b+1)*0x9E3779B97F4A7C15
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	return x ^ x>>31
}

func HashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (c *Ctx) Param(name, def string) string {
	if v, ok := c.Job.Params[name]; ok {
		return v
	}
	return def
}

func (c *Ctx) Thorough() bool { return c.Job.Tier == "thorough" }

// Violate records a violation. kind is a short stable signature.
func (c *Ctx) Violate(prop, kind, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Violations) < 50 {
		d := fmt.Sprintf(format, args...)
		if len(d) > 30000 {
			d = d[:30000] + "..."
		}
		c.res.Violations = append(c.res.Violations, Violation{prop, kind, d, c.Iter})
	}
}

func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.res.Violations)
}

func (c *Ctx) Inconclusive(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Inconclusive) < 20 {
		c.res.Inconclusive = append(c.res.Inconclusive, fmt.Sprintf(format, args...))
	}
	c.counts["inconclusive"]++
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}

// Saw records a fingerprint of a distinct, non-trivial case.
func (c *Ctx) Saw(h uint64) {
	c.mu.Lock()
	if len(c.dist) < 400000 {
		c.dist[h] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) Sample(format string, args ...any) {
	c.mu.Lock()
	if len(c.res.Samples) < 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		c.res.Samples = append(c.res.Samples, s)
	}
	c.mu.Unlock()
}

// Guard runs f and turns a panic into a violation.
func (c *Ctx) Guard(prop, kind string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c.Violate(prop, kind, "panic: %v\n%s", r, trimStack(string(debug.Stack())))
			ok = false
		}
	}()
	f()
	return true
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

type Engine func(c *Ctx)

var engines = map[string]Engine{}

func Register(name string, e Engine) {
	if _, dup := engines[name]; dup {
		panic("duplicate engine " + name)
	}
	engines[name] = e
}

func Engines() []string {
	var l []string
	for k := range engines {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var current *Ctx

// Flush writes what has been observed so far. done marks a completed job.
func (c *Ctx) Flush(done bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Done = done
	c.res.Counters = c.counts
	c.res.Distinct = c.res.Distinct[:0]
	for h := range c.dist {
		c.res.Distinct = append(c.res.Distinct, h)
	}
	b, _ := json.Marshal(c.res)
	tmp := c.Job.Out + ".tmp"
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, c.Job.Out)
}

// ExpectExit announces that the code under test is about to end the process with a panic that contains s.
func (c *Ctx) ExpectExit(s string) {
	c.mu.Lock()
	c.res.ExpectExit = s
	c.mu.Unlock()
	if s != "" {
		c.Count("evaluations", 1)
		c.Flush(false)
		c.Count("evaluations", -1)
	}
}

// Finish writes the result and ends the process at once (used by engines that leave goroutines behind).
func (c *Ctx) Finish() {
	c.Count("evaluations", 1)
	c.Flush(true)
	os.Exit(0)
}

// RunJob runs a job in this process.
func RunJob(t *testing.T, j Job) {
	e, ok := engines[j.Engine]
	if !ok {
		t.Fatalf("no engine %q", j.Engine)
	}
	c := &Ctx{Job: j, T: t, res: &Result{}, dist: map[uint64]struct{}{}, counts: map[string]int64{}}
	current = c
	cur, _ := os.Create(j.Out + ".cur")
	c.curF = cur
	for i := j.Start; i < j.Start+j.N; i++ {
		c.Iter = i
		c.Seed = Mix(j.Seed, uint64(i))
		c.Rng = rand.New(rand.NewPCG(c.Seed, 0x5eed))
		if cur != nil {
			cur.WriteAt([]byte(fmt.Sprintf("%012d", i)), 0)
		}
		e(c)
		c.Count("evaluations", 1)
		if c.Violations() > 5 {
			break
		}
	}
	c.Flush(true)
}
