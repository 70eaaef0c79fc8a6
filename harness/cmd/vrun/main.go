// Command vrun runs the check of one property: it builds the suite from the tree under test, spreads the jobs of the check over the
// cores, collects what the monitors observed and decides.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Job struct {
	Check   string            `json:"check"`
	Engine  string            `json:"engine"`
	Variant string            `json:"variant"`
	Seed    uint64            `json:"seed"`
	Start   int               `json:"start"`
	N       int               `json:"n"`
	Tier    string            `json:"tier"`
	Params  map[string]string `json:"params,omitempty"`
}

type Violation struct {
	Prop   string `json:"prop"`
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	Iter   int    `json:"iter"`
}

type Result struct {
	Violations   []Violation      `json:"violations,omitempty"`
	Counters     map[string]int64 `json:"counters"`
	Distinct     []uint64         `json:"distinct,omitempty"`
	Samples      []string         `json:"samples,omitempty"`
	Inconclusive []string         `json:"inconclusive,omitempty"`
	Done         bool             `json:"done"`
	ExpectExit   string           `json:"expect_exit,omitempty"`
}

type finding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // regular expression on the violation's signature
	Detail   string `json:"detail,omitempty"`
	What     string `json:"what"`
	Status   string `json:"status"` // known, fixed
	Commit   string `json:"commit,omitempty"`
}

var (
	verif = "/verif"
	repo  = "/repo"
	work  string
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func goEnv() []string {
	e := os.Environ()
	e = append(e, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=readonly")
	return e
}

func run(dir string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = goEnv()
	b, err := c.CombinedOutput()
	return string(b), err
}

type binary struct {
	path string
	err  string
	dir  string
}

// build makes one variant of a suite binary. Variants: plain, instr, race (instrumented + race detector), msk, mskrace.
func build(variant string) binary {
	h := filepath.Join(verif, "harness")
	if strings.HasPrefix(variant, "msk") {
		h = filepath.Join(verif, "harness-msk")
	}
	out := filepath.Join(work, variant)
	os.MkdirAll(out, 0o755)
	gm, err := os.ReadFile(filepath.Join(h, "go.mod"))
	if err != nil {
		return binary{err: err.Error()}
	}
	mod := strings.ReplaceAll(string(gm), "/repo/", repo+"/")
	gs, _ := os.ReadFile(filepath.Join(h, "go.sum"))
	args := []string{"test", "-c", "-o", filepath.Join(out, "suite.test"), "-modfile=" + filepath.Join(out, "go.mod"), "-vet=off"}
	if variant == "instr" || variant == "race" {
		client, e := run(h, "go", "list", "-m", "-f", "{{.Dir}}", "github.com/twmb/franz-go")
		if e != nil {
			return binary{err: "go list: " + client}
		}
		instr := filepath.Join(out, "instr")
		if o, e := run(h, "go", "build", "-o", instr, "./cmd/instr"); e != nil {
			return binary{err: "instr build: " + o}
		}
		if o, e := run(h, instr, "-out", out, "-vsync", filepath.Join(h, "vsyncsrc/vsync.go.txt"), "-repo", filepath.Join(repo, "streams"), "-client", strings.TrimSpace(client)); e != nil {
			return binary{err: "instr: " + o}
		}
		mod += "\nreplace github.com/twmb/franz-go => " + filepath.Join(out, "franz-go") + "\n"
		args = append(args, "-overlay", filepath.Join(out, "overlay.json"), "-tags", "instr")
	}
	if strings.HasSuffix(variant, "race") {
		args = append(args, "-race")
	}
	os.WriteFile(filepath.Join(out, "go.mod"), []byte(mod), 0o644)
	os.WriteFile(filepath.Join(out, "go.sum"), gs, 0o644)
	args = append(args, "./suite")
	if o, e := run(h, "go", args...); e != nil {
		if len(o) > 4000 {
			o = o[:4000]
		}
		return binary{err: o}
	}
	return binary{path: filepath.Join(out, "suite.test"), dir: out}
}

type outcome struct {
	job     Job
	res     Result
	have    bool
	exit    int
	timeout bool
	output  string
	secs    float64
}

func runJob(ctx context.Context, bin string, j Job, id int, timeout time.Duration, procs int) outcome {
	base := filepath.Join(work, fmt.Sprintf("job%05d", id))
	jf, of := base+".json", base+".out"
	b, _ := json.Marshal(j)
	os.WriteFile(jf, b, 0o644)
	os.Remove(of)
	scratch := base + ".d"
	os.MkdirAll(scratch, 0o755)
	defer os.RemoveAll(scratch)
	defer os.Remove(jf)
	defer os.Remove(of)
	defer os.Remove(of + ".cur")
	t0 := time.Now()
	cctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	c := exec.CommandContext(cctx, bin, "-test.run", "^TestJob$", "-test.timeout", "0")
	c.Dir = scratch
	c.Env = append(os.Environ(), "VJOB="+jf, "VOUT="+of, "GOTRACEBACK=all", "TMPDIR="+scratch, "GOMEMLIMIT=3GiB",
		"GORACE=halt_on_error=0 exitcode=66 history_size=3 atexit_sleep_ms=0")
	if procs > 0 {
		c.Env = append(c.Env, "GOMAXPROCS="+strconv.Itoa(procs))
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGQUIT) }
	c.WaitDelay = 3 * time.Second
	var buf limited
	c.Stdout, c.Stderr = &buf, &buf
	err := c.Run()
	if c.Process != nil {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	}
	o := outcome{job: j, output: buf.String(), secs: time.Since(t0).Seconds()}
	if cctx.Err() != nil && err != nil {
		o.timeout = true
	}
	if c.ProcessState != nil {
		o.exit = c.ProcessState.ExitCode()
	} else {
		o.exit = -2
	}
	if rb, e := os.ReadFile(of); e == nil && json.Unmarshal(rb, &o.res) == nil {
		o.have = true
	}
	if cb, e := os.ReadFile(of + ".cur"); e == nil && len(cb) >= 12 {
		o.job.Params = copyMap(j.Params)
		o.job.Params["_cur"] = strings.TrimLeft(string(cb[:12]), "0")
	}
	return o
}

func copyMap(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

type limited struct {
	mu   sync.Mutex
	head bytes.Buffer
	tail []byte
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	const headMax, tailMax = 400 << 10, 200 << 10
	n := len(p)
	if room := headMax - l.head.Len(); room > 0 {
		k := min(room, len(p))
		l.head.Write(p[:k])
		p = p[k:]
	}
	l.tail = append(l.tail, p...)
	if len(l.tail) > 2*tailMax {
		l.tail = append([]byte(nil), l.tail[len(l.tail)-tailMax:]...)
	}
	return n, nil
}
func (l *limited) String() string { return l.head.String() + string(l.tail) }

const libPath = "github.com/aws/go-kafka-event-source/"
const clientPath = "github.com/twmb/franz-go/"

var frameRe = regexp.MustCompile(`(?m)^([\w./*()\[\]{}·,\-@ ]+?)\(.*\)\s*$|^created by (.+?)(?: in goroutine \d+)?$`)

// frames returns function names of a stack text, top first.
func frames(stack string) []string {
	var fs []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "      ") || l == "" {
			continue
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "created by") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			fs = append(fs, l[:i])
		}
	}
	return fs
}

var genericRe = regexp.MustCompile(`\[[^\]]*\]`)

func shortFn(f string) string {
	f = genericRe.ReplaceAllString(f, "")
	f = strings.ReplaceAll(f, "[...]", "")
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return f
}

func firstLib(fs []string) (fn string, harness bool) {
	for _, f := range fs {
		if strings.Contains(f, "/vsync.") || strings.Contains(f, "vsync.(") {
			continue
		}
		if strings.Contains(f, libPath) || strings.Contains(f, clientPath) {
			return shortFn(f), false
		}
		if strings.HasPrefix(f, "verifh/") || strings.HasPrefix(f, "verifm/") {
			return shortFn(f), true
		}
	}
	return "", true
}

var panicRe = regexp.MustCompile(`(?m)^(panic: |fatal error: |unexpected fault address|SIGSEGV|runtime: )(.*)$`)
var hexRe = regexp.MustCompile(`0x[0-9a-f]+|\d+`)

// crash classifies an abnormal end of a job. It returns a violation, or a reason why it is inconclusive.
func crash(o outcome) (*Violation, string) {
	loc := panicRe.FindStringIndex(o.output)
	if loc == nil {
		return nil, fmt.Sprintf("job ended with status %d and no result: %.600s", o.exit, tailOf(o.output))
	}
	text := o.output[loc[0]:]
	msg := strings.SplitN(text, "\n", 2)[0]
	// the first goroutine dump after the message is the one that failed
	st := text
	if i := strings.Index(text, "\ngoroutine "); i >= 0 {
		st = text[i+1:]
		if k := strings.Index(st, "\n\n"); k >= 0 {
			st = st[:k]
		}
	}
	if strings.Contains(msg, "deadlock") || strings.Contains(msg, "all goroutines are asleep") {
		return nil, "bubble deadlock: " + msg
	}
	fn, harness := firstLib(frames(st))
	if harness {
		return nil, fmt.Sprintf("harness panic: %s\n%.1500s", msg, st)
	}
	it := o.job.Start
	if v, err := strconv.Atoi(o.job.Params["_cur"]); err == nil {
		it = v
	}
	return &Violation{Prop: o.job.Check, Kind: "crash: " + hexRe.ReplaceAllString(msg, "N") + " in " + fn, Detail: msg + "\n" + st, Iter: it}, ""
}

func tailOf(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}

// races turns the race detector's reports into violations.
func races(o outcome) []Violation {
	var vs []Violation
	seen := map[string]bool{}
	for _, rep := range strings.Split(o.output, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var tops []string
		var all string
		var cur []string
		flush := func() {
			if len(cur) > 0 {
				tops = append(tops, raceTop(cur))
				cur = nil
			}
		}
		in := false
		for _, l := range strings.Split(rep, "\n") {
			t := strings.TrimSpace(l)
			switch {
			case strings.Contains(t, " at 0x") && (strings.Contains(t, "ead at") || strings.Contains(t, "rite at")):
				flush()
				in = true
			case strings.HasPrefix(t, "Goroutine "):
				flush()
				in = false
			case in && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") && strings.HasSuffix(t, ")"):
				if i := strings.LastIndex(t, "("); i > 0 {
					cur = append(cur, t[:i])
					all += t + "\n"
				}
			}
		}
		flush()
		if !strings.Contains(all, libPath) {
			continue // neither access is made on behalf of the library
		}
		sort.Strings(tops)
		k := "race: " + strings.Join(tops, " / ")
		if seen[k] {
			continue
		}
		seen[k] = true
		vs = append(vs, Violation{Prop: o.job.Check, Kind: k, Detail: rep, Iter: o.job.Start})
	}
	return vs
}

func raceTop(fs []string) string {
	for _, f := range fs {
		if strings.Contains(f, libPath) || strings.Contains(f, clientPath) || strings.HasPrefix(f, "verifh/") {
			if strings.Contains(f, "vsync") {
				continue
			}
			return shortFn(f)
		}
	}
	return "?"
}

func main() {
	tier := flag.String("tier", "", "quick or thorough")
	replay := flag.String("replay", "", "rerun the job of a replay file")
	only := flag.String("engine", "", "only jobs whose engine or profile matches (development)")
	scale := flag.Float64("scale", 1, "scale the number of cases (development)")
	seedFlag := flag.Int64("seed", -1, "")
	verbose := flag.Bool("v", false, "")
	keep := flag.Bool("keep", false, "")
	buildOnly := flag.Bool("build", false, "only build all variants (setup)")
	flag.Parse()
	if v := os.Getenv("VVERIF"); v != "" {
		verif = v
	}
	if v := os.Getenv("VREPO"); v != "" {
		repo = v
	}
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	if *seedFlag >= 0 {
		seed = *seedFlag
	}
	var rep struct {
		Job Job `json:"job"`
	}
	id := flag.Arg(0)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil || json.Unmarshal(b, &rep) != nil {
			fatal("bad replay file")
		}
		id = rep.Job.Check
	}
	os.MkdirAll(filepath.Join(verif, "build"), 0o755)
	var err error
	work, err = os.MkdirTemp(filepath.Join(verif, "build"), "run-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	code := 2
	defer func() {
		if !*keep {
			os.RemoveAll(work)
		}
		os.Exit(code)
	}()
	if *buildOnly {
		code = 0
		for _, v := range []string{"plain", "instr", "race"} {
			if b := build(v); b.err != "" {
				fmt.Println(v, b.err)
				code = 1
			}
		}
		return
	}
	def, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check", id)
		return
	}
	specs := def.Quick
	budget := 10 * time.Minute
	if *tier == "thorough" {
		specs = def.Thorough
		if specs == nil {
			for _, s := range def.Quick {
				s.N *= 12
				specs = append(specs, s)
			}
		}
		budget = 50 * time.Minute
	}
	if *replay != "" {
		specs = []spec{{Engine: rep.Job.Engine, Variant: rep.Job.Variant, N: 1, Chunk: 1}}
	}
	// build the variants needed
	bins := map[string]binary{}
	for _, s := range specs {
		bins[s.Variant] = binary{}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for v := range bins {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := build(v)
			mu.Lock()
			bins[v] = b
			mu.Unlock()
		}()
	}
	wg.Wait()
	for v, b := range bins {
		if b.err == "" {
			continue
		}
		fmt.Printf("build of variant %s failed: %.3000s\n", v, b.err)
		if v == "instr" {
			fmt.Println("falling back to the uninstrumented build")
			if pb, ok := bins["plain"]; ok && pb.err == "" {
				bins[v] = pb
			} else {
				bins[v] = build("plain")
			}
		}
	}
	for _, b := range bins {
		if b.err != "" {
			fmt.Println("BUILD-FAILED: nothing was checked")
			return
		}
	}
	buildSecs := time.Since(t0).Seconds()

	type todo struct {
		j    Job
		s    spec
		bin  string
		iter int
	}
	var todos []todo
	for si, s := range specs {
		if *only != "" && s.Engine != *only && s.Params["profile"] != *only {
			continue
		}
		if *replay != "" {
			todos = append(todos, todo{j: rep.Job, s: s, bin: bins[s.Variant].path})
			continue
		}
		n := s.N
		if *scale != 1 {
			n = max(1, int(float64(n)*(*scale)))
		}
		chunk := s.Chunk
		if chunk <= 0 {
			chunk = max(1, (n+15)/16)
		}
		base := mix(uint64(seed)*1000003, hash(id+"/"+s.Engine+"/"+s.Variant+"/"+fmt.Sprint(si)))
		for a := 0; a < n; a += chunk {
			c := min(chunk, n-a)
			todos = append(todos, todo{j: Job{Check: id, Engine: s.Engine, Variant: s.Variant, Seed: base, Start: a, N: c, Tier: *tier, Params: s.Params}, s: s, bin: bins[s.Variant].path})
		}
	}
	// interleave the specs so that a deadline cuts all of them alike
	sort.SliceStable(todos, func(a, b int) bool {
		return float64(todos[a].j.Start)/float64(max(1, todos[a].s.N)) < float64(todos[b].j.Start)/float64(max(1, todos[b].s.N))
	})
	ctx, cancel := context.WithDeadline(context.Background(), t0.Add(budget))
	defer cancel()
	outs := make([]outcome, 0, len(todos))
	ch := make(chan int)
	stop := false
	nviol := 0
	par := runtime.NumCPU()
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				t := todos[i]
				to := t.s.Timeout
				if to == 0 {
					to = 150 * time.Second
					if *tier == "thorough" {
						to = 600 * time.Second
					}
				}
				o := runJob(ctx, t.bin, t.j, i, to, t.s.Procs)
				mu.Lock()
				outs = append(outs, o)
				for _, v := range o.res.Violations {
					if v.Prop == id || v.Prop == "" || slices.Contains(def.Accept, v.Prop) {
						nviol++
					}
				}
				if nviol > 12 {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	skipped := 0
	for i := range todos {
		mu.Lock()
		s := stop
		mu.Unlock()
		if s || ctx.Err() != nil {
			skipped++
			continue
		}
		ch <- i
	}
	close(ch)
	wg.Wait()

	counters := map[string]int64{}
	distinct := map[uint64]struct{}{}
	var samples []string
	var incon []string
	type vj struct {
		v Violation
		j Job
	}
	var viols []vj
	accepted := map[string]bool{id: true}
	for _, p := range def.Accept {
		accepted[p] = true
	}
	other := map[string]int{}
	slowest := 0.0
	for _, o := range outs {
		slowest = max(slowest, o.secs)
		for k, v := range o.res.Counters {
			counters[k] += v
		}
		for _, h := range o.res.Distinct {
			distinct[h] = struct{}{}
		}
		if len(samples) < 6 {
			samples = append(samples, o.res.Samples...)
		}
		for _, s := range o.res.Inconclusive {
			incon = append(incon, o.job.Engine+" start="+strconv.Itoa(o.job.Start)+": "+s)
		}
		for _, v := range o.res.Violations {
			if accepted[v.Prop] || v.Prop == "" {
				viols = append(viols, vj{v, o.job})
			} else {
				other[v.Prop+": "+v.Kind]++
			}
		}
		if strings.HasSuffix(o.job.Variant, "race") {
			for _, v := range races(o) {
				if accepted["race"] || def.Race {
					viols = append(viols, vj{v, o.job})
				} else {
					other["race: "+v.Kind]++
				}
			}
		}
		if s := o.res.ExpectExit; s != "" && !o.res.Done && o.have && !o.timeout {
			if loc := panicRe.FindStringIndex(o.output); loc != nil && strings.Contains(strings.SplitN(o.output[loc[0]:], "\n\n", 2)[0], s) {
				counters["processes ended as configured"]++
				continue
			}
		}
		if !o.res.Done || !o.have {
			if o.timeout {
				incon = append(incon, fmt.Sprintf("%s/%s start=%d: no result within its time limit", o.job.Engine, o.job.Variant, o.job.Start))
				counters["timeouts"]++
				continue
			}
			v, why := crash(o)
			if v != nil {
				viols = append(viols, vj{*v, o.job})
			} else {
				incon = append(incon, o.job.Engine+" start="+strconv.Itoa(o.job.Start)+" seed="+fmt.Sprint(o.job.Seed)+": "+why)
			}
		}
	}
	// known findings
	var kf []finding
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("known_findings.json:", err)
			return
		}
	}
	var unknown []vj
	knownHit := map[int]int{}
	for _, x := range viols {
		hit := -1
		for i, f := range kf {
			if f.Status != "known" || f.Property != id {
				continue
			}
			if ok, _ := regexp.MatchString("^(?:"+f.Kind+")$", x.v.Kind); !ok {
				continue
			}
			if f.Detail != "" {
				if ok, _ := regexp.MatchString(f.Detail, x.v.Detail); !ok {
					continue
				}
			}
			hit = i
		}
		if hit >= 0 {
			knownHit[hit]++
		} else {
			unknown = append(unknown, x)
		}
	}
	for i, f := range kf {
		if f.Property == id && f.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", id, f.What, knownHit[i])
		}
	}
	// report
	code = 0
	if len(unknown) > 0 {
		code = 1
		os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		seen := map[string]int{}
		n := 0
		for _, x := range unknown {
			seen[x.v.Kind]++
			if seen[x.v.Kind] > 1 || n >= 8 {
				continue
			}
			n++
			j := x.j
			p := copyMap(j.Params)
			delete(p, "_cur")
			j.Params, j.Start, j.N = p, x.v.Iter, 1
			path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", id, n))
			b, _ := json.MarshalIndent(map[string]any{"property": id, "kind": x.v.Kind, "detail": x.v.Detail, "job": j,
				"how": "bash /verif/run.sh --replay " + path}, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  what: %s\n  %s\n", x.v.Kind, strings.ReplaceAll(clip(x.v.Detail, 1200), "\n", "\n  "))
		}
		for k, c := range seen {
			fmt.Printf("  %d x %s\n", c, k)
		}
	}
	if *verbose || len(unknown) == 0 {
		for i, s := range incon {
			if i < 5 || *verbose {
				fmt.Printf("inconclusive: %s\n", clip(s, 2500))
			}
		}
	}
	if *verbose {
		for k, c := range other {
			fmt.Printf("other property observed: %d x %s\n", c, k)
		}
	}
	evals := counters["evaluations"]
	delete(counters, "evaluations")
	obs := map[string]int64{}
	var keys []string
	for k, v := range counters {
		obs[k] = v
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// the check is vacuous when the monitors did not observe what they are for
	var missing []string
	if code == 0 && *replay == "" && *only == "" && *scale == 1 {
		for k, m := range def.Need {
			if counters[k] < m {
				missing = append(missing, fmt.Sprintf("%s=%d (expected at least %d)", k, counters[k], m))
			}
		}
	}
	cov := map[string]any{
		"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": def.Rule, "samples": samples,
		"observed": obs, "jobs": len(outs), "jobs_skipped": skipped, "inconclusive": len(incon), "build_s": buildSecs, "slowest_job_s": slowest,
	}
	if len(missing) > 0 {
		cov["below_expected"] = missing
	}
	ev := map[string]any{"property": id, "tier": *tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(unknown), "assumptions": def.Assume}
	if samples == nil {
		cov["samples"] = []string{}
	}
	if *replay == "" {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644)
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct, %d jobs (%d skipped), %d violations (%d known), %d inconclusive, build %.1fs, total %.1fs, slowest %.1fs\n",
		id, *tier, evals, len(distinct), len(outs), skipped, len(unknown), len(viols)-len(unknown), len(incon), buildSecs, time.Since(t0).Seconds(), slowest)
	if *verbose {
		for _, k := range keys {
			fmt.Printf("  %s=%d\n", k, counters[k])
		}
	}
	for _, m := range missing {
		fmt.Println("below expected coverage:", m)
	}
	if code == 0 && len(outs) > 0 && len(incon)*2 > len(outs) && *replay == "" {
		fmt.Println("more than half of the jobs gave no verdict")
		code = 3
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func mix(a, b uint64) uint64 {
	x := a ^ (b+1)*0x9E3779B97F4A7C15
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	return x ^ x>>31
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

var _ = io.Discard
