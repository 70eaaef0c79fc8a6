package main

import "time"

type spec struct {
	Engine, Variant string
	N               int
	Chunk           int // iterations per process; 0 = spread over 16 processes
	Procs           int // GOMAXPROCS
	Timeout         time.Duration
	Params          map[string]string
}

type check struct {
	Rule     string
	Quick    []spec
	Thorough []spec
	Accept   []string // further oracle tags that decide this property
	Race     bool     // race reports are violations
	Need     map[string]int64
	Assume   []string
}

func p(kv ...string) map[string]string {
	m := map[string]string{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	return m
}

// prof is one profile of the end-to-end engine: n cases, one process each.
// plain makes s run without instrumentation.
func plain(s spec) spec { s.Variant = "plain"; return s }

func prof(name string, n int, kv ...string) spec {
	return spec{Engine: "e2e", Variant: "instr", N: n, Chunk: 1, Procs: 2, Timeout: 250 * time.Second, Params: p(append([]string{"profile", name}, kv...)...)}
}

// racy is a profile under the race detector; its handlers share no state, so that they add no ordering of their own.
func racy(name string, n int, kv ...string) spec {
	s := prof(name, n, append([]string{"race", "1"}, kv...)...)
	s.Variant, s.Procs = "race", 4
	return s
}

const ruleE2E = "one case = whole applications of the library against the in-memory cluster in virtual time: random configuration, workload, latencies, faults and schedule perturbation; distinct by configuration and the order in which events were handled"

var allProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30"}

var checks = map[string]check{
	"C08": {
		Rule: "one iteration = one scheduler with random limits, keys, callers, job durations, reconfiguration and shutdown, under schedule perturbation in virtual time; distinct by configuration and order of processing",
		Quick: []spec{
			{Engine: "sched", Variant: "instr", N: 2400},
			{Engine: "sched", Variant: "plain", N: 1200},
		},
	},
	"C09": {
		Rule: "one iteration = one batcher with random limits, keys, adders, item counts, executor durations and slice reordering, under schedule perturbation in virtual time; distinct by configuration and assignment of items to batches",
		Quick: []spec{
			{Engine: "batch", Variant: "instr", N: 2400},
			{Engine: "batch", Variant: "plain", N: 1200},
		},
	},
	"C18": {
		Rule:  "one iteration = a batch of random and boundary values and byte strings through every codec; a case is distinct by codec and input; inputs sit against an unmapped guard page",
		Quick: []spec{{Engine: "codec", Variant: "plain", N: 6000}},
	},
	"C20": {
		Rule:  "one iteration = a random operation sequence on the store and the tree against a reference map; distinct by operation sequence",
		Quick: []spec{{Engine: "store", Variant: "plain", N: 12000}},
	},
	"C21": {
		Rule:  "one iteration = a random sequence of queue operations against a reference multiset; distinct by sequence",
		Quick: []spec{{Engine: "heap", Variant: "plain", N: 30000}},
	},
	"C01": {
		Rule:   ruleE2E,
		Accept: []string{"C02", "C03", "C05", "C06", "C07"},
		Quick:  []spec{prof("base", 600), prof("crash", 500), prof("move", 300), prof("stop", 200), prof("ij", 100), prof("faults", 300), prof("policy", 200)},
	},
	"C02": {
		Rule:   ruleE2E,
		Accept: []string{"C01", "C03"},
		Quick:  []spec{prof("base", 400), prof("crash", 700), prof("ij", 200), prof("faults", 300), prof("policy", 300)},
	},
	"C03": {
		Rule:   ruleE2E,
		Accept: []string{"C01", "C02"},
		Quick:  []spec{prof("crash", 900), prof("base", 200), prof("stop", 200), prof("faults", 300), prof("policy", 200)},
	},
	"C04": {
		Rule:  ruleE2E,
		Quick: []spec{prof("base", 800), prof("crash", 300), prof("move", 300), prof("wide", 250)},
	},
	"C05": {
		Rule:   ruleE2E,
		Accept: []string{"C01", "C03", "C17", "C28"},
		Quick:  []spec{prof("move", 1000), prof("stop", 300), prof("faults", 200), prof("wide", 250), prof("handover", 200), prof("mixed", 200)},
	},
	"C06": {
		Rule:   ruleE2E,
		Accept: []string{"C02"},
		Quick:  []spec{prof("move", 600), prof("crash", 600), prof("ij", 200), prof("faults", 300)},
	},
	"C07": {
		Rule:  ruleE2E,
		Quick: []spec{prof("base", 400), prof("move", 300), prof("ij", 500), prof("stop", 200), prof("wide", 250)},
	},
	"C11": {
		Rule:   ruleE2E,
		Accept: []string{"C01", "C02"},
		Quick:  []spec{prof("ij", 1300)},
	},
	"C14": {
		Rule:   ruleE2E + "; events of unknown types and undecodable payloads with every kind of codec and error handler",
		Accept: []string{"C15"},
		Quick:  []spec{prof("base", 500), prof("move", 200), prof("decode", 900), prof("early", 100)},
	},
	"C15": {
		Rule:   ruleE2E,
		Accept: []string{"C02", "C28"},
		Quick:  []spec{prof("policy", 1400), prof("faults", 300)},
	},
	"C16": {
		Rule:  ruleE2E,
		Quick: []spec{prof("trickle", 250), prof("base", 400), prof("wide", 250)},
	},
	"C17": {
		Rule:   ruleE2E,
		Accept: []string{"C05", "C06"},
		Quick:  []spec{prof("move", 700), prof("stop", 500), prof("ij", 200)},
	},
	"C28": {
		Rule:   ruleE2E,
		Accept: []string{"C01", "C05"},
		Quick:  []spec{prof("stop", 1100), prof("crash", 200), prof("faults", 200), prof("early", 500), prof("policy", 250), prof("mixed", 250), plain(prof("signals", 6))},
	},
	"C12": {
		Rule: "one iteration = six plans for random group states, or a random history of rounds of a simulated group of real balancers, or a group of real clients at the in-memory cluster; distinct by group state or history",
		Quick: []spec{
			{Engine: "plan", Variant: "plain", N: 20000},
			{Engine: "rounds", Variant: "instr", N: 3000},
			{Engine: "group", Variant: "instr", N: 800, Chunk: 1, Procs: 2, Timeout: 250 * time.Second},
			prof("move", 150), prof("crash", 100), prof("stop", 100), prof("mixed", 100),
		},
	},
	"C13": {
		Rule: "one iteration = a random history of rounds of a simulated group of real balancers, or a group of real clients at the in-memory cluster; distinct by history",
		Quick: []spec{
			{Engine: "rounds", Variant: "instr", N: 4000},
			{Engine: "group", Variant: "instr", N: 800, Chunk: 1, Procs: 2, Timeout: 250 * time.Second},
		},
	},
	"C19": {
		Rule: "one iteration = several goroutines building, converting and recycling random records; distinct by what was set on a record; in addition whole applications and producers against the in-memory cluster, whose log is compared",
		Quick: []spec{
			{Engine: "record", Variant: "instr", N: 4000},
			{Engine: "record", Variant: "plain", N: 6000},
			{Engine: "record", Variant: "race", N: 1600},
			{Engine: "producer", Variant: "instr", N: 400, Chunk: 1, Procs: 2, Timeout: 250 * time.Second}, prof("prod", 200), prof("base", 200),
		},
		Race: true,
	},
	"C22": {
		Rule: "one iteration = a random operation sequence (or several concurrent ones) on a pool, a tree of run states, linked lists or the helpers against a reference; distinct by sequence",
		Quick: []spec{
			{Engine: "util", Variant: "instr", N: 6000},
			{Engine: "util", Variant: "plain", N: 16000},
			{Engine: "util", Variant: "race", N: 3000},
		},
		Race: true,
	},
	"C24": {
		Rule: "one iteration = a partitioner with random overrides and 60 records of random keys, explicit partitions and partition counts; distinct by these; in addition whole applications against the in-memory cluster, where the partition of every record is compared",
		Quick: []spec{
			{Engine: "partitioner", Variant: "plain", N: 10000},
			{Engine: "producer", Variant: "instr", N: 400, Chunk: 1, Procs: 2, Timeout: 250 * time.Second},
			prof("base", 300),
		},
	},
	"C26": {
		Rule:  "one iteration = several followers of a global change log at the in-memory cluster, fed by plain, committed, aborted and abandoned transactions, with pauses, resumptions, receiver errors, faults and stops; distinct by actions and deliveries",
		Quick: []spec{{Engine: "gcl", Variant: "instr", N: 1200, Chunk: 1, Procs: 2, Timeout: 250 * time.Second}},
	},
	"C10": {
		Rule:  "one iteration = a standalone producer used from several goroutines (synchronously and not, with contexts, rejections, lost requests, close), or a whole application whose handlers produce batches; distinct by configuration and results",
		Quick: []spec{{Engine: "producer", Variant: "instr", N: 1200, Chunk: 1, Procs: 2, Timeout: 250 * time.Second}, prof("prod", 640)},
	},
	"C23": {
		Rule:  "one iteration = a random account (clusters of similar names in two regions, pages, missing addresses), a configuration made in one of several ways for one authentication type, a failing service and credentials provider, and real clients that connect to every address of what was returned; distinct by account, calls and actions",
		Quick: []spec{{Engine: "msk", Variant: "msk", N: 1600}},
	},
	"C25": {
		Rule:  "one iteration = sources and destinations with random configurations created, resolved by several callers and deleted at one or two in-memory clusters with existing topics, refusals, lost requests and outages; distinct by configuration",
		Quick: []spec{{Engine: "topics", Variant: "instr", N: 2000, Chunk: 1, Procs: 2, Timeout: 250 * time.Second}},
	},
	"C30": {
		Rule:  ruleE2E + "; metrics consumers of every kind, metrics emitted at every moment, and each one received compared with the transactions and plans at the cluster",
		Quick: []spec{prof("metrics", 1200)},
	},
	"C27": {
		Rule:   ruleE2E + "; other groups and topics share the commit log and partition numbers, foreign and malformed entries are injected, logs compacted, group offsets preset and compared",
		Accept: []string{"C01", "C03"},
		Quick:  []spec{prof("groups", 700), prof("migrate", 700), prof("crash", 100)},
	},
	"C29": {
		Rule: "one case = whole applications against the in-memory cluster (or a component used by several goroutines) under the race detector, with handlers that share no state and hooks that add no ordering; distinct by configuration and schedule",
		Race: true,
		Quick: []spec{
			racy("base", 100), racy("move", 100), racy("crash", 100), racy("stop", 100), racy("faults", 60), racy("policy", 60), racy("ij", 100),
			racy("prod", 60), racy("metrics", 100), racy("early", 60), racy("decode", 60),
			{Engine: "sched", Variant: "race", N: 400},
			{Engine: "batch", Variant: "race", N: 400},
			{Engine: "util", Variant: "race", N: 1000},
			{Engine: "record", Variant: "race", N: 600},
			{Engine: "msk", Variant: "mskrace", N: 160},
		},
	},
	// development only
	"DEV": {Accept: allProps, Race: true, Quick: []spec{
		prof("base", 64), prof("move", 64), prof("crash", 64), prof("stop", 64), prof("faults", 64), prof("policy", 64), prof("trickle", 64), prof("ij", 64), prof("wide", 64),
		prof("gcl", 64), prof("groups", 64), prof("migrate", 64), prof("prod", 64), prof("metrics", 64), prof("topics", 64), prof("decode", 64), prof("early", 64), prof("handover", 64), prof("mixed", 64), plain(prof("signals", 8)),
	}},
}
