package e2e

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verifh/core"
	"verifh/kbroker"
)

func init() { core.Register("topics", topicsEngine) }

// topicsEngine creates, resolves and deletes sources and destinations.
func topicsEngine(c *core.Ctx) {
	setLogger()
	stop := c.Watch("C25", "livelock", 60*time.Second, 240*time.Second, nil)
	defer stop()
	core.ApplyPerturb(core.Perturb{Seed: c.Rng.Uint64(), YieldProb: uint32(c.Rng.IntN(30000)), SiteProb: uint32(c.Rng.IntN(30000)), SleepProb: uint32(c.Rng.IntN(10000)), MaxSleep: ms(20), MaxHits: 200})
	synctest.Test(c.T, func(t *testing.T) {
		g := &topicRun{c: c, r: c.Rng}
		g.run()
		c.Saw(core.HashStr(strings.Join(g.desc, "|")))
		c.Sample("%s", strings.Join(g.desc, "; "))
	})
	c.Finish()
}

type topicRun struct {
	c    *core.Ctx
	r    *rand.Rand
	desc []string
	mu   sync.Mutex
}

func (g *topicRun) note(f string, a ...any) { g.desc = append(g.desc, fmt.Sprintf(f, a...)) }

func (g *topicRun) fail(kind, f string, a ...any) {
	g.c.Violate("C25", kind, "%s\n%s", fmt.Sprintf(f, a...), strings.Join(g.desc, "\n"))
}

// tcluster is a cluster whose administrative requests may be refused.
type tcluster struct {
	*kbroker.Cluster
	nodes  int
	st     *storm
	refuse map[int16]int16 // by key: code
	before map[string]string
	nAdmin int
}

func (g *topicRun) newCluster(name string) *tcluster {
	r := g.r
	t := &tcluster{nodes: pick(r, 1, 1, 3), refuse: map[int16]int16{}}
	t.st = &storm{seed: r.Uint64(), maxDelay: ms(500), keys: map[int16]bool{3: true, 19: true, 20: true, 18: true}}
	switch r.IntN(8) {
	case 0:
		t.st.drop, t.st.delay = pick(r, 20, 200), pick(r, 0, 100)
	case 1:
		t.st.delay = 300
	}
	t.st.on.Store(true)
	if r.IntN(20) == 0 {
		t.refuse[19] = pick(r, int16(29), 44, 42)
	}
	if r.IntN(8) == 0 {
		t.refuse[20] = pick(r, int16(29), 73)
	}
	cfg := kbroker.Config{Nodes: t.nodes, Fault: func(rq *kbroker.Request) kbroker.Fault {
		f := t.st.fault(rq)
		if c := t.refuse[rq.Key]; c != 0 {
			f.Code = c
		}
		return f
	}}
	net := network(r, &cfg)
	t.Cluster = kbroker.New(cfg)
	g.note("cluster %s: %s drop=%d delay=%d refuse=%v", name, net, t.st.drop, t.st.delay, t.refuse)
	return t
}

func (t *tcluster) describe(name string) string {
	x := t.Topic(name)
	if x == nil {
		return ""
	}
	return fmt.Sprintf("%d partitions, replication %d, %v", len(x.Parts), x.Replication, x.Configs)
}

// snap remembers what exists.
func (t *tcluster) snap() {
	t.before = map[string]string{}
	for _, n := range t.TopicNames() {
		t.before[n] = t.describe(n)
	}
}

// unchanged checks that what existed is as it was, but for the topics given.
func (g *topicRun) unchanged(t *tcluster, what string, gone ...string) {
	m := map[string]bool{}
	for _, n := range gone {
		m[n] = true
	}
	for n, d := range t.before {
		if got := t.describe(n); got != d && !m[n] {
			g.fail("existing topic changed", "%s: %s: %s, before: %s", what, n, got, d)
		}
	}
}

// onlyNew checks that nothing but the topics given was created.
func (g *topicRun) onlyNew(t *tcluster, what string, names ...string) {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	for _, n := range t.TopicNames() {
		if _, ok := t.before[n]; !ok && !m[n] {
			g.fail("unexpected topic created", "%s: %s", what, n)
		}
	}
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// created checks a topic that did not exist before.
func (g *topicRun) created(t *tcluster, what, name string, parts, minISR int, compact bool, repl ...int) {
	x := t.Topic(name)
	if x == nil {
		g.fail("topic missing", "%s reports success but %s does not exist", what, name)
		return
	}
	g.c.Count("created topics compared", 1)
	if len(x.Parts) != parts {
		g.fail("wrong partition count", "%s: %s has %d partitions instead of %d", what, name, len(x.Parts), parts)
	}
	ok := false
	for _, n := range repl {
		ok = ok || int(x.Replication) == max(n, 1)
	}
	if !ok {
		g.fail("wrong replication", "%s: %s has replication %d instead of %v", what, name, x.Replication, repl)
	}
	m := atoi(x.Configs["min.insync.replicas"])
	rf := int(x.Replication)
	if m < 1 || m > rf && what != "creating a destination" || minISR >= 1 && minISR < rf && m != minISR {
		g.fail("wrong in-sync minimum", "%s: %s has min.insync.replicas %q with replication %d, configured %d", what, name, x.Configs["min.insync.replicas"], rf, minISR)
	}
	if got := strings.Contains(x.Configs["cleanup.policy"], "compact"); got != compact {
		g.fail("wrong cleanup policy", "%s: %s has %v, compaction expected: %v", what, name, x.Configs, compact)
	}
}

func (g *topicRun) run() {
	r := g.r
	a := g.newCluster("source")
	b := a
	if r.IntN(3) == 0 {
		b = g.newCluster("state")
	}
	for n := 1 + r.IntN(3); n > 0; n-- {
		g.source(a, b, n)
	}
	g.destination(a)
}

func (g *topicRun) source(a, b *tcluster, n int) {
	r := g.r
	conf := streams.EventSourceConfig{
		GroupId: pick(r, "g", "g2", "app"), Topic: pick(r, "t", "t.g", "orders"),
		NumPartitions: pick(r, 1, 1, 3, 12), ReplicationFactor: pick(r, 0, 1, 1, 2, 3), MinInSync: pick(r, 0, 0, 1, 2, 3, 7), CommitLogPartitions: pick(r, 0, 0, 1, 3, 10)}
	if r.IntN(8) == 0 {
		conf.ReplicationFactor = pick(r, -1, 5)
	}
	if r.IntN(10) == 0 {
		conf.NumPartitions = 0
	}
	if r.IntN(3) == 0 {
		conf.StateStoreTopic = pick(r, "state", "t.state")
	}
	commit := "gkes_commit_log_" + conf.GroupId
	change := conf.StateStoreTopic
	if change == "" {
		change = "gkes_change_log_" + conf.Topic + "_" + conf.GroupId
	}
	some := func(t *tcluster, name string, parts int) {
		if t.Topic(name) == nil {
			cfg := map[string]string{"min.insync.replicas": "1", "x": "y"}
			if r.IntN(2) == 0 {
				cfg["cleanup.policy"] = "compact"
			}
			tp := t.CreateTopic(name, parts, cfg)
			tp.Replication = int16(1 + r.IntN(t.nodes))
		}
	}
	if r.IntN(2) == 0 {
		some(a, conf.Topic, pick(r, 1, 3, 4, 12))
	}
	if r.IntN(3) == 0 {
		some(b, commit, pick(r, 1, 3, 5, 7))
	}
	if r.IntN(3) == 0 {
		parts := conf.NumPartitions
		if t := a.Topic(conf.Topic); t != nil {
			parts = len(t.Parts)
		}
		if r.IntN(3) == 0 || parts == 0 {
			parts = pick(r, 1, 3, 4, 12)
		}
		some(b, change, parts)
	}
	if r.IntN(2) == 0 { // neighbours
		some(b, "gkes_commit_log_other", 2)
		some(b, "gkes_change_log_"+conf.Topic+"_"+conf.GroupId+"x", 2)
		some(a, conf.Topic+"2", 2)
	}
	missing := ""
	if r.IntN(12) == 0 {
		missing = pick(r, "group", "topic", "cluster")
	}
	switch missing {
	case "group":
		conf.GroupId = ""
	case "topic":
		conf.Topic = ""
	}
	a.snap()
	b.snap()
	g.note("source %+v state %q exists: %q %q %q missing=%q", struct {
		G, T       string
		P, R, M, C int
	}{conf.GroupId, conf.Topic, conf.NumPartitions, conf.ReplicationFactor, conf.MinInSync, conf.CommitLogPartitions}, conf.StateStoreTopic,
		a.before[conf.Topic], b.before[commit], b.before[change], missing)
	clusters := func(k int) streams.EventSourceConfig {
		c := conf
		name := fmt.Sprintf("client%d.%d", n, k)
		ia := a.Instance(name)
		c.SourceCluster = ia
		if b != a {
			c.StateCluster = b.Instance(name)
		}
		if missing == "cluster" {
			c.SourceCluster = nil
		}
		return c
	}
	// what is expected
	var must, may []string
	rf := max(conf.ReplicationFactor, 1)
	exA, exCommit, exChange := a.Topic(conf.Topic), b.Topic(commit), b.Topic(change)
	parts := conf.NumPartitions
	if missing != "" {
		must = append(must, "missing "+missing)
	} else {
		rfs := []int{rf}
		if exA != nil {
			parts = len(exA.Parts)
			rfs = append(rfs, int(exA.Replication))
		} else {
			if parts == 0 {
				must = append(must, "no partition count")
			}
			if rf > a.nodes {
				must = append(must, "source cannot be replicated")
			}
			if a.refuse[19] != 0 {
				must = append(must, "creation refused")
			}
		}
		if exChange != nil && parts != 0 && len(exChange.Parts) != parts {
			must = append(must, "state topic has another partition count")
		}
		if exCommit == nil || exChange == nil {
			if b.refuse[19] != 0 {
				must = append(must, "creation refused")
			}
			all := true
			for _, x := range rfs {
				if x > b.nodes {
					may = append(may, "state cannot be replicated")
				} else {
					all = false
				}
			}
			if all {
				must = append(must, "state cannot be replicated")
			}
		}
	}
	if a.st.drop+b.st.drop > 0 {
		may = append(may, "lost requests")
	}
	callers := pick(r, 1, 1, 2, 4)
	down := time.Duration(0)
	if missing == "" && r.IntN(10) == 0 {
		down = time.Duration(1+r.IntN(8)) * time.Second
		g.note("unreachable for %v", down)
	}
	type result struct {
		s   *streams.Source
		err error
	}
	res := make([]result, callers)
	var wg sync.WaitGroup
	for k := range res {
		c := clusters(k)
		d := time.Duration(0)
		if r.IntN(2) == 0 {
			d = time.Duration(r.Int64N(int64(ms(10))))
		}
		wg.Add(1)
		if down > 0 {
			ins := []streams.Cluster{c.SourceCluster, c.StateCluster}
			for _, x := range ins {
				if in, ok := x.(*kbroker.Instance); ok {
					in.SetDown(true)
					go func() { time.Sleep(down); in.SetDown(false) }()
				}
			}
		}
		go func() {
			defer wg.Done()
			time.Sleep(d)
			if missing != "" && k%2 == 1 {
				_, err := streams.NewEventSource(c, func(streams.TopicPartition) *Store { return nil }, nil)
				res[k] = result{nil, err}
				return
			}
			s, err := streams.CreateSource(c)
			res[k] = result{s, err}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Minute):
		g.fail("creating a source does not return", "%s", libStacks())
		return
	}
	g.unchanged(a, "creating a source")
	g.unchanged(b, "creating a source")
	if a == b {
		g.onlyNew(a, "creating a source", conf.Topic, commit, change)
	} else {
		g.onlyNew(a, "creating a source", conf.Topic)
		g.onlyNew(b, "creating a source", commit, change)
	}
	good := false
	for k, x := range res {
		what := fmt.Sprintf("caller %d of %d", k, callers)
		switch {
		case x.err != nil && len(must) == 0 && len(may) == 0:
			g.fail("valid source not created", "%s: %v", what, x.err)
		case x.err == nil && len(must) > 0:
			g.fail("conflict not reported", "%s: %v", what, must)
		}
		if x.err != nil {
			g.c.Count("errors reported", 1)
			continue
		}
		good = true
		if x.s == nil {
			g.fail("no source returned", "%s", what)
			continue
		}
		got := x.s.Config()
		if np := parts; got.NumPartitions != np || x.s.NumPartitions() != np {
			g.fail("wrong partition count resolved", "%s: %d and %d instead of %d", what, got.NumPartitions, x.s.NumPartitions(), np)
		}
		ct := b.Topic(commit)
		if ct != nil {
			n := got.CommitLogPartitions
			if n == 0 {
				n = 5
			}
			if n != len(ct.Parts) {
				g.fail("wrong partition count resolved", "%s: commit log: %d instead of %d", what, got.CommitLogPartitions, len(ct.Parts))
			}
		}
		if x.s.Topic() != conf.Topic || x.s.GroupId() != conf.GroupId || x.s.StateStoreTopicName() != change || x.s.CommitLogTopicNameForGroupId() != commit {
			g.fail("wrong names resolved", "%s: %s %s %s %s", what, x.s.Topic(), x.s.GroupId(), x.s.StateStoreTopicName(), x.s.CommitLogTopicNameForGroupId())
		}
		if d := x.s.AsDestination(); d.DefaultTopic != conf.Topic || d.NumPartitions != parts {
			g.fail("wrong destination for a source", "%s: %+v", what, d)
		}
		g.c.Count("sources resolved", 1)
	}
	if good {
		rfs := []int{rf}
		if exA == nil {
			g.created(a, "creating a source", conf.Topic, parts, conf.MinInSync, false, rf)
		} else {
			rfs = append(rfs, int(exA.Replication))
		}
		if exCommit == nil {
			np := conf.CommitLogPartitions
			if np == 0 {
				np = 5
			}
			g.created(b, "creating a source", commit, np, conf.MinInSync, true, rfs...)
		}
		if exChange == nil {
			g.created(b, "creating a source", change, parts, conf.MinInSync, true, rfs...)
		}
	}
	if missing != "" || r.IntN(2) == 0 {
		return
	}
	g.note("delete")
	a.snap()
	b.snap()
	var err error
	del := make(chan struct{})
	go func() { err = streams.DeleteSource(clusters(99)); close(del) }()
	select {
	case <-del:
	case <-time.After(30 * time.Minute):
		g.fail("deleting a source does not return", "%s", libStacks())
		return
	}
	left := ""
	for _, x := range []string{a.describe(conf.Topic), b.describe(commit), b.describe(change)} {
		left += x
	}
	switch {
	case err == nil && left != "":
		g.fail("deletion not reported", "deleting a source reports success, but there are left: %q %q %q", a.describe(conf.Topic), b.describe(commit), b.describe(change))
	case err != nil && a.st.drop+b.st.drop+len(a.refuse)+len(b.refuse) == 0:
		g.fail("source not deleted", "%v", err)
	}
	if a == b {
		g.unchanged(a, "deleting a source", conf.Topic, commit, change)
	} else {
		g.unchanged(a, "deleting a source", conf.Topic)
		g.unchanged(b, "deleting a source", commit, change)
	}
	g.c.Count("sources deleted", 1)
}

func (g *topicRun) destination(a *tcluster) {
	r := g.r
	d := streams.Destination{DefaultTopic: pick(r, "dest", "dest2", "orders"), NumPartitions: pick(r, 1, 3, 12), ReplicationFactor: pick(r, 0, 1, 1, 2, 3), MinInSync: pick(r, 0, 0, 1, 2), Cluster: a.Instance("destination")}
	if r.IntN(12) == 0 {
		d.NumPartitions = 0
	}
	if r.IntN(12) == 0 {
		d.DefaultTopic = ""
	}
	if r.IntN(3) == 0 && d.DefaultTopic != "" && a.Topic(d.DefaultTopic) == nil {
		a.CreateTopic(d.DefaultTopic, 4, map[string]string{"x": "y"})
	}
	a.snap()
	ex := a.Topic(d.DefaultTopic)
	g.note("destination %q %d %d %d exists: %q", d.DefaultTopic, d.NumPartitions, d.ReplicationFactor, d.MinInSync, a.before[d.DefaultTopic])
	var got streams.Destination
	var err error
	del := make(chan struct{})
	go func() { got, err = streams.CreateDestination(d); close(del) }()
	select {
	case <-del:
	case <-time.After(30 * time.Minute):
		g.fail("creating a destination does not return", "%s", libStacks())
		return
	}
	must := d.DefaultTopic == "" || a.refuse[19] != 0 && ex == nil || ex == nil && (d.NumPartitions == 0 || d.ReplicationFactor > a.nodes)
	switch {
	case err == nil && must:
		g.fail("conflict not reported", "destination %+v reported as created", d)
	case err != nil && !must && a.st.drop == 0 && a.refuse[19] == 0:
		g.fail("valid destination not created", "%v", err)
	}
	g.unchanged(a, "creating a destination")
	g.onlyNew(a, "creating a destination", d.DefaultTopic)
	if err == nil && ex == nil {
		g.created(a, "creating a destination", d.DefaultTopic, d.NumPartitions, d.MinInSync, false, max(1, d.ReplicationFactor))
	}
	if err == nil && (got.DefaultTopic != d.DefaultTopic || got.Cluster != d.Cluster) {
		g.fail("wrong destination resolved", "%+v", got)
	}
}

var _ kmsg.Request
