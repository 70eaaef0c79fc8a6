package mskm

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/service/kafka"
	"github.com/aws/go-kafka-event-source/msk"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
	"verifh/core"
)

func init() { core.Register("msk", engine) }

var authTypes = []msk.AuthType{msk.None, msk.MutualTLS, msk.SaslScram, msk.SaslIam, msk.PublicMutualTLS, msk.PublicSaslScram, msk.PublicSaslIam}

// One iteration: a random account with clusters of similar names in two regions, one MskCluster that asks for one of them,
// a service and a vault that fail at times, and clients that connect with what Config returned, again and again.
func engine(c *core.Ctx) {
	r := c.Rng
	kind := r.IntN(kinds)
	var mu sync.Mutex // the random source is shared with the goroutines of the clients
	chance := func(p float64) bool {
		mu.Lock()
		defer mu.Unlock()
		return r.Float64() < p
	}
	pick := func(n int) int {
		mu.Lock()
		defer mu.Unlock()
		return r.IntN(n)
	}
	pf, pv := 0.0, 0.0
	if chance(0.5) {
		pf = r.Float64() * 0.7
	}
	if chance(0.4) {
		pv = r.Float64() * 0.6
	}
	healthy := false
	v := &vault{sessions: chance(0.6)}
	s := &service{page: 1 + r.IntN(4)}
	v.down = func() bool { return !healthy && chance(pv) }
	v.onFail = s.fail
	gaps := chance(0.3)
	s.gap = func() bool { return gaps && chance(0.5) }
	s.fault = func(string) (int, error) {
		if healthy || !chance(pf) {
			return 0, nil
		}
		if k := pick(7); k == 0 {
			return 0, errors.New("connection reset by peer")
		} else {
			return []int{0, 400, 403, 429, 500, 503, 200}[k], nil
		}
	}
	v.rotate()
	f := &fleet{kind: map[string]int{}, served: map[string]int{}, ids: map[string]bool{}, dials: map[string]int{}, creds: v.current}
	defer f.close()
	users := []string{"super", "a=b", "x,y", "user name"}
	f.user, f.pass = users[r.IntN(len(users))], fmt.Sprintf("pw%d,=", r.IntN(1000))

	// over TLS the addresses are loopback ports; IAM needs the host names of the service
	useTLS := kind == kTLS || kind == kPubTLS || (kind != kIam && kind != kPubIam && kind != kNone && chance(0.15))
	// the account
	region, other := "us-east-1", "eu-west-2"
	if chance(0.5) {
		region, other = other, region
	}
	pool := []string{"orders", "orders-1", "orders-2", "orders2", "order", "orders-staging", "Orders", "events", "o"}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	n := 1 + r.IntN(len(pool))
	mkCluster := func(reg, name string) *cluster {
		cl := &cluster{region: reg, name: name, arn: fmt.Sprintf("arn:aws:kafka:%s:123456789012:cluster/%s/%08x-%d", reg, name, r.Uint32(), r.IntN(9))}
		real := reg == region
		for k := range cl.addrs {
			if chance(0.25) && !(k == kind && chance(0.7)) {
				continue
			}
			cl.addrs[k] = []string{}
			for i := range 1 + r.IntN(3) {
				var a string
				if useTLS && k == kind && real {
					a = f.listen(k)
				} else {
					a = fmt.Sprintf("b-%d-%s.%s.x%d.kafka.%s.amazonaws.com:%d", i+1, strings.ToLower(kindNames[k]), name, r.IntN(90), reg, []int{9092, 9094, 9096, 9098, 9194, 9196, 9198}[k])
					f.kind[a] = k
				}
				cl.addrs[k] = append(cl.addrs[k], a)
			}
		}
		return cl
	}
	for _, name := range pool[:n] {
		s.clusters = append(s.clusters, mkCluster(region, name))
		if chance(0.3) {
			s.clusters = append(s.clusters, mkCluster(other, name))
		}
	}
	r.Shuffle(len(s.clusters), func(i, j int) { s.clusters[i], s.clusters[j] = s.clusters[j], s.clusters[i] })
	name := pool[r.IntN(len(pool))]
	if chance(0.5) {
		name = pool[r.IntN(n)]
	}
	find := func() *cluster {
		for _, cl := range s.clusters {
			if cl.region == region && cl.name == name {
				return cl
			}
		}
		return nil
	}

	// the configuration under test
	httpOpt := func(o *kafka.Options) { o.HTTPClient, o.Retryer = s, aws.NopRetryer{} }
	var mc *msk.MskCluster
	how := r.IntN(4)
	noCreds := false
	switch how {
	case 0: // what the environment provides
		cr := v.current()
		pv = 0
		os.Setenv("AWS_ACCESS_KEY_ID", cr.AccessKeyID)
		os.Setenv("AWS_SECRET_ACCESS_KEY", cr.SecretAccessKey)
		os.Setenv("AWS_SESSION_TOKEN", cr.SessionToken)
		os.Setenv("AWS_CONFIG_FILE", "/dev/null")
		os.Setenv("AWS_SHARED_CREDENTIALS_FILE", "/dev/null")
		os.Setenv("AWS_EC2_METADATA_DISABLED", "true")
		os.Unsetenv("AWS_REGION")
		os.Unsetenv("AWS_DEFAULT_REGION")
		os.Unsetenv("AWS_PROFILE")
		mc = msk.NewMskCluster(name, authTypes[kind], region, httpOpt)
	case 1:
		mc = msk.NewMskClusterWithClientConfig(name, authTypes[kind], aws.Config{Region: region, Credentials: v, HTTPClient: s}, httpOpt)
	case 2:
		mc = msk.NewMskClusterWithClientConfig(name, authTypes[kind], aws.Config{Region: region, Credentials: v, HTTPClient: s, Retryer: func() aws.Retryer { return aws.NopRetryer{} }})
	case 3:
		noCreds = chance(0.3)
		ac := aws.Config{Region: region, HTTPClient: s}
		if !noCreds {
			ac.Credentials = v
		}
		mc = msk.NewMskClusterWithClientConfig(name, authTypes[kind], ac, httpOpt)
	}
	if kind == kScram || kind == kPubScram {
		mc = mc.WithScramUserPass(f.user, f.pass)
	}
	var opts []kgo.Opt
	if useTLS {
		mc = mc.WithTlsConfig(&tls.Config{RootCAs: pki.pool, Certificates: []tls.Certificate{pki.client}})
	} else {
		opts = append(opts, kgo.Dialer(f.dial))
	}
	id := fmt.Sprintf("client%d", r.IntN(100))
	opts = append(opts, kgo.ClientID(id), kgo.RequestRetries(12), kgo.RetryBackoffFn(func(int) time.Duration { return time.Millisecond }))
	var instead []string
	if !useTLS && chance(0.1) { // "Options supplied here will override any set by MskCluster"
		a := "b-9-override.kafka." + region + ".amazonaws.com:9000"
		f.kind[a] = kind
		instead = []string{a}
		opts = append(opts, kgo.SeedBrokers(a))
	}
	if chance(0.2) {
		mc = mc.WithClientOptions(kgo.ClientID("replaced"))
	}
	mc = mc.WithClientOptions(opts...)

	trace := func() string {
		s.mu.Lock()
		defer s.mu.Unlock()
		var b strings.Builder
		fmt.Fprintf(&b, "cluster %q in %s, %s, made by %d, tls %v; clusters of the region:", name, region, kindNames[kind], how, useTLS)
		for _, cl := range s.clusters {
			if cl.region == region {
				fmt.Fprintf(&b, " %s=%v", cl.name, cl.addrs[kind])
			}
		}
		fmt.Fprintf(&b, "\npage size %d, calls:\n%s", s.page, strings.Join(s.log, "\n"))
		return b.String()
	}

	config := func(where string) (o []kgo.Opt, ok bool) {
		before := s.failed()
		var err error
		if !c.Guard("C23", "config-panic", func() { o, err = mc.Config() }) {
			return nil, false
		}
		s.mu.Lock()
		cl := find()
		s.mu.Unlock()
		avail := cl != nil && cl.addrs[kind] != nil
		switch {
		case err != nil && avail && s.failed() == before:
			c.Violate("C23", "config-error", "%s: Config failed although nothing was wrong: %v\n%s", where, err, trace())
		case err == nil && !avail:
			c.Violate("C23", "config-no-error", "%s: Config succeeded, but the cluster or its addresses do not exist\n%s", where, trace())
		case err == nil && len(o) == 0:
			c.Violate("C23", "config-empty", "%s: Config succeeded without any option\n%s", where, trace())
		case err != nil:
			c.Count("configurations refused", 1)
		default:
			c.Count("configurations made", 1)
			return o, true
		}
		return nil, false
	}
	// connect uses every address of the configuration.
	connect := func(where string, o []kgo.Opt) {
		cl := find()
		want := append([]string{}, cl.addrs[kind]...)
		if instead != nil {
			want = instead
		}
		sort.Strings(want)
		v.mu.Lock()
		down := v.downNow
		v.mu.Unlock()
		unable := (noCreds || down) && (kind == kIam || kind == kPubIam)
		before := s.failed()
		f.mu.Lock()
		f.refused, f.served, f.ids, f.dials = nil, map[string]int{}, map[string]bool{}, map[string]int{}
		f.mu.Unlock()
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		failed := ""
		for _, only := range want { // the other addresses do not answer, so that each one is used
			var k *kgo.Client
			var err error
			if !c.Guard("C23", "client-panic", func() { k, err = kgo.NewClient(append([]kgo.Opt{kgo.ClientID("first")}, o...)...) }) {
				return
			}
			if err != nil {
				c.Violate("C23", "client-error", "%s: no client can be made of the configuration: %v\n%s", where, err, trace())
				return
			}
			f.mu.Lock()
			f.only = only
			f.mu.Unlock()
			rq := kmsg.NewPtrMetadataRequest()
			rq.Topics = []kmsg.MetadataRequestTopic{}
			if _, err := k.Request(ctx, rq); err != nil {
				failed = err.Error()
			}
			k.Close()
		}
		if ctx.Err() != nil {
			c.Inconclusive("a client was too slow")
			return
		}
		f.mu.Lock()
		defer f.mu.Unlock()
		var got, dialed []string
		for a := range f.served {
			got = append(got, a)
		}
		for a := range f.dials {
			dialed = append(dialed, a)
		}
		sort.Strings(got)
		sort.Strings(dialed)
		state := fmt.Sprintf("connected to %v, served by %v, want %v, error %q, refused %v\n%s", dialed, got, want, failed, f.refused, trace())
		if fmt.Sprint(dialed) != fmt.Sprint(want) {
			if !(unable && len(dialed) == 0) {
				c.Violate("C23", "addresses", "%s: %s", where, state)
			}
			return
		}
		if unable || s.failed() > before {
			if len(f.refused) > 0 {
				c.Violate("C23", "wrong-credentials", "%s: other credentials than those of the provider were sent: %s", where, state)
			}
			if unable && failed == "" {
				c.Violate("C23", "no-error", "%s: connected although there are no credentials: %s", where, state)
			}
			c.Count("connections without credentials", 1)
			return
		}
		switch {
		case len(f.refused) > 0:
			c.Violate("C23", "refused", "%s: %s", where, state)
		case failed != "" || fmt.Sprint(got) != fmt.Sprint(want):
			c.Violate("C23", "not-served", "%s: %s", where, state)
		case len(f.ids) != 1 || !f.ids[id]:
			c.Violate("C23", "options", "%s: the client options are not in effect, client IDs are %v, want %s: %s", where, f.ids, id, state)
		default:
			c.Count("connections made", int64(len(got)))
		}
	}
	var steps []string
	made := 0
	for i := range 2 + r.IntN(5) {
		k := r.IntN(6)
		steps = append(steps, fmt.Sprint(k))
		where := fmt.Sprintf("step %d", i)
		switch k {
		case 0:
			if how != 0 {
				v.rotate()
			}
		case 1: // the cluster appears, or its addresses do. They never change: a configuration is remembered.
			s.mu.Lock()
			if find() == nil {
				s.clusters = append(s.clusters, mkCluster(region, name))
			} else if cl := find(); cl.addrs[kind] == nil {
				cl.addrs[kind] = mkCluster(region, name).addrs[kind]
			}
			s.mu.Unlock()
		case 2:
			if how != 0 && pv > 0 {
				v.mu.Lock()
				v.downNow = !v.downNow
				v.mu.Unlock()
			}
		case 3: // several at once
			var wg sync.WaitGroup
			var all [3][]kgo.Opt
			for j := range all {
				wg.Add(1)
				go func() {
					defer wg.Done()
					all[j], _ = config(where)
				}()
			}
			wg.Wait()
			for j, o := range all {
				if o != nil {
					connect(fmt.Sprintf("%s, call %d", where, j), o)
				}
			}
		default:
			if o, ok := config(where); ok {
				made++
				connect(where, o)
			}
		}
		if c.Violations() > 0 {
			return
		}
	}
	// nothing fails any more: whatever went wrong before must not be remembered
	mu.Lock()
	healthy = true
	mu.Unlock()
	v.mu.Lock()
	v.downNow = false
	v.mu.Unlock()
	for range 2 {
		if o, ok := config("at the end"); ok {
			made++
			connect("at the end", o)
		}
	}
	c.Count("calls of the service", int64(s.calls))
	c.Count("failures injected", int64(s.failed()))
	c.Count("authentications", int64(f.auths))
	c.Saw(core.HashStr(fmt.Sprint(trace(), steps, v.n)))
	c.Sample("%s", trace())
}
