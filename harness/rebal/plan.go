package rebal

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
	"verifh/core"
)

func init() {
	core.Register("plan", planEngine)
	core.Register("rounds", roundsEngine)
}

// idle is a client which is never used: it is only asked for another round.
func idle() *kgo.Client {
	cl, err := kgo.NewClient(kgo.SeedBrokers("nowhere:1"), kgo.Dialer(nil))
	if err != nil {
		panic(err)
	}
	return cl
}

type noHandler struct{}

func (noHandler) PrepareTopicPartition(TP)        {}
func (noHandler) ForgetPreparedTopicPartition(TP) {}
func (noHandler) Client() *kgo.Client             { return nil }

// leaderPlan lets a balancer make the plan for the given members.
func leaderPlan(b kgo.GroupBalancer, members []kmsg.JoinGroupResponseMember, counts map[string]int32) (map[string]Plan, map[string][]byte, error) {
	mb, topics, err := b.MemberBalancer(members)
	if err != nil {
		return nil, nil, err
	}
	data := map[string]int32{}
	for t := range topics {
		if n, ok := counts[t]; ok {
			data[t] = n
		}
	}
	var into kgo.IntoSyncAssignment
	if e, ok := mb.(kgo.GroupMemberBalancerOrError); ok {
		if into, err = e.BalanceOrError(data); err != nil {
			return nil, nil, err
		}
	} else {
		into = mb.Balance(data)
	}
	plans, raw := map[string]Plan{}, map[string][]byte{}
	for _, a := range into.IntoSyncAssignment() {
		if _, ok := plans[a.MemberID]; ok {
			return nil, nil, fmt.Errorf("two assignments for %s", a.MemberID)
		}
		p, err := ParsePlan(a.MemberAssignment)
		if err != nil {
			return nil, nil, err
		}
		plans[a.MemberID], raw[a.MemberID] = p, a.MemberAssignment
	}
	return plans, raw, nil
}

func metadata(topics []string, owned map[TP]bool, user []byte) []byte {
	m := kmsg.NewConsumerMemberMetadata()
	m.Topics, m.Version, m.UserData = topics, 1, user
	by := map[string][]int32{}
	for tp := range owned {
		by[tp.Topic] = append(by[tp.Topic], tp.Partition)
	}
	for t, l := range by {
		o := kmsg.NewConsumerMemberMetadataOwnedPartition()
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		o.Topic, o.Partitions = t, l
		m.OwnedPartitions = append(m.OwnedPartitions, o)
	}
	return m.AppendTo(nil)
}

// planEngine: single plans for arbitrary group states, many of which the protocol reaches only by accident.
func planEngine(c *core.Ctx) {
	r := c.Rng
	topics := []string{"a", "b", "c"}[:1+r.IntN(2)+r.IntN(2)]
	counts := map[string]int32{}
	for _, t := range topics {
		counts[t] = int32(1 + r.IntN([]int{3, 12, 60}[r.IntN(3)]))
	}
	for k := 0; k < 6; k++ {
		n := 1 + r.IntN(7)
		dup, gaps := 0, r.IntN(3)
		if r.IntN(4) == 0 {
			dup = 1 + r.IntN(8)
		}
		single := r.IntN(3) > 0 // everybody wants all topics
		var ms []Meta
		for i := 0; i < n; i++ {
			m := Meta{ID: fmt.Sprintf("m%d", i), Owned: map[TP]bool{}}
			for _, t := range topics {
				if single || r.IntN(3) > 0 {
					m.Topics = append(m.Topics, t)
				}
			}
			if r.IntN(4) == 0 {
				m.Status = []streams.MemberStatus{streams.InactiveMember, streams.InactiveMember, streams.Defunct}[r.IntN(3)]
				m.LeftAt = int64(r.IntN(3))
			}
			ms = append(ms, m)
		}
		skew := r.IntN(3) == 0
		for _, t := range topics {
			var subs []int
			for i := range ms {
				if ms[i].subscribed(t) {
					subs = append(subs, i)
				}
			}
			if len(subs) == 0 {
				continue
			}
			for p := int32(0); p < counts[t]; p++ {
				tp := TP{Partition: p, Topic: t}
				if r.IntN(10) < gaps {
					continue
				}
				x := subs[r.IntN(len(subs))]
				if skew && r.IntN(5) > 0 {
					x = subs[0]
				}
				ms[x].Owned[tp] = true
				if dup > 0 && r.IntN(10) < dup {
					ms[subs[r.IntN(len(subs))]].Owned[tp] = true
				}
			}
			for q := r.IntN(3); q > 0 && r.IntN(2) == 0; q-- {
				tp := TP{Partition: int32(r.IntN(int(counts[t]))), Topic: t}
				x := subs[r.IntN(len(subs))]
				if ms[x].Owned[tp] || has(ms[x].Ready, tp) || has(ms[x].Preparing, tp) {
					continue
				}
				if r.IntN(2) == 0 {
					ms[x].Ready = append(ms[x].Ready, tp)
				} else {
					ms[x].Preparing = append(ms[x].Preparing, tp)
				}
			}
		}
		var jm []kmsg.JoinGroupResponseMember
		for i := range ms {
			m := kmsg.NewJoinGroupResponseMember()
			m.MemberID = ms[i].ID
			user, _ := json.Marshal(ms[i].IncrGroupMemberMeta)
			if r.IntN(12) == 0 && len(ms[i].Ready)+len(ms[i].Preparing) == 0 && ms[i].Status == streams.ActiveMember {
				user = nil // a member of another kind
			}
			m.ProtocolMetadata = metadata(ms[i].Topics, ms[i].Owned, user)
			jm = append(jm, m)
		}
		r.Shuffle(len(jm), func(i, j int) { jm[i], jm[j] = jm[j], jm[i] })
		plan, _, err := leaderPlan(streams.IncrementalRebalancer(noHandler{}), jm, counts)
		if err != nil {
			c.Violate("C12", "no plan", "%v\n%s", err, Describe(ms, nil))
			return
		}
		for _, p := range CheckPlan(ms, plan, counts) {
			c.Violate("C12", p.Kind, "%s\npartitions %v\n%s", p.Detail, counts, Describe(ms, plan))
		}
		c.Count("plans checked", 1)
		c.Saw(core.HashStr(Describe(ms, nil)))
		c.Sample("%s", Describe(ms, plan))
	}
}

type simMember struct {
	w        *watched
	h        *handler
	owned    map[TP]bool
	topics   []string
	ctx      context.Context
	pending  []TP // preparations in progress
	graceful <-chan struct{}
	leaving  bool
}

// roundsEngine: real balancers as members of a simulated group, with random histories of rounds.
func roundsEngine(c *core.Ctx) {
	r := c.Rng
	core.ApplyPerturb(core.Perturb{Seed: r.Uint64(), YieldProb: uint32(r.IntN(40000))})
	defer core.ApplyPerturb(core.Perturb{})
	synctest.Test(c.T, func(t *testing.T) {
		cl := idle()
		defer cl.Close()
		rounds(c, r, cl)
		time.Sleep(2 * time.Second)
	})
}

func rounds(c *core.Ctx, r *rand.Rand, cl *kgo.Client) {
	topics := []string{"a", "b"}[:1+r.IntN(4)/3]
	counts := map[string]int32{}
	total := 0
	for _, t := range topics {
		counts[t] = int32(1 + r.IntN([]int{4, 12, 30}[r.IntN(3)]))
		total += int(counts[t])
	}
	var ms []*simMember
	var gone []*simMember
	var log []string
	nm := 0
	fail := func(prop, kind, f string, a ...any) {
		c.Violate(prop, kind, "%s\npartitions %v\n%v", fmt.Sprintf(f, a...), counts, log)
	}
	join := func() {
		m := &simMember{owned: map[TP]bool{}, topics: topics}
		m.w = newWatched(fmt.Sprintf("m%d", nm), fail)
		nm++
		m.h = &handler{w: m.w, client: func() *kgo.Client { return cl }}
		m.h.onPrepare = func(tp TP) {
			m.w.mu.Lock()
			m.pending = append(m.pending, tp)
			m.w.mu.Unlock()
		}
		m.h.onForget = func(tp TP) {
			m.w.mu.Lock()
			var l []TP
			for _, x := range m.pending {
				if x != tp {
					l = append(l, x)
				}
			}
			m.pending = l
			m.w.mu.Unlock()
		}
		m.w.IncrementalGroupRebalancer = streams.IncrementalRebalancer(m.h)
		ms = append(ms, m)
		log = append(log, "join "+m.w.name)
	}
	take := func(m *simMember) (TP, bool) {
		m.w.mu.Lock()
		defer m.w.mu.Unlock()
		if len(m.pending) == 0 {
			return TP{}, false
		}
		i := r.IntN(len(m.pending))
		tp := m.pending[i]
		m.pending = append(m.pending[:i:i], m.pending[i+1:]...)
		return tp, true
	}
	var metas []Meta
	round := func() bool {
		var jm []kmsg.JoinGroupResponseMember
		metas = nil
		for _, m := range ms {
			cur := map[string][]int32{}
			for tp := range m.owned {
				cur[tp.Topic] = append(cur[tp.Topic], tp.Partition)
			}
			b := m.w.JoinGroupMetadata(m.topics, cur, 1)
			me, err := ParseMeta(m.w.name, b)
			if err != nil {
				return false
			}
			metas = append(metas, me)
			j := kmsg.NewJoinGroupResponseMember()
			j.MemberID, j.ProtocolMetadata = m.w.name, b
			jm = append(jm, j)
		}
		r.Shuffle(len(jm), func(i, j int) { jm[i], jm[j] = jm[j], jm[i] })
		plan, raw, err := leaderPlan(ms[r.IntN(len(ms))].w, jm, counts)
		if err != nil {
			fail("C12", "no plan", "%v\n%s", err, Describe(metas, nil))
			return false
		}
		c.Count("plans checked", 1)
		probs := CheckPlan(metas, plan, counts)
		for _, p := range probs {
			fail("C12", p.Kind, "%s\n%s", p.Detail, Describe(metas, plan))
		}
		log = append(log, "round")
		for _, m := range ms {
			got, err := m.w.ParseSyncAssignment(raw[m.w.name])
			if err != nil && len(raw[m.w.name]) > 0 {
				fail("C13", "sync assignment refused", "%v", err)
				return false
			}
			next := map[TP]bool{}
			var added []TP
			for t, l := range got {
				for _, p := range l {
					tp := TP{Partition: p, Topic: t}
					next[tp] = true
					if !m.owned[tp] {
						added = append(added, tp)
					}
				}
			}
			m.owned = next
			if len(added) > 0 {
				m.w.PartitionsAssigned(added...)
			}
		}
		synctest.Wait()
		var rest []*simMember
		for _, m := range ms {
			closed := false
			select {
			case <-m.graceful:
				closed = true
			default:
			}
			if closed && len(m.owned) > 0 {
				fail("C13", "leave finished although partitions are owned", "%s", m.w.history())
			}
			if closed && r.IntN(3) > 0 { // it takes a while to leave
				log = append(log, "left "+m.w.name)
				gone = append(gone, m)
				continue
			}
			rest = append(rest, m)
		}
		ms = rest
		return len(probs) == 0
	}
	act := func() {
		switch k := r.IntN(16); {
		case k < 7:
			m := ms[r.IntN(len(ms))]
			if tp, ok := take(m); ok {
				if r.IntN(6) == 0 {
					log = append(log, fmt.Sprintf("%s fails %v", m.w.name, tp))
					m.w.PartitionPreparationFailed(tp)
				} else {
					log = append(log, fmt.Sprintf("%s prepared %v", m.w.name, tp))
					m.w.PartitionPrepared(tp)
				}
			}
		case k < 10:
			if len(ms) < 7 {
				join()
			}
		case k < 12:
			m := ms[r.IntN(len(ms))]
			log = append(log, m.w.name+" leaves")
			m.graceful = m.w.GracefullyLeaveGroup()
			m.leaving = true
			if r.IntN(2) == 0 {
				time.Sleep(time.Duration(r.IntN(5)) * time.Millisecond)
			}
		case k < 13:
			if len(ms) > 1 {
				i := r.IntN(len(ms))
				log = append(log, ms[i].w.name+" crashes")
				gone = append(gone, ms[i])
				ms = append(ms[:i:i], ms[i+1:]...)
			}
		default:
			// a member which reports what it was never asked for
			m := ms[r.IntN(len(ms))]
			tp := TP{Partition: int32(r.IntN(3)), Topic: topics[0]}
			m.w.mu.Lock()
			known := has(m.pending, tp)
			m.w.mu.Unlock()
			if known {
				return
			}
			if r.IntN(2) == 0 {
				m.w.PartitionPreparationFailed(tp)
			} else {
				m.w.PartitionPrepared(tp)
			}
		}
		synctest.Wait()
	}
	for i := 1 + r.IntN(4); i > 0; i-- {
		join()
	}
	for i := r.IntN(40); i > 0; i-- {
		if len(ms) == 0 {
			join()
		}
		if r.IntN(3) == 0 {
			act()
		} else if !round() {
			return
		}
	}
	if len(ms) == 0 {
		join()
	}
	anyActive := false
	for _, m := range ms {
		anyActive = anyActive || !m.leaving
	}
	if !anyActive {
		join()
	}
	// from here on everybody is prompt
	limit := 8*total + 60
	n := 0
	for ; n < limit; n++ {
		if len(ms) == 0 || !round() {
			return
		}
		if _, ok := Balanced(metas, counts); ok {
			break
		}
		for _, m := range ms {
			for {
				tp, ok := take(m)
				if !ok {
					break
				}
				m.w.PartitionPrepared(tp)
			}
		}
		synctest.Wait()
	}
	why, ok := Balanced(metas, counts)
	if !ok {
		fail("C12", "does not converge", "after %d rounds: %s\n%s", n, why, Describe(metas, nil))
		return
	}
	before := Describe(metas, nil)
	for i := 0; i < 4; i++ {
		departing := len(ms)
		if !round() {
			return
		}
		if d := Describe(metas, nil); d != before && departing == len(metas) && i > 0 {
			// members which finished leaving are still counted until they are gone
			same := true
			if _, ok := Balanced(metas, counts); !ok {
				same = false
			}
			if !same {
				fail("C12", "a balanced group changes", "before:\n%s\nafter:\n%s", before, d)
				return
			}
		}
		before = Describe(metas, nil)
	}
	time.Sleep(3 * time.Second)
	synctest.Wait()
	for _, m := range append(ms, gone...) {
		m.w.finished()
		c.Count("joins checked", int64(m.w.checked))
		if m.leaving {
			select {
			case <-m.graceful:
			default:
				if !contains(gone, m) {
					fail("C13", "leave not finished although nothing is owned", "%s", m.w.history())
				}
			}
		}
	}
	c.Count("rounds to balance", int64(n))
	c.Saw(core.HashStr(fmt.Sprint(log, before)))
	c.Sample("%v\n%s", log, before)
}

func contains(l []*simMember, m *simMember) bool {
	for _, x := range l {
		if x == m {
			return true
		}
	}
	return false
}
