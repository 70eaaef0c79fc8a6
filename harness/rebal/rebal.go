// Package rebal watches the incremental balancer: the plans it makes (C12) and how members follow them (C13).
package rebal

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"
)

type TP = streams.TopicPartition

// Meta is what one member said when it joined.
type Meta struct {
	ID     string
	Topics []string
	Owned  map[TP]bool
	streams.IncrGroupMemberMeta
}

// Plan is what one member was told.
type Plan struct {
	Assigned        map[TP]bool
	Prepare, Forget []TP
}

type Problem struct{ Kind, Detail string }

// ParseMeta reads join metadata.
func ParseMeta(id string, b []byte) (Meta, error) {
	m := Meta{ID: id, Owned: map[TP]bool{}}
	var cm kmsg.ConsumerMemberMetadata
	if err := cm.ReadFrom(b); err != nil {
		return m, err
	}
	m.Topics = cm.Topics
	for _, o := range cm.OwnedPartitions {
		for _, p := range o.Partitions {
			m.Owned[TP{Partition: p, Topic: o.Topic}] = true
		}
	}
	if len(cm.UserData) > 0 {
		return m, json.Unmarshal(cm.UserData, &m.IncrGroupMemberMeta)
	}
	return m, nil
}

// ParsePlan reads a sync assignment.
func ParsePlan(b []byte) (Plan, error) {
	p := Plan{Assigned: map[TP]bool{}}
	if len(b) == 0 {
		return p, nil
	}
	var a kmsg.ConsumerMemberAssignment
	if err := a.ReadFrom(b); err != nil {
		return p, err
	}
	for _, t := range a.Topics {
		for _, q := range t.Partitions {
			tp := TP{Partition: q, Topic: t.Topic}
			if p.Assigned[tp] {
				return p, fmt.Errorf("%v is repeated", tp)
			}
			p.Assigned[tp] = true
		}
	}
	var in streams.IncrGroupMemberInstructions
	if len(a.UserData) > 0 {
		if err := json.Unmarshal(a.UserData, &in); err != nil {
			return p, err
		}
	}
	p.Prepare, p.Forget = in.Prepare, in.Forget
	return p, nil
}

func has(l []TP, tp TP) bool {
	for _, x := range l {
		if x == tp {
			return true
		}
	}
	return false
}

func (m *Meta) subscribed(topic string) bool {
	for _, t := range m.Topics {
		if t == topic {
			return true
		}
	}
	return false
}

func sorted(s map[TP]bool) string {
	var l []string
	for tp := range s {
		l = append(l, fmt.Sprintf("%s/%d", tp.Topic, tp.Partition))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// Describe prints a generation.
func Describe(ms []Meta, plan map[string]Plan) string {
	var sb strings.Builder
	for _, m := range ms {
		fmt.Fprintf(&sb, "%s status=%d left=%d owned=[%s] preparing=%v ready=%v -> ", m.ID, m.Status, m.LeftAt, sorted(m.Owned), m.Preparing, m.Ready)
		p := plan[m.ID]
		fmt.Fprintf(&sb, "assigned=[%s] prepare=%v forget=%v\n", sorted(p.Assigned), p.Prepare, p.Forget)
	}
	return sb.String()
}

// CheckPlan decides whether a plan may follow from what the members said. counts are the partitions of each topic.
func CheckPlan(ms []Meta, plan map[string]Plan, counts map[string]int32) (out []Problem) {
	bad := func(kind, f string, a ...any) {
		out = append(out, Problem{kind, fmt.Sprintf(f, a...)})
	}
	byID := map[string]*Meta{}
	for i := range ms {
		byID[ms[i].ID] = &ms[i]
	}
	to := map[TP]string{}
	var ids []string
	for id := range plan {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		m := byID[id]
		if m == nil {
			if len(plan[id].Assigned) > 0 {
				bad("plan for somebody who is not a member", "%s", id)
			}
			continue
		}
		for tp := range plan[id].Assigned {
			if o, ok := to[tp]; ok {
				bad("partition assigned to two members", "%v to %s and %s", tp, o, id)
			}
			to[tp] = id
			if n := counts[tp.Topic]; tp.Partition < 0 || tp.Partition >= n || !m.subscribed(tp.Topic) {
				bad("assigned what does not exist or is not wanted", "%v to %s", tp, id)
			}
			if m.Status != streams.ActiveMember && !m.Owned[tp] {
				bad("departing member receives a partition", "%v to %s", tp, id)
			}
		}
		if m.Status != streams.ActiveMember && len(plan[id].Prepare) > 0 {
			bad("departing member told to prepare", "%v: %v", id, plan[id].Prepare)
		}
	}
	owner := map[TP]string{}
	claims := map[TP]int{}
	readyBy := map[TP][]string{}
	prepBy := map[TP][]string{}
	active := map[string]int{}
	motion := map[string]map[TP]bool{}
	for i := range ms {
		m := &ms[i]
		for tp := range m.Owned {
			owner[tp] = m.ID
			claims[tp]++
		}
		if m.Status != streams.ActiveMember {
			continue
		}
		for _, t := range m.Topics {
			active[t]++
		}
		for _, tp := range m.Ready {
			if m.subscribed(tp.Topic) {
				readyBy[tp] = append(readyBy[tp], m.ID)
			}
		}
		for _, tp := range m.Preparing {
			if m.subscribed(tp.Topic) {
				prepBy[tp] = append(prepBy[tp], m.ID)
			}
		}
	}
	in := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	for topic, n := range counts {
		motion[topic] = map[TP]bool{}
		if active[topic] == 0 {
			continue // everybody leaves, nobody can take over
		}
		for p := int32(0); p < n; p++ {
			tp := TP{Partition: p, Topic: topic}
			if len(readyBy[tp])+len(prepBy[tp]) > 0 {
				motion[topic][tp] = true
			}
			if claims[tp] > 1 {
				continue
			}
			own, owned := owner[tp], claims[tp] == 1
			if owned && !byID[own].subscribed(topic) {
				continue
			}
			got, ok := to[tp]
			switch {
			case owned && ok && got != own:
				bad("partition assigned while another member still owns it", "%v is owned by %s and assigned to %s", tp, own, got)
			case owned && !ok:
				// it is on it's way
				r := readyBy[tp]
				if len(r) == 0 || len(r) == 1 && r[0] == own {
					bad("partition taken away although nobody is ready for it", "%v is taken from %s; ready: %v, preparing: %v", tp, own, r, prepBy[tp])
				}
			case !owned && !ok:
				bad("partition left without an owner", "%v; ready: %v, preparing: %v", tp, readyBy[tp], prepBy[tp])
			case !owned:
				if len(readyBy[tp]) > 0 && !in(readyBy[tp], got) && !in(prepBy[tp], got) {
					bad("partition assigned to a member which is not ready", "%v to %s, but %v are ready", tp, got, readyBy[tp])
				}
			}
		}
	}
	fresh := map[string][]TP{}
	for _, id := range ids {
		for _, tp := range plan[id].Prepare {
			fresh[tp.Topic] = append(fresh[tp.Topic], tp)
			m := byID[id]
			if m == nil {
				continue
			}
			if claims[tp] < 2 && (m.Owned[tp] || plan[id].Assigned[tp]) {
				bad("told to prepare what it owns", "%v: %s", tp, id)
			}
			if o := to[tp]; claims[tp] < 2 && o != owner[tp] {
				bad("told to prepare what is not to be moved", "%v: %s, it is assigned to %q and owned by %q", tp, id, o, owner[tp])
			}
		}
	}
	for topic, l := range fresh {
		if len(l) > 1 || len(motion[topic]) > 0 {
			bad("more than one partition in motion", "%s: told to prepare %v while %s are prepared or ready", topic, l, sorted(motion[topic]))
		}
	}
	return out
}

// Balanced tells whether nothing is left to be done.
func Balanced(ms []Meta, counts map[string]int32) (string, bool) {
	for topic, n := range counts {
		seen := map[int32]bool{}
		lo, hi, act := int(n), 0, 0
		for i := range ms {
			m := &ms[i]
			k := 0
			for tp := range m.Owned {
				if tp.Topic == topic {
					if seen[tp.Partition] {
						return fmt.Sprintf("%v is owned twice", tp), false
					}
					seen[tp.Partition] = true
					k++
				}
			}
			if len(m.Preparing)+len(m.Ready) > 0 {
				return fmt.Sprintf("%s is preparing %v, ready for %v", m.ID, m.Preparing, m.Ready), false
			}
			if m.Status != streams.ActiveMember {
				if k > 0 {
					return fmt.Sprintf("%s leaves and owns %d", m.ID, k), false
				}
				continue
			}
			if !m.subscribed(topic) {
				continue
			}
			act++
			lo, hi = min(lo, k), max(hi, k)
		}
		if act == 0 {
			continue
		}
		if len(seen) != int(n) {
			return fmt.Sprintf("%d of %d partitions of %s are owned", len(seen), n, topic), false
		}
		if hi-lo > 1 {
			return fmt.Sprintf("members own between %d and %d partitions of %s", lo, hi, topic), false
		}
	}
	return "", true
}
