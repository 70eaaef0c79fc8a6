package kbroker

import (
	"bytes"
	"fmt"
	"time"

	"github.com/twmb/franz-go/pkg/kmsg"
)

type gstate int

const (
	gEmpty gstate = iota
	gPreparing
	gCompleting
	gStable
)

func (s gstate) String() string {
	return [...]string{"Empty", "PreparingRebalance", "CompletingRebalance", "Stable"}[s]
}

type member struct {
	id, inst, client string
	session          time.Duration
	touched          int
	rebalance        time.Duration
	protos           []kmsg.JoinGroupRequestProtocol
	assignment       []byte
	joining          chan *kmsg.JoinGroupResponse // non-nil while waiting in JoinGroup
	syncing          chan *kmsg.SyncGroupResponse
	timer            *time.Timer
	joinVersion      int16
}

type group struct {
	b          *Cluster
	name       string
	state      gstate
	gen        int32
	members    map[string]*member
	order      []string
	leader     string
	protoType  string
	proto      string
	joinTimer  *time.Timer
	pendingIDs map[string]bool
	offsets    map[string]map[int32]int64
	nextMember int
	hadDelay   bool
}

func (b *Cluster) group(name string) *group {
	g := b.groups[name]
	if g == nil {
		g = &group{b: b, name: name, members: map[string]*member{}, pendingIDs: map[string]bool{}, offsets: map[string]map[int32]int64{}}
		b.groups[name] = g
	}
	return g
}

func (g *group) remove(id string) {
	m := g.members[id]
	if m == nil {
		return
	}
	if m.timer != nil {
		m.timer.Stop()
	}
	delete(g.members, id)
	for i, o := range g.order {
		if o == id {
			g.order = append(g.order[:i:i], g.order[i+1:]...)
			break
		}
	}
	if g.leader == id {
		g.leader = ""
	}
	if m.joining != nil {
		r := kmsg.NewPtrJoinGroupResponse()
		r.ErrorCode = errUnknownMember
		m.joining <- r
		m.joining = nil
	}
	if m.syncing != nil {
		r := kmsg.NewPtrSyncGroupResponse()
		r.ErrorCode = errUnknownMember
		m.syncing <- r
		m.syncing = nil
	}
	switch g.state {
	case gStable, gCompleting:
		g.prepare()
	case gPreparing:
		g.maybeComplete()
	}
}

func (g *group) touch(m *member) {
	if m.timer != nil {
		m.timer.Stop()
	}
	id := m.id
	m.touched++
	n := m.touched
	m.timer = time.AfterFunc(m.session, func() {
		g.b.mu.Lock()
		defer g.b.mu.Unlock()
		cur := g.members[id]
		if cur != m || m.touched != n {
			return
		}
		if m.joining != nil || m.syncing != nil {
			return
		}
		g.b.logf("group %s: member %s expired", g.name, id)
		if g.b.OnGone != nil {
			g.b.OnGone(g.name, m.inst, "session")
		}
		g.remove(id)
	})
}

// prepare moves the group to PreparingRebalance.
func (g *group) prepare() {
	for _, m := range g.members {
		if m.syncing != nil {
			r := kmsg.NewPtrSyncGroupResponse()
			r.ErrorCode = errRebalanceInProgress
			m.syncing <- r
			m.syncing = nil
			g.touch(m)
		}
	}
	was := g.state
	g.state = gPreparing
	if g.joinTimer != nil {
		g.joinTimer.Stop()
	}
	var to time.Duration
	for _, m := range g.members {
		to = max(to, m.rebalance)
	}
	if was == gEmpty && g.b.cfg.JoinDelay > 0 {
		g.hadDelay = true
		g.joinTimer = time.AfterFunc(g.b.cfg.JoinDelay, func() {
			g.b.mu.Lock()
			defer g.b.mu.Unlock()
			g.hadDelay = false
			if g.state == gPreparing {
				g.complete()
			}
		})
		return
	}
	gen := g.gen
	g.joinTimer = time.AfterFunc(to, func() {
		g.b.mu.Lock()
		defer g.b.mu.Unlock()
		if g.state == gPreparing && g.gen == gen {
			g.complete()
		}
	})
	g.maybeComplete()
}

func (g *group) maybeComplete() {
	if g.state != gPreparing || g.hadDelay {
		return
	}
	for _, m := range g.members {
		if m.joining == nil {
			return
		}
	}
	g.complete()
}

func (g *group) complete() {
	if g.joinTimer != nil {
		g.joinTimer.Stop()
	}
	var gone []string
	for id, m := range g.members {
		if m.joining == nil {
			gone = append(gone, id)
		}
	}
	for _, id := range gone {
		m := g.members[id]
		if g.b.OnGone != nil {
			g.b.OnGone(g.name, m.inst, "rebalance")
		}
		if m.timer != nil {
			m.timer.Stop()
		}
		delete(g.members, id)
		for i, o := range g.order {
			if o == id {
				g.order = append(g.order[:i:i], g.order[i+1:]...)
				break
			}
		}
		if g.leader == id {
			g.leader = ""
		}
	}
	g.gen++
	if len(g.members) == 0 {
		g.state = gEmpty
		g.proto, g.leader = "", ""
		return
	}
	if g.leader == "" {
		g.leader = g.order[0]
	}
	// the protocol every member supports that most members prefer
	votes := map[string]int{}
	for _, m := range g.members {
		for _, p := range m.protos {
			ok := true
			for _, o := range g.members {
				has := false
				for _, q := range o.protos {
					has = has || q.Name == p.Name
				}
				ok = ok && has
			}
			if ok {
				votes[p.Name]++
				break
			}
		}
	}
	g.proto = ""
	best := 0
	for n, v := range votes {
		if v > best || v == best && n < g.proto {
			g.proto, best = n, v
		}
	}
	g.state = gCompleting
	for _, id := range g.order {
		m := g.members[id]
		m.assignment = nil
		r := kmsg.NewPtrJoinGroupResponse()
		r.Generation = g.gen
		r.Protocol = kmsg.StringPtr(g.proto)
		r.LeaderID = g.leader
		r.MemberID = id
		if id == g.leader {
			for _, oid := range g.order {
				o := g.members[oid]
				jm := kmsg.NewJoinGroupResponseMember()
				jm.MemberID = oid
				for _, p := range o.protos {
					if p.Name == g.proto {
						jm.ProtocolMetadata = p.Metadata
					}
				}
				r.Members = append(r.Members, jm)
			}
		}
		m.joining <- r
		m.joining = nil
		g.touch(m)
	}
}

func (b *Cluster) joinGroup(in *Instance, r *kmsg.JoinGroupRequest) kmsg.Response {
	fail := func(code int16) kmsg.Response {
		resp := r.ResponseKind().(*kmsg.JoinGroupResponse)
		resp.ErrorCode = code
		resp.MemberID = r.MemberID
		return resp
	}
	b.mu.Lock()
	if in.Dead() {
		b.mu.Unlock()
		return nil
	}
	g := b.group(r.Group)
	if len(g.members) > 0 {
		ok := false
		for _, p := range r.Protocols {
			all := true
			for id, o := range g.members {
				if id == r.MemberID {
					continue
				}
				has := false
				for _, q := range o.protos {
					has = has || q.Name == p.Name
				}
				all = all && has
			}
			ok = ok || all
		}
		if !ok {
			b.mu.Unlock()
			return fail(errInconsistentProto)
		}
	}
	id := r.MemberID
	m := g.members[id]
	if id == "" {
		g.nextMember++
		id = fmt.Sprintf("%s-%s-%d", in.Name, r.Group, g.nextMember)
		if r.Version >= 4 {
			g.pendingIDs[id] = true
			b.mu.Unlock()
			resp := r.ResponseKind().(*kmsg.JoinGroupResponse)
			resp.ErrorCode = errMemberIDRequired
			resp.MemberID = id
			return resp
		}
	} else if m == nil {
		if !g.pendingIDs[id] {
			b.mu.Unlock()
			return fail(errUnknownMember)
		}
		delete(g.pendingIDs, id)
	}
	sameMeta := false
	if m == nil {
		m = &member{id: id, inst: in.Name}
		g.members[id] = m
		g.order = append(g.order, id)
	} else {
		sameMeta = len(m.protos) == len(r.Protocols)
		for i := range r.Protocols {
			if sameMeta && (m.protos[i].Name != r.Protocols[i].Name || !bytes.Equal(m.protos[i].Metadata, r.Protocols[i].Metadata)) {
				sameMeta = false
			}
		}
		if m.joining != nil { // a retried join replaces the earlier one
			old := kmsg.NewPtrJoinGroupResponse()
			old.ErrorCode = errRebalanceInProgress
			m.joining <- old
			m.joining = nil
		}
		if m.syncing != nil {
			old := kmsg.NewPtrSyncGroupResponse()
			old.ErrorCode = errRebalanceInProgress
			m.syncing <- old
			m.syncing = nil
		}
	}
	m.session = time.Duration(r.SessionTimeoutMillis) * time.Millisecond
	m.rebalance = time.Duration(r.RebalanceTimeoutMillis) * time.Millisecond
	m.protos = r.Protocols
	m.joinVersion = r.Version
	g.protoType = r.ProtocolType
	ch := make(chan *kmsg.JoinGroupResponse, 1)
	current := func() {
		resp := kmsg.NewPtrJoinGroupResponse()
		resp.Generation, resp.Protocol, resp.LeaderID, resp.MemberID = g.gen, kmsg.StringPtr(g.proto), g.leader, id
		if id == g.leader {
			for _, oid := range g.order {
				o := g.members[oid]
				jm := kmsg.NewJoinGroupResponseMember()
				jm.MemberID = oid
				for _, p := range o.protos {
					if p.Name == g.proto {
						jm.ProtocolMetadata = p.Metadata
					}
				}
				resp.Members = append(resp.Members, jm)
			}
		}
		ch <- resp
		g.touch(m)
	}
	switch {
	case g.state == gStable && sameMeta && id != g.leader:
		current()
	case g.state == gCompleting && sameMeta:
		current()
	case g.state == gPreparing:
		m.joining = ch
		g.maybeComplete()
	default:
		m.joining = ch
		g.prepare()
	}
	b.mu.Unlock()
	resp := <-ch
	resp.Version = r.Version
	return resp
}

func (b *Cluster) syncGroup(in *Instance, r *kmsg.SyncGroupRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.SyncGroupResponse)
	b.mu.Lock()
	if in.Dead() {
		b.mu.Unlock()
		return nil
	}
	g := b.group(r.Group)
	m := g.members[r.MemberID]
	switch {
	case m == nil:
		resp.ErrorCode = errUnknownMember
	case r.Generation != g.gen:
		resp.ErrorCode = errIllegalGeneration
	case g.state == gPreparing:
		resp.ErrorCode = errRebalanceInProgress
	case g.state == gStable:
		resp.MemberAssignment = m.assignment
		g.touch(m)
	case g.state == gCompleting:
		ch := make(chan *kmsg.SyncGroupResponse, 1)
		m.syncing = ch
		if m.id == g.leader {
			for _, a := range r.GroupAssignment {
				if o := g.members[a.MemberID]; o != nil {
					o.assignment = append([]byte(nil), a.MemberAssignment...)
				}
			}
			g.state = gStable
			if b.OnSync != nil {
				p := SyncPlan{Group: g.name, Gen: g.gen, Protocol: g.proto, Leader: in.Name, Assigned: map[string][]byte{}}
				for _, id := range g.order {
					o := g.members[id]
					sm := SyncMember{ID: id, Inst: o.inst}
					for _, q := range o.protos {
						if q.Name == g.proto {
							sm.Metadata = q.Metadata
						}
					}
					p.Members = append(p.Members, sm)
				}
				for _, a := range r.GroupAssignment {
					p.Assigned[a.MemberID] = append([]byte(nil), a.MemberAssignment...)
				}
				b.OnSync(p)
			}
			for _, o := range g.members {
				if o.syncing != nil {
					or := kmsg.NewPtrSyncGroupResponse()
					or.MemberAssignment = o.assignment
					o.syncing <- or
					o.syncing = nil
					g.touch(o)
				}
			}
		}
		b.mu.Unlock()
		resp = <-ch
		resp.Version = r.Version
		return resp
	default:
		resp.ErrorCode = errUnknownMember
	}
	b.mu.Unlock()
	return resp
}

func (b *Cluster) heartbeat(r *kmsg.HeartbeatRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.HeartbeatResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group(r.Group)
	m := g.members[r.MemberID]
	switch {
	case m == nil:
		resp.ErrorCode = errUnknownMember
	case r.Generation != g.gen:
		resp.ErrorCode = errIllegalGeneration
	case g.state == gPreparing:
		resp.ErrorCode = errRebalanceInProgress
		g.touch(m)
	default:
		g.touch(m)
	}
	return resp
}

func (b *Cluster) leaveGroup(r *kmsg.LeaveGroupRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.LeaveGroupResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group(r.Group)
	ids := []string{r.MemberID}
	if r.Version >= 3 {
		ids = nil
		for _, m := range r.Members {
			ids = append(ids, m.MemberID)
			rm := kmsg.NewLeaveGroupResponseMember()
			rm.MemberID = m.MemberID
			if g.members[m.MemberID] == nil {
				rm.ErrorCode = errUnknownMember
			}
			resp.Members = append(resp.Members, rm)
		}
	} else if g.members[r.MemberID] == nil {
		resp.ErrorCode = errUnknownMember
	}
	for _, id := range ids {
		delete(g.pendingIDs, id)
		g.remove(id)
	}
	if len(g.members) == 0 && g.state != gPreparing {
		g.state = gEmpty
	}
	return resp
}

func (b *Cluster) describeGroups(r *kmsg.DescribeGroupsRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.DescribeGroupsResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, n := range r.Groups {
		rg := kmsg.NewDescribeGroupsResponseGroup()
		rg.Group = n
		g := b.groups[n]
		if g == nil {
			rg.State = "Dead"
		} else {
			rg.State, rg.ProtocolType = g.state.String(), g.protoType
			if g.state == gStable {
				rg.Protocol = g.proto
			}
			for _, id := range g.order {
				m := g.members[id]
				gm := kmsg.NewDescribeGroupsResponseGroupMember()
				gm.MemberID, gm.ClientID, gm.ClientHost = id, m.inst, "/127.0.0.1"
				if g.state == gStable {
					for _, p := range m.protos {
						if p.Name == g.proto {
							gm.ProtocolMetadata = p.Metadata
						}
					}
					gm.MemberAssignment = m.assignment
				}
				rg.Members = append(rg.Members, gm)
			}
		}
		resp.Groups = append(resp.Groups, rg)
	}
	return resp
}

func (b *Cluster) offsetCommit(in *Instance, r *kmsg.OffsetCommitRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.OffsetCommitResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group(r.Group)
	b.logf("offset commit %s %+v", in.Name, r.Topics)
	code := int16(0)
	if r.MemberID != "" || r.Generation >= 0 {
		switch m := g.members[r.MemberID]; {
		case m == nil:
			code = errUnknownMember
		case r.Generation != g.gen:
			code = errIllegalGeneration
		}
	}
	for _, t := range r.Topics {
		rt := kmsg.NewOffsetCommitResponseTopic()
		rt.Topic = t.Topic
		for _, p := range t.Partitions {
			rp := kmsg.NewOffsetCommitResponseTopicPartition()
			rp.Partition, rp.ErrorCode = p.Partition, code
			if code == 0 {
				if g.offsets[t.Topic] == nil {
					g.offsets[t.Topic] = map[int32]int64{}
				}
				g.offsets[t.Topic][p.Partition] = p.Offset
				b.Commits = append(b.Commits, OffsetCommit{r.Group, t.Topic, p.Partition, p.Offset, b.seq, in.Name})
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

func (b *Cluster) offsetFetch(r *kmsg.OffsetFetchRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.OffsetFetchResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group(r.Group)
	add := func(topic string, parts []int32) {
		rt := kmsg.NewOffsetFetchResponseTopic()
		rt.Topic = topic
		for _, p := range parts {
			rp := kmsg.NewOffsetFetchResponseTopicPartition()
			rp.Partition, rp.Offset, rp.LeaderEpoch = p, -1, -1
			if o, ok := g.offsets[topic][p]; ok {
				rp.Offset = o
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	if r.Topics == nil {
		for t, ps := range g.offsets {
			var l []int32
			for p := range ps {
				l = append(l, p)
			}
			add(t, l)
		}
	}
	for _, t := range r.Topics {
		add(t.Topic, t.Partitions)
	}
	return resp
}

// GroupInfo describes a group.
type GroupInfo struct {
	State    string
	Gen      int32
	Members  map[string]string  // member id -> instance
	Assigned map[string][]int32 // instance -> partitions of topic
}

func (b *Cluster) GroupInfo(name, topic string) GroupInfo {
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.groups[name]
	gi := GroupInfo{Members: map[string]string{}, Assigned: map[string][]int32{}}
	if g == nil {
		return gi
	}
	gi.State, gi.Gen = g.state.String(), g.gen
	for id, m := range g.members {
		gi.Members[id] = m.inst
		var a kmsg.ConsumerMemberAssignment
		if a.ReadFrom(m.assignment) == nil {
			for _, t := range a.Topics {
				if t.Topic == topic {
					gi.Assigned[m.inst] = append(gi.Assigned[m.inst], t.Partitions...)
				}
			}
		}
	}
	return gi
}

// SetGroupOffset sets the committed group offset, as an earlier consumer would.
func (b *Cluster) SetGroupOffset(group, topic string, p int32, off int64) {
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group(group)
	if g.offsets[topic] == nil {
		g.offsets[topic] = map[int32]int64{}
	}
	g.offsets[topic][p] = off
}

// GroupOffset returns the committed group offset.
func (b *Cluster) GroupOffset(group, topic string, p int32) (int64, bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if g := b.groups[group]; g != nil {
		o, ok := g.offsets[topic][p]
		return o, ok
	}
	return 0, false
}

// SyncPlan is what the leader of a group decided in one generation.
type SyncPlan struct {
	Group, Protocol, Leader string
	Gen                     int32
	Members                 []SyncMember
	Assigned                map[string][]byte // by member id
}

// SyncMember is a member with the metadata it joined with.
type SyncMember struct {
	ID, Inst string
	Metadata []byte
}
