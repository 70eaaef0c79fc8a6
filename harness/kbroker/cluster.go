package kbroker

import (
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/twmb/franz-go/pkg/kmsg"
)

// Error codes used.
const (
	errUnknownTopic        = 3
	errNotLeader           = 6
	errNotCoordinator      = 16
	errInvalidTopic        = 17
	errIllegalGeneration   = 22
	errInconsistentProto   = 23
	errUnknownMember       = 25
	errRebalanceInProgress = 27
	errTopicExists         = 36
	errInvalidPartitions   = 37
	errInvalidReplication  = 38
	errInvalidConfig       = 40
	errInvalidRequest      = 42
	errOutOfOrderSeq       = 45
	errInvalidEpoch        = 47
	errInvalidTxnState     = 48
	errInvalidPIDMapping   = 49
	errInvalidTxnTimeout   = 50
	errConcurrentTxns      = 51
	errMemberIDRequired    = 79
	errProducerFenced      = 90
)

// Config configures a cluster.
type Config struct {
	Nodes       int
	Latency     func(key int16) time.Duration // before a request is applied
	ReplyDelay  func(key int16) time.Duration
	MarkerDelay func() time.Duration // between the decision to end a transaction and its markers
	JoinDelay   time.Duration        // initial rebalance delay of an empty group
	MinSession  time.Duration
	// Fault is consulted for every request, before it is applied.
	Fault func(rq *Request) Fault
	// ProduceFault is consulted for every batch; a non-zero code rejects it.
	ProduceFault func(inst string, topic string, partition int32, txn bool, recs []kmsg.Record) int16
	MaxTxnMillis int32
	Logf         func(string, ...any)
}

// Request describes a request for the fault hook.
type Request struct {
	Inst string
	Node int32
	Key  int16
	Req  kmsg.Request
	N    int64 // how many requests with this key the cluster has seen
}

// Fault is what to do to a request.
type Fault struct {
	Delay      time.Duration
	Code       int16  // reply with this error without applying the request (where the request has a place for it)
	DropBefore bool   // close the connection without applying
	DropAfter  bool   // apply, then close the connection without replying
	Before     func() // called before the request is applied
	After      func() // called after the request is applied
}

type Topic struct {
	Name        string
	Parts       []*Partition
	Replication int16
	Configs     map[string]string
	Internal    bool
	View        string // if set, only instances of the same view (or without one) know the topic
}

// Cluster is the in-process cluster.
type Cluster struct {
	cfg                   Config
	mu                    sync.Mutex
	topics                map[string]*Topic
	groups                map[string]*group
	txns                  map[string]*txnState
	pids                  map[int64]*txnState
	nextPID, nextTxn, seq int64
	wake                  chan struct{}
	reqN                  [128]atomic.Int64
	// AllTxns lists every transaction ever begun.
	AllTxns                           []*Txn
	Appends, Requests, Dials, Deduped atomic.Int64
	// Events receives administrative actions (for the topic oracles).
	Admin []AdminEvent
	// OnTxnEnd is called with the lock held when a transaction's outcome is decided.
	OnGone   func(group, inst, why string) // a member is thrown out of its group; called with the lock held
	OnTxnEnd func(*Txn)
	// OnSync is called with the lock held when the leader of a group hands in its plan.
	OnSync func(SyncPlan)
	// Commits logs offset commits.
	Commits []OffsetCommit
	closed  bool
}

type AdminEvent struct {
	What, Topic, Inst string
	Partitions        int32
	Replication       int16
	Configs           map[string]string
	Code              int16
}

type OffsetCommit struct {
	Group, Topic string
	Partition    int32
	Offset       int64
	Seq          int64
	Inst         string
}

func New(cfg Config) *Cluster {
	if cfg.Nodes == 0 {
		cfg.Nodes = 1
	}
	if cfg.MaxTxnMillis == 0 {
		cfg.MaxTxnMillis = 900000
	}
	return &Cluster{cfg: cfg, topics: map[string]*Topic{}, groups: map[string]*group{}, txns: map[string]*txnState{}, pids: map[int64]*txnState{},
		wake: make(chan struct{}), nextPID: 100}
}

func (b *Cluster) now() time.Time { return time.Now() }

func (b *Cluster) changed() {
	close(b.wake)
	b.wake = make(chan struct{})
}

func (b *Cluster) nodeAddr(i int) string { return fmt.Sprintf("node%d:9092", i) }
func (b *Cluster) nodeOf(host string) int32 {
	for i := 0; i < b.cfg.Nodes; i++ {
		if host == b.nodeAddr(i) {
			return int32(i)
		}
	}
	return -1
}

// Lock gives consistent access to the exported state.
func (b *Cluster) Lock()   { b.mu.Lock() }
func (b *Cluster) Unlock() { b.mu.Unlock() }

// Seq is the number of records appended so far (a logical clock).
func (b *Cluster) Seq() int64 {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.seq
}

func (b *Cluster) CreateTopic(name string, parts int, configs map[string]string) *Topic {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.createTopic(name, parts, 1, configs)
}

func (b *Cluster) createTopic(name string, parts int, repl int16, configs map[string]string) *Topic {
	t := &Topic{Name: name, Replication: repl, Configs: configs}
	for i := 0; i < parts; i++ {
		t.Parts = append(t.Parts, &Partition{Topic: name, ID: int32(i), leader: int32((i + len(name)) % b.cfg.Nodes), prod: map[int64]*prodState{}, open: map[*Txn]int64{}})
	}
	b.topics[name] = t
	b.changed()
	return t
}

// Topic returns a topic or nil.
func (b *Cluster) Topic(name string) *Topic {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.topics[name]
}

func (b *Cluster) TopicNames() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	var l []string
	for n := range b.topics {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// Records returns a snapshot of the records of one partition (without those compacted away if live).
func (b *Cluster) Records(topic string, p int32) []*Rec {
	b.mu.Lock()
	defer b.mu.Unlock()
	t := b.topics[topic]
	if t == nil || int(p) >= len(t.Parts) {
		return nil
	}
	return append([]*Rec(nil), t.Parts[p].Recs...)
}

// MoveLeaders shuffles partition leadership by one node.
func (b *Cluster) MoveLeaders() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, t := range b.topics {
		for _, p := range t.Parts {
			p.leader = (p.leader + 1) % int32(b.cfg.Nodes)
		}
	}
	b.changed()
}

var maxVersions = map[int16]int16{
	0: 8, 1: 6, 2: 5, 3: 6, 8: 7, 9: 5, 10: 2, 11: 5, 12: 3, 13: 3, 14: 3, 15: 4, 18: 3, 19: 4, 20: 3, 22: 4, 24: 2, 26: 2, 32: 3,
}

func (b *Cluster) serve(in *Instance, node int32, rd, wr *half) {
	r := struct{ io.Reader }{readerOf{rd}}
	for {
		var lb [4]byte
		if _, err := io.ReadFull(r, lb[:]); err != nil {
			return
		}
		buf := make([]byte, binary.BigEndian.Uint32(lb[:]))
		if _, err := io.ReadFull(r, buf); err != nil {
			return
		}
		key := int16(binary.BigEndian.Uint16(buf))
		version := int16(binary.BigEndian.Uint16(buf[2:]))
		corr := binary.BigEndian.Uint32(buf[4:])
		off := 8
		if n := int16(binary.BigEndian.Uint16(buf[off:])); n >= 0 {
			off += int(n)
		}
		off += 2
		req := kmsg.RequestForKey(key)
		mv, ok := maxVersions[key]
		if req == nil || (!ok || version > mv) && key != 18 {
			b.logf("unsupported request %d v%d", key, version)
			return
		}
		if key == 18 && version > 3 {
			version = 3
		}
		req.SetVersion(version)
		if req.IsFlexible() {
			if buf[off] != 0 {
				b.logf("header tags")
				return
			}
			off++
		}
		if err := req.ReadFrom(buf[off:]); err != nil {
			b.logf("cannot decode %s v%d: %v", kmsg.NameForKey(key), version, err)
			return
		}
		n := b.reqN[key].Add(1)
		b.Requests.Add(1)
		var f Fault
		if b.cfg.Fault != nil {
			f = b.cfg.Fault(&Request{Inst: in.Name, Node: node, Key: key, Req: req, N: n})
		}
		d := f.Delay
		if b.cfg.Latency != nil {
			d += b.cfg.Latency(key)
		}
		if d == 0 && key == 0 {
			// franz-go stores the partitions of a new topic right after it began to produce to them: if the transaction
			// ended before that, it would be taken for one without those partitions
			d = time.Microsecond
		}
		if d > 0 {
			time.Sleep(d)
		}
		if f.Before != nil {
			f.Before()
		}
		if f.DropBefore {
			return
		}
		if wr.isClosed() && !in.Dead() {
			// The client may already repeat the request over another connection. A broker would hardly get to it
			// before it gets to this one, and if it did, the protocol has no defence (see KIP-890).
			return
		}
		var resp kmsg.Response
		if f.Code != 0 {
			resp = b.errorReply(req, f.Code)
		}
		if resp == nil {
			resp = b.handle(in, node, req)
		}
		if f.After != nil {
			f.After()
		}
		if f.DropAfter {
			return
		}
		if b.cfg.ReplyDelay != nil {
			if d := b.cfg.ReplyDelay(key); d > 0 {
				time.Sleep(d)
			}
		}
		if resp == nil {
			if p, ok := req.(*kmsg.ProduceRequest); ok && p.Acks == 0 {
				continue
			}
			return
		}
		out := make([]byte, 4, 256)
		out = binary.BigEndian.AppendUint32(out, corr)
		if req.IsFlexible() && key != 18 {
			out = append(out, 0)
		}
		out = resp.AppendTo(out)
		binary.BigEndian.PutUint32(out, uint32(len(out)-4))
		if _, err := wr.write(out); err != nil {
			return
		}
	}
}

type readerOf struct{ h *half }

func (r readerOf) Read(b []byte) (int, error) { return r.h.read(b, nil) }

func (b *Cluster) logf(f string, a ...any) {
	if b.cfg.Logf != nil {
		b.cfg.Logf(f, a...)
	}
}

// errorReply builds a reply that carries code.
func (b *Cluster) errorReply(req kmsg.Request, code int16) kmsg.Response {
	resp := req.ResponseKind()
	switch r := resp.(type) {
	case *kmsg.ProduceResponse:
		for _, t := range req.(*kmsg.ProduceRequest).Topics {
			rt := kmsg.NewProduceResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewProduceResponseTopicPartition()
				rp.Partition, rp.ErrorCode, rp.BaseOffset = p.Partition, code, -1
				rt.Partitions = append(rt.Partitions, rp)
			}
			r.Topics = append(r.Topics, rt)
		}
	case *kmsg.FetchResponse:
		for _, t := range req.(*kmsg.FetchRequest).Topics {
			rt := kmsg.NewFetchResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewFetchResponseTopicPartition()
				rp.Partition, rp.ErrorCode = p.Partition, code
				rt.Partitions = append(rt.Partitions, rp)
			}
			r.Topics = append(r.Topics, rt)
		}
	case *kmsg.EndTxnResponse:
		r.ErrorCode = code
	case *kmsg.InitProducerIDResponse:
		r.ErrorCode = code
	case *kmsg.AddPartitionsToTxnResponse:
		for _, t := range req.(*kmsg.AddPartitionsToTxnRequest).Topics {
			rt := kmsg.NewAddPartitionsToTxnResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewAddPartitionsToTxnResponseTopicPartition()
				rp.Partition, rp.ErrorCode = p, code
				rt.Partitions = append(rt.Partitions, rp)
			}
			r.Topics = append(r.Topics, rt)
		}
	case *kmsg.FindCoordinatorResponse:
		r.ErrorCode = code
	case *kmsg.JoinGroupResponse:
		r.ErrorCode = code
	case *kmsg.SyncGroupResponse:
		r.ErrorCode = code
	case *kmsg.HeartbeatResponse:
		r.ErrorCode = code
	case *kmsg.CreateTopicsResponse:
		for _, t := range req.(*kmsg.CreateTopicsRequest).Topics {
			rt := kmsg.NewCreateTopicsResponseTopic()
			rt.Topic, rt.ErrorCode = t.Topic, code
			r.Topics = append(r.Topics, rt)
		}
	case *kmsg.DeleteTopicsResponse:
		for _, n := range req.(*kmsg.DeleteTopicsRequest).TopicNames {
			rt := kmsg.NewDeleteTopicsResponseTopic()
			rt.Topic, rt.ErrorCode = kmsg.StringPtr(n), code
			r.Topics = append(r.Topics, rt)
		}
	case *kmsg.MetadataResponse:
		for i := 0; i < b.cfg.Nodes; i++ {
			mb := kmsg.NewMetadataResponseBroker()
			mb.NodeID, mb.Host, mb.Port = int32(i), fmt.Sprintf("node%d", i), 9092
			r.Brokers = append(r.Brokers, mb)
		}
		for _, t := range req.(*kmsg.MetadataRequest).Topics {
			rt := kmsg.NewMetadataResponseTopic()
			rt.Topic, rt.ErrorCode = t.Topic, code
			r.Topics = append(r.Topics, rt)
		}
	default:
		return nil
	}
	return resp
}

func (b *Cluster) handle(in *Instance, node int32, req kmsg.Request) kmsg.Response {
	switch r := req.(type) {
	case *kmsg.ApiVersionsRequest:
		resp := r.ResponseKind().(*kmsg.ApiVersionsResponse)
		for k, v := range maxVersions {
			a := kmsg.NewApiVersionsResponseApiKey()
			a.ApiKey, a.MaxVersion = k, v
			resp.ApiKeys = append(resp.ApiKeys, a)
		}
		sort.Slice(resp.ApiKeys, func(i, j int) bool { return resp.ApiKeys[i].ApiKey < resp.ApiKeys[j].ApiKey })
		return resp
	case *kmsg.MetadataRequest:
		return b.metadata(in, r)
	case *kmsg.ProduceRequest:
		return b.produce(in, node, r)
	case *kmsg.FetchRequest:
		return b.fetch(in, node, r)
	case *kmsg.ListOffsetsRequest:
		return b.listOffsets(node, r)
	case *kmsg.FindCoordinatorRequest:
		resp := r.ResponseKind().(*kmsg.FindCoordinatorResponse)
		n := 0
		for _, c := range r.CoordinatorKey {
			n += int(c)
		}
		n %= b.cfg.Nodes
		resp.NodeID, resp.Host, resp.Port = int32(n), fmt.Sprintf("node%d", n), 9092
		return resp
	case *kmsg.CreateTopicsRequest:
		return b.createTopics(in, r)
	case *kmsg.DeleteTopicsRequest:
		resp := r.ResponseKind().(*kmsg.DeleteTopicsResponse)
		b.mu.Lock()
		defer b.mu.Unlock()
		for _, n := range r.TopicNames {
			rt := kmsg.NewDeleteTopicsResponseTopic()
			rt.Topic = kmsg.StringPtr(n)
			if t := b.topics[n]; t == nil || !in.sees(t) {
				rt.ErrorCode = errUnknownTopic
			} else {
				delete(b.topics, n)
			}
			b.Admin = append(b.Admin, AdminEvent{What: "delete", Topic: n, Inst: in.Name, Code: rt.ErrorCode})
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	case *kmsg.DescribeConfigsRequest:
		resp := r.ResponseKind().(*kmsg.DescribeConfigsResponse)
		b.mu.Lock()
		defer b.mu.Unlock()
		for _, res := range r.Resources {
			rr := kmsg.NewDescribeConfigsResponseResource()
			rr.ResourceType, rr.ResourceName = res.ResourceType, res.ResourceName
			if t := b.topics[res.ResourceName]; t != nil {
				for k, v := range t.Configs {
					c := kmsg.NewDescribeConfigsResponseResourceConfig()
					c.Name, c.Value = k, kmsg.StringPtr(v)
					rr.Configs = append(rr.Configs, c)
				}
			} else {
				rr.ErrorCode = errUnknownTopic
			}
			resp.Resources = append(resp.Resources, rr)
		}
		return resp
	case *kmsg.InitProducerIDRequest:
		return b.initProducerID(in, r)
	case *kmsg.AddPartitionsToTxnRequest:
		return b.addPartitions(in, r)
	case *kmsg.EndTxnRequest:
		return b.endTxn(in, r)
	case *kmsg.JoinGroupRequest:
		return b.joinGroup(in, r)
	case *kmsg.SyncGroupRequest:
		return b.syncGroup(in, r)
	case *kmsg.HeartbeatRequest:
		return b.heartbeat(r)
	case *kmsg.LeaveGroupRequest:
		return b.leaveGroup(r)
	case *kmsg.DescribeGroupsRequest:
		return b.describeGroups(r)
	case *kmsg.OffsetCommitRequest:
		return b.offsetCommit(in, r)
	case *kmsg.OffsetFetchRequest:
		return b.offsetFetch(r)
	}
	return nil
}

func (b *Cluster) metadata(in *Instance, r *kmsg.MetadataRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.MetadataResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	for i := 0; i < b.cfg.Nodes; i++ {
		mb := kmsg.NewMetadataResponseBroker()
		mb.NodeID, mb.Host, mb.Port = int32(i), fmt.Sprintf("node%d", i), 9092
		resp.Brokers = append(resp.Brokers, mb)
	}
	resp.ControllerID = 0
	resp.ClusterID = kmsg.StringPtr("kbroker")
	add := func(name string) {
		rt := kmsg.NewMetadataResponseTopic()
		rt.Topic = kmsg.StringPtr(name)
		t := b.topics[name]
		if t == nil || !in.sees(t) {
			rt.ErrorCode = errUnknownTopic
			if !validTopic(name) {
				rt.ErrorCode = errInvalidTopic
			}
			resp.Topics = append(resp.Topics, rt)
			return
		}
		rt.IsInternal = t.Internal
		for _, p := range t.Parts {
			mp := kmsg.NewMetadataResponseTopicPartition()
			mp.Partition, mp.Leader = p.ID, p.leader
			for i := 0; i < int(t.Replication); i++ {
				mp.Replicas = append(mp.Replicas, (p.leader+int32(i))%int32(b.cfg.Nodes))
			}
			mp.ISR = mp.Replicas
			rt.Partitions = append(rt.Partitions, mp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	if r.Topics == nil {
		var l []string
		for n, t := range b.topics {
			if in.sees(t) {
				l = append(l, n)
			}
		}
		sort.Strings(l)
		for _, n := range l {
			add(n)
		}
	}
	for _, t := range r.Topics {
		if t.Topic != nil {
			add(*t.Topic)
		}
	}
	return resp
}

func validTopic(n string) bool {
	if n == "" || len(n) > 249 || n == "." || n == ".." {
		return false
	}
	for _, c := range n {
		if !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-", c) {
			return false
		}
	}
	return true
}

func (b *Cluster) part(topic string, p int32) *Partition {
	t := b.topics[topic]
	if t == nil || p < 0 || int(p) >= len(t.Parts) {
		return nil
	}
	return t.Parts[p]
}

func (b *Cluster) produce(in *Instance, node int32, r *kmsg.ProduceRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.ProduceResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	if in.Dead() {
		return nil
	}
	for _, t := range r.Topics {
		rt := kmsg.NewProduceResponseTopic()
		rt.Topic = t.Topic
		for _, p := range t.Partitions {
			rp := kmsg.NewProduceResponseTopicPartition()
			rp.Partition, rp.BaseOffset = p.Partition, -1
			rp.LogAppendTime = -1
			off, code := b.produceOne(in, node, r.TransactionID, t.Topic, p.Partition, p.Records)
			if code == 0 {
				rp.BaseOffset = off
			}
			rp.ErrorCode = code
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	if r.Acks == 0 {
		return nil
	}
	return resp
}

func (b *Cluster) produceOne(in *Instance, node int32, txnID *string, topic string, pid int32, raw []byte) (int64, int16) {
	p := b.part(topic, pid)
	if p == nil {
		return -1, errUnknownTopic
	}
	if p.leader != node {
		return -1, errNotLeader
	}
	rb, recs, err := decodeBatch(raw)
	if err != nil {
		b.logf("corrupt produce to %s/%d: %v", topic, pid, err)
		return -1, 2
	}
	txnl := rb.Attributes&0x10 != 0
	if b.cfg.ProduceFault != nil {
		if code := b.cfg.ProduceFault(in.Name, topic, pid, txnl, recs); code != 0 {
			return -1, code
		}
	}
	var txn *Txn
	if txnl {
		if txnID == nil {
			return -1, errInvalidRequest
		}
		ts := b.txns[*txnID]
		if ts == nil || ts.pid != rb.ProducerID {
			return -1, errInvalidPIDMapping
		}
		if ts.epoch != rb.ProducerEpoch {
			return -1, errInvalidEpoch
		}
		if ts.cur == nil || ts.cur.State != TxnOpen {
			return -1, errInvalidTxnState
		}
		if _, ok := p.open[ts.cur]; !ok {
			return -1, errInvalidTxnState
		}
		txn = ts.cur
	}
	if rb.ProducerID >= 0 {
		ps := p.prod[rb.ProducerID]
		if ps == nil || ps.epoch < rb.ProducerEpoch {
			ps = &prodState{epoch: rb.ProducerEpoch}
			p.prod[rb.ProducerID] = ps
		}
		if ps.epoch > rb.ProducerEpoch {
			return -1, errInvalidEpoch
		}
		last := rb.FirstSequence + rb.LastOffsetDelta
		for _, s := range ps.recent {
			if s.first == rb.FirstSequence && s.last == last {
				b.Deduped.Add(1)
				return s.base, 0
			}
		}
		if rb.FirstSequence != ps.nextSeq {
			return -1, errOutOfOrderSeq
		}
		off := b.appendBatch(p, raw, rb, recs, txn, in.Name)
		ps.nextSeq = last + 1
		ps.recent = append(ps.recent, seqRange{rb.FirstSequence, last, off})
		if len(ps.recent) > 5 {
			ps.recent = ps.recent[1:]
		}
		return off, 0
	}
	return b.appendBatch(p, raw, rb, recs, txn, in.Name), 0
}

func (b *Cluster) fetch(in *Instance, node int32, r *kmsg.FetchRequest) kmsg.Response {
	deadline := time.Now().Add(time.Duration(r.MaxWaitMillis) * time.Millisecond)
	if b.cfg.Logf != nil {
		s := ""
		for _, t := range r.Topics {
			for _, p := range t.Partitions {
				s += fmt.Sprintf(" %s/%d@%d", t.Topic, p.Partition, p.FetchOffset)
			}
		}
		b.logf("fetch %s node %d:%s", in.Name, node, s)
	}
	timer := time.NewTimer(time.Until(deadline))
	defer timer.Stop()
	for {
		resp, size, failed, wake := b.tryFetch(node, r)
		if failed {
			time.Sleep(time.Millisecond) // clients may retry at once until they have seen new metadata
		}
		if size >= int(r.MinBytes) && size > 0 || failed || !time.Now().Before(deadline) || in.Dead() {
			return resp
		}
		select {
		case <-wake:
		case <-timer.C:
		}
	}
}

func (b *Cluster) tryFetch(node int32, r *kmsg.FetchRequest) (*kmsg.FetchResponse, int, bool, chan struct{}) {
	resp := r.ResponseKind().(*kmsg.FetchResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	size, failed := 0, false
	for _, t := range r.Topics {
		rt := kmsg.NewFetchResponseTopic()
		rt.Topic = t.Topic
		for _, fp := range t.Partitions {
			rp := kmsg.NewFetchResponseTopicPartition()
			rp.Partition = fp.Partition
			p := b.part(t.Topic, fp.Partition)
			switch {
			case p == nil:
				rp.ErrorCode = errUnknownTopic
			case p.leader != node:
				rp.ErrorCode = errNotLeader
			case fp.FetchOffset < p.LogStart || fp.FetchOffset > p.end:
				rp.ErrorCode = 1
			}
			if rp.ErrorCode != 0 {
				failed = true
				rp.HighWatermark, rp.LastStableOffset = -1, -1
				rt.Partitions = append(rt.Partitions, rp)
				continue
			}
			rp.HighWatermark, rp.LastStableOffset, rp.LogStartOffset = p.end, p.lso(), p.LogStart
			limit := p.end
			if r.IsolationLevel == 1 {
				limit = p.lso()
			}
			i := sort.Search(len(p.batches), func(i int) bool { return p.batches[i].last >= fp.FetchOffset })
			upper := int64(-1)
			n := 0
			for ; i < len(p.batches); i++ {
				bt := p.batches[i]
				if bt.base >= limit {
					break
				}
				if n > 0 && n+len(bt.raw) > int(fp.PartitionMaxBytes) || size > 0 && size+len(bt.raw) > int(r.MaxBytes) {
					break
				}
				rp.RecordBatches = append(rp.RecordBatches, bt.raw...)
				n += len(bt.raw)
				size += len(bt.raw)
				upper = bt.last
			}
			if r.IsolationLevel == 1 && n > 0 {
				for _, a := range p.aborted {
					if a.last >= fp.FetchOffset && a.first <= upper {
						at := kmsg.NewFetchResponseTopicPartitionAbortedTransaction()
						at.ProducerID, at.FirstOffset = a.pid, a.first
						rp.AbortedTransactions = append(rp.AbortedTransactions, at)
					}
				}
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp, size, failed, b.wake
}

func (b *Cluster) listOffsets(node int32, r *kmsg.ListOffsetsRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.ListOffsetsResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, t := range r.Topics {
		rt := kmsg.NewListOffsetsResponseTopic()
		rt.Topic = t.Topic
		for _, lp := range t.Partitions {
			rp := kmsg.NewListOffsetsResponseTopicPartition()
			rp.Partition = lp.Partition
			rp.LeaderEpoch = -1
			p := b.part(t.Topic, lp.Partition)
			switch {
			case p == nil:
				rp.ErrorCode = errUnknownTopic
			case p.leader != node:
				rp.ErrorCode = errNotLeader
			case lp.Timestamp == -2:
				rp.Offset = p.LogStart
			case lp.Timestamp == -1:
				rp.Offset = p.end
				if r.IsolationLevel == 1 {
					rp.Offset = p.lso()
				}
			default:
				rp.Offset = -1
				for _, rec := range p.Recs {
					if rec.Stamp >= lp.Timestamp {
						rp.Offset, rp.Timestamp = rec.Offset, rec.Stamp
						break
					}
				}
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

func (b *Cluster) createTopics(in *Instance, r *kmsg.CreateTopicsRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.CreateTopicsResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, t := range r.Topics {
		rt := kmsg.NewCreateTopicsResponseTopic()
		rt.Topic = t.Topic
		cfg := map[string]string{}
		for _, c := range t.Configs {
			if c.Value != nil {
				cfg[c.Name] = *c.Value
			}
		}
		parts, repl := t.NumPartitions, t.ReplicationFactor
		if parts == -1 {
			parts = 1
		}
		if repl == -1 {
			repl = 1
		}
		badCfg := false
		if v, ok := cfg["min.insync.replicas"]; ok {
			var n int
			if _, err := fmt.Sscanf(v, "%d", &n); err != nil || n < 1 {
				badCfg = true
			}
		}
		switch {
		case !validTopic(t.Topic):
			rt.ErrorCode = errInvalidTopic
		case b.topics[t.Topic] != nil:
			rt.ErrorCode = errTopicExists
		case parts < 1:
			rt.ErrorCode = errInvalidPartitions
		case repl < 1 || int(repl) > b.cfg.Nodes:
			rt.ErrorCode = errInvalidReplication
		case badCfg:
			rt.ErrorCode = errInvalidConfig
		}
		if rt.ErrorCode == 0 && !r.ValidateOnly {
			b.createTopic(t.Topic, int(parts), repl, cfg).View = in.View
		}
		b.Admin = append(b.Admin, AdminEvent{What: "create", Topic: t.Topic, Inst: in.Name, Partitions: parts, Replication: repl, Configs: cfg, Code: rt.ErrorCode})
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}
