package kbroker

import (
	"time"

	"github.com/twmb/franz-go/pkg/kmsg"
)

type txnState struct {
	id      string
	pid     int64
	epoch   int16
	timeout time.Duration
	cur     *Txn // last transaction
	pending bool // markers of the last transaction are being written
	timer   *time.Timer
	inst    string
}

func (b *Cluster) initProducerID(in *Instance, r *kmsg.InitProducerIDRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.InitProducerIDResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	if r.TransactionalID == nil {
		b.nextPID++
		resp.ProducerID = b.nextPID
		return resp
	}
	if r.TransactionTimeoutMillis <= 0 || r.TransactionTimeoutMillis > b.cfg.MaxTxnMillis {
		resp.ErrorCode = errInvalidTxnTimeout
		return resp
	}
	ts := b.txns[*r.TransactionalID]
	if ts == nil {
		b.nextPID++
		ts = &txnState{id: *r.TransactionalID, pid: b.nextPID, epoch: 0}
		b.txns[ts.id] = ts
		b.pids[ts.pid] = ts
	} else {
		if ts.pending {
			resp.ErrorCode = errConcurrentTxns
			return resp
		}
		if ts.cur != nil && ts.cur.State == TxnOpen {
			b.end(ts, false, false)
			ts.epoch++
			resp.ErrorCode = errConcurrentTxns
			return resp
		}
		ts.epoch++
	}
	ts.timeout = time.Duration(r.TransactionTimeoutMillis) * time.Millisecond
	ts.inst = in.Name
	resp.ProducerID, resp.ProducerEpoch = ts.pid, ts.epoch
	return resp
}

func (b *Cluster) checkTxn(id string, pid int64, epoch int16) (*txnState, int16) {
	ts := b.txns[id]
	if ts == nil || ts.pid != pid {
		return nil, errInvalidPIDMapping
	}
	if ts.epoch != epoch {
		return nil, errProducerFenced
	}
	if ts.pending {
		return nil, errConcurrentTxns
	}
	return ts, 0
}

func (b *Cluster) addPartitions(in *Instance, r *kmsg.AddPartitionsToTxnRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.AddPartitionsToTxnResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	if in.Dead() {
		return nil
	}
	ts, code := b.checkTxn(r.TransactionalID, r.ProducerID, r.ProducerEpoch)
	if code == errProducerFenced && r.Version < 2 {
		code = errInvalidEpoch
	}
	if code == 0 {
		for _, t := range r.Topics {
			for _, p := range t.Partitions {
				if b.part(t.Topic, p) == nil {
					code = errUnknownTopic
				}
			}
		}
	}
	if code == 0 {
		if ts.cur == nil || ts.cur.State != TxnOpen {
			b.nextTxn++
			t := &Txn{ID: b.nextTxn, TxnID: ts.id, PID: ts.pid, Epoch: ts.epoch, Inst: in.Name, parts: map[*Partition]int64{}, Begun: b.now()}
			ts.cur = t
			b.AllTxns = append(b.AllTxns, t)
			ts.timer = time.AfterFunc(ts.timeout, func() {
				b.mu.Lock()
				defer b.mu.Unlock()
				if ts.cur == t && t.State == TxnOpen {
					b.end(ts, false, false)
					ts.epoch++
				}
			})
		}
		for _, t := range r.Topics {
			for _, p := range t.Partitions {
				pp := b.part(t.Topic, p)
				if _, ok := pp.open[ts.cur]; !ok {
					pp.open[ts.cur] = -1
					ts.cur.parts[pp] = -1
				}
			}
		}
	}
	for _, t := range r.Topics {
		rt := kmsg.NewAddPartitionsToTxnResponseTopic()
		rt.Topic = t.Topic
		for _, p := range t.Partitions {
			rp := kmsg.NewAddPartitionsToTxnResponseTopicPartition()
			rp.Partition, rp.ErrorCode = p, code
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

// end decides a transaction and writes its markers, at once or a little later.
func (b *Cluster) end(ts *txnState, commit, byProducer bool) {
	t := ts.cur
	t.State = TxnAborted
	if commit {
		t.State = TxnCommitted
	}
	t.endReq = byProducer
	t.Ended = b.now()
	t.EndSeq = b.seq
	if ts.timer != nil {
		ts.timer.Stop()
		ts.timer = nil
	}
	if b.OnTxnEnd != nil {
		b.OnTxnEnd(t)
	}
	ts.pending = true
	write := func() {
		for _, tp := range sortedParts(t.parts) {
			b.appendMarker(tp, t, commit)
		}
		t.Done = b.now()
		ts.pending = false
	}
	var d time.Duration
	if b.cfg.MarkerDelay != nil {
		d = b.cfg.MarkerDelay()
	}
	if d <= 0 {
		write()
		return
	}
	time.AfterFunc(d, func() {
		b.mu.Lock()
		defer b.mu.Unlock()
		write()
	})
}

func sortedParts(m map[*Partition]int64) []*Partition {
	var l []*Partition
	for p := range m {
		l = append(l, p)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j].Topic < l[i].Topic || l[j].Topic == l[i].Topic && l[j].ID < l[i].ID {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

func (b *Cluster) endTxn(in *Instance, r *kmsg.EndTxnRequest) kmsg.Response {
	resp := r.ResponseKind().(*kmsg.EndTxnResponse)
	b.mu.Lock()
	defer b.mu.Unlock()
	if in.Dead() {
		return nil
	}
	ts, code := b.checkTxn(r.TransactionalID, r.ProducerID, r.ProducerEpoch)
	if code == errProducerFenced && r.Version < 2 {
		code = errInvalidEpoch
	}
	if code != 0 {
		resp.ErrorCode = code
		return resp
	}
	if ts.cur == nil {
		resp.ErrorCode = errInvalidTxnState
		return resp
	}
	if ts.cur.State != TxnOpen {
		// a repeated request for the transaction that has just ended
		if (ts.cur.State == TxnCommitted) != r.Commit {
			resp.ErrorCode = errInvalidTxnState
		}
		return resp
	}
	b.end(ts, r.Commit, true)
	return resp
}

// OpenTxns returns the transactions that have not ended.
func (b *Cluster) OpenTxns() (l []*Txn) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, t := range b.AllTxns {
		if t.State == TxnOpen || t.Done.IsZero() {
			l = append(l, t)
		}
	}
	return
}
