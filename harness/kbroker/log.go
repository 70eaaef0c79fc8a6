package kbroker

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"time"

	"github.com/twmb/franz-go/pkg/kmsg"
)

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// Txn is one transaction (from the first partition added to its end).
type Txn struct {
	ID    int64
	TxnID string
	PID   int64
	Epoch int16
	Inst  string
	State TxnState
	Recs  []*Rec // in append order, over all partitions
	parts map[*Partition]int64
	// Begun is when the transaction was registered, Ended when its outcome was decided, Done when all markers were written.
	Begun, Ended, Done time.Time
	EndSeq             int64
	endReq             bool // ended by the producer (not by a timeout or a fence)
}

type TxnState int

const (
	TxnOpen TxnState = iota
	TxnCommitted
	TxnAborted
)

func (s TxnState) String() string { return [...]string{"open", "committed", "aborted"}[s] }

// ByTimeout tells whether the coordinator itself ended the transaction.
func (t *Txn) ByProducer() bool { return t.endReq }

// Rec is one record on a log.
type Rec struct {
	Seq       int64 // global append order
	Topic     string
	Partition int32
	Offset    int64
	Key       []byte
	Value     []byte
	Headers   []kmsg.Header
	Time      time.Time // broker time of the append
	Stamp     int64     // record timestamp, ms
	PID       int64
	Txn       *Txn // nil when not transactional
	Control   bool
	Inst      string
	gone      bool // compacted away
}

func (r *Rec) Header(k string) (string, bool) {
	for _, h := range r.Headers {
		if h.Key == k {
			return string(h.Value), true
		}
	}
	return "", false
}

// Committed tells whether a read-committed reader ever sees this record (given time).
func (r *Rec) Committed() bool {
	return !r.Control && (r.Txn == nil || r.Txn.State == TxnCommitted)
}

func (r *Rec) String() string {
	st := "plain"
	if r.Txn != nil {
		st = fmt.Sprintf("txn%d(%s)", r.Txn.ID, r.Txn.State)
	}
	if r.Control {
		st += " control"
	}
	return fmt.Sprintf("%s/%d@%d seq=%d %s key=%q val=%q inst=%s", r.Topic, r.Partition, r.Offset, r.Seq, st, r.Key, r.Value, r.Inst)
}

type batch struct {
	base, last int64
	raw        []byte
	recs       []*Rec
	pid        int64
	txn        *Txn
	control    bool
}

type prodState struct {
	epoch   int16
	nextSeq int32
	recent  []seqRange
}
type seqRange struct {
	first, last int32
	base        int64
}

type abortedTxn struct{ pid, first, last int64 }

// Partition is one partition log.
type Partition struct {
	Topic    string
	ID       int32
	batches  []*batch
	Recs     []*Rec
	end      int64
	leader   int32
	prod     map[int64]*prodState
	open     map[*Txn]int64 // first offset
	aborted  []abortedTxn
	LogStart int64
}

func (p *Partition) lso() int64 {
	l := p.end
	for _, f := range p.open {
		if f >= 0 && f < l {
			l = f
		}
	}
	return l
}

func crcOf(raw []byte) {
	binary.BigEndian.PutUint32(raw[17:], crc32.Checksum(raw[21:], castagnoli))
}

func decodeBatch(raw []byte) (*kmsg.RecordBatch, []kmsg.Record, error) {
	rb := new(kmsg.RecordBatch)
	if err := rb.ReadFrom(raw); err != nil {
		return nil, nil, err
	}
	if rb.Magic != 2 {
		return nil, nil, fmt.Errorf("magic %d", rb.Magic)
	}
	if int(rb.Length)+12 != len(raw) {
		return nil, nil, fmt.Errorf("batch length %d in %d bytes", rb.Length, len(raw))
	}
	if got := int32(crc32.Checksum(raw[21:], castagnoli)); got != rb.CRC {
		return nil, nil, fmt.Errorf("crc mismatch")
	}
	if rb.Attributes&7 != 0 {
		return nil, nil, fmt.Errorf("compressed batches are not supported here")
	}
	in := rb.Records
	recs := make([]kmsg.Record, 0, rb.NumRecords)
	for i := int32(0); i < rb.NumRecords; i++ {
		l, n := binary.Varint(in)
		if n <= 0 || int(l)+n > len(in) {
			return nil, nil, fmt.Errorf("truncated record")
		}
		var r kmsg.Record
		if err := r.ReadFrom(in[:int(l)+n]); err != nil {
			return nil, nil, err
		}
		recs = append(recs, r)
		in = in[int(l)+n:]
	}
	return rb, recs, nil
}

func encodeRecord(dst []byte, r kmsg.Record) []byte {
	r.Length = 0
	body := r.AppendTo(nil)[1:] // without the one-byte zero length
	var v [10]byte
	n := binary.PutVarint(v[:], int64(len(body)))
	return append(append(dst, v[:n]...), body...)
}

func encodeBatch(rb kmsg.RecordBatch, recs []kmsg.Record) []byte {
	rb.Magic = 2
	rb.NumRecords = int32(len(recs))
	rb.Records = nil
	for _, r := range recs {
		rb.Records = encodeRecord(rb.Records, r)
	}
	raw := rb.AppendTo(nil)
	// Records is written as bytes without a length in kmsg; make the header agree with what was written
	binary.BigEndian.PutUint32(raw[8:], uint32(len(raw)-12))
	crcOf(raw)
	return raw
}

// append adds a validated batch.
func (b *Cluster) appendBatch(p *Partition, raw []byte, rb *kmsg.RecordBatch, recs []kmsg.Record, txn *Txn, inst string) int64 {
	raw = append([]byte(nil), raw...)
	base := p.end
	binary.BigEndian.PutUint64(raw, uint64(base))
	binary.BigEndian.PutUint32(raw[12:], 0) // the leader epoch, which a broker always sets
	bt := &batch{base: base, last: base + int64(rb.LastOffsetDelta), raw: raw, pid: rb.ProducerID, txn: txn, control: rb.Attributes&0x20 != 0}
	if txn != nil && !bt.control {
		if f, ok := p.open[txn]; ok && f < 0 {
			p.open[txn] = base
		}
	}
	for _, r := range recs {
		b.seq++
		rec := &Rec{Seq: b.seq, Topic: p.Topic, Partition: p.ID, Offset: base + int64(r.OffsetDelta), Time: b.now(), PID: rb.ProducerID,
			Txn: txn, Control: bt.control, Inst: inst, Stamp: rb.FirstTimestamp + int64(r.TimestampDelta)}
		if r.Key != nil {
			rec.Key = append([]byte{}, r.Key...)
		}
		if r.Value != nil {
			rec.Value = append([]byte{}, r.Value...)
		}
		for _, h := range r.Headers {
			rec.Headers = append(rec.Headers, kmsg.Header{Key: h.Key, Value: append([]byte(nil), h.Value...)})
		}
		bt.recs = append(bt.recs, rec)
		p.Recs = append(p.Recs, rec)
		if txn != nil && !bt.control {
			txn.Recs = append(txn.Recs, rec)
		}
	}
	p.batches = append(p.batches, bt)
	p.end = bt.last + 1
	b.Appends.Add(int64(len(recs)))
	b.changed()
	return base
}

// Append writes records outside any transaction (used to feed source topics). It returns the first offset.
func (b *Cluster) Append(topic string, partition int32, recs ...kmsg.Record) int64 {
	b.mu.Lock()
	defer b.mu.Unlock()
	p := b.topics[topic].Parts[partition]
	for i := range recs {
		recs[i].OffsetDelta = int32(i)
	}
	rb := kmsg.RecordBatch{LastOffsetDelta: int32(len(recs) - 1), FirstTimestamp: b.now().UnixMilli(), MaxTimestamp: b.now().UnixMilli(),
		ProducerID: -1, ProducerEpoch: -1, FirstSequence: -1}
	raw := encodeBatch(rb, recs)
	rbd, rd, err := decodeBatch(raw)
	if err != nil {
		panic("kbroker: own encoding does not decode: " + err.Error())
	}
	return b.appendBatch(p, raw, rbd, rd, nil, "")
}

func (b *Cluster) appendMarker(p *Partition, t *Txn, commit bool) {
	typ := int16(0)
	if commit {
		typ = 1
	}
	key := binary.BigEndian.AppendUint16(binary.BigEndian.AppendUint16(nil, 0), uint16(typ))
	val := make([]byte, 6)
	rb := kmsg.RecordBatch{Attributes: 0x30, FirstTimestamp: b.now().UnixMilli(), MaxTimestamp: b.now().UnixMilli(),
		ProducerID: t.PID, ProducerEpoch: t.Epoch, FirstSequence: -1}
	raw := encodeBatch(rb, []kmsg.Record{{Key: key, Value: val}})
	rbd, rd, _ := decodeBatch(raw)
	first := p.open[t]
	off := b.appendBatch(p, raw, rbd, rd, t, t.Inst)
	delete(p.open, t)
	if !commit && first >= 0 {
		p.aborted = append(p.aborted, abortedTxn{t.PID, first, off})
	}
	b.changed()
}

// Compact removes records superseded by a later committed record with the same key, in every partition of the topic,
// unless keep tells otherwise. A broker leaves the active segment alone: what somebody may be waiting for must be kept.
func (b *Cluster) Compact(topic string, keep func(*Rec) bool) (removed int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	t := b.topics[topic]
	if t == nil {
		return 0
	}
	for _, p := range t.Parts {
		lso := p.lso()
		last := map[string]int64{}
		for _, r := range p.Recs {
			if r.Offset < lso && r.Committed() {
				last[string(r.Key)] = r.Offset
			}
		}
		var nb []*batch
		for _, bt := range p.batches {
			if bt.last >= lso || bt.control {
				nb = append(nb, bt)
				continue
			}
			var left []*Rec
			for _, r := range bt.recs {
				if keep != nil && keep(r) {
					left = append(left, r)
					continue
				}
				if r.Txn != nil && r.Txn.State == TxnAborted || last[string(r.Key)] != r.Offset {
					r.gone = true
					removed++
					continue
				}
				left = append(left, r)
			}
			if len(left) == len(bt.recs) {
				nb = append(nb, bt)
				continue
			}
			if len(left) == 0 {
				continue
			}
			rb := new(kmsg.RecordBatch)
			rb.ReadFrom(bt.raw)
			var recs []kmsg.Record
			for _, r := range left {
				recs = append(recs, kmsg.Record{TimestampDelta: int32(r.Stamp - rb.FirstTimestamp), OffsetDelta: int32(r.Offset - bt.base), Key: r.Key, Value: r.Value, Headers: r.Headers})
			}
			bt.raw = encodeBatch(*rb, recs)
			bt.recs = left
			nb = append(nb, bt)
		}
		p.batches = nb
		// aborted transactions whose records are all gone need no index entry; keeping it is harmless
	}
	return removed
}

// Gone tells whether the record was compacted away.
func (r *Rec) Gone() bool { return r.gone }
