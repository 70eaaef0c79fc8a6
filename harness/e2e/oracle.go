package e2e

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifh/core"
	"verifh/kbroker"
)

// onTxnEnd watches every outcome; the broker's lock is held.
func (w *World) onTxnEnd(t *kbroker.Txn) {
	if w.race {
		if t.State == kbroker.TxnCommitted {
			w.mu.Lock()
			for _, r := range t.Recs {
				if r.Topic == w.commitTopic() && !r.Control {
					if tt, p, off, ok := commitEntry(r); ok {
						w.marks[tpKey{tt, p}] = off
					}
				}
			}
			w.mu.Unlock()
		}
		return
	}
	w.c.Count("transactions "+t.State.String(), 1)
	if t.State != kbroker.TxnCommitted {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	var app *App
	for _, a := range w.apps {
		if a.o.Name == t.Inst {
			app = a
		}
	}
	if app == nil {
		return
	}
	events := int64(0)
	for _, r := range t.Recs {
		if !strings.HasPrefix(r.Topic, "gkes_commit_log_") || r.Control {
			continue
		}
		tt, p, off, ok := commitEntry(r)
		if !ok {
			w.failL("C02", "malformed progress marker", "%v", r)
			continue
		}
		if r.Topic != "gkes_commit_log_"+app.o.Group {
			continue
		}
		if app.o.Group != w.group || tt != srcTopic {
			continue
		}
		k := tpKey{tt, p}
		old := w.marks[k]
		if off < old && !w.lenientLoss {
			w.failL("C03", "committed position moves backwards", "%s commits %d for %v after %d", app, off, k, old)
			continue
		}
		w.marks[k] = off
		for o := old; o < off; o++ {
			e := w.byOff[p][o]
			if e == nil {
				continue
			}
			events++
			ok := false
			for _, a := range e.completed {
				ok = ok || a == app
			}
			if !ok && !app.dead.Load() && !w.lenientLoss {
				w.failL("C03", "progress passes an event that is not complete", "%s commits position %d of partition %d, but event %s (%s) is not complete there (handled %d times, completed by %v)", app, off, p, e.ID, modeNames[e.Mode], len(e.starts), e.completed)
			}
		}
	}
	w.c.Count("events committed", events)
	if events > int64(w.eos.MaxBatchSize) && !w.lenientLoss {
		w.failL("C16", "too many events in a transaction", "%s commits %d events in one transaction, MaxBatchSize %d", app, events, w.eos.MaxBatchSize)
	}
	if app.dead.Load() {
		return
	}
}

type outRec struct {
	r  *kbroker.Rec
	ev string
	ix int
	cn int64
}

// final checks everything that was committed against the model.
func (w *World) final() {
	if w.race {
		return
	}
	commitT := w.commitTopic()
	// which transaction covers which event
	cover := map[string]*kbroker.Txn{}
	w.b.Lock()
	txns := append([]*kbroker.Txn(nil), w.b.AllTxns...)
	w.b.Unlock()
	byEnd := txns[:0:0]
	for _, t := range txns {
		if t.State == kbroker.TxnCommitted {
			byEnd = append(byEnd, t)
		}
	}
	sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].EndSeq < byEnd[j].EndSeq })
	pos := map[int32]int64{}
	txnPos := map[*kbroker.Txn]map[int32]int64{}
	for _, t := range byEnd {
		for _, r := range t.Recs {
			if r.Topic != commitT || r.Control {
				continue
			}
			tt, p, off, ok := commitEntry(r)
			if !ok || tt != srcTopic {
				continue
			}
			for o := pos[p]; o < off; o++ {
				if e := w.byOff[p][o]; e != nil {
					if cover[e.ID] == nil {
						cover[e.ID] = t
					}
				}
			}
			if off > pos[p] {
				pos[p] = off
			}
			if txnPos[t] == nil {
				txnPos[t] = map[int32]int64{}
			}
			txnPos[t][p] = off
		}
	}
	w.checkOpen(txns)
	w.checkGroupOffsets(byEnd)
	// expected chains
	chains := map[string]uint64{}
	finalState := map[int32]map[string]string{}
	for p, l := range w.evs {
		st := map[string]string{}
		finalState[p] = st
		for _, e := range l {
			if e.Mode == mBad || e.Quiet {
				continue
			}
			k := fmt.Sprintf("%d|%s", p, e.CKey)
			e.Chain = chainNext(chains[k], e.ID)
			if e.Del {
				chains[k] = 0
				delete(st, e.CKey)
			} else {
				chains[k] = e.Chain
				st[e.CKey] = chainStr(e.Chain) + ":" + e.ID
			}
		}
	}
	// outputs
	got := map[string]map[int][]*kbroker.Rec{}
	ijGot := map[string][]*kbroker.Rec{}
	nOut := map[string]int{"out0": w.plan.Out0, "out1": w.plan.Out1}
	var checked int64
	for topic, np := range nOut {
		for p := 0; p < np; p++ {
			type last struct {
				r   *kbroker.Rec
				cn  int64
				txn *kbroker.Txn
			}
			lastOf := map[int32]last{}
			for _, r := range w.b.Records(topic, int32(p)) {
				if !r.Committed() {
					continue
				}
				id, _ := r.Header("ev")
				if strings.HasPrefix(id, "ij") {
					ijGot[id] = append(ijGot[id], r)
					sps, _ := r.Header("sp")
					sp, _ := strconv.Atoi(sps)
					cns, _ := r.Header("cn")
					cn, _ := strconv.ParseInt(cns, 10, 64)
					if l, ok := lastOf[int32(sp)]; ok && l.txn == r.Txn && cn < l.cn {
						w.fail("C04", "records of one partition out of order in a transaction", "%v after %v", r, l.r)
					}
					lastOf[int32(sp)] = last{r, cn, r.Txn}
					continue
				}
				e := w.byID[id]
				if e == nil {
					w.fail("C01", "unexpected output", "%v", r)
					continue
				}
				ixs, _ := r.Header("ix")
				ix, _ := strconv.Atoi(ixs)
				cns, _ := r.Header("cn")
				cn, _ := strconv.ParseInt(cns, 10, 64)
				if got[id] == nil {
					got[id] = map[int][]*kbroker.Rec{}
				}
				got[id][ix] = append(got[id][ix], r)
				if l, ok := lastOf[e.P]; ok && !w.lenientLoss {
					if l.txn == r.Txn {
						if cn < l.cn {
							w.fail("C04", "records of one partition out of order in a transaction", "%v after %v", r, l.r)
						}
					} else if txnPos[l.txn] != nil && txnPos[r.Txn] != nil {
						a, ok1 := txnPos[l.txn][e.P]
						b, ok2 := txnPos[r.Txn][e.P]
						if ok1 && ok2 && a > b {
							w.fail("C04", "records of a later transaction before those of an earlier one", "source partition %d: %v (position %d) before %v (position %d)", e.P, l.r, a, r, b)
						}
					}
				}
				lastOf[e.P] = last{r, cn, r.Txn}
			}
		}
	}
	if w.lenientLoss {
		return
	}
	for p, l := range w.evs {
		for _, e := range l {
			t := cover[e.ID]
			if t == nil {
				if len(got[e.ID]) > 0 {
					for _, rs := range got[e.ID] {
						w.fail("C02", "effects without progress", "outputs of event %s are committed but the position of partition %d (%d) does not cover it: %v", e.ID, p, pos[p], rs[0])
						break
					}
				}
				if !w.noFinal {
					w.fail("C01", "event lost", "event %s was never committed", e.ID)
				}
				continue
			}
			checked++
			for i := range e.Outs {
				o := &e.Outs[i]
				rs := got[e.ID][o.Idx]
				if len(rs) == 0 {
					w.fail("C01", "output lost", "event %s (%s) output %d to %s is not committed; progress committed in txn %d of %s", e.ID, modeNames[e.Mode], o.Idx, o.Topic, t.ID, t.Inst)
					continue
				}
				if len(rs) > 1 {
					w.fail("C01", "output duplicated", "event %s output %d committed %d times: %v and %v (handled %d times)", e.ID, o.Idx, len(rs), rs[0], rs[1], len(e.starts))
				}
				r := rs[0]
				delete(got[e.ID], o.Idx)
				if r.Txn != t {
					w.fail("C02", "output in another transaction than the progress", "event %s output %d: %v; progress in txn %d of %s", e.ID, o.Idx, r, t.ID, t.Inst)
				}
				w.checkOut(e, o, r, nOut[o.Topic])
			}
			for _, rs := range got[e.ID] {
				w.fail("C01", "unexpected output", "event %s: %v", e.ID, rs[0])
			}
		}
	}
	// state
	var changes int64
	ijVal := map[string]uint64{}
	clTopic := w.apps[0].es.Source().StateStoreTopicName()
	for p := int32(0); p < int32(w.plan.Parts); p++ {
		st := map[string]string{}
		seen := map[string]int{}
		for _, r := range w.b.Records(clTopic, p) {
			if !r.Committed() || isMark(r) {
				continue
			}
			id, _ := r.Header("ev")
			changes++
			seen[id]++
			if id == "lw" {
				st["lw"] = string(r.Value)
				continue
			}
			if len(r.Value) == 0 {
				delete(st, string(r.Key))
			} else {
				st[string(r.Key)] = string(r.Value)
			}
			if strings.HasPrefix(id, "ij") {
				n := binary.BigEndian.Uint64(r.Value)
				k := fmt.Sprintf("%d|%s", p, r.Key)
				if n != ijVal[k]+1 {
					w.fail("C02", "interjection effects lost or repeated", "partition %d %s: committed value %d after %d", p, r.Key, n, ijVal[k])
				}
				ijVal[k] = n
				if len(ijGot[id]) != 1 || ijGot[id][0].Txn != r.Txn {
					w.fail("C02", "interjection effects not atomic", "%s: state change %v, outputs %v", id, r, ijGot[id])
				}
				continue
			}
			e := w.byID[id]
			if e == nil || e.P != p {
				w.fail("C01", "unexpected state change", "%v", r)
				continue
			}
			t := cover[id]
			if t == nil {
				w.fail("C02", "effects without progress", "state change of event %s is committed but the position of partition %d does not cover it", id, p)
				continue
			}
			if t != r.Txn {
				w.fail("C02", "state change in another transaction than the progress", "event %s: %v; progress in txn %d of %s", id, r, t.ID, t.Inst)
			}
			if seen[id] > 1 {
				w.fail("C01", "state change duplicated", "event %s: %v", id, r)
			}
		}
		for _, e := range w.evs[p] {
			if e.Mode != mBad && !e.Quiet && cover[e.ID] != nil && seen[e.ID] == 0 {
				w.fail("C01", "state change lost", "event %s (%s)", e.ID, modeNames[e.Mode])
			}
		}
		if !w.noFinal {
			want := finalState[p]
			for k, v := range st {
				if strings.HasPrefix(k, "ij/") || k == "lw" {
					continue
				}
				if want[k] != v {
					w.fail("C06", "final state differs", "partition %d key %s: %q, expected %q", p, k, v, want[k])
				}
			}
			for k, v := range want {
				if _, ok := st[k]; !ok {
					w.fail("C06", "final state differs", "partition %d key %s missing, expected %q", p, k, v)
				}
			}
		}
		w.checkMemory(p, st)
	}
	for id, rs := range ijGot {
		if len(rs) != 1 {
			w.fail("C11", "interjection effects repeated", "%s: %v", id, rs)
		}
	}
	w.c.Count("events checked", checked)
	w.c.Count("state changes checked", changes)
}

// checkMemory compares the state in memory of quiescent owners with the log.
func (w *World) checkMemory(p int32, st map[string]string) {
	if w.noFinal {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, a := range w.apps {
		ps := a.parts[p]
		if ps == nil || a.dead.Load() || a.failed.Load() || ps.activeStore == nil || ps.revoked > 0 || !a.live() || ps.willRevoke > 0 {
			continue
		}
		s := ps.activeStore
		for k, v := range s.data {
			if strings.HasPrefix(k, "ij/") || k == "lw" {
				continue
			}
			if st[k] != v {
				w.failL("C06", "store differs from its change log", "%s partition %d key %s: %q in memory, %q on the log", a, p, k, v, st[k])
			}
		}
		for k := range st {
			if _, ok := s.data[k]; !ok {
				w.failL("C06", "store differs from its change log", "%s partition %d key %s is on the log only", a, p, k)
			}
		}
	}
}

func (w *World) checkOut(e *Ev, o *Out, r *kbroker.Rec, np int) {
	bad := func(what string, got, want any) {
		w.fail("C01", "output altered: "+what, "event %s (%s) output %d: got %v, expected %v: %v", e.ID, modeNames[e.Mode], o.Idx, got, want, r)
	}
	if r.Topic != o.Topic {
		bad("topic", r.Topic, o.Topic)
	}
	if string(r.Key) != o.Key {
		bad("key", fmt.Sprintf("%q", r.Key), fmt.Sprintf("%q", o.Key))
	}
	if o.Part >= 0 && r.Partition != o.Part {
		w.fail("C24", "explicit partition ignored", "event %s output %d: %v, expected partition %d", e.ID, o.Idx, r, o.Part)
	}
	if o.Part < 0 && o.Key != "" {
		if want := autoPart([]byte(o.Key), np); r.Partition != want {
			w.fail("C24", "wrong partition for the key", "event %s output %d: %v, expected partition %d of %d", e.ID, o.Idx, r, want, np)
		}
	}
	if want := e.value(o, e.Chain); string(want) != string(r.Value) {
		pre := len(fmt.Sprintf("%s|%d|", e.ID, o.Idx))
		if o.Stage == e.lastStage() && len(r.Value) == len(want) && string(want[:pre]) == string(r.Value[:pre]) && string(want[pre+16:]) == string(r.Value[pre+16:]) {
			w.fail("C06", "event saw wrong state", "event %s (%s, state key %s) output %d was computed from a state that is not the one its predecessors left: %q, expected %q", e.ID, modeNames[e.Mode], e.CKey, o.Idx, r.Value[:pre+16], want[:pre+16])
		} else {
			bad("value", fmt.Sprintf("%q", r.Value), fmt.Sprintf("%q", want))
		}
	}
	if o.Empty && r.Value != nil {
		bad("deletion", fmt.Sprintf("%q", r.Value), "nil")
	}
	var hs []Hdr
	typ := ""
	for _, h := range r.Headers {
		switch h.Key {
		case "ev", "ix", "cn":
		case "__grt__":
			typ += string(h.Value)
		default:
			hs = append(hs, Hdr{h.Key, string(h.Value)})
		}
	}
	if typ != o.Type {
		bad("record type", typ, o.Type)
	}
	if len(hs) != len(o.Hdrs) {
		bad("headers", hs, o.Hdrs)
	} else {
		for i := range hs {
			if hs[i] != o.Hdrs[i] {
				bad("headers", hs, o.Hdrs)
				break
			}
		}
	}
}

// checkGroupOffsets: offsets committed to the consumer group never exceed the transactionally committed positions.
func (w *World) checkGroupOffsets(byEnd []*kbroker.Txn) {
	w.b.Lock()
	commits := append([]kbroker.OffsetCommit(nil), w.b.Commits...)
	w.b.Unlock()
	pos := map[int32]int64{}
	for p, o := range w.preset {
		pos[p] = o
	}
	i := 0
	for _, c := range commits {
		for ; i < len(byEnd) && byEnd[i].EndSeq <= c.Seq; i++ {
			for _, r := range byEnd[i].Recs {
				if r.Topic != w.commitTopic() || r.Control {
					continue
				}
				if tt, p, off, ok := commitEntry(r); ok && tt == srcTopic && off > pos[p] {
					pos[p] = off
				}
			}
		}
		if c.Group != w.group || c.Topic != srcTopic {
			continue
		}
		if c.Offset > pos[c.Partition] {
			w.fail("C27", "offset committed to the group exceeds the committed position", "%s commits %d for partition %d, committed position %d", c.Inst, c.Offset, c.Partition, pos[c.Partition])
		}
		w.c.Count("group offset commits checked", 1)
	}
}

// checkOpen: at most PoolSize open transactions per application.
func (w *World) checkOpen(txns []*kbroker.Txn) {
	type pt struct {
		t time.Time
		d int
	}
	by := map[string][]pt{}
	for _, t := range txns {
		by[t.Inst] = append(by[t.Inst], pt{t.Begun, 1})
		if !t.Ended.IsZero() {
			by[t.Inst] = append(by[t.Inst], pt{t.Ended, -1})
		}
	}
	for inst, l := range by {
		sort.SliceStable(l, func(i, j int) bool {
			if l[i].t.Equal(l[j].t) {
				return l[i].d < l[j].d
			}
			return l[i].t.Before(l[j].t)
		})
		n, max := 0, 0
		for _, x := range l {
			n += x.d
			if n > max {
				max = n
			}
		}
		if max > w.eos.PoolSize {
			w.fail("C16", "too many open transactions", "%s had %d transactions open at once, PoolSize %d", inst, max, w.eos.PoolSize)
		}
		w.c.Count(fmt.Sprintf("max open transactions %d", max), 1)
	}
}

func (w *World) fingerprint() uint64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	h := core.HashStr(strings.Join(w.desc, "|"))
	var ps []int
	for p := range w.hseqP {
		ps = append(ps, int(p))
	}
	sort.Ints(ps)
	for _, p := range ps {
		h = core.Mix(h, w.hseqP[int32(p)])
	}
	return core.Mix(h, w.hseq)
}
