// Package e2e runs whole applications of the library against the in-memory cluster, in virtual time, and watches everything they do.
package e2e

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"strings"
	"time"

	"verifh/core"
)

const (
	mSync = iota
	mSched
	mBatch
	mRaw
	mChain
	mBProd
	mDefault // no or unknown type
	mBad     // decoding fails
	mSync2
	nModes
)

var modeNames = [...]string{"sync", "sched", "batch", "raw", "chain", "bprod", "default", "bad", "sync2"}

type Hdr struct{ K, V string }

// Out is one record an event forwards.
type Out struct {
	Idx, Stage int
	Topic      string
	Part       int32 // -1: automatic
	Key        string
	Pad        int
	Empty      bool // deletion
	Type       string
	Hdrs       []Hdr
}

// Ev is one source event and what it must do.
type Ev struct {
	P     int32
	N     int64
	Off   int64 // offset on the source topic, -1 before it is appended
	ID    string
	Key   string
	Mode  int
	Type  string // record type header, "" for none
	Value []byte
	Outs  []Out
	Side  int // records for the batch producer, -1 none
	NilCB bool
	Items int // batch items
	Del   bool
	CKey  string // state key
	Quiet bool   // neither outputs nor a state change
	H     uint64
	Chain uint64 // expected chain value after this event (computed at the end)
	AddAt time.Time

	starts    []*Call
	completed []*App // completed by
}

// Call is one delivery of an event to a handler.
type Call struct {
	app   *App
	ev    *Ev
	epoch int
	seq   int64
	at    time.Time
	done  time.Time
	fin   int // finalizations
}

func chainNext(old uint64, id string) uint64 { return core.Mix(old, core.HashStr(id)) }
func chainStr(v uint64) string {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return hex.EncodeToString(b[:])
}
func parseChain(b []byte) uint64 {
	if len(b) < 16 {
		return 0
	}
	x, err := hex.DecodeString(string(b[:16]))
	if err != nil {
		return 1
	}
	return binary.BigEndian.Uint64(x)
}

func pad(h uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		if i%8 == 0 {
			h = core.Mix(h, uint64(i))
		}
		b[i] = byte(h >> (8 * (i % 8)))
	}
	return b
}

// Plan is the configuration of the workload.
type Plan struct {
	Parts, Out0, Out1  int
	Keys               int
	Modes              []int // weights
	MaxOuts            int
	BigOuts            int // out of 100 events have many outputs
	Headers, Types     bool
	CLParts            int
	JobMax             time.Duration
	HandlerMax         time.Duration
	Burst              int
	DelProb, EmptyProb int
	Quiet              int  // out of 100 events have no effects
	Fan                int  // some events complete this many jobs at once
	Stampede           bool // ... together with those of other events
	PadMax             int
	GlobalKeys         bool // scheduler keys shared between partitions
	Split              bool // state and outputs are kept on another cluster
}

func (pl *Plan) event(seed uint64, p int32, n int64) *Ev {
	id := fmt.Sprintf("%d.%d", p, n)
	h := core.Mix(seed, core.HashStr(id))
	r := rand.New(rand.NewPCG(h, 7))
	e := &Ev{P: p, N: n, Off: -1, ID: id, H: h, Side: -1}
	tot := 0
	for _, w := range pl.Modes {
		tot += w
	}
	x := r.IntN(tot)
	for i, w := range pl.Modes {
		if x < w {
			e.Mode = i
			break
		}
		x -= w
	}
	e.Key = fmt.Sprintf("k%d", r.IntN(pl.Keys))
	switch e.Mode {
	case mDefault:
		if r.IntN(2) == 0 {
			n := modeNames[r.IntN(nModes)]
			for n == modeNames[mDefault] {
				n = modeNames[r.IntN(nModes)]
			}
			// almost a known one
			e.Type = pick(r, "t.unknown", "T."+n, "t."+strings.ToUpper(n), "t."+n+" ", " t."+n, "t."+n+"\x00", n, "t."+n[:len(n)-1]+"_", "t", "t."+n+"."+n)
		}
	default:
		e.Type = "t." + modeNames[e.Mode]
	}
	e.Value = append([]byte(id+"|"), pad(h, r.IntN(pl.PadMax+1))...)
	e.Del = r.IntN(100) < pl.DelProb
	switch e.Mode {
	case mSync, mSched, mBatch, mSync2, mDefault:
		e.CKey = "c/" + modeNames[e.Mode] + "/" + e.Key
	default:
		e.CKey = "e/" + id
	}
	e.Items = r.IntN(4)
	if e.Mode == mBProd {
		e.Side = r.IntN(4)
		if r.IntN(12) == 0 {
			e.Side = 4 + r.IntN(80)
		}
		e.NilCB = r.IntN(4) == 0
	}
	e.Quiet = r.IntN(100) < pl.Quiet
	if e.Mode == mBad || e.NilCB || e.Quiet {
		return e
	}
	no := r.IntN(pl.MaxOuts + 1)
	if r.IntN(100) < pl.BigOuts {
		no = 10 + r.IntN(30)
	}
	for i := 0; i < no; i++ {
		o := Out{Idx: i, Topic: "out0", Part: -1}
		np := pl.Out0
		if r.IntN(3) == 0 {
			o.Topic, np = "out1", pl.Out1
		}
		if r.IntN(2) == 0 {
			o.Part = int32(r.IntN(np))
		}
		switch e.Mode {
		case mSync, mSync2, mDefault:
		default:
			o.Stage = r.IntN(2)
		}
		switch r.IntN(8) {
		case 0:
		case 1:
			o.Key = e.Key
		default:
			o.Key = fmt.Sprintf("%x", pad(core.Mix(h, uint64(i)), 1+r.IntN(9)))
		}
		o.Empty = r.IntN(100) < pl.EmptyProb
		o.Pad = r.IntN(pl.PadMax + 1)
		if pl.Types && r.IntN(2) == 0 {
			o.Type = fmt.Sprintf("ot%d", r.IntN(3))
		}
		if pl.Headers {
			for k := r.IntN(3); k > 0; k-- {
				o.Hdrs = append(o.Hdrs, Hdr{fmt.Sprintf("h%d", r.IntN(4)), string(pad(core.Mix(h, uint64(k*77+i)), r.IntN(6)))})
			}
		}
		e.Outs = append(e.Outs, o)
	}
	return e
}

// value is the value the given output record must have.
func (e *Ev) value(o *Out, chain uint64) []byte {
	if o.Empty {
		return nil
	}
	b := []byte(fmt.Sprintf("%s|%d|", e.ID, o.Idx))
	if e.lastStage() == o.Stage {
		b = append(b, chainStr(chain)...)
	}
	return append(b, pad(core.Mix(e.H, uint64(o.Idx)+1000), o.Pad)...)
}

func (e *Ev) lastStage() int {
	switch e.Mode {
	case mSync, mSync2, mDefault, mBad:
		return 0
	}
	return 1
}

// Murmur2 is the canonical Kafka key hash.
func Murmur2(b []byte) uint32 {
	const m = 0x5bd1e995
	h := uint32(0x9747b28c) ^ uint32(len(b))
	n := len(b) / 4
	for i := 0; i < n; i++ {
		k := binary.LittleEndian.Uint32(b[i*4:])
		k *= m
		k ^= k >> 24
		k *= m
		h *= m
		h ^= k
	}
	t := b[n*4:]
	switch len(t) {
	case 3:
		h ^= uint32(t[2]) << 16
		fallthrough
	case 2:
		h ^= uint32(t[1]) << 8
		fallthrough
	case 1:
		h ^= uint32(t[0])
		h *= m
	}
	h ^= h >> 13
	h *= m
	h ^= h >> 15
	return h
}

func autoPart(key []byte, n int) int32 { return int32((Murmur2(key) & 0x7fffffff) % uint32(n)) }
