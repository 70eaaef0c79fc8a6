package e2e

import (
	"strings"
	"sync/atomic"
	"time"

	"github.com/twmb/franz-go/pkg/kerr"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verifh/core"
	"verifh/kbroker"
)

func init() {
	// events that produce batches outside of transactions
	profiles["prod"] = func(w *World) {
		r := w.r
		w.bounded()
		pl := &w.plan
		pl.Modes[mBProd] = 12
		w.pickStrategies()
		reject := pick(r, 0, 0, 10, 50)
		rseed := r.Uint64()
		var rn counter
		w.sideJudge = true
		w.sideReject, w.sideCodes = map[string][]int16{}, map[int16]bool{}
		var down atomic.Bool
		if r.IntN(3) == 0 {
			w.sideTimeout = time.Duration(1000+r.IntN(1500)) * time.Millisecond
		}
		w.note("reject=%d give up after %v", reject, w.sideTimeout)
		cfg := kbroker.Config{ProduceFault: func(inst, topic string, p int32, txn bool, recs []kmsg.Record) int16 {
			if txn || !strings.HasPrefix(topic, sideTopic) {
				return 0
			}
			if down.Load() {
				return kerr.NotLeaderForPartition.Code
			}
			if reject == 0 {
				return 0
			}
			x := core.Mix(rseed, rn.next())
			if int(x%100) >= reject {
				return 0
			}
			code := []int16{10, 29, 87}[x>>20%3]
			w.mu.Lock()
			w.sideCodes[code] = true
			for _, rec := range recs {
				w.sideReject[string(rec.Value)] = append(w.sideReject[string(rec.Value)], code)
			}
			w.mu.Unlock()
			return code
		}}
		w.cluster(cfg)
		o := w.appOpts()
		start := func() *App {
			o.Name = ""
			a := w.newApp(o)
			w.step("start %s", a)
			return a
		}
		start()
		if r.IntN(3) == 0 {
			start()
		}
		w.settled(90*time.Second, "prod")
		wait := w.background(60+r.IntN(300), time.Duration(1+r.IntN(4))*time.Second)
		if w.sideTimeout > 0 {
			for k := 1 + r.IntN(3); k > 0; k-- {
				w.randSleep(2 * time.Second)
				d := time.Duration(r.Int64N(int64(7 * time.Second)))
				w.step("no leader for the side topics for %v", d)
				down.Store(true)
				time.Sleep(d)
				down.Store(false)
			}
		}
		if r.IntN(3) == 0 {
			w.randSleep(2 * time.Second)
			if l := w.liveApps(); len(l) > 1 {
				w.step("stop %s", l[0])
				w.graceful(l[0])
			} else {
				start()
			}
		}
		wait()
		w.end("prod", 120*time.Second)
	}
}
