package core

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Stacks returns all goroutine stacks, those which are not blocked first.
func Stacks() string {
	b := make([]byte, 4<<20)
	l := strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n")
	active := func(s string) bool {
		s, _, _ = strings.Cut(s, "\n")
		return strings.Contains(s, "[running") || strings.Contains(s, "[runnable") || strings.Contains(s, "[sleep") && strings.Contains(s, "minutes")
	}
	sort.SliceStable(l, func(i, j int) bool { return active(l[i]) && !active(l[j]) })
	return strings.Join(l, "\n\n")
}

// Watch ends the process with a violation when it burns cpu processor time (or real elapsed time) before stop is called.
// It must be called outside a bubble. progress, if not nil, returns a number that changes while work is being done.
func (c *Ctx) Watch(prop, kind string, cpu, real time.Duration, progress func() int64) (stop func()) {
	done := make(chan struct{})
	go func() {
		c0, t0 := cpuTime(), time.Now()
		var last int64
		tick := time.NewTicker(200 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
			}
			if progress != nil {
				if p := progress(); p != last {
					last, c0, t0 = p, cpuTime(), time.Now()
				}
			}
			if d := cpuTime() - c0; d > cpu {
				c.Violate(prop, kind, "burned %v of processor time (%v elapsed) without progress\n%s", d, time.Since(t0), Stacks())
				c.Count("evaluations", 1)
				c.Flush(true)
				os.Exit(0)
			}
			if d := time.Since(t0); d > real {
				fmt.Println(Stacks())
				c.Inconclusive("no progress in %v (cpu %v)", d, cpuTime()-c0)
				c.Flush(true)
				os.Exit(0)
			}
		}
	}()
	return func() { close(done) }
}
