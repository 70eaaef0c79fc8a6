package e2e

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

// Tracing is for development: VDEBUG=1 prints what happens, VTRACE=DIR keeps it in memory and writes it to a file of
// DIR if the case violates a property.
var (
	debugging = os.Getenv("VDEBUG") != "" || os.Getenv("VTRACE") != ""
	traceDir  = os.Getenv("VTRACE")
	traceMu   sync.Mutex
	traceBuf  strings.Builder
)

func traceReset() {
	traceMu.Lock()
	traceBuf.Reset()
	traceMu.Unlock()
}

func trace(f string, a ...any) {
	s := fmt.Sprintf("%s %s\n", time.Now().Format("15:04:05.000000"), fmt.Sprintf(f, a...))
	if traceDir == "" {
		fmt.Print(s)
		return
	}
	traceMu.Lock()
	traceBuf.WriteString(s)
	traceMu.Unlock()
}

func traceKeep(detail string) {
	if traceDir == "" {
		return
	}
	traceMu.Lock()
	defer traceMu.Unlock()
	if traceBuf.Len() == 0 {
		return
	}
	if f, err := os.OpenFile(fmt.Sprintf("%s/trace-%d-%d.log", traceDir, os.Getpid(), time.Now().UnixNano()), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
		f.WriteString(traceBuf.String() + "\n" + detail)
		f.Close()
	}
	traceBuf.Reset()
}
