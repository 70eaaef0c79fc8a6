//go:build instr

package core

import (
	"time"

	"github.com/twmb/franz-go/pkg/vsync"
)

const Instrumented = true

// Perturb configures schedule perturbation.
type Perturb struct {
	Seed                           uint64
	YieldProb, SiteProb, SleepProb uint32
	MaxSleep                       time.Duration
	MaxHits                        int64
	Racy                           bool
}

func ApplyPerturb(p Perturb)     { vsync.Configure(vsync.Config(p)) }
func PerturbSites() (int, int64) { return vsync.Sites() }
