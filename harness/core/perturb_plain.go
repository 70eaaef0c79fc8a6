//go:build !instr

package core

import "time"

const Instrumented = false

// Perturb configures schedule perturbation (no-op in plain builds).
type Perturb struct {
	Seed                           uint64
	YieldProb, SiteProb, SleepProb uint32
	MaxSleep                       time.Duration
	MaxHits                        int64
	Racy                           bool
}

func ApplyPerturb(Perturb)       {}
func PerturbSites() (int, int64) { return 0, 0 }
