//go:build go1.21

package verifsim

import (
	"sort"
	"unsafe"
)

type resetter struct {
	order int
	f     func()
}

var resets []resetter

// RegisterReset registers the re-initialisation of one package's variables.
func RegisterReset(order int, f func()) {
	resets = append(resets, resetter{order, f})
	sort.SliceStable(resets, func(i, j int) bool { return resets[i].order < resets[j].order })
}

// Restart puts every package of the code under test back to the state of a
// process freshly started in the given environment: what its packages draw or read
// while they initialise is the environment's too.
func Restart(env *Config) {
	EndProcess()
	c := *env
	c.Mode, c.Pre, c.Grace, c.StepLimit = "canonical", nil, 0, 0
	Run(c, []func(){func() {
		for _, r := range resets {
			r.f()
		}
	}})
}

// PoolDrop decides whether the simulated runtime has dropped a pooled object.
//
//go:norace
func PoolDrop() bool {
	if poolP != 0 && splitmix(&poolRng) < poolP {
		poolDrops++
		return true
	}
	return false
}

func AddrOf[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }
