//go:build go1.21

package verifsim

import "os"

// What the host tells a process about itself, decided by the run's seed.

var hostSeed uint64

//go:norace
func host(salt uint64) uint64 {
	s := hostSeed ^ salt
	return splitmix(&s)
}

// NumCPU is the simulated number of processors.
//
//go:norace
func NumCPU() int {
	n := [...]int{8, 1, 2, 3, 4, 6, 16, 64}
	if hostSeed == 0 {
		return n[0]
	}
	return n[host(1)%8]
}

// GOMAXPROCS is the simulated number of processors; setting it does nothing.
func GOMAXPROCS(int) int { return NumCPU() }

// NumGoroutine counts the tasks of the run.
//
//go:norace
func NumGoroutine() int {
	n := 1
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state != stDone {
			n++
		}
	}
	return n
}

// Getpid is the simulated process number.
//
//go:norace
func Getpid() int { return int(host(2)%30000) + 2 }

// Getppid is the simulated parent's process number.
//
//go:norace
func Getppid() int { return int(host(3)%30000) + 2 }

// Hostname is the simulated host name.
//
//go:norace
func Hostname() (string, error) {
	return [...]string{"localhost", "node-1", "node-2", "db"}[host(4)%4], nil
}

// LookupEnv makes the environment differ from process to process.
//
//go:norace
func LookupEnv(key string) (string, bool) {
	if hostSeed != 0 {
		h := uint64(5)
		for i := 0; i < len(key); i++ {
			h = h*131 + uint64(key[i])
		}
		switch host(h) % 4 {
		case 0:
			return "", false
		case 1:
			return "1", true
		}
	}
	return os.LookupEnv(key)
}

// Getenv is LookupEnv without the second result.
func Getenv(key string) string { v, _ := LookupEnv(key); return v }
