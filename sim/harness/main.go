//go:build go1.21

// The harness runs simulated executions of the code under test.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"

	"VERIFMOD/verifsim"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

// execute runs one scenario and judges it.
func execute(sc *Scenario) (*Violation, Stats) {
	switch sc.Prop {
	case "C02":
		return execDeterminism(sc)
	case "C07":
		return execNumbers(sc)
	case "C10":
		return execVerify(sc)
	case "C14":
		return execGrowth(sc)
	}
	return simulate(sc)
}

// reply is what a child process says about one scenario.
type reply struct {
	V         *Violation         `json:"v"`
	Scenario  *Scenario          `json:"scenario,omitempty"`
	Steps     int64              `json:"steps"`
	Hash      string             `json:"hash"`
	Digest    string             `json:"digest"`
	Tries     int                `json:"tries,omitempty"`
	Truncated bool               `json:"truncated,omitempty"`
	Log       []verifsim.Preempt `json:"log,omitempty"`
}

func readScenario(p string) *Scenario {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal("%v", err)
	}
	var sc Scenario
	if err := json.Unmarshal(b, &sc); err != nil {
		fatal("%s: %v", p, err)
	}
	return &sc
}

func clone(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		fatal("%v", err)
	}
	var c Scenario
	if err := json.Unmarshal(b, &c); err != nil {
		fatal("%v", err)
	}
	return &c
}

func say(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("%v", err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func runtimeSetup() {
	runtime.GOMAXPROCS(1)
	if s := os.Getenv("VERIF_PROCS"); s != "" {
		n, _ := strconv.Atoi(s)
		runtime.GOMAXPROCS(n)
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	debug.SetMaxStack(64 << 20)
}

var sinceGC int

// between collects garbage between runs.
func between() {
	sinceGC++
	if sinceGC < 8 {
		return
	}
	sinceGC = 0
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 192<<20 {
		runtime.GC()
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness supervise|worker|one|try|gen ...")
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	switch os.Args[1] {
	case "supervise":
		supervise(os.Args[2:])
		return
	case "replay":
		replayFile(os.Args[2])
		return
	}
	runtimeSetup()
	switch os.Args[1] {
	case "worker":
		worker()
	case "one": // one FILE: run the scenario once
		sc := readScenario(os.Args[2])
		v, st := execute(sc)
		say(reply{V: v, Steps: st.Steps, Hash: fmt.Sprintf("%016x", st.Hash), Digest: fmt.Sprintf("%016x", st.Digest), Log: st.Log, Truncated: st.Truncated})
	case "try": // try FILE KIND N: look for a schedule of the scenario that fails this way
		n, _ := strconv.Atoi(os.Args[4])
		try(readScenario(os.Args[2]), os.Args[3], n)
	case "wildrate":
		wildRate()
	case "gen": // gen PROP SEED RUN: print a scenario
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		run, _ := strconv.ParseInt(os.Args[4], 10, 64)
		sc := generate(os.Args[2], seed, run)
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
	case "digest": // digest PROP SEED FROM STRIDE N: outcome digests of runs
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		from, _ := strconv.ParseInt(os.Args[4], 10, 64)
		stride, _ := strconv.ParseInt(os.Args[5], 10, 64)
		n, _ := strconv.ParseInt(os.Args[6], 10, 64)
		w := bufio.NewWriter(os.Stdout)
		for k := int64(0); k < n; k++ {
			run := from + k*stride
			sc := generate(os.Args[2], seed, run)
			v, st := execute(sc)
			kind := ""
			if v != nil {
				kind = v.Kind
			}
			fmt.Fprintf(w, "%d %s %s\n", run, digest(sc, &st), kind)
			between()
		}
		w.Flush()
	default:
		fatal("unknown mode %q", os.Args[1])
	}
}

// try runs the scenario as it is, and then under other schedules, until it
// fails with the given kind of violation.
func try(sc *Scenario, kind string, n int) {
	for i := 0; i < n; i++ {
		c := clone(sc)
		if i > 0 {
			r := NewR(sc.Sim.Seed + uint64(i)*77)
			s := schedule(r)
			c.Sim.Mode, c.Sim.Seed, c.Sim.P, c.Sim.Depth, c.Sim.Horizon, c.Sim.Pre = s.Mode, s.Seed, s.P, s.Depth, s.Horizon, nil
			if i%4 == 0 {
				c.Sim.MapMode, c.Sim.MapSeed = s.MapMode, s.MapSeed
			}
		}
		before := clone(c)
		v, st := execute(c)
		if v != nil && v.Kind == kind {
			if len(st.Log) > 0 && before.Sim.Mode != "replay" && !st.Truncated {
				before.Sim.Pre = st.Log
			}
			say(reply{V: v, Scenario: before, Steps: st.Steps, Tries: i + 1})
			return
		}
		between()
		if len(sc.Tasks) < 2 {
			break
		}
	}
	say(reply{})
}

// job is what the supervisor tells a worker.
type job struct {
	Prop   string  `json:"prop"`
	Seed   uint64  `json:"seed"`
	From   int64   `json:"from"`
	Stride int64   `json:"stride"`
	Runs   int64   `json:"runs"`  // upper bound on the run index
	Until  int64   `json:"until"` // wall clock, unix ms
	Known  []known `json:"known,omitempty"`
}

// report is what a worker says at its end.
type report struct {
	Runs       int64            `json:"runs"`
	Ops        int64            `json:"ops"`
	Ok         int64            `json:"ok"`
	Steps      int64            `json:"steps"`
	MaxGap     int64            `json:"maxgap"`
	Switches   int64            `json:"switches"`
	SimNS      int64            `json:"simns"`
	Nontrivial []uint64         `json:"nontrivial"`
	Faults     map[string]int64 `json:"faults"`
	FaultRuns  map[string]int64 `json:"faultruns"`
	Kinds      map[string]int64 `json:"kinds"`
	Covered    []int            `json:"covered"`
	Samples    []string         `json:"samples"`
	KnownHits  map[string]int64 `json:"known,omitempty"`
	Last       int64            `json:"last"`
	Digests    map[int64]string `json:"digests"`
}

// digest sums up what happened in a run: the same in every process.
func digest(sc *Scenario, st *Stats) string {
	n := st.Steps
	if sc.Prop == "C14" {
		n = 0 // depends on the memory measured; the steps before the first measurement are in Hash
	}
	return fmt.Sprintf("%016x %016x %d", st.Digest, st.Hash, n)
}

func worker() {
	var j job
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&j); err != nil {
		fatal("%v", err)
	}
	rep := report{Faults: map[string]int64{}, FaultRuns: map[string]int64{}, Kinds: map[string]int64{}, KnownHits: map[string]int64{}, Digests: map[int64]string{}}
	seen := map[uint64]bool{}
	var beat [32]byte
	for run := j.From; run < j.Runs; run += j.Stride {
		if time.Now().UnixMilli() > j.Until {
			break
		}
		// say which run is on, so that a death or a hang can be pinned on it
		b := append(strconv.AppendInt(append(beat[:0], 'r', ' '), run, 10), '\n')
		os.Stdout.Write(b)
		var before [64]int64
		copy(before[:], faultCnt[:])
		sc := generate(j.Prop, j.Seed, run)
		orig := clone(sc)
		v, st := execute(sc)
		rep.Runs++
		rep.Last = run
		rep.Ops += int64(st.Ops)
		rep.Ok += int64(st.Ok)
		rep.Steps += st.Steps
		if st.MaxGap > rep.MaxGap {
			rep.MaxGap = st.MaxGap
		}
		rep.Switches += st.Switches
		rep.SimNS += st.SimNS
		for i := 0; i < nFault; i++ {
			if faultCnt[i] > before[i] {
				rep.FaultRuns[faultNames[i]]++
			}
		}
		for _, d := range sc.Docs[:1] {
			k := d.Note
			if len(k) > 40 {
				k = k[:40]
			}
			rep.Kinds[k]++
		}
		if st.Ok > 0 && (len(sc.Tasks) < 2 || st.Switches > int64(len(sc.Tasks))) {
			h := st.Hash*31 ^ st.Digest ^ hashS(string(sc.Docs[0].XML))*1099511628211
			if !seen[h] {
				seen[h] = true
				rep.Nontrivial = append(rep.Nontrivial, h)
			}
		}
		if run < 64 {
			rep.Digests[run] = digest(sc, &st)
		}
		if len(rep.Samples) < 2 {
			rep.Samples = append(rep.Samples, describe(orig, &st))
		}
		if v != nil {
			hit := false
			for _, k := range j.Known {
				if k.matches(v) {
					rep.KnownHits[k.Text]++
					hit = true
				}
			}
			if !hit {
				orig.Kind, orig.Note = v.Kind, v.Detail
				p := fmt.Sprintf("%s/found-%d.json", os.Getenv("VERIF_SCRATCH"), run)
				js, _ := json.Marshal(orig)
				if err := os.WriteFile(p, js, 0o644); err != nil {
					fatal("%v", err)
				}
				fmt.Printf("v %d %s\n", run, p)
				if raceErrors() > 0 {
					break // the detector reports each pair of places once only
				}
				break
			}
		}
		between()
	}
	for i := 0; i < nFault; i++ {
		rep.Faults[faultNames[i]] = faultCnt[i]
	}
	for i := range verifsim.Covered {
		if verifsim.Covered[i] {
			rep.Covered = append(rep.Covered, i)
		}
	}
	fmt.Print("e ")
	say(rep)
}

func describe(sc *Scenario, st *Stats) string {
	s := fmt.Sprintf("run %d: %s", sc.Run, sc.Docs[0].Note)
	for i := 1; i < len(sc.Docs) && i < 3; i++ {
		s += " + " + sc.Docs[i].Note
	}
	show := func(name string, ops []Op) {
		if len(ops) == 0 {
			return
		}
		s += "; " + name + ":"
		for i := range ops {
			if i == 6 {
				s += fmt.Sprintf(" ...(%d)", len(ops))
				break
			}
			s += " " + ops[i].show()
			if p := ops[i].Plan; p != nil && p.Fault != "" {
				s += fmt.Sprintf("[%s@%d]", p.Fault, p.At)
			}
		}
	}
	show("setup", sc.Setup)
	for t := range sc.Tasks {
		show(fmt.Sprintf("task %d", t), sc.Tasks[t])
	}
	show("then", sc.Final)
	s += fmt.Sprintf("; %d rows; schedule %s seed %d, map order %d; %d steps, %d switches, %d ops succeeded", len(sc.Rows), sc.Sim.Mode, sc.Sim.Seed, sc.Sim.MapMode, st.Steps, st.Switches, st.Ok)
	return s
}
