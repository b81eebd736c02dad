//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"VERIFMOD/verifsim"
)

// known is a recorded finding.
type known struct {
	Prop  string `json:"prop"`
	Match string `json:"match"`
	Text  string `json:"text"`
}

func (k known) matches(v *Violation) bool {
	ok, err := regexp.MatchString(k.Match, v.Kind+": "+v.Detail)
	if err != nil {
		fatal("known finding %q: %v", k.Match, err)
	}
	return ok
}

// readKnown reads lines "known: property=ID match=/REGEX/ TEXT".
func readKnown(p, prop string) []known {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) match=/(.*)/ (.*)$`)
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

type rawSite struct {
	F string `json:"f"`
	L int    `json:"l"`
	N string `json:"n"`
}

type siteMap struct {
	Raw       []rawSite      `json:"sites"`
	Sites     []string       `json:"-"`
	MapRanges int            `json:"mapRanges"`
	GoStmts   int            `json:"goStmts"`
	Rewritten map[string]int `json:"rewrittenImports"`
	Skipped   []string       `json:"skipped"`
}

type super struct {
	prop, tier, scratch, verif string
	seed                       uint64
	secs                       float64
	self                       string
	sites                      siteMap
	began                      time.Time
	n                          int
}

func (s *super) env(extra ...string) []string {
	var e []string
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "GORACE=") && !strings.HasPrefix(v, "GODEBUG=") && !strings.HasPrefix(v, "GOGC=") && !strings.HasPrefix(v, "GOMAXPROCS=") {
			e = append(e, v)
		}
	}
	e = append(e, "VERIF_SCRATCH="+s.scratch, "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all",
		"GORACE=log_path="+filepath.Join(s.scratch, "race")+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=4")
	return append(e, extra...)
}

type workerEnd struct {
	rep   *report
	run   int64 // last run begun
	found string
	death string // stderr of a worker that died
	hung  bool
	err   error
}

// stopper ends all workers once one has found something.
type stopper struct {
	mu    sync.Mutex
	cmds  []*exec.Cmd
	stop  bool
	first string
}

func (s *super) runWorker(j job, st *stopper) (we workerEnd) {
	we.run = -1
	cmd := exec.Command(s.self, "worker")
	cmd.Env = s.env()
	js, _ := json.Marshal(j)
	cmd.Stdin = bytes.NewReader(js)
	var errb tail
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.StdoutPipe()
	if err != nil {
		we.err = err
		return
	}
	st.mu.Lock()
	if st.stop {
		st.mu.Unlock()
		return
	}
	if err := cmd.Start(); err != nil {
		st.mu.Unlock()
		we.err = err
		return
	}
	st.cmds = append(st.cmds, cmd)
	st.mu.Unlock()
	lines := make(chan string, 64)
	go func() {
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := r.ReadString('\n')
			if l != "" {
				lines <- l
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	t := time.NewTimer(hangAfter)
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				err := cmd.Wait()
				st.mu.Lock()
				stopped := st.stop
				st.mu.Unlock()
				if we.rep == nil && we.found == "" && !stopped && !we.hung {
					we.death = errb.String()
					we.err = fmt.Errorf("worker ended: %v", err)
				}
				return
			}
			switch {
			case strings.HasPrefix(l, "r "):
				fmt.Sscan(l[2:], &we.run)
			case strings.HasPrefix(l, "v "):
				var n int64
				fmt.Sscan(l[2:], &n, &we.found)
				st.mu.Lock()
				st.stop = true
				for _, c := range st.cmds {
					if c != cmd {
						c.Process.Kill()
					}
				}
				st.mu.Unlock()
			case strings.HasPrefix(l, "e "):
				var r report
				if err := json.Unmarshal([]byte(l[2:]), &r); err != nil {
					we.err = err
				}
				we.rep = &r
			}
			if !t.Stop() {
				select {
				case <-t.C:
				default:
				}
			}
			t.Reset(hangAfter)
		case <-t.C:
			we.hung = true
			cmd.Process.Kill()
		}
	}
}

const hangAfter = 150 * time.Second

// tail keeps the first and last part of a stream.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// child runs the harness on a scenario in a fresh process.
func (s *super) child(timeout time.Duration, env []string, args ...string) (*reply, string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, s.self, args...)
	cmd.Env = s.env(env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return cmd.Process.Signal(syscall.SIGQUIT) }
	cmd.WaitDelay = 5 * time.Second
	var o bytes.Buffer
	var e tail
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil, e.String(), errHang
	}
	if err != nil {
		return nil, e.String(), err
	}
	var r reply
	if err := json.Unmarshal(o.Bytes(), &r); err != nil {
		return nil, e.String(), err
	}
	return &r, e.String(), nil
}

var errHang = fmt.Errorf("no end")

func (s *super) write(sc *Scenario) string {
	s.n++
	p := filepath.Join(s.scratch, fmt.Sprintf("cand-%d.json", s.n))
	b, err := json.Marshal(sc)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal("%v", err)
	}
	return p
}

// outcome runs the scenario and classifies what happened; a process that died
// of the code under test is a crash.
func (s *super) outcome(p, kind string, tries int, timeout time.Duration) (*reply, error) {
	var r *reply
	var errs string
	var err error
	if kind == "process" {
		return s.processes(p, timeout)
	}
	if tries > 0 {
		r, errs, err = s.child(timeout, nil, "try", p, kind, fmt.Sprint(tries))
	} else {
		r, errs, err = s.child(timeout, nil, "one", p)
	}
	if err == nil {
		return r, nil
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		return nil, fmt.Errorf("harness failed: %s", errs)
	}
	if !strings.Contains(errs, "/evaluation.") && !strings.Contains(errs, "/models.") {
		return nil, fmt.Errorf("%v: %s", err, errs)
	}
	if err == errHang {
		return &reply{V: &Violation{"hang", "the call does not end: " + deathText(errs)}}, nil
	}
	return &reply{V: &Violation{"crash", "the process died: " + deathText(errs)}}, nil
}

// processes runs the scenario in several processes with unlike environments.
func (s *super) processes(p string, timeout time.Duration) (*reply, error) {
	var first *reply
	for i := 0; i < 4; i++ {
		r, errs, err := s.child(timeout, unlike(i), "one", p)
		if err != nil {
			return nil, fmt.Errorf("%v: %s", err, errs)
		}
		if r.V != nil {
			return r, nil
		}
		if i == 0 {
			first = r
		} else if r.Digest != first.Digest {
			r.V = &Violation{"process", fmt.Sprintf("the same calls return different results in process %d than in process 0 (digests %s and %s)", i, r.Digest, first.Digest)}
			return r, nil
		}
	}
	return first, nil
}

func unlike(i int) []string {
	switch i {
	case 1:
		return []string{"VERIF_PROCS=4", "TZ=Asia/Tokyo", "LANG=de_DE.UTF-8", "HOSTNAME=other", "USER=other", "HOME=/nonexistent"}
	case 2:
		return []string{"VERIF_PROCS=2", "TZ=America/New_York", "LC_ALL=tr_TR.UTF-8", "PWD=/"}
	case 3:
		return []string{"TZ=UTC"}
	}
	return nil
}

func deathText(errs string) string {
	var out []string
	for _, l := range strings.Split(errs, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack") || strings.HasPrefix(l, "SIG") {
			out = append(out, l)
		}
		if (strings.Contains(l, "/evaluation.") || strings.Contains(l, "/models.")) && len(out) < 6 {
			out = append(out, short(strings.SplitN(l, "(0x", 2)[0]))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func supervise(args []string) {
	s := &super{began: time.Now()}
	fs := flag.NewFlagSet("supervise", flag.ExitOnError)
	fs.StringVar(&s.prop, "prop", "", "property")
	fs.StringVar(&s.tier, "tier", "quick", "tier")
	fs.StringVar(&s.scratch, "scratch", "", "scratch directory")
	fs.StringVar(&s.verif, "verif", "/verif", "verification directory")
	fs.Uint64Var(&s.seed, "seed", 1, "seed")
	fs.Float64Var(&s.secs, "secs", 30, "seconds of exploration")
	workers := fs.Int("workers", 8, "worker processes")
	maxRuns := fs.Int64("runs", math.MaxInt64/2, "bound on runs")
	built := fs.Float64("built", 0, "seconds spent building")
	fs.Parse(args)
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	s.self = self
	s.readSites()
	kn := readKnown(filepath.Join(s.verif, "known-findings.txt"), s.prop)
	fmt.Printf("%s: seed %d, %d workers, %.0f s of simulation (%s)\n", s.prop, s.seed, *workers, s.secs, s.tier)
	until := time.Now().Add(time.Duration(s.secs * float64(time.Second)))
	st := &stopper{}
	ends := make([]workerEnd, *workers)
	var wg sync.WaitGroup
	for w := range ends {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			ends[w] = s.runWorker(job{s.prop, s.seed, int64(w), int64(*workers), *maxRuns, until.UnixMilli(), kn}, st)
		}(w)
	}
	wg.Wait()
	simSecs := time.Since(s.began).Seconds()

	// candidates for a violation
	var cands []*Scenario
	var trouble []string
	for i := range ends {
		e := &ends[i]
		switch {
		case e.found != "":
			cands = append(cands, readScenario(e.found))
		case e.hung, e.death != "":
			sc := generate(s.prop, s.seed, e.run)
			sc.Kind = "crash"
			if e.hung {
				sc.Kind = "hang"
			}
			cands = append(cands, sc)
			trouble = append(trouble, fmt.Sprintf("worker %d in run %d: hung=%v %v %s", i, e.run, e.hung, e.err, deathText(e.death)))
			os.WriteFile(filepath.Join(s.scratch, "death.txt"), []byte(e.death), 0o644)
		case e.err != nil:
			trouble = append(trouble, fmt.Sprintf("worker %d: %v", i, e.err))
		}
	}
	var v *Violation
	var replay string
	for _, c := range cands {
		if v, replay = s.settle(c); v != nil {
			break
		}
		trouble = append(trouble, fmt.Sprintf("run %d: %s (%s) did not happen again in a fresh process", c.Run, c.Kind, c.Note))
	}
	// the same runs in other processes
	same, again := 0, 0
	if v == nil && len(cands) == 0 {
		var p *Scenario
		same, again, p = s.crossCheck(ends, *workers)
		if p != nil {
			if v, replay = s.settle(p); v == nil {
				trouble = append(trouble, fmt.Sprintf("run %d: results differed between processes once, not again", p.Run))
			}
		}
	}
	nv := 0
	if v != nil {
		nv = 1
	}
	s.evidence(ends, simSecs, *built, same, again, nv, kn)
	hits := map[string]bool{}
	for i := range ends {
		if ends[i].rep != nil {
			for k := range ends[i].rep.KnownHits {
				hits[k] = true
			}
		}
	}
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in this run: %v)\n", s.prop, k.Text, hits[k.Text])
	}
	if v != nil {
		fmt.Printf("%s: %s\n", v.Kind, v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.prop, replay)
		os.Exit(1)
	}
	if len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Fprintln(os.Stderr, "check error: "+t)
		}
		os.Exit(2)
	}
	fmt.Printf("%s: no violation\n", s.prop)
}

func (s *super) readSites() {
	b, err := os.ReadFile(filepath.Join(s.scratch, "sites.json"))
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &s.sites); err != nil {
		fatal("sites.json: %v", err)
	}
	for _, r := range s.sites.Raw {
		s.sites.Sites = append(s.sites.Sites, fmt.Sprintf("%s:%d (%s)", r.F, r.L, r.N))
	}
}

// crossCheck repeats runs in fresh processes with other environments.
func (s *super) crossCheck(ends []workerEnd, workers int) (same, again int, diff *Scenario) {
	want := map[int64]string{}
	for i := range ends {
		if ends[i].rep != nil {
			for k, d := range ends[i].rep.Digests {
				want[k] = d
			}
		}
	}
	n := len(want)
	if n > 64 {
		n = 64
	}
	if s.prop == "C14" && n > 8 {
		n = 8
	}
	type res struct {
		out []byte
		err error
	}
	rs := make([]res, 3)
	var wg sync.WaitGroup
	for i := range rs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
			defer cancel()
			stride := []int{1, 3, 7}[i]
			cmd := exec.CommandContext(ctx, s.self, "digest", s.prop, fmt.Sprint(s.seed), fmt.Sprint(i), fmt.Sprint(stride), fmt.Sprint((n-i+stride-1)/stride))
			cmd.Env = s.env(unlike(i + 1)...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			rs[i].out, rs[i].err = cmd.Output()
		}(i)
	}
	wg.Wait()
	for i := range rs {
		for _, l := range strings.Split(string(rs[i].out), "\n") {
			var run, steps int64
			var dig, hash string
			if k, _ := fmt.Sscan(l, &run, &dig, &hash, &steps); k != 4 {
				continue
			}
			w, ok := want[run]
			if !ok {
				continue
			}
			again++
			if w == fmt.Sprintf("%s %s %d", dig, hash, steps) {
				same++
			} else if s.prop == "C02" && !strings.HasPrefix(w, dig) && diff == nil {
				diff = generate(s.prop, s.seed, run)
				diff.Kind = "process"
			}
		}
	}
	return
}

func (s *super) evidence(ends []workerEnd, simSecs, built float64, same, again, violations int, kn []known) {
	t := report{Faults: map[string]int64{}, FaultRuns: map[string]int64{}, Kinds: map[string]int64{}}
	distinct := map[uint64]bool{}
	cov := map[int]bool{}
	for i := range ends {
		r := ends[i].rep
		if r == nil {
			continue
		}
		t.Runs += r.Runs
		t.Ops += r.Ops
		t.Ok += r.Ok
		t.Steps += r.Steps
		if r.MaxGap > t.MaxGap {
			t.MaxGap = r.MaxGap
		}
		t.Switches += r.Switches
		t.SimNS += r.SimNS
		for k, v := range r.Faults {
			t.Faults[k] += v
		}
		for k, v := range r.FaultRuns {
			t.FaultRuns[k] += v
		}
		for k, v := range r.Kinds {
			t.Kinds[k] += v
		}
		for _, h := range r.Nontrivial {
			distinct[h] = true
		}
		for _, c := range r.Covered {
			cov[c] = true
		}
		if len(t.Samples) < 6 {
			t.Samples = append(t.Samples, r.Samples...)
		}
	}
	if t.Samples == nil {
		t.Samples = []string{"the run was cut short by the first violation"}
	}
	perFile := map[string][2]int{}
	covered, total := 0, 0
	var never []string
	for i, p := range s.sites.Sites {
		f := p
		if k := strings.IndexByte(p, ':'); k >= 0 {
			f = p[:k]
		}
		if !strings.HasPrefix(f, "evaluation/") && !strings.HasPrefix(f, "models/") {
			continue
		}
		x := perFile[f]
		x[1]++
		total++
		if cov[i] {
			x[0]++
			covered++
		} else if len(never) < 300 {
			never = append(never, p)
		}
		perFile[f] = x
	}
	pf := map[string]string{}
	for f, x := range perFile {
		pf[f] = fmt.Sprintf("%d of %d", x[0], x[1])
	}
	rule := "one evaluation is one simulated run: a scenario (documents, rows, operations, faults, schedule or environment) drawn from one seed, run on the real code and judged. " +
		"A run is non-trivial when at least one operation on the real code succeeded and, for runs with several tasks, the scheduler switched tasks more often than there are tasks; " +
		"runs are distinct when the hash of (sequence of task switches with their statements, operation outcomes, first document) differs."
	ev := map[string]any{
		"property": s.prop, "tier": s.tier, "seed": s.seed, "level": "exploration",
		"wall_s": math.Round((time.Since(s.began).Seconds()+built)*100) / 100, "violations": violations,
		"coverage": map[string]any{
			"evaluations": t.Runs, "distinct_nontrivial": len(distinct), "rule": rule, "samples": t.Samples,
			"operations": t.Ops, "operations_succeeded": t.Ok,
			"runs_per_hour":                      int64(float64(t.Runs) / simSecs * 3600),
			"seeds":                              fmt.Sprintf("VERIF_SEED=%d; run k is drawn from (seed, k), k = 0..%d", s.seed, t.Runs-1),
			"simulated_steps":                    t.Steps,
			"task_switches":                      t.Switches,
			"most_steps_between_completed_calls": t.MaxGap,
			"simulated_seconds":                  float64(t.SimNS) / 1e9,
			"faults_fired":                       t.Faults, "runs_with_fault": t.FaultRuns,
			"statements_reached": fmt.Sprintf("%d of %d", covered, total), "statements_reached_by_file": pf, "statements_never_reached": never,
			"documents":                       t.Kinds,
			"determinism_runs_repeated":       again,
			"determinism_runs_same_trace":     same,
			"race_detector":                   verifsim.RaceBuild,
			"real_components":                 []string{"models (all of it)", "evaluation (all of it)", "github.com/creasty/defaults, mattn/go-shellwords and pkg/errors (instrumented where they are plain Go)", "encoding/xml, strconv, reflect, fmt of the standard library"},
			"stub_components":                 []string{"byte source (io.Reader)", "storage below it (damaged documents)", "sync, sync/atomic, time, math/rand as imported by the code under test", "map iteration order", "goroutine scheduling", "row values with behaviour"},
			"map_ranges_under_simulation":     s.sites.MapRanges,
			"go_statements_under_simulation":  s.sites.GoStmts,
			"imports_replaced_by_simulations": s.sites.Rewritten,
		},
		"assumptions": []string{
			"tasks are switched between statements of the code under test; the inside of a statement and of the standard library is one step (the race detector still sees every access)",
			"a clean batch is evidence over the sampled schedules and faults, not a proof",
		},
	}
	dir := filepath.Join(s.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, s.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	var fk []string
	for k := range t.Faults {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	fmt.Printf("%s: %d runs (%d distinct non-trivial), %d operations (%d succeeded), %d steps, %d switches, %.0f simulated s, %d of %d statements; repeated in other processes: %d of %d identical\n",
		s.prop, t.Runs, len(distinct), t.Ops, t.Ok, t.Steps, t.Switches, float64(t.SimNS)/1e9, covered, total, same, again)
	for _, k := range fk {
		fmt.Printf("  fired %-34s %9d in %d runs\n", k, t.Faults[k], t.FaultRuns[k])
	}
}
