//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"VERIFMOD/verifsim"
)

// settle confirms a violation in a fresh process, minimises it and writes the
// replay file.
func (s *super) settle(sc *Scenario) (*Violation, string) {
	kind := sc.Kind
	end := time.Now().Add(70 * time.Second)
	if s.tier == "thorough" {
		end = time.Now().Add(150 * time.Second)
	}
	base := clone(sc)
	base.Kind, base.Note, base.Trace = "", "", nil
	if s.prop == "C07" || s.prop == "C10" {
		base.Note = generate(s.prop, s.seed, sc.Run).Note
	}
	death := kind == "crash" || kind == "hang" || kind == "process"
	tmo := 90 * time.Second
	if kind == "hang" {
		tmo = 40 * time.Second
	}
	r, err := s.outcome(s.write(base), kind, 0, tmo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "confirming:", err)
		return nil, ""
	}
	if r.V == nil {
		// perhaps the detector needs other luck: other schedules of the same calls
		if r, err = s.outcome(s.write(base), kind, 60, tmo); err != nil || r.V == nil {
			return nil, ""
		}
		base = r.Scenario
	}
	kind = r.V.Kind
	death = death && (kind == "crash" || kind == "hang" || kind == "process")
	fmt.Printf("%s: run %d: %s; minimising\n", s.prop, sc.Run, kind)
	tries := 16
	if death {
		tries = 0
	}
	best := s.shrink(base, kind, tries, tmo, end)
	// the schedule itself
	if !death && len(best.Tasks) > 0 {
		if x := s.shrinkSchedule(best, kind, tmo, end.Add(20*time.Second)); x != nil {
			best = x
		}
	}
	// it must fail again, twice, in fresh processes
	for _, c := range []*Scenario{best, base} {
		p := s.write(c)
		var last *reply
		ok := true
		for i := 0; i < 2 && ok; i++ {
			last, err = s.outcome(p, kind, 0, tmo)
			ok = err == nil && last.V != nil && last.V.Kind == kind
		}
		if !ok {
			continue
		}
		c.Trace = s.trace(c, last)
		c.Kind = kind
		out := clone(c)
		if s.prop != "C07" && s.prop != "C10" {
			out.Note = last.V.Detail
		}
		dir := filepath.Join(s.verif, "replays")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", s.prop, s.seed, sc.Run))
		b, _ := json.MarshalIndent(out, "", " ")
		if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
		return last.V, f
	}
	return nil, ""
}

func (s *super) trace(sc *Scenario, r *reply) []string {
	out := []string{r.V.Kind + ": " + r.V.Detail}
	site := func(k int32) string {
		if k >= 0 && int(k) < len(s.sites.Sites) {
			return s.sites.Sites[k]
		}
		return "harness"
	}
	for _, p := range r.Log {
		switch p.Kind {
		case 0:
			out = append(out, fmt.Sprintf("task %d is preempted at its step %d before %s; task %d goes on", p.Task, p.Step, site(p.Site), p.To))
		case 1:
			out = append(out, fmt.Sprintf("task %d waits at its step %d (%s); task %d goes on", p.Task, p.Step, site(p.Site), p.To))
		case 2:
			out = append(out, fmt.Sprintf("task %d ends; task %d goes on", p.Task, p.To))
		case 3:
			out = append(out, fmt.Sprintf("task %d starts", p.To))
		}
		if len(out) > 200 {
			break
		}
	}
	return out
}

// first returns the first candidate, in order, that still fails the same way.
func (s *super) first(cands []*Scenario, kind string, tries int, tmo time.Duration, end time.Time) *Scenario {
	const par = 8
	for i := 0; i < len(cands); i += par {
		if time.Now().After(end) {
			return nil
		}
		j := i + par
		if j > len(cands) {
			j = len(cands)
		}
		res := make([]*Scenario, j-i)
		var paths []string
		for _, c := range cands[i:j] {
			paths = append(paths, s.write(c))
		}
		var wg sync.WaitGroup
		for k := range res {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				r, err := s.outcome(paths[k], kind, tries, tmo)
				if err != nil || r.V == nil || r.V.Kind != kind {
					return
				}
				res[k] = cands[i+k]
				if r.Scenario != nil {
					res[k] = r.Scenario
				}
			}(k)
		}
		wg.Wait()
		for _, p := range paths {
			os.Remove(p)
		}
		for _, x := range res {
			if x != nil {
				return x
			}
		}
	}
	return nil
}

func (s *super) shrink(sc *Scenario, kind string, tries int, tmo time.Duration, end time.Time) *Scenario {
	best := sc
	for pass := 0; pass < 60 && time.Now().Before(end); pass++ {
		got := false
		for _, step := range []func(*Scenario) []*Scenario{dropOps, dropEnv, dropRows, dropXML} {
			for time.Now().Before(end) {
				x := s.first(step(best), kind, tries, tmo, end)
				if x == nil {
					break
				}
				best = x
				got = true
			}
		}
		if !got {
			break
		}
	}
	return best
}

func edit(sc *Scenario, f func(c *Scenario)) *Scenario {
	c := clone(sc)
	f(c)
	return c
}

func cut[T any](xs []T, i, j int) []T { return append(append([]T{}, xs[:i]...), xs[j:]...) }

func dropOps(sc *Scenario) (out []*Scenario) {
	n := 0
	for t := range sc.Tasks {
		if len(sc.Tasks[t]) > 0 {
			n++
		}
	}
	for t := range sc.Tasks {
		if len(sc.Tasks[t]) > 0 {
			out = append(out, edit(sc, func(c *Scenario) { c.Tasks[t] = nil }))
		}
	}
	lists := func(c *Scenario) []*[]Op {
		l := []*[]Op{&c.Final, &c.Setup}
		for t := range c.Tasks {
			l = append(l, &c.Tasks[t])
		}
		return l
	}
	for li, l := range lists(sc) {
		for size := len(*l); size >= 1; size /= 2 {
			for i := 0; i+size <= len(*l); i += size {
				out = append(out, edit(sc, func(c *Scenario) { p := lists(c)[li]; *p = cut(*p, i, i+size) }))
			}
		}
		for i := range *l {
			op := (*l)[i]
			if op.F != 0 {
				for _, b := range []int{fShared, fScribIn, fScribOut, fSub} {
					if op.F&b != 0 {
						out = append(out, edit(sc, func(c *Scenario) { (*lists(c)[li])[i].F &^= b }))
					}
				}
			}
			if op.Plan != nil {
				out = append(out, edit(sc, func(c *Scenario) { (*lists(c)[li])[i].Plan = nil }))
				if op.Plan.Zero != 0 || op.Plan.Stall != 0 || op.Plan.Byte || op.Plan.Max != 0 || op.Plan.DataEOF {
					out = append(out, edit(sc, func(c *Scenario) {
						p := (*lists(c)[li])[i].Plan
						*p = Plan{Seed: p.Seed, Fault: p.Fault, At: p.At}
					}))
				}
			}
		}
	}
	for i := 1; i < len(sc.Envs) && len(sc.Envs) > 2; i++ {
		out = append(out, edit(sc, func(c *Scenario) { c.Envs = cut(c.Envs, i, i+1) }))
	}
	return
}

func dropEnv(sc *Scenario) (out []*Scenario) {
	try := func(on bool, f func(*Scenario)) {
		if on {
			out = append(out, edit(sc, f))
		}
	}
	try(len(sc.Before) > 0, func(c *Scenario) { c.Before = nil })
	for i := range sc.Before {
		try(len(sc.Before) > 1, func(c *Scenario) { c.Before = cut(c.Before, i, i+1) })
		b := sc.Before[i]
		try(len(b.Tasks) > 0, func(c *Scenario) { c.Before[i].Tasks = nil })
		for t := range b.Tasks {
			try(len(b.Tasks) > 1, func(c *Scenario) { c.Before[i].Tasks = cut(c.Before[i].Tasks, t, t+1) })
		}
		try(len(b.Final) > 0, func(c *Scenario) { c.Before[i].Final = nil })
		try(len(b.Setup) > 0, func(c *Scenario) { c.Before[i].Setup = nil })
	}
	try(sc.Sim.MapMode != 0, func(c *Scenario) { c.Sim.MapMode, c.Sim.MapSeed = 0, 0 })
	try(sc.Sim.PoolDrop != 0, func(c *Scenario) { c.Sim.PoolDrop = 0 })
	try(sc.Sim.ClockJump != 0, func(c *Scenario) { c.Sim.ClockJump = 0 })
	try(sc.Sim.ClockBase != 0, func(c *Scenario) { c.Sim.ClockBase = 0 })
	try(sc.Sim.RandSeed != 0, func(c *Scenario) { c.Sim.RandSeed = 0 })
	for i := range sc.Envs {
		e := sc.Envs[i]
		try(e.PoolDrop != 0, func(c *Scenario) { c.Envs[i].PoolDrop = 0 })
		try(e.ClockJump != 0, func(c *Scenario) { c.Envs[i].ClockJump = 0 })
		try(e.ClockBase != 0, func(c *Scenario) { c.Envs[i].ClockBase = 0 })
		try(e.RandSeed != 0, func(c *Scenario) { c.Envs[i].RandSeed = 0 })
		try(e.MapMode != 0, func(c *Scenario) { c.Envs[i].MapMode, c.Envs[i].MapSeed = 0, 0 })
	}
	return
}

func dropRows(sc *Scenario) (out []*Scenario) {
	for i := range sc.Rows {
		n := len(sc.Rows[i].F)
		if n == 0 {
			continue
		}
		out = append(out, edit(sc, func(c *Scenario) { c.Rows[i].F = nil }))
		for k := 0; k < n; k++ {
			out = append(out, edit(sc, func(c *Scenario) { c.Rows[i].F = cut(c.Rows[i].F, k, k+1) }))
		}
	}
	return
}

// dropXML removes elements, the largest first.
func dropXML(sc *Scenario) (out []*Scenario) {
	if sc.Prop == "C07" {
		return nil
	}
	type el struct{ d, lo, hi int }
	var els []el
	for d := range sc.Docs {
		s := string(sc.Docs[d].XML)
		for at := 0; at < len(s); {
			lo, hi, ok := elementAt(s, at)
			if lo < at {
				break
			}
			if ok && lo > 0 && !strings.HasPrefix(s[lo:], "<PMML") {
				els = append(els, el{d, lo, hi})
			}
			at = lo + 1
		}
	}
	sort.SliceStable(els, func(i, j int) bool { return els[i].hi-els[i].lo > els[j].hi-els[j].lo })
	if len(els) > 400 {
		els = els[:400]
	}
	for _, e := range els {
		out = append(out, edit(sc, func(c *Scenario) {
			s := string(c.Docs[e.d].XML)
			c.Docs[e.d].XML = Text(s[:e.lo] + s[e.hi:])
			c.Spans = nil
		}))
	}
	return
}

// shrinkSchedule turns the schedule into an explicit list of preemptions and
// drops those the failure does not need.
func (s *super) shrinkSchedule(sc *Scenario, kind string, tmo time.Duration, end time.Time) *Scenario {
	c := clone(sc)
	if c.Sim.Mode != "replay" {
		if len(c.Sim.Pre) == 0 {
			r, err := s.outcome(s.write(c), kind, 0, tmo)
			if err != nil || r.V == nil || len(r.Log) == 0 || r.Truncated {
				return nil
			}
			c.Sim.Pre = r.Log
		}
		c.Sim.Mode, c.Sim.P, c.Sim.Depth, c.Sim.Horizon = "replay", 0, 0, 0
	}
	check := func(pre []verifsim.Preempt) *Scenario {
		x := clone(c)
		x.Sim.Pre = pre
		return x
	}
	one := func(x *Scenario) bool {
		r, err := s.outcome(s.write(x), kind, 0, tmo)
		return err == nil && r.V != nil && r.V.Kind == kind
	}
	if !one(c) {
		return nil
	}
	cur := c.Sim.Pre
	for size := (len(cur) + 1) / 2; size >= 1 && time.Now().Before(end); {
		var cs []*Scenario
		for i := 0; i < len(cur); i += size {
			j := i + size
			if j > len(cur) {
				j = len(cur)
			}
			cs = append(cs, check(cut(cur, i, j)))
		}
		x := s.first(cs, kind, 0, tmo, end)
		if x != nil {
			cur = x.Sim.Pre
			if size > len(cur) {
				size = len(cur)
			}
			if len(cur) == 0 {
				break
			}
			continue
		}
		size /= 2
	}
	c.Sim.Pre = cur
	if !one(c) {
		return nil
	}
	return c
}

// replayFile runs a replay file in fresh processes.
func replayFile(p string) {
	s := &super{began: time.Now(), scratch: os.Getenv("VERIF_SCRATCH")}
	s.self, _ = os.Executable()
	if s.scratch == "" {
		d, err := os.MkdirTemp("", "replay")
		if err != nil {
			fatal("%v", err)
		}
		defer os.RemoveAll(d)
		s.scratch = d
	}
	sc := readScenario(p)
	s.prop = sc.Prop
	r, err := s.outcome(p, sc.Kind, 0, 120*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		os.Exit(2)
	}
	if r.V == nil {
		fmt.Println("replay: no violation")
		return
	}
	fmt.Printf("%s: %s\n", r.V.Kind, r.V.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", sc.Prop, p)
	os.Exit(1)
}
