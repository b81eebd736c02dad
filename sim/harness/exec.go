//go:build go1.21

package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"VERIFMOD/evaluation"
	"VERIFMOD/models"
	"VERIFMOD/verifsim"
)

// Violation is what a run found.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// Stats of one run.
type Stats struct {
	Steps     int64
	MaxGap    int64
	Switches  int64
	SimNS     int64
	Hash      uint64
	Ops       int
	Ok        int
	Digest    uint64
	Shape     string
	Log       []verifsim.Preempt
	Truncated bool
}

var (
	faultNames [64]string
	faultCnt   [64]int64
	nFault     int
)

// bump counts a fault that really happened.
//
//go:norace
func bump(name string) {
	for i := 0; i < nFault; i++ {
		if faultNames[i] == name {
			faultCnt[i]++
			return
		}
	}
	if nFault < len(faultNames) {
		faultNames[nFault] = name
		faultCnt[nFault] = 1
		nFault++
	}
}

// Outcome of one operation.
type Outcome struct {
	done  bool
	kind  string // ok err nil panic exit skip
	val   string
	err   string
	cause error
	viol  *Violation
	inner []inner
	more  []Outcome // of repetitions, where they differ from the one before
}

type inner struct {
	m, r int
	got  string
}

func (o *Outcome) String() string {
	if o.kind == "ok" {
		return "ok " + o.val
	}
	return o.kind
}

type cbPanic struct{}

// callback is a row value with behaviour.
type callback struct {
	v    Val
	h    *Hist
	n    int
	seen []inner
}

// next counts the calls; rows, and so callbacks, are shared by callers.
//
//go:norace
//go:noinline
func (c *callback) next() int { c.n++; return c.n }

func (c *callback) String() string {
	if c.h == nil || c.v.At > 0 && c.next() != c.v.At {
		return c.v.V
	}
	switch c.v.Act {
	case "yield":
		bump("value:yields")
		for i := 0; i < 4; i++ {
			verifsim.Y(-1)
		}
	case "stall":
		bump("value:stalls")
		verifsim.Sleep(3_000_000_000)
	case "panic":
		bump("value:panics")
		verifsim.Y(-1)
		panic(cbPanic{})
	case "goexit":
		bump("value:goexit")
		verifsim.Y(-1)
		runtime.Goexit()
	case "reenter":
		bump("value:re-enters")
		h := c.h
		m := h.mods[c.v.M]
		if m != nil {
			row := h.row(c.v.R, true)
			out, err := m.Evaluate(row)
			c.seen = append(c.seen, inner{c.v.M, c.v.R, outcomeOf(out, err)})
		}
	}
	return c.v.V
}

// Hist is the state of one simulated run.
type Hist struct {
	sc      *Scenario
	docs    []*models.PMML
	parts   []any // documents that are not whole ones
	docSpec []int
	mods    []evaluation.Model
	modSpec []mspec
	shared  []evaluation.DataRow
	bufs    []evaluation.DataRow // one per task, the last one of the serial phases
	refs    *Refs
	setup   []Outcome
	tasks   [][]Outcome
	final   []Outcome
	race0   int
	warm    bool // the process has done something before
}

type mspec struct{ doc, model int }

// Refs computes what operations return when they are alone on fresh objects.
type Refs struct {
	sc   *Scenario
	memo map[string]string
}

func (h *Hist) row(i int, passive bool) evaluation.DataRow {
	s := &h.sc.Rows[i]
	if s.Nil {
		return nil
	}
	hh := h
	if passive {
		hh = nil
	}
	r := make(evaluation.DataRow, len(s.F))
	for _, f := range s.F {
		r[f.N] = evaluation.NewValue(f.V.make(hh, 0))
	}
	return r
}

func outcomeOf(out evaluation.DataRow, err error) string {
	if err != nil {
		return "err"
	}
	if out == nil {
		return "nil"
	}
	return "ok " + dumpRow(out)
}

// target is what a document is decoded into.
func target(d *DocSpec) any {
	if t, ok := modelTypes[d.Root]; ok {
		if t.Kind() == reflect.Map {
			p := reflect.New(t)
			p.Elem().Set(reflect.MakeMap(t))
			return p.Interface()
		}
		return reflect.New(t).Interface()
	}
	return new(models.PMML)
}

func decode(s string) (*models.PMML, error) {
	var d models.PMML
	err := xml.NewDecoder(strings.NewReader(s)).Decode(&d)
	if err != nil {
		return nil, err
	}
	return &d, nil
}

func build(d *models.PMML, k int) (evaluation.Model, error) {
	if k >= len(d.Models) {
		return nil, fmt.Errorf("no model %d", k)
	}
	return evaluation.NewModel(&d.DataDictionary, &d.TransformationDictionary, d.Models[k])
}

var canonical = verifsim.Config{Mode: "canonical"}

func newRefs(sc *Scenario) *Refs { return &Refs{sc, map[string]string{}} }

// alone runs f by itself in a fresh process state under the canonical
// environment; what it returns is the reference.
func alone(f func() string) (s string) {
	verifsim.Restart(&canonical)
	verifsim.SetEnv(&canonical)
	s = "stuck"
	res := verifsim.Run(verifsim.Config{Mode: "canonical", StepLimit: refLimit}, []func(){func() {
		defer func() {
			if r := recover(); r != nil {
				s = "panic"
			}
		}()
		s = f()
	}})
	if res.Verdict != "" {
		s = "stuck:" + res.Verdict
	}
	return s
}

const refLimit = 3_000_000

func (r *Refs) get(key string, f func() string) string {
	if v, ok := r.memo[key]; ok {
		return v
	}
	v := alone(f)
	r.memo[key] = v
	return v
}

// load is the dump of the document decoded alone, or "err".
func (r *Refs) load(d int) string {
	return r.get(fmt.Sprintf("load %d", d), func() string {
		doc := target(&r.sc.Docs[d])
		if err := xml.NewDecoder(strings.NewReader(string(r.sc.Docs[d].XML))).Decode(doc); err != nil {
			return "err"
		}
		return "ok " + dump(doc)
	})
}

func (r *Refs) onModel(key string, s mspec, f func(evaluation.Model) string) string {
	return r.get(fmt.Sprintf("%s %d.%d", key, s.doc, s.model), func() string {
		doc, err := decode(string(r.sc.Docs[s.doc].XML))
		if err != nil {
			return "noload"
		}
		verifsim.Mark()
		m, err := build(doc, s.model)
		if err != nil {
			return "nobuild"
		}
		verifsim.Mark()
		return f(m)
	})
}

func (r *Refs) build(s mspec) string {
	return r.onModel("build", s, func(evaluation.Model) string { return "ok " })
}

func (r *Refs) eval(s mspec, row int) string {
	return r.onModel(fmt.Sprintf("eval %d", row), s, func(m evaluation.Model) string {
		h := &Hist{sc: r.sc}
		return outcomeOf(m.Evaluate(h.row(row, true)))
	})
}

func (r *Refs) life(k string, s mspec) string {
	return r.onModel(k, s, func(m evaluation.Model) string { return lifeCall(k, m) })
}

func (r *Refs) arr(doc, a int, kind string) string {
	return r.get(fmt.Sprintf("arr %d.%d.%s", doc, a, kind), func() string {
		d := target(&r.sc.Docs[doc])
		if err := xml.NewDecoder(strings.NewReader(string(r.sc.Docs[doc].XML))).Decode(d); err != nil {
			return "noload"
		}
		as := arraysOf(d)
		if a >= len(as) {
			return "noarray"
		}
		s, _ := readArr(as[a], kind)
		return s
	})
}

func lifeCall(k string, m evaluation.Model) string {
	var err error
	switch k {
	case "verify":
		err = m.Verify()
	case "validate":
		err = m.Validate()
	case "compile":
		err = m.Compile()
	}
	if err != nil {
		return "err"
	}
	return "ok "
}

var arrType = reflect.TypeOf(&models.ArrayType{})

// arraysOf finds the arrays of a document, in document order.
func arraysOf(d any) []*models.ArrayType {
	var out []*models.ArrayType
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			if v.CanAddr() && v.Addr().Type().ConvertibleTo(arrType) {
				p := v.Addr().Convert(arrType).Interface().(*models.ArrayType)
				if p.Type != "" || p.RawValue != "" {
					out = append(out, p)
				}
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			k := v.Type().Elem().Kind()
			if k != reflect.Struct && k != reflect.Ptr && k != reflect.Interface {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(d))
	return out
}

// readArr reads an array; the second result overwrites what was returned.
func readArr(a *models.ArrayType, kind string) (string, func()) {
	switch kind {
	case "s":
		x, err := a.Strings()
		if err != nil {
			return "err", func() {}
		}
		return "ok " + fmt.Sprintf("%q", x), func() {
			for i := range x {
				x[i] = "SCRIBBLE"
			}
			_ = append(x[:0], "OVER")
			_ = append(x[:len(x):cap(x)], "MORE")
		}
	case "i":
		x, err := a.Int64s()
		if err != nil {
			return "err", func() {}
		}
		return "ok " + fmt.Sprint(x), func() {
			for i := range x {
				x[i] = -987654321
			}
			_ = append(x[:0], 55)
			_ = append(x[:len(x):cap(x)], 56)
		}
	}
	x, err := a.Float64s()
	if err != nil {
		return "err", func() {}
	}
	return "ok " + dump(x), func() {
		for i := range x {
			x[i] = -9.87654321
		}
		_ = append(x[:0], 55)
		_ = append(x[:len(x):cap(x)], 56)
	}
}

func newHist(sc *Scenario) *Hist {
	h := &Hist{sc: sc, docs: make([]*models.PMML, sc.NDoc), parts: make([]any, sc.NDoc), docSpec: make([]int, sc.NDoc),
		mods: make([]evaluation.Model, sc.NMod), modSpec: make([]mspec, sc.NMod), refs: newRefs(sc)}
	for i := range h.docSpec {
		h.docSpec[i] = -1
	}
	for i := 0; i <= len(sc.Tasks); i++ {
		h.bufs = append(h.bufs, evaluation.DataRow{})
	}
	for i := range h.modSpec {
		h.modSpec[i].doc = -1
	}
	return h
}

// run executes one operation in the current task, as often as it asks for.
func (h *Hist) run(op *Op, out *Outcome, t int) {
	h.once(op, out, t)
	verifsim.Mark()
	last := out.String()
	for i := 1; i < op.Rep; i++ {
		var o Outcome
		h.once(op, &o, t)
		verifsim.Mark()
		if s := o.String(); s != last || o.viol != nil && out.viol == nil || len(o.inner) > 0 && fmt.Sprint(o.inner) != fmt.Sprint(out.inner) {
			last = s
			if len(out.more) < 8 {
				out.more = append(out.more, o)
			}
		}
	}
}

func (h *Hist) once(op *Op, out *Outcome, t int) {
	if op.F&fSub == 0 {
		h.guarded(op, out, t)
		out.done = true
		return
	}
	var fin atomic.Bool
	verifsim.Go(func() {
		defer func() {
			if out.kind == "" {
				out.kind = "exit"
			}
			fin.Store(true)
			verifsim.Progress()
		}()
		h.guarded(op, out, t)
	})
	for !fin.Load() {
		if !verifsim.Block() {
			return
		}
	}
	out.done = true
}

func (h *Hist) guarded(op *Op, out *Outcome, t int) {
	defer func() {
		if r := recover(); r != nil {
			out.kind = "panic"
			out.err = fmt.Sprint(r)
			switch r.(type) {
			case cbPanic:
				out.kind = "cbpanic"
			case srcPanic:
				out.kind = "srcpanic"
			default:
				out.err += " at " + repoFrame()
			}
		}
	}()
	h.do(op, out, t)
}

// repoFrame names the innermost frame of the code under test.
func repoFrame() string {
	var pcs [64]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "/evaluation.") || strings.Contains(f.Function, "/models.") {
			return fmt.Sprintf("%s:%d", f.Function[strings.LastIndex(f.Function, "/")+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func (h *Hist) do(op *Op, out *Outcome, t int) {
	switch op.K {
	case "load":
		// N is the document text, D the slot
		src := newSource(string(h.sc.Docs[op.N].XML), op.Plan)
		d := target(&h.sc.Docs[op.N])
		var dec *xml.Decoder
		if src.p.Byte {
			dec = xml.NewDecoder(byteSource{src})
		} else {
			dec = xml.NewDecoder(src)
		}
		err := dec.Decode(d)
		if err != nil {
			out.kind, out.err, out.cause = "err", err.Error(), err
			return
		}
		out.kind = "ok"
		h.docs[op.D], _ = d.(*models.PMML)
		h.parts[op.D] = d
		h.docSpec[op.D] = op.N
	case "build":
		d := h.docs[op.D]
		if d == nil {
			out.kind = "skip"
			return
		}
		m, err := build(d, op.N)
		if err != nil {
			out.kind, out.err = "err", err.Error()
			return
		}
		out.kind = "ok"
		h.mods[op.M] = m
		h.modSpec[op.M] = mspec{h.docSpec[op.D], op.N}
	case "eval":
		m := h.mods[op.M]
		if m == nil {
			out.kind = "skip"
			return
		}
		shared := op.F&fShared != 0
		var row evaluation.DataRow
		if shared {
			row = h.shared[op.R]
		} else {
			row = h.row(op.R, false)
			if op.F&fBuf != 0 && row != nil {
				bump("caller:refills-row")
				buf := h.bufs[t]
				for k := range buf {
					delete(buf, k)
				}
				for k, v := range row {
					buf[k] = v
				}
				row = buf
			}
		}
		var before string
		if !shared {
			before = dumpRow(row)
			defer func() {
				if after := dumpRow(row); h.sc.Prop == "C04" && after != before && out.kind != "scribbled" && out.viol == nil {
					out.viol = &Violation{"row-changed", "scoring changed the caller's row: " + firstDiff(before, after)}
				}
				for _, v := range row {
					if cb, ok := v.Raw().(*callback); ok {
						out.inner = append(out.inner, cb.seen...)
					}
				}
				if op.F&fScribIn != 0 && row != nil {
					bump("caller:overwrites-row")
					for k := range row {
						row[k] = evaluation.NewValue("SCRIBBLE")
					}
					row["scribble"] = evaluation.NewValue(1.25)
				}
			}()
		}
		o, err := m.Evaluate(row)
		s := outcomeOf(o, err)
		switch {
		case err != nil:
			out.kind, out.err = "err", err.Error()
		case o == nil:
			out.kind = "nil"
		default:
			out.kind, out.val = "ok", s[3:]
		}
		if op.F&fScribOut != 0 && o != nil {
			bump("caller:overwrites-result")
			for k := range o {
				o[k] = evaluation.NewValue(-54321.0)
			}
			o["scribble"] = evaluation.NewValue("x")
		}
	case "verify", "validate", "compile":
		m := h.mods[op.M]
		if m == nil {
			out.kind = "skip"
			return
		}
		s := lifeCall(op.K, m)
		out.kind = strings.TrimSpace(s)
	case "arr":
		d := h.parts[op.D]
		if d == nil {
			out.kind = "skip"
			return
		}
		as := arraysOf(d)
		if op.A >= len(as) {
			out.kind = "skip"
			return
		}
		s, scrib := readArr(as[op.A], op.S)
		if s == "err" {
			out.kind = "err"
		} else {
			out.kind, out.val = "ok", s[3:]
		}
		if op.F&fScribOut != 0 {
			bump("caller:overwrites-array")
			scrib()
		}
	case "sleep":
		verifsim.Sleep(int64(op.N))
		out.kind = "ok"
	default:
		panic("unknown op " + op.K)
	}
}

// expected is the reference outcome of an operation, "" when any is allowed.
func (h *Hist) expected(op *Op) string {
	switch op.K {
	case "load":
		if op.Plan != nil && op.Plan.Fault != "" && op.Plan.At < rootEnd(string(h.sc.Docs[op.N].XML)) {
			return "fail"
		}
		if op.Plan != nil && op.Plan.Fault != "" && op.Plan.At < len(h.sc.Docs[op.N].XML) {
			return ""
		}
		if strings.HasPrefix(h.refs.load(op.N), "ok ") {
			return "ok "
		}
		return h.refs.load(op.N)
	case "build":
		if h.docSpec[op.D] < 0 {
			return ""
		}
		s := h.refs.build(mspec{h.docSpec[op.D], op.N})
		if s == "nobuild" {
			return "err"
		}
		return s
	case "eval":
		if h.modSpec[op.M].doc < 0 {
			return ""
		}
		return h.refs.eval(h.modSpec[op.M], op.R)
	case "verify", "validate", "compile":
		if h.modSpec[op.M].doc < 0 {
			return ""
		}
		s := h.refs.life(op.K, h.modSpec[op.M])
		if _, lazy := h.mods[op.M].(*evaluation.RegressionModel); s == "err" && op.K != "verify" && !lazy {
			// building such a model includes the same call, and that one succeeded
			return "ok "
		}
		return s
	case "arr":
		if h.docSpec[op.D] < 0 {
			return ""
		}
		return h.refs.arr(h.docSpec[op.D], op.A, op.S)
	}
	return ""
}

// wholeRunes says that no character is cut in two at the offset: the XML decoder
// reports that before it looks at the source's error.
func wholeRunes(s string, at int) bool { return at >= len(s) || utf8.RuneStart(s[at]) }

// rootEnd is the offset just after the end tag of the root element, or the
// length of a document that has none.
func rootEnd(s string) int {
	if v, ok := rootEnds[s]; ok {
		return v
	}
	end := len(s)
	d := xml.NewDecoder(strings.NewReader(s))
	depth := 0
loop:
	for {
		tok, err := d.RawToken()
		if err != nil {
			break
		}
		switch tok.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
			if depth <= 0 {
				end = int(d.InputOffset())
				break loop
			}
		}
	}
	if len(rootEnds) > 64 {
		rootEnds = map[string]int{}
	}
	rootEnds[s] = end
	return end
}

var rootEnds = map[string]int{}

func (o *Op) show() string {
	switch o.K {
	case "load":
		return fmt.Sprintf("load(document %d -> slot %d)", o.N, o.D)
	case "build":
		return fmt.Sprintf("build(document slot %d -> model %d)", o.D, o.M)
	case "eval":
		return fmt.Sprintf("evaluate(model %d, row %d)", o.M, o.R)
	case "arr":
		return fmt.Sprintf("array %d of document slot %d as %s", o.A, o.D, o.S)
	}
	return fmt.Sprintf("%s(model %d)", o.K, o.M)
}

// compare judges one operation's outcomes against the reference.
func (h *Hist) compare(where string, op *Op, o *Outcome) *Violation {
	v := h.compare1(where, op, o)
	for i := 0; v == nil && i < len(o.more); i++ {
		v = h.compare1(where+" repeated", op, &o.more[i])
	}
	return v
}

func (h *Hist) compare1(where string, op *Op, o *Outcome) *Violation {
	if !o.done && o.kind == "" {
		return nil // the run was cut short; the verdict says so
	}
	if h.sc.Prop == "C08" {
		if o.kind == "panic" {
			return &Violation{"panic", fmt.Sprintf("%s: %s panicked: %s", where, op.show(), o.err)}
		}
		return nil
	}
	if h.sc.Prop == "C11" && op.K != "arr" {
		return nil // scoring is there for company; other properties judge it
	}
	if o.viol != nil {
		return o.viol
	}
	for _, in := range o.inner {
		if want := h.refs.eval(h.modSpec[in.m], in.r); want != in.got {
			return &Violation{"mismatch", fmt.Sprintf("%s: %s re-entered: evaluate(model %d, row %d) returned %s, alone it returns %s", where, op.show(), in.m, in.r, in.got, want)}
		}
	}
	switch o.kind {
	case "skip", "cbpanic", "exit":
		return nil
	}
	want := h.expected(op)
	if want == "" || want == "noarray" || want == "noload" || want == "nobuild" {
		return nil
	}
	if want == "fail" {
		if o.kind == "ok" {
			return &Violation{"load-success", fmt.Sprintf("%s: load reported success although the source failed (%s) after %d of %d bytes", where, op.Plan.Fault, op.Plan.At, len(h.sc.Docs[op.N].XML))}
		}
		if o.kind == "panic" {
			return &Violation{"panic", fmt.Sprintf("%s: %s panicked: %s", where, op.show(), o.err)}
		}
		if o.kind == "err" && strings.HasPrefix(h.refs.load(op.N), "ok") && op.Plan.ownError() != nil && wholeRunes(string(h.sc.Docs[op.N].XML), op.Plan.At) && !errors.Is(o.cause, op.Plan.ownError()) {
			return &Violation{"error-lost", fmt.Sprintf("%s: load failed with %q instead of the source's own error", where, o.err)}
		}
		return nil
	}
	if o.kind == "srcpanic" {
		return nil
	}
	got := o.String()
	if op.K != "eval" && op.K != "arr" && o.kind == "ok" {
		got = "ok "
	}
	if got == want {
		return nil
	}
	kind := "mismatch"
	if o.kind == "panic" {
		kind = "panic"
	}
	return &Violation{kind, fmt.Sprintf("%s: %s returned %s %s; alone on fresh objects it returns %s", where, op.show(), got, o.err, want)}
}

// simulate runs the scenario's phases and judges the history.
func simulate(sc *Scenario) (*Violation, Stats) {
	h := newHist(sc)
	var st Stats
	if v := h.phases(&st); v != nil {
		return v, st
	}
	return h.judge(&st), st
}

func (h *Hist) phases(st *Stats) *Violation {
	sc := h.sc

	if !h.warm {
		cfg := sc.Sim.config()
		verifsim.Restart(&cfg)
	}
	h.race0 = verifsim.RaceErrors()
	for _, b := range sc.Before {
		bh := newHist(b)
		bh.warm = true
		if v := bh.phases(st); v != nil {
			v.Detail = "in an earlier run of the process: " + v.Detail
			return v
		}
	}
	cfg := sc.Sim.config()
	verifsim.SetEnv(&cfg)
	h.shared = make([]evaluation.DataRow, len(sc.Rows))
	for i := range sc.Rows {
		h.shared[i] = h.row(i, false)
	}
	serial := func(ops []Op, outs []Outcome) verifsim.Result {
		c := cfg
		c.Mode, c.P, c.Depth, c.Horizon = "canonical", 0.3, 3, 500
		if sc.Sim.Serial != "" {
			c.Mode = sc.Sim.Serial
		}
		return verifsim.Run(c, []func(){func() {
			for i := range ops {
				h.run(&ops[i], &outs[i], len(sc.Tasks))
			}
		}})
	}
	h.setup = make([]Outcome, len(sc.Setup))
	h.final = make([]Outcome, len(sc.Final))
	h.tasks = make([][]Outcome, len(sc.Tasks))
	var v *Violation
	addup := func(phase string, r verifsim.Result) {
		st.Steps += r.Steps
		if r.MaxGap > st.MaxGap {
			st.MaxGap = r.MaxGap
		}
		st.Switches += r.Switches
		st.SimNS += r.Elapsed
		if r.PoolDrops > 0 {
			bump("pool:object-dropped")
		}
		if r.Jumps > 0 {
			bump("clock:jump")
		}
		if r.MapIters > 0 && sc.Sim.MapMode != 0 {
			bump("map:order-changed")
		}
		if v == nil && r.Verdict != "" {
			v = &Violation{r.Verdict, phase + ": " + h.verdictText(r.Verdict)}
		}
		if v == nil && r.Crash != "" {
			v = &Violation{"crash", phase + ": a goroutine started by the library panicked: " + r.Crash}
		}
	}
	if len(sc.Setup) > 0 {
		addup("setup", serial(sc.Setup, h.setup))
	}
	if v == nil && len(sc.Tasks) > 0 {
		var fns []func()
		for t := range sc.Tasks {
			t := t
			h.tasks[t] = make([]Outcome, len(sc.Tasks[t]))
			fns = append(fns, func() {
				for i := range sc.Tasks[t] {
					h.run(&sc.Tasks[t][i], &h.tasks[t][i], t)
				}
			})
		}
		r := verifsim.Run(cfg, fns)
		addup("tasks", r)
		st.Hash = r.LogHash
		st.Log = r.Log
		st.Truncated = r.Truncated
	}
	if v == nil && len(sc.Final) > 0 {
		addup("after faults stopped", serial(sc.Final, h.final))
	}
	if n := verifsim.RaceErrors() - h.race0; n > 0 {
		if rv := raceViolation(); rv != nil {
			return rv
		}
	}
	return v
}

func (h *Hist) verdictText(v string) string {
	if v == "deadlock" {
		return "no task can make progress"
	}
	return "the step limit was reached without the calls completing"
}

func (h *Hist) judge(st *Stats) *Violation {
	sc := h.sc
	var v *Violation
	see := func(where string, ops []Op, outs []Outcome) {
		for i := range ops {
			if i >= len(outs) {
				break
			}
			st.Ops++
			if outs[i].kind == "ok" || outs[i].kind == "nil" {
				st.Ok++
			}
			st.Digest = st.Digest*1099511628211 ^ hashS(outs[i].String())
			if v == nil {
				v = h.compare(fmt.Sprintf("%s op %d", where, i), &ops[i], &outs[i])
			}
		}
	}
	see("setup", sc.Setup, h.setup)
	for t := range sc.Tasks {
		see(fmt.Sprintf("task %d", t), sc.Tasks[t], h.tasks[t])
	}
	see("final", sc.Final, h.final)
	if v != nil || sc.Prop == "C08" {
		return v
	}
	// each check judges its own property: rows are C04's, documents C05's, C06's
	// and C09's
	for i := range sc.Rows {
		if sc.Prop != "C04" {
			break
		}
		want := dumpRow(h.row(i, true))
		if got := dumpRow(h.shared[i]); got != want {
			return &Violation{"row-changed", fmt.Sprintf("row %d, shared by the callers, was changed: %s", i, firstDiff(want, got))}
		}
	}
	for i, d := range h.parts {
		if d == nil || sc.Prop != "C05" && sc.Prop != "C06" && sc.Prop != "C09" {
			continue
		}
		want := h.refs.load(h.docSpec[i])
		if got := "ok " + dump(d); got != want {
			return &Violation{"doc-changed", fmt.Sprintf("document slot %d differs from a fresh parse: %s", i, firstDiff(want, got))}
		}
	}
	return nil
}

func hashS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
