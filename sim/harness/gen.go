//go:build go1.21

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

var (
	shippedOnce sync.Once
	shippedDocs []shippedDoc
	repoDir     = "/repo"
)

type shippedDoc struct{ name, xml string }

// shipped returns the small documents that come with the repository.
func shipped() []shippedDoc {
	shippedOnce.Do(func() {
		root := filepath.Join(repoDir, "evaluation", "testdata")
		var names []string
		filepath.Walk(root, func(p string, in os.FileInfo, err error) error {
			if err == nil && !in.IsDir() && strings.HasSuffix(p, ".xml") && in.Size() < 40_000 {
				names = append(names, p)
			}
			return nil
		})
		sort.Strings(names)
		for _, n := range names {
			b, err := os.ReadFile(n)
			if err == nil {
				rel, _ := filepath.Rel(root, n)
				shippedDocs = append(shippedDocs, shippedDoc{rel, string(b)})
			}
		}
	})
	return shippedDocs
}

// Doc is a document a scenario uses: a generated or a shipped one.
type Doc struct {
	xml    string
	note   string
	g      *GDoc
	fields []field
	thr    []string
	spans  []Span
	root   string // model type, when it is not a whole document
}

func genDoc(r *R, o GenOpt) *Doc {
	g := GenDoc(r, o)
	x, sp := g.Render()
	return &Doc{xml: x, note: "generated " + g.Kind, g: g, fields: g.Active, thr: g.Thresholds, spans: sp}
}

// shippedAsDoc describes a shipped document well enough to make rows for it.
func shippedAsDoc(s shippedDoc) *Doc {
	d := &Doc{xml: s.xml, note: "shipped " + s.name}
	p, err := decode(s.xml)
	if err != nil {
		return d
	}
	for _, f := range p.DataDictionary.DataFields {
		x := field{name: string(f.Name), dt: string(f.DataType), op: string(f.OpType)}
		for _, v := range f.Values {
			x.vals = append(x.vals, v.Value)
		}
		d.fields = append(d.fields, x)
	}
	for i, at := 0, 0; i < 200; i++ {
		j := strings.Index(s.xml[at:], ` value="`)
		if j < 0 {
			break
		}
		at += j + 8
		k := strings.IndexByte(s.xml[at:], '"')
		if _, err := strconv.ParseFloat(s.xml[at:at+k], 64); err == nil {
			d.thr = append(d.thr, s.xml[at:at+k])
		}
	}
	return d
}

// anyDoc is mostly a generated document, sometimes a shipped one; some are
// self-verifying.
func anyDoc(r *R, o GenOpt, verif float64) *Doc {
	if r.P(0.06) && len(shipped()) > 0 && !o.Map && !o.Arrays && !o.Small {
		return shippedAsDoc(pickS(r, shipped()))
	}
	d := genDoc(r, o)
	if r.P(verif) {
		addVerification(r, d, pick(r, 1, 2, 3, 4, 1, 2, 3, 4, r.Range(5, 20)))
	}
	return d
}

func fs(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// row makes one random row for a document.
func row(r *R, d *Doc) RowSpec {
	var out RowSpec
	miss := pick(r, 0, 0, 0.15, 0.3, 0.6)
	odd := r.P(0.15)
	asText := r.P(0.1)
	for _, f := range d.fields {
		if f.name == "label" && r.P(0.8) {
			continue
		}
		if r.P(miss) {
			if r.P(0.15) {
				out.F = append(out.F, Field{f.name, Val{K: "nil"}})
			}
			continue
		}
		out.F = append(out.F, Field{f.name, cellFor(r, d, f, odd, asText)})
	}
	if d.g != nil && r.P(0.06) {
		// the caller's row already has an entry the model derives
		for _, df := range d.g.Derived {
			if r.P(0.5) {
				out.F = append(out.F, Field{df.name, Val{K: "f64", V: num(r)}})
			}
		}
	}
	if r.P(0.08) {
		out.F = append(out.F, Field{pick(r, "score", "raw", "score", "raw", "label", "label", "unused", "probability(yes)"),
			pick(r, Val{K: "f64", V: num(r)}, Val{K: "f64", V: num(r)}, Val{K: "nil"}, Val{K: "s", V: "yes"})})
	}
	if r.P(0.05) {
		// a wide row
		for i := r.Range(3, 60); i > 0; i-- {
			out.F = append(out.F, Field{fmt.Sprintf("unused%d", i), Val{K: "f64", V: num(r)}})
		}
	}
	seen := map[string]bool{}
	k := out.F[:0]
	for _, f := range out.F {
		if !seen[f.N] {
			seen[f.N] = true
			k = append(k, f)
		}
	}
	out.F = k
	return out
}

func cellFor(r *R, d *Doc, f field, odd, asText bool) Val {
	if odd && r.P(0.4) {
		return pick(r, Val{K: "nil"}, Val{K: "s", V: "garbage"}, Val{K: "s", V: ""}, Val{K: "f64", V: "NaN"}, Val{K: "f64", V: "+Inf"},
			Val{K: "f64", V: "-Inf"}, Val{K: "f64", V: "-0"}, Val{K: "b", V: "true"}, Val{K: "u64", V: "7"}, Val{K: "u8", V: "3"}, Val{K: "i", V: "-2"}, Val{K: "i32", V: "4"}, Val{K: "f32", V: "0.25"})
	}
	switch f.dt {
	case "string":
		if len(f.vals) > 0 && r.P(0.85) {
			return Val{K: "s", V: pickS(r, f.vals)}
		}
		return Val{K: "s", V: pick(r, "unknown", "", "red ")}
	case "boolean":
		return Val{K: "b", V: pick(r, "true", "false")}
	}
	v := num(r)
	if len(d.thr) > 0 && r.P(0.7) {
		v = pickS(r, d.thr)
		if x, err := strconv.ParseFloat(v, 64); err == nil && r.P(0.6) {
			v = fs(x + pick(r, -1, -0.01, 0.01, 1, 1e-9))
		}
	}
	if asText {
		return Val{K: "s", V: v}
	}
	if f.dt == "integer" && r.P(0.8) {
		x, _ := strconv.ParseFloat(v, 64)
		return Val{K: pick(r, "i64", "i64", "i", "i32"), V: strconv.FormatInt(int64(math.Floor(x)), 10)}
	}
	return Val{K: pick(r, "f64", "f64", "f64", "f32"), V: v}
}

// withCallback turns a categorical cell into a value with behaviour.
func withCallback(r *R, rs RowSpec, d *Doc, act string) RowSpec {
	var f []Field
	done := false
	for _, x := range rs.F {
		if x.N == "c0" {
			x.V = Val{K: "cb", V: pick(r, "red", "green", "blue", "zzz"), Act: act}
			done = true
		}
		f = append(f, x)
	}
	if !done {
		f = append(f, Field{"c0", Val{K: "cb", V: pick(r, "red", "green", "zzz"), Act: act}})
	}
	if r.P(0.35) {
		at := pick(r, 1, 1, 2, 3, r.Range(1, 12))
		for i := range f {
			if f[i].V.Act != "" {
				f[i].V.At = at
			}
		}
	}
	return RowSpec{F: f}
}

// schedule draws how the tasks of a run interleave.
func schedule(r *R) Sim {
	s := Sim{Seed: r.U()}
	switch r.N(10) {
	case 8, 9:
		s.Mode, s.P = "sync", pick(r, 1, 0.5, 0.5, 0.2)
	case 0, 1, 2:
		s.Mode, s.P = "walk", pick(r, 0.5, 0.2, 0.05, 0.02, 0.005)
	case 3, 4:
		s.Mode, s.Depth, s.Horizon = "pct", r.Range(1, 6), int64(math.Exp(3+r.F()*7))
	case 5, 6:
		s.Mode, s.Depth, s.P = "sites", r.Range(1, 6), pick(r, 1, 0.5, 0.1)
	default:
		s.Mode, s.Depth = "rr", r.N(12)
	}
	env(r, &s)
	return s
}

// env draws the environment: map order, random state, clock, pools.
func env(r *R, s *Sim) {
	s.RandSeed = r.U()
	if r.P(0.7) {
		s.MapMode = r.Range(1, 2)
		s.MapSeed = r.U()
	}
	if r.P(0.3) {
		s.PoolDrop = pick(r, 0.05, 0.5, 1)
	}
	if r.P(0.3) {
		s.ClockJump = pick(r, 0.001, 0.02)
	}
	s.ClockBase = int64(r.U() % (1 << 50))
}

func quiet(r *R) Sim {
	s := Sim{Mode: "canonical", Seed: r.U()}
	if r.P(0.5) {
		s.Serial = pick(r, "walk", "pct", "sync", "rr", "sites")
	}
	env(r, &s)
	return s
}

func (sc *Scenario) addDoc(d *Doc) int {
	sc.Docs = append(sc.Docs, DocSpec{Text(d.xml), d.note, d.root})
	return len(sc.Docs) - 1
}
func (sc *Scenario) addRow(x RowSpec) int { sc.Rows = append(sc.Rows, x); return len(sc.Rows) - 1 }

// loaded adds setup operations that load a document and build a model of it.
func (sc *Scenario) loaded(doc int) (slot, model int) {
	slot, model = sc.NDoc, sc.NMod
	sc.NDoc++
	sc.NMod++
	sc.Setup = append(sc.Setup, Op{K: "load", N: doc, D: slot}, Op{K: "build", D: slot, M: model})
	return
}

func opt(r *R) GenOpt { return GenOpt{Small: r.P(0.5), Map: r.P(0.35)} }

// generate makes the scenario of one run.
func generate(prop string, seed uint64, run int64) *Scenario {
	h := NewR(seed ^ hashS(prop))
	r := NewR(h.U() + uint64(run)*0x9e3779b97f4a7c15)
	sc := &Scenario{Prop: prop, Run: run}
	switch prop {
	case "C01":
		genConcurrent(r, sc, false)
	case "C12":
		genConcurrent(r, sc, true)
	case "C02":
		genDeterminism(r, sc)
	case "C03":
		genHistory(r, sc)
	case "C04":
		genRows(r, sc)
	case "C05":
		genBuilds(r, sc)
	case "C06":
		genStream(r, sc)
	case "C07":
		genNumbers(r, sc)
	case "C08":
		genDamage(r, sc)
	case "C09":
		genIsolation(r, sc)
	case "C10":
		genVerify(r, sc)
	case "C11":
		genArrays(r, sc)
	case "C13":
		genLifecycle(r, sc)
	case "C14":
		genGrowth(r, sc)
	default:
		panic("unknown property " + prop)
	}
	return sc
}

func genConcurrent(r *R, sc *Scenario, faults bool) {
	nd := 1
	if r.P(0.2) {
		nd = 2
	}
	var docs []*Doc
	for i := 0; i < nd; i++ {
		o := opt(r)
		if faults && r.P(0.8) {
			o.Map = true
		}
		d := flawed(r, o, 0.4)
		if i > 0 && r.P(0.4) {
			d = sibling(r, docs[0])
		}
		docs = append(docs, d)
		sc.loaded(sc.addDoc(d))
	}
	type rr struct{ row, doc int }
	var rows, plain []rr
	for i := r.Range(2, 6); i > 0; i-- {
		k := r.N(nd)
		x := row(r, docs[k])
		n := sc.addRow(x)
		plain = append(plain, rr{n, k})
		rows = append(rows, rr{n, k})
	}
	if docs[0].g != nil && docs[0].g.hasMap {
		acts := []string{"yield", "yield", "stall"}
		n := r.N(2)
		if faults {
			acts = []string{"yield", "stall", "panic", "panic", "goexit", "reenter", "reenter"}
			n = r.Range(1, 3)
		}
		for ; n > 0; n-- {
			a := pickS(r, acts)
			x := withCallback(r, row(r, docs[0]), docs[0], a)
			if a == "reenter" {
				for i := range x.F {
					if x.F[i].V.Act == "reenter" {
						x.F[i].V.M = r.N(sc.NMod)
						x.F[i].V.R = pickS(r, plain).row
					}
				}
			}
			rows = append(rows, rr{sc.addRow(x), 0})
		}
	}
	buf := r.P(0.25)
	share := r.P(0.3) // rows with values that misbehave are shared too
	var dear *rr
	if share && r.P(0.5) {
		dear = &rows[len(rows)-1]
	}
	one := func() Op {
		x := pickS(r, rows)
		if dear != nil && r.P(0.6) {
			x = *dear
		}
		op := Op{K: "eval", M: x.doc, R: x.row}
		if nd > 1 && r.P(0.2) {
			op.M = r.N(nd)
		}
		act := ""
		for _, f := range sc.Rows[x.row].F {
			if f.V.Act != "" {
				act = f.V.Act
			}
		}
		switch {
		case act == "goexit":
			op.F = fSub
			if share {
				op.F |= fShared
			}
		case act == "panic" && r.P(0.3):
			op.F = fSub
			if share {
				op.F |= fShared
			}
		case act != "" && act != "reenter":
			if share {
				op.F = fShared
			}
		case act == "":
			if r.P(0.35) {
				op.F = fShared
			} else if buf {
				op.F = fBuf
			}
		}
		if r.P(0.25) {
			op = Op{K: "verify", M: op.M}
		}
		return op
	}
	for t := r.Range(2, 4); t > 0; t-- {
		var ops []Op
		for n := r.Range(1, 5); n > 0; n-- {
			ops = append(ops, one())
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	if faults && r.P(0.15) {
		// a call that fails, very often, before and while the others are made
		x := pickS(r, rows)
		if len(rows) > len(plain) && r.P(0.7) {
			x = pickS(r, rows[len(plain):])
		}
		op := Op{K: "eval", M: x.doc, R: x.row, Rep: r.Range(60, 150)}
		if r.P(0.25) {
			op.Rep = r.Range(257, 300)
		}
		for _, f := range sc.Rows[x.row].F {
			if f.V.Act == "goexit" {
				op.F = fSub
			}
		}
		if r.P(0.7) {
			sc.Setup = append(sc.Setup, op)
		} else {
			sc.Tasks[0] = append(sc.Tasks[0], op)
		}
	}
	if r.P(0.05) {
		ops := pickS(r, sc.Tasks)
		ops[r.N(len(ops))].Rep = r.Range(2, 20)
	}
	if r.P(0.4) {
		// warm the model up first
		for n := r.Range(1, 3); n > 0; n-- {
			x := pickS(r, plain)
			sc.Setup = append(sc.Setup, Op{K: "eval", M: x.doc, R: x.row})
		}
	}
	for _, x := range plain {
		sc.Final = append(sc.Final, Op{K: "eval", M: x.doc, R: x.row})
	}
	for m := 0; m < nd; m++ {
		sc.Final = append(sc.Final, Op{K: "verify", M: m})
	}
	sc.Sim = schedule(r)
}

func genDeterminism(r *R, sc *Scenario) {
	o := opt(r)
	if r.P(0.5) {
		o.Model = pick(r, "tree", "mining")
		o.Function = "classification"
		o.Strategy = pick(r, "aggregateNodes", "weightedConfidence", "defaultChild", "")
	}
	d := flawed(r, o, 0.3)
	sc.loaded(sc.addDoc(d))
	for i := r.Range(3, 8); i > 0; i-- {
		n := sc.addRow(row(r, d))
		sc.Final = append(sc.Final, Op{K: "eval", M: 0, R: n})
	}
	sc.Final = append(sc.Final, Op{K: "verify", M: 0})
	base := Sim{Mode: "canonical"}
	sc.Envs = append(sc.Envs, base)
	rev := Sim{Mode: "canonical", MapMode: 1, RandSeed: r.U(), ClockBase: int64(r.U() % (1 << 55))}
	sc.Envs = append(sc.Envs, rev)
	for i := 0; i < 3; i++ {
		s := quiet(r)
		s.MapMode, s.MapSeed = 2, r.U()
		sc.Envs = append(sc.Envs, s)
	}
}

// genHistory: one caller, a long history on one or two models.
func genHistory(r *R, sc *Scenario) {
	nd := pick(r, 1, 1, 2)
	var docs []*Doc
	for i := 0; i < nd; i++ {
		o := opt(r)
		d := flawed(r, o, 0.5)
		if i > 0 && r.P(0.4) {
			d = sibling(r, docs[0])
		}
		docs = append(docs, d)
		sc.loaded(sc.addDoc(d))
	}
	nrows := pick(r, 2, 3, 5, 8, 20)
	long := r.P(0.1)
	if long {
		nrows = r.Range(40, 90)
	}
	type rr struct{ row, doc int }
	var rows []rr
	for i := 0; i < nrows; i++ {
		k := r.N(nd)
		x := row(r, docs[k])
		if len(rows) > 0 && r.P(0.4) {
			// a neighbour of an earlier row: one cell different
			y := pickS(r, rows)
			k = y.doc
			x = mutateRow(r, sc.Rows[y.row], docs[k])
		}
		if docs[k].g != nil && docs[k].g.hasMap && r.P(0.15) {
			x = withCallback(r, x, docs[k], pick(r, "panic", "goexit", "yield"))
		}
		rows = append(rows, rr{sc.addRow(x), k})
	}
	n := r.Range(4, 24)
	buf := r.P(0.3)
	if long {
		n = r.Range(100, 300)
	}
	// one call repeated so often that small counters wrap around
	rep, repAt := 0, 0
	switch k := r.N(2000); {
	case k < 160:
		rep = pick(r, 255, 256, 300, 520)
	case k < 164:
		rep = r.Range(3000, 9000)
	case k == 164:
		rep = 66000
	}
	if rep > 600 && len(docs[0].xml)+len(docs[nd-1].xml) > 12000 {
		rep = 300
	}
	if rep > 0 {
		repAt = r.N(min(n, 12))
	}
	for i := 0; i < n; i++ {
		x := pickS(r, rows)
		op := Op{K: "eval", M: x.doc, R: x.row}
		for _, f := range sc.Rows[x.row].F {
			if f.V.Act == "goexit" {
				op.F = fSub
			}
		}
		if op.F == 0 && r.P(0.2) {
			op.F = pick(r, fScribIn, fScribOut, fScribIn|fScribOut)
		}
		if op.F&fSub == 0 && buf {
			op.F |= fBuf
		}
		if r.P(0.12) {
			op = Op{K: "verify", M: x.doc}
		}
		if rep > 0 && i == repAt {
			op.Rep = rep
		}
		sc.Final = append(sc.Final, op)
	}
	sc.Sim = quiet(r)
}

func mutateRow(r *R, x RowSpec, d *Doc) RowSpec {
	out := RowSpec{F: append([]Field{}, x.F...)}
	for i := r.Range(1, 2); i > 0; i-- {
		switch {
		case len(out.F) > 0 && r.P(0.35):
			k := r.N(len(out.F))
			out.F = append(out.F[:k:k], out.F[k+1:]...)
		case len(d.fields) > 0:
			f := pickS(r, d.fields)
			c := Field{f.name, cellFor(r, d, f, false, false)}
			hit := false
			for k := range out.F {
				if out.F[k].N == f.name {
					out.F[k] = c
					hit = true
				}
			}
			if !hit {
				out.F = append(out.F, c)
			}
		}
	}
	return out
}

// genRows: rows shared by callers and by models; callers overwrite what is
// theirs.
func genRows(r *R, sc *Scenario) {
	nd := r.Range(1, 2)
	var docs []*Doc
	nt := pick(r, 1, 1, 2, 2, 3)
	for i := 0; i < nd; i++ {
		o := opt(r)
		o.Derive = r.P(0.6)
		o.Model = pick(r, "mining", "mining", "tree", "")
		d := flawed(r, o, 0.2)
		docs = append(docs, d)
		k := sc.addDoc(d)
		// the callers share rows, not models: sharing models is C01's
		for t := 0; t < nt; t++ {
			sc.loaded(k)
		}
	}
	for i := r.Range(1, 4); i > 0; i-- {
		x := row(r, pickS(r, docs))
		if r.P(0.05) {
			x = RowSpec{Nil: true}
		}
		sc.addRow(x)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		buf := r.P(0.3)
		for n := r.Range(1, 5); n > 0; n-- {
			op := Op{K: "eval", M: r.N(nd)*nt + t, R: r.N(len(sc.Rows))}
			if r.P(0.5) {
				op.F = fShared
			} else if r.P(0.5) {
				op.F = fScribIn
			}
			if buf && r.P(0.8) {
				op.F = fBuf
			}
			if r.P(0.5) {
				op.F |= fScribOut
			}
			ops = append(ops, op)
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	for i := range sc.Rows {
		for m := 0; m < nd; m++ {
			sc.Final = append(sc.Final, Op{K: "eval", M: m * nt, R: i, F: fShared})
		}
	}
	sc.Sim = schedule(r)
}

// genBuilds: one parsed document, many builds, while models are being scored.
func genBuilds(r *R, sc *Scenario) {
	d := flawed(r, opt(r), 0.3)
	if r.P(0.08) {
		d.xml = unbuildable(r, d)
	}
	n := sc.addDoc(d)
	sc.NDoc = 1
	sc.Setup = append(sc.Setup, Op{K: "load", N: n, D: 0})
	for i := r.Range(1, 4); i > 0; i-- {
		sc.addRow(row(r, d))
	}
	newModel := func() int { sc.NMod++; return sc.NMod - 1 }
	many := r.P(0.06) && len(d.xml) < 8000
	use := func(m int) []Op {
		var ops []Op
		for k := r.Range(0, 2); k > 0; k-- {
			ops = append(ops, Op{K: "eval", M: m, R: r.N(len(sc.Rows))})
		}
		if r.P(0.2) {
			ops = append(ops, Op{K: "verify", M: m})
		}
		return ops
	}
	var sharedM []int
	for k := r.N(3); k > 0; k-- {
		m := newModel()
		sc.Setup = append(sc.Setup, Op{K: "build", D: 0, M: m})
		sc.Setup = append(sc.Setup, use(m)...)
		sharedM = append(sharedM, m)
	}
	for t := pick(r, 1, 2, 2, 3, 4); t > 0; t-- {
		var ops []Op
		// a model is scored by one task only: sharing it is C01's
		mine := -1
		if len(sharedM) > 0 {
			mine, sharedM = sharedM[0], sharedM[1:]
		}
		for k := r.Range(1, 3); k > 0; k-- {
			if mine >= 0 && r.P(0.5) {
				ops = append(ops, use(mine)...)
				continue
			}
			m := newModel()
			b := Op{K: "build", D: 0, M: m}
			if many {
				b.Rep = r.Range(2, 70)
			}
			ops = append(ops, b)
			ops = append(ops, use(m)...)
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	m := newModel()
	sc.Final = append(sc.Final, Op{K: "build", D: 0, M: m})
	for k := 0; k < sc.NMod; k++ {
		for i := range sc.Rows {
			sc.Final = append(sc.Final, Op{K: "eval", M: k, R: i})
		}
		if r.P(0.3) {
			sc.Final = append(sc.Final, Op{K: "verify", M: k})
		}
	}
	sc.Sim = schedule(r)
}

// offset places a fault inside a document, often at an element boundary.
func offset(r *R, s string) int {
	if len(s) == 0 {
		return 0
	}
	k := r.N(len(s))
	switch r.N(4) {
	case 0, 1:
		if j := strings.IndexByte(s[k:], '>'); j >= 0 {
			return k + j + 1
		}
	case 2:
		if r.P(0.3) {
			// close to the end
			k = len(s) - r.Range(1, 60)
			if k < 0 {
				k = 0
			}
		}
	}
	return k
}

func plan(r *R, s string, fault bool) *Plan {
	p := &Plan{Seed: r.U()}
	switch r.N(5) {
	case 0:
		p.Min, p.Max = 1, 1
	case 1:
		p.Min, p.Max = 1, 7
	case 2:
		p.Min, p.Max = 1, 200
	case 3:
		p.Min, p.Max = 4096, 4096
	}
	if r.P(0.3) {
		p.Zero = pick(r, 0.02, 0.3)
	}
	p.DataEOF = r.P(0.3)
	p.Byte = r.P(0.25)
	if r.P(0.2) {
		p.Stall = pick(r, 0.01, 0.1)
	}
	if fault {
		p.Fault = pick(r, "err", "err", "eof", "eof", "unexpected", "panic", "goexit", "dataerr", "dataerr", "stuck")
		p.At = offset(r, s)
		if (p.Fault == "err" || p.Fault == "dataerr") && r.P(0.6) {
			p.Err = r.N(len(sourceErrors))
		}
		if p.Fault == "dataerr" {
			if p.At < 1 {
				p.At = 1
			}
			if p.Byte {
				p.Seed &^= 1
			}
		}
	}
	return p
}

func loadOp(doc, slot int, p *Plan) Op {
	op := Op{K: "load", N: doc, D: slot, Plan: p}
	if p != nil && p.Fault == "goexit" {
		op.F = fSub
	}
	return op
}

func genStream(r *R, sc *Scenario) {
	d := anyDoc(r, GenOpt{Small: r.P(0.6), Map: r.P(0.4), Arrays: r.P(0.3)}, 0.4)
	if r.P(0.4) {
		d = wildDoc(r, pick(r, "", "", "PMML"))
	}
	if r.P(0.2) {
		d.xml = decorate(r, d.xml)
	}
	n := sc.addDoc(d)
	for k := r.Range(4, 12); k > 0; k-- {
		p := plan(r, d.xml, r.P(0.75))
		sc.NDoc++
		sc.Final = append(sc.Final, loadOp(n, sc.NDoc-1, p))
	}
	sc.Sim = quiet(r)
	sc.Sim.ClockJump = 0
}

// decorate adds comments, processing instructions and character data between
// elements; the content stays the same.
func decorate(r *R, s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		sb.WriteByte(s[i])
		if s[i] == '>' && i+1 < len(s) && s[i+1] == '<' && r.P(0.1) {
			sb.WriteString(pick(r, "<!-- note -->", "<?pi data?>", "\n\n", "  ", "<!-- <Node> -->"))
		}
	}
	return sb.String()
}

// genIsolation: other documents loaded, built and scored at the same time and
// before, some of the loads failing half-way.
func genIsolation(r *R, sc *Scenario) {
	nd := r.Range(1, 3)
	var docs []*Doc
	for i := 0; i < nd; i++ {
		d := flawed(r, GenOpt{Small: r.P(0.7), Map: r.P(0.3), Arrays: r.P(0.2)}, 0.2)
		if r.P(0.2) {
			d = wildDoc(r, pick(r, "", "", "PMML"))
		}
		if i > 0 && r.P(0.35) {
			d = sibling(r, docs[r.N(i)])
		}
		docs = append(docs, d)
		sc.addDoc(d)
	}
	if r.P(0.3) {
		// a damaged variant of one of them
		k := r.N(nd)
		x := damage(r, docs[k])
		if r.P(0.5) {
			x = unbuildable(r, docs[k])
		}
		sc.Docs = append(sc.Docs, DocSpec{Text(x), "damaged " + docs[k].note, docs[k].root})
		docs = append(docs, &Doc{xml: x, root: docs[k].root, fields: docs[k].fields, thr: docs[k].thr})
	}
	rowsOf := make([][]int, len(docs))
	for k, d := range docs {
		for i := r.Range(1, 2); i > 0; i-- {
			rowsOf[k] = append(rowsOf[k], sc.addRow(row(r, d)))
		}
	}
	life := func(faulty bool) []Op {
		var ops []Op
		k := r.N(len(docs))
		slot := sc.NDoc
		sc.NDoc++
		if faulty {
			for n := r.Range(1, 2); n > 0; n-- {
				sc.NDoc++
				ops = append(ops, loadOp(k, sc.NDoc-1, plan(r, docs[k].xml, true)))
				if r.P(0.08) {
					ops[len(ops)-1].Rep = r.Range(40, 120)
				}
			}
		}
		var p *Plan
		if r.P(0.7) {
			p = plan(r, docs[k].xml, false)
		}
		ops = append(ops, loadOp(k, slot, p))
		if r.P(0.8) {
			m := sc.NMod
			sc.NMod++
			ops = append(ops, Op{K: "build", D: slot, M: m})
			for _, x := range rowsOf[k] {
				if r.P(0.7) {
					ops = append(ops, Op{K: "eval", M: m, R: x})
				}
			}
			if r.P(0.2) {
				ops = append(ops, Op{K: "verify", M: m})
			}
		}
		if r.P(0.2) {
			ops = append(ops, Op{K: "arr", D: slot, A: r.N(3), S: pick(r, "s", "i", "f")})
		}
		return ops
	}
	if r.P(0.4) {
		sc.Setup = life(r.P(0.6))
	}
	for t := r.Range(2, 3); t > 0; t-- {
		sc.Tasks = append(sc.Tasks, life(r.P(0.4)))
	}
	for n := r.Range(1, 2); n > 0; n-- {
		sc.Final = append(sc.Final, life(false)...)
	}
	sc.Sim = schedule(r)
	if sc.Run >= 0 && r.P(0.2) {
		for n := r.Range(1, 3); n > 0; n-- {
			b := &Scenario{Prop: sc.Prop, Run: -1}
			genIsolation(NewR(r.U()), b)
			sc.Before = append(sc.Before, b)
		}
	}
}

func genArrays(r *R, sc *Scenario) {
	d := genDoc(r, GenOpt{Model: "tree", Function: "classification", Arrays: true, Small: true})
	p, err := decode(d.xml)
	n := 0
	if err == nil {
		n = len(arraysOf(p))
	}
	for i := 0; n == 0 && i < 20; i++ {
		d = genDoc(r, GenOpt{Model: "tree", Function: "classification", Arrays: true})
		if p, err = decode(d.xml); err == nil {
			n = len(arraysOf(p))
		}
	}
	k := sc.addDoc(d)
	sc.NDoc = 1
	sc.Setup = []Op{{K: "load", N: k, D: 0}}
	hasModel := r.P(0.3)
	if hasModel {
		sc.NMod = 1
		sc.Setup = append(sc.Setup, Op{K: "build", D: 0, M: 0})
		sc.addRow(row(r, d))
	}
	types := map[int]string{}
	if err == nil {
		for i, a := range arraysOf(p) {
			types[i] = map[string]string{"string": "s", "int": "i", "real": "f"}[string(a.Type)]
		}
	}
	focus := r.N(n + 1)
	solo := true // the model is used by one task only: sharing it is C01's
	one := func() Op {
		if hasModel && solo && r.P(0.15) {
			return Op{K: "eval", M: 0, R: 0}
		}
		a := focus
		if r.P(0.3) {
			a = r.N(n + 1)
		}
		op := Op{K: "arr", D: 0, A: a, S: types[a]}
		if r.P(0.15) || op.S == "" {
			op.S = pick(r, "s", "i", "f")
		}
		if r.P(0.4) {
			op.F = fScribOut
		}
		return op
	}
	for t := pick(r, 1, 2, 2, 3, 4); t > 0; t-- {
		var ops []Op
		for m := r.Range(1, 5); m > 0; m-- {
			ops = append(ops, one())
		}
		sc.Tasks = append(sc.Tasks, ops)
		solo = false
	}
	solo = true
	for m := r.Range(2, 5); m > 0; m-- {
		sc.Final = append(sc.Final, one())
	}
	sc.Sim = schedule(r)
}

func genLifecycle(r *R, sc *Scenario) {
	d := flawed(r, opt(r), 0.6)
	sc.loaded(sc.addDoc(d))
	for i := r.Range(1, 4); i > 0; i-- {
		sc.addRow(row(r, d))
	}
	if r.P(0.3) {
		// a second model of the same document, left alone
		sc.Setup = append(sc.Setup, Op{K: "build", D: 0, M: 1})
		sc.NMod = 2
	}
	for n := r.Range(1, 8); n > 0; n-- {
		if r.P(0.75) {
			op := Op{K: pick(r, "compile", "compile", "validate", "verify"), M: 0}
			if r.P(0.1) {
				op.Rep = r.Range(2, 40)
			}
			if r.P(0.02) && len(d.xml) < 8000 {
				op.Rep = pick(r, 127, 260, 1100)
			}
			sc.Final = append(sc.Final, op)
		} else {
			sc.Final = append(sc.Final, Op{K: "eval", M: r.N(sc.NMod), R: r.N(len(sc.Rows))})
		}
	}
	for m := 0; m < sc.NMod; m++ {
		for i := range sc.Rows {
			sc.Final = append(sc.Final, Op{K: "eval", M: m, R: i})
		}
		sc.Final = append(sc.Final, Op{K: "verify", M: m})
	}
	sc.Sim = quiet(r)
}

// damage is what storage does to a document.
func damage(r *R, d *Doc) string {
	b := []byte(d.xml)
	for n := pick(r, 1, 1, 1, 2, 4); n > 0 && len(b) > 8; n-- {
		i := offset(r, string(b))
		if i >= len(b) {
			i = len(b) - 1
		}
		what := r.N(14)
		if what >= 5 && what <= 11 && r.P(0.5) {
			// any kind of element or attribute, however rare it is
			if k := kindOf(r, string(b), what == 9 || what == 10); k >= 0 {
				i = k
			}
		}
		switch what {
		case 0: // bit flip
			b[i] ^= 1 << uint(r.N(8))
		case 1:
			b[i] = pick(r, byte(0), byte(0xff), byte(' '), byte('<'), byte('"'), byte('9'), byte('x'), byte('-'))
		case 2: // zeroed range
			for k := i; k < len(b) && k < i+r.Range(1, 64); k++ {
				b[k] = 0
			}
		case 3: // lost bytes
			j := i + r.Range(1, 40)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 4: // truncation
			b = b[:i]
		case 5, 6, 7: // a record (element) lost, or stored twice
			lo, hi, ok := elementAt(string(b), i)
			if ok {
				if r.P(0.6) {
					b = append(b[:lo:lo], b[hi:]...)
				} else {
					rec := append([]byte{}, b[lo:hi]...)
					b = append(b[:hi:hi], append(rec, b[hi:]...)...)
				}
			}
		case 8: // a stale record in place of another
			lo, hi, ok := elementAt(string(b), i)
			l2, h2, ok2 := elementAt(string(b), offset(r, string(b)))
			if ok && ok2 && lo > 60 {
				rec := append([]byte{}, b[l2:h2]...)
				b = append(b[:lo:lo], append(rec, b[hi:]...)...)
			}
		case 9, 10: // an attribute lost, emptied or stale
			lo, vs, ve, ok := attrAt(string(b), i)
			if ok {
				switch r.N(4) {
				case 0:
					b = append(b[:lo:lo], b[ve+1:]...)
				case 1:
					b = append(b[:vs:vs], b[ve:]...)
				case 2:
					val := []byte(pick(r, "-1", "0", "999999999999", "-7", "1e300", "NaN", "18446744073709551616", "4294967295", "x"))
					b = append(b[:vs:vs], append(val, b[ve:]...)...)
				default:
					_, v2, e2, ok2 := attrAt(string(b), offset(r, string(b)))
					if ok2 {
						val := append([]byte{}, b[v2:e2]...)
						b = append(b[:vs:vs], append(val, b[ve:]...)...)
					}
				}
			}
		case 11: // an element renamed
			lo, hi, ok := elementAt(string(b), i)
			if ok && lo > 60 {
				s := string(b[lo:hi])
				j := strings.IndexAny(s, " />")
				if j > 1 {
					nm := s[1:j]
					nn := pick(r, "True", "False", "Node", "SimplePredicate", "CompoundPredicate", "SimpleSetPredicate", "FieldRef", "Extension", "Constant", "TreeModel", "Unknown", "Apply", "Discretize", "NormContinuous", "ClusteringModel")
					s = "<" + nn + s[j:]
					if strings.HasSuffix(s, "</"+nm+">") {
						s = s[:len(s)-len(nm)-3] + "</" + nn + ">"
					}
					b = append(b[:lo:lo], append([]byte(s), b[hi:]...)...)
				}
			}
		case 13: // all or many of an element's records lost
			s := string(b)
			if k := kindOf(r, s, false); k >= 0 {
				b = []byte(emptied(r, s, k))
			}
		case 12: // two neighbouring ranges swapped
			j := i + r.Range(1, 60)
			k := j + r.Range(1, 60)
			if k < len(b) {
				t := append(append([]byte{}, b[j:k]...), b[i:j]...)
				copy(b[i:k], t)
			}
		}
	}
	return string(b)
}

// emptied is the document with the children of the element at lo gone: all of them,
// all of one name, or all from the first or the last of them on.
func emptied(r *R, s string, lo int) string {
	hi := elementEnd(s, lo)
	if hi == 0 {
		return s
	}
	type kid struct {
		lo, hi int
		name   string
	}
	var kids []kid
	at := strings.IndexByte(s[lo:hi], '>') + lo
	for at < hi {
		j := strings.IndexByte(s[at:hi], '<')
		if j < 0 || at+j+1 >= hi || s[at+j+1] == '/' {
			break
		}
		k := at + j
		e := elementEnd(s, k)
		if e == 0 || e > hi {
			break
		}
		n := k + 1
		for n < e && s[n] > ' ' && s[n] != '>' && s[n] != '/' {
			n++
		}
		if s[k+1] != '!' && s[k+1] != '?' {
			kids = append(kids, kid{k, e, s[k+1 : n]})
		}
		at = e
	}
	if len(kids) == 0 {
		return s
	}
	all, from := r.P(0.3), -1
	name := kids[r.N(len(kids))].name
	if r.P(0.3) {
		from = r.N(len(kids))
	}
	var sb strings.Builder
	at = 0
	for i, k := range kids {
		if from >= 0 && i >= from || from < 0 && (all || k.name == name) {
			sb.WriteString(s[at:k.lo])
			at = k.hi
		}
	}
	sb.WriteString(s[at:])
	return sb.String()
}

// kindOf picks one of the kinds of element or attribute in the document, then
// one of its occurrences.
func kindOf(r *R, s string, attr bool) int {
	var names []string
	at := map[string][]int{}
	for i := 1; i < len(s); i++ {
		lo, hi := i, i
		if attr {
			if s[i] != '"' || s[i-1] != '=' {
				continue
			}
			hi = i - 1
			for lo = hi; lo > 0 && s[lo-1] > ' '; lo-- {
			}
		} else {
			if s[i-1] != '<' || s[i] == '/' || s[i] == '!' || s[i] == '?' {
				continue
			}
			for hi < len(s) && s[hi] > ' ' && s[hi] != '>' && s[hi] != '/' {
				hi++
			}
		}
		n := s[lo:hi]
		if at[n] == nil {
			names = append(names, n)
		}
		if !attr {
			lo--
		}
		at[n] = append(at[n], lo)
	}
	if len(names) == 0 {
		return -1
	}
	l := at[names[r.N(len(names))]]
	return l[r.N(len(l))]
}

// unbuildable makes the document one that loads and that no model can be built
// from, or not of all its parts.
func unbuildable(r *R, d *Doc) string {
	s := d.xml
	for i := 0; i < 20; i++ {
		var t string
		switch r.N(6) {
		case 0:
			t = swapLast(r, s, `functionName="`, pick(r, "clustering", "timeSeries", "", "associationRules"))
		case 1:
			t = swapLast(r, s, `multipleModelMethod="`, pick(r, "median", "majorityVote", "max"))
		case 2:
			t = swapLast(r, s, `field="`, "nobody")
		case 3:
			t = strings.Replace(s, "</PMML>", "<AssociationModel functionName=\"associationRules\"/></PMML>", 1)
			if j := strings.Index(t, "</TransformationDictionary>"); j > 0 && r.P(0.7) {
				t = t[:j+27] + pick(r, "<ClusteringModel/>", "<NaiveBayesModel/>", "<AssociationModel/>") + t[j+27:]
			}
		case 4:
			t = swapLast(r, s, `value="`, "not a number")
		case 5:
			if j := strings.Index(s, "<SimplePredicate"); j > 0 {
				if e := elementEnd(s, j); e > 0 {
					t = s[:j] + s[e:]
				}
			}
		}
		if t != "" && t != s {
			return t
		}
	}
	return s
}

// swapLast replaces the value of one of the attributes.
func swapLast(r *R, s, attr, v string) string {
	n := strings.Count(s, attr)
	if n == 0 {
		return ""
	}
	at := 0
	for k := r.N(n); ; k-- {
		at += strings.Index(s[at:], attr) + len(attr)
		if k == 0 {
			break
		}
	}
	e := strings.IndexByte(s[at:], '"')
	if e < 0 {
		return ""
	}
	return s[:at] + v + s[at+e:]
}

// attrAt finds an attribute at or after i: its start, and its value's ends.
func attrAt(s string, i int) (lo, vs, ve int, ok bool) {
	j := strings.Index(s[i:], `="`)
	if j < 0 {
		return
	}
	vs = i + j + 2
	k := strings.IndexByte(s[vs:], '"')
	if k < 0 {
		return
	}
	ve = vs + k
	lo = strings.LastIndexAny(s[:i+j], " \t\n")
	if lo < 0 {
		return
	}
	return lo, vs, ve, true
}

// elementAt finds the element that starts at or after i.
func elementAt(s string, i int) (lo, hi int, ok bool) {
	for i < len(s) {
		j := strings.IndexByte(s[i:], '<')
		if j < 0 {
			return 0, 0, false
		}
		lo = i + j
		if lo+1 < len(s) && s[lo+1] != '/' && s[lo+1] != '?' && s[lo+1] != '!' {
			break
		}
		i = lo + 1
	}
	hi = elementEnd(s, lo)
	return lo, hi, hi > lo
}

// elementEnd returns the end of the element starting at lo, or 0.
func elementEnd(s string, lo int) int {
	depth := 0
	i := lo
	for i < len(s) {
		j := strings.IndexByte(s[i:], '<')
		if j < 0 {
			return 0
		}
		i += j
		k := strings.IndexByte(s[i:], '>')
		if k < 0 {
			return 0
		}
		tag := s[i : i+k+1]
		i += k + 1
		switch {
		case strings.HasPrefix(tag, "</"):
			depth--
		case strings.HasPrefix(tag, "<?"), strings.HasPrefix(tag, "<!"):
		case strings.HasSuffix(tag, "/>"):
		default:
			depth++
		}
		if depth == 0 {
			return i
		}
		if depth < 0 {
			return 0
		}
	}
	return 0
}

func genDamage(r *R, sc *Scenario) {
	d := anyDoc(r, GenOpt{Small: r.P(0.6), Map: r.P(0.3), Arrays: r.P(0.2), Derive: r.P(0.3)}, 0.5)
	wild := r.P(0.25)
	if wild {
		d = wildDoc(r, pick(r, "", "PMML", "PMML"))
	}
	x := d.xml
	if r.P(0.95) && (!wild || r.P(0.4)) {
		x = damage(r, d)
	}
	arr := strings.Contains(x, "<Array ")
	if arr && r.P(0.4) {
		// the array itself is hit
		ats := []int{}
		for i := 0; ; {
			j := strings.Index(x[i:], "<Array ")
			if j < 0 {
				break
			}
			i += j + 7
			ats = append(ats, i)
		}
		at := ats[r.N(len(ats))]
		switch r.N(3) {
		case 0:
			x = x[:at] + `n="` + pick(r, "-1", "0", "999999999999", "-9223372036854775808", "3", "") + `" ` + x[at:]
		case 1:
			if j := strings.Index(x[at:], `n="`); j >= 0 && j < 30 {
				if e := strings.IndexByte(x[at+j+3:], '"'); e >= 0 {
					x = x[:at+j+3] + pick(r, "-1", "0", "999999999999", "4611686018427387904", "3", "x", "") + x[at+j+3+e:]
				}
			}
		case 2:
			if j := strings.IndexByte(x[at:], '>'); j >= 0 {
				x = x[:at+j+1] + pick(r, `"`, `\\`, "'", "$(x)", "`", "; ", "|", "&gt;&gt;", "&amp; ", "\n\n") + x[at+j+1:]
			}
		}
	}
	if r.P(0.05) {
		x = unbuildable(r, d)
	}
	n := sc.addDoc(&Doc{xml: x, note: "damaged " + d.note, root: d.root})
	sc.NDoc, sc.NMod = 1, 1
	sc.Final = append(sc.Final, Op{K: "load", N: n, D: 0}, Op{K: "build", D: 0, M: 0}, Op{K: "verify", M: 0})
	for i := r.Range(2, 5); i > 0; i-- {
		x := row(r, d)
		if r.P(0.04) {
			x = RowSpec{Nil: true}
		}
		sc.Final = append(sc.Final, Op{K: "eval", M: 0, R: sc.addRow(x)})
	}
	if arr && r.P(0.7) {
		for a := 0; a < 4; a++ {
			for _, k := range []string{"s", "i", "f"} {
				sc.Final = append(sc.Final, Op{K: "arr", D: 0, A: a, S: k})
			}
		}
	}
	sc.Sim = quiet(r)
	sc.Sim.StepLimit = 3_000_000
}

var _ = fmt.Sprint

// flawed is anyDoc, now and then with one thing wrong that only scoring (or
// only scoring of some rows) meets.
func flawed(r *R, o GenOpt, verif float64) *Doc {
	d := anyDoc(r, o, verif)
	for n := pick(r, 0, 0, 0, 0, 0, 0, 0, 0, 1, 3); n > 0; n-- {
		if t := flaw(r, d.xml); t != "" {
			c := *d
			c.xml = t
			if !strings.HasSuffix(c.note, "+flaw") {
				c.note += "+flaw"
			}
			d = &c
		}
	}
	return d
}

// odd edits one attribute or element, of any kind: the document stays well formed,
// what it says may become unusual.
func odd(r *R, s string) string {
	if r.P(0.3) {
		lo := kindOf(r, s, false)
		if lo < 0 {
			return ""
		}
		hi := elementEnd(s, lo)
		if hi <= lo || hi-lo > 2000 {
			return ""
		}
		if r.P(0.5) {
			return s[:lo] + s[hi:]
		}
		return s[:hi] + s[lo:hi] + s[hi:]
	}
	i := kindOf(r, s, true)
	if i < 0 {
		return ""
	}
	lo, vs, ve, ok := attrAt(s, i)
	if !ok || strings.HasPrefix(s[lo:], "xmlns") {
		return ""
	}
	switch r.N(5) {
	case 0, 1:
		// gone
		return s[:lo] + s[ve+1:]
	case 2:
		return s[:vs] + s[ve:]
	case 3:
		// another one's value
		_, v2, e2, ok := attrAt(s, r.N(len(s)))
		if !ok {
			return ""
		}
		return s[:vs] + s[v2:e2] + s[ve:]
	default:
		// the value of another attribute of the same name
		_, v2, e2, ok := attrAt(s, strings.LastIndex(s[:vs], s[lo:vs]))
		for k := r.N(20); k > 0 && ok; k-- {
			j := strings.Index(s[e2:], s[lo:vs])
			if j < 0 {
				break
			}
			_, v2, e2, ok = attrAt(s, e2+j)
		}
		if !ok {
			return ""
		}
		return s[:vs] + s[v2:e2] + s[ve:]
	}
}

var reNum = regexp.MustCompile(`"-?[0-9][0-9.eE+-]*"|>-?[0-9][0-9.eE+-]*<`)

// sibling is a document like d in every respect but for some of its numbers and
// names, which keep their length: what a process may take it for.
func sibling(r *R, d *Doc) *Doc {
	c := *d
	p := pick(r, 0.02, 0.2, 1)
	c.xml = reNum.ReplaceAllStringFunc(d.xml, func(t string) string {
		if strings.HasPrefix(t, `"4.`) || !r.P(p) {
			return t
		}
		b := []byte(t)
		for k := len(b) - 1; k > 0; k-- {
			if b[k] >= '0' && b[k] <= '9' {
				b[k] = '0' + (b[k]-'0'+byte(r.Range(1, 9)))%10
				if r.P(0.7) {
					break
				}
			}
		}
		return string(b)
	})
	if p := pick(r, 0, 0.1, 0.5); p > 0 {
		// names and labels, everywhere alike, that differ in their last letter
		var pairs []string
		seen := map[string]bool{}
		for _, m := range reText.FindAllStringSubmatch(c.xml, 400) {
			t := m[2]
			n := len(t) - 1
			if seen[t] || t[n] < 'a' || t[n] > 'z' || !r.P(p) {
				continue
			}
			seen[t] = true
			u := t[:n] + string(rune('a'+(t[n]-'a'+byte(r.Range(1, 25)))%26))
			pairs = append(pairs, `"`+t+`"`, `"`+u+`"`)
		}
		c.xml = strings.NewReplacer(pairs...).Replace(c.xml)
	}
	for n := r.N(3); n > 0; n-- {
		if t := odd(r, c.xml); t != "" {
			c.xml = t
		}
	}
	c.note += "+sibling"
	c.spans = nil
	return &c
}

func flaw(r *R, s string) string {
	for try := 0; try < 12; try++ {
		t := ""
		switch r.N(11) {
		case 8, 9, 10:
			t = odd(r, s)
		case 0:
			t = swapLast(r, s, `<Apply function="`, pick(r, "nope", "if", "isMissing", "isNotMissing", "+", "sum", "/"))
		case 1:
			t = swapLast(r, s, `<Constant dataType="`, pick(r, "integer", "string", "boolean"))
		case 2, 3:
			// an argument goes, is doubled, or becomes something scoring
			// does not know
			n := strings.Count(s, "<Apply ")
			if n == 0 {
				continue
			}
			at := 0
			for k := r.N(n); k >= 0; k-- {
				at += strings.Index(s[at:], "<Apply ") + 7
			}
			lo, hi, ok := elementAt(s, at)
			if !ok || lo > at+200 {
				continue
			}
			switch r.N(3) {
			case 0:
				t = s[:lo] + s[hi:]
			case 1:
				t = s[:hi] + s[lo:hi] + s[hi:]
			case 2:
				t = s[:lo] + pick(r, `<Lag field="x0"/>`, `<Constant dataType="double">oops</Constant>`, `<FieldRef field="nobody"/>`, `<Constant dataType="integer">1</Constant>`, `<NormContinuous field="x0"/>`) + s[hi:]
			}
		case 4:
			t = swapLast(r, s, `normalizationMethod="`, pick(r, "probit", "loglog", "none", "simplemax", ""))
		case 5:
			t = swapLast(r, s, `<FieldRef field="`, "nobody")
		case 6:
			t = swapLast(r, s, `operator="`, pick(r, "isIn", "nope", "isMissing", ""))
		case 7:
			t = swapLast(r, s, ` value="`, pick(r, "oops", "", "NaN", "1e400"))
		}
		if t != "" && t != s {
			return t
		}
	}
	return ""
}
