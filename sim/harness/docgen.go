//go:build go1.21

package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// el is one element of a generated document.
type el struct {
	name  string
	attrs []attr
	kids  []*el
	text  string
	tnum  string // class of the number in text, "" if none
}

type attr struct{ k, v, num string }

// Span is the place of a number in a rendered document.
type Span struct {
	Off, Len int
	Class    string
}

func e(name string, kids ...*el) *el { return &el{name: name, kids: kids} }
func (x *el) a(k, v string) *el      { x.attrs = append(x.attrs, attr{k, v, ""}); return x }
func (x *el) n(k, v, class string) *el {
	x.attrs = append(x.attrs, attr{k, v, class})
	return x
}
func (x *el) add(k ...*el) *el {
	for _, c := range k {
		if c != nil {
			x.kids = append(x.kids, c)
		}
	}
	return x
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}

func (x *el) render(sb *strings.Builder, spans *[]Span, depth int, ws bool) {
	if ws {
		sb.WriteString("\n" + strings.Repeat("\t", depth))
	}
	sb.WriteString("<" + x.name)
	for _, a := range x.attrs {
		sb.WriteString(" " + a.k + `="`)
		v := esc(a.v)
		if a.num != "" {
			*spans = append(*spans, Span{sb.Len(), len(v), a.num})
		}
		sb.WriteString(v + `"`)
	}
	if len(x.kids) == 0 && x.text == "" {
		sb.WriteString("/>")
		return
	}
	sb.WriteString(">")
	if x.text != "" {
		v := esc(x.text)
		if x.tnum != "" {
			*spans = append(*spans, Span{sb.Len(), len(v), x.tnum})
		}
		sb.WriteString(v)
	}
	for _, k := range x.kids {
		k.render(sb, spans, depth+1, ws)
	}
	if ws && len(x.kids) > 0 {
		sb.WriteString("\n" + strings.Repeat("\t", depth))
	}
	sb.WriteString("</" + x.name + ">")
}

type field struct {
	name string
	dt   string // double float integer string boolean
	op   string
	vals []string
}

// GDoc is a generated document with what the harness knows about it.
type GDoc struct {
	root       *el
	model      *el
	Active     []field
	Derived    []field
	Labels     []string
	Thresholds []string
	Kind       string
	hasMap     bool
	Arrays     bool
	ws         bool
	Verif      bool
	Extra      []field // fields that chained models write and predicates may read
	exp        int     // scores are scaled by this power of ten
	vcells     []cell
	vcols      []vcol
	nrows      int
}

type vcol struct{ field, col string }
type cell struct {
	row int
	col string
	exp string
}

// Render returns the document text and the places of its numbers.
func (g *GDoc) Render() (string, []Span) {
	var sb strings.Builder
	var sp []Span
	sb.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`)
	g.root.render(&sb, &sp, 0, g.ws)
	return sb.String(), sp
}

// GenOpt biases the document generator.
type GenOpt struct {
	Model    string // "", "tree", "regression", "mining"
	Function string
	Map      bool // wants a MapValues derived field (a callback point)
	Arrays   bool // wants arrays
	Small    bool
	NoChain  bool
	Strategy string
	Derive   bool // wants derived fields
}

type dgen struct {
	*R
	o     GenOpt
	g     *GDoc
	ids   int
	depth int
	tdDF  []*el
	inner bool
	chain bool
	big   string // the one thing this document has many of
}

// many is n, or more where the document has many of these.
func (d *dgen) many(what string, n, lo, hi int) int {
	if d.big != what {
		return n
	}
	return d.Range(lo, hi)
}

func num(r *R) string {
	switch r.N(8) {
	case 0:
		return strconv.Itoa(r.Range(-5, 20))
	case 1:
		return pick(r, "0.0", "0.5", "1.0", "-1.5", "2.5")
	case 2:
		return strconv.FormatFloat(r.F()*2-1, 'E', 3, 64)
	}
	return strconv.FormatFloat(float64(int((r.F()*4-2)*1000))/1000, 'f', -1, 64)
}

// score is a number that ends up in results.
func (d *dgen) score() string {
	if d.g.exp == 0 || d.P(0.2) {
		return num(d.R)
	}
	x, _ := strconv.ParseFloat(num(d.R), 64)
	return strconv.FormatFloat(x*math.Pow10(d.g.exp), 'g', d.Range(2, 17), 64)
}

func posnum(r *R) string {
	if r.P(0.5) {
		return strconv.Itoa(r.Range(1, 30))
	}
	return strconv.FormatFloat(float64(r.Range(1, 9999))/1000, 'f', -1, 64)
}

// GenDoc makes one random document.
func GenDoc(r *R, o GenOpt) *GDoc {
	g := &GDoc{ws: r.P(0.3)}
	if r.P(0.15) {
		g.exp = pick(r, r.Range(-10, 9), r.Range(-10, 9), 3, 4)
	}
	d := &dgen{R: r, o: o, g: g}
	if !o.Small && r.P(0.3) {
		d.big = pick(r, "labels", "fields", "segments", "segments", "arrays", "parts", "children", "children", "depth", "map", "derived", "chain", "chain", "values", "long")
		switch d.big {
		case "segments", "chain":
			if o.Model == "" {
				o.Model = "mining"
			}
		case "parts", "arrays", "depth", "children":
			if o.Model == "" && r.P(0.7) {
				o.Model = "tree"
			}
		case "labels":
			if o.Function == "" {
				o.Function = "classification"
			}
		case "map":
			o.Map = true
		case "derived":
			o.Derive = true
		}
		d.o = o
	}
	nf := d.many("fields", r.Range(1, 4), 5, 40)
	style := pick(r, "x%d", "x%d", "x%d", "x %d", "x.%d", "Ünit(%d)")
	for i := 0; i < nf; i++ {
		g.Active = append(g.Active, field{fmt.Sprintf(style, i), pick(r, "double", "double", "float", "integer"), "continuous", nil})
	}
	if o.Map || r.P(0.5) {
		g.Active = append(g.Active, field{"c0", "string", "categorical", d.names("values", []string{"red", "green", "blue", "bl ue"}[:r.Range(2, 4)])})
	}
	if r.P(0.2) {
		g.Active = append(g.Active, field{"b0", "boolean", "categorical", nil})
	}
	g.Labels = d.names("labels", []string{"yes", "no", "maybe", "never"}[:r.Range(2, 4)])
	fn := o.Function
	if fn == "" {
		fn = pick(r, "classification", "regression")
	}
	kind := o.Model
	if kind == "" {
		kind = pick(r, "tree", "tree", "regression", "mining", "mining", "mining")
	}
	g.Kind = kind + "/" + fn
	dd := e("DataDictionary")
	tgt := e("DataField").a("name", "label")
	if fn == "classification" {
		tgt.a("optype", "categorical").a("dataType", "string")
		for _, l := range g.Labels {
			tgt.add(e("Value").a("value", l))
		}
	} else {
		tgt.a("optype", "continuous").a("dataType", "double")
	}
	if r.P(0.7) {
		dd.add(tgt)
	}
	for _, f := range g.Active {
		x := e("DataField").a("name", f.name).a("optype", f.op).a("dataType", f.dt)
		for _, v := range f.vals {
			y := e("Value").a("value", v)
			if r.P(0.1) {
				y.a("property", pick(r, "missing", "invalid", "valid"))
			}
			x.add(y)
		}
		dd.add(x)
	}
	td := e("TransformationDictionary")
	if r.P(0.25) {
		for i := pick(r, 1, 1, 3, 5, 6); i > 0; i-- {
			td.add(e("DerivedField", e("FieldRef").a("field", g.Active[0].name)).a("name", fmt.Sprintf("g%d", i-1)).a("optype", "continuous").a("dataType", "double"))
		}
	}
	g.Extra = []field{{"raw", "double", "continuous", nil}, {"score", "double", "continuous", nil}}
	if r.P(0.4) {
		for _, f := range g.Extra {
			dd.add(e("DataField").a("name", f.name).a("optype", f.op).a("dataType", f.dt))
		}
		d.chain = true
	}
	var m *el
	switch kind {
	case "tree":
		m = d.tree(fn, true)
	case "regression":
		m = d.regression(fn, true, nil)
	default:
		m = d.mining(fn, true)
	}
	g.model = m
	g.root = e("PMML", e("Header", e("Application").a("name", "gen").a("version", "1")), dd, td, m).
		a("xmlns", "http://www.dmg.org/PMML-4_4").a("xmlns:data", "http://jpmml.org/jpmml-model/InlineTable").a("version", "4.4")
	if r.P(0.4) {
		dress(r, g.root)
	}
	return g
}

// dress adds what a document says about itself and what nothing should depend on:
// its version, names of models, header, display names.
func dress(r *R, x *el) {
	some := func(p float64, k string, vs ...string) {
		if r.P(p) {
			for i := range x.attrs {
				if x.attrs[i].k == k {
					x.attrs[i].v = pickS(r, vs)
					return
				}
			}
			x.a(k, pickS(r, vs))
		}
	}
	switch x.name {
	case "PMML":
		some(0.7, "version", "3.2", "4.0", "4.1", "4.2", "4.2.1", "4.3", "4.4", "4.4.1")
		some(0.3, "xmlns", "http://www.dmg.org/PMML-3_2", "http://www.dmg.org/PMML-4_2", "http://www.dmg.org/PMML-4_3")
	case "Header":
		some(0.5, "copyright", "DMG", "nobody", "")
		some(0.5, "description", "a model", "another model")
		some(0.3, "modelVersion", "1", "2.0")
		if r.P(0.4) {
			x.add(&el{name: "Timestamp", text: pick(r, "2021-03-04T05:06:07Z", "2022-01-01 00:00:00")})
		}
	case "Application":
		some(0.5, "name", "JPMML-XGBoost", "JPMML-SkLearn", "gen")
		some(0.5, "version", "1.3.4", "2")
	case "TreeModel", "MiningModel", "RegressionModel":
		some(0.5, "modelName", "m", "model", "churn")
		some(0.3, "algorithmName", "xgboost", "forest", "cart")
		some(0.2, "isScorable", "true", "true", "false")
		if x.name == "TreeModel" {
			some(0.3, "splitCharacteristic", "binarySplit", "multiSplit")
		}
	case "Node":
		some(0.03, "id", "n1", "1", "2", "3")
	case "DataField", "DerivedField", "OutputField":
		some(0.15, "displayName", "income", "age")
	case "MiningField":
		some(0.15, "importance", "0.5", "1", "0.01")
	case "Segment":
		some(0.1, "id", "a", "1", "2")
	}
	for _, k := range x.kids {
		dress(r, k)
	}
}

// names is the list of names, longer or of longer names where the document is like that.
func (d *dgen) names(what string, ns []string) []string {
	ns = append([]string{}, ns...)
	if what == "values" && d.big == "map" {
		what = "map"
	}
	for n := d.many(what, 0, 5, 40); len(ns) < n; {
		ns = append(ns, fmt.Sprintf("%s%d", ns[len(ns)%2], len(ns)))
	}
	if d.big == "long" || d.P(0.06) {
		n := d.Range(1, 40)
		if d.P(0.6) {
			n = d.Range(1, 3)
		}
		for i := range ns {
			if d.P(0.7) {
				ns[i] += strings.Repeat(" and so on", n)
			}
		}
	}
	return ns
}

func (d *dgen) schema(target bool, repl bool) *el {
	s := e("MiningSchema")
	if target {
		s.add(e("MiningField").a("name", "label").a("usageType", "target"))
	}
	for _, f := range d.g.Active {
		x := e("MiningField").a("name", f.name)
		if repl && d.P(0.35) {
			switch f.dt {
			case "string":
				x.a("missingValueReplacement", pickS(d.R, f.vals))
			case "boolean":
			case "integer":
				x.n("missingValueReplacement", strconv.Itoa(d.Range(-3, 9)), "replacement")
			default:
				x.n("missingValueReplacement", num(d.R), "replacement")
			}
		}
		if d.P(0.15) {
			x.a("usageType", "active")
		}
		if d.P(0.1) {
			x.a("outliers", "asIs").a("invalidValueTreatment", "asIs")
		}
		s.add(x)
	}
	return s
}

// numeric fields usable in predicates and predictors
func (d *dgen) numFields() []field {
	var fs []field
	for _, f := range append(append([]field{}, d.g.Active...), d.g.Derived...) {
		if f.dt == "double" || f.dt == "float" || f.dt == "integer" {
			fs = append(fs, f)
		}
	}
	return fs
}

func (d *dgen) expr(depth int) *el {
	fs := d.numFields()
	f := pickS(d.R, fs)
	switch k := d.N(10); {
	case depth <= 0 || k < 3:
		if d.P(0.35) {
			c := e("Constant").a("dataType", "double")
			c.text, c.tnum = num(d.R), "constant"
			return c
		}
		return e("FieldRef").a("field", f.name)
	case k < 5:
		x := e("Apply").a("function", "sum")
		for i := d.Range(1, 3); i > 0; i-- {
			x.add(d.expr(depth - 1))
		}
		return x
	case k < 8:
		return e("Apply", d.expr(depth-1), d.expr(depth-1)).a("function", pick(d.R, "*", "+", "-", "/"))
	default:
		c := e("Apply", e("FieldRef").a("field", f.name)).a("function", pick(d.R, "isMissing", "isNotMissing"))
		return e("Apply", c, d.expr(depth-1), d.expr(depth-1)).a("function", "if")
	}
}

func (d *dgen) transforms() *el {
	lt := e("LocalTransformations")
	n := d.N(3)
	if (d.o.Derive || d.P(0.3)) && n == 0 {
		n = 1
	}
	if len(d.g.Derived) < 40 {
		n = d.many("derived", n, 4, 14)
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("d%d", len(d.g.Derived))
		op := "continuous"
		lt.add(e("DerivedField", d.expr(2)).a("name", name).a("optype", op).a("dataType", "double"))
		d.g.Derived = append(d.g.Derived, field{name, "double", op, nil})
	}
	if d.o.Map || d.P(0.25) {
		var cf *field
		for i := range d.g.Active {
			if d.g.Active[i].name == "c0" {
				cf = &d.g.Active[i]
			}
		}
		if cf != nil {
			name := fmt.Sprintf("m%d", len(d.g.Derived))
			it := e("InlineTable")
			outs := []string{}
			numeric := d.P(0.5)
			for _, v := range cf.vals {
				if d.P(0.8) {
					o := "g_" + strings.ReplaceAll(v, " ", "")
					if numeric {
						o = num(d.R)
					}
					outs = append(outs, o)
					in, out := e("data:input"), e("data:output")
					in.text, out.text = v, o
					it.add(e("row", in, out))
				}
			}
			mv := e("MapValues", e("FieldColumnPair").a("field", "c0").a("column", "data:input"), it).a("outputColumn", "data:output")
			if d.P(0.25) {
				d.oddTable(mv, it)
			}
			dt, op := "string", "categorical"
			if numeric {
				dt, op = "double", "continuous"
			}
			if d.P(0.4) {
				mv.a("dataType", dt)
				if numeric {
					mv.n("defaultValue", num(d.R), "constant")
				} else {
					mv.a("defaultValue", "other")
				}
			}
			lt.add(e("DerivedField", mv).a("name", name).a("optype", op).a("dataType", dt))
			if len(outs) == 0 {
				outs = []string{"other"}
			}
			d.g.Derived = append(d.g.Derived, field{name, dt, op, outs})
			d.g.hasMap = true
		}
	}
	if len(lt.kids) == 0 && d.P(0.5) {
		return nil
	}
	return lt
}

func (d *dgen) simple() *el {
	all := append(append([]field{}, d.g.Active...), d.g.Derived...)
	f := pickS(d.R, all)
	if d.chain && d.P(0.2) {
		f = pickS(d.R, d.g.Extra)
	}
	x := e("SimplePredicate").a("field", f.name)
	switch f.dt {
	case "string":
		x.a("operator", pick(d.R, "equal", "equal", "notEqual", "isMissing", "isNotMissing")).a("value", pickS(d.R, f.vals))
	case "boolean":
		x.a("operator", pick(d.R, "equal", "notEqual", "isMissing")).a("value", pick(d.R, "true", "false"))
	default:
		v := num(d.R)
		if f.dt == "integer" {
			v = strconv.Itoa(d.Range(-4, 12))
		}
		d.g.Thresholds = append(d.g.Thresholds, v)
		x.a("operator", pick(d.R, "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual", "lessThan", "greaterOrEqual", "equal", "notEqual", "isMissing", "isNotMissing")).n("value", v, "threshold")
	}
	return x
}

func (d *dgen) pred(depth int) *el {
	switch k := d.N(20); {
	case k < 14 && !((d.o.Arrays || d.big == "arrays" || d.big == "parts") && k >= 6) || depth <= 0 && !d.o.Arrays:
		return d.simple()
	case k == 14:
		if d.P(0.7) {
			return e("True")
		}
		return e("False")
	case k == 15 || k <= 16 && d.o.Arrays || d.big == "arrays":
		d.g.Arrays = true
		f := pickS(d.R, d.g.Active)
		return e("SimpleSetPredicate", d.array()).a("field", f.name).a("booleanOperator", pick(d.R, "isIn", "isNotIn"))
	default:
		x := e("CompoundPredicate").a("booleanOperator", pick(d.R, "and", "or", "xor", "surrogate"))
		for i := d.many("parts", d.Range(1, 3), 4, 12); i > 0; i-- {
			if d.o.Arrays && d.P(0.3) {
				x.add(e("SimpleSetPredicate", d.array()).a("field", d.g.Active[0].name).a("booleanOperator", "isIn"))
				d.g.Arrays = true
				continue
			}
			if depth > 1 && d.P(0.25) && !d.o.Arrays {
				x.add(d.pred(depth - 1))
			} else {
				x.add(d.simple())
			}
		}
		return x
	}
}

func (d *dgen) array() *el {
	typ := pick(d.R, "string", "int", "real")
	n := d.many("arrays", d.N(6), 6, 60)
	var xs []string
	for i := 0; i < n; i++ {
		switch typ {
		case "string":
			s := pick(d.R, "red", "green", `"bl ue"`, "x", `"a b c"`, `'q r'`, "-1", `"with \" quote"`)
			xs = append(xs, s)
		case "int":
			xs = append(xs, strconv.Itoa(d.Range(-100, 100)))
			if d.P(0.04) {
				xs = append(xs, "oops")
			}
		default:
			xs = append(xs, num(d.R))
			if d.P(0.04) {
				xs = append(xs, "1.2.3")
			}
		}
	}
	a := e("Array").a("type", typ)
	if d.P(0.5) {
		a.a("n", strconv.Itoa(len(xs)))
	}
	a.text = strings.Join(xs, pick(d.R, " ", "  ", "\n"))
	return a
}

func (d *dgen) tree(fn string, top bool) *el {
	t := e("TreeModel").a("functionName", fn)
	st := d.o.Strategy
	if st == "" {
		st = pick(d.R, "", "none", "nullPrediction", "aggregateNodes", "weightedConfidence", "defaultChild", "lastPrediction")
		if d.big == "children" && d.P(0.5) {
			st = pick(d.R, "", "none")
		}
	}
	if st != "" {
		t.a("missingValueStrategy", st)
	}
	if d.P(0.4) {
		t.n("missingValuePenalty", pick(d.R, "0.8", "0.5", "1.0"), "penalty")
	}
	if d.P(0.3) {
		t.a("noTrueChildStrategy", pick(d.R, "returnNullPrediction", "returnLastPrediction"))
	}
	if d.P(0.3) {
		t.a("splitCharacteristic", "multiSplit")
	}
	target := d.P(0.4)
	if top {
		target = fn == "classification" || d.P(0.5)
	}
	t.add(d.schema(target, false))
	if top || d.P(0.25) {
		t.add(d.transforms())
	}
	depth := d.Range(1, 3)
	if d.o.Small {
		depth = d.Range(1, 2)
	}
	switch d.big {
	case "segments", "chain", "fields", "labels":
		depth = d.Range(1, 2)
	case "depth":
		depth = d.Range(5, 30)
	case "children":
		depth = 2
	}
	idmode := d.N(4) // 0..1 unique, 2 none, 3 few
	ties := d.P(0.5)
	t.add(d.node(fn, depth, e("True"), idmode, ties))
	if d.P(0.2) {
		t.add(e("Extension").a("name", "vendor"))
	}
	return t
}

func (d *dgen) node(fn string, depth int, p *el, idmode int, ties bool) *el {
	n := e("Node")
	switch idmode {
	case 0, 1:
		n.a("id", strconv.Itoa(d.ids))
	case 3:
		n.a("id", strconv.Itoa(d.ids%3))
	}
	d.ids++
	leaf := depth <= 0 || d.big != "depth" && d.P(0.15)
	if fn == "regression" {
		if d.P(0.015) {
			n.a("score", "n/a")
		} else {
			n.n("score", d.score(), "score")
		}
		if d.P(0.5) {
			n.n("recordCount", posnum(d.R), "nodeCount")
		}
	} else {
		best := pickS(d.R, d.g.Labels)
		n.a("score", best)
		if d.P(0.8) {
			n.n("recordCount", posnum(d.R), "nodeCount")
		}
	}
	n.add(p)
	if fn == "classification" && (leaf || d.P(0.5)) && d.P(0.9) {
		cnt := posnum(d.R)
		conf, prob := d.P(0.3), d.P(0.3)
		for _, l := range d.g.Labels {
			if d.P(0.1) {
				continue
			}
			if !ties && d.P(0.8) {
				cnt = posnum(d.R)
			}
			s := e("ScoreDistribution").a("value", l).n("recordCount", cnt, "recordCount")
			if conf {
				s.n("confidence", strconv.FormatFloat(float64(d.N(1000))/1000, 'f', -1, 64), "confidence")
			}
			if prob {
				s.n("probability", strconv.FormatFloat(float64(d.N(1000))/1000, 'f', -1, 64), "probability")
			}
			n.add(s)
		}
	}
	if leaf {
		return n
	}
	if d.big == "depth" && depth > 3 {
		// a long way down
		at := d.N(2)
		ids := [2]int{}
		for i := 0; i < 2; i++ {
			ids[i] = d.ids
			k := 0
			if i == at {
				k = depth - 1
			}
			n.add(d.node(fn, k, pick(d.R, e("True"), d.simple(), d.simple(), d.simple()), idmode, ties))
		}
		if d.P(0.7) {
			n.attrs = append([]attr{{"defaultChild", strconv.Itoa(ids[at]), ""}}, n.attrs...)
		}
	} else if d.P(0.5) && d.big != "children" {
		// complementary binary split
		x := d.simple()
		op := ""
		for _, a := range x.attrs {
			if a.k == "operator" {
				op = a.v
			}
		}
		comp := map[string]string{"lessThan": "greaterOrEqual", "lessOrEqual": "greaterThan", "greaterThan": "lessOrEqual", "greaterOrEqual": "lessThan",
			"equal": "notEqual", "notEqual": "equal", "isMissing": "isNotMissing", "isNotMissing": "isMissing"}[op]
		y := &el{name: x.name}
		for _, a := range x.attrs {
			if a.k == "operator" {
				a.v = comp
			}
			y.attrs = append(y.attrs, a)
		}
		first := d.ids
		n.add(d.node(fn, depth-1, x, idmode, ties))
		second := d.ids
		n.add(d.node(fn, depth-1, y, idmode, ties))
		if d.P(0.7) {
			n.attrs = append([]attr{{"defaultChild", strconv.Itoa(pick(d.R, first, second, second, 99)), ""}}, n.attrs...)
		}
	} else {
		first := d.ids
		for i := d.many("children", d.Range(1, 3), 4, 12); i > 0; i-- {
			k := depth - 1
			if d.big == "children" && k > 0 && d.P(0.8) {
				k = 0
			}
			n.add(d.node(fn, k, d.pred(2), idmode, ties))
		}
		if d.P(0.1) {
			n.add(d.node(fn, 0, e("True"), idmode, ties))
		}
		if d.P(0.6) {
			n.attrs = append([]attr{{"defaultChild", strconv.Itoa(first), ""}}, n.attrs...)
		}
	}
	return n
}

func (d *dgen) table(names []string) *el {
	ic := num(d.R)
	if d.g.exp != 0 && d.P(0.6) {
		// probabilities close to 0 and 1
		ic = strconv.Itoa(2 * d.g.exp)
	}
	t := e("RegressionTable").n("intercept", ic, "intercept")
	for _, nm := range names {
		t.add(e("NumericPredictor").a("name", nm).n("coefficient", num(d.R), "coefficient"))
	}
	return t
}

// regression builds a RegressionModel over the given predictor names.
func (d *dgen) regression(fn string, top bool, names []string) *el {
	m := e("RegressionModel").a("functionName", fn)
	if names == nil {
		for _, f := range d.numFields() {
			if d.P(0.7) {
				names = append(names, f.name)
			}
		}
		if len(names) == 0 {
			names = []string{d.numFields()[0].name}
		}
	}
	out := e("Output")
	var tabs []*el
	if fn == "regression" {
		m.a("normalizationMethod", pick(d.R, "logit", "exp", "cauchit", "cloglog", "softmax"))
		out.add(e("OutputField").a("name", "yhat").a("feature", "predictedValue"))
		tabs = []*el{d.table(names)}
	} else if d.P(0.25) {
		// tables and outputs as they come
		m.a("normalizationMethod", pick(d.R, "softmax", "softmax", "logit", "exp", "cauchit", "cloglog", "simplemax", "none"))
		ls := append(append([]string{}, d.g.Labels...), "third")
		shuffle(d.R, ls)
		for _, l := range ls[:d.Range(1, len(ls))] {
			tabs = append(tabs, d.table(names).a("targetCategory", l))
		}
		shuffle(d.R, ls)
		for _, l := range ls[:d.Range(1, len(ls))] {
			out.add(e("OutputField").a("name", "probability("+l+")").a("feature", "probability").a("value", l))
		}
	} else if d.P(0.4) {
		m.a("normalizationMethod", pick(d.R, "logit", "exp", "cauchit", "softmax"))
		tabs = []*el{d.table(names).a("targetCategory", d.g.Labels[0]), d.table(nil).a("targetCategory", d.g.Labels[1])}
		for _, l := range d.g.Labels[:2] {
			out.add(e("OutputField").a("name", "probability("+l+")").a("feature", "probability").a("value", l))
		}
	} else {
		m.a("normalizationMethod", pick(d.R, "softmax", "softmax", "simplemax"))
		ls := d.g.Labels
		if len(ls) == 2 {
			ls = append(append([]string{}, ls...), "third")
		}
		for _, l := range ls {
			tabs = append(tabs, d.table(names).a("targetCategory", l))
			out.add(e("OutputField").a("name", "probability("+l+")").a("feature", "probability").a("value", l))
		}
	}
	m.add(d.schema(top, false), out)
	for _, t := range tabs {
		m.add(t)
	}
	return m
}

func (d *dgen) mining(fn string, top bool) *el {
	m := e("MiningModel").a("functionName", fn)
	m.add(d.schema(d.P(0.8), d.P(0.7)))
	d.depth++
	defer func() { d.depth-- }()
	lt := d.transforms()
	method := pick(d.R, "average", "sum", "selectFirst", "modelChain", "average", "sum", "modelChain", "")
	if d.o.NoChain && method == "modelChain" {
		method = "sum"
	}
	if d.big == "chain" && d.depth == 1 && !d.o.NoChain {
		method = "modelChain"
	}
	if d.depth > 1 && method == "modelChain" && d.P(0.6) {
		method = "sum"
	}
	out := e("Output")
	var tg *el
	seg := e("Segmentation")
	if method != "" {
		seg.a("multipleModelMethod", method)
	}
	n := d.Range(1, 3)
	if d.o.Small {
		n = d.Range(1, 2)
	}
	if d.depth == 1 || d.P(0.2) {
		n = d.many("segments", n, 4, 36)
	}
	wrap := func(x *el) {
		p := e("True")
		if d.P(0.2) {
			p = d.simple()
		}
		seg.add(e("Segment", p, x).a("id", strconv.Itoa(len(seg.kids)+1)))
	}
	child := func(fn string) *el {
		switch k := d.N(10); {
		case k < 7 || d.depth > 1 && k < 9:
			return d.tree(fn, false)
		case k < 8 && d.depth < 3 && (d.big != "segments" || d.P(0.2)):
			return d.mining(fn, false)
		default:
			return d.regression(fn, false, nil)
		}
	}
	switch method {
	case "modelChain":
		// a numeric model whose output feeds a regression
		if d.P(0.3) {
			// a bare tree
			wrap(d.tree("regression", false))
			nm := []string{"score"}
			if d.P(0.5) {
				nm = append(nm, d.numFields()[0].name)
			}
			wrap(d.regression(fn, false, nm))
			break
		}
		in := e("MiningModel").a("functionName", "regression")
		in.add(d.schema(d.P(0.5), false))
		iseg := e("Segmentation").a("multipleModelMethod", pick(d.R, "sum", "average"))
		for i := d.Range(1, 2); i > 0; i-- {
			iseg.add(e("Segment", e("True"), d.tree("regression", false)).a("id", strconv.Itoa(i)))
		}
		key := "raw"
		if d.P(0.5) {
			in.add(e("Output", e("OutputField").a("name", key).a("optype", "continuous").a("dataType", "double")))
			if d.P(0.5) {
				in.add(d.targets(key))
			}
		} else {
			in.add(d.targets(key))
		}
		in.add(iseg)
		wrap(in)
		for i := d.many("chain", 0, 1, 10); i > 0; i-- {
			// models in between
			x := e("MiningModel", d.schema(d.P(0.5), false), e("Output", e("OutputField").a("name", key)),
				e("Segmentation", e("Segment", e("True"), d.tree("regression", false)).a("id", "1")).a("multipleModelMethod", "sum")).a("functionName", "regression")
			wrap(x)
		}
		nm := []string{key}
		if d.P(0.4) {
			nm = append(nm, d.numFields()[0].name)
		}
		wrap(d.regression(fn, false, nm))
	case "selectFirst":
		for i := 0; i < n; i++ {
			wrap(child(fn))
		}
	default:
		cfn := fn
		for i := 0; i < n; i++ {
			wrap(child(cfn))
		}
		if d.P(0.05) {
			// says nothing about what it returns
		} else if fn == "classification" {
			for _, l := range d.g.Labels {
				out.add(e("OutputField").a("name", "probability("+l+")").a("feature", "probability").a("value", l))
			}
		} else {
			if d.P(0.7) {
				tg = d.targets("label")
			} else {
				out.add(e("OutputField").a("name", "total"))
			}
		}
	}
	if (method == "modelChain" || method == "selectFirst") && d.P(0.35) {
		// named here too, though the last or first segment decides
		for _, l := range d.g.Labels {
			if fn == "classification" {
				out.add(e("OutputField").a("name", "probability("+l+")").a("feature", "probability").a("value", l))
			}
		}
		if fn != "classification" {
			out.add(e("OutputField").a("name", "total"))
		}
		if d.P(0.3) {
			tg = d.targets("label")
		}
	}
	if len(out.kids) == 0 && d.P(0.5) {
		out = nil
	}
	m.add(out, tg, lt, seg)
	return m
}

func (d *dgen) targets(f string) *el {
	t := e("Target").a("field", f)
	if d.P(0.7) {
		t.n("rescaleFactor", d.score(), "rescale")
	}
	if d.P(0.7) {
		t.n("rescaleConstant", d.score(), "rescale")
	}
	ts := e("Targets", t)
	if d.depth < 2 && d.P(0.25) {
		for i := d.Range(1, 2); i > 0; i-- {
			x := e("Target").a("field", fmt.Sprintf("%s_%d", f, i))
			if d.P(0.7) {
				x.n("rescaleFactor", d.score(), "rescale")
			}
			if d.P(0.7) {
				x.n("rescaleConstant", d.score(), "rescale")
			}
			ts.add(x)
		}
	}
	return ts
}

// oddTable makes a mapping one that few documents have: rows without a cell, rows
// of more columns, inputs that are blank or there twice, several tables and pairs.
func (d *dgen) oddTable(mv, it *el) {
	cell := func(n, t string) *el { c := e("data:" + n); c.text = t; return c }
	for n := d.Range(1, 3); n > 0; n-- {
		switch d.N(7) {
		case 0:
			it.add(e("row", cell("input", ""), cell("output", num(d.R))))
		case 1:
			it.add(e("row", cell("output", num(d.R))))
		case 2:
			it.add(e("row", cell("input", pick(d.R, "red", "v1", "nobody"))))
		case 3:
			it.add(e("row", cell("note", "n"), cell("input", pick(d.R, "red", "green", "")), cell("output", num(d.R)), cell("weight", "2")))
		case 4:
			if len(it.kids) > 0 {
				k := *it.kids[d.N(len(it.kids))]
				it.add(&k)
			}
		case 5:
			mv.add(e("InlineTable", e("row", cell("input", pick(d.R, "red", "blue", "")), cell("output", num(d.R)))))
		default:
			x := d.g.Active[d.N(len(d.g.Active))]
			mv.add(e("FieldColumnPair").a("field", x.name).a("column", pick(d.R, "data:other", "data:output", "data:input")))
		}
	}
}
