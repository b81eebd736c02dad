//go:build go1.21

package main

import (
	"fmt"
	"math"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"VERIFMOD/evaluation"
	"VERIFMOD/models"
	"VERIFMOD/verifsim"
)

// addVerification records the model's own predictions for n rows in the
// document, as a tool that writes self-verifying documents does.
func addVerification(r *R, d *Doc, n int) {
	if d.g == nil {
		return
	}
	type vrow struct {
		in  []Field
		out map[string]float64
	}
	var rows []vrow
	keys := map[string]bool{}
	for i := 0; i < n+2 && len(rows) < n; i++ {
		var in []Field
		for _, f := range d.g.Active {
			if r.P(0.1) {
				continue
			}
			c := cellFor(r, d, f, false, false)
			c.V = strings.TrimSpace(c.V)
			if f.dt == "integer" {
				x, _ := strconv.ParseFloat(c.V, 64)
				c.V = strconv.FormatInt(int64(math.Floor(x)), 10)
			}
			if c.V != "" {
				in = append(in, Field{f.name, Val{K: "s", V: c.V}})
			}
		}
		out := map[string]float64{}
		alone(func() string {
			doc, err := decode(d.xml)
			if err != nil {
				return ""
			}
			m, err := build(doc, 0)
			if err != nil {
				return ""
			}
			row := make(evaluation.DataRow)
			for _, f := range in {
				row[f.N] = typed(doc, f.N, f.V.V)
			}
			res, err := m.Evaluate(row)
			if err != nil {
				return ""
			}
			for k, v := range res {
				if x, ok := v.Raw().(float64); ok && !math.IsNaN(x) && !math.IsInf(x, 0) {
					out[k] = x
				}
			}
			return ""
		})
		if len(out) > 0 {
			rows = append(rows, vrow{in, out})
			for k := range out {
				keys[k] = true
			}
		}
	}
	if len(rows) == 0 {
		return
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	vf := e("VerificationFields")
	other := r.P(0.3)
	col := map[string]string{}
	for i, f := range d.g.Active {
		c := f.name
		if other || strings.ContainsAny(c, " ()") {
			c = fmt.Sprintf("col_%d", len(d.g.Active)-i)
		}
		col[f.name] = "data:" + c
		vf.add(e("VerificationField").a("field", f.name).a("column", "data:"+c))
	}
	for i, k := range ks {
		vf.add(e("VerificationField").a("field", k).a("column", fmt.Sprintf("data:p%d", i)).a("precision", "1.0E-6"))
	}
	it := e("InlineTable")
	for _, vr := range rows {
		x := e("row")
		for _, f := range vr.in {
			c := e(col[f.N])
			c.text = f.V.V
			x.add(c)
		}
		for i, k := range ks {
			if v, ok := vr.out[k]; ok {
				c := e(fmt.Sprintf("data:p%d", i))
				c.text, c.tnum = fs(v), "recorded"
				x.add(c)
			}
		}
		it.add(x)
	}
	mv := e("ModelVerification", vf, it).a("recordCount", strconv.Itoa(len(rows)))
	d.g.model.add(mv)
	d.g.Verif = true
	d.xml, d.spans = d.g.Render()
}

// typed is a recorded cell as a caller passes it: in the type of its field.
func typed(doc *models.PMML, field, text string) evaluation.Value {
	for _, f := range doc.DataDictionary.DataFields {
		if string(f.Name) != field {
			continue
		}
		switch f.DataType {
		case models.DataTypeDouble, models.DataTypeFloat:
			if x, err := strconv.ParseFloat(text, 64); err == nil {
				return evaluation.NewValue(x)
			}
		case models.DataTypeInteger:
			if x, err := strconv.ParseInt(text, 10, 64); err == nil {
				return evaluation.NewValue(x)
			}
		case models.DataTypeBoolean:
			if x, err := strconv.ParseBool(text); err == nil {
				return evaluation.NewValue(x)
			}
		}
	}
	return evaluation.NewValue(text)
}

// ---- C02: the same calls under different environments ----

func execDeterminism(sc *Scenario) (*Violation, Stats) {
	var st Stats
	var first []string
	for i, env := range sc.Envs {
		c := *sc
		c.Sim = env
		h := newHist(&c)
		if v := h.phases(&st); v != nil {
			return v, st
		}
		var got []string
		for k := range c.Setup {
			got = append(got, class(&c.Setup[k], &h.setup[k]))
		}
		for k := range c.Final {
			got = append(got, class(&c.Final[k], &h.final[k]))
			st.Ops++
			if h.final[k].kind == "ok" {
				st.Ok++
			}
		}
		if i == 0 {
			first = got
			for _, s := range got {
				st.Digest = st.Digest*1099511628211 ^ hashS(s)
			}
			continue
		}
		for k := range got {
			if got[k] != first[k] {
				op := &c.Final[0]
				if k < len(c.Setup) {
					op = &c.Setup[k]
				} else {
					op = &c.Final[k-len(c.Setup)]
				}
				return &Violation{"differs", fmt.Sprintf("%s: environment 0 gives %s, environment %d (map order %d/%d, random seed %d, clock base %d, pool drop %g) gives %s",
					op.show(), first[k], i, env.MapMode, env.MapSeed, env.RandSeed, env.ClockBase, env.PoolDrop, got[k])}, st
			}
		}
	}
	return nil, st
}

func class(op *Op, o *Outcome) string {
	if op.K != "eval" && op.K != "arr" {
		return o.kind
	}
	return o.String()
}

// ---- C07: damaged numbers ----

var badChars = []string{"#", "?", "q", "@", "~", "%", "_z", "-", "..", "'", ",", " 7"}

// spoil turns number text into text that is not a number.
func spoil(r *R, s string) string {
	for {
		var t string
		switch r.N(6) {
		case 0, 1, 2: // one byte overwritten
			if len(s) == 0 {
				continue
			}
			i := r.N(len(s))
			t = s[:i] + pick(r, "#", "?", "q", "@", "~", "%", "z", "$", printable(r), printable(r)) + s[i+1:]
		case 3: // bytes inserted
			i := r.N(len(s) + 1)
			t = s[:i] + pick(r, pickS(r, badChars), printable(r)) + s[i:]
			if r.P(0.4) {
				// at either end
				t = pick(r, s+printable(r), s+pick(r, "d", "f", "L", "%", "px", ";", "#"), printable(r)+s)
			}
		case 4: // everything overwritten
			t = strings.Repeat(pick(r, "x", "?", "#", "."), len(s)+1)
		default:
			t = pick(r, "abc", "1,5", "--1", "1.2.3", "0..5", "1e", "n/a", "None", "null", "O.5", "l", "1 2", "five",
				"true", "+", "-", ".", "e5", "1e+", "0x", "1/2", "\u00bd", "\uff11\uff12", "1_0", "NA", "#N/A", "(1)", "1E5E5", "TRUE", "1;2", "[1]", "&", "<1>",
				strings.Replace(s, ".", ",", 1), s+s, s+" "+s, s+"\u00a0x", s+","+s, s+"e", s+".", "."+s)
		}
		if _, err := strconv.ParseFloat(strings.TrimSpace(t), 64); err != nil && strings.TrimSpace(t) != "" {
			// out-of-range text is still a number
			if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
				continue
			}
			return t
		}
	}
}

func printable(r *R) string { return string(rune(r.Range('!', '~'))) }

func genNumbers(r *R, sc *Scenario) {
	var d *Doc
	var cand []Span
	for {
		o := GenOpt{Small: r.P(0.6), Map: r.P(0.2), Derive: r.P(0.3)}
		if r.P(0.25) {
			// where the counts of nodes count
			o.Model, o.Function, o.Strategy = pick(r, "tree", "tree", "mining"), "classification", "weightedConfidence"
		}
		d = genDoc(r, o)
		cand = cand[:0]
		// every class of number equally often
		classes := map[string]int{}
		for _, s := range d.spans {
			classes[s.Class]++
		}
		for _, s := range d.spans {
			if s.Class != "penalty" {
				cand = append(cand, s)
			}
		}
		if len(cand) > 0 {
			var names []string
			for c := range classes {
				if c != "penalty" {
					names = append(names, c)
				}
			}
			sort.Strings(names)
			want := pickS(r, names)
			k := cand[:0]
			for _, s := range cand {
				if s.Class == want {
					k = append(k, s)
				}
			}
			cand = k
			break
		}
	}
	s := pickS(r, cand)
	old := d.xml[s.Off : s.Off+s.Len]
	put := func(t string) string { return d.xml[:s.Off] + esc(t) + d.xml[s.Off+s.Len:] }
	bad := spoil(r, old)
	sc.addDoc(d)
	sc.addDoc(&Doc{xml: put(bad), note: fmt.Sprintf("%s %q stored as %q", s.Class, old, bad)})
	for _, alt := range []string{"1000003", "-1000003", "0.375", "0", "17"} {
		sc.addDoc(&Doc{xml: put(alt), note: "alternative " + alt})
	}
	for i := r.Range(5, 9); i > 0; i-- {
		sc.addRow(row(r, d))
	}
	sc.Note = s.Class
	sc.Sim = quiet(r)
}

// execNumbers: a call may fail, or be right because it did not need the
// number; it may not be right by accident or wrong.
func execNumbers(sc *Scenario) (*Violation, Stats) {
	var st Stats
	refs := newRefs(sc)
	bump("storage:number-damaged")
	bump("storage:number-damaged:" + sc.Note)
	if s := refs.load(1); s == "err" {
		st.Ok++
		bump("refused:at-load")
		return nil, st
	}
	if s := refs.build(mspec{1, 0}); s == "nobuild" {
		st.Ok++
		bump("refused:at-build")
		return nil, st
	} else if s == "panic" || strings.HasPrefix(s, "stuck") {
		return &Violation{"panic", "building the damaged document: " + s}, st
	}
	var env Stats
	h := newHist(sc)
	h.sc.NDoc, h.sc.NMod = 1, 1
	h = newHist(sc)
	sc.Final = []Op{{K: "load", N: 1, D: 0}, {K: "build", D: 0, M: 0}}
	for i := range sc.Rows {
		sc.Final = append(sc.Final, Op{K: "eval", M: 0, R: i})
	}
	if v := h.phases(&env); v != nil {
		return v, env
	}
	st = env
	for i := range sc.Rows {
		o := &h.final[2+i]
		st.Ops++
		if o.kind == "panic" {
			return &Violation{"panic", fmt.Sprintf("scoring row %d on the damaged document: %s", i, o.err)}, st
		}
		if o.kind == "err" {
			st.Ok++
			bump("refused:at-scoring")
			continue
		}
		good := refs.eval(mspec{0, 0}, i)
		if good == "err" || good == "panic" || strings.HasPrefix(good, "no") {
			continue
		}
		got := o.String()
		if got != good {
			return &Violation{"wrong-value", fmt.Sprintf("%s: scoring row %d returned %s; the intact document gives %s", sc.Docs[1].Note, i, got, good)}, st
		}
		for a := 2; a < len(sc.Docs); a++ {
			if alt := refs.eval(mspec{a, 0}, i); strings.HasPrefix(alt, "ok") && alt != good || alt == "nil" && alt != good {
				return &Violation{"default-used", fmt.Sprintf("%s: scoring row %d needs the number (%s gives %s) but returned %s", sc.Docs[1].Note, i, sc.Docs[a].Note, alt, got)}, st
			}
		}
		bump("not-needed")
	}
	return nil, st
}

// ---- C10: self-verification ----

func genVerify(r *R, sc *Scenario) {
	var d *Doc
	for i := 0; ; i++ {
		if r.P(0.15) && len(shipped()) > 0 {
			d = shippedAsDoc(pickS(r, shipped()))
			if strings.Contains(d.xml, "<ModelVerification") {
				markShipped(d)
				break
			}
			continue
		}
		d = genDoc(r, opt(r))
		addVerification(r, d, pick(r, 1, 2, 3, 4, 5, 1, 2, 3, 4, 5, r.Range(6, 24)))
		if d.g.Verif || i > 30 {
			break
		}
	}
	x := d.xml
	var notes []string
	damageIt := func() {
		if len(d.spans) == 0 {
			return
		}
		rec := r.P(0.4)
		var c []Span
		for _, s := range d.spans {
			if (s.Class == "recorded") == rec {
				c = append(c, s)
			}
		}
		if len(c) == 0 {
			c = d.spans
		}
		s := pickS(r, c)
		old := d.xml[s.Off : s.Off+s.Len]
		v, err := strconv.ParseFloat(old, 64)
		if err != nil {
			return
		}
		var nv string
		switch r.N(9) {
		case 0:
			nv = fs(-v)
		case 1:
			nv = fs(v * pick(r, 1.02, 0.98, 10, 0.1, 1.5, 2, 1.013, 0.985, 1.03, 1.06, 1.2, 0.9))
		case 2:
			nv = fs(v + pick(r, 1, -1, 0.02, -0.02, 100))
		case 3:
			nv = num(r)
		case 4, 5: // one digit changed
			if r.P(0.3) {
				nv = fs(v * (1 + pick(r, -1.0, 1.0)*(0.012+0.06*r.F())))
				break
			}
			b := []byte(old)
			i := r.N(len(b))
			if b[i] >= '0' && b[i] <= '9' {
				b[i] = byte('0' + r.N(10))
			}
			nv = string(b)
		case 6:
			nv = pick(r, "NaN", "Inf", "-Inf", "1e300", "0", "+Inf", "infinity", "800", "-800", "1e308", "-0", "1e-320")
		case 7:
			nv = fs(v * (1 + pick(r, 1e-3, 1e-9, 5e-3, 3e-5)))
		default:
			nv = fs(v * 1.1)
		}
		if s.Class == "recorded" && r.P(0.1) {
			nv = esc(spoil(r, old))
		}
		x = d.xml[:s.Off] + nv + d.xml[s.Off+s.Len:]
		notes = append(notes, fmt.Sprintf("%s %s stored as %s", s.Class, old, nv))
	}
	if r.P(0.85) {
		damageIt()
	} else {
		notes = append(notes, "intact")
	}
	sc.addDoc(&Doc{xml: x, note: d.note + ": " + strings.Join(notes, ", ")})
	sc.Note = "intact"
	if x != d.xml {
		sc.Note = "damaged"
		bump("storage:number-changed")
	}
	sc.NDoc, sc.NMod = 1, 1
	sc.Sim = quiet(r)
}

// markShipped finds the numbers of a shipped document by attribute name.
func markShipped(d *Doc) {
	for _, k := range []string{"coefficient", "intercept", "recordCount", "rescaleConstant", "rescaleFactor", "value", "score"} {
		pat := " " + k + `="`
		for at := 0; ; {
			j := strings.Index(d.xml[at:], pat)
			if j < 0 {
				break
			}
			at += j + len(pat)
			n := strings.IndexByte(d.xml[at:], '"')
			if _, err := strconv.ParseFloat(d.xml[at:at+n], 64); err == nil {
				d.spans = append(d.spans, Span{at, n, k})
			}
		}
	}
	i := strings.Index(d.xml, "<InlineTable")
	for at := i; i >= 0; {
		j := strings.Index(d.xml[at:], ">")
		if j < 0 {
			break
		}
		at += j + 1
		n := strings.IndexByte(d.xml[at:], '<')
		if n <= 0 {
			continue
		}
		tag := d.xml[at+n:]
		if strings.HasPrefix(tag, "</data:p") || strings.HasPrefix(tag, "</data:y") {
			if _, err := strconv.ParseFloat(d.xml[at:at+n], 64); err == nil {
				d.spans = append(d.spans, Span{at, n, "recorded"})
			}
		}
	}
}

func verification(m models.ModelElement) *models.ModelVerification {
	switch v := m.(type) {
	case *models.TreeModel:
		return v.ModelVerification
	case *models.MiningModel:
		return v.ModelVerification
	case *models.RegressionModel:
		return v.ModelVerification
	}
	return nil
}

// execVerify judges the verdict of self-verification with the model's own
// predictions and the recorded values.
func execVerify(sc *Scenario) (*Violation, Stats) {
	st := Stats{Ops: 1}
	mustFail, mustPass, why := false, true, ""
	s := alone(func() string {
		doc, err := decode(string(sc.Docs[0].XML))
		if err != nil {
			return "noload"
		}
		m, err := build(doc, 0)
		if err != nil {
			return "nobuild"
		}
		mv := verification(doc.Models[0])
		if mv == nil || len(mv.InlineTable.Rows) == 0 {
			return "none"
		}
		in, out := map[string]string{}, map[string]string{}
		zero := map[string]float64{}
		for _, f := range mv.VerificationFields.Fields {
			if !strings.HasPrefix(f.Column, "data:") {
				return "none"
			}
			if f.Precision == nil {
				in[f.Column[5:]] = string(f.Field)
			} else {
				out[f.Column[5:]] = string(f.Field)
				zero[f.Column[5:]] = 1e-15
				if f.ZeroThreshold != nil {
					zero[f.Column[5:]] = *f.ZeroThreshold
				}
			}
		}
		for i, vr := range mv.InlineTable.Rows {
			row := make(evaluation.DataRow)
			for k, v := range vr {
				if f, ok := in[k]; ok {
					row[f] = typed(doc, f, fmt.Sprint(v))
				}
			}
			doc2, _ := decode(string(sc.Docs[0].XML))
			m2, _ := build(doc2, 0)
			res, err := m2.Evaluate(row)
			if err != nil {
				mustFail, mustPass = true, false // scoring fails; verification says so too
				why = fmt.Sprintf("row %d: scoring it fails: %v", i, err)
				continue
			}
			for k, v := range vr {
				f, ok := out[k]
				if !ok {
					continue
				}
				v := fmt.Sprint(v)
				want, perr := strconv.ParseFloat(v, 64)
				p, have := res[f]
				if !have {
					mustFail, mustPass = true, false
					why = fmt.Sprintf("row %d: %s recorded as %s, prediction absent", i, f, v)
					continue
				}
				got, isnum := p.Raw().(float64)
				if perr != nil && isnum && strings.TrimSpace(v) != "" && math.Abs(got) > 2*zero[k] {
					mustFail, mustPass = true, false
					why = fmt.Sprintf("row %d: %s recorded as %q, predicted %v", i, f, v, got)
				}
				if perr != nil || !isnum {
					mustPass = false
					continue
				}
				switch {
				case math.IsNaN(got) && !math.IsNaN(want):
					mustFail, mustPass = true, false
					why = fmt.Sprintf("row %d: %s recorded as %s, predicted NaN", i, f, v)
				case math.IsNaN(want):
					mustPass = false
					if !math.IsNaN(got) {
						mustFail = true
						why = fmt.Sprintf("row %d: %s recorded as NaN, predicted %v", i, f, got)
					}
				case got == want:
				case math.IsInf(got, 0) || math.IsInf(want, 0):
					mustFail, mustPass = true, false
					why = fmt.Sprintf("row %d: %s recorded as %v, predicted %v", i, f, want, got)
				case math.Abs(got-want) > 0.01*math.Max(math.Abs(want), math.Abs(got)) && math.Abs(got-want) > 2*zero[k]:
					mustFail, mustPass = true, false
					why = fmt.Sprintf("row %d: %s recorded as %v, predicted %v", i, f, want, got)
				default:
					mustPass = false
				}
			}
		}
		_ = m
		return "ok"
	})
	if s != "ok" {
		if s == "panic" || strings.HasPrefix(s, "stuck") {
			return nil, st // C08 judges these
		}
		bump("refused:" + s)
		return nil, st
	}
	st.Ok++
	verdicts := ""
	for k := 0; k < 3; k++ {
		c := *sc
		c.Final = []Op{{K: "load", N: 0, D: 0}, {K: "build", D: 0, M: 0}, {K: "verify", M: 0}, {K: "verify", M: 0}}
		switch k {
		case 0:
			c.Sim = Sim{Mode: "canonical"}
		case 1:
			c.Sim.MapMode = 1
		}
		h := newHist(&c)
		if v := h.phases(&st); v != nil {
			return v, st
		}
		for i := 2; i < 4; i++ {
			o := &h.final[i]
			if o.kind == "panic" {
				return &Violation{"panic", "self-verification panicked: " + o.err}, st
			}
			if verdicts == "" {
				verdicts = o.kind
			}
			if o.kind != verdicts {
				return &Violation{"verify-unstable", fmt.Sprintf("%s: the verdict was %s and then %s", sc.Docs[0].Note, verdicts, o.kind)}, st
			}
		}
		d := h.docs[0]
		if want, got := h.refs.load(0), "ok "+dump(d); want != got {
			return &Violation{"doc-changed", "self-verification changed the document: " + firstDiff(want, got)}, st
		}
	}
	bump("verdict:" + verdicts)
	if mustFail && verdicts != "err" {
		return &Violation{"verify-accepts", fmt.Sprintf("%s: self-verification passes although %s", sc.Docs[0].Note, why)}, st
	}
	if mustPass && verdicts == "err" {
		return &Violation{"verify-rejects", fmt.Sprintf("%s: self-verification fails although every prediction equals the recorded value", sc.Docs[0].Note)}, st
	}
	if mustFail {
		bump("must-fail")
	} else if mustPass {
		bump("must-pass")
	}
	return nil, st
}

// ---- C14: growth ----

func genGrowth(r *R, sc *Scenario) {
	o := opt(r)
	d := flawed(r, o, 0.5)
	bad := r.P(0.2)
	if bad {
		d.xml = unbuildable(r, d)
	} else if r.P(0.12) {
		d.xml = damage(r, d)
	}
	wild := false
	if r.P(0.12) {
		d, wild = wildDoc(r, pick(r, "", "", "PMML")), true
	}
	n := sc.addDoc(d)
	if wild {
		sc.Vary = vary(r, d.xml)
		for i := r.Range(1, 2); i > 0; i-- {
			sc.Final = append(sc.Final, loadOp(n, 1, plan(r, d.xml, r.P(0.2))))
		}
		sc.NMod, sc.NDoc = 1, 2
		sc.Loops = 24
		sc.Sim = quiet(r)
		return
	}
	sc.loaded(n)
	for i := r.Range(2, 5); i > 0; i-- {
		x := row(r, d)
		if d.g != nil && d.g.hasMap && r.P(0.3) {
			x = withCallback(r, x, d, pick(r, "panic", "yield", "goexit"))
		}
		if r.P(0.25) {
			// an entry under a name that is new in every lap
			x.F = append(x.F, Field{"fresh", Val{K: "f64", V: num(r)}})
		}
		sc.addRow(x)
	}
	for i := r.Range(1, 4); i > 0; i-- {
		k := r.N(10)
		if bad && r.P(0.5) {
			k = 6
		}
		switch k {
		case 0, 1, 2, 3, 4:
			op := Op{K: "eval", M: 0, R: r.N(len(sc.Rows))}
			for _, f := range sc.Rows[op.R].F {
				if f.V.Act == "goexit" {
					op.F = fSub
				}
			}
			sc.Final = append(sc.Final, op)
		case 5:
			sc.Final = append(sc.Final, Op{K: "verify", M: 0})
		case 6, 7:
			sc.Final = append(sc.Final, Op{K: "build", D: 0, M: 1})
		case 8:
			sc.Final = append(sc.Final, loadOp(n, 1, plan(r, d.xml, false)))
		default:
			sc.Final = append(sc.Final, loadOp(n, 1, plan(r, d.xml, true)))
		}
	}
	sc.NMod, sc.NDoc = 2, 2
	sc.Loops = 24
	heavy := false
	for i := range sc.Final {
		if k := sc.Final[i].K; k == "load" {
			// the document of the next lap is another one
			sc.Vary = vary(r, d.xml)
			heavy = true
		} else if k == "build" {
			heavy = true
			if r.P(0.5) {
				sc.Vary = vary(r, d.xml)
				sc.Final = append(sc.Final[:i:i], append([]Op{loadOp(n, 0, nil)}, sc.Final[i:]...)...)
			}
			break
		}
	}
	if r.P(0.3) && len(d.xml) < 20000 {
		// every lap scores and verifies a model of its own
		if r.P(0.8) {
			sc.Vary = vary(r, d.xml)
		}
		fresh := []Op{loadOp(n, 0, nil), {K: "build", D: 0, M: 0}}
		for _, op := range sc.Final {
			if op.K == "eval" || op.K == "verify" {
				fresh = append(fresh, op)
			}
		}
		sc.Final, heavy = fresh, true
	}
	if !heavy && len(d.xml) < 20000 && r.P(0.15) {
		sc.Sparse = true
		sc.Loops = 1500
		if len(sc.Final) > 2 {
			sc.Final = sc.Final[:2]
		}
	}
	sc.Sim = quiet(r)
}

var reText = regexp.MustCompile(` (name|field|id|defaultChild|score|value|targetCategory|targetField|application|column|recordCount|coefficient|intercept|defaultValue|missingValueReplacement)="([^"]{1,400})"`)
var reAttr = regexp.MustCompile(` ([A-Za-z]+)="([^"]{1,40})"`)

// vary chooses attribute values of a document that are to be new every time it is
// loaded.
func vary(r *R, xml string) []string {
	re := reText
	if r.P(0.2) {
		re = reAttr
	}
	seen := map[string]bool{}
	var all, out []string
	for _, m := range re.FindAllStringSubmatch(xml, 400) {
		if !seen[m[2]] {
			seen[m[2]] = true
			all = append(all, m[2])
		}
	}
	p := pick(r, 0.1, 0.4, 1)
	for _, t := range all {
		if r.P(p) {
			out = append(out, t)
		}
	}
	if len(out) == 0 && len(all) > 0 {
		out = append(out, pick(r, all...))
	}
	return out
}

// varied is the document with those values replaced by new ones.
func varied(xml string, what []string, n int64) string {
	var pairs []string
	for _, t := range what {
		u := fmt.Sprintf("%s%06d", t, n)
		if _, err := strconv.ParseInt(t, 10, 64); err == nil {
			u = fmt.Sprintf("%s.%06d", t, n)
		}
		pairs = append(pairs, `"`+t+`"`, `"`+u+`"`)
	}
	return strings.NewReplacer(pairs...).Replace(xml)
}

type mem struct {
	objs, bytes int64
	gor         int
}

func measure() mem {
	var ms runtime.MemStats
	debug.FreeOSMemory()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return mem{int64(ms.HeapObjects), int64(ms.HeapAlloc), runtime.NumGoroutine()}
}

var uniq int64

// execGrowth repeats the operations many times, with values that never repeat,
// and measures what stays alive.
func execGrowth(sc *Scenario) (*Violation, Stats) {
	var st Stats
	cfg := sc.Sim.config()
	verifsim.Restart(&cfg)
	cfg.Mode, cfg.P, cfg.Depth, cfg.Horizon = "canonical", 0.3, 3, 500
	if sc.Sim.Serial != "" {
		cfg.Mode = sc.Sim.Serial
	}
	cfg.StepLimit = 50_000_000
	cfg.Grace = 60_000_000_000
	verifsim.SetEnv(&cfg)
	h := newHist(sc)
	h.shared = make([]evaluation.DataRow, len(sc.Rows))
	outs := make([]Outcome, len(sc.Setup)+len(sc.Final))
	laps := 0
	run := func(ops []Op) *Violation {
		r := verifsim.Run(cfg, []func(){func() {
			for i := range ops {
				outs[i] = Outcome{}
				h.run(&ops[i], &outs[i], 0)
				st.Ops++
			}
		}})
		st.Steps += r.Steps
		st.SimNS += r.Elapsed
		if r.Verdict != "" {
			return &Violation{r.Verdict, h.verdictText(r.Verdict)}
		}
		if r.Crash != "" {
			return &Violation{"crash", r.Crash}
		}
		if r.Leaked > 200 {
			// a pool of workers that stays is no leak, one more with every call is
			return &Violation{"goroutine-leak", fmt.Sprintf("%d goroutines started by the calls are still there after the calls returned, %d laps", r.Leaked, laps)}
		}
		return nil
	}
	if v := run(sc.Setup); v != nil {
		return v, st
	}
	ops := sc.Final
	base := string(sc.Docs[0].XML)
	defer func() { sc.Docs[0].XML = Text(base) }()
	lap := func() *Violation {
		// fresh values every lap: nothing may be remembered per value
		for i := range sc.Rows {
			for k := range sc.Rows[i].F {
				f := &sc.Rows[i].F[k]
				uniq++
				switch f.V.K {
				case "f64":
					x, _ := strconv.ParseFloat(f.V.V, 64)
					f.V.V = fs(x + 1e-7*float64(uniq%1000003))
				case "s":
					if _, err := strconv.ParseFloat(f.V.V, 64); err == nil && !strings.ContainsAny(f.V.V, "eEnxXNI") {
						// a number as text: other digits, at the end of one that has a fraction
						b := f.V.V
						if i := strings.IndexByte(b, '.'); i < 0 {
							b += ".0"
						} else if len(b) > i+8 {
							b = b[:i+2]
						}
						f.V.V = b + fmt.Sprintf("%06d", uniq%1000000)
					} else if f.N != "label" && (f.N != "c0" || uniq%3 == 0) && (f.N == "c0" || laps%3 == 0) {
						f.V.V = fmt.Sprintf("v%d", uniq)
					}
				case "i", "i64":
					if laps%4 == 0 {
						f.V.V = strconv.FormatInt(uniq%1000000, 10)
					}
				}
				if strings.HasPrefix(f.N, "fresh") {
					f.N = fmt.Sprintf("fresh%d", uniq)
				}
			}
		}
		if len(sc.Vary) > 0 {
			sc.Docs[0].XML = Text(varied(base, sc.Vary, uniq%1000000))
		}
		laps++
		return run(ops)
	}
	window := func(n int) (mem, *Violation) {
		for i := 0; i < n; i++ {
			if v := lap(); v != nil {
				return mem{}, v
			}
		}
		return measure(), nil
	}
	uniq = 0
	if _, v := window(8); v != nil {
		return v, st
	}
	// the number of windows depends on the memory measured, what the calls did so far does not
	for i := range outs {
		st.Digest = st.Digest*1099511628211 ^ hashS(outs[i].String())
	}
	st.Hash = uint64(st.Steps)
	// each window makes four times the calls of all before it, so that even a
	// list that doubles its capacity grows in every one of them. A bounded cache
	// levels off and ends the search.
	n := sc.Loops
	prev := measure()
	var ds []string
	rounds := 6
	if sc.Sparse {
		rounds = 3
	}
	for round := 0; round < rounds; round++ {
		m, v := window(n)
		if v != nil {
			return v, st
		}
		do, db := m.objs-prev.objs, m.bytes-prev.bytes
		ds = append(ds, fmt.Sprintf("%+d objects %+d bytes %+d goroutines over %d calls", do, db, m.gor-prev.gor, n*len(ops)))
		if sc.Sparse && do >= int64(n)/400 && db >= int64(n)/2 {
			// the last window starts after more than ten thousand calls, when
			// the usual bounded caches are full
			prev = m
			n *= 6
			continue
		}
		if !(float64(do) >= 0.5*float64(n) || float64(db) >= 8*float64(n) || m.gor-prev.gor >= n/4+1) {
			st.Ok++
			return nil, st
		}
		prev = m
		n *= 4
	}
	return &Violation{"growth", "memory kept alive grows with the number of calls: " + strings.Join(ds, "; ")}, st
}
