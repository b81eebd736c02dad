//go:build go1.21

package main

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Wild documents are drawn from the model types themselves: any element the
// library can decode, nested any way its types allow, as a whole document or as
// the root of one of its own.

// modelTypes is every struct type package models exports, by name. The file that
// fills it in is written when the harness is built.
var modelTypes = map[string]reflect.Type{}

var modelNames []string

func typeNames() []string {
	if modelNames == nil {
		for n := range modelTypes {
			modelNames = append(modelNames, n)
		}
		sort.Strings(modelNames)
	}
	return modelNames
}

var implMemo = map[reflect.Type][]string{}

// impls names the model types that can stand where the interface is asked for.
func impls(t reflect.Type) []string {
	if l, ok := implMemo[t]; ok {
		return l
	}
	var l []string
	if t.NumMethod() > 0 {
		for _, n := range typeNames() {
			if reflect.PtrTo(modelTypes[n]).Implements(t) {
				l = append(l, n)
			}
		}
	}
	implMemo[t] = l
	return l
}

var words = map[string][]string{
	"functionName":            {"classification", "regression"},
	"dataType":                {"double", "float", "integer", "string", "boolean"},
	"optype":                  {"continuous", "categorical", "ordinal"},
	"usageType":               {"active", "predicted", "target", "supplementary"},
	"field":                   {"x0", "x1", "c0", "label", "d0"},
	"name":                    {"x0", "x1", "c0", "label", "d0"},
	"targetField":             {"label", "x1"},
	"targetFieldName":         {"label"},
	"operator":                {"equal", "notEqual", "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual", "isMissing", "isNotMissing"},
	"booleanOperator":         {"and", "or", "xor", "surrogate", "isIn", "isNotIn"},
	"multipleModelMethod":     {"sum", "average", "max", "median", "modelChain", "selectFirst", "weightedAverage", "majorityVote"},
	"normalizationMethod":     {"none", "simplemax", "softmax", "logit", "probit", "cloglog", "exp", "loglog", "cauchit"},
	"missingValueStrategy":    {"none", "nullPrediction", "aggregateNodes", "weightedConfidence", "defaultChild", "lastPrediction"},
	"noTrueChildStrategy":     {"returnNullPrediction", "returnLastPrediction"},
	"missingValueTreatment":   {"asIs", "asMean", "asMode", "asMedian", "asValue"},
	"invalidValueTreatment":   {"returnInvalid", "asIs", "asMissing"},
	"outliers":                {"asIs", "asMissingValues", "asExtremeValues"},
	"feature":                 {"predictedValue", "probability", "transformedValue", "residual"},
	"closure":                 {"openOpen", "openClosed", "closedOpen", "closedClosed"},
	"type":                    {"int", "real", "string"},
	"value":                   {"1", "0.5", "-2", "yes", "no", "3.25", "red", "NaN", ""},
	"targetCategory":          {"yes", "no", "1"},
	"score":                   {"yes", "no", "0.5", "-1", "12"},
	"id":                      {"1", "2", "n3", "4"},
	"defaultChild":            {"1", "2", "n3", "9"},
	"version":                 {"4.4", "4.3"},
	"isRecursive":             {"yes", "no"},
	"missingValueReplacement": {"1", "0", "yes", "-0.5"},
	"outputColumn":            {"out", "x0"},
	"column":                  {"out", "x0", "data:x0"},
	"function":                {"+", "-", "if", "sum", "log10"},
	"precision":               {"1E-6", "0.01"},
	"zeroThreshold":           {"1E-16"},
	"splitCharacteristic":     {"binarySplit", "multiSplit"},
	"mapMissingTo":            {"0", "1", "-1.5", "none"},
	"defaultValue":            {"0", "1", "-1.5", "none"},
	"returnInvalid":           {"returnInvalid", "asIs", "asMissing", ""},
}

type wilder struct {
	r     *R
	left  int
	wrong float64
}

func (w *wilder) word(attr string) string {
	if l, ok := words[attr]; ok && !w.r.P(0.08) {
		return l[w.r.N(len(l))]
	}
	return pick(w.r, "x0", "yes", "1", "0.25", "", "täxt", "a b", "-1", "&quot;", "none", "regression")
}

func (w *wilder) attr(name string, t reflect.Type) (string, bool) {
	if t.Kind() == reflect.Ptr {
		if w.r.P(0.4) {
			return "", false
		}
		t = t.Elem()
	}
	if w.r.P(0.25) {
		return "", false
	}
	if w.r.P(w.wrong) {
		return pick(w.r, "", "wrong", "1e999", "-", "0x1"), true
	}
	switch t.Kind() {
	case reflect.Bool:
		if l, ok := words[name]; ok {
			return l[w.r.N(len(l))], true
		}
		return pick(w.r, "true", "false", "1", "0"), true
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return strconv.Itoa(w.r.Range(-2, 40)), true
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return strconv.Itoa(w.r.Range(0, 40)), true
	case reflect.Float64, reflect.Float32:
		return num(w.r), true
	case reflect.String:
		return w.word(name), true
	}
	return "", false
}

// element makes an element of the given type.
func (w *wilder) element(name string, t reflect.Type, depth int) *el {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	x := e(name)
	w.left--
	switch t.Kind() {
	case reflect.Struct:
		w.fields(x, t, depth)
	case reflect.Map:
		for n := w.r.Range(0, 3); n > 0; n-- {
			c := e(pick(w.r, "data:x0", "x0", "out", "data:out", "c0"))
			c.text = w.word("value")
			x.add(c)
		}
	case reflect.String:
		x.text = w.word("value")
	case reflect.Bool:
		x.text = "true"
	case reflect.Int, reflect.Int64, reflect.Int32:
		x.text = "3"
	case reflect.Float64, reflect.Float32:
		x.text = num(w.r)
	}
	if w.r.P(w.wrong) {
		x.add(e(pick(w.r, "Extension", "Unknown", "Node", "True", "Row", "FieldRef", "Array")))
	}
	return x
}

func (w *wilder) fields(x *el, t reflect.Type, depth int) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		tag := f.Tag.Get("xml")
		name, opts := tag, ""
		if j := strings.IndexByte(tag, ','); j >= 0 {
			name, opts = tag[:j], tag[j+1:]
		}
		ft := f.Type
		switch {
		case tag == "-" || f.Name == "XMLName":
			continue
		case strings.Contains(opts, "attr"):
			if v, ok := w.attr(name, ft); ok {
				x.a(name, v)
			}
			continue
		case strings.Contains(opts, "chardata"), strings.Contains(opts, "innerxml"), strings.Contains(opts, "cdata"):
			if ft.Kind() == reflect.String && w.r.P(0.8) {
				x.text = pick(w.r, "1 2 3", "0.5 -1.5", "red \"bl ue\" green", "text", "42", "", "1 oops")
			}
			continue
		}
		if depth <= 0 || w.left <= 0 {
			continue
		}
		n := 1
		et := ft
		switch {
		case ft.Kind() == reflect.Slice && ft.Elem().Kind() != reflect.Uint8:
			et = ft.Elem()
			n = pick(w.r, 0, 1, 1, 2, 3)
		case ft.Kind() == reflect.Ptr:
			n = pick(w.r, 0, 0, 1)
		default:
			if w.r.P(0.15) {
				n = 0
			}
		}
		if f.Name == "Extensions" && (!w.r.P(0.15) || (t.Name() == "PMML" || t.Name() == "InlineTable") && !w.r.P(0.05)) {
			n = 0
		}
		for ; n > 0; n-- {
			switch {
			case et.Kind() == reflect.Interface:
				if l := impls(et); len(l) > 0 {
					k := l[w.r.N(len(l))]
					x.add(w.element(k, modelTypes[k], depth-1))
				}
			case name == "" && f.Anonymous:
				w.fields(x, et, depth)
			case name != "":
				if j := strings.LastIndexByte(name, ' '); j >= 0 {
					name = name[j+1:]
				}
				if j := strings.IndexByte(name, '>'); j >= 0 {
					x.add(e(name[:j], w.element(name[j+1:], et, depth-1)))
				} else {
					x.add(w.element(name, et, depth-1))
				}
			}
		}
	}
}

// wildDoc is a document, or a part of one, with any of the elements the library
// knows.
func wildDoc(r *R, root string) *Doc {
	w := &wilder{r: r, left: pick(r, 6, 15, 40, 80)}
	if r.P(0.2) {
		w.wrong = 0.02
	}
	if root == "" && r.P(0.6) {
		// the types with decoders of their own first
		var l []string
		for _, n := range typeNames() {
			t := reflect.PtrTo(modelTypes[n])
			if _, ok := t.MethodByName("UnmarshalXML"); ok && n != "PMML" {
				l = append(l, n)
			}
		}
		if len(l) > 0 {
			root = l[r.N(len(l))]
		}
	}
	if root == "" {
		root = typeNames()[r.N(len(typeNames()))]
	}
	t, ok := modelTypes[root]
	if !ok {
		return &Doc{xml: "<" + root + "/>"}
	}
	x := w.element(root, t, r.Range(1, 6))
	if r.P(0.7) {
		x.attrs = append(x.attrs, attr{"xmlns:data", "http://jpmml.org/jpmml-model/InlineTable", ""})
	}
	var sb strings.Builder
	var spans []Span
	x.render(&sb, &spans, 0, r.P(0.3))
	d := &Doc{xml: sb.String(), note: "wild " + root, root: root}
	if root == "PMML" {
		d.root = ""
	}
	for _, n := range []string{"x0", "x1", "c0"} {
		d.fields = append(d.fields, field{name: n, dt: pick(r, "double", "string", "integer"), vals: []string{"yes", "red"}})
	}
	return d
}

func wildRate() {
	ok, all := map[string]int{}, map[string]int{}
	for i := 0; i < 4000; i++ {
		d := wildDoc(NewR(uint64(i)*77+1), pick(NewR(uint64(i)), "", "", "PMML"))
		s := DocSpec{XML: Text(d.xml), Root: d.root}
		all[d.note]++
		if err := xml.NewDecoder(strings.NewReader(d.xml)).Decode(target(&s)); err == nil {
			ok[d.note]++
		} else if i%40 == 0 {
			fmt.Println(d.note, err)
		}
	}
	for _, n := range typeNames() {
		if all["wild "+n] > 0 && ok["wild "+n]*10 < all["wild "+n]*9 {
			fmt.Println(n, ok["wild "+n], all["wild "+n])
		}
	}
}
