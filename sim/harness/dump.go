//go:build go1.21

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"VERIFMOD/evaluation"
)

// dump writes everything a user can see of a parsed document.
func dump(v any) string {
	var sb strings.Builder
	dumpV(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func dumpV(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 20000 {
		sb.WriteString("<deep>")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		dumpV(sb, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString(v.Elem().Type().String())
		sb.WriteString("!")
		dumpV(sb, v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		sb.WriteString("{")
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			f := v.Field(i)
			if f.IsZero() && f.Kind() != reflect.Float64 {
				continue
			}
			sb.WriteString(t.Field(i).Name)
			sb.WriteString(":")
			dumpV(sb, f, depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil[]")
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpV(sb, v.Index(i), depth+1)
			sb.WriteString(", ")
		}
		sb.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nilmap")
			return
		}
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k.Interface())
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		sb.WriteString("map[")
		for _, k := range ks {
			sb.WriteString(strconv.Quote(k) + ":")
			dumpV(sb, m[k], depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Float64, reflect.Float32:
		f := v.Float()
		if math.IsNaN(f) {
			sb.WriteString("NaN")
		} else {
			sb.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
		}
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		sb.WriteString("<" + v.Kind().String() + ">")
	default:
		sb.WriteString("?")
	}
}

// firstDiff shows where two dumps part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+80
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			lo = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q became %q", cut(a), cut(b))
}

func dumpRow(r evaluation.DataRow) string {
	if r == nil {
		return "nil"
	}
	ks := make([]string, 0, len(r))
	for k := range r {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString("{")
	for _, k := range ks {
		sb.WriteString(strconv.Quote(k) + "=" + showVal(r[k].Raw()) + " ")
	}
	sb.WriteString("}")
	return sb.String()
}
