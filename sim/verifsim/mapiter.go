//go:build go1.21

package verifsim

import (
	"fmt"
	"reflect"
	"sort"
)

// Iter walks a map in an order the simulator decides.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

//go:norace
func mapNote() (int, *uint64) { mapIters++; return mapMode, &mapRng }

//go:norace
func mapDraw(r *uint64) uint64 { return splitmix(r) }

func newIter[K comparable, V any](m map[K]V) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	mode, rng := mapNote()
	SortKeys(it.keys)
	switch mode {
	case 1:
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	case 2:
		for i := len(it.keys) - 1; i > 0; i-- {
			j := int(mapDraw(rng) % uint64(i+1))
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

// SortKeys puts keys in the canonical order.
func SortKeys[K any](keys []K) {
	if ss, ok := any(keys).([]string); ok {
		sort.Strings(ss)
		return
	}
	if len(keys) < 2 {
		return
	}
	type kv struct {
		s string
		k K
	}
	t := make([]kv, len(keys))
	for i, k := range keys {
		t[i] = kv{fmt.Sprintf("%T %v", any(k), any(k)), k}
	}
	sort.SliceStable(t, func(i, j int) bool { return t[i].s < t[j].s })
	for i := range t {
		keys[i] = t[i].k
	}
}

func R0[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] { return newIter(map[K]V(m)) }
func R1[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], K) {
	var k K
	return newIter(map[K]V(m)), k
}
func R2[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], K, V) {
	var k K
	var v V
	return newIter(map[K]V(m)), k, v
}
func RV[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], V) {
	var v V
	return newIter(map[K]V(m)), v
}

func (it *Iter[K, V]) step() (K, V, bool) {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			return k, v, true
		}
	}
	var k K
	var v V
	return k, v, false
}

func (it *Iter[K, V]) Next(k *K, v *V) bool {
	a, b, ok := it.step()
	if ok {
		*k, *v = a, b
	}
	return ok
}

func (it *Iter[K, V]) NextK(k *K) bool {
	a, _, ok := it.step()
	if ok {
		*k = a
	}
	return ok
}

func (it *Iter[K, V]) NextV(v *V) bool {
	_, b, ok := it.step()
	if ok {
		*v = b
	}
	return ok
}

func (it *Iter[K, V]) NextN() bool {
	_, _, ok := it.step()
	return ok
}

// MapKeys is reflect.Value.MapKeys in the order the simulator decides.
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	by := make(map[string][]reflect.Value, len(keys))
	var names []string
	for _, k := range keys {
		s := fmt.Sprintf("%s %v", k.Type(), k)
		if by[s] == nil {
			names = append(names, s)
		}
		by[s] = append(by[s], k)
	}
	m := make(map[string]bool, len(names))
	for _, s := range names {
		m[s] = true
	}
	it := newIter(m)
	out := keys[:0]
	for _, s := range it.keys {
		out = append(out, by[s]...)
	}
	return out
}
