//go:build go1.21

// Package vmap makes the order of map iteration a choice of the harness.
package vmap

import (
	"fmt"
	"sort"
	"sync/atomic"
)

var order atomic.Value // func(n int) []int

// SetOrder installs the order (a permutation of 0..n-1 for each n); nil restores the sorted order.
func SetOrder(f func(n int) []int) { order.Store(f) }

var Ranges int64

// Keys returns the keys of m in the chosen order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	atomic.AddInt64(&Ranges, 1)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	switch s := any(ks).(type) {
	case []byte:
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	case []uint32:
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
	f, _ := order.Load().(func(n int) []int)
	if f == nil {
		return ks
	}
	out := make([]K, 0, len(ks))
	for _, i := range f(len(ks)) {
		out = append(out, ks[i])
	}
	return out
}

// Pair stands for one iteration: the value is read, and the presence checked, when the iteration starts.
type Pair[K comparable, V any] struct {
	K K
	m map[K]V
}

func (p Pair[K, V]) V() V { return p.m[p.K] }

func (p Pair[K, V]) Has() bool {
	_, ok := p.m[p.K]
	return ok
}

// Pairs replaces a map in a range clause.
func Pairs[M ~map[K]V, K comparable, V any](m M) []Pair[K, V] {
	ks := Keys(m)
	out := make([]Pair[K, V], len(ks))
	for i, k := range ks {
		out[i] = Pair[K, V]{k, m}
	}
	return out
}
