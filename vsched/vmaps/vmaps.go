// Package vmaps is the maps package with iteration in a controlled order, like a range over a map.
package vmaps

import (
	"iter"
	"maps"

	"vsched"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return vsched.RangeMap(m)
}

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		vsched.RangeMap(m)(func(k K, _ V) bool { return yield(k) })
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		vsched.RangeMap(m)(func(_ K, v V) bool { return yield(v) })
	}
}

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		vsched.MW(m)[vsched.K(k)] = v
	}
}

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V {
	m := make(map[K]V)
	Insert(m, seq)
	return m
}

func Clone[M ~map[K]V, K comparable, V any](m M) M {
	vsched.MR(m)
	return maps.Clone(m)
}

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	vsched.MR(src)
	maps.Copy(vsched.MW(dst), src)
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	vsched.RangeMap(m)(func(k K, v V) bool {
		if del(k, v) {
			delete(vsched.MW(m), k)
		}
		return true
	})
}

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool {
	vsched.MR(m1)
	vsched.MR(m2)
	return maps.Equal(m1, m2)
}

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	vsched.MR(m1)
	vsched.MR(m2)
	return maps.EqualFunc(m1, m2, eq)
}
