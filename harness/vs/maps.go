package vs

import (
	"fmt"
	"sort"
)

// MapIterator iterates a map in an order decided by the chooser.
type MapIterator[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
	k    K
	v    V
}

// MapIter starts an iteration: sorted key order by default; while exploring,
// every permutation of up to three keys and every rotation (forwards and
// backwards) of more.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIterator[M, K, V] {
	it := &MapIterator[M, K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	strs := make([]string, 0, len(m))
	idx := make([]int, 0, len(m))
	var ks []K
	for k := range m {
		idx = append(idx, len(ks))
		ks = append(ks, k)
		strs = append(strs, keyString(k))
	}
	sort.Slice(idx, func(i, j int) bool { return strs[idx[i]] < strs[idx[j]] })
	n := len(ks)
	it.keys = make([]K, 0, n)
	perm := 0
	if n > 1 && Exploring() {
		opts := 2 * n
		if n == 2 {
			opts = 2
		}
		perm = chooseMap(opts)
	}
	rot, rev := perm%n, perm >= n
	for i := 0; i < n; i++ {
		j := (i + rot) % n
		if rev {
			j = n - 1 - j
		}
		it.keys = append(it.keys, ks[idx[j]])
	}
	return it
}

func keyString(k any) string {
	if s, ok := k.(string); ok {
		return s
	}
	return fmt.Sprintf("%020v", k)
}

// Next advances to the next key that is still present.
func (it *MapIterator[M, K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if ok {
			it.k, it.v = k, v
			return true
		}
	}
	return false
}

// Key is the current key.
func (it *MapIterator[M, K, V]) Key() K { return it.k }

// Val is the current value.
func (it *MapIterator[M, K, V]) Val() V { return it.v }

func chooseMap(n int) int { return active.ch.Choose(KMap, n, 1) }
