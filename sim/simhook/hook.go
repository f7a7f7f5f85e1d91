// Package simhookverif is laid into the module under test by the build overlay. It
// is the seam between instrumented library code and the simulator. It is never part
// of /repo itself.
package simhookverif

import (
	"fmt"
	"sort"
)

const maxSites = 1 << 14

var (
	// Steps counts the yield points passed by the whole simulation.
	Steps uint64
	// Next is the step at which the simulator wants to be called.
	Next uint64 = ^uint64(0)
	// Trap marks the sites at which the simulator wants to be called.
	Trap [maxSites]bool
	// Hit marks the sites reached so far.
	Hit [maxSites]bool
	// Slow is the simulator's entry.
	Slow func(site uint32)
	// OrderSeed returns the seed for the order of one map iteration (0: canonical).
	OrderSeed func() uint64
	// Block parks the calling task until Wake was called.
	Block func()
	// Wake makes all blocked tasks look again.
	Wake func()
)

// Y is called before every statement.
//
//go:norace
func Y(site uint32) {
	Steps++
	Hit[site] = true
	if Steps >= Next || Trap[site] {
		if Slow != nil {
			Slow(site)
		}
	}
}

//go:norace
func cost(n int) { Steps += uint64(n) }

// Copy is copy; its cost is the number of elements.
func Copy[E any](d, s []E) int {
	n := copy(d, s)
	cost(n)
	return n
}

// Append is append of a whole slice; its cost is the number of elements added. Growth
// is taken to be amortised.
func Append[S ~[]E, E any](s S, x ...E) S {
	cost(len(x))
	return append(s, x...)
}

// MapIt iterates over a builtin map in an order the simulator chooses, with the
// language's semantics: entries removed before being reached are skipped, entries
// added during the iteration may or may not be produced.
type MapIt[K comparable, V any] struct {
	m     map[K]V
	keys  []K
	vals  []V
	i     int
	seed  uint64
	again bool
}

func mix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func order[K comparable, V any](keys []K, vals []V, seed uint64) {
	n := len(keys)
	if n < 2 {
		return
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	switch ks := any(keys).(type) {
	case []int:
		sort.Slice(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
	case []string:
		sort.Slice(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
	default:
		names := make([]string, n)
		for i := range keys {
			names[i] = fmt.Sprintf("%#v", keys[i])
		}
		sort.SliceStable(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	}
	if seed != 0 {
		s := seed
		switch mix(&s) % 4 {
		case 0: // reversed
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				idx[i], idx[j] = idx[j], idx[i]
			}
		case 1: // rotated, as the runtime often does
			r := int(mix(&s) % uint64(n))
			idx = append(append([]int{}, idx[r:]...), idx[:r]...)
		default:
			for i := n - 1; i > 0; i-- {
				j := int(mix(&s) % uint64(i+1))
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
	}
	k2 := make([]K, n)
	v2 := make([]V, n)
	for i, x := range idx {
		k2[i], v2[i] = keys[x], vals[x]
	}
	copy(keys, k2)
	copy(vals, v2)
}

// MapStart begins an iteration.
func MapStart[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V, bool) {
	it := &MapIt[K, V]{m: m}
	for k, v := range m {
		it.keys = append(it.keys, k)
		it.vals = append(it.vals, v)
	}
	if OrderSeed != nil {
		it.seed = OrderSeed()
	}
	order(it.keys, it.vals, it.seed)
	k, v, ok := it.Next()
	return it, k, v, ok
}

// Next produces the next entry.
func (it *MapIt[K, V]) Next() (K, V, bool) {
	for {
		for it.i < len(it.keys) {
			k := it.keys[it.i]
			v := it.vals[it.i]
			it.i++
			if k != k {
				return k, v, true // NaN: cannot be looked up
			}
			if cur, ok := it.m[k]; ok {
				return k, cur, true
			}
		}
		if it.again || it.seed%2 == 0 {
			break
		}
		it.again = true
		seen := make(map[K]bool, len(it.keys))
		for _, k := range it.keys {
			seen[k] = true
		}
		var nk []K
		var nv []V
		for k, v := range it.m {
			if !seen[k] && k == k {
				nk = append(nk, k)
				nv = append(nv, v)
			}
		}
		if len(nk) == 0 {
			break
		}
		order(nk, nv, it.seed)
		it.keys, it.vals, it.i = nk, nv, 0
	}
	var k K
	var v V
	return k, v, false
}
