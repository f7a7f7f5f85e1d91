package wl

import (
	"strconv"

	g "github.com/zyedidia/generic"
	"verifsim/engine"
)

// tagged is a key of which only id takes part in comparisons.
type tagged struct{ id, tag int }

// codec maps small ids to keys of some type and supplies the user callbacks.
type codec[K any] struct {
	enc    func(id, tag int) K
	dec    func(K) int
	hash   func(K) uint64
	equals func(a, b K) bool
	less   func(a, b K) bool
	cmp    func(a, b int) bool // the same order on ids
}

var perm, wide = shuffled(4096), shuffled(1 << 16)

func shuffled(n int) []int {
	p := make([]int, n)
	r := engine.NewRng(77)
	for i := range p {
		p[i] = i
	}
	for i := len(p) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// orderOf gives the position of an id in the chosen order.
func orderOf(kind, id int) int {
	switch kind % 4 {
	case 1:
		return -id
	case 2:
		return wide[id&65535]
	case 3:
		return id ^ 5
	}
	return id
}

func finish[K any](c *codec[K], ord, hashKind int, nat func(K) uint64) *codec[K] {
	c.cmp = func(a, b int) bool { return orderOf(ord, a) < orderOf(ord, b) }
	dec := c.dec
	c.less = func(a, b K) bool {
		engine.CB()
		return orderOf(ord, dec(a)) < orderOf(ord, dec(b))
	}
	c.equals = func(a, b K) bool {
		engine.CB()
		return dec(a) == dec(b)
	}
	c.hash = func(k K) uint64 {
		engine.CB()
		id := dec(k)
		switch hashKind % 9 {
		case 1:
			return 0
		case 2:
			return uint64(id % 3)
		case 3:
			return uint64(id)
		case 4:
			return uint64(id) << 56
		case 5:
			return ^uint64(id)
		case 6:
			return uint64(id)*8 - 1
		case 7:
			return ^uint64(0) - uint64(id%2)
		case 8:
			return uint64(id/4) * 3
		}
		return nat(k)
	}
	return c
}

func intCodec(variant, ord, hk int) *codec[int] {
	c := &codec[int]{}
	switch variant % 4 {
	case 0:
		c.enc = func(id, _ int) int { return id }
		c.dec = func(k int) int { return k }
	case 1:
		c.enc = func(id, _ int) int { return id - 8 }
		c.dec = func(k int) int { return k + 8 }
	case 2:
		c.enc = func(id, _ int) int { return id << 32 }
		c.dec = func(k int) int { return k >> 32 }
	case 3:
		c.enc = func(id, _ int) int { return -id }
		c.dec = func(k int) int { return -k }
	}
	return finish(c, ord, hk, g.HashInt)
}

func strCodec(variant, ord, hk int) *codec[string] {
	c := &codec[string]{}
	prefix := []string{"", "k", "a rather long common prefix \x00\xff"}[variant%3]
	n := len(prefix)
	if n == 0 {
		c.enc = func(id, _ int) string {
			if id == 0 {
				return ""
			}
			return strconv.Itoa(id)
		}
		c.dec = func(k string) int { i, _ := strconv.Atoi(k); return i }
	} else {
		c.enc = func(id, _ int) string { return prefix + strconv.Itoa(id) }
		c.dec = func(k string) int {
			if len(k) < n {
				return -1 // a zero key made by the container itself
			}
			i, _ := strconv.Atoi(k[n:])
			return i
		}
	}
	return finish(c, ord, hk, g.HashString)
}

func tagCodec(ord, hk int) *codec[tagged] {
	c := &codec[tagged]{
		enc: func(id, tag int) tagged { return tagged{id, tag & 3} },
		dec: func(k tagged) int { return k.id },
	}
	return finish(c, ord, hk, func(k tagged) uint64 { return g.HashInt(k.id) })
}

// bagKey is a key that cannot be compared by the language.
type bagKey struct {
	id []int
	f  func()
}

func bagCodec(ord, hk int) *codec[bagKey] {
	c := &codec[bagKey]{
		enc: func(id, tag int) bagKey { return bagKey{[]int{id, tag}, nil} },
		dec: func(k bagKey) int {
			if len(k.id) == 0 {
				return -1 // a zero key made by the container itself
			}
			return k.id[0]
		},
	}
	return finish(c, ord, hk, func(k bagKey) uint64 { return g.HashInt(c.dec(k)) })
}
