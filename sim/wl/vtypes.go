package wl

import "strconv"

// vcodec turns numbers into values of some type and back; 0 becomes the zero value.
// Some of the types can be neither compared nor used as keys.
type vcodec[V any] struct {
	enc func(int) V
	dec func(V) int
}

const garbled = -1 << 40 // what a damaged value decodes to

// blob is a value of several words that cannot be compared.
type blob struct {
	n int
	s []int
	m int
}

var (
	vInt = &vcodec[int]{func(n int) int { return n }, func(n int) int { return n }}
	vStr = &vcodec[string]{
		func(n int) string {
			if n == 0 {
				return ""
			}
			return strconv.Itoa(n)
		},
		func(s string) int {
			if s == "" {
				return 0
			}
			n, err := strconv.Atoi(s)
			if err != nil {
				return garbled
			}
			return n
		}}
	vBlob = &vcodec[blob]{
		func(n int) blob {
			if n == 0 {
				return blob{}
			}
			return blob{n, []int{n}, -n}
		},
		func(b blob) int {
			if b.n == 0 && b.s == nil && b.m == 0 {
				return 0
			}
			if len(b.s) != 1 || b.s[0] != b.n || b.m != -b.n {
				return garbled
			}
			return b.n
		}}
	vAny = &vcodec[any]{
		func(n int) any {
			switch {
			case n == 0:
				return nil
			case n%3 == 1:
				return []int{n}
			case n%3 == 2:
				return vStr.enc(n)
			}
			return n
		},
		func(a any) int {
			switch x := a.(type) {
			case nil:
				return 0
			case []int:
				return x[0]
			case string:
				return vStr.dec(x)
			case int:
				return x
			}
			return garbled
		}}
)

func (c *vcodec[V]) eq(a, b V) bool { return c.dec(a) == c.dec(b) }
func (c *vcodec[V]) junk(i int) V   { return c.enc(junkInt(i)) }
func (c *vcodec[V]) all(vs []V) []int {
	var out []int
	for _, v := range vs {
		out = append(out, c.dec(v))
	}
	return out
}

// genVal chooses the type of the values.
func genVal(g *Gen) { g.set("val", g.Pick(0, 0, 0, 1, 2, 3)) }
