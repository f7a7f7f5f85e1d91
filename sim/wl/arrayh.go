package wl

import (
	"strconv"

	"github.com/zyedidia/generic/array2d"
)

// arrI is an array of any type of elements, seen as numbers.
type arrI interface {
	Width() int
	Height() int
	Get(x, y int) int
	Set(x, y, v int)
	Fill(x1, y1, x2, y2, v int)
	Row(y int) arrView
	RowSpan(x1, x2, y int) arrView
	String() string
	Copy() arrI
	show(v int) string // how an element is printed
}

// arrView is a part of a row.
type arrView struct {
	n   int
	at  func(i int) int
	put func(i, v int)
}

type arrT[V any] struct {
	a array2d.Array2D[V]
	v *vcodec[V]
	s func(v int) string
}

func newArrT[V any](w, h, ctor int, jagged [][]int, v *vcodec[V], s func(v int) string) arrI {
	switch ctor {
	case 0:
		return arrT[V]{array2d.New[V](w, h), v, s}
	case 1:
		return arrT[V]{array2d.NewFilled(w, h, v.enc(7)), v, s}
	}
	var rows [][]V
	for _, r := range jagged {
		row := make([]V, len(r), len(r)+2)
		for i, x := range r {
			row[i] = v.enc(x)
		}
		rows = append(rows, row)
	}
	a := array2d.OfJagged(w, h, rows)
	for y, row := range rows {
		unchanged(len(row) == len(jagged[y]))
		for x := range row {
			unchanged(v.dec(row[x]) == jagged[y][x])
		}
		row = row[:cap(row)]
		for x := range row {
			row[x] = v.enc(-5) // the rows are the caller's
		}
	}
	return arrT[V]{a, v, s}
}

func (h arrT[V]) view(s []V) arrView {
	return arrView{len(s), func(i int) int { return h.v.dec(s[i]) }, func(i, v int) { s[i] = h.v.enc(v) }}
}

func (h arrT[V]) Width() int                    { return h.a.Width() }
func (h arrT[V]) Height() int                   { return h.a.Height() }
func (h arrT[V]) Get(x, y int) int              { return h.v.dec(h.a.Get(x, y)) }
func (h arrT[V]) Set(x, y, v int)               { h.a.Set(x, y, h.v.enc(v)) }
func (h arrT[V]) Fill(x1, y1, x2, y2, v int)    { h.a.Fill(x1, y1, x2, y2, h.v.enc(v)) }
func (h arrT[V]) Row(y int) arrView             { return h.view(h.a.Row(y)) }
func (h arrT[V]) RowSpan(x1, x2, y int) arrView { return h.view(h.a.RowSpan(x1, x2, y)) }
func (h arrT[V]) String() string                { return h.a.String() }
func (h arrT[V]) Copy() arrI                    { return arrT[V]{h.a.Copy(), h.v, h.s} }
func (h arrT[V]) show(v int) string             { return h.s(v) }

func showBlob(v int) string {
	if v == 0 {
		return "{0 [] 0}"
	}
	return "{" + strconv.Itoa(v) + " [" + strconv.Itoa(v) + "] " + strconv.Itoa(-v) + "}"
}

func showAny(v int) string {
	switch {
	case v == 0:
		return "<nil>"
	case v%3 == 1:
		return "[" + strconv.Itoa(v) + "]"
	}
	return strconv.Itoa(v)
}
