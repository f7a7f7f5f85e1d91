package wl

import (
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/stack"
)

// queueI is a queue of any type of items, seen as numbers.
type queueI interface {
	Enqueue(v int)
	Dequeue() int
	TryDequeue() (int, bool)
	DequeueAll(t *Task, op *Op) []int
	Peek() int
	TryPeek() (int, bool)
	PeekAll(t *Task, op *Op) []int
	Len() int
	Empty() bool
	Clear()
	Each(fn func(v int))
	Copy() queueI
}

type queueT[V any] struct {
	q *queue.Queue[V]
	v *vcodec[V]
}

// newQueueT makes a queue, of the items if there are any.
func newQueueT[V any](v *vcodec[V], items []int) queueI {
	if len(items) == 0 {
		return queueT[V]{queue.New[V](), v}
	}
	src := make([]V, len(items), len(items)+3)
	for i, x := range items {
		src[i] = v.enc(x)
	}
	q := queue.Of(src)
	for i, x := range items {
		unchanged(v.dec(src[i]) == x)
	}
	src = src[:cap(src)]
	for i := range src {
		src[i] = v.enc(-9) // the caller's slice is the caller's
	}
	return queueT[V]{q, v}
}

func (h queueT[V]) one(v V, ok bool) (int, bool) { return h.v.dec(v), ok }

func (h queueT[V]) all(t *Task, op *Op, name string, got []V) []int {
	keepSlice(t, op, name, got, h.v.eq, h.v.junk)
	return h.v.all(got)
}

func (h queueT[V]) Enqueue(v int)                 { h.q.Enqueue(h.v.enc(v)) }
func (h queueT[V]) Dequeue() int                  { return h.v.dec(h.q.Dequeue()) }
func (h queueT[V]) TryDequeue() (int, bool)       { return h.one(h.q.TryDequeue()) }
func (h queueT[V]) Peek() int                     { return h.v.dec(h.q.Peek()) }
func (h queueT[V]) TryPeek() (int, bool)          { return h.one(h.q.TryPeek()) }
func (h queueT[V]) Len() int                      { return h.q.Len() }
func (h queueT[V]) Empty() bool                   { return h.q.Empty() }
func (h queueT[V]) Clear()                        { h.q.Clear() }
func (h queueT[V]) Each(fn func(v int))           { h.q.Each(func(v V) { fn(h.v.dec(v)) }) }
func (h queueT[V]) Copy() queueI                  { return queueT[V]{h.q.Copy(), h.v} }
func (h queueT[V]) PeekAll(t *Task, op *Op) []int { return h.all(t, op, "PeekAll", h.q.PeekAll()) }
func (h queueT[V]) DequeueAll(t *Task, op *Op) []int {
	return h.all(t, op, "DequeueAll", h.q.DequeueAll())
}

// stackI is a stack of any type of items, seen as numbers.
type stackI interface {
	Push(v int)
	Pop() int
	Peek() int
	Size() int
	Copy() stackI
}

type stackT[V any] struct {
	s *stack.Stack[V]
	v *vcodec[V]
}

func newStackT[V any](v *vcodec[V]) stackI { return stackT[V]{stack.New[V](), v} }

func (h stackT[V]) Push(v int)   { h.s.Push(h.v.enc(v)) }
func (h stackT[V]) Pop() int     { return h.v.dec(h.s.Pop()) }
func (h stackT[V]) Peek() int    { return h.v.dec(h.s.Peek()) }
func (h stackT[V]) Size() int    { return h.s.Size() }
func (h stackT[V]) Copy() stackI { return stackT[V]{h.s.Copy(), h.v} }
