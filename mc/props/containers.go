package props

import (
	"fmt"

	"github.com/lkmio/avformat/collections"

	"verifmc/canon"
	"verifmc/ex"
	"verifmc/run"
)

// tok is an opaque element: only its identity matters, which the canonical hash normalises.
type tok struct{ _ [8]byte }

type ringLike interface {
	IsEmpty() bool
	IsFull() bool
	Push(*tok)
	Pop() *tok
	Head() *tok
	Tail() *tok
	Size() int
	Capacity() int
	Data() ([]*tok, []*tok)
	Clear()
}

type seqState struct {
	r    ringLike
	q    *collections.Queue[*tok]
	list []*tok
}

func (s *seqState) check(c *ex.C, capacity int) {
	n := len(s.list)
	if s.r.Size() != n {
		c.Failf("Size()=%d, list has %d", s.r.Size(), n)
	}
	if s.r.IsEmpty() != (n == 0) {
		c.Failf("IsEmpty()=%v with %d elements", s.r.IsEmpty(), n)
	}
	if s.q == nil {
		if s.r.IsFull() != (n == capacity) {
			c.Failf("IsFull()=%v with %d of %d elements", s.r.IsFull(), n, capacity)
		}
		if s.r.Capacity() != capacity {
			c.Failf("Capacity()=%d, created with %d", s.r.Capacity(), capacity)
		}
	} else if k := s.r.Capacity(); k < n || s.r.IsFull() != (k == n) {
		c.Failf("queue of %d elements: Capacity()=%d, IsFull()=%v", n, k, s.r.IsFull())
	}
	a, b := s.r.Data()
	if len(a)+len(b) != n {
		c.Failf("Data() has %d+%d elements, list has %d", len(a), len(b), n)
	}
	for i, want := range s.list {
		var got *tok
		if i < len(a) {
			got = a[i]
		} else {
			got = b[i-len(a)]
		}
		if got != want {
			c.Failf("Data() differs from the list at %d", i)
		}
		if s.q != nil && s.q.Peek(i) != want {
			c.Failf("Peek(%d) differs from the list", i)
		}
	}
	if n > 0 {
		if s.r.Head() != s.list[0] {
			c.Failf("Head() is not the first element")
		}
		if s.r.Tail() != s.list[n-1] {
			c.Failf("Tail() is not the last element")
		}
	}
}

// refusals: an empty container has no element to show.
func (s *seqState) refusals(c *ex.C) {
	if ex.PanicMsg(func() { s.r.Head() }) == "" {
		c.Failf("Head() of an empty container returned an element")
	}
	if ex.PanicMsg(func() { s.r.Tail() }) == "" {
		c.Failf("Tail() of an empty container returned an element")
	}
	if s.q != nil {
		if ex.PanicMsg(func() { s.q.PopBack() }) == "" {
			c.Failf("PopBack() of an empty queue returned an element")
		}
		if s.r.Size() != 0 {
			c.Failf("a refused PopBack() changed the size to %d", s.r.Size())
		}
	}
}

func seqSpace(name string, capacity, maxSize int, queue bool) *ex.Space {
	names := []string{"Push", "Pop", "PopBack", "Clear", "Head, Tail, PopBack while empty"}
	b := &ex.BFS{MaxDepth: 160}
	b.New = func(c *ex.C) any {
		s := &seqState{}
		if queue {
			s.q = collections.NewQueue[*tok](capacity)
			s.r = s.q
		} else {
			s.r = collections.NewRingBuffer[*tok](capacity)
		}
		s.check(c, capacity)
		return s
	}
	b.Ops = func(x any) []int {
		s := x.(*seqState)
		r := []int{3}
		if !queue || len(s.list) < maxSize {
			r = append(r, 0)
		}
		r = append(r, 1)
		if queue && len(s.list) > 0 {
			r = append(r, 2)
		}
		if len(s.list) == 0 {
			r = append(r, 4)
		}
		return r
	}
	b.Apply = func(c *ex.C, x any, op int) {
		s := x.(*seqState)
		c.Step()
		n := len(s.list)
		switch op {
		case 0:
			t := &tok{}
			s.r.Push(t)
			if !queue && n == capacity {
				s.list = s.list[1:]
			}
			s.list = append(s.list[:len(s.list):len(s.list)], t)
		case 1:
			got := s.r.Pop()
			var want *tok
			if n > 0 {
				want, s.list = s.list[0], s.list[1:]
			}
			if got != want {
				c.Failf("Pop() returned the wrong element")
			}
		case 2:
			got := s.q.PopBack()
			if got != s.list[n-1] {
				c.Failf("PopBack() returned the wrong element")
			}
			s.list = s.list[:n-1]
		case 3:
			s.r.Clear()
			s.list = nil
		case 4:
			s.refusals(c)
		}
		s.check(c, capacity)
	}
	b.OpName = func(op int) string { return names[op] }
	b.Canon = func(x any) uint64 {
		s := x.(*seqState)
		if queue {
			return canon.Hash(s.q, s.list)
		}
		return canon.Hash(s.r, s.list)
	}
	return &ex.Space{Name: name, Bound: fmt.Sprintf("initial capacity %d, at most %d elements", capacity, maxSize), BFS: b}
}

// quietSeq: the same containers, but every observation is an operation of its own, so an observer that
// remembers something (or that repairs something) is met in every position of a history.
func quietSeq(name string, capacity, maxSize int, queue bool) *ex.Space {
	names := []string{"Push", "Pop", "PopBack", "Clear", "Head", "Tail", "Size", "IsEmpty", "IsFull", "Data", "Capacity"}
	b := &ex.BFS{MaxDepth: 160}
	b.New = func(c *ex.C) any {
		s := &seqState{}
		if queue {
			s.q = collections.NewQueue[*tok](capacity)
			s.r = s.q
		} else {
			s.r = collections.NewRingBuffer[*tok](capacity)
		}
		return s
	}
	b.Ops = func(x any) []int {
		s := x.(*seqState)
		r := []int{1, 3, 6, 7, 9}
		n := len(s.list)
		if !queue || n < maxSize {
			r = append(r, 0)
		}
		if n > 0 {
			r = append(r, 4, 5)
		}
		if queue {
			if n > 0 {
				r = append(r, 2)
			}
			for i := 0; i < n; i++ {
				r = append(r, 11+i)
			}
		} else {
			r = append(r, 8, 10)
		}
		return r
	}
	b.Apply = func(c *ex.C, x any, op int) {
		s := x.(*seqState)
		c.Step()
		n := len(s.list)
		same := func(what string, got, want *tok) {
			if got != want {
				c.Failf("%s returned the wrong element", what)
			}
		}
		switch op {
		case 0:
			t := &tok{}
			s.r.Push(t)
			if !queue && n == capacity {
				s.list = s.list[1:]
			}
			s.list = append(s.list[:len(s.list):len(s.list)], t)
		case 1:
			got := s.r.Pop()
			var want *tok
			if n > 0 {
				want, s.list = s.list[0], s.list[1:]
			}
			same("Pop()", got, want)
		case 2:
			same("PopBack()", s.q.PopBack(), s.list[n-1])
			s.list = s.list[:n-1]
		case 3:
			s.r.Clear()
			s.list = nil
		case 4:
			same("Head()", s.r.Head(), s.list[0])
		case 5:
			same("Tail()", s.r.Tail(), s.list[n-1])
		case 6:
			if got := s.r.Size(); got != n {
				c.Failf("Size()=%d, list has %d", got, n)
			}
		case 7:
			if got := s.r.IsEmpty(); got != (n == 0) {
				c.Failf("IsEmpty()=%v with %d elements", got, n)
			}
		case 8:
			if got := s.r.IsFull(); got != (n == capacity) {
				c.Failf("IsFull()=%v with %d of %d elements", got, n, capacity)
			}
		case 9:
			a, b := s.r.Data()
			if len(a)+len(b) != n {
				c.Failf("Data() has %d+%d elements, list has %d", len(a), len(b), n)
			}
			for i, want := range s.list {
				if i < len(a) {
					same("Data()", a[i], want)
				} else {
					same("Data()", b[i-len(a)], want)
				}
			}
		case 10:
			if s.r.Capacity() != capacity {
				c.Failf("Capacity()=%d, created with %d", s.r.Capacity(), capacity)
			}
		default:
			same(fmt.Sprintf("Peek(%d)", op-11), s.q.Peek(op-11), s.list[op-11])
		}
	}
	b.OpName = func(op int) string {
		if op > 10 {
			return fmt.Sprintf("Peek(%d)", op-11)
		}
		return names[op]
	}
	b.Canon = func(x any) uint64 {
		s := x.(*seqState)
		if queue {
			return canon.Hash(s.q, s.list)
		}
		return canon.Hash(s.r, s.list)
	}
	return &ex.Space{Name: name, Bound: fmt.Sprintf("initial capacity %d, at most %d elements, every observation an operation", capacity, maxSize), BFS: b}
}

// longQueue drives the queue far past several growths with a fixed small set of phase parameters.
func longQueue(th bool) *ex.Space {
	caps := []int{1, 2, 3, 64}
	ks := []int{0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 130}
	if th {
		caps = []int{1, 2, 3, 4, 5, 7, 8, 16, 31, 63, 64, 65}
	}
	return &ex.Space{Name: "queue-long", Bound: fmt.Sprintf("push a, pop b (either end), push d, drain; capacities %v, counts %v", caps, ks), Run: func(c *ex.C) {
		q := collections.NewQueue[*tok](caps[c.Choose(len(caps))])
		s := &seqState{q: q, r: q}
		a, b, d := ks[c.Choose(len(ks))], ks[c.Choose(len(ks))], ks[c.Choose(len(ks))]
		mode := c.Choose(3)
		if b > a {
			c.Skip()
		}
		c.Logf("push %d, pop %d, push %d, drain mode %d", a, b, d, mode)
		push := func(n int) {
			for i := 0; i < n; i++ {
				t := &tok{}
				q.Push(t)
				s.list = append(s.list, t)
				c.Step()
			}
			s.check(c, 0)
		}
		pop := func(back bool) {
			c.Step()
			n := len(s.list)
			if back {
				if q.PopBack() != s.list[n-1] {
					c.Failf("PopBack() returned the wrong element")
				}
				s.list = s.list[:n-1]
			} else {
				if q.Pop() != s.list[0] {
					c.Failf("Pop() returned the wrong element")
				}
				s.list = s.list[1:]
			}
		}
		push(a)
		for i := 0; i < b; i++ {
			pop(mode == 1 || mode == 2 && i%2 == 0)
		}
		s.check(c, 0)
		push(d)
		for i := 0; len(s.list) > 0; i++ {
			pop(mode == 1 || mode == 2 && i%2 == 0)
			if i%16 == 0 {
				s.check(c, 0)
			}
		}
		push(3)
	}}
}

// hugeQueue: thousands of elements.
func hugeQueue() *ex.Space {
	return &ex.Space{Name: "queue-huge", Bound: "capacities 1, 64, 1000 x 255..257, 1023..1025, 4097, 65535..65537, 140000 elements pushed after 0, 1, 200 or half as many were pushed and popped; drained from either end", Run: func(c *ex.C) {
		q := collections.NewQueue[int]([]int{1, 64, 1000}[c.Choose(3)])
		n := []int{255, 256, 257, 1023, 1024, 1025, 4097, 65535, 65536, 65537, 140000}[c.Choose(11)]
		pre := []int{0, 1, 200, n / 2}[c.Choose(4)]
		back := c.Bool()
		c.Logf("%d in and out, %d in, out from the back: %v", pre, n, back)
		c.Step()
		for i := 0; i < pre; i++ {
			q.Push(-i)
		}
		for i := 0; i < pre; i++ {
			if got := q.Pop(); got != -i {
				c.Failf("Pop() = %d, want %d", got, -i)
			}
		}
		for i := 0; i < n; i++ {
			q.Push(i)
		}
		if q.Size() != n {
			c.Failf("Size() = %d, want %d", q.Size(), n)
		}
		a, b := q.Data()
		if len(a)+len(b) != n {
			c.Failf("Data() returned %d elements, want %d", len(a)+len(b), n)
		}
		for i := 0; i < n; i++ {
			v := 0
			if i < len(a) {
				v = a[i]
			} else {
				v = b[i-len(a)]
			}
			if v != i {
				c.Failf("Data()[%d] = %d", i, v)
			}
		}
		for i := 0; i < n; i++ {
			if back {
				if got := q.PopBack(); got != n-1-i {
					c.Failf("PopBack() = %d, want %d", got, n-1-i)
				}
			} else if got := q.Pop(); got != i {
				c.Failf("Pop() = %d, want %d", got, i)
			}
		}
		if !q.IsEmpty() || q.Size() != 0 {
			c.Failf("not empty after everything was popped")
		}
	}}
}

// hugeList: thousands of elements, removals at the ends, in the middle and one by one.
func hugeList() *ex.Space {
	return &ex.Space{Name: "list-huge", Bound: "255..257, 1024, 2500 elements; every tenth, the first or the last half removed, one more added, then drained", Run: func(c *ex.C) {
		n := []int{255, 256, 257, 1024, 2500}[c.Choose(5)]
		mode := c.Choose(4)
		c.Step()
		var l collections.LinkedList[int]
		var want []int
		for i := 0; i < n; i++ {
			l.Add(i)
			want = append(want, i)
		}
		rm := func(i int) {
			if got := l.Remove(i); got != want[i] {
				c.Failf("Remove(%d) of %d = %d, want %d", i, len(want), got, want[i])
			}
			want = append(want[:i], want[i+1:]...)
		}
		for i := 0; i < n/2; i++ {
			switch mode {
			case 0:
				rm(0)
			case 1:
				rm(len(want) - 1)
			case 2:
				rm(i * 10 % len(want))
			case 3:
				rm(len(want) / 2)
			}
		}
		l.Add(-7)
		want = append(want, -7)
		if l.Size() != len(want) {
			c.Failf("Size() = %d, want %d", l.Size(), len(want))
		}
		for i, v := range want {
			if got := l.Get(i); got != v {
				c.Failf("Get(%d) = %d, want %d", i, got, v)
			}
		}
		for len(want) > 0 {
			rm(0)
		}
		l.Add(5)
		if l.Size() != 1 || l.Get(0) != 5 {
			c.Failf("an emptied list does not take an element")
		}
	}}
}

type listState struct {
	l    *collections.LinkedList[*tok]
	list []*tok
}

func listSpace(maxSize int) *ex.Space {
	b := &ex.BFS{MaxDepth: 160}
	b.New = func(c *ex.C) any { return &listState{l: &collections.LinkedList[*tok]{}} }
	// 0: Add, 1..: Remove(i-1) with i-1 up to size+1 (beyond the size: refused)
	b.Ops = func(x any) []int {
		s := x.(*listState)
		var r []int
		if len(s.list) < maxSize {
			r = append(r, 0)
		}
		for i := 0; i < len(s.list)+2; i++ {
			r = append(r, i+1)
		}
		return r
	}
	b.Apply = func(c *ex.C, x any, op int) {
		s := x.(*listState)
		c.Step()
		if op == 0 {
			t := &tok{}
			s.l.Add(t)
			s.list = append(s.list[:len(s.list):len(s.list)], t)
		} else if i := op - 1; i < len(s.list) {
			if s.l.Remove(i) != s.list[i] {
				c.Failf("Remove(%d) returned the wrong element", i)
			}
			s.list = append(append([]*tok{}, s.list[:i]...), s.list[i+1:]...)
		} else if !ex.Panics(func() { s.l.Remove(i) }) {
			c.Failf("Remove(%d) answered with %d elements", i, len(s.list))
		}
		if s.l.Size() != len(s.list) {
			c.Failf("Size()=%d, list has %d", s.l.Size(), len(s.list))
		}
		for i, t := range s.list {
			if s.l.Get(i) != t {
				c.Failf("Get(%d) returned the wrong element", i)
			}
		}
		for i := len(s.list); i < len(s.list)+2; i++ {
			if !ex.Panics(func() { s.l.Get(i) }) {
				c.Failf("Get(%d) answered with %d elements", i, len(s.list))
			}
		}
	}
	b.OpName = func(op int) string {
		if op == 0 {
			return "Add"
		}
		return fmt.Sprintf("Remove(%d)", op-1)
	}
	b.Canon = func(x any) uint64 {
		s := x.(*listState)
		return canon.Hash(s.l, s.list)
	}
	return &ex.Space{Name: "list", Bound: fmt.Sprintf("at most %d elements", maxSize), BFS: b}
}

// quietList: every observation is an operation of its own.
func quietList(maxSize int) *ex.Space {
	b := &ex.BFS{MaxDepth: 160}
	b.New = func(c *ex.C) any { return &listState{l: &collections.LinkedList[*tok]{}} }
	// 0 Add, 1 Size, 2+2i Remove(i), 3+2i Get(i), i up to the size (which is refused)
	b.Ops = func(x any) []int {
		s := x.(*listState)
		r := []int{1}
		if len(s.list) < maxSize {
			r = append(r, 0)
		}
		for i := 0; i <= len(s.list); i++ {
			r = append(r, 2+2*i, 3+2*i)
		}
		return r
	}
	b.Apply = func(c *ex.C, x any, op int) {
		s := x.(*listState)
		c.Step()
		i := op/2 - 1
		switch {
		case op == 0:
			t := &tok{}
			s.l.Add(t)
			s.list = append(s.list[:len(s.list):len(s.list)], t)
		case op == 1:
			if s.l.Size() != len(s.list) {
				c.Failf("Size()=%d, list has %d", s.l.Size(), len(s.list))
			}
		case op%2 == 0 && i == len(s.list):
			if !ex.Panics(func() { s.l.Remove(i) }) {
				c.Failf("Remove(%d) answered with %d elements", i, len(s.list))
			}
		case i == len(s.list):
			if !ex.Panics(func() { s.l.Get(i) }) {
				c.Failf("Get(%d) answered with %d elements", i, len(s.list))
			}
		case op%2 == 0:
			if s.l.Remove(i) != s.list[i] {
				c.Failf("Remove(%d) returned the wrong element", i)
			}
			s.list = append(append([]*tok{}, s.list[:i]...), s.list[i+1:]...)
		default:
			if s.l.Get(i) != s.list[i] {
				c.Failf("Get(%d) returned the wrong element", i)
			}
		}
	}
	b.OpName = func(op int) string {
		switch {
		case op < 2:
			return []string{"Add", "Size"}[op]
		case op%2 == 0:
			return fmt.Sprintf("Remove(%d)", op/2-1)
		}
		return fmt.Sprintf("Get(%d)", op/2-1)
	}
	b.Canon = func(x any) uint64 {
		s := x.(*listState)
		return canon.Hash(s.l, s.list)
	}
	return &ex.Space{Name: "list-quiet", Bound: fmt.Sprintf("at most %d elements, every observation an operation", maxSize), BFS: b}
}

// longList removes at every pair of positions of long lists and appends in between.
func longList(th bool) *ex.Space {
	max := 40
	if th {
		max = 140
	}
	return &ex.Space{Name: "list-long", Bound: fmt.Sprintf("n<=%d appends, remove at every i, append, remove at every j, append", max), Run: func(c *ex.C) {
		n := 1 + c.Choose(max)
		var l collections.LinkedList[*tok]
		var list []*tok
		add := func() {
			t := &tok{}
			l.Add(t)
			list = append(list, t)
			c.Step()
		}
		rm := func(i int) {
			c.Step()
			c.Logf("Remove(%d) of %d", i, len(list))
			if l.Remove(i) != list[i] {
				c.Failf("Remove(%d) returned the wrong element", i)
			}
			list = append(append([]*tok{}, list[:i]...), list[i+1:]...)
		}
		check := func() {
			if l.Size() != len(list) {
				c.Failf("Size()=%d, list has %d", l.Size(), len(list))
			}
			for i, t := range list {
				if l.Get(i) != t {
					c.Failf("Get(%d) returned the wrong element", i)
				}
			}
		}
		for i := 0; i < n; i++ {
			add()
		}
		rm(c.Choose(n))
		check()
		add()
		rm(c.Choose(n))
		add()
		check()
	}}
}

func init() {
	run.Register(&run.Prop{ID: "C03", Spaces: func(th bool) []*ex.Space {
		var r []*ex.Space
		m := 8
		if th {
			m = 10
		}
		for _, n := range []int{1, 2, 3, 4, 5} {
			r = append(r, seqSpace(fmt.Sprintf("queue-cap%d", n), n, m, true))
		}
		for n := 1; n <= m; n++ {
			r = append(r, seqSpace(fmt.Sprintf("ring-cap%d", n), n, n, false))
		}
		for _, n := range []int{1, 2, 3} {
			r = append(r, quietSeq(fmt.Sprintf("queue-quiet-cap%d", n), n, m-2, true))
		}
		for n := 1; n <= 4; n++ {
			r = append(r, quietSeq(fmt.Sprintf("ring-quiet-cap%d", n), n, n, false))
		}
		return append(r, longQueue(th), hugeQueue())
	}, Assumptions: []string{"elements are opaque to the containers (they are generic), so element identity is the only data"}})
	run.Register(&run.Prop{ID: "C04", Spaces: func(th bool) []*ex.Space {
		m := 14
		if th {
			m = 40
		}
		return []*ex.Space{listSpace(m), quietList(m), longList(th), hugeList()}
	}, Assumptions: []string{"elements are opaque (generic type)"}})
}
