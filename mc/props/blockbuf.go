package props

import (
	"bytes"
	"fmt"

	"github.com/lkmio/avformat/collections"

	"verifmc/canon"
	"verifmc/ex"
	"verifmc/run"
)

// bb is one block buffer with its reference model.
type bb struct {
	real   collections.BlockBuffer
	blocks []*blk
	sealed bool
	virgin bool   // nothing released since the last clear
	all    []byte // concatenation of everything written since then
}

type blk struct {
	want []byte
	got  []byte // slice returned by Fetch
	done bool
}

type bbState struct {
	lcg   uint32
	bufs  []*bb
	seq   byte
	split int
	lin   bool // linear buffer (C02)
	quiet bool // the observers are operations of their own
}

const (
	opWrite = iota
	opAlloc
	opFetch
	opPop
	opPopBack
	opClear
	opSplit
	opPending
	opSize
	opAvail
	opData
)

func fill(s *bbState, n int) []byte {
	b := make([]byte, n)
	if n > 64 { // long blocks: no short period, different in every block
		for i := range b {
			s.lcg = s.lcg*1664525 + 1013904223
			b[i] = byte(s.lcg >> 24)
		}
		return b
	}
	for i := range b {
		s.seq++
		b[i] = s.seq
	}
	return b
}

func (s *bbState) check(c *ex.C) {
	for i, b := range s.bufs {
		for j, k := range b.blocks {
			if k.done && !bytes.Equal(k.got, k.want) {
				c.Failf("buffer %d: held block %d changed: is %v, written %v", i, j, k.got, k.want)
			}
		}
		if s.quiet || b.sealed {
			continue
		}
		s.pending(c, i)
		if s.lin && b.virgin {
			s.data(c, i)
		}
	}
}

func (s *bbState) pending(c *ex.C, i int) {
	b, want := s.bufs[i], 0
	if n := len(b.blocks); n > 0 && !b.blocks[n-1].done {
		want = len(b.blocks[n-1].want)
	}
	if got := b.real.PendingBlockSize(); got != want {
		c.Failf("buffer %d: PendingBlockSize=%d, %d bytes were written to the unfinished block", i, got, want)
	}
}

func (s *bbState) data(c *ex.C, i int) {
	b := s.bufs[i]
	d := b.real.(interface{ Data() []byte }).Data()
	if !bytes.Equal(d, b.all) {
		c.Failf("buffer %d: Data()=%v, everything written is %v", i, d, b.all)
	}
}

// apply runs op on buffer i and on the model.
func (s *bbState) apply(c *ex.C, i, op, n int) {
	b := s.bufs[i]
	c.Step()
	if b.sealed && op != opClear {
		var m string
		switch op {
		case opWrite:
			m = ex.PanicMsg(func() { b.real.Write(fill(s, n)) })
		case opAlloc:
			m = ex.PanicMsg(func() { b.real.Alloc(n) })
		case opFetch:
			m = ex.PanicMsg(func() { b.real.Fetch() })
		case opPop:
			m = ex.PanicMsg(func() { b.real.Pop() })
		case opPopBack:
			m = ex.PanicMsg(func() { b.real.PopBack() })
		}
		if m == "" {
			c.Failf("buffer %d was split off and still accepts operation %s", i, opNames[op])
		}
		s.check(c)
		return
	}
	switch op {
	case opWrite, opAlloc:
		d := fill(s, n)
		if l := len(b.blocks); l == 0 || b.blocks[l-1].done {
			b.blocks = append(b.blocks, &blk{})
		}
		k := b.blocks[len(b.blocks)-1]
		k.want = append(k.want, d...)
		b.all = append(b.all, d...)
		if op == opWrite {
			b.real.Write(append([]byte{}, d...))
		} else {
			m := b.real.Alloc(n)
			if len(m) != n {
				c.Failf("Alloc(%d) returned %d bytes", n, len(m))
			}
			copy(m, d)
		}
	case opFetch:
		got := b.real.Fetch()
		var k *blk
		if n := len(b.blocks); n > 0 {
			k = b.blocks[n-1]
		}
		if k == nil || k.done {
			if got != nil {
				c.Failf("Fetch without an unfinished block returned %v", got)
			}
			break
		}
		k.done, k.got = true, got
		if !bytes.Equal(got, k.want) {
			c.Failf("Fetch returned %v, written %v", got, k.want)
		}
	case opPop:
		b.real.Pop()
		b.blocks = b.blocks[1:]
		b.virgin = false
	case opPopBack:
		b.real.PopBack()
		b.blocks = b.blocks[:len(b.blocks)-1]
		b.virgin = false
	case opClear:
		b.real.Clear()
		b.blocks, b.sealed, b.virgin, b.all = nil, false, true, nil
	case opSplit:
		free := b.real.AvailableBytes()
		nb := &bb{real: b.real.SplitOff(), virgin: true}
		b.sealed = true
		s.split++
		if s.lin {
			if got := nb.real.AvailableBytes(); got != free {
				c.Failf("the new buffer owns %d bytes, the old one had %d free", got, free)
			}
		}
		if nb.real.Size() != 0 {
			c.Failf("the new buffer is not empty")
		}
		s.bufs = append(s.bufs, nb)
	case opPending:
		s.pending(c, i)
	case opSize:
		b.real.Size()
	case opAvail:
		b.real.AvailableBytes()
	case opData:
		s.data(c, i)
	}
	s.check(c)
}

var opNames = []string{"Write", "Alloc", "Fetch", "Pop", "PopBack", "Clear", "SplitOff", "PendingBlockSize", "Size", "AvailableBytes", "Data"}

func bbBFS(name string, mk func() collections.BlockBuffer, lin bool, sizes, allocs []int, maxBlocks, maxSplit, depth int) *ex.Space {
	// operation code: buffer*1000 + kind*10 + size index
	b := &ex.BFS{MaxDepth: depth}
	b.New = func(c *ex.C) any {
		return &bbState{bufs: []*bb{{real: mk(), virgin: true}}, lin: lin}
	}
	b.Ops = func(x any) []int {
		s := x.(*bbState)
		var r []int
		for i, q := range s.bufs {
			add := func(k, n int) { r = append(r, i*1000+k*10+n) }
			if q.sealed {
				add(opWrite, 0)
				add(opFetch, 0)
				add(opPop, 0)
				add(opPopBack, 0)
				add(opClear, 0)
				continue
			}
			room := len(q.blocks) < maxBlocks || !q.blocks[len(q.blocks)-1].done
			if room {
				for j := range sizes {
					add(opWrite, j)
				}
				for j := range allocs {
					add(opAlloc, j)
				}
			}
			add(opFetch, 0)
			if n := len(q.blocks); n > 0 {
				add(opPop, 0)
				add(opPopBack, 0)
			}
			add(opClear, 0)
			if s.split < maxSplit {
				add(opSplit, 0)
			}
			if s.quiet {
				add(opPending, 0)
				add(opSize, 0)
				add(opAvail, 0)
				if s.lin && q.virgin {
					add(opData, 0)
				}
			}
		}
		return r
	}
	size := func(k, j int) int {
		if k == opWrite {
			return sizes[j]
		} else if k == opAlloc {
			return allocs[j]
		}
		return 0
	}
	b.Apply = func(c *ex.C, x any, op int) {
		k := op / 10 % 100
		x.(*bbState).apply(c, op/1000, k, size(k, op%10))
	}
	b.OpName = func(op int) string {
		k := op / 10 % 100
		s := fmt.Sprintf("b%d.%s", op/1000, opNames[k])
		if k <= opAlloc {
			s += fmt.Sprintf("(%d)", size(k, op%10))
		}
		return s
	}
	b.Canon = func(x any) uint64 {
		s := x.(*bbState)
		var roots []any
		for _, q := range s.bufs {
			roots = append(roots, q.real, q.sealed, q.virgin, len(q.blocks))
			for _, k := range q.blocks {
				roots = append(roots, k.done, len(k.want), k.got)
			}
		}
		return canon.Hash(roots...)
	}
	return &ex.Space{Name: name, Bound: fmt.Sprintf("write sizes %v, alloc sizes %v, at most %d blocks, %d splits", sizes, allocs, maxBlocks, maxSplit), BFS: b}
}

// bbQuiet: the observers (PendingBlockSize, Size, AvailableBytes, Data) are operations of their own, so
// one that remembers or repairs something is met in every position of a history.
func bbQuiet(name string, mk func() collections.BlockBuffer, lin bool, sizes, allocs []int, maxBlocks, maxSplit, depth int) *ex.Space {
	sp := bbBFS(name, mk, lin, sizes, allocs, maxBlocks, maxSplit, depth)
	nw := sp.BFS.New
	sp.BFS.New = func(c *ex.C) any {
		s := nw(c).(*bbState)
		s.quiet = true
		return s
	}
	sp.Bound += ", every observation an operation"
	return sp
}

// bbTree: every history of the same operations, no two of them merged (the canonical states above leave
// the payload bytes out; here a remembered copy of some of them counts too).
func bbTree(name string, mk func() collections.BlockBuffer, lin bool, depth int) *ex.Space {
	sizes, allocs := []int{1, 4}, []int{2}
	sp := bbQuiet(name, mk, lin, sizes, allocs, 9, 1, depth)
	b := sp.BFS
	sp.BFS = nil
	sp.Bound = fmt.Sprintf("every history of %d operations, observers among them (write 1 or 4, allocate 2 bytes, 1 split), no states merged", depth)
	sp.Run = func(c *ex.C) {
		s := b.New(c)
		for i := 0; i < depth; i++ {
			ops := b.Ops(s)
			op := ops[c.Choose(len(ops))]
			if c.Tracing() {
				c.Logf("%s", b.OpName(op))
			}
			b.Apply(c, s, op)
		}
	}
	return sp
}

// manyBlocks drives more blocks than the internal queue's initial capacity.
func manyBlocks(name string, mk func(int) collections.BlockBuffer, lin, thorough bool) *ex.Space {
	pops := []int{0, 1, 5, 20, 33, 63, 64}
	if thorough {
		pops = nil
		for i := 0; i <= 64; i++ {
			pops = append(pops, i)
		}
	}
	n1s := []int{62, 63, 64, 65, 66, 130}
	n2s := []int{1, 2, 7, 40, 63, 64, 65, 70, 129}
	caps := []int{16, 64, 100, 190, 200, 1000}
	return &ex.Space{Name: name, Bound: "62..130 blocks, pops, refill, drain from either end; capacities 16..1000", Run: func(c *ex.C) {
		capacity := caps[c.Choose(len(caps))]
		st := &bbState{bufs: []*bb{{real: mk(capacity), virgin: true}}, lin: lin}
		n1, p, n2 := n1s[c.Choose(len(n1s))], pops[c.Choose(len(pops))], n2s[c.Choose(len(n2s))]
		step, mode := 1+c.Choose(3), c.Choose(3)
		c.Logf("capacity %d, %d blocks, pop %d, %d more, size step %d, drain mode %d", capacity, n1, p, n2, step, mode)
		if p > n1 {
			c.Skip()
		}
		put := func(k int) {
			for i := 0; i < k; i++ {
				st.apply(c, 0, opWrite, 1+(i*step)%4)
				if i%5 == 4 {
					st.apply(c, 0, opWrite, 2)
				}
				st.apply(c, 0, opFetch, 0)
			}
		}
		put(n1)
		for i := 0; i < p; i++ {
			st.apply(c, 0, opPop, 0)
		}
		put(n2)
		for i := 0; len(st.bufs[0].blocks) > 0; i++ {
			if mode == 0 || mode == 2 && i%2 == 0 {
				st.apply(c, 0, opPop, 0)
			} else {
				st.apply(c, 0, opPopBack, 0)
			}
		}
		put(3)
	}}
}

// bigBlocks drives blocks of realistic sizes.
func bigBlocks(name string, mk func(int) collections.BlockBuffer, lin bool, d int) *ex.Space {
	caps := []int{300, 1 << 16, 1 << 20}
	sizes := [][]int{{1, 127, 128, 255, 256, 257, 300}, {1, 256, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1}, {1 << 16, 1 << 19, 1<<20 - 1, 1<<20 + 1}}
	return &ex.Space{Name: name, Bound: fmt.Sprintf("capacities 300, 64 kB, 1 MB x every sequence of %d (4, 3) blocks of %v bytes (written in one or two parts) and releases at either end", d, sizes), Run: func(c *ex.C) {
		k := c.Choose(len(caps))
		st := &bbState{bufs: []*bb{{real: mk(caps[k]), virgin: true}}, lin: lin}
		sz := sizes[k]
		for i := 0; i < d-k; i++ {
			n := len(sz) + 1
			if len(st.bufs[0].blocks) > 0 {
				n += 2
			}
			o := c.Choose(n)
			switch {
			case o < len(sz):
				c.Logf("block of %d", sz[o])
				st.apply(c, 0, opWrite, sz[o])
				st.apply(c, 0, opFetch, 0)
			case o == len(sz):
				c.Logf("block of %d+%d", caps[k]/3, caps[k]/2)
				st.apply(c, 0, opWrite, caps[k]/3)
				st.apply(c, 0, opAlloc, caps[k]/2)
				st.apply(c, 0, opFetch, 0)
			case o == len(sz)+1:
				st.apply(c, 0, opPop, 0)
			default:
				st.apply(c, 0, opPopBack, 0)
			}
		}
	}}
}

func init() {
	rb := func(n int) func() collections.BlockBuffer {
		return func() collections.BlockBuffer { return collections.NewRBBlockBuffer(n) }
	}
	run.Register(&run.Prop{ID: "C01", Spaces: func(th bool) []*ex.Space {
		d := 0
		if th {
			d = 3
		}
		return []*ex.Space{
			bbBFS("rb-cap10", rb(10), false, []int{1, 3, 4}, []int{2}, 4, 0, 10+d),
			bbBFS("rb-cap8", rb(8), false, []int{2, 4}, nil, 5, 0, 12+d),
			bbBFS("rb-cap6-all-sizes", rb(6), false, []int{0, 1, 2, 3, 5, 7}, nil, 3, 0, 8+d),
			bbBFS("rb-cap1", rb(1), false, []int{1, 2}, nil, 4, 0, 10+d),
			bbBFS("rb-split", rb(8), false, []int{1, 3, 4}, nil, 3, 1, 7+d),
			bbQuiet("rb-quiet", rb(8), false, []int{1, 4}, []int{2}, 3, 1, 8+d),
			bbTree("rb-tree", rb(7), false, 5+b2i(th)),
			manyBlocks("rb-many-blocks", func(n int) collections.BlockBuffer { return collections.NewRBBlockBuffer(n) }, false, th),
			bigBlocks("rb-big-blocks", func(n int) collections.BlockBuffer { return collections.NewRBBlockBuffer(n) }, false, 5+b2i(th)),
		}
	}, Assumptions: []string{"data independence: block payloads are opaque to the buffer, so each history is run with one distinct byte pattern per block", "a buffer operation is used from one goroutine at a time (the type has no synchronisation)"}})
	dir := func(n int) func() collections.BlockBuffer {
		return func() collections.BlockBuffer { return collections.NewDirectBlockBuffer(n) }
	}
	run.Register(&run.Prop{ID: "C02", Spaces: func(th bool) []*ex.Space {
		d := 0
		if th {
			d = 2
		}
		return []*ex.Space{
			bbBFS("linear-cap8", dir(8), true, []int{1, 3, 5}, []int{2}, 4, 0, 9+d),
			bbBFS("linear-split", dir(8), true, []int{1, 3}, nil, 2, 1, 8+d),
			bbBFS("linear-split-twice", dir(6), true, []int{2, 5}, nil, 2, 2, 7+d),
			bbBFS("linear-cap2-all-sizes", dir(2), true, []int{0, 1, 2, 3, 7}, []int{4}, 3, 1, 6+d),
			bbQuiet("linear-quiet", dir(7), true, []int{1, 4}, []int{2}, 3, 1, 8+d),
			bbTree("linear-tree", dir(6), true, 5+b2i(th)),
			manyBlocks("linear-many-blocks", func(n int) collections.BlockBuffer { return collections.NewDirectBlockBuffer(n) }, true, th),
			bigBlocks("linear-big-blocks", func(n int) collections.BlockBuffer { return collections.NewDirectBlockBuffer(n) }, true, 5+b2i(th)),
		}
	}, Assumptions: []string{"data independence as in C01", "single-threaded use"}})
}
