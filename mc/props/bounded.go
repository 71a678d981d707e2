package props

import (
	"fmt"
	"reflect"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

// footprint is what an object keeps reachable: bytes of distinct byte arrays, and other cells
// (slice slots, map entries, pointed-to objects).
type footprint struct {
	bytes, cells int
	ends         map[uintptr]uintptr // end of a byte array -> lowest start seen
	seen         map[uintptr]bool
}

func measure(roots ...any) (bytes, cells int) {
	f := &footprint{ends: map[uintptr]uintptr{}, seen: map[uintptr]bool{}}
	for _, r := range roots {
		f.visit(reflect.ValueOf(r))
	}
	for e, s := range f.ends {
		f.bytes += int(e - s)
	}
	return f.bytes, f.cells
}

func (f *footprint) visit(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		// iterative along chains of nodes: lists can be long
		for !v.IsNil() && !f.seen[v.Pointer()] {
			f.seen[v.Pointer()] = true
			f.cells++
			e := v.Elem()
			if e.Kind() != reflect.Struct {
				f.visit(e)
				return
			}
			var next reflect.Value
			for i := 0; i < e.NumField(); i++ {
				if x := e.Field(i); x.Kind() == reflect.Pointer && x.Type() == v.Type() && !next.IsValid() {
					next = x
				} else {
					f.visit(x)
				}
			}
			if !next.IsValid() {
				return
			}
			v = next
		}
	case reflect.Interface:
		if !v.IsNil() {
			f.visit(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f.visit(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.visit(v.Index(i))
		}
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			p := v.Pointer()
			e := p + uintptr(v.Cap())
			if s, ok := f.ends[e]; !ok || p < s {
				f.ends[e] = p
			}
			return
		}
		f.cells += v.Cap()
		for i := 0; i < v.Len(); i++ {
			f.visit(v.Index(i))
		}
	case reflect.Map:
		f.cells += v.Len()
		for _, k := range v.MapKeys() {
			f.visit(k)
			f.visit(v.MapIndex(k))
		}
	}
}

const slack = 8 // a growth policy may over-allocate by this factor

// lasso: a prefix of operations, then a cycle repeated many times.
type lassoOps struct {
	n     int
	name  func(op int) string
	do    func(op int) // op 0..n-1
	ok    func(op int) bool
	size  func() int // held elements, must be the same at both ends of the cycle
	start func()     // the cycle begins
}

func lasso(c *ex.C, o *lassoOps, prefix, cycle, times int) {
	np := c.Choose(prefix + 1)
	nc := 1 + c.Choose(cycle)
	var ops []int
	step := func(op int) {
		if !o.ok(op) {
			c.Skip()
		}
		o.do(op)
		c.Step()
	}
	for i := 0; i < np; i++ {
		op := c.Choose(o.n)
		c.Logf("prefix: %s", o.name(op))
		step(op)
	}
	at := o.size()
	if o.start != nil {
		o.start()
	}
	for i := 0; i < nc; i++ {
		op := c.Choose(o.n)
		c.Logf("cycle: %s", o.name(op))
		ops = append(ops, op)
		step(op)
	}
	if o.size() != at {
		c.Skip()
	}
	for k := 1; k < times; k++ {
		for _, op := range ops {
			step(op)
		}
	}
}

func ringLasso(c *ex.C, times, cycle int) {
	capacity := []int{1, 6, 40}[c.Choose(3)]
	sizes := []int{1, 3, 8}
	q := collections.NewRBBlockBuffer(capacity)
	var held []int
	most, sum := 0, 0
	o := &lassoOps{n: len(sizes) + 3, size: func() int { return len(held) }}
	o.name = func(op int) string {
		if op < len(sizes) {
			return fmt.Sprintf("block of %d", sizes[op])
		}
		return []string{"release the first", "release the last", "clear"}[op-len(sizes)]
	}
	o.ok = func(op int) bool { return op < len(sizes) || op == len(sizes)+2 || len(held) > 0 }
	o.do = func(op int) {
		switch {
		case op < len(sizes):
			q.Write(make([]byte, sizes[op]))
			q.Fetch()
			held = append(held, sizes[op])
			sum += sizes[op]
			most = max(most, sum)
		case op == len(sizes):
			q.Pop()
			sum -= held[0]
			held = held[1:]
		case op == len(sizes)+1:
			q.PopBack()
			sum -= held[len(held)-1]
			held = held[:len(held)-1]
		default:
			q.Clear()
			held, sum = nil, 0
		}
	}
	lasso(c, o, 3, cycle, times)
	if b, n := measure(q); b > slack*(capacity+most+8) || n > slack*(64+8*len(held)) {
		c.Failf("a ring of %d bytes whose user never held more than %d keeps %d bytes and %d cells after %d rounds", capacity, most, b, n, times)
	}
}

func linearLasso(c *ex.C, times, cycle int) {
	capacity := []int{1, 6, 40}[c.Choose(3)]
	sizes := []int{1, 3, 8}
	q := collections.NewDirectBlockBuffer(capacity)
	n, content, most := 0, 0, 0
	emptied := false
	o := &lassoOps{n: len(sizes) + 3, size: func() int { return n }}
	o.name = func(op int) string {
		if op < len(sizes) {
			return fmt.Sprintf("block of %d", sizes[op])
		}
		return []string{"release the first", "release the last", "clear"}[op-len(sizes)]
	}
	o.ok = func(op int) bool { return op < len(sizes) || op == len(sizes)+2 || n > 0 }
	o.do = func(op int) {
		switch {
		case op < len(sizes):
			free := q.AvailableBytes()
			before, _ := measure(q)
			q.Write(make([]byte, sizes[op]))
			q.Fetch()
			n++
			content += sizes[op]
			most = max(most, content)
			if after, _ := measure(q); free >= sizes[op] && after != before {
				c.Failf("%d bytes were available and writing %d changed the memory from %d to %d bytes", free, sizes[op], before, after)
			}
		case op == len(sizes):
			q.Pop()
			n--
		case op == len(sizes)+1:
			q.PopBack()
			n--
		default:
			q.Clear()
			n = 0
		}
		if n == 0 {
			emptied = true
			content = 0
			if free := q.AvailableBytes(); free < capacity || free < most {
				c.Failf("an empty buffer reports %d available bytes, it was created with %d and held %d", free, capacity, most)
			}
		}
	}
	o.start = func() { emptied = false }
	lasso(c, o, 2, cycle, times)
	if !emptied {
		c.Skip() // never emptied while cycling: growth is what the buffer promises
	}
	if b, k := measure(q); b > slack*(capacity+most+8) || k > slack*(64+8*n) {
		c.Failf("a linear buffer of %d bytes that is regularly emptied and never held more than %d keeps %d bytes and %d cells after %d rounds", capacity, most, b, k, times)
	}
}

func queueLasso(c *ex.C, times, cycle int) {
	capacity := 1 + c.Choose(3)
	q := collections.NewQueue[*tok](capacity)
	n, most := 0, 0
	o := &lassoOps{n: 4, size: func() int { return n }}
	o.name = func(op int) string { return []string{"push", "pop", "pop back", "clear"}[op] }
	o.ok = func(op int) bool { return op == 0 || op == 3 || n > 0 }
	o.do = func(op int) {
		switch op {
		case 0:
			q.Push(&tok{})
			n++
			most = max(most, n)
		case 1:
			q.Pop()
			n--
		case 2:
			q.PopBack()
			n--
		default:
			q.Clear()
			n = 0
		}
	}
	lasso(c, o, 4, cycle, times)
	if _, k := measure(q); k > slack*(capacity+2*most+4) {
		c.Failf("a queue that never held more than %d elements keeps %d cells after %d rounds", most, k, times)
	}
}

func listLasso(c *ex.C, times, cycle int) {
	l := &collections.LinkedList[*tok]{}
	n, most := 0, 0
	o := &lassoOps{n: 4, size: func() int { return n }}
	o.name = func(op int) string { return []string{"add", "remove first", "remove last", "remove middle"}[op] }
	o.ok = func(op int) bool { return op == 0 || n > 0 }
	o.do = func(op int) {
		if op == 0 {
			l.Add(&tok{})
			n++
			most = max(most, n)
			return
		}
		l.Remove([]int{0, 0, n - 1, n / 2}[op])
		n--
	}
	lasso(c, o, 4, cycle, times)
	if _, k := measure(l); k > slack*(2*most+2) {
		c.Failf("a list that never held more than %d elements keeps %d cells after %d rounds", most, k, times)
	}
}

func streamsLasso(c *ex.C, times int) {
	video := c.Choose(2) == 0
	cp, media := 48000*12, utils.AVMediaTypeAudio
	if video {
		cp, media = 2<<20, utils.AVMediaTypeVideo
	}
	sizes := []int{cp / 20, cp / 3, cp * 3 / 4}
	s := &avformat.StreamsBuffer{}
	var held []int
	most, sum, heads := 0, 0, 0
	o := &lassoOps{n: len(sizes) + 2, size: func() int { return len(held) }}
	o.name = func(op int) string {
		if op < len(sizes) {
			return fmt.Sprintf("packet of %d", sizes[op])
		}
		return []string{"release the first", "release the last"}[op-len(sizes)]
	}
	o.ok = func(op int) bool { return op < len(sizes) || len(held) > 0 }
	scratch := make([]byte, cp)
	o.do = func(op int) {
		switch {
		case op < len(sizes):
			s.Write(scratch[:sizes[op]], 0, media)
			s.Fetch(0)
			held = append(held, sizes[op])
			sum += sizes[op]
			most = max(most, sum)
		case op == len(sizes):
			if heads++; heads%2 == 0 {
				s.Discard(0)
			} else {
				s.DiscardHeadPacket(0)
			}
			sum -= held[0]
			held = held[1:]
		default:
			s.DiscardBackPacket(0)
			sum -= held[len(held)-1]
			held = held[:len(held)-1]
		}
	}
	lasso(c, o, 2, 4, times)
	if b, n := measure(s); b > slack*(cp+most+cp) || n > slack*(80+8*len(held)) {
		c.Failf("a stream buffer whose user never held more than %d bytes keeps %d bytes and %d cells after %d rounds", most, b, n, times)
	}
}

// demuxLasso feeds a cycle of inputs to a demuxer again and again.
func demuxLasso(c *ex.C, times, cycle int) {
	name := []string{"ps", "flv", "ts"}[c.Choose(3)]
	d := newNopDemuxer(name)
	ts := []int64{0, 0, 0, 0}
	type in struct {
		name string
		f    func()
	}
	aac := adts(4, 2, []byte{1, 2, 3, 4})
	key := cat(sc4, validAVC[0].nal, sc4, []byte{0x68, 0xce, 0x3c, 0x80}, sc4, []byte{0x65, 1, 2})
	avcc := lenPrefix([][]byte{{0x65, 1, 2}}, 4)
	tick := func(i int) int64 { ts[i] += 40; return ts[i] }
	ins := []in{
		{"audio packet", func() { d.OnAudioPacket(d.FindBufferIndex(0), utils.AVCodecIdAAC, append([]byte{}, aac...), tick(0)) }},
		{"broken audio packet", func() { d.OnAudioPacket(d.FindBufferIndex(0), utils.AVCodecIdAAC, []byte{0xff}, tick(0)) }},
		{"video key packet", func() {
			t := tick(1)
			b := key
			if name == "flv" {
				b = avcc
			}
			d.OnVideoPacket(d.FindBufferIndex(1), utils.AVCodecIdH264, append([]byte{}, b...), true, t, t, d.GetPackType())
		}},
		{"video packet of another stream without parameters", func() {
			t := tick(2)
			d.OnVideoPacket(d.FindBufferIndex(2), utils.AVCodecIdH265, []byte{0, 0, 0, 1, 2, 1, 3}, false, t, t, d.GetPackType())
		}},
		{"G.711 packet of another stream", func() {
			d.OnAudioPacket(d.FindBufferIndex(3), utils.AVCodecIdPCMALAW, []byte{1, 2, 3}, tick(3))
		}},
		{"video header", func() {
			if name == "flv" {
				d.OnNewVideoTrack(d.FindBufferIndex(1), utils.AVCodecIdH264, 1000, avcRecord([4]byte{1, 66, 0xc0, 30}, 3, true, [][]byte{validAVC[0].nal}, [][]byte{{0x68, 0xce, 0x3c, 0x80}}))
			} else {
				d.OnNewVideoTrack(d.FindBufferIndex(1), utils.AVCodecIdH264, 1000, key)
			}
		}},
	}
	// before: what the probe sees
	np := c.Choose(3)
	for i := 0; i < np; i++ {
		k := c.Choose(len(ins))
		c.Logf("while probing: %s", ins[k].name)
		ins[k].f()
	}
	d.ProbeComplete()
	var cyc []in
	for n := 1 + c.Choose(cycle); n > 0; n-- {
		k := c.Choose(len(ins))
		c.Logf("cycle: %s", ins[k].name)
		cyc = append(cyc, ins[k])
	}
	for k := 0; k < times; k++ {
		for _, i := range cyc {
			i.f()
		}
	}
	c.Step()
	const most = 8192
	if b, n := measure(d); b > most || n > 1024 {
		c.Failf("a demuxer whose packets are all forwarded keeps %d bytes and %d cells after %d rounds of the cycle", b, n, times)
	}
}

func init() {
	run.Register(&run.Prop{ID: "C30", Spaces: func(th bool) []*ex.Space {
		times, cy, more := 400, 4, 1
		if th {
			times, cy, more = 1000, 5, 2
		}
		return []*ex.Space{
			{Name: "ring-lasso", Bound: fmt.Sprintf("capacities 1, 6, 40: every prefix of up to 3 and every cycle of up to %d operations (blocks of 1, 3, 8 bytes, releases from either end, clear), %d rounds", cy, times), Run: func(c *ex.C) { ringLasso(c, times, cy) }},
			{Name: "linear-lasso", Bound: fmt.Sprintf("the same for the linear buffer, cycles that empty it, %d rounds", times), Run: func(c *ex.C) { linearLasso(c, times/2, cy) }},
			{Name: "queue-lasso", Bound: fmt.Sprintf("every prefix of up to 4 and cycle of up to %d queue operations, %d rounds", cy+2, times), Run: func(c *ex.C) { queueLasso(c, times, cy+2) }},
			{Name: "list-lasso", Bound: fmt.Sprintf("every prefix of up to 4 and cycle of up to %d list operations, %d rounds", cy+2, times), Run: func(c *ex.C) { listLasso(c, times, cy+2) }},
			{Name: "streams-lasso", Bound: "the packet pipeline with real capacities: packets of 1/20, 1/3 and 3/4 of it, every prefix of up to 2 and cycle of up to 4, 60 rounds", Run: func(c *ex.C) { streamsLasso(c, 60) }},
			{Name: "demuxer-lasso", Bound: fmt.Sprintf("3 containers, every cycle of up to %d inputs of 6 kinds after a probe that saw up to 2, %d rounds", 2+more, times), Run: func(c *ex.C) { demuxLasso(c, times, 2+more) }},
		}
	}, Assumptions: []string{"a growth policy may over-allocate up to 8 times what was ever needed", "a linear buffer is emptied from time to time (it reuses memory only then)"}})
}
