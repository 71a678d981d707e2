// Package conc holds the checks that run the code under a controlled scheduler.
package conc

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"
	"vshim/vrand"
	"vshim/vsched"

	"verifmc/ex"
	"verifmc/run"
)

// controlled runs f with the explorer's choices behind the stand-ins.
func controlled(f func(c *ex.C)) func(c *ex.C) {
	return func(c *ex.C) {
		vsched.Restore()
		vsched.Choose, vsched.Dev = c.Choose, c.Dev
		defer func() {
			vsched.Choose, vsched.Dev = nil, nil
			c.Steps(vsched.Steps)
			if p := recover(); p != nil {
				if b, ok := p.(vsched.Bug); ok {
					panic(ex.Violation{Msg: b.Msg})
				}
				panic(p)
			}
		}()
		f(c)
	}
}

// ---- C05 ----

type tally struct {
	held  int // references held, over all threads
	trues int
	refs  int
	rels  int
}

type data struct{ x [2]int }

// counterThread is one thread's script: it owns `own` references and refers and releases.
func counterThread(c *ex.C, name string, r *collections.ReferenceCounter[*data], t *tally, own int, script []bool) {
	for _, refer := range script {
		if refer {
			c.Logf("%s: refer", name)
			r.Refer()
			own++
			t.refs++
		} else {
			last := r.Release()
			own--
			t.rels++
			c.Logf("%s: release -> %v", name, last)
			if last {
				if t.trues++; t.trues > 1 {
					c.Failf("a second release reported the last use")
				}
				if own > 0 {
					c.Failf("a release reported the last use while %s holds %d references", name, own)
				}
			}
		}
	}
}

// scripts of n operations for a thread that starts with one reference and never releases more than it holds.
func pickScript(c *ex.C, n int, all bool) (s []bool) {
	own := 1
	for i := 0; i < n; i++ {
		if own == 0 {
			return
		}
		k := c.Choose(3) // release, refer, stop
		switch {
		case k == 0:
			own--
			s = append(s, false)
		case k == 1 && own <= n-i:
			own++
			s = append(s, true)
		case k == 1:
			c.Skip()
		default:
			if all {
				c.Skip()
			}
			return
		}
	}
	return
}

func balance(s []bool) int {
	b := 1
	for _, r := range s {
		if r {
			b++
		} else {
			b--
		}
	}
	return b
}

func counterRun(c *ex.C, threads, ops int) {
	var scripts [][]bool
	for i := 0; i < threads; i++ {
		scripts = append(scripts, pickScript(c, ops, false))
	}
	zero := c.Choose(2) == 1
	d := &data{}
	var r *collections.ReferenceCounter[*data]
	t := &tally{}
	n := threads
	if zero { // a zero counter starts without references
		r = &collections.ReferenceCounter[*data]{}
		r.ResetData(d)
	} else {
		r = collections.NewReferenceCounter(d)
		n--
		if u := r.UseCount(); u != 1 {
			c.Failf("a new counter has use count %d", u)
		}
	}
	for i := 0; i < n; i++ {
		r.Refer()
	}
	var bodies []func()
	left := 0
	for i, s := range scripts {
		i, s := i, s
		bodies = append(bodies, func() { counterThread(c, fmt.Sprintf("thread %d", i), r, t, 1, s) })
		left += balance(s)
	}
	vsched.Run(bodies...)
	if u := r.UseCount(); int(u) != left {
		c.Failf("use count %d after %d references and %d releases, want %d", u, threads+t.refs, t.rels, left)
	}
	if left > 0 && t.trues > 0 {
		c.Failf("a release reported the last use with %d references left", left)
	}
	for ; left > 0; left-- {
		if last := r.Release(); last != (left == 1) {
			c.Failf("release with %d references held returned %v", left, last)
		} else if last {
			t.trues++
		}
	}
	if t.trues != 1 {
		c.Failf("%d releases reported the last use", t.trues)
	}
	if r.Get() != d {
		c.Failf("the counter's value changed")
	}
	c.Outcome(fmt.Sprint(scripts))
}

// ---- C06 ----

type lp struct { // a live packet and what it must look like
	p    *avformat.AVPacket
	want avformat.AVPacket
	nal  []byte
}

type world struct {
	c    *ex.C
	live map[*avformat.AVPacket]string
	seq  int
	size int // of the payloads, when above 4
}

var annexB = avformat.PacketTypeAnnexB
var avcc = avformat.PacketTypeAVCC

func (w *world) create(name string, kind int) *lp {
	w.seq++
	q := w.seq
	l := &lp{nal: []byte{0x41, 0x9a, byte(0x80 + q), byte(0x90 + q*3)}}
	if kind == 3 {
		l.nal[0] = 0x65
	}
	for len(l.nal) < w.size {
		l.nal = append(l.nal, byte(len(l.nal)*7+q)|0x80)
	}
	x := &l.want
	x.Dts, x.Index, x.Timebase = int64(1000*q+1), q+3, 1000+q
	x.Pts = x.Dts
	pts := x.Dts + 40
	switch kind {
	case 0:
		x.Data, x.MediaType, x.CodecID = []byte{byte(q), 1, 2}, utils.AVMediaTypeAudio, utils.AVCodecIdAAC
		l.p = avformat.NewAudioPacket(x.Data, x.Dts, x.CodecID, x.Index, x.Timebase)
	default:
		x.MediaType, x.Pts, x.Key = utils.AVMediaTypeVideo, pts, kind == 3
		x.CodecID = utils.AVCodecIdH264
		x.PacketType = annexB
		x.Data = append([]byte{0, 0, 0, 1}, l.nal...)
		if kind == 2 {
			x.PacketType = avcc
			x.Data = withLength(l.nal)
		}
		l.p = avformat.NewVideoPacket(x.Data, x.Dts, x.Pts, x.Key, x.PacketType, x.CodecID, x.Index, x.Timebase)
	}
	w.c.Logf("%s: creates packet #%d (kind %d)", name, q, kind)
	if o, ok := w.live[l.p]; ok {
		w.c.Failf("%s got the object of a packet that %s still uses", name, o)
	}
	w.live[l.p] = name
	w.check(name, l, "created")
	return l
}

func (w *world) check(name string, l *lp, when string) {
	g, x := l.p, &l.want
	bad := func(f string, a, b any) {
		w.c.Failf("%s: packet #%d (%s): %s is %v, want %v", name, x.Index-3, when, f, a, b)
	}
	switch {
	case !bytes.Equal(g.Data, x.Data):
		bad("data", g.Data, x.Data)
	case g.Dts != x.Dts:
		bad("dts", g.Dts, x.Dts)
	case g.Pts != x.Pts:
		bad("pts", g.Pts, x.Pts)
	case g.Duration != x.Duration:
		bad("duration", g.Duration, x.Duration)
	case g.Key != x.Key:
		bad("key", g.Key, x.Key)
	case g.CreatedTime != x.CreatedTime:
		bad("creation time", g.CreatedTime, x.CreatedTime)
	case g.BufferIndex != x.BufferIndex:
		bad("buffer index", g.BufferIndex, x.BufferIndex)
	case g.Index != x.Index:
		bad("index", g.Index, x.Index)
	case g.Timebase != x.Timebase:
		bad("time base", g.Timebase, x.Timebase)
	case g.MediaType != x.MediaType:
		bad("media type", g.MediaType, x.MediaType)
	case g.CodecID != x.CodecID:
		bad("codec", g.CodecID, x.CodecID)
	case x.PacketType == 0 && g.PacketType != 0 && g.PacketType != avformat.PacketTypeNONE || x.PacketType != 0 && g.PacketType != x.PacketType:
		bad("framing", g.PacketType, x.PacketType)
	case (g.OnBufferAlloc == nil) != (x.OnBufferAlloc == nil):
		bad("allocator", g.OnBufferAlloc != nil, x.OnBufferAlloc != nil)
	}
}

func withLength(nal []byte) []byte {
	n := len(nal)
	return append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, nal...)
}

// packetCrowd keeps n packets alive, frees them in some order and starts again.
func packetCrowd(c *ex.C) {
	w := &world{c: c, live: map[*avformat.AVPacket]string{}}
	n := []int{1, 2, 3, 7, 8, 9, 16, 17, 64, 65, 256, 257, 600}[c.Choose(13)]
	vsched.LastPooled = c.Choose(2) == 1
	defer func() { vsched.LastPooled = false }()
	if !vsched.LastPooled {
		choose := vsched.Choose
		defer func() { vsched.Choose = choose }()
		vsched.Choose = func(k int) int { return min(k-1, max(0, k-2)) } // the object freed first
	}
	first, order, use := c.Choose(4), c.Choose(3), c.Choose(3)
	sizes := []int{0, 300, 70000}
	big, then := sizes[c.Choose(3)], sizes[c.Choose(3)]
	if n > 3 && max(big, then) > 300 || n > 65 && max(big, then) > 0 && order > 0 {
		c.Skip()
	}
	for round := 0; round < 3; round++ {
		w.size = big
		if round == 1 {
			w.size = then
		}
		var live []*lp
		for i := 0; i < n; i++ {
			l := w.create("owner", (first+i+round)%4)
			live = append(live, l)
			if use != 1 {
				w.convert("owner", l)
			}
			if use == 2 {
				w.dirty("owner", l, i&1)
			}
		}
		for _, l := range live {
			w.check("owner", l, "with all others live")
			if use != 1 {
				if l.want.OnBufferAlloc == nil {
					w.convert("owner", l)
				}
			}
		}
		for i := range live {
			k := i
			switch order {
			case 1:
				k = n - 1 - i
			case 2: // odd ones first
				k = 2*i + 1
				if k >= n {
					k = 2 * (i - n/2)
				}
			}
			w.free("owner", live[k])
		}
	}
	c.Outcome(fmt.Sprint(n, first))
}

// convert asks a video packet for both forms and compares with its own payload.
func (w *world) convert(name string, l *lp) {
	if l.want.MediaType != utils.AVMediaTypeVideo {
		return
	}
	w.c.Logf("%s: converts packet #%d", name, l.want.Index-3)
	st := &avformat.AVStream{MediaType: utils.AVMediaTypeVideo, CodecID: l.want.CodecID}
	h264 := l.want.CodecID == utils.AVCodecIdH264
	for i := 0; i < 2; i++ {
		a := avformat.AVCCPacket2AnnexB(st, l.p)
		want := l.want.Data
		if h264 && l.want.PacketType == avcc {
			want = append([]byte{0, 0, 0, 1}, l.nal...)
		}
		if !bytes.Equal(bytes.TrimLeft(a, "\x00"), bytes.TrimLeft(want, "\x00")) {
			w.c.Failf("%s: packet #%d (% x) converts to Annex B as % x", name, l.want.Index-3, l.want.Data, a)
		}
		b := avformat.AnnexBPacket2AVCC(l.p)
		want = l.want.Data
		if h264 && l.want.PacketType == annexB {
			want = withLength(l.nal)
		}
		if !bytes.Equal(b, want) {
			w.c.Failf("%s: packet #%d (% x) converts to length-prefixed form as % x", name, l.want.Index-3, l.want.Data, b)
		}
	}
}

// dirty makes the owner set every attribute; even kinds set all, odd ones a few.
func (w *world) dirty(name string, l *lp, k int) {
	w.c.Logf("%s: sets the attributes of packet #%d", name, l.want.Index-3)
	for _, p := range []*avformat.AVPacket{l.p, &l.want} {
		p.Duration, p.Key, p.CreatedTime, p.BufferIndex = 77, true, 123456, 9
		p.OnBufferAlloc = func(n int) []byte { return bytes.Repeat([]byte{0x99}, n) }
		if k == 1 {
			p.Dts, p.Pts = -5, -6
		}
	}
}

func (w *world) free(name string, l *lp) {
	w.check(name, l, "before it is freed")
	w.c.Logf("%s: frees packet #%d", name, l.want.Index-3)
	delete(w.live, l.p)
	avformat.FreePacket(l.p)
}

func packetSequence(c *ex.C, depth, maxLive int) {
	w := &world{c: c, live: map[*avformat.AVPacket]string{}}
	var live []*lp
	for i := 0; i < depth; i++ {
		n := 0
		if len(live) < maxLive {
			n = 4
		}
		k := c.Choose(n + 3*len(live))
		if k < n {
			live = append(live, w.create("owner", k))
			if k != 0 && c.Choose(2) == 1 {
				w.convert("owner", live[len(live)-1])
			}
		} else {
			k -= n
			l := live[k/3]
			switch k % 3 {
			case 0:
				w.free("owner", l)
				live = append(append([]*lp{}, live[:k/3]...), live[k/3+1:]...)
			case 1:
				w.dirty("owner", l, i&1)
			case 2:
				w.convert("owner", l)
			}
		}
		for _, l := range live {
			w.check("owner", l, "still live")
		}
	}
	for _, l := range live {
		w.free("owner", l)
	}
	seen := map[*avformat.AVPacket]bool{}
	for i := 0; i < 2; i++ {
		l := w.create("owner", i)
		w.convert("owner", l)
		seen[l.p] = true
	}
	c.Outcome(fmt.Sprint(len(seen)))
}

// packetThreads: every thread creates, uses and frees packets; a negative number of rounds means
// one packet at a time.
func packetThreads(c *ex.C, threads, rounds int, seed bool, kinds []int) {
	w := &world{c: c, live: map[*avformat.AVPacket]string{}}
	if seed { // one recycled object is there already
		l := w.create("main", 1)
		w.dirty("main", l, 1)
		w.free("main", l)
	}
	var bodies []func()
	for i := 0; i < threads; i++ {
		name := fmt.Sprintf("thread %d", i)
		kind := kinds[c.Choose(len(kinds))]
		two := rounds > 0 && c.Choose(2) == 1
		bodies = append(bodies, func() {
			for r := 0; r < max(rounds, -rounds); r++ {
				a := w.create(name, kind)
				vsched.Yield()
				w.check(name, a, "in use")
				if two {
					b := w.create(name, 0)
					w.dirty(name, b, 1)
					vsched.Yield()
					w.check(name, a, "in use")
					w.free(name, b)
				} else {
					w.dirty(name, a, 0)
				}
				vsched.Yield()
				w.free(name, a)
			}
		})
	}
	vsched.Run(bodies...)
	for i := 0; i < 3; i++ {
		w.create("main", i%2)
	}
}

// ---- C29 ----

func init() {
	run.Register(&run.Prop{ID: "C05", Spaces: func(th bool) []*ex.Space {
		o2, o3, pb, ob := 6, 2, 3, 3
		if th {
			o2, o3, pb, ob = 7, 3, 4, 3
		}
		return []*ex.Space{
			{Name: "two-threads", Serial: true, MaxDev: 99, Bound: fmt.Sprintf("2 threads x every script of up to %d references and releases each x all interleavings of all statements and atomic operations", o2), Run: controlled(func(c *ex.C) { counterRun(c, 2, o2) })},
			{Name: "three-threads", Serial: true, MaxDev: 99, Bound: fmt.Sprintf("3 threads x every script of up to %d operations x all interleavings", o3), Run: controlled(func(c *ex.C) { counterRun(c, 3, o3) })},
			{Name: "three-threads-bounded", Serial: true, MaxDev: pb, Bound: fmt.Sprintf("3 threads x every script of up to %d operations x all schedules with at most %d preemptions", ob, pb), Run: controlled(func(c *ex.C) { counterRun(c, 3, ob) })},
			{Name: "four-threads-bounded", Serial: true, MaxDev: 2, Bound: "4 threads x every script of up to 2 operations x all schedules with at most 2 preemptions", Run: controlled(func(c *ex.C) { counterRun(c, 4, 2) })},
			{Name: "counts", Serial: true, Bound: "1..600 references and around every power of two up to 2^20, taken and released one by one, first use at 0 or 1", Run: controlled(func(c *ex.C) {
				k := c.Choose(600 + 3*13)
				n := k + 1
				if k >= 600 {
					k -= 600
					n = 1<<(8+k/3) + k%3 - 1
				}
				d := &data{}
				r := collections.NewReferenceCounter(d)
				zero := c.Choose(2) == 1
				if zero {
					r = &collections.ReferenceCounter[*data]{}
					r.ResetData(d)
					r.Refer()
				}
				for i := 1; i < n; i++ {
					r.Refer()
				}
				for i := n; i > 0; i-- {
					if i < 5 || i&1023 == 0 || i > n-3 {
						if u := r.UseCount(); int(u) != i {
							c.Failf("use count %d with %d references held", u, i)
						}
					}
					if last := r.Release(); last != (i == 1) {
						c.Failf("release with %d of %d references held returned %v", i, n, last)
					}
				}
				if r.UseCount() != 0 || r.Get() != d {
					c.Failf("use count %d after the last release, value kept %v", r.UseCount(), r.Get() == d)
				}
			})},
		}
	}, Assumptions: []string{"every release is matched by a reference the releasing thread holds", "memory operations are sequentially consistent (one thread runs at a time)", "a counter is not used again after its last release"}})

	run.Register(&run.Prop{ID: "C06", Spaces: func(th bool) []*ex.Space {
		d, l, pb := 5, 7, 2
		if th {
			d, l, pb = 6, 8, 3
		}
		return []*ex.Space{
			{Name: "sequences", Serial: true, Bound: fmt.Sprintf("every sequence of %d operations (create 4 kinds, set all attributes, convert, free) on up to 3 live packets x every choice of pooled object or new one", d), Run: controlled(func(c *ex.C) { packetSequence(c, d, 3) })},
			{Name: "long-sequences", Serial: true, Bound: fmt.Sprintf("the same with one live packet and %d operations", l), Run: controlled(func(c *ex.C) { packetSequence(c, l, 1) })},
			{Name: "crowd", Serial: true, Bound: "1..600 packets alive at a time, 3 generations x first kind x use (none, converted, all attributes set) x 3 orders of freeing x the oldest or the youngest pooled object first x payloads of 4, 300 and 70000 bytes", Run: controlled(packetCrowd)},
			{Name: "two-threads", Serial: true, MaxDev: 1, Bound: "2 threads creating, using and freeing 1..2 packets of 3 kinds, pool empty or not x every pool choice x all schedules with at most 1 preemption", Run: controlled(func(c *ex.C) {
				packetThreads(c, 2, 1, c.Choose(2) == 1, []int{0, 2, 3})
			})},
			{Name: "two-threads-one-packet", Serial: true, MaxDev: pb, Bound: fmt.Sprintf("2 threads with one packet each, audio or video, pool empty or not x every pool choice x all schedules with at most %d preemptions", pb), Run: controlled(func(c *ex.C) {
				packetThreads(c, 2, -1, c.Choose(2) == 1, []int{0, 3})
			})},
			{Name: "two-threads-twice", Serial: true, MaxDev: pb - 1, Bound: fmt.Sprintf("2 threads, two rounds each, at most %d preemptions", pb-1), Run: controlled(func(c *ex.C) {
				packetThreads(c, 2, -2, false, []int{1})
			})},
			{Name: "three-threads", Serial: true, MaxDev: pb - 1, Bound: fmt.Sprintf("3 threads, one round each, at most %d preemptions", pb-1), Run: controlled(func(c *ex.C) {
				packetThreads(c, 3, -1, c.Choose(2) == 1, []int{1})
			})},
		}
	}, Assumptions: []string{"a packet is freed once, by its owner, and not used afterwards", "memory operations are sequentially consistent", "the unset and the 'none' framing are the same"}})

	run.Register(&run.Prop{ID: "C29", Spaces: c29spaces, Assumptions: []string{"random numbers come from math/rand (replaced by enumeration); other sources are only range-checked", "whether every value is reachable is decided when all numbers drawn could be enumerated completely"}})
}

// drawn limits the number of random draws of one call, for code that rejects and draws again.
func limitDraws(c *ex.C, n int) {
	k := 0
	vsched.Choose = func(w int) int {
		if k++; k > n {
			c.Skip()
		}
		return c.Choose(w)
	}
}

func c29spaces(th bool) []*ex.Space {
	lim := 20
	ln := 2
	if th {
		lim, ln = 45, 3
	}
	letters := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	type iv struct{ lo, hi int }
	partial := map[iv]bool{}
	strPartial := false
	seen := map[[3]int]bool{}
	var small []iv
	for lo := -lim; lo <= lim; lo++ {
		for hi := lo; hi <= lim; hi++ {
			small = append(small, iv{lo, hi})
		}
	}
	for _, b := range []int{math.MinInt, math.MaxInt - 5, 1 << 31, -1 << 31, 1 << 40} {
		for n := 0; n < 5; n++ {
			small = append(small, iv{b, b + n})
		}
	}
	small = append(small, iv{0, 100}, iv{-1000, 1000}, iv{5, 4000})
	big := []iv{{0, math.MaxInt}, {0, math.MaxInt - 1}, {math.MinInt, math.MaxInt}, {math.MinInt, 0}, {math.MinInt, -1}, {-1, math.MaxInt}, {-5, math.MaxInt - 3}, {1, math.MaxInt}, {math.MinInt + 1, math.MaxInt}, {0, 1 << 31}, {0, 1 << 32}, {-1 << 40, 1 << 40}, {math.MinInt / 2, math.MaxInt / 2}, {math.MinInt / 2, math.MaxInt/2 + 1}}
	draw := func(c *ex.C, v iv, n int) int {
		limitDraws(c, n)
		x := utils.RandomIntInRange(v.lo, v.hi)
		c.Step()
		if x < v.lo || x > v.hi {
			c.Failf("a number from [%d, %d] is %d", v.lo, v.hi, x)
		}
		return x
	}
	return []*ex.Space{
		{Name: "small-intervals", Serial: true, Bound: fmt.Sprintf("every interval within [-%d, %d], short ones at the extremes of int, three longer ones x every random number", lim, lim),
			Reset: func() { partial, seen = map[iv]bool{}, map[[3]int]bool{} },
			Run: controlled(func(c *ex.C) {
				vrand.Partial = false
				v := small[c.Choose(len(small))]
				defer func() {
					if vrand.Partial {
						partial[v] = true
					}
				}()
				x := draw(c, v, 4)
				seen[[3]int{v.lo, v.hi, x}] = true
			}),
			Post: func(r *ex.Result) string {
				if !r.Exhaustive || !intercepted() {
					return ""
				}
				for _, v := range small {
					if partial[v] {
						continue
					}
					for k := 0; k <= v.hi-v.lo; k++ {
						if !seen[[3]int{v.lo, v.hi, v.lo + k}] {
							return fmt.Sprintf("no random number makes a number from [%d, %d] equal %d", v.lo, v.hi, v.lo+k)
						}
					}
				}
				return ""
			}},
		{Name: "large-intervals", Serial: true, Bound: "intervals up to the whole range of int x extreme and typical random numbers, up to 3 draws", Run: controlled(func(c *ex.C) {
			draw(c, big[c.Choose(len(big))], 3)
		})},
		{Name: "inverted", Serial: true, Bound: fmt.Sprintf("every inverted interval within [-%d, %d] and at the extremes", lim, lim), Run: controlled(func(c *ex.C) {
			lo, hi := c.Choose(2*lim+1)-lim, c.Choose(2*lim+1)-lim
			if c.Choose(2) == 1 {
				lo, hi = []int{math.MaxInt, 0, 1, math.MinInt + 1, math.MaxInt, 5}[c.Choose(6)], []int{math.MinInt, -1, math.MinInt, math.MinInt, math.MaxInt - 1, -1 << 40}[c.Choose(6)]
			}
			if lo <= hi {
				c.Skip()
			}
			c.Step()
			limitDraws(c, 4)
			var x int
			if func() (p bool) {
				defer func() {
					if r := recover(); r != nil {
						if strings.HasPrefix(fmt.Sprintf("%T", r), "ex.") {
							panic(r)
						}
						p = true
					}
				}()
				x = utils.RandomIntInRange(lo, hi)
				return false
			}() {
				return
			}
			c.Failf("the inverted interval [%d, %d] yields %d", lo, hi, x)
		})},
		{Name: "strings", Serial: true, Bound: fmt.Sprintf("every string of up to %d characters", ln),
			Reset: func() { strPartial = false },
			Run: controlled(func(c *ex.C) {
				vrand.Partial = false
				n := c.Choose(ln + 1)
				limitDraws(c, 4*n+2)
				s := utils.RandStringBytes(n)
				c.Step()
				if len(s) != n {
					c.Failf("a string of %d characters has length %d", n, len(s))
				}
				for i, ch := range []byte(s) {
					if strings.IndexByte(letters, ch) < 0 {
						c.Failf("character %d of %q is not a letter or digit", i, s)
					}
					c.Outcome(fmt.Sprintf("%d %d %c", n, i, ch))
				}
				strPartial = strPartial || vrand.Partial
			}),
			Post: func(r *ex.Result) string {
				if strPartial || !r.Exhaustive || !intercepted() {
					return ""
				}
				for n := 1; n <= ln; n++ {
					for i := 0; i < n; i++ {
						for _, ch := range letters {
							if r.Outcomes[fmt.Sprintf("%d %d %c", n, i, ch)] == 0 {
								return fmt.Sprintf("no string of %d characters has %q at position %d", n, ch, i)
							}
						}
					}
				}
				return ""
			}},
		{Name: "long-strings", Serial: true, MaxDev: 1, Bound: "strings of 0..70, 255..257, 1000 and 70000 characters, every character at every position for the short ones", Run: controlled(func(c *ex.C) {
			k := c.Choose(75)
			n := k
			if k > 70 {
				n = []int{255, 256, 257, 1000, 70000}[k-71-0]
			}
			vsched.Choose = c.Dev
			if n > 70 {
				vsched.Choose = func(w int) int { return n % w }
			}
			s := utils.RandStringBytes(n)
			c.Step()
			if len(s) != n {
				c.Failf("a string of %d characters has length %d", n, len(s))
			}
			for i, ch := range []byte(s) {
				if strings.IndexByte(letters, ch) < 0 {
					c.Failf("character %d of %q is not a letter or digit", i, s)
				}
			}
		})},
	}
}

// intercepted tells whether the code's random numbers are the explorer's choices.
func intercepted() bool {
	n := 0
	old := vsched.Choose
	vsched.Choose = func(w int) int { n++; return 0 }
	defer func() { vsched.Choose = old; recover() }()
	utils.RandomIntInRange(0, 3)
	utils.RandStringBytes(1)
	return n >= 2
}
