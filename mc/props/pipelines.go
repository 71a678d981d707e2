package props

import (
	"bytes"
	"fmt"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

var bigPattern = func() []byte {
	b := make([]byte, 5<<20)
	x := uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}()

// spStream is the reference model of one stream of a StreamsBuffer.
type spStream struct {
	used    bool
	pending []byte
	open    bool // something was written since the last fetch
	held    [][2][]byte
	media   utils.AVMediaType
}

type spModel struct {
	real *avformat.StreamsBuffer
	st   []*spStream
	seq  int

	quiet bool // pending sizes are looked at only by operations of their own
}

func (m *spModel) payload(n int) []byte {
	m.seq++
	o := m.seq * 7919 % (1 << 20)
	return bigPattern[o : o+n : o+n]
}

func (m *spModel) check(c *ex.C) {
	for i, s := range m.st {
		if !s.used {
			continue
		}
		if !m.quiet {
			m.size(c, i)
		}
		for k, h := range s.held {
			if !bytes.Equal(h[0], h[1]) {
				c.Failf("stream %d: held packet %d of %d changed", i, k, len(s.held))
			}
		}
	}
}

func (m *spModel) size(c *ex.C, i int) {
	if n := m.real.PendingBlockSize(i); n != len(m.st[i].pending) {
		c.Failf("stream %d: pending size %d, %d bytes were written since the last fetch", i, n, len(m.st[i].pending))
	}
	m.st[i].used = true
}

func (m *spModel) write(c *ex.C, i, n int) {
	s := m.st[i]
	d := m.payload(n)
	arg := append([]byte{}, d...)
	if _, err := m.real.Write(arg, i, s.media); err != nil {
		c.Failf("stream %d: writing %d bytes: %v", i, n, err)
	}
	if !bytes.Equal(arg, d) {
		c.Failf("stream %d: Write modified its argument", i)
	}
	for j := range arg {
		arg[j] = 0xee
	}
	s.used, s.open = true, true
	s.pending = append(s.pending, d...)
}

func (m *spModel) fetch(c *ex.C, i int) {
	s := m.st[i]
	got, err := m.real.Fetch(i)
	if err != nil {
		c.Failf("stream %d: fetch: %v", i, err)
	}
	s.used = true
	if !bytes.Equal(got, s.pending) {
		c.Failf("stream %d: fetched %d bytes, %d were written since the last fetch, or their contents differ", i, len(got), len(s.pending))
	}
	if s.open {
		s.held = append(s.held, [2][]byte{got, s.pending})
	}
	s.pending, s.open = nil, false
}

func spSequence(c *ex.C, streams int, sizes []int, depth int, quiet bool) {
	m := &spModel{real: &avformat.StreamsBuffer{}, quiet: quiet}
	med := c.Choose(1 << streams)
	for i := 0; i < streams; i++ {
		s := &spStream{media: utils.AVMediaTypeVideo}
		if med>>i&1 == 1 {
			s.media = utils.AVMediaTypeAudio
		}
		m.st = append(m.st, s)
	}
	for d := 0; d < depth; d++ {
		type op struct{ i, k int }
		var ops []op
		for i, s := range m.st {
			for k := range sizes {
				ops = append(ops, op{i, k})
			}
			ops = append(ops, op{i, 100})
			if len(s.held) > 0 {
				ops = append(ops, op{i, 101})
				if !s.open {
					ops = append(ops, op{i, 102})
				}
			}
			if !s.used || quiet {
				ops = append(ops, op{i, 103})
			}
		}
		o := ops[c.Choose(len(ops))]
		s := m.st[o.i]
		c.Step()
		switch o.k {
		case 100:
			c.Logf("fetch stream %d", o.i)
			m.fetch(c, o.i)
		case 101:
			c.Logf("discard head of stream %d", o.i)
			if c.Choose(2) == 0 {
				m.real.DiscardHeadPacket(o.i)
			} else {
				m.real.Discard(o.i)
			}
			s.held = s.held[1:]
		case 102:
			c.Logf("discard back of stream %d", o.i)
			m.real.DiscardBackPacket(o.i)
			s.held = s.held[:len(s.held)-1]
		case 103:
			c.Logf("pending size of stream %d", o.i)
			m.size(c, o.i)
		default:
			c.Logf("write %d bytes to stream %d (%v)", sizes[o.k], o.i, s.media)
			m.write(c, o.i, sizes[o.k])
		}
		m.check(c)
	}
}

// spCapacity drives one stream across its internal capacity while two others hold packets.
func spCapacity(c *ex.C, video bool, depth int) {
	m := &spModel{real: &avformat.StreamsBuffer{}}
	cp := 48000 * 12
	if video {
		cp = 2 << 20
	}
	at := c.Choose(2)
	m.st = []*spStream{{media: utils.AVMediaTypeAudio}, {media: utils.AVMediaTypeAudio}}
	if video {
		m.st[at].media = utils.AVMediaTypeVideo
	}
	m.write(c, 1-at, 5)
	m.fetch(c, 1-at)
	sizes := []int{1, cp / 3, cp/2 - 1, cp / 2, cp - 1, cp, cp + 1}
	s := m.st[at]
	for d := 0; d < depth; d++ {
		n := len(sizes) + 2
		if len(s.held) > 0 {
			n += 2
		}
		k := c.Choose(n)
		c.Step()
		switch {
		case k < len(sizes):
			c.Logf("packet of %d bytes", sizes[k])
			m.write(c, at, sizes[k])
			m.fetch(c, at)
		case k < len(sizes)+2:
			a, b := cp/4, []int{3, cp / 2}[k-len(sizes)]
			c.Logf("packet of %d+%d+%d bytes", a, b, a)
			m.write(c, at, a)
			m.check(c)
			m.write(c, at, b)
			m.write(c, at, a)
			m.check(c)
			m.fetch(c, at)
		case k == len(sizes)+2:
			c.Logf("discard head")
			m.real.DiscardHeadPacket(at)
			s.held = s.held[1:]
		default:
			c.Logf("discard back")
			m.real.DiscardBackPacket(at)
			s.held = s.held[:len(s.held)-1]
		}
		m.check(c)
	}
}

// spMany: many packets of many parts on several streams, a window of them held.
func spMany(c *ex.C) {
	m := &spModel{real: &avformat.StreamsBuffer{}}
	n := []int{1, 2, 16, 17, 33, 64, 65, 129, 257, 600}[c.Choose(10)]
	parts := []int{1, 2, 3, 16, 17, 64, 65, 257, 1000}[c.Choose(9)]
	window := []int{0, 1, 5, 50, 300}[c.Choose(5)]
	size := []int{0, 1, 7, 300}[c.Choose(4)]
	streams := []int{1, 2, 3, 9, 17, 33, 130}[c.Choose(7)]
	if parts > 17 && n > 33 || streams > 3 && (n > 17 || parts > 3 || window > 5) || n*parts*size > 500000 || streams > 33 && n > 2 {
		c.Skip()
	}
	back := c.Choose(2) == 1
	for i := 0; i < streams; i++ {
		m.st = append(m.st, &spStream{media: []utils.AVMediaType{utils.AVMediaTypeVideo, utils.AVMediaTypeAudio}[min(i%3, 1)]})
	}
	c.Logf("%d packets of %d parts of about %d bytes on %d streams, %d held", n, parts, size, streams, window)
	for k := 0; k < n; k++ {
		c.Step()
		for j := 0; j < parts; j++ {
			for i := range m.st {
				m.write(c, streams-1-i, size+(i+j+k)%2)
			}
		}
		m.check(c)
		for i, s := range m.st {
			m.fetch(c, i)
			for len(s.held) > window {
				if back && len(s.held)%2 == 0 {
					m.real.DiscardBackPacket(i)
					s.held = s.held[:len(s.held)-1]
				} else {
					m.real.DiscardHeadPacket(i)
					s.held = s.held[1:]
				}
			}
		}
		m.check(c)
	}
}

func directSequence(c *ex.C, depth int, large bool) {
	d := &avformat.DirectDataPipeline{}
	idx := []int{0, 3}[c.Choose(2)]
	sizes := []int{0, 1, 2, 3, 5, 8, 64}
	seeks := []int64{0, -1, -2, -5, -100}
	if large {
		sizes = []int{1, 100, 255, 256, 1024, 4096, 65535, 65536, 1 << 20}
		seeks = []int64{-1, -256, -65536, -70000, -1 << 20, -1 << 32, -1 << 62}
	}
	var want []byte
	seq := 0
	for i := 0; i < depth; i++ {
		k := c.Choose(len(sizes) + len(seeks) + 2)
		c.Step()
		switch {
		case k < len(sizes):
			seq++
			p := bigPattern[seq*977 : seq*977+sizes[k]]
			arg := append([]byte{}, p...)
			c.Logf("write %d bytes", len(p))
			if _, err := d.Write(arg, idx, utils.AVMediaType(seq%2)); err != nil {
				c.Failf("write: %v", err)
			}
			for j := range arg {
				arg[j] = 0xee
			}
			want = append(want, p...)
		case k < len(sizes)+len(seeks):
			s := seeks[k-len(sizes)]
			c.Logf("seek %d", s)
			if err := d.Seek(s, idx); err != nil {
				c.Failf("seek: %v", err)
			}
			want = want[:max(0, len(want)+int(s))]
		case k > len(sizes)+len(seeks):
			c.Logf("pending size")
			if n := d.PendingBlockSize(idx); n != len(want) {
				c.Failf("pending size %d, want %d", n, len(want))
			}
		default:
			got, err := d.Fetch(idx)
			c.Logf("fetch: %s", hexShort(got))
			if err != nil || !bytes.Equal(got, want) {
				c.Failf("fetched %s (%v), want %s", hexShort(got), err, hexShort(want))
			}
			want = nil
		}
	}
	if n := d.PendingBlockSize(idx); n != len(want) {
		c.Failf("pending size %d at the end, want %d", n, len(want))
	}
	if got, err := d.Fetch(idx); err != nil || !bytes.Equal(got, want) {
		c.Failf("fetched %s (%v) at the end, want %s", hexShort(got), err, hexShort(want))
	}
}

type fakeTrack struct{ s *avformat.AVStream }

func (f *fakeTrack) GetStream() *avformat.AVStream { return f.s }

func init() {
	run.Register(&run.Prop{ID: "C26", Spaces: func(th bool) []*ex.Space {
		d2, d3, dc, dd, dl := 5, 4, 4, 5, 3
		if th {
			d2, d3, dc, dd, dl = 6, 5, 6, 6, 4
		}
		return []*ex.Space{
			{Name: "streams-3", Bound: fmt.Sprintf("3 streams in any order of first use x media types x every sequence of %d writes (0, 1, 5 bytes), fetches, head/back discards and size queries", d3), Run: func(c *ex.C) { spSequence(c, 3, []int{0, 1, 5}, d3, false) }},
			{Name: "streams-2", Bound: fmt.Sprintf("2 streams, the same to depth %d", d2), Run: func(c *ex.C) { spSequence(c, 2, []int{1, 4}, d2, false) }},
			{Name: "streams-1", Bound: fmt.Sprintf("1 stream, the same to depth %d", d2+2), Run: func(c *ex.C) { spSequence(c, 1, []int{0, 3}, d2+2, false) }},
			{Name: "streams-2-quiet", Bound: fmt.Sprintf("2 streams, 3-byte writes, to depth %d, pending sizes looked at only by explicit queries", d2+1), Run: func(c *ex.C) { spSequence(c, 2, []int{3}, d2+1, true) }},
			{Name: "audio-capacity", Bound: fmt.Sprintf("one stream of 576000 bytes capacity: every sequence of %d packets (sizes around 1, 1/3, 1/2 and the capacity, in one or three writes) and discards", dc), Run: func(c *ex.C) { spCapacity(c, false, dc) }},
			{Name: "video-capacity", Bound: fmt.Sprintf("one stream of 2 MiB capacity, depth %d", dc-1), Run: func(c *ex.C) { spCapacity(c, true, dc-1) }},
			{Name: "direct", Bound: fmt.Sprintf("every sequence of %d writes (0..64 bytes), seeks (0..-100), size queries and fetches", dd), Run: func(c *ex.C) { directSequence(c, dd, false) }},
			{Name: "direct-large", Bound: fmt.Sprintf("every sequence of %d writes (1 byte to 1 MiB), seeks (-1 to -2^62), size queries and fetches", dl), Run: func(c *ex.C) { directSequence(c, dl, true) }},
			{Name: "many", Bound: "1..600 packets of 1..1000 parts of 0..301 bytes on 1..130 streams, the last 0..300 of them held, discarded from either end", Run: spMany},
		}
	}, Assumptions: []string{"a stream keeps its media type", "only fetched packets are discarded", "the direct pipeline is used for one stream and its fetched bytes are used before the next write", "seeks on the direct pipeline go back or nowhere"}})

	run.Register(&run.Prop{ID: "C27", Spaces: func(th bool) []*ex.Space {
		d := 4
		if th {
			d = 5
		}
		media := []utils.AVMediaType{utils.AVMediaTypeVideo, utils.AVMediaTypeAudio, utils.AVMediaTypeSubtitle, utils.AVMediaTypeUnknown}
		codecs := []utils.AVCodecID{utils.AVCodecIdNONE, utils.AVCodecIdH264, utils.AVCodecIdAAC}
		checkTM := func(c *ex.C, t *avformat.TrackManager, want []avformat.Track) {
			if t.Size() != len(want) {
				c.Failf("%d tracks registered, want %d", t.Size(), len(want))
			}
			for i, w := range want {
				if t.Get(i) != w {
					c.Failf("index %d denotes another track than the one added under it", i)
				}
			}
			for _, m := range append(media, utils.AVMediaTypeData) {
				var f avformat.Track
				for i := len(want) - 1; i >= 0; i-- {
					if want[i].GetStream().MediaType == m {
						f = want[i]
					}
				}
				if got := t.FindTrackWithType(m); got != f {
					c.Failf("lookup of media type %d among %d tracks gave a wrong track", m, len(want))
				}
			}
			for _, id := range append(codecs, utils.AVCodecIdH265) {
				var f avformat.Track
				for i := len(want) - 1; i >= 0; i-- {
					if want[i].GetStream().CodecID == id {
						f = want[i]
					}
				}
				if got := t.Find(id); got != f {
					c.Failf("lookup of codec %d among %d tracks gave a wrong track", id, len(want))
				}
			}
		}
		pick := func(c *ex.C) avformat.Track {
			s := &avformat.AVStream{MediaType: media[c.Choose(len(media))], CodecID: codecs[c.Choose(len(codecs))], Index: c.Choose(2) * 7}
			if c.Choose(2) == 0 {
				return &avformat.SimpleTrack{Stream: s}
			}
			return &fakeTrack{s}
		}
		return []*ex.Space{
			{Name: "registry", Bound: fmt.Sprintf("every sequence of %d additions out of 24 x 4 media types x 3 codecs, all lookups after each", d), Run: func(c *ex.C) {
				var t avformat.TrackManager
				var want []avformat.Track
				checkTM(c, &t, want)
				for i := 0; i < d-1; i++ {
					k := pick(c)
					c.Step()
					c.Logf("add media type %d codec %d", k.GetStream().MediaType, k.GetStream().CodecID)
					if !t.Add(k) {
						c.Failf("addition %d was refused", i)
					}
					want = append(want, k)
					checkTM(c, &t, want)
				}
			}},
			{Name: "registry-quiet", Bound: fmt.Sprintf("every sequence of %d operations: an addition (3 media types x 2 codecs) or a single lookup (3 media types, 2 codecs, each index, the size)", d+1), Run: func(c *ex.C) {
				var t avformat.TrackManager
				var want []avformat.Track
				for i := 0; i < d+1; i++ {
					n := len(want)
					k := c.Choose(12 + n)
					c.Step()
					switch {
					case k < 6:
						c.Logf("add media type %d codec %d", media[k%3], codecs[1+k/3])
						tr := &fakeTrack{&avformat.AVStream{MediaType: media[k%3], CodecID: codecs[1+k/3], Index: n}}
						if !t.Add(tr) {
							c.Failf("the addition was refused")
						}
						want = append(want, tr)
					case k < 9:
						var f avformat.Track
						for i := n - 1; i >= 0; i-- {
							if want[i].GetStream().MediaType == media[k-6] {
								f = want[i]
							}
						}
						c.Logf("look up media type %d", media[k-6])
						if got := t.FindTrackWithType(media[k-6]); got != f {
							c.Failf("lookup of media type %d among %d tracks gave a wrong track", media[k-6], n)
						}
					case k < 11:
						var f avformat.Track
						for i := n - 1; i >= 0; i-- {
							if want[i].GetStream().CodecID == codecs[k-8] {
								f = want[i]
							}
						}
						c.Logf("look up codec %d", codecs[k-8])
						if got := t.Find(codecs[k-8]); got != f {
							c.Failf("lookup of codec %d among %d tracks gave a wrong track", codecs[k-8], n)
						}
					case k == 11:
						c.Logf("size")
						if t.Size() != n {
							c.Failf("%d tracks registered, want %d", t.Size(), n)
						}
					default:
						c.Logf("get %d", k-12)
						if t.Get(k-12) != want[k-12] {
							c.Failf("index %d denotes another track than the one added under it", k-12)
						}
					}
				}
			}},
			{Name: "muxer", Bound: fmt.Sprintf("every sequence of %d additions, then the header", d), Run: func(c *ex.C) {
				m := &avformat.BaseMuxer{}
				var want []avformat.Track
				for i := 0; i < d; i++ {
					k := pick(c)
					has := false
					for _, w := range want {
						has = has || w.GetStream().MediaType == k.GetStream().MediaType
					}
					c.Step()
					c.Logf("add media type %d codec %d", k.GetStream().MediaType, k.GetStream().CodecID)
					n, err := m.AddTrack(k)
					if has {
						if err == nil {
							c.Failf("a second track of media type %d was accepted as %d", k.GetStream().MediaType, n)
						}
					} else {
						if err != nil {
							c.Failf("the first track of media type %d was refused: %v", k.GetStream().MediaType, err)
						}
						if n != len(want) {
							c.Failf("track %d got index %d", len(want), n)
						}
						want = append(want, k)
					}
					checkTM(c, &m.Tracks, want)
					if m.Completed {
						c.Failf("completed before the header was written")
					}
				}
				if _, err := m.WriteHeader(nil); err != nil || !m.Completed {
					c.Failf("writing the header: %v, completed %v", err, m.Completed)
				}
				checkTM(c, &m.Tracks, want)
			}},
			{Name: "markers", Bound: "every sequence of 7 lookups over 6 stream markers", Run: func(c *ex.C) {
				mk := []int{0, 1, -1, 256, 0x1fff, 2}
				var d avformat.BaseDemuxer
				var seen []int
				for i := 0; i < 7; i++ {
					m := mk[c.Choose(len(mk))]
					want := -1
					for k, s := range seen {
						if s == m {
							want = k
						}
					}
					if want < 0 {
						want = len(seen)
						seen = append(seen, m)
					}
					c.Step()
					got := 0
					if m <= 1 && i%2 == 0 {
						got = d.FindBufferIndexByMediaType(utils.AVMediaType(m))
					} else {
						got = d.FindBufferIndex(m)
					}
					if got != want {
						c.Failf("marker %d got buffer index %d, want %d (markers so far %v)", m, got, want, seen)
					}
				}
			}},
			{Name: "many", Bound: "1..200 tracks and markers", Run: func(c *ex.C) {
				n := 1 + c.Choose(200)
				var d avformat.BaseDemuxer
				var want []avformat.Track
				for i := 0; i < n; i++ {
					if g := d.FindBufferIndex(i * 3); g != i {
						c.Failf("marker %d got index %d", i, g)
					}
					k := &fakeTrack{&avformat.AVStream{MediaType: media[i%3], CodecID: codecs[i/2%3]}}
					if !d.AddTrack(k) {
						c.Failf("track %d refused", i)
					}
					want = append(want, k)
				}
				c.Step()
				for i := 0; i < n; i++ {
					if g := d.FindBufferIndex(i * 3); g != i {
						c.Failf("marker %d got index %d later", i, g)
					}
				}
				checkTM(c, &d.Tracks, want)
				d.Completed = true
				if d.AddTrack(&fakeTrack{&avformat.AVStream{}}) {
					c.Failf("a track was added after probing completed")
				}
				checkTM(c, &d.Tracks, want)
			}},
		}
	}, Assumptions: []string{"every track has a stream"}})
}
