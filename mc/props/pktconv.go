package props

import (
	"bytes"
	"fmt"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

// c13case is one packet and its stream.
type c13case struct {
	codec  utils.AVCodecID
	form   avformat.PacketType
	key    bool
	ls     int // length size of the length-prefixed form
	units  [][]byte
	data   []byte
	stream *avformat.AVStream
	extra  []byte
	dress  func(*avformat.AVPacket) // sets what does not matter for the conversion
}

const (
	allocNone = iota
	allocExact
	allocShared // consecutive allocations out of one block, as an arena does
	allocRoomy
	numAlloc
)

type alloc struct {
	kind  int
	blk   []byte
	calls int
	guard []guarded
}

type guarded struct {
	all []byte
	n   int
}

func (a *alloc) fn() func(int) []byte {
	if a.kind == allocNone {
		return nil
	}
	return func(n int) []byte {
		a.calls++
		switch a.kind {
		case allocShared:
			if a.blk == nil {
				a.blk = bytes.Repeat([]byte{0xa5}, 4*n+64)
			}
			if len(a.blk) < n {
				a.blk = bytes.Repeat([]byte{0xa5}, 4*n+64)
			}
			r := a.blk[:n]
			a.blk = a.blk[n:]
			return r
		case allocRoomy:
			return bytes.Repeat([]byte{0x00, 0x01}, n+8)[:n]
		}
		all := bytes.Repeat([]byte{0xa5}, n+32)
		a.guard = append(a.guard, guarded{all, n})
		return all[:n:n]
	}
}

func (a *alloc) check(c *ex.C) {
	for _, g := range a.guard {
		for _, b := range g.all[g.n:] {
			if b != 0xa5 {
				c.Failf("memory behind an allocation of %d bytes was written", g.n)
			}
		}
	}
}

func inside(b, all []byte) bool {
	if len(b) == 0 {
		return true
	}
	for i := range all {
		if &all[i] == &b[0] {
			return true
		}
	}
	return false
}

// c13run converts the packet along one sequence of requests and checks every answer.
func c13run(c *ex.C, k *c13case, ak int, reqs []int) {
	orig := append([]byte{}, k.data...)
	al := &alloc{kind: ak}
	pkt := &avformat.AVPacket{Data: k.data, MediaType: utils.AVMediaTypeVideo, CodecID: k.codec, PacketType: k.form, Key: k.key, OnBufferAlloc: al.fn()}
	if k.dress != nil {
		k.dress(pkt)
	}
	h26x := k.codec == utils.AVCodecIdH264 || k.codec == utils.AVCodecIdH265
	hv := k.codec == utils.AVCodecIdH265
	var first [2][]byte
	var live [2][]byte
	for _, q := range reqs {
		c.Step()
		var got []byte
		name := []string{"Annex B", "length-prefixed"}[q]
		if q == 0 {
			got = avformat.AVCCPacket2AnnexB(k.stream, pkt)
		} else {
			got = avformat.AnnexBPacket2AVCC(pkt)
		}
		if live[q] != nil {
			if !bytes.Equal(got, first[q]) {
				c.Failf("%s form requested again: % x, first answer % x", name, clipb(got), clipb(first[q]))
			}
		} else {
			first[q] = append([]byte{}, got...)
			k.check(c, q, name, got, h26x, hv)
			if ak == allocExact {
				for _, g := range al.guard {
					if len(got) > 0 && !inside(got, k.data) {
						ok := false
						for _, g := range al.guard {
							ok = ok || inside(got, g.all[:g.n])
						}
						if !ok {
							c.Failf("%s form does not lie in the memory the allocator supplied", name)
						}
					}
					_ = g
				}
				if len(al.guard) == 0 && len(got) > 0 && !inside(got, k.data) {
					c.Failf("%s form was converted without asking the packet's allocator", name)
				}
			}
		}
		live[q] = got
		for i := range live {
			if live[i] != nil && !bytes.Equal(live[i], first[i]) {
				c.Failf("the %s form handed out before changed after a request for the %s form", []string{"Annex B", "length-prefixed"}[i], name)
			}
		}
		if !bytes.Equal(pkt.Data, orig) || !bytes.Equal(k.data, orig) {
			c.Failf("the payload was modified by a request for the %s form", name)
		}
	}
	al.check(c)
}

func clipb(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func (k *c13case) check(c *ex.C, q int, name string, got []byte, h26x, hv bool) {
	sameForm := q == 0 && k.form == avformat.PacketTypeAnnexB || q == 1 && k.form == avformat.PacketTypeAVCC
	withSets := q == 0 && h26x && k.key && len(k.extra) > 0
	if !h26x || sameForm && !withSets {
		if !bytes.Equal(got, k.data) {
			c.Failf("%s form of a packet that needs no conversion differs from the payload: % x, payload % x", name, clipb(got), clipb(k.data))
		}
		return
	}
	want := trimNals(k.units)
	drop := func(n [][]byte) [][]byte {
		if hv {
			return n
		}
		return dropSEI264(n)
	}
	if q == 1 {
		nals, ok := avccNals(got, 4)
		if !ok {
			c.Failf("length-prefixed form of %d units is not well formed: % x", len(k.units), clipb(got))
		}
		if n := trimNals(nals); !eqNals(n, want) && !eqNals(n, drop(want)) {
			c.Failf("length-prefixed form holds units %s, payload %s", clip(fmtNals(nals)), clip(fmtNals(want)))
		}
		return
	}
	nals, _, ok := refNals(got)
	if len(got) > 0 && !ok {
		c.Failf("Annex B form is not a sequence of units: % x", clipb(got))
	}
	if !withSets {
		if !eqNals(nals, want) && !eqNals(nals, drop(want)) {
			c.Failf("Annex B form holds units %s, payload %s", clip(fmtNals(nals)), clip(fmtNals(want)))
		}
		return
	}
	sets, _, _ := refNals(k.extra)
	ownSets := len(want) > 0 && isSet(want[0][0], hv)
	if bytes.HasPrefix(got, k.extra) {
		if n := nals[len(sets):]; eqNals(n, want) || eqNals(n, drop(want)) {
			return
		}
	}
	if ownSets && (eqNals(nals, want) || eqNals(nals, drop(want))) {
		return
	}
	c.Failf("Annex B form of a key packet holds units %s, want the parameter sets %s followed by %s", clip(fmtNals(nals)), clip(fmtNals(sets)), clip(fmtNals(want)))
}

// isSet tells whether a payload beginning with this unit carries its own leading parameter set.
func isSet(h byte, hv bool) bool {
	if hv {
		return h>>1&0x3f == 32
	}
	return h&0x1f == 7
}

func c13stream(codec utils.AVCodecID, ls int, params int, sets [3][][]byte) (*avformat.AVStream, []byte) {
	st := &avformat.AVStream{MediaType: utils.AVMediaTypeVideo, CodecID: codec}
	if params == 0 {
		return st, nil
	}
	var cd avformat.CodecData
	var err error
	switch {
	case codec == utils.AVCodecIdH265 && params == 1:
		hdr := []byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0c | byte(ls-1)}
		cd, err = avformat.ParseHEVCDecoderConfigurationRecord(hevcRecord(hdr, []hvArray{{32, true, sets[0]}, {33, true, sets[1]}, {34, true, sets[2]}}))
	case codec == utils.AVCodecIdH265:
		cd, err = avformat.NewHEVCCodecData(cat(sc4, sets[0][0]), cat(sc4, sets[1][0]), cat(sc4, sets[2][0]))
	case params == 1:
		cd, err = avformat.ParseAVCDecoderConfigurationRecord(avcRecord([4]byte{1, 66, 0xc0, 30}, byte(ls-1), true, sets[1], sets[2]))
	default:
		cd, err = avformat.NewAVCCodecData(cat(sc4, sets[1][0]), cat(sc4, sets[2][0]))
	}
	if err != nil {
		panic(err)
	}
	st.CodecParameters = cd
	return st, append([]byte{}, cd.AnnexBExtraData()...)
}

var c13sets264 = [3][][]byte{nil, {validAVC[0].nal}, {{0x68, 0xce, 0x3c, 0x80}}}
var c13sets265 = [3][][]byte{{{0x40, 1, 0x0c, 1, 0xff}}, {validHEVC[0].nal}, {{0x44, 1, 0xc1, 0x72}}}

var c13reqs = func() (r [][]int) {
	for n := 1; n <= 4; n++ {
		for m := 0; m < 1<<n; m++ {
			var s []int
			for i := 0; i < n; i++ {
				s = append(s, m>>i&1)
			}
			r = append(r, s)
		}
	}
	return
}()

// c13longer are the request orders that no shorter order is a prefix of.
func c13full(n int) [][]int {
	var r [][]int
	for _, q := range c13reqs {
		if len(q) == n {
			r = append(r, q)
		}
	}
	return r
}

func c13payload(k *c13case, scm int) {
	if k.form == avformat.PacketTypeAVCC {
		k.data = lenPrefix(k.units, k.ls)
	} else {
		for i, u := range k.units {
			k.data = append(append(k.data, codes[(scm>>(i%2))&1]...), u...)
		}
	}
	k.data = append(make([]byte, 0, len(k.data)), k.data...)
}

func init() {
	run.Register(&run.Prop{ID: "C13", Spaces: func(th bool) []*ex.Space {
		n, rq := 3, 3
		if th {
			n, rq = 4, 4
		}
		alpha264 := [][]byte{{0x65, 0x88}, {0x41, 0x9a, 0, 0, 3, 1}, {0x06, 5, 0x80}, {0x09, 0xf0}, cat(c13sets264[1][0]), {0x68, 0xce}, {0x25}}
		alpha265 := [][]byte{{0x26, 1, 0xaf}, {0x02, 1, 0, 0, 3, 1}, {0x4e, 1, 5, 0x80}, {0x46, 1, 0x50}, {0x40, 1, 9}, cat(c13sets265[1][0]), {0x44, 1, 7}, {0x2a, 1}}
		forms := []avformat.PacketType{avformat.PacketTypeAnnexB, avformat.PacketTypeAVCC}
		return []*ex.Space{
			{Name: "h264", Bound: fmt.Sprintf("1..%d units of 7 kinds x framing (length size 1, 2, 4) x start codes x key x parameters (none, record with 1..2 sets, from a key frame) x 4 allocators x request orders up to %d", n, rq), Run: func(c *ex.C) {
				f := c.Choose(4)
				k := &c13case{codec: utils.AVCodecIdH264, ls: []int{4, 4, 2, 1}[f], form: forms[0], key: c.Bool()}
				if f > 0 {
					k.form = forms[1]
				}
				p := c.Choose(4)
				if p != 1 && p != 3 && k.ls != 4 {
					c.Skip() // only a record can announce another length size
				}
				sets := c13sets264
				if p == 3 {
					p = 1
					sets[1] = append(append([][]byte{}, sets[1]...), validAVC[1].nal)
					sets[2] = append(append([][]byte{}, sets[2]...), []byte{0x68, 0xee})
				}
				k.stream, k.extra = c13stream(k.codec, k.ls, p, sets)
				ak := c.Choose(numAlloc)
				req := c13full(rq)[c.Choose(1<<rq)]
				k.units = nalSeq(c, alpha264, n)
				if len(k.units) == 0 {
					c.Skip()
				}
				scm := 0
				if k.form == avformat.PacketTypeAnnexB {
					scm = c.Choose(4)
				}
				c13payload(k, scm)
				c.Logf("H.264 form %d length size %d key %v extra % x payload % x allocator %d requests %v", k.form, k.ls, k.key, k.extra, k.data, ak, req)
				c13run(c, k, ak, req)
			}},
			{Name: "surroundings", Bound: "one packet of three units per codec, framing, key flag and parameters x what does not matter for its form (8 decoding and presentation times, 3 indices, 3 time bases, durations, buffer indices, created now or never, stream index, data and time base) x request orders up to 3", Run: func(c *ex.C) {
				k := &c13case{codec: utils.AVCodecIdH264, ls: 4, form: forms[c.Choose(2)], key: c.Bool()}
				sets := c13sets264
				k.units = [][]byte{{0x09, 0xf0}, {0x65, 0x88, 0x80}, {0x41, 0x9a, 2}}
				if c.Bool() {
					k.codec, sets = utils.AVCodecIdH265, c13sets265
					k.units = [][]byte{{0x46, 1, 0x50}, {0x26, 1, 0xaf}, {0x02, 1, 0xd0, 9}}
				}
				k.stream, k.extra = c13stream(k.codec, k.ls, c.Choose(3), sets)
				t := [][2]int64{{0, 0}, {1, 1}, {0, 40}, {40, 0}, {-40, 40}, {90000, 90000}, {1 << 33, 1 << 33}, {-1 << 40, 1 << 40}}[c.Choose(8)]
				idx, tb := []int{0, 1, 7}[c.Choose(3)], []int{0, 1000, 90000}[c.Choose(3)]
				dur, created := []int64{0, 40}[c.Choose(2)], []int64{0, 1 << 40}[c.Choose(2)]
				bi := []int{0, 3}[c.Choose(2)]
				if c.Bool() {
					k.stream.Index, k.stream.Timebase, k.stream.Data = idx, tb, []byte{1, 2, 3}
				}
				req := c13full(3)[c.Choose(8)]
				k.dress = func(p *avformat.AVPacket) {
					p.Dts, p.Pts, p.Index, p.Timebase, p.Duration, p.CreatedTime, p.BufferIndex = t[0], t[1], idx, tb, dur, created, bi
				}
				c13payload(k, 0)
				c.Logf("codec %v form %d key %v decoded at %d presented at %d index %d buffer %d time base %d duration %d requests %v", k.codec, k.form, k.key, t[0], t[1], idx, bi, tb, dur, req)
				c13run(c, k, allocNone, req)
			}},
			{Name: "h265", Bound: fmt.Sprintf("1..%d units of 8 kinds x framing (length size 1, 2, 4) x start codes x key x parameters x 4 allocators x request orders up to %d", n, rq), Run: func(c *ex.C) {
				f := c.Choose(4)
				k := &c13case{codec: utils.AVCodecIdH265, ls: []int{4, 4, 2, 1}[f], form: forms[0], key: c.Bool()}
				if f > 0 {
					k.form = forms[1]
				}
				p := c.Choose(3)
				if p != 1 && k.ls != 4 {
					c.Skip() // only a record can announce another length size
				}
				k.stream, k.extra = c13stream(k.codec, k.ls, p, c13sets265)
				ak := c.Choose(numAlloc)
				req := c13full(rq)[c.Choose(1<<rq)]
				k.units = nalSeq(c, alpha265, n)
				if len(k.units) == 0 {
					c.Skip()
				}
				scm := 0
				if k.form == avformat.PacketTypeAnnexB {
					scm = c.Choose(4)
				}
				c13payload(k, scm)
				c.Logf("H.265 form %d length size %d key %v extra % x payload % x allocator %d requests %v", k.form, k.ls, k.key, k.extra, k.data, ak, req)
				c13run(c, k, ak, req)
			}},
			{Name: "two-packets", Bound: fmt.Sprintf("two packets of one stream (1 unit of 5 kinds each, key or not, framing each) x parameters x allocators, every order of %d requests among both", rq+1), Run: func(c *ex.C) {
				hv := c.Bool()
				id, sets, alpha := utils.AVCodecIdH264, c13sets264, alpha264
				if hv {
					id, sets, alpha = utils.AVCodecIdH265, c13sets265, alpha265
				}
				alpha = [][]byte{alpha[0], alpha[1], alpha[2], alpha[4], longBody(alpha[0][0], 150)}
				if hv {
					alpha[4][1] = 1
				}
				st, extra := c13stream(id, 4, c.Choose(3), sets)
				st.Index = 1
				ak := c.Choose(numAlloc)
				al := &alloc{kind: ak}
				type one struct {
					k     *c13case
					pkt   *avformat.AVPacket
					orig  []byte
					first [2][]byte
					live  [2][]byte
				}
				var ps [2]*one
				for i := range ps {
					k := &c13case{codec: id, ls: 4, form: forms[c.Choose(2)], key: c.Bool(), stream: st, extra: extra}
					k.units = [][]byte{append([]byte{}, alpha[c.Choose(len(alpha))]...)}
					u := k.units[0]
					u[len(u)-1] ^= byte(i) << 4 // tell the packets apart
					c13payload(k, 3)
					ps[i] = &one{k: k, orig: append([]byte{}, k.data...), pkt: &avformat.AVPacket{Data: k.data, MediaType: utils.AVMediaTypeVideo, CodecID: id, PacketType: k.form, Key: k.key, OnBufferAlloc: al.fn()}}
					c.Logf("packet %d: form %d key %v payload % x", i, k.form, k.key, clipb(k.data))
				}
				names := []string{"Annex B", "length-prefixed"}
				for n := 0; n < rq+1; n++ {
					i, q := c.Choose(2), c.Choose(2)
					p := ps[i]
					c.Logf("packet %d as %s", i, names[q])
					c.Step()
					var got []byte
					if q == 0 {
						got = avformat.AVCCPacket2AnnexB(st, p.pkt)
					} else {
						got = avformat.AnnexBPacket2AVCC(p.pkt)
					}
					if p.live[q] == nil {
						p.k.check(c, q, names[q], got, true, hv)
						p.first[q] = append([]byte{}, got...)
					}
					p.live[q] = got
					for j, o := range ps {
						for f := range o.live {
							if o.live[f] != nil && !bytes.Equal(o.live[f], o.first[f]) {
								c.Failf("the %s form of packet %d is % x after packet %d was asked for its %s form, before it was % x", names[f], j, clipb(o.live[f]), i, names[q], clipb(o.first[f]))
							}
						}
						if !bytes.Equal(o.pkt.Data, o.orig) {
							c.Failf("the payload of packet %d was modified", j)
						}
					}
					if st.CodecParameters != nil && !bytes.Equal(st.CodecParameters.AnnexBExtraData(), extra) {
						c.Failf("the stream's parameter sets were modified")
					}
				}
				al.check(c)
			}},
			{Name: "counts", Bound: "1..300, 511..513, 600, 1025 and 3000 units of 1..3 bytes, every framing, length size, key, allocator", Run: func(c *ex.C) {
				cnt := 1 + c.Choose(306)
				if cnt > 300 {
					cnt = []int{511, 512, 513, 600, 1025, 3000}[cnt-301]
				}
				hv := c.Bool()
				k := &c13case{codec: utils.AVCodecIdH264, ls: 4, key: c.Bool()}
				sets, ls := c13sets264, []int{4, 2, 1}
				if hv {
					k.codec, sets = utils.AVCodecIdH265, c13sets265
				}
				f := c.Choose(1 + len(ls))
				k.form = forms[0]
				if f > 0 {
					k.form, k.ls = forms[1], ls[f-1]
				}
				k.stream, k.extra = c13stream(k.codec, k.ls, 1, sets)
				sz := 1 + c.Choose(3)
				if hv && sz == 1 {
					sz = 2
				}
				for i := 0; i < cnt; i++ {
					h := []byte{0x65, 0x41}[i%2]
					if hv {
						h = []byte{0x26, 0x02}[i%2]
					}
					u := []byte{h, 1, byte(i)}[:sz]
					if u[sz-1] == 0 {
						u[sz-1] = 7
					}
					k.units = append(k.units, u)
				}
				c13payload(k, c.Choose(2)*3)
				ak := c.Choose(numAlloc)
				c.Logf("%v form %d ls %d key %v, %d units of %d bytes, allocator %d", k.codec, k.form, k.ls, k.key, cnt, sz, ak)
				c13run(c, k, ak, []int{0, 1, 0, 1})
			}},
			{Name: "sizes", Bound: "1..3 units of sizes around powers of two up to 70000, 1 of 1 MiB and more", Run: func(c *ex.C) {
				sizes := []int{2, 127, 128, 254, 255, 256, 257, 1000, 1024, 4096, 65534, 65535, 65536, 70000, 1<<20 + 2, 3 << 20}
				sz := sizes[c.Choose(len(sizes))]
				hv := c.Bool()
				k := &c13case{codec: utils.AVCodecIdH264, ls: 4, key: c.Bool()}
				sets, ls := c13sets264, []int{4, 2, 1}
				if hv {
					k.codec, sets = utils.AVCodecIdH265, c13sets265
				}
				f := c.Choose(1 + len(ls))
				k.form = forms[0]
				if f > 0 {
					k.form, k.ls = forms[1], ls[f-1]
					if k.ls < 4 && sz >= 1<<(8*k.ls) {
						c.Skip()
					}
				}
				k.stream, k.extra = c13stream(k.codec, k.ls, 1, sets)
				cnt := 1
				if sz < 1<<20 {
					cnt += c.Choose(3)
				}
				for i := 0; i < cnt; i++ {
					h := []byte{0x65, 0x41}[i%2]
					if hv {
						h = []byte{0x26, 0x02}[i%2]
					}
					u := longBody(h, sz)
					if hv && sz > 1 {
						u[1] = 1
					}
					k.units = append(k.units, u)
				}
				c13payload(k, c.Choose(2)*3)
				ak := c.Choose(numAlloc)
				c.Logf("%v form %d ls %d key %v, %d units of %d bytes, allocator %d", k.codec, k.form, k.ls, k.key, len(k.units), sz, ak)
				c13run(c, k, ak, []int{0, 1, 0, 1})
			}},
			{Name: "other-codecs", Bound: "6 other video codecs x framing x key x payloads up to 4 bytes (also empty)", Run: func(c *ex.C) {
				ids := []utils.AVCodecID{utils.AVCodecIdMPEG4, utils.AVCodecIdVP8, utils.AVCodecIdVP9, utils.AVCodecIdAV1, utils.AVCodecIdVVC, utils.AVCodecIdMJPEG}
				k := &c13case{codec: ids[c.Choose(len(ids))], ls: 4, form: []avformat.PacketType{0, 1, 2, 3}[c.Choose(4)], key: c.Bool()}
				k.stream, _ = c13stream(k.codec, 4, 0, c13sets264)
				k.data = str(c, []byte{0, 1, 0x67}, 4)
				req := c13full(2)[c.Choose(4)]
				c13run(c, k, c.Choose(numAlloc), req)
			}},
		}
	}, Assumptions: []string{"allocators return exactly the requested number of bytes", "NAL units are not empty and do not end in zero bytes", "a key packet whose payload begins with its own parameter sets may be returned as it is", "the packet's codec is its stream's codec"}})
}
