package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

// C32: a chain of demuxers. Each stage has the base demuxer of one container style, ring buffers for
// its payloads and a handler that converts every packet to the next stage's style, as a
// remuxer does.

// ringPipe is a data pipeline over one small real ring buffer per stream.
type ringPipe struct {
	b map[int]*collections.RBBlockBuffer
}

func (p *ringPipe) at(i int) *collections.RBBlockBuffer {
	if p.b[i] == nil {
		p.b[i] = collections.NewRBBlockBuffer(200)
	}
	return p.b[i]
}
func (p *ringPipe) Write(data []byte, i int, _ utils.AVMediaType) (int, error) {
	p.at(i).Write(data)
	return len(data), nil
}
func (p *ringPipe) Fetch(i int) ([]byte, error) { return p.at(i).Fetch(), nil }
func (p *ringPipe) DiscardBackPacket(i int)     { p.at(i).PopBack() }
func (p *ringPipe) DiscardHeadPacket(i int)     { p.at(i).Pop() }
func (p *ringPipe) PendingBlockSize(i int) int  { return p.at(i).PendingBlockSize() }

// rmPacket is what must come out for one packet that went in.
type rmPacket struct {
	units    [][]byte // video; parameter sets excluded
	audio    []byte   // raw AAC frame or samples
	ms, ptms int64
	key      bool
}

type rmStage struct {
	x      *remux
	d      *avformat.BaseDemuxer
	pipe   *ringPipe
	next   *rmStage
	tracks []avformat.Track
	got    [2][]rmPacket
	seen   int
}

type remux struct {
	c       *ex.C
	video   utils.AVCodecID
	audio   utils.AVCodecID
	rate    int // index of the AAC rate
	ch      int
	sets    [3][][]byte
	w, h    int
	stages  []*rmStage
	sent    [2][]rmPacket
	seq     int
	lenSize int  // of the source
	inband  bool // parameter sets in every key frame of a start-code source
	base    int64
	now     int64
}

var rmNames = []string{"flv", "ps", "ts", "jt1078"}

func rmTimebase(name string) int64 {
	if name == "flv" || name == "jt1078" {
		return 1000
	}
	return 90000
}

func (x *remux) hevc() bool { return x.video == utils.AVCodecIdH265 }

func (s *rmStage) avcc() bool { return s.d.Name == "flv" }

// ls is the size of the NAL length fields at this stage: the source's as long
// as nothing was converted on the way, 4 after a conversion.
func (s *rmStage) ls() int {
	for _, t := range s.x.stages {
		if !t.avcc() {
			return 4
		}
		if t == s {
			break
		}
	}
	return s.x.lenSize
}

// feed hands one unit of data to the stage's pipeline and returns it as the demuxer would see it.
func (s *rmStage) feed(i int, mt utils.AVMediaType, data []byte) []byte {
	k := len(data) / 3
	s.pipe.Write(data[:k], i, mt)
	s.pipe.Write(data[k:], i, mt)
	f, _ := s.pipe.Fetch(i)
	return f
}

func (s *rmStage) videoHeader(data []byte) {
	i := s.d.FindBufferIndexByMediaType(utils.AVMediaTypeVideo)
	if s.d.OnNewVideoTrack(i, s.x.video, s.d.GetTimebase(), s.feed(i, utils.AVMediaTypeVideo, data)) == nil {
		s.x.c.Failf("stage %s refuses the decoder configuration % x", s.d.Name, data)
	}
}

func (s *rmStage) audioHeader(data []byte) {
	i := s.d.FindBufferIndexByMediaType(utils.AVMediaTypeAudio)
	if s.d.OnNewAudioTrack(i, s.x.audio, s.d.GetTimebase(), s.feed(i, utils.AVMediaTypeAudio, data), avformat.AudioConfig{}) == nil {
		s.x.c.Failf("stage %s refuses the audio configuration % x", s.d.Name, data)
	}
}

func (s *rmStage) packet(video bool, data []byte, key bool, dts, pts int64) {
	s.seen++
	if video {
		i := s.d.FindBufferIndexByMediaType(utils.AVMediaTypeVideo)
		f := s.feed(i, utils.AVMediaTypeVideo, data)
		s.d.OnVideoPacket(i, s.x.video, f, key, dts, pts, s.d.GetPackType())
	} else {
		i := s.d.FindBufferIndexByMediaType(utils.AVMediaTypeAudio)
		s.d.OnAudioPacket(i, s.x.audio, s.feed(i, utils.AVMediaTypeAudio, data), dts)
	}
}

func (s *rmStage) OnTrackNotFind() { s.x.c.Failf("stage %s found no track", s.d.Name) }
func (s *rmStage) OnTrackComplete() {
}

func (s *rmStage) OnNewTrack(t avformat.Track) {
	s.tracks = append(s.tracks, t)
	x, st := s.x, t.GetStream()
	if st.MediaType == utils.AVMediaTypeAudio {
		rate, ch := aacRates[x.rate], aacChans[x.ch]
		if x.audio != utils.AVCodecIdAAC {
			rate, ch = 8000, 1
		}
		if st.CodecID != x.audio || st.SampleRate != rate || st.Channels != ch {
			if x.audio == utils.AVCodecIdAAC || !s.avcc() {
				x.c.Failf("stage %s: audio track %v with %d Hz, %d channels, the source has %v, %d Hz, %d", s.d.Name, st.CodecID, st.SampleRate, st.Channels, x.audio, rate, ch)
			}
		}
		if s.next != nil && s.next.avcc() {
			if x.audio == utils.AVCodecIdAAC {
				s.next.audioHeader(st.Data)
			}
		}
		return
	}
	cp := st.CodecParameters
	if st.CodecID != x.video || cp == nil {
		x.c.Failf("stage %s: video track %v without parameters", s.d.Name, st.CodecID)
	}
	same := func(a, b [][]byte) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !bytes.Equal(avc.RemoveStartCode(a[i]), b[i]) {
				return false
			}
		}
		return true
	}
	if cp.Width() != x.w || cp.Height() != x.h || !same(cp.SPS(), x.sets[1]) || !same(cp.PPS(), x.sets[2]) {
		x.c.Failf("stage %s: %dx%d, SPS %x, PPS %x, the source has %dx%d, %x, %x", s.d.Name, cp.Width(), cp.Height(), cp.SPS(), cp.PPS(), x.w, x.h, x.sets[1], x.sets[2])
	}
	if s.next != nil && s.next.avcc() {
		s.next.videoHeader(cp.MP4ExtraData())
	}
}

// OnPacket records the packet and passes it on.
func (s *rmStage) OnPacket(p *avformat.AVPacket) {
	x := s.x
	tb := int(rmTimebase(s.d.Name))
	if p.Timebase != tb {
		x.c.Failf("stage %s: a packet in time base %d", s.d.Name, p.Timebase)
	}
	st := s.tracks[p.Index].GetStream()
	r := rmPacket{ms: p.ConvertDts(1000), ptms: p.ConvertPts(1000), key: p.Key}
	if p.MediaType == utils.AVMediaTypeAudio {
		r.audio = append([]byte{}, p.Data...)
		if x.audio == utils.AVCodecIdAAC && st.HasADTSHeader {
			if len(p.Data) < 7 || !bytes.Equal(p.Data[:7], adts(x.rate, x.ch, p.Data[7:])[:7]) {
				x.c.Failf("stage %s: an AAC packet without its header: % x", s.d.Name, p.Data)
			}
			r.audio = r.audio[7:]
		}
	} else {
		r.units = s.units(p.Data)
	}
	s.got[b2i(p.MediaType == utils.AVMediaTypeAudio)] = append(s.got[b2i(p.MediaType == utils.AVMediaTypeAudio)], r)
	n := s.next
	if n == nil {
		return
	}
	ntb := n.d.GetTimebase()
	dts, pts := p.ConvertDts(ntb), p.ConvertPts(ntb)
	if p.MediaType == utils.AVMediaTypeAudio {
		data := p.Data
		if x.audio == utils.AVCodecIdAAC && st.HasADTSHeader && n.avcc() {
			_, skip, _, err := avformat.ExtractAudioExtraData(st.CodecID, p.Data)
			if err != nil {
				x.c.Failf("stage %s: %v", s.d.Name, err)
			}
			data = data[skip:]
		} else if x.audio == utils.AVCodecIdAAC && !st.HasADTSHeader && !n.avcc() {
			cfg, err := utils.ParseMpeg4AudioConfig(st.Data)
			if err != nil {
				x.c.Failf("stage %s: %v", s.d.Name, err)
			}
			h := make([]byte, 7, 7+len(data))
			utils.SetADtsHeader(h, 0, cfg.ObjectType-1, utils.GetSampleRateIndex(cfg.SampleRate), cfg.ChanConfig, 7+len(data))
			data = append(h, data...)
		}
		n.packet(false, data, false, dts, pts)
		return
	}
	if n.avcc() {
		data := p.Data
		if p.PacketType == avformat.PacketTypeAnnexB {
			data = avformat.AnnexBPacket2AVCC(p)
		}
		n.packet(true, data, p.Key, dts, pts)
		return
	}
	data := avformat.AVCCPacket2AnnexB(st, p)
	if k := avformat.IsKeyFrame(st.CodecID, data); k != p.Key {
		x.c.Failf("stage %s: the converted packet is recognised as a key frame: %v, it is one: %v", s.d.Name, k, p.Key)
	}
	n.packet(true, data, p.Key, dts, pts)
}

// units returns the NAL units of a packet of this stage without parameter sets.
func (s *rmStage) units(data []byte) (r [][]byte) {
	var all [][]byte
	ok := false
	if s.avcc() {
		all, ok = avccNals(data, s.ls())
	} else {
		all, _, ok = refNals(data)
	}
	if !ok {
		s.x.c.Failf("stage %s: malformed payload % x", s.d.Name, clipb(data))
	}
	for _, n := range all {
		if len(n) > 0 && !rmSet(n[0], s.x.hevc()) {
			r = append(r, append([]byte{}, n...))
		}
	}
	return
}

func newRemux(c *ex.C, video, audio utils.AVCodecID, chain []string) *remux {
	x := &remux{c: c, video: video, audio: audio, rate: 4, ch: 2, lenSize: 4}
	if x.hevc() {
		x.sets, x.w, x.h = [3][][]byte{c13sets265[0], {validHEVC[1].nal}, c13sets265[2]}, validHEVC[1].w, validHEVC[1].h
	} else {
		x.sets, x.w, x.h = [3][][]byte{nil, {validAVC[1].nal}, c13sets264[2]}, validAVC[1].w, validAVC[1].h
	}
	for _, n := range chain {
		s := &rmStage{x: x, pipe: &ringPipe{map[int]*collections.RBBlockBuffer{}}}
		s.d = &avformat.BaseDemuxer{Name: n, AutoFree: true, DataPipeline: s.pipe}
		s.d.SetHandler(s)
		s.d.SetProbeDuration(1 << 40)
		if len(x.stages) > 0 {
			x.stages[len(x.stages)-1].next = s
		}
		x.stages = append(x.stages, s)
	}
	return x
}

// start announces the tracks of a source with codec headers.
func (x *remux) start(audioFirst bool) {
	s := x.stages[0]
	if !s.avcc() {
		return
	}
	v := func() {
		if x.hevc() {
			hdr := make([]byte, 22)
			hdr[0], hdr[21] = 1, byte(x.lenSize-1)
			s.videoHeader(hevcRecord(hdr, []hvArray{{typ: 32, nals: x.sets[0]}, {typ: 33, nals: x.sets[1]}, {typ: 34, nals: x.sets[2]}}))
		} else {
			s.videoHeader(avcRecord([4]byte{1, 66, 0xc0, 30}, byte(x.lenSize-1), true, x.sets[1], x.sets[2]))
		}
	}
	if !audioFirst {
		v()
	}
	if x.audio == utils.AVCodecIdAAC {
		n := 2<<11 | x.rate<<7 | x.ch<<3
		s.audioHeader([]byte{byte(n >> 8), byte(n)})
	}
	if audioFirst {
		v()
	}
}

const rmKinds = 6

// send feeds one packet into the source: key with one unit, key with two units (one of them
// long), inter, inter with two units, inter with emulation prevention, audio.
func (x *remux) send(kind int, step int64) {
	s := x.stages[0]
	x.c.Step()
	x.seq++
	x.now += step
	ms := x.base + x.now
	tb := rmTimebase(s.d.Name)
	id := binary.BigEndian.AppendUint16([]byte{0xc5}, uint16(x.seq)|0x8080)
	if kind == 5 {
		raw := id
		x.c.Logf("%s: audio packet % x at %d ms", s.d.Name, raw, ms)
		x.sent[1] = append(x.sent[1], rmPacket{audio: raw, ms: ms, ptms: ms})
		if x.audio == utils.AVCodecIdAAC && !s.avcc() {
			s.packet(false, adts(x.rate, x.ch, raw), false, ms*tb/1000, ms*tb/1000)
		} else {
			s.packet(false, raw, false, ms*tb/1000, ms*tb/1000)
		}
		return
	}
	key := kind < 2
	unit := func(n int, tail ...byte) []byte {
		h := []byte{0x41, 0x9a}
		switch {
		case x.hevc() && key:
			h = []byte{0x26, 1, 0x80}
		case x.hevc():
			h = []byte{2, 1, 0x80}
		case key:
			h = []byte{0x65, 0x88}
		}
		return append(append(append(h, id...), byte(0x81+n)), tail...)
	}
	us := [][]byte{unit(0)}
	switch kind {
	case 1:
		us = append(us, unit(1, bytes.Repeat([]byte{0x5a}, 300)...))
	case 3:
		us = append(us, unit(1))
	case 4:
		us = [][]byte{unit(0, 0, 0, 3, 1, 0, 0, 3, 0, 0x80)}
	}
	pms := ms + []int64{0, 40, 80}[x.seq%3]
	var data []byte
	if s.avcc() {
		data = lenPrefix(us, s.ls())
	} else {
		all := us
		if key && (x.inband || len(x.sent[0]) == 0) {
			all = append(append(append(append([][]byte{}, x.sets[0]...), x.sets[1]...), x.sets[2]...), us...)
		}
		for i, u := range all {
			code := sc4b
			if (i+x.seq)%2 == 1 {
				code = sc4b[1:]
			}
			data = cat(data, code, u)
		}
	}
	x.c.Logf("%s: video packet, key %v, %d units (% x) at %d/%d ms", s.d.Name, key, len(us), id, ms, pms)
	x.sent[0] = append(x.sent[0], rmPacket{units: us, ms: ms, ptms: pms, key: key})
	s.packet(true, data, key, ms*tb/1000, pms*tb/1000)
}

// settle completes probing of every stage that has both tracks.
func (x *remux) settle(from int) {
	for i, s := range x.stages {
		if !s.d.Completed && s.d.Tracks.Size() == 2 && (i > 0 || s.seen >= from) {
			x.c.Logf("stage %s completes probing", s.d.Name)
			s.d.ProbeComplete()
		}
	}
}

func (s *rmStage) check(c *ex.C, depth int, last bool) {
	for k, name := range []string{"video", "audio"} {
		sent, got := s.x.sent[k], s.got[k]
		if len(got) > len(sent) {
			c.Failf("stage %s delivered %d %s packets, %d went in", s.d.Name, len(got), name, len(sent))
		}
		if last && len(got) != len(sent)-depth {
			c.Failf("stage %d (%s) delivered %d of %d %s packets, every stage may hold one back", depth, s.d.Name, len(got), len(sent), name)
		}
		for i, g := range got {
			w := sent[i]
			if !eqNals(g.units, w.units) || !bytes.Equal(g.audio, w.audio) {
				c.Failf("stage %d (%s), %s packet %d: units %x%x, sent %x%x", depth, s.d.Name, name, i, clipNals(g.units), g.audio, clipNals(w.units), w.audio)
			}
			if g.ms != w.ms || g.ptms != w.ptms || g.key != w.key {
				c.Failf("stage %d (%s), %s packet %d: %d/%d ms, key %v, sent %d/%d ms, key %v", depth, s.d.Name, name, i, g.ms, g.ptms, g.key, w.ms, w.ptms, w.key)
			}
		}
	}
}

func clipNals(n [][]byte) [][]byte {
	var r [][]byte
	for _, u := range n {
		if len(u) > 24 {
			u = u[:24]
		}
		r = append(r, u)
	}
	return r
}

func (x *remux) run(from int, kinds func(i int) int, n int, step func(i int) int64, audioFirst bool) {
	x.start(audioFirst)
	if audioFirst {
		x.send(5, 0)
		x.send(0, 0)
	} else {
		x.send(0, 0)
		x.send(5, 0)
	}
	x.settle(from)
	for i := 0; i < n; i++ {
		x.send(kinds(i), step(i))
		x.settle(from)
	}
	x.c.Logf("more packets until every stage has completed")
	for i := 0; i < 2*len(x.stages)+1; i++ {
		x.send(2, 20)
		x.send(5, 0)
		x.settle(0)
	}
	for i, s := range x.stages {
		s.check(x.c, i+1, true)
	}
}

func init() {
	run.Register(&run.Prop{ID: "C32", Spaces: func(th bool) []*ex.Space {
		d, d3 := 4, 3
		if th {
			d, d3 = 5, 4
		}
		vc := []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265}
		pick := func(c *ex.C, n int) (chain []string) {
			for i := 0; i < n; i++ {
				chain = append(chain, rmNames[c.Choose(len(rmNames))])
			}
			c.Logf("chain %s", strings.Join(chain, " -> "))
			return
		}
		body := func(c *ex.C, chain []string, n int) {
			v := vc[c.Choose(2)]
			a := utils.AVCodecIdAAC
			if !strings.Contains(strings.Join(chain, " "), "flv") {
				a = []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW}[c.Choose(2)]
			}
			x := newRemux(c, v, a, chain)
			x.inband = c.Choose(2) == 1
			from := []int{2, 4}[c.Choose(2)]
			audioFirst := c.Choose(2) == 1
			x.run(from, func(int) int { return c.Choose(rmKinds) }, n, func(i int) int64 { return []int64{20, 0, 33}[i%3] }, audioFirst)
		}
		return []*ex.Space{
			{Name: "one-hop", Bound: fmt.Sprintf("every pair of container styles (flv, ps, ts, jt1078) x H.264/H.265 x AAC/A-law x parameter sets in every key frame or the first x probing ended early or later x who comes first x every sequence of %d packets of %d kinds", d, rmKinds), Run: func(c *ex.C) { body(c, pick(c, 2), d) }},
			{Name: "two-hops", Bound: fmt.Sprintf("every chain of three container styles, the same with every sequence of %d packets", d3), Run: func(c *ex.C) { body(c, pick(c, 3), d3) }},
			{Name: "long", Bound: "every chain of 2..3 container styles x codec x 1..60 packets in a fixed pattern of kinds x probing ended after 2..60 packets", Run: func(c *ex.C) {
				chain := pick(c, 2+c.Choose(2))
				x := newRemux(c, vc[c.Choose(2)], utils.AVCodecIdAAC, chain)
				pat := [][]int{{0, 2, 5, 4, 5, 1, 3, 5}, {5, 5, 5, 1, 5, 2, 3, 4, 1}, {2, 2, 2, 2, 0, 5}}[c.Choose(3)]
				n := []int{1, 2, 7, 20, 60}[c.Choose(5)]
				from := []int{2, 5, 17, 60}[c.Choose(4)]
				x.run(from, func(i int) int { return pat[i%len(pat)] }, n, func(i int) int64 { return int64(i % 4 * 11) }, c.Choose(2) == 1)
			}},
			{Name: "length-sizes", Bound: "every chain of 2..3 styles from a length-prefixed source announcing NAL length fields of 1, 2 or 4 bytes x codec x every sequence of 3 packets of units below 200 bytes, 20 or 260 packets", Run: func(c *ex.C) {
				chain := append([]string{"flv"}, pick(c, 1+c.Choose(2))...)
				x := newRemux(c, vc[c.Choose(2)], utils.AVCodecIdAAC, chain)
				x.lenSize = []int{4, 2, 1}[c.Choose(3)]
				kinds := []int{0, 2, 3, 4, 5}
				if x.lenSize > 1 {
					kinds = append(kinds, 1)
				}
				if c.Choose(2) == 0 {
					x.run(2, func(int) int { return kinds[c.Choose(len(kinds))] }, 3, func(i int) int64 { return 20 }, false)
					return
				}
				n := []int{20, 260}[c.Choose(2)]
				x.run(2+c.Choose(2)*15, func(i int) int { return kinds[i*i%len(kinds)] }, n, func(i int) int64 { return int64(i % 4 * 11) }, false)
			}},
			{Name: "times", Bound: "every pair of container styles x codec x base times 0, -1 s, 2^31 and 2^33 ticks, 2^40 ms and around x steps 1, 33, 1000 ms, hours", Run: func(c *ex.C) {
				chain := pick(c, 2)
				x := newRemux(c, vc[c.Choose(2)], utils.AVCodecIdAAC, chain)
				x.base = []int64{0, 1, -1000, -7, 1 << 31, 1<<31 - 40, (1 << 33) / 90, 1<<40 + 3}[c.Choose(8)]
				st := []int64{1, 33, 1000, 3600000}[c.Choose(4)]
				x.run(2+c.Choose(3), func(i int) int { return []int{2, 5, 0, 5}[i%4] }, 6, func(i int) int64 { return st }, false)
			}},
			{Name: "audio", Bound: "AAC of 13 rates x 7 channel configurations through every chain of 2..3 styles", Run: func(c *ex.C) {
				x := newRemux(c, utils.AVCodecIdH264, utils.AVCodecIdAAC, pick(c, 2+c.Choose(2)))
				x.rate, x.ch = c.Choose(13), 1+c.Choose(7)
				x.run(2, func(i int) int { return []int{5, 2, 0}[i%3] }, 3, func(i int) int64 { return 23 }, c.Choose(2) == 1)
			}},
		}
	}, Assumptions: []string{"the consumer converts packets with the library's own helpers and closes the probing phase once both tracks are known", "source times are whole milliseconds, so that every time base represents them exactly", "SEI units are outside (the H.264 conversion drops them by design)"}})
}

func rmSet(h byte, hevc bool) bool {
	if hevc {
		t := h >> 1 & 0x3f
		return t >= 32 && t <= 34
	}
	return h&0x1f == 7 || h&0x1f == 8
}
