package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"unsafe"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

// ---- observation: what the demuxer did, as seen by its handler and its data pipeline ----

type dev struct {
	kind  string // track, complete, notfind, packet, back, head
	index int    // track index, or buffer index for back/head
	track avformat.Track
	pkt   avformat.AVPacket // attributes at callback time
	data  []byte            // copy of the payload at callback time
	ptr   uintptr
}

func ptrOf(b []byte) uintptr {
	if len(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(unsafe.SliceData(b)))
}

// dpipe is a data pipeline that reuses (overwrites) released memory as soon as anything is written again.
type dpipe struct {
	m       *dmx
	pending map[int][]byte
	held    map[int][][]byte
	stale   [][]byte
	real    *avformat.StreamsBuffer // when set, delegates to the real thing
}

func (p *dpipe) Write(data []byte, index int, mt utils.AVMediaType) (int, error) {
	if p.real != nil {
		return p.real.Write(data, index, mt)
	}
	for _, s := range p.stale {
		for i := range s {
			s[i] = 0xdb
		}
	}
	p.stale = nil
	p.pending[index] = append(p.pending[index], data...)
	return len(data), nil
}

func (p *dpipe) Fetch(index int) ([]byte, error) {
	if p.real != nil {
		return p.real.Fetch(index)
	}
	d := p.pending[index]
	d = d[:len(d):len(d)]
	p.pending[index] = nil
	p.held[index] = append(p.held[index], d)
	return d, nil
}

func (p *dpipe) DiscardBackPacket(index int) {
	p.m.ev = append(p.m.ev, dev{kind: "back", index: index})
	if p.real != nil {
		p.real.DiscardBackPacket(index)
		return
	}
	if h := p.held[index]; len(h) > 0 {
		p.stale = append(p.stale, h[len(h)-1])
		p.held[index] = h[:len(h)-1]
	}
}

func (p *dpipe) DiscardHeadPacket(index int) {
	if p.m.byOwner == 0 {
		p.m.ev = append(p.m.ev, dev{kind: "head", index: index})
	}
	if p.real != nil {
		p.real.DiscardHeadPacket(index)
		return
	}
	if h := p.held[index]; len(h) > 0 {
		p.stale = append(p.stale, h[0])
		p.held[index] = h[1:]
	}
}

func (p *dpipe) PendingBlockSize(index int) int {
	if p.real != nil {
		return p.real.PendingBlockSize(index)
	}
	return len(p.pending[index])
}

// ---- the driver ----

type drec struct { // an accepted packet
	dts, pts  int64
	key       bool
	ptr       uintptr
	data      []byte // what was written into the pipeline
	delivered bool
}

type dstream struct {
	buf   int
	media utils.AVMediaType
	codec utils.AVCodecID
	set   int // which parameter sets / sample rate the stream's data carries
	track int // -1: none
	now   int64
	recs  []*drec
	freed int
	// C10 model
	open    bool
	wantW   int
	wantH   int
	rate    int
	chans   int
	bitrate int
}

type dmx struct {
	c        *ex.C
	prop     string
	d        *avformat.BaseDemuxer
	pipe     *dpipe
	ev       []dev
	streams  []*dstream
	tb       int64
	seq      int
	retained []retainedPkt
	lag      int // > 0: without automatic freeing, the owner keeps at most lag-1 delivered packets
	byOwner  int
	small    int                                    // > 0: the size of the next audio packet
	vary     func() (off int64, key bool, tiny int) // the presentation offset, key flag and (> 0) size of a video packet
	hook     bool                                   // a preprocessing hook is installed that moves the times of video packets
	hooked   int                                    // times the hook was called
	gen      int                                    // number of times the handler was replaced
	react    func(kind string)
	reacting bool
	probeMs  int           // probe time asked for, in ms
	wantHook int           // times it should have been called
	opened   []openedTrack // C10
	// C07
	announced int
	state     string // "", complete, notfind
	// C10
	model string
}

type retainedPkt struct {
	p    *avformat.AVPacket
	want []byte
}

func (m *dmx) fail(prop, f string, a ...any) {
	if prop == m.prop {
		m.c.Failf(f, a...)
	}
}

type dhandler struct {
	m   *dmx
	gen int
}

// event is the start of a callback.
func (h dhandler) event() {
	if h.gen != h.m.gen {
		h.m.fail("C07", "a callback went to a handler that had been replaced")
	}
}

// react has the handler call back into the demuxer.
func (h dhandler) react(kind string) {
	m := h.m
	if m.react == nil || m.reacting {
		return
	}
	m.reacting = true
	m.react(kind)
	m.reacting = false
}

func (h dhandler) OnNewTrack(t avformat.Track) {
	h.event()
	h.m.ev = append(h.m.ev, dev{kind: "track", index: t.GetStream().Index, track: t})
	h.react("track")
}
func (h dhandler) OnTrackComplete() {
	h.event()
	h.m.ev = append(h.m.ev, dev{kind: "complete"})
	h.react("complete")
}
func (h dhandler) OnTrackNotFind() {
	h.event()
	h.m.ev = append(h.m.ev, dev{kind: "notfind"})
	h.react("notfind")
}
func (h dhandler) OnPacket(p *avformat.AVPacket) {
	h.event()
	defer h.react("packet")
	h.m.ev = append(h.m.ev, dev{kind: "packet", index: p.Index, pkt: *p, data: append([]byte{}, p.Data...), ptr: ptrOf(p.Data)})
	if !h.m.d.AutoFree {
		h.m.retained = append(h.m.retained, retainedPkt{p, append([]byte{}, p.Data...)})
		if h.m.lag > 0 {
			h.m.consume(h.m.lag - 1)
		}
	}
}

// consume has the handler's owner free delivered packets, oldest first, until at most keep are left.
func (m *dmx) consume(keep int) {
	for len(m.retained) > keep {
		r := m.retained[0]
		if !bytes.Equal(r.p.Data, r.want) {
			m.fail("C09", "the payload of a retained packet changed before its owner freed it")
		}
		m.retained = m.retained[1:]
		for _, s := range m.streams {
			if s.track == r.p.Index {
				s.freed++
			}
		}
		m.byOwner++
		m.d.DiscardHeadPacket(r.p.BufferIndex)
		m.byOwner--
		avformat.FreePacket(r.p)
	}
}

const hookShift = 11

// hookDts is what the hook adds to both times of the k-th video packet.
func (m *dmx) hookDts(k int) int64 { return int64(k%3) * 3 * m.tb / 1000 }

// setHook installs a preprocessing hook.
func (m *dmx) setHook() {
	m.hook = true
	m.d.SetOnPreprocessPacketHandler(func(p *avformat.AVPacket) {
		m.ev = append(m.ev, dev{kind: "pre", index: p.Index, pkt: *p, data: append([]byte{}, p.Data...)})
		k := m.hookDts(m.hooked)
		m.hooked++
		p.Dts += k
		p.Pts += k + hookShift
	})
}

func newDmx(c *ex.C, prop, name string, autoFree bool, probe int, streams ...*dstream) *dmx {
	m := &dmx{c: c, prop: prop, tb: 90000, streams: streams}
	if name == "flv" || name == "jt1078" {
		m.tb = 1000
	}
	m.d = &avformat.BaseDemuxer{Name: name, AutoFree: autoFree}
	m.d.SetHandler(dhandler{m, 0})
	m.d.SetProbeDuration(probe)
	m.probeMs = probe
	m.pipe = &dpipe{m: m, pending: map[int][]byte{}, held: map[int][][]byte{}}
	m.d.DataPipeline = m.pipe
	return m
}

func st(buf int, codec utils.AVCodecID, set int) *dstream {
	s := &dstream{buf: buf, codec: codec, track: -1, set: set, media: utils.AVMediaTypeAudio}
	if codec == utils.AVCodecIdH264 || codec == utils.AVCodecIdH265 {
		s.media = utils.AVMediaTypeVideo
	}
	return s
}

func (m *dmx) id() []byte {
	m.seq++
	return binary.BigEndian.AppendUint16([]byte{0xc5}, uint16(m.seq)|0x8080)
}

var (
	aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
	aacChans = []int{0, 1, 2, 3, 4, 5, 6, 8}
)

// adts returns an ADTS frame with the given rate index and channel configuration.
func adts(rate, ch int, payload []byte) []byte {
	n := 7 + len(payload)
	h := []byte{0xff, 0xf1, byte(1<<6 | rate<<2 | ch>>2), byte(ch<<6 | n>>11), byte(n >> 3), byte(n<<5 | 0x1f), 0xfc}
	return append(h, payload...)
}

var sc4b = []byte{0, 0, 0, 1}

func (s *dstream) sets() [3][][]byte {
	if s.codec == utils.AVCodecIdH264 {
		return [3][][]byte{nil, {validAVC[s.set].nal}, c13sets264[2]}
	}
	return [3][][]byte{c13sets265[0], {validHEVC[s.set].nal}, c13sets265[2]}
}

func (s *dstream) size() (int, int) {
	if s.codec == utils.AVCodecIdH264 {
		return validAVC[s.set].w, validAVC[s.set].h
	}
	return validHEVC[s.set].w, validHEVC[s.set].h
}

// payload kinds: "good" (a usable key frame / ADTS frame), "bad" (does not open a track),
// "inter" (a non-key video frame).
func (m *dmx) payload(s *dstream, kind string, size int) (data []byte, key bool) {
	id := m.id()
	switch {
	case s.codec == utils.AVCodecIdAAC && kind != "bad":
		data = adts(s.set%13, 1+s.set%7, id)
	case s.codec == utils.AVCodecIdAAC:
		data = append([]byte{0xff, 0xe1, 0x50, 0x80, 0, 0, 0}, id...)
	case s.media == utils.AVMediaTypeAudio:
		data = append([]byte{}, id...)
	case m.d.Name == "flv":
		nal := append([]byte{0x41, 0x9a}, id...)
		if kind != "inter" {
			nal[0], key = 0x65, true
		}
		data = lenPrefix([][]byte{nal}, 4)
	default:
		slice := append([]byte{0x41, 0x9a}, id...)
		idr := append([]byte{0x65, 0x88}, id...)
		if s.codec == utils.AVCodecIdH265 {
			slice = append([]byte{2, 1, 0x80}, id...)
			idr = append([]byte{0x26, 1, 0x80}, id...)
		}
		if kind == "inter" {
			data = cat(sc4b, slice)
			break
		}
		key = true
		for i, l := range s.sets() {
			if kind == "bad" && i == 2 {
				break
			}
			for _, n := range l {
				data = cat(data, sc4b, n)
			}
		}
		data = cat(data, sc4b, idr)
	}
	if size > len(data) {
		data = append(append(make([]byte, 0, size), data...), bigPattern[m.seq:m.seq+size-len(data)]...)
	}
	return
}

// inject writes data into the pipeline in 1-2 pieces and fetches the packet.
func (m *dmx) inject(s *dstream, data []byte) []byte {
	arg := append([]byte{}, data...)
	k := len(arg) / 2
	m.pipe.Write(arg[:k], s.buf, s.media)
	m.pipe.Write(arg[k:], s.buf, s.media)
	for i := range arg {
		arg[i] = 0xa5
	}
	f, _ := m.pipe.Fetch(s.buf)
	return f
}

func (m *dmx) ended() bool { return m.state != "" }

// packet feeds one packet of stream s; dms is the decoding time step in milliseconds.
func (m *dmx) packet(s *dstream, kind string, dms int64, size int) {
	m.c.Step()
	s.now += dms
	dts := s.now * m.tb / 1000
	m.packetAt(s, kind, dts, size)
}

func (m *dmx) packetAt(s *dstream, kind string, dts int64, size int) {
	data, key := m.payload(s, kind, size)
	pts := dts
	if m.small > 0 && s.media == utils.AVMediaTypeAudio {
		data = append([]byte{}, bigPattern[m.seq:m.seq+m.small]...)
	}
	if s.media == utils.AVMediaTypeVideo {
		pts = dts + int64(m.seq)*7
		if m.vary != nil {
			var off int64
			var tiny int
			if off, key, tiny = m.vary(); tiny > 0 {
				data = data[len(data)-tiny:]
			}
			pts = dts + off
			m.c.Logf("key flag %v, presented %d after it is decoded", key, off)
		}
	}
	m.c.Logf("buffer %d: %v packet (%s, %d bytes, dts %d)", s.buf, s.codec, kind, len(data), dts)
	f := m.inject(s, data)
	n0, e0 := m.d.Tracks.Size(), len(m.ev)
	p := ptrOf(f)
	done0 := m.ended()
	if s.media == utils.AVMediaTypeVideo {
		m.d.OnVideoPacket(s.buf, s.codec, f, key, dts, pts, m.d.GetPackType())
	} else {
		m.d.OnAudioPacket(s.buf, s.codec, f, dts)
	}
	m.grew(s, n0)
	if !done0 && s.track < 0 {
		// expectation of C10: is this packet usable?
	}
	m.modelOpen(s, kind, n0, done0)
	accepted := s.track >= 0
	if accepted {
		if m.hook && s.media == utils.AVMediaTypeVideo {
			k := m.hookDts(m.wantHook)
			m.wantHook++
			dts += k
			pts += k + hookShift
		}
		s.recs = append(s.recs, &drec{dts: dts, pts: pts, key: key, ptr: p, data: data})
	}
	m.after(m.ev[e0:], s, accepted, true, done0, false)
}

// header feeds a codec header (sequence header of flv-like containers).
func (m *dmx) header(s *dstream, good bool) {
	m.c.Step()
	var extra []byte
	var cfg avformat.AudioConfig
	sets := s.sets
	switch {
	case s.codec == utils.AVCodecIdH264 && m.d.GetPackType() == avformat.PacketTypeAVCC:
		x := sets()
		extra = avcRecord([4]byte{1, 66, 0xc0, 30}, 3, true, x[1], x[2])
	case s.codec == utils.AVCodecIdH265 && m.d.GetPackType() == avformat.PacketTypeAVCC:
		x := sets()
		hdr := make([]byte, 22)
		hdr[0], hdr[21] = 1, 3
		extra = hevcRecord(hdr, []hvArray{{typ: 32, nals: x[0]}, {typ: 33, nals: x[1]}, {typ: 34, nals: x[2]}})
	case s.media == utils.AVMediaTypeVideo:
		for _, l := range sets() {
			for _, n := range l {
				extra = cat(extra, sc4b, n)
			}
		}
	case s.codec == utils.AVCodecIdAAC:
		r, ch := s.set%13, 1+s.set%7
		v := 2<<11 | r<<7 | ch<<3
		extra = []byte{byte(v >> 8), byte(v)}
	default:
		cfg = avformat.AudioConfig{SampleRate: 11025, Channels: 2, SampleSize: 16}
	}
	if !good {
		extra = extra[:(len(extra)+2)/3]
	}
	m.c.Logf("buffer %d: %v codec header (%d bytes, good %v)", s.buf, s.codec, len(extra), good)
	var f []byte
	want := append([]byte{}, extra...)
	if len(extra) > 0 {
		f = m.inject(s, extra)
	} else if s.codec == utils.AVCodecIdAAC {
		f = []byte{}
	}
	n0, e0, done0 := m.d.Tracks.Size(), len(m.ev), m.ended()
	free := m.d.Name == "ts" && s.track < 0 || m.d.Tracks.FindTrackWithType(s.media) == nil
	var t avformat.Track
	if s.media == utils.AVMediaTypeVideo {
		t = m.d.OnNewVideoTrack(s.buf, s.codec, int(m.tb), f)
	} else {
		t = m.d.OnNewAudioTrack(s.buf, s.codec, int(m.tb), f, cfg)
	}
	if t != nil && done0 {
		m.fail("C07", "a track was accepted after probing had ended")
	}
	m.grew(s, n0)
	if s.track == n0 && t == nil {
		m.fail("C10", "a track was added but not returned")
	}
	expect := !done0 && free && (good || len(want) == 0)
	if got := s.track == n0 && m.d.Tracks.Size() > n0; got != expect {
		m.fail("C10", "codec header (usable %v) opened a track: %v, want %v", good, got, expect)
	} else if got {
		str := m.d.Tracks.Get(n0).GetStream()
		if s.media == utils.AVMediaTypeAudio && s.codec != utils.AVCodecIdAAC {
			s.rate, s.chans = 11025, 2
		}
		m.checkTrack(s, str)
		if !bytes.Equal(str.Data, want) {
			m.fail("C10", "the track's codec header is % x, announced was % x", str.Data, want)
		}
	}
	m.after(m.ev[e0:], s, false, len(want) > 0, done0, false)
}

// grew records which track the call opened.
func (m *dmx) grew(s *dstream, n0 int) {
	n := m.d.Tracks.Size()
	if n > n0 {
		if m.ended0() {
			m.fail("C07", "a track was registered after probing had ended")
		}
		s.track = n0
	}
}

func (m *dmx) ended0() bool { return m.state != "" }

// modelOpen compares the opening of a track by a packet with C10's rule.
func (m *dmx) modelOpen(s *dstream, kind string, n0 int, done0 bool) {
	got := m.d.Tracks.Size() > n0
	if s.track >= 0 && !got {
		return // was open already
	}
	usable := false
	w := s
	switch {
	case done0:
	case s.codec == utils.AVCodecIdAAC:
		usable = kind == "good"
	case s.media == utils.AVMediaTypeAudio:
		usable = true
	case m.d.GetPackType() == avformat.PacketTypeAnnexB:
		usable = kind == "good"
		if !usable {
			// the parameter sets of an earlier track of the same codec serve
			for _, o := range m.streams {
				if o != s && o.codec == s.codec && o.track >= 0 && (w == s || o.track < w.track) {
					w, usable = o, true
				}
			}
		}
	}
	if got != usable {
		m.fail("C10", "a %v packet (%s) on a stream without track opened a track: %v, want %v", s.codec, kind, got, usable)
		return
	}
	if got {
		old := s.set
		s.set = w.set
		m.checkTrack(s, m.d.Tracks.Get(n0).GetStream())
		s.set = old
	}
}

func (m *dmx) checkTrack(s *dstream, str *avformat.AVStream) {
	if str.CodecID != s.codec || str.MediaType != s.media || str.Timebase != int(m.tb) {
		m.fail("C10", "track opened with codec %v, media type %v, time base %d", str.CodecID, str.MediaType, str.Timebase)
	}
	switch {
	case s.media == utils.AVMediaTypeVideo:
		w, h := s.size()
		if str.CodecParameters == nil || str.CodecParameters.Width() != w || str.CodecParameters.Height() != h {
			m.fail("C10", "the video track's resolution is not %dx%d", w, h)
		}
	case s.codec == utils.AVCodecIdAAC:
		s.rate, s.chans = aacRates[s.set%13], aacChans[1+s.set%7]
	case s.rate == 0:
		s.rate, s.chans = 8000, 1
	}
	if s.media == utils.AVMediaTypeAudio && (str.SampleRate != s.rate || str.Channels != s.chans) {
		m.fail("C10", "%v track opened with %d Hz and %d channels, want %d and %d", s.codec, str.SampleRate, str.Channels, s.rate, s.chans)
	}
	if m.prop == "C10" {
		m.opened = append(m.opened, openedTrack{str, describe(str)})
	}
}

type openedTrack struct {
	str  *avformat.AVStream
	desc string
}

func describe(s *avformat.AVStream) string {
	d := fmt.Sprintf("header %x", s.Data)
	if p := s.CodecParameters; p != nil {
		d += fmt.Sprintf(", SPS %x, PPS %x, Annex B %x, MP4 %x", p.SPS(), p.PPS(), p.AnnexBExtraData(), p.MP4ExtraData())
	}
	return d
}

// lasting: the pipeline's memory has been written again since the tracks were opened.
func (m *dmx) lasting() {
	for _, o := range m.opened {
		if d := describe(o.str); d != o.desc {
			m.fail("C10", "a track's parameters changed after it was opened: %s, were %s", clip(d), clip(o.desc))
		}
	}
}

func (m *dmx) try() {
	m.c.Step()
	m.c.Logf("TryCompleteProbe")
	e0, done0 := len(m.ev), m.ended()
	want := true
	for _, s := range m.streams {
		if s.track >= 0 && (s.codec == utils.AVCodecIdPCMS16LE || s.codec == utils.AVCodecIdADPCMG726) && len(s.recs) < 2 {
			want = false
		}
	}
	m.d.TryCompleteProbe()
	m.after(m.ev[e0:], nil, false, false, done0, want)
}

func (m *dmx) probe() {
	m.c.Step()
	m.c.Logf("ProbeComplete")
	e0, done0 := len(m.ev), m.ended()
	m.d.ProbeComplete()
	m.after(m.ev[e0:], nil, false, false, done0, true)
}

// after judges the events of one call.
func (m *dmx) after(ev []dev, s *dstream, accepted, unit, done0, request bool) {
	if m.c.Tracing() {
		for _, e := range ev {
			switch e.kind {
			case "packet":
				m.c.Logf("  -> packet of track %d, dts %d, duration %d", e.index, e.pkt.Dts, e.pkt.Duration)
			case "track", "back", "head":
				m.c.Logf("  -> %s %d", e.kind, e.index)
			default:
				m.c.Logf("  -> %s", e.kind)
			}
		}
	}
	m.c07(ev)
	switch m.prop {
	case "C08":
		m.c08(ev, s, accepted)
	case "C09":
		m.c09(ev, s, accepted, unit)
	case "C10":
		m.c10(s, accepted, done0, request)
	}
}

func (m *dmx) c07(ev []dev) {
	for _, e := range ev {
		switch e.kind {
		case "track":
			if m.state != "" {
				m.fail("C07", "track %d announced after %s", e.index, m.state)
			}
			if e.index != m.announced {
				m.fail("C07", "track %d announced, %d were announced before", e.index, m.announced)
			}
			if m.announced >= m.d.Tracks.Size() || m.d.Tracks.Get(m.announced) != e.track {
				m.fail("C07", "announcement %d is not the demuxer's track %d", m.announced, m.announced)
			}
			m.announced++
		case "complete", "notfind":
			if m.state != "" {
				m.fail("C07", "%s reported after %s", e.kind, m.state)
			}
			if e.kind == "complete" && (m.announced == 0 || m.announced != m.d.Tracks.Size()) {
				m.fail("C07", "completion reported with %d of %d tracks announced", m.announced, m.d.Tracks.Size())
			}
			if e.kind == "notfind" && (m.announced != 0 || m.d.Tracks.Size() != 0) {
				m.fail("C07", "'no track' reported with %d tracks", m.d.Tracks.Size())
			}
			m.state = e.kind
		case "packet":
			if m.state != "complete" {
				m.fail("C07", "packet delivered before completion (state %q)", m.state)
			}
			if e.index < 0 || e.index >= m.announced {
				m.fail("C07", "packet of track %d delivered, %d tracks are announced", e.index, m.announced)
			}
		}
	}
	if m.state == "" && m.announced > 0 {
		m.fail("C07", "tracks were announced without completion being reported")
	}
}

func (m *dmx) byTrack(i int) *dstream {
	for _, s := range m.streams {
		if s.track == i {
			return s
		}
	}
	return nil
}

// find returns the accepted packet an event delivers: by memory address, else by content.
func (s *dstream) find(e *dev) *drec {
	for _, r := range s.recs {
		if !r.delivered && r.ptr == e.ptr {
			return r
		}
	}
	for _, r := range s.recs {
		if !r.delivered && bytes.Equal(r.data, e.data) {
			return r
		}
	}
	return nil
}

func (m *dmx) c08(ev []dev, s *dstream, accepted bool) {
	if m.hook {
		m.c08hook(ev, s, accepted)
	}
	batch := false
	var last *int64
	for i := range ev {
		e := &ev[i]
		switch e.kind {
		case "complete":
			batch = true
		case "packet":
			s := m.byTrack(e.index)
			if s == nil {
				m.c.Failf("packet delivered on track %d, which has no packets", e.index)
			}
			r := s.find(e)
			if r == nil {
				m.c.Failf("track %d: a packet was delivered twice or was never accepted (dts %d)", e.index, e.pkt.Dts)
			}
			r.delivered = true
			k := 0
			for s.recs[k] != r {
				k++
			}
			if k+1 >= len(s.recs) {
				m.c.Failf("track %d: the newest packet was delivered", e.index)
			}
			p := &e.pkt
			if p.Dts != r.dts || p.Pts != r.pts || p.Key != r.key || p.CodecID != s.codec || p.MediaType != s.media || p.Timebase != int(m.tb) {
				m.c.Failf("track %d: packet %d delivered with dts %d pts %d key %v codec %v time base %d, was dts %d pts %d key %v codec %v time base %d", e.index, k, p.Dts, p.Pts, p.Key, p.CodecID, p.Timebase, r.dts, r.pts, r.key, s.codec, m.tb)
			}
			if s.media == utils.AVMediaTypeVideo && p.PacketType != m.d.GetPackType() {
				m.c.Failf("track %d: packet %d delivered with framing %d", e.index, k, p.PacketType)
			}
			if d := s.recs[k+1].dts - r.dts; p.Duration != d {
				m.c.Failf("track %d: packet %d delivered with duration %d, the next one is %d later", e.index, k, p.Duration, d)
			}
			mono := true
			for j := 0; j+1 < len(s.recs); j++ {
				mono = mono && s.recs[j].dts <= s.recs[j+1].dts
			}
			if mono || !batch {
				for j := 0; j < k; j++ {
					if !s.recs[j].delivered {
						m.c.Failf("track %d: packet %d delivered before packet %d", e.index, k, j)
					}
				}
			}
			if batch {
				if last != nil && r.dts < *last {
					m.c.Failf("buffered packets delivered with dts %d after %d", r.dts, *last)
				}
				last = &r.dts
			}
		}
	}
	for _, s := range m.streams {
		for k, r := range s.recs {
			if want := m.state == "complete" && k+1 < len(s.recs); r.delivered != want {
				if want {
					m.c.Failf("track %d: packet %d of %d was not delivered", s.track, k, len(s.recs))
				}
				m.c.Failf("track %d: packet %d of %d was delivered too early", s.track, k, len(s.recs))
			}
		}
	}
}

// c08hook: the preprocessing hook sees an accepted video packet once, as it was accepted, before anything is delivered.
func (m *dmx) c08hook(ev []dev, s *dstream, accepted bool) {
	want := b2i(s != nil && accepted && s.media == utils.AVMediaTypeVideo)
	got := 0
	delivered := false
	for i := range ev {
		e := &ev[i]
		switch e.kind {
		case "packet":
			delivered = true
		case "pre":
			got++
			if got > want {
				m.c.Failf("the preprocessing hook was called %d times for one call, want %d", got, want)
			}
			r := s.recs[len(s.recs)-1]
			k := m.hookDts(m.wantHook - 1)
			if e.index != s.track || e.pkt.Dts+k != r.dts || e.pkt.Pts+k+hookShift != r.pts || !bytes.Equal(e.data, r.data) || delivered {
				m.c.Failf("the preprocessing hook saw track %d dts %d pts %d (after a delivery: %v), the packet is of track %d, dts %d pts %d", e.index, e.pkt.Dts, e.pkt.Pts, delivered, s.track, r.dts-k, r.pts-k-hookShift)
			}
		}
	}
	if got != want {
		m.c.Failf("the preprocessing hook was not called for an accepted video packet")
	}
}

func (m *dmx) c09(ev []dev, s *dstream, accepted, unit bool) {
	backs := map[int]int{}
	heads := map[int]int{}
	calls := map[int]int{}
	for i := range ev {
		e := &ev[i]
		switch e.kind {
		case "back":
			backs[e.index]++
		case "head":
			heads[e.index]++
			if heads[e.index] > calls[e.index] {
				m.c.Failf("buffer %d: a unit was released from the front before its packet was delivered", e.index)
			}
		case "packet":
			o := m.byTrack(e.index)
			if o == nil {
				m.c.Failf("packet delivered on track %d, which has no packets", e.index)
			}
			calls[o.buf]++
			if e.pkt.BufferIndex != o.buf {
				m.c.Failf("track %d: packet delivered with buffer index %d, its memory is in buffer %d", e.index, e.pkt.BufferIndex, o.buf)
			}
			ok := false
			for _, r := range o.recs {
				if !r.delivered && r.dts == e.pkt.Dts && bytes.Equal(r.data, e.data) {
					r.delivered, ok = true, true
					break
				}
			}
			if !ok {
				m.c.Failf("track %d: the payload delivered with dts %d (%d bytes: % x) is not what was written for it", e.index, e.pkt.Dts, len(e.data), clipb(e.data))
			}
		}
	}
	for _, o := range m.streams {
		wb := 0
		if o == s && unit && !accepted {
			wb = 1
		}
		if backs[o.buf] != wb {
			m.c.Failf("buffer %d: %d units released from the back, want %d", o.buf, backs[o.buf], wb)
		}
		wh := 0
		if m.d.AutoFree {
			wh = calls[o.buf]
		}
		if heads[o.buf] != wh {
			m.c.Failf("buffer %d: %d units released from the front, %d packets were delivered (automatic freeing %v)", o.buf, heads[o.buf], calls[o.buf], m.d.AutoFree)
		}
		delete(backs, o.buf)
		delete(heads, o.buf)
		o.freed += wh
		if h := m.pipe.held[o.buf]; m.pipe.real == nil && len(h) != len(o.recs)-o.freed {
			m.c.Failf("buffer %d: %d units outstanding, %d packets accepted and %d freed", o.buf, len(h), len(o.recs), o.freed)
		}
	}
	if len(backs)+len(heads) > 0 {
		m.c.Failf("units were released on a buffer of another stream: back %v, front %v", backs, heads)
	}
	if !m.d.AutoFree {
		for k, r := range m.retained {
			if !bytes.Equal(r.p.Data, r.want) {
				m.c.Failf("the payload of retained packet %d changed after delivery", k)
			}
		}
	}
}

func (m *dmx) c10(s *dstream, accepted, done0, request bool) {
	want := request
	if accepted && !done0 {
		n := len(s.recs)
		var sum int64
		for i := 0; i+1 < n; i++ {
			sum += (s.recs[i+1].dts - s.recs[i].dts) * 1000 / m.tb
		}
		want = n > 1 && sum >= int64(max(m.probeMs, 200))
	}
	if done0 {
		return
	}
	if got := m.ended(); got != want {
		m.c.Failf("probing ended: %v, want %v", got, want)
	}
	if !m.ended() {
		return
	}
	for _, o := range m.streams {
		if o.track < 0 || o.media != utils.AVMediaTypeAudio {
			continue
		}
		str := m.d.Tracks.Get(o.track).GetStream()
		if o.codec == utils.AVCodecIdPCMS16LE || o.codec == utils.AVCodecIdADPCMG726 {
			if len(o.recs) > 1 {
				ms := (o.recs[1].dts - o.recs[0].dts) * 1000 / m.tb
				if ms > 0 {
					perMs := len(o.recs[0].data) / int(ms)
					if o.codec == utils.AVCodecIdPCMS16LE {
						for _, r := range []int{48000, 32000, 16000, 8000} {
							if perMs <= r*2/1000 {
								o.rate = r
							}
						}
					} else {
						for _, r := range []int{40000, 32000, 24000, 16000} {
							if perMs*8000 <= r {
								o.bitrate = r
							}
						}
					}
				}
			}
		}
		if str.SampleRate != o.rate || str.Channels != o.chans || str.BitRate != o.bitrate {
			m.c.Failf("%v track completed with %d Hz, %d channels, %d bit/s; want %d, %d, %d", o.codec, str.SampleRate, str.Channels, str.BitRate, o.rate, o.chans, o.bitrate)
		}
	}
}

// ---- spaces ----

type dop struct {
	name string
	run  func()
}

// dOps lists the operations of a scenario; steps are decoding time steps in ms.
func (m *dmx) ops(audioSteps, videoSteps []int64, bad, control, headers bool) (r []dop) {
	for _, s := range m.streams {
		s := s
		steps := audioSteps
		if s.media == utils.AVMediaTypeVideo {
			steps = videoSteps
		}
		for i, d := range steps {
			d := d
			if s.media == utils.AVMediaTypeVideo && i > 0 {
				r = append(r, dop{"inter", func() { m.packet(s, "inter", d, 0) }})
			} else {
				r = append(r, dop{"good", func() { m.packet(s, "good", d, 0) }})
			}
		}
		if bad && (s.codec == utils.AVCodecIdAAC || s.media == utils.AVMediaTypeVideo) {
			r = append(r, dop{"bad", func() { m.packet(s, "bad", 10, 0) }})
		}
		if headers {
			r = append(r, dop{"hdr", func() {
				m.header(s, true)
			}})
			if s.codec == utils.AVCodecIdAAC || s.media == utils.AVMediaTypeVideo {
				r = append(r, dop{"badhdr", func() {
					m.header(s, false)
				}})
			}
		}
	}
	if control {
		r = append(r, dop{"try", m.try}, dop{"probe", m.probe})
	}
	return
}

func (m *dmx) explore(ops []dop, depth int) {
	for i := 0; i < depth; i++ {
		ops[m.c.Choose(len(ops))].run()
	}
}

// finish asks for completion and feeds one more packet to every stream that has a track.
func (m *dmx) finish() {
	m.probe()
	for _, s := range m.streams {
		if s.track >= 0 {
			m.packet(s, "good", 10, 0)
		}
	}
	m.lasting()
}

func demuxSpaces(prop string, th bool) []*ex.Space {
	d1, d2, d3, d4 := 5, 5, 6, 4
	if th {
		d1, d2, d3, d4 = 6, 6, 7, 5
	}
	const (
		aac  = utils.AVCodecIdAAC
		h264 = utils.AVCodecIdH264
		h265 = utils.AVCodecIdH265
		pcma = utils.AVCodecIdPCMALAW
		pcm  = utils.AVCodecIdPCMS16LE
		g726 = utils.AVCodecIdADPCMG726
	)
	layouts := [][2]utils.AVCodecID{{aac, h264}, {h265, pcma}, {pcm, h264}, {h264, g726}, {h264, h264}, {aac, pcm}}
	sp := []*ex.Space{
		{Name: "two-streams", Bound: fmt.Sprintf("ps/ts/jt1078 x 6 stream pairs (video, AAC, A-law, PCM, G.726) x automatic freeing on/off x every sequence of %d calls: packets with steps 0, 40, 200, -20 ms, unusable packets, TryCompleteProbe, ProbeComplete; then completion and one more packet per track", d1), Run: func(c *ex.C) {
			n := []string{"ps", "ts", "jt1078"}[c.Choose(3)]
			l := layouts[c.Choose(len(layouts))]
			m := newDmx(c, prop, n, c.Choose(2) == 1, 0, st(0, l[0], 0), st(1, l[1], 1))
			m.explore(m.ops([]int64{0, 200, -20}, []int64{40, 40, 200}, true, true, false), d1)
			m.finish()
		}},
		{Name: "headers", Bound: fmt.Sprintf("flv/ts x 5 stream pairs x automatic freeing x every sequence of %d calls: codec headers (valid, cut short), packets, completion requests", d2), Run: func(c *ex.C) {
			n := []string{"flv", "ts"}[c.Choose(2)]
			l := [][2]utils.AVCodecID{{aac, h264}, {h265, pcma}, {h264, pcm}, {h264, h265}, {aac, g726}}[c.Choose(5)]
			m := newDmx(c, prop, n, c.Choose(2) == 1, 100, st(1, l[0], 0), st(0, l[1], 1))
			m.explore(m.ops([]int64{20, 220}, []int64{40, 220}, false, true, true), d2)
			m.finish()
		}},
		{Name: "order", Bound: fmt.Sprintf("4 streams with buffer indices in any of 3 orders x every sequence of %d packets (steps 10, 210 ms): which track's packet comes first or how many are buffered", d3), Run: func(c *ex.C) {
			perm := [][4]int{{0, 1, 2, 3}, {3, 1, 0, 2}, {2, 3, 1, 0}}[c.Choose(3)]
			m := newDmx(c, prop, "ts", true, 200, st(perm[0], aac, 4), st(perm[1], h264, 0), st(perm[2], pcma, 0), st(perm[3], h265, 1))
			m.explore(m.ops([]int64{10, 210}, []int64{10, 210}, false, false, false), d3)
			m.finish()
		}},
		{Name: "callbacks", Bound: fmt.Sprintf("ps/flv/ts x 3 stream pairs x automatic freeing x a handler that calls ProbeComplete, TryCompleteProbe or SetProbeDuration from one kind of callback (track, completion, no track, packet) x every sequence of %d calls: packets, headers, completion requests, replacing the handler", d4), Run: func(c *ex.C) {
			n := []string{"ps", "flv", "ts"}[c.Choose(3)]
			l := [][2]utils.AVCodecID{{aac, h264}, {h265, pcm}, {g726, h264}}[c.Choose(3)]
			m := newDmx(c, prop, n, c.Choose(2) == 1, 0, st(0, l[0], 0), st(1, l[1], 1))
			at, what := []string{"track", "complete", "notfind", "packet"}[c.Choose(4)], c.Choose(3)
			m.react = func(kind string) {
				if kind != at {
					return
				}
				switch what {
				case 0:
					m.d.ProbeComplete()
				case 1:
					m.d.TryCompleteProbe()
				case 2:
					m.d.SetProbeDuration(100000)
				}
			}
			ops := append(m.ops([]int64{220}, []int64{40, 220}, false, true, n != "ps"), dop{"handler", func() {
				m.gen++
				m.c.Logf("the handler is replaced")
				m.d.SetHandler(dhandler{m, m.gen})
			}})
			m.explore(ops, d4)
			m.finish()
		}},
		{Name: "announce-first", Bound: "2-3 tracks opened by codec headers in one order, packets arriving in every order, 4 packets", Run: func(c *ex.C) {
			m := newDmx(c, prop, "ts", c.Choose(2) == 1, 200, st(0, aac, 3), st(1, h264, 0), st(2, pcm, 0))
			for _, s := range m.streams {
				m.header(s, true)
			}
			m.explore(m.ops([]int64{20, 250}, []int64{20, 250}, false, true, true), 4)
			m.finish()
		}},
		{Name: "buffered", Bound: "1..40, 63..65, 127..129, 255..257 buffered packets on each of two tracks, in 6 interleavings and 4 timestamp patterns (equal, increasing, pairwise equal, different phases)", Run: func(c *ex.C) {
			ns := []int{63, 64, 65, 127, 128, 129, 255, 256, 257}
			n := 1 + c.Choose(40+len(ns))
			if n > 40 {
				n = ns[n-41]
			}
			inter, pat := c.Choose(6), c.Choose(4)
			m := newDmx(c, prop, "ps", c.Choose(2) == 1, 100000, st(0, pcma, 0), st(1, h264, 0))
			if c.Choose(2) == 1 {
				m.streams[0], m.streams[1] = st(1, h264, 0), st(0, pcma, 0)
			}
			m.packet(m.streams[0], "good", 0, 0)
			m.packet(m.streams[1], "good", 0, 0)
			feed := func(s int, i int) {
				step := int64([]int{0, 3, i % 2 * 5, 4 + 3*s}[pat])
				m.packet(m.streams[s], "good", step, 0)
			}
			switch inter {
			case 0:
				for s := 0; s < 2; s++ {
					for i := 0; i < n; i++ {
						feed(s, i)
					}
				}
			case 1:
				for i := 0; i < 2*n; i++ {
					feed(i%2, i/2)
				}
			case 2:
				for i := 0; i < 3*n/2; i++ {
					feed(b2i(i%3 == 0), i)
				}
			case 3:
				for i := 0; i < n; i++ {
					feed(0, i)
				}
			case 4:
				for i := 0; i < n; i++ {
					feed(1, i)
				}
			case 5:
				for i := 0; i < 2*n; i++ {
					feed(b2i(i&2 != 0), i)
				}
			}
			m.finish()
			for i := 0; i < 4; i++ {
				feed(i%2, i)
			}
		}},
	}
	pds := []int{-5, 0, 100, 200, 201, 500, 1000}
	sp = append(sp, &ex.Space{Name: "timing", Bound: fmt.Sprintf("probe times -5, 0, 100, 200, 201, 500, 1000 ms x flv/ps/ts/jt1078 x 1 or 2 tracks x every sequence of %d steps from 0, 1, 100, 199, 200, 201, 500, -100 ms", d4), Run: func(c *ex.C) {
		n := []string{"ps", "flv", "ts", "jt1078"}[c.Choose(4)]
		pd := pds[c.Choose(len(pds))]
		two := c.Choose(2) == 1
		m := newDmx(c, prop, n, true, pd, st(0, pcma, 0))
		if two {
			m.streams = append(m.streams, st(1, g726, 0))
			m.packet(m.streams[1], "good", 0, 0)
			m.packet(m.streams[1], "good", 150, 0)
		}
		m.packet(m.streams[0], "good", 1000, 0)
		steps := []int64{0, 1, 100, 199, 200, 201, 500, -100}
		for i := 0; i < d4; i++ {
			m.packet(m.streams[0], "good", steps[c.Choose(len(steps))], 0)
		}
		m.finish()
	}})
	if prop == "C10" || prop == "C08" {
		sp = append(sp, &ex.Space{Name: "time-bases", Bound: fmt.Sprintf("video and A-law tracks opened by headers with time base 8000, 48000, 1000 or 90000, whatever the container's own one, x flv/ps/ts x probe times 0, 500 ms x every sequence of %d packets (steps 0, 1, 199, 200, 500 ms) on either", d4), Run: func(c *ex.C) {
			n := []string{"flv", "ps", "ts"}[c.Choose(3)]
			m := newDmx(c, prop, n, true, []int{0, 500}[c.Choose(2)], st(0, []utils.AVCodecID{h264, h265}[c.Choose(2)], 0), st(1, pcma, 0))
			m.tb = []int64{8000, 48000, 1000, 90000}[c.Choose(4)]
			for _, s := range m.streams {
				m.header(s, true)
			}
			steps := []int64{0, 1, 199, 200, 500}
			for i := 0; i < d4; i++ {
				s := m.streams[c.Choose(2)]
				k := "inter"
				if i%2 == 0 {
					k = "good"
				}
				m.packet(s, k, steps[c.Choose(len(steps))], 0)
			}
			m.finish()
		}})
	}
	if prop == "C10" {
		sp = append(sp,
			&ex.Space{Name: "retimed", Bound: fmt.Sprintf("the probe time set anew (-1, 0, 201, 400, 1000 ms) after the 1st, 2nd or 3rd packet x ps/flv x first probe time 0, 300, 1000 ms x every sequence of %d steps from 0, 100, 200, 300 ms", d4+1), Run: func(c *ex.C) {
				n := []string{"ps", "flv"}[c.Choose(2)]
				m := newDmx(c, prop, n, true, []int{0, 300, 1000}[c.Choose(3)], st(0, pcma, 0))
				at, to := c.Choose(3), []int{-1, 0, 201, 400, 1000}[c.Choose(5)]
				m.packet(m.streams[0], "good", 1000, 0)
				steps := []int64{0, 100, 200, 300}
				for i := 0; i <= d4; i++ {
					if i == at {
						c.Logf("SetProbeDuration(%d)", to)
						m.d.SetProbeDuration(to)
						m.probeMs = to
					}
					m.packet(m.streams[0], "good", steps[c.Choose(len(steps))], 0)
				}
				m.finish()
			}},
			&ex.Space{Name: "aac", Bound: "13 rates x 7 channel configurations, from ADTS packets (ps) and from codec headers (flv)", Run: func(c *ex.C) {
				s := st(0, aac, c.Choose(91))
				m := newDmx(c, prop, []string{"ps", "flv"}[c.Choose(2)], true, 0, s)
				if m.d.Name == "flv" {
					m.header(s, true)
				} else {
					m.packet(s, "good", 0, 0)
				}
				m.finish()
			}},
			&ex.Space{Name: "raw-audio", Bound: "PCM and G.726, one or two such tracks, first packet of 5..40 ms and sizes of every supported rate, between them and beyond, second packet before or after completion", Run: func(c *ex.C) {
				id := []utils.AVCodecID{pcm, g726}[c.Choose(2)]
				per := []int{1, 8, 16, 24, 32, 48, 64, 80, 96, 128, 192}
				if id == g726 {
					per = []int{1, 2, 3, 4, 5, 6, 8, 16}
				}
				ms := []int64{5, 10, 20, 40, 1}[c.Choose(5)]
				m := newDmx(c, prop, "ps", true, 0, st(0, aac, 4), st(1, id, 0), st(2, id, 0))
				if c.Choose(2) == 1 {
					m.packet(m.streams[0], "good", 0, 0)
				}
				m.packet(m.streams[1], "good", 7, per[c.Choose(len(per))]*int(ms))
				m.try()
				if c.Choose(2) == 1 {
					m.packet(m.streams[2], "good", 3, per[c.Choose(len(per))]*20)
					m.packet(m.streams[2], "good", 20, 50)
				}
				switch c.Choose(4) {
				case 0:
				case 1:
					m.packet(m.streams[1], "good", ms, 33)
				case 2:
					m.packet(m.streams[1], "good", ms, 33)
					m.packet(m.streams[1], "good", ms*2, 99)
					m.try()
				case 3:
					m.packet(m.streams[1], "good", 0, 33)
				}
				m.finish()
			}})
	}
	if prop == "C09" || prop == "C08" {
		dr := 5
		if th {
			dr = 7
		}
		sp = append(sp, &ex.Space{Name: "streams-buffer", Bound: fmt.Sprintf("the real StreamsBuffer: every sequence of %d audio packets of 100, 200000, 300000, 600000 bytes (capacity 576000: wrap and growth), rejected units and video packets, automatic freeing on and off", dr), Run: func(c *ex.C) {
			m := newDmx(c, prop, "ps", c.Choose(2) == 1, 0, st(1, pcma, 0), st(0, aac, 2))
			m.pipe.real = &avformat.StreamsBuffer{}
			a := m.streams[0]
			sizes := []int{100, 200000, 300000, 600000}
			m.packet(a, "good", 0, 100)
			m.packet(a, "good", 300, 200000)
			for i := 0; i < dr-1; i++ {
				k := c.Choose(len(sizes) + 2)
				switch {
				case k < len(sizes):
					m.packet(a, "good", 20, sizes[k])
				case k == len(sizes):
					m.packet(m.streams[1], "bad", 5, 200000)
				default:
					m.packet(m.streams[1], "good", 5, 250000)
				}
			}
		}})
	}
	sp = append(sp, &ex.Space{Name: "many-streams", Bound: "transport streams of 5..8, 16, 33, 64 and 130 streams (audio and video kinds in turn, buffers from the front, the back or far apart), 1..4 packets of each round robin or stream by stream, headers for every third one or none, completion requested or reached", Run: func(c *ex.C) {
		n := []int{5, 6, 7, 8, 16, 33, 64, 130}[c.Choose(8)]
		place := c.Choose(3)
		np, robin, hdr, free := 1+c.Choose(4), c.Bool(), c.Bool(), c.Bool()
		m := newDmx(c, prop, "ts", free, []int{0, 100000}[c.Choose(2)])
		kinds := []utils.AVCodecID{aac, h264, pcma, h265, pcm}
		for i := 0; i < n; i++ {
			b := []int{i, n - 1 - i, 3*i + 1}[place]
			m.streams = append(m.streams, st(b, kinds[i%len(kinds)], i%2))
		}
		for i, s := range m.streams {
			if hdr && i%3 == 0 {
				m.header(s, true)
			}
		}
		for k := 0; k < np*n; k++ {
			s := m.streams[k%n]
			if !robin {
				s = m.streams[k/np]
			}
			m.packet(s, "good", 60, 0)
		}
		m.finish()
	}})
	if prop == "C08" || prop == "C10" {
		steps := []int64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1<<33 - 1, 1 << 40, -1, -1 << 31, -1 << 33}
		starts := []int64{0, -5, 1<<31 - 2, 1<<33 - 3, -1 << 40}
		sp = append(sp, &ex.Space{Name: "gaps", Bound: fmt.Sprintf("decoding times starting at 0, -5, near 2^31, near 2^33, -2^40 and %d steps from 0, 1, 2^31-1, 2^31, 2^32+5, 2^33-1, 2^40 and their negatives, on an audio or a video track beside another one, completion requested before, in between or not at all", d4-1), Run: func(c *ex.C) {
			n := []string{"ps", "flv"}[c.Choose(2)]
			l := [][2]utils.AVCodecID{{pcma, h264}, {h264, pcma}}[c.Choose(2)]
			m := newDmx(c, prop, n, c.Choose(2) == 1, 0, st(0, l[0], 0), st(1, l[1], 1))
			at := starts[c.Choose(len(starts))]
			end := c.Choose(3)
			a, b := m.streams[0], m.streams[1]
			if n == "flv" {
				for _, s := range m.streams {
					if s.media == utils.AVMediaTypeVideo {
						m.header(s, true)
					}
				}
			}
			m.packetAt(b, "good", at, 0)
			m.packetAt(a, "good", at, 0)
			for i := 0; i < d4-1; i++ {
				if i+1 == end {
					m.probe()
				}
				at += steps[c.Choose(len(steps))]
				m.packetAt(a, "good", at, 0)
			}
			m.packetAt(b, "good", at, 0)
			m.finish()
		}})
	}
	if prop == "C08" {
		sp = append(sp, &ex.Space{Name: "offsets", Bound: fmt.Sprintf("video packets whose presentation time lies 0, 1, 40, 2^31+5 or 2^33 before or after the decoding time, with either key flag whatever they hold, whole or 1, 2, 3, 5 bytes long: ps/ts/flv x H.264/H.265 x automatic freeing x every sequence of %d, completion requested before, in between or not at all", 2), Run: func(c *ex.C) {
			n := []string{"ps", "ts", "flv"}[c.Choose(3)]
			m := newDmx(c, prop, n, c.Bool(), 0, st(0, []utils.AVCodecID{h264, h265}[c.Choose(2)], 0), st(1, pcma, 1))
			a, b := m.streams[0], m.streams[1]
			if n == "flv" {
				m.header(a, true)
			}
			end := c.Choose(4)
			m.packetAt(a, "good", 0, 0)
			m.packetAt(b, "good", 0, 0)
			at := int64(0)
			for i := 0; i < 2; i++ {
				if i == end {
					m.probe()
				}
				m.vary = func() (int64, bool, int) {
					return []int64{0, 1, 40, 1<<31 + 5, 1 << 33, -1, -40, -1<<31 - 5, -1 << 33}[c.Choose(9)], c.Bool(), []int{0, 1, 2, 3, 5}[c.Choose(5)]
				}
				at += 40
				m.packetAt(a, []string{"inter", "good"}[c.Choose(2)], at, 0)
				m.packetAt(b, "good", at, 0)
			}
			m.vary = nil
			m.packetAt(a, "good", at+40, 0)
			m.packetAt(b, "good", at+40, 0)
			m.finish()
		}})
		sp = append(sp, &ex.Space{Name: "small-audio", Bound: "A-law packets of 1, 2, 3, 6..10, 160 bytes: ps/ts/flv x first or second stream x automatic freeing x every sequence of 3, completion requested before, in between or not at all", Run: func(c *ex.C) {
			n := []string{"ps", "ts", "flv"}[c.Choose(3)]
			l := [][2]utils.AVCodecID{{pcma, h264}, {h265, pcma}}[c.Choose(2)]
			m := newDmx(c, prop, n, c.Bool(), 0, st(0, l[0], 0), st(1, l[1], 1))
			end := c.Choose(4)
			for _, s := range m.streams {
				if n == "flv" && s.media == utils.AVMediaTypeVideo {
					m.header(s, true)
				}
			}
			for i := 0; i < 3; i++ {
				if i == end {
					m.probe()
				}
				m.small = []int{1, 2, 3, 6, 7, 8, 9, 10, 160}[c.Choose(9)]
				for _, s := range m.streams {
					m.packetAt(s, "good", int64(i)*40, 0)
				}
			}
			m.finish()
		}})
		sp = append(sp, &ex.Space{Name: "hook", Bound: fmt.Sprintf("a preprocessing hook that changes decoding and presentation times: ps/ts/flv x 4 stream pairs x every sequence of %d packets, unusable packets, headers and completion requests", d4), Run: func(c *ex.C) {
			n := []string{"ps", "ts", "flv"}[c.Choose(3)]
			l := [][2]utils.AVCodecID{{aac, h264}, {h265, pcma}, {h264, h265}, {pcm, h264}}[c.Choose(4)]
			m := newDmx(c, prop, n, c.Choose(2) == 1, 0, st(1, l[0], 0), st(0, l[1], 1))
			m.setHook()
			m.explore(m.ops([]int64{0, 200}, []int64{40, 200}, true, true, n == "flv"), d4)
			m.finish()
		}})
	}
	if prop == "C09" {
		sp = append(sp, &ex.Space{Name: "owner-frees", Bound: fmt.Sprintf("automatic freeing off, the packets' owner frees them by their buffer index, in the callback or keeping the newest 1 or 3: ps/ts/flv x 4 stream pairs x every sequence of %d packets, unusable packets, headers and completion requests", d4), Run: func(c *ex.C) {
			n := []string{"ps", "ts", "flv"}[c.Choose(3)]
			l := [][2]utils.AVCodecID{{aac, h264}, {h265, pcma}, {h264, h265}, {pcm, h264}}[c.Choose(4)]
			m := newDmx(c, prop, n, false, 0, st(1, l[0], 0), st(0, l[1], 1))
			m.lag = []int{1, 2, 4}[c.Choose(3)]
			m.explore(m.ops([]int64{0, 200}, []int64{40, 200}, true, true, n == "flv"), d4)
			m.finish()
			for i := 0; i < 4; i++ {
				for _, s := range m.streams {
					m.packet(s, "good", 20, 0)
				}
			}
			m.consume(0)
			for _, s := range m.streams {
				if h := len(m.pipe.held[s.buf]); h != b2i(s.track >= 0) {
					c.Failf("buffer %d: %d units outstanding after everything delivered was freed", s.buf, h)
				}
			}
		}})
	}
	return sp
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	for _, id := range []string{"C07", "C08", "C09", "C10"} {
		id := id
		run.Register(&run.Prop{ID: id, Spaces: func(th bool) []*ex.Space { return demuxSpaces(id, th) },
			Assumptions: []string{"each stream has its own buffer index, codec and media type", "the pipeline reuses released memory no earlier than at the next write", "codec headers are announced at most once per stream in transport streams", "decoding times are whole milliseconds", "handler callbacks do not call back into the demuxer"}})
	}
}
