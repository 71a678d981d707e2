package conc

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
	"vshim/vsched"

	"verifmc/ex"
	"verifmc/run"
)

// C31: a job processes one stream with objects and data of its own. Several jobs, one after the
// other or in parallel, must each give the result the job gives alone.

// slot is one instance of a job: its inputs and results.
type slot struct {
	in  [][]byte // inputs, owned by the caller
	out []any    // results, owned by the caller once returned
	v   int
}

func (s *slot) input(b ...byte) []byte {
	x := append([]byte{}, b...)
	s.in = append(s.in, x)
	return x
}

func (s *slot) add(x ...any) { s.out = append(s.out, x...) }

func (s *slot) String() string {
	var b strings.Builder
	for _, x := range s.out {
		switch y := x.(type) {
		case error:
			b.WriteString("error")
		case fmt.Stringer:
			b.WriteString(y.String())
		case avformat.CodecData:
			fmt.Fprintf(&b, "%x %x %d %d %x %x ", y.AnnexBExtraData(), y.MP4ExtraData(), y.Width(), y.Height(), y.SPS(), y.PPS())
		default:
			render(&b, reflect.ValueOf(x), 0)
		}
		b.WriteByte(';')
	}
	return b.String()
}

// render writes a value and everything it points to.
func render(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		render(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			render(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", v.Bytes())
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			render(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.String:
		b.WriteString(v.String())
	}
}

// scribble overwrites everything the caller owns: inputs, and what was returned with all it
// points to.
func (s *slot) scribble() {
	for _, b := range s.in {
		overwrite(reflect.ValueOf(b), 0)
	}
	for _, x := range s.out {
		overwrite(reflect.ValueOf(x), 0)
	}
}

func overwrite(v reflect.Value, depth int) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		overwrite(v.Elem(), depth+1)
	case reflect.Interface:
		overwrite(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				overwrite(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i), depth+1)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(0x77)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(0xee)
		}
	}
}

var (
	pSPS264 = [2][]byte{
		{0x67, 0x42, 0xc0, 0x1e, 0xed, 0x01, 0x40, 0x7b, 0x20},
		{0x67, 0x42, 0xc0, 0x1e, 0xed, 0x00, 0xa0, 0x0b, 0x72},
	}
	pPPS264 = [2][]byte{{0x68, 0xce, 0x3c, 0x80}, {0x68, 0xce, 0x38, 0x80, 0x91}}
	pVPS265 = [2][]byte{{0x40, 1, 0x0c, 1, 0xff}, {0x40, 1, 0x0c, 2, 0xfd, 0x71}}
	pSPS265 = [2][]byte{
		{0x42, 1, 1, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5d, 0xa0, 0x03, 0xc0, 0x80, 0x10, 0xe5, 0x96, 0x57, 0x92, 0x44, 0x9a, 0xc8},
		{0x42, 1, 1, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5d, 0xa0, 0x0d, 0x08, 0x0f, 0x16, 0x59, 0x5e, 0x49, 0x12, 0x6b, 0x20},
	}
	pPPS265 = [2][]byte{{0x44, 1, 0xc1, 0x72}, {0x44, 1, 0xc1, 0x62, 0x91}}
	psc     = []byte{0, 0, 0, 1}
)

func pcat(p ...[]byte) []byte { return bytes.Join(p, nil) }

func units264(v int) [][]byte {
	if v == 0 {
		return [][]byte{{0x65, 0x88, 0x11, 0x22}, {0x41, 0x9a, 0x33}}
	}
	return [][]byte{{0x65, 0x99, 0x44}, {0x65, 0xaa, 0x55, 0x66, 0x77}}
}

func units265(v int) [][]byte {
	if v == 0 {
		return [][]byte{{0x26, 1, 0x81, 0x22}, {2, 1, 0x83}}
	}
	return [][]byte{{0x28, 1, 0x84}, {2, 1, 0x85, 0x66, 0x77}}
}

func annexb(u ...[]byte) (b []byte) {
	for _, x := range u {
		b = append(append(b, psc...), x...)
	}
	return
}

func prefixed(u ...[]byte) (b []byte) {
	for _, x := range u {
		b = append(append(b, 0, 0, byte(len(x)>>8), byte(len(x))), x...)
	}
	return
}

func avcRec(v int) []byte {
	s, p := pSPS264[v], pPPS264[v]
	b := append([]byte{1, s[1], s[2], s[3], 0xff, 0xe1, 0, byte(len(s))}, s...)
	return append(append(b, 1, 0, byte(len(p))), p...)
}

func hevcRec(v int) []byte {
	b := make([]byte, 23)
	for i := range b {
		b[i] = byte(i*7 + 3*v)
	}
	b[0], b[21], b[22] = 1, 3, 3
	for _, n := range [][]byte{pVPS265[v], pSPS265[v], pPPS265[v]} {
		b = append(append(b, n[0]>>1, 0, 1, 0, byte(len(n))), n...)
	}
	return b
}

type job struct {
	name   string
	weight int // 0: up to 600 scheduling points in two threads, 1: 2100, 2: more
	f      func(s *slot)
}

type collected struct {
	s *slot
}

func (h *collected) OnNewTrack(t avformat.Track) {
	st := t.GetStream()
	h.s.add("track", int(st.MediaType), st.Index, int(st.CodecID), st.Timebase, st.SampleRate, st.Channels, append([]byte{}, st.Data...))
}
func (h *collected) OnTrackComplete() { h.s.add("complete") }
func (h *collected) OnTrackNotFind()  { h.s.add("none") }
func (h *collected) OnPacket(p *avformat.AVPacket) {
	h.s.add("packet", p.Index, p.Dts, p.Pts, p.Duration, p.Key, append([]byte{}, p.Data...))
}

var jobs = []job{
	{name: "H.264 SPS", weight: 1, f: func(s *slot) {
		x, err := avc.ParseSPS(s.input(pSPS264[s.v]...))
		s.add(&x, err)
	}},
	{name: "H.265 SPS", weight: 2, f: func(s *slot) {
		x, err := hevc.ParseSPS(s.input(pSPS265[s.v]...))
		s.add(&x, err)
	}},
	{name: "H.264 record, write", f: func(s *slot) {
		r := avc.AVCDecoderConfigurationRecord{}
		b, err := r.Marshal([][]byte{s.input(pcat(psc, pSPS264[s.v])...)}, [][]byte{s.input(pcat(psc, pPPS264[s.v])...)})
		s.add(b, err)
	}},
	{name: "H.265 record, write", weight: 2, f: func(s *slot) {
		r := hevc.HEVCDecoderConfigurationRecord{}
		b, err := r.Marshal([][]byte{s.input(pcat(psc, pVPS265[s.v])...)}, [][]byte{s.input(pcat(psc, pSPS265[s.v])...)}, [][]byte{s.input(pcat(psc, pPPS265[s.v])...)})
		s.add(b, err)
	}},
	{name: "H.264 record, read", f: func(s *slot) {
		r := &avc.AVCDecoderConfigurationRecord{}
		err := r.Unmarshal(s.input(avcRec(s.v)...))
		s.add(err, r)
	}},
	{name: "H.265 record, read", f: func(s *slot) {
		r := &hevc.HEVCDecoderConfigurationRecord{}
		err := r.Unmarshal(s.input(hevcRec(s.v)...))
		s.add(err, r)
	}},
	{name: "H.264 record to Annex B", f: func(s *slot) {
		b, err := avc.ExtraDataToAnnexB(s.input(avcRec(s.v)...))
		s.add(b, err)
		b, err = avc.M4VCExtraDataToAnnexB(s.input(avcRec(s.v)...))
		s.add(b, err)
	}},
	{name: "H.265 record to Annex B", f: func(s *slot) {
		b, err := hevc.ExtraDataToAnnexB(s.input(hevcRec(s.v)...))
		s.add(b, err)
	}},
	{name: "length-prefixed to Annex B", f: func(s *slot) {
		dst := make([]byte, 128)
		s.add(dst[:avc.AVCC2AnnexB(dst, s.input(prefixed(units264(s.v)...)...), s.input(annexb(pSPS264[s.v])...))])
		w := bufio.NewBytesWriter(make([]byte, 128))
		avc.Mp4ToAnnexB(w, s.input(prefixed(units264(s.v)...)...), s.input(annexb(pPPS264[s.v])...))
		s.add(w.WrittenBytes())
	}},
	{name: "H.265 length-prefixed to Annex B", f: func(s *slot) {
		dst := make([]byte, 128)
		n, err := hevc.Mp4ToAnnexB(dst, s.input(prefixed(units265(s.v)...)...), s.input(annexb(pVPS265[s.v])...), 4)
		s.add(n, dst[:max(n, 0)], err)
	}},
	{name: "Annex B to length-prefixed", f: func(s *slot) {
		dst := make([]byte, 128)
		s.add(dst[:avc.AnnexB2AVCC(dst, s.input(annexb(units264(s.v)...)...))])
	}},
	{name: "H.264 parameter sets", f: func(s *slot) {
		sps, pps, err := avc.ParseExtraDataFromKeyNALU(s.input(annexb(pSPS264[s.v], pPPS264[s.v], units264(s.v)[0])...))
		s.add(sps, pps, err)
		e, err := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH264, s.input(annexb(pSPS264[s.v], pPPS264[s.v])...))
		s.add(e, err)
	}},
	{name: "H.265 parameter sets", f: func(s *slot) {
		vps, sps, pps, err := hevc.ParseExtraDataFromKeyNALU(s.input(annexb(pVPS265[s.v], pSPS265[s.v], pPPS265[s.v])...))
		s.add(vps, sps, pps, err)
		e, err := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH265, s.input(annexb(pVPS265[s.v], pSPS265[s.v], pPPS265[s.v])...))
		s.add(e, err)
	}},
	{name: "units and key frames", f: func(s *slot) {
		d := s.input(annexb(pSPS264[s.v], units264(s.v)[s.v])...)
		avc.SplitNalU(d, func(n []byte) { s.add(n, avc.RemoveStartCode(n)) })
		i, n := avc.FindStartCode(d[4:])
		s.add(i, n, avformat.IsKeyFrame(utils.AVCodecIdH264, d), avformat.IsKeyFrame(utils.AVCodecIdH265, s.input(annexb(units265(s.v)[1-s.v])...)))
		r := bufio.NewBytesReader(d)
		s.add(avc.FindStartCodeWithReader(r), r.Offset())
	}},
	{name: "AAC headers", f: func(s *slot) {
		h := make([]byte, 7)
		utils.SetADtsHeader(h, s.v, 1, 3+s.v, 1+s.v, 100+2000*s.v)
		a, err := utils.ReadADtsFixedHeader(s.input(h...))
		c, err2 := utils.ADtsHeader2MpegAudioConfigData(a)
		m, err3 := utils.ParseMpeg4AudioConfig(c)
		s.add(h, int(a.FrameLength()), a.Channel(), c, err, err2, err3)
		if m != nil {
			s.add(utils.GetSampleRateIndex(m.SampleRate), m)
		}
	}},
	{name: "audio extraction", f: func(s *slot) {
		h := make([]byte, 12)
		utils.SetADtsHeader(h, 0, 1, 3+s.v, 1+s.v, 12)
		h[8] = byte(s.v)
		d := s.input(h...)
		e, n, cf, err := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, d)
		s.add(e, n, cf.SampleRate, cf.Channels, err)
		p, err := avformat.ExtractAudioPacket(utils.AVCodecIdAAC, d, int64(s.v), s.v, 1000+s.v, true)
		s.add(err, append([]byte{}, p.Data...), p.Dts, p.Timebase, p.Index)
		avformat.FreePacket(p)
	}},
	{name: "byte buffers", f: func(s *slot) {
		w := bufio.NewBytesWriter(make([]byte, 24))
		w.WriteUint8(byte(1 + s.v))
		w.WriteUint16(uint16(0x203 + s.v))
		w.WriteUint32(uint32(0x4050607 + s.v))
		w.WriteUint64(uint64(0x8090a0b0c0d0e0f + s.v))
		w.Write(s.input(9, 8, byte(s.v)))
		s.add(w.WrittenBytes())
		r := bufio.NewBytesReader(s.input(w.WrittenBytes()...))
		a, _ := r.ReadUint8()
		b, _ := r.ReadUint24()
		c, _ := r.ReadUint64()
		d, _ := r.ReadBytes(2)
		s.add(a, b, c, d, r.Offset())
	}},
	{name: "bits", f: func(s *slot) {
		b := make([]byte, 4)
		w := bufio.BitsWriter{Data: b}
		w.Write(3, uint64(5-s.v))
		w.Write(9, uint64(300+s.v))
		w.Seek(4)
		w.WriteBytes(s.input(byte(0x70 + s.v)))
		r := bufio.BitsReader{Data: b}
		s.add(r.Read(3), r.Read(9), b)
		r.Seek(4)
		s.add(append([]byte{}, r.ReadBytes(1)...))
		g := &bufio.GolombBitReader{R: bytes.NewReader(s.input(0x2c+byte(s.v)*16, 0x95))}
		x, e := g.ReadExponentialGolombCode()
		y, e2 := g.ReadSE()
		s.add(x, y, e, e2)
	}},
	{name: "H.264 packets", weight: 1, f: func(s *slot) {
		cd, err := avformat.NewAVCCodecData(pcat(psc, pSPS264[s.v]), pcat(psc, pPPS264[s.v]))
		st := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, cd)
		p := avformat.NewVideoPacket(s.input(prefixed(units264(s.v)...)...), int64(s.v), 40, true, avcc, utils.AVCodecIdH264, 0, 1000)
		s.add(err, append([]byte{}, avformat.AVCCPacket2AnnexB(st, p)...), p.ConvertDts(90000), p.ConvertPts(90000))
		avformat.FreePacket(p)
		p = avformat.NewVideoPacket(s.input(annexb(units264(s.v)...)...), 7, 8+int64(s.v), false, annexB, utils.AVCodecIdH264, 0, 1000)
		s.add(append([]byte{}, avformat.AnnexBPacket2AVCC(p)...), p.GetPtsDtsDelta(90000))
		avformat.FreePacket(p)
	}},
	{name: "H.265 packets", weight: 2, f: func(s *slot) {
		cd, err := avformat.ParseHEVCDecoderConfigurationRecord(hevcRec(s.v))
		st := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH265, nil, cd)
		p := avformat.NewVideoPacket(s.input(prefixed(units265(s.v)...)...), int64(s.v), 40, true, avcc, utils.AVCodecIdH265, 0, 1000)
		s.add(err, append([]byte{}, avformat.AVCCPacket2AnnexB(st, p)...))
		avformat.FreePacket(p)
		p = avformat.NewVideoPacket(s.input(annexb(units265(s.v)...)...), 7, 8, true, annexB, utils.AVCodecIdH265, 0, 1000)
		s.add(append([]byte{}, avformat.AnnexBPacket2AVCC(p)...), append([]byte{}, avformat.AVCCPacket2AnnexB(st, p)...))
		avformat.FreePacket(p)
	}},
	{name: "retained conversion", f: func(s *slot) {
		p := avformat.NewVideoPacket(s.input(prefixed(units264(s.v)...)...), 1, 2, false, avcc, utils.AVCodecIdH264, 0, 1000)
		st := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, nil)
		s.add(avformat.AVCCPacket2AnnexB(st, p)) // the packet is kept
		q := avformat.NewVideoPacket(s.input(annexb(units264(s.v)...)...), 1, 2, false, annexB, utils.AVCodecIdH264, 0, 1000)
		s.add(avformat.AnnexBPacket2AVCC(q))
	}},
	{name: "stream descriptions", weight: 2, f: func(s *slot) {
		a, err := avformat.ParseAVCDecoderConfigurationRecord(s.input(avcRec(s.v)...))
		b, err2 := avformat.CreateHevcStreamFromKeyFrame(s.input(annexb(pVPS265[s.v], pSPS265[s.v], pPPS265[s.v])...), s.v)
		s.add(err, err2, a.AnnexBExtraData(), a.MP4ExtraData(), a.Width())
		s.add(b.Data, b.CodecParameters.MP4ExtraData(), b.Index, b.CodecParameters.Height(), a.(*avformat.AVCCodecData).Record, b.CodecParameters.(*avformat.HEVCCodecData).Record)
	}},
	{name: "linear and ring buffers", weight: 1, f: func(s *slot) {
		for _, b := range []collections.BlockBuffer{collections.NewDirectBlockBuffer(16), collections.NewRBBlockBuffer(10)} {
			b.Write(s.input(1, 2, byte(s.v)))
			x := b.Fetch()
			copy(b.Alloc(2+s.v), []byte{7, 8, 9})
			b.Write(s.input(5))
			s.add(b.PendingBlockSize(), b.Fetch(), x)
			b.Pop()
			b.Write(s.input(6, 6, 6, byte(s.v), 6))
			s.add(b.Fetch())
		}
	}},
	{name: "queues and lists", f: func(s *slot) {
		q := collections.NewQueue[int](2)
		r := collections.NewRingBuffer[int](2)
		l := &collections.LinkedList[int]{}
		for i := 0; i < 3+s.v; i++ {
			q.Push(i * (s.v + 2))
			r.Push(i * (s.v + 3))
			l.Add(i * (s.v + 4))
		}
		s.add(q.Pop(), q.PopBack(), q.Size(), r.Pop(), r.Size(), l.Remove(1), l.Get(0), l.Size())
	}},
	{name: "packet pipeline", f: func(s *slot) {
		b := &avformat.StreamsBuffer{}
		b.Write(s.input(1, 2, byte(s.v)), 1, utils.AVMediaTypeAudio)
		b.Write(s.input(3+byte(s.v)), 1, utils.AVMediaTypeAudio)
		n := b.PendingBlockSize(1)
		x, err := b.Fetch(1)
		b.Write(s.input(4, 5, 6), 1, utils.AVMediaTypeAudio)
		y, err2 := b.Fetch(1)
		s.add(n, x, y, err, err2)
		b.DiscardHeadPacket(1)
		d := &avformat.DirectDataPipeline{}
		d.Write(s.input(1, byte(s.v)), 0, utils.AVMediaTypeAudio)
		d.Write(s.input(byte(s.v), 3, 3), 0, utils.AVMediaTypeAudio)
		d.Seek(-1, 0)
		z, err := d.Fetch(0)
		s.add(z, err)
	}},
	{name: "demuxer, audio", weight: 1, f: func(s *slot) {
		d := &avformat.BaseDemuxer{Name: "ps", DataPipeline: &avformat.DirectDataPipeline{}, AutoFree: true}
		d.SetHandler(&collected{s})
		i := d.FindBufferIndex(100 + s.v)
		for k := 0; k < 2; k++ {
			d.OnAudioPacket(i, utils.AVCodecIdPCMALAW, s.input(byte(k), byte(s.v), 3), int64(k*(3600+s.v)))
		}
		d.ProbeComplete()
		d.OnAudioPacket(i, utils.AVCodecIdPCMALAW, s.input(9, byte(s.v)), 9000)
		d.Close()
	}},
	{name: "demuxer, video", weight: 1, f: func(s *slot) {
		d := &avformat.BaseDemuxer{Name: "flv", DataPipeline: &avformat.DirectDataPipeline{}, AutoFree: true}
		d.SetHandler(&collected{s})
		i := d.FindBufferIndexByMediaType(utils.AVMediaTypeVideo)
		d.OnNewVideoTrack(i, utils.AVCodecIdH264, 1000, s.input(avcRec(s.v)...))
		for k := 0; k < 2; k++ {
			d.OnVideoPacket(i, utils.AVCodecIdH264, s.input(prefixed(units264(s.v)...)...), k == 0, int64(k*40), int64(k*40+s.v), avcc)
		}
		d.ProbeComplete()
		d.Close()
	}},
	{name: "tracks and muxers", f: func(s *slot) {
		m := &avformat.BaseMuxer{}
		for k, t := range []utils.AVMediaType{utils.AVMediaTypeAudio, utils.AVMediaTypeVideo, utils.AVMediaTypeAudio} {
			i, err := m.AddTrack(&avformat.SimpleTrack{Stream: &avformat.AVStream{MediaType: t, CodecID: utils.AVCodecID(k + s.v), Index: k}})
			s.add(i, err)
		}
		s.add(m.Tracks.Size(), m.Tracks.Find(utils.AVCodecID(1)).GetStream().Index, avformat.ConvertTs(int64(1000+s.v), 1000, 90000), utils.AVCodecIdH264.String())
	}},
}

// alone gives the result of a job that runs by itself; "" when it panics (other properties).
var aloneCache = map[[2]int]string{}

func alone(j, v int) string {
	k := [2]int{j, v}
	if r, ok := aloneCache[k]; ok {
		return r
	}
	ch, dv := vsched.Choose, vsched.Dev
	vsched.Choose, vsched.Dev = nil, nil
	r := func() (r string) {
		defer func() {
			if recover() != nil {
				r = ""
			}
		}()
		vsched.Restore()
		s := &slot{v: v}
		jobs[j].f(s)
		return s.String()
	}()
	vsched.Restore()
	vsched.Choose, vsched.Dev = ch, dv
	aloneCache[k] = r
	return r
}

func (s *slot) check(c *ex.C, j int, when string) {
	if got, want := s.String(), alone(j, s.v); got != want {
		c.Failf("job %q on input %d gives %s %s, alone it gives %s", jobs[j].name, s.v, clipS(got), when, clipS(want))
	}
}

func clipS(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// parallel runs jobs as threads and compares.
func parallel(c *ex.C, js []int) {
	var ss []*slot
	var bodies []func()
	for i, j := range js {
		if alone(j, i&1) == "" {
			c.Skip()
		}
	}
	choose := vsched.Choose
	for i, j := range js {
		s := &slot{v: i & 1}
		ss = append(ss, s)
		c.Logf("thread %d: %s, input %d", i, jobs[j].name, s.v)
		bodies = append(bodies, func() {
			jobs[j].f(s)
			s.check(c, j, "when run in parallel with other jobs")
		})
	}
	vsched.LastPooled = true
	defer func() { vsched.LastPooled = false }()
	vsched.Run(bodies...)
	vsched.Choose = choose
	for i, j := range js {
		ss[i].check(c, j, "after other jobs ran in parallel")
	}
}

func history(c *ex.C, n int) {
	vsched.Choose = nil // pooled objects: the one freed last
	var ss []*slot
	var js []int
	for i := 0; i < n; i++ {
		k := c.Choose(2 * len(jobs))
		j, v := k/2, k&1
		if alone(j, v) == "" {
			c.Skip()
		}
		s := &slot{v: v}
		c.Logf("%s, input %d", jobs[j].name, v)
		jobs[j].f(s)
		c.Step()
		s.check(c, j, fmt.Sprintf("after %d other jobs", i))
		if i == 0 && c.Choose(2) == 1 {
			c.Logf("its inputs and results are overwritten")
			s.scribble()
			continue
		}
		ss, js = append(ss, s), append(js, j)
	}
	for i, s := range ss {
		s.check(c, js[i], "once later jobs ran")
	}
}

// shared: several threads read one stream description and convert packets of their own with it.
var readers = []struct {
	name string
	f    func(st *avformat.AVStream, v int) any
}{
	{"its Annex B parameter sets", func(st *avformat.AVStream, v int) any { return st.CodecParameters.AnnexBExtraData() }},
	{"its MP4 configuration", func(st *avformat.AVStream, v int) any { return st.CodecParameters.MP4ExtraData() }},
	{"its sets and size", func(st *avformat.AVStream, v int) any {
		c := st.CodecParameters
		return []any{c.SPS(), c.PPS(), c.Width(), c.Height()}
	}},
	{"a length-prefixed key packet to Annex B", func(st *avformat.AVStream, v int) any {
		u := units264(v)
		if st.CodecID == utils.AVCodecIdH265 {
			u = units265(v)
		}
		p := avformat.NewVideoPacket(prefixed(u...), 1, 2, true, avcc, st.CodecID, 0, 1000)
		defer avformat.FreePacket(p)
		return append([]byte{}, avformat.AVCCPacket2AnnexB(st, p)...)
	}},
	{"an Annex B key packet with parameter sets", func(st *avformat.AVStream, v int) any {
		u := units264(v)
		if st.CodecID == utils.AVCodecIdH265 {
			u = units265(v)
		}
		p := avformat.NewVideoPacket(annexb(u...), 1, 2, true, annexB, st.CodecID, 0, 1000)
		defer avformat.FreePacket(p)
		return append([]byte{}, avformat.AVCCPacket2AnnexB(st, p)...)
	}},
	{"its place in a muxer", func(st *avformat.AVStream, v int) any {
		m := &avformat.BaseMuxer{}
		i, err := m.AddTrack(&avformat.SimpleTrack{Stream: st})
		return []any{i, err == nil, m.Tracks.Find(st.CodecID) != nil, st.Timebase, int(st.CodecID), st.Data}
	}},
}

func description(k int) *avformat.AVStream {
	var st *avformat.AVStream
	switch k {
	case 0:
		c, _ := avformat.ParseAVCDecoderConfigurationRecord(avcRec(0))
		st = avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, avcRec(0), c)
	case 1:
		st, _ = avformat.CreateAVCStreamFromKeyFrame(annexb(pSPS264[1], pPPS264[1]), 0)
	case 2:
		c, _ := avformat.ParseHEVCDecoderConfigurationRecord(hevcRec(0))
		st = avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH265, hevcRec(0), c)
	default:
		st, _ = avformat.CreateHevcStreamFromKeyFrame(annexb(pVPS265[1], pSPS265[1], pPPS265[1]), 0)
	}
	if st == nil || st.CodecParameters == nil {
		return nil
	}
	st.Timebase = 1000
	return st
}

func show(x any) string {
	var b strings.Builder
	render(&b, reflect.ValueOf(x), 0)
	return b.String()
}

func shared(c *ex.C, n int) {
	k := c.Choose(4)
	choose := vsched.Choose
	vsched.Choose = nil
	st := description(k)
	if st == nil {
		c.Skip()
	}
	c.Logf("stream description %d (H.264 from a record, H.264 from a key frame, H.265 from a record, H.265 from a key frame)", k)
	var want []string
	var js []int
	for i := 0; i < n; i++ {
		j := c.Choose(len(readers))
		js = append(js, j)
		want = append(want, show(readers[j].f(description(k), i&1)))
		c.Logf("thread %d: %s", i, readers[j].name)
	}
	// writing the configuration of the last description parses its parameter sets, some thousand statements
	heavy := 0
	for _, j := range js {
		if k == 3 && j == 1 {
			heavy++
		}
	}
	if heavy > 0 {
		c.MaxDev = min(c.MaxDev, 1)
	}
	if heavy > 1 && n > 2 {
		c.MaxDev = 0
	}
	vsched.Choose = choose
	got := make([]any, n)
	var bodies []func()
	for i := range js {
		bodies = append(bodies, func() { got[i] = readers[js[i]].f(st, i&1) })
	}
	vsched.LastPooled = true
	defer func() { vsched.LastPooled = false }()
	vsched.Run(bodies...)
	vsched.Choose = choose
	for i, j := range js {
		if g := show(got[i]); g != want[i] {
			c.Failf("%s, read while other threads use the same stream description: %s, alone: %s", readers[j].name, clipS(g), clipS(want[i]))
		}
	}
}

func init() {
	run.Register(&run.Prop{ID: "C31", Spaces: func(th bool) []*ex.Space {
		pb, n, w := 1, 3, 0
		if th {
			pb, w = 2, 1
		}
		var light, small []int
		for i, j := range jobs {
			if j.weight == 0 {
				small = append(small, i)
			}
			if j.weight <= w {
				light = append(light, i)
			}
		}
		return []*ex.Space{
			{Name: "histories", Serial: true, Bound: fmt.Sprintf("every sequence of %d of %d jobs on 2 inputs each, inputs and results of the first kept or overwritten", n, len(jobs)), Run: controlled(func(c *ex.C) { history(c, n) })},
			{Name: "pairs", Serial: true, MaxDev: 1, Bound: fmt.Sprintf("2 threads, every pair of %d jobs on different inputs x all schedules with at most 1 preemption at any statement of the code under test", len(jobs)), Run: controlled(func(c *ex.C) {
				parallel(c, []int{c.Choose(len(jobs)), c.Choose(len(jobs))})
			})},
			{Name: "same-job", Serial: true, MaxDev: 2, Bound: fmt.Sprintf("2 threads with the same job (%d of them) x all schedules with at most 2 preemptions", len(light)), Run: controlled(func(c *ex.C) {
				j := light[c.Choose(len(light))]
				parallel(c, []int{j, j})
			})},
			{Name: "shared-description", Serial: true, MaxDev: 2, Bound: fmt.Sprintf("one H.264 or H.265 stream description (from a record, from a key frame) x 2 threads, each with one of %d uses (read parameter sets, configuration, size; convert a packet of its own; register with a muxer) x all schedules with at most 2 preemptions (1 where a configuration is written from H.265 parameter sets)", len(readers)), Run: controlled(func(c *ex.C) { shared(c, 2) })},
			{Name: "shared-three", Serial: true, MaxDev: 1, Bound: "the same with 3 threads and at most 1 preemption (none with two such writers)", Run: controlled(func(c *ex.C) { shared(c, 3) })},
			{Name: "three-threads", Serial: true, MaxDev: pb, Bound: fmt.Sprintf("3 threads with the same job x all schedules with at most %d preemptions", pb), Run: controlled(func(c *ex.C) {
				j := small[c.Choose(len(small))]
				parallel(c, []int{j, j, j})
			})},
		}
	}, Assumptions: []string{"each job works on objects and data of its own", "memory operations are sequentially consistent (one thread runs at a time, switches happen between statements)"}})
}
