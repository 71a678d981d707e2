package props

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

type entry struct {
	name string
	f    func(b []byte)
}

type nopHandler struct{ n int }

func (h *nopHandler) OnNewTrack(avformat.Track)       { h.n++ }
func (h *nopHandler) OnTrackComplete()                { h.n++ }
func (h *nopHandler) OnTrackNotFind()                 { h.n++ }
func (h *nopHandler) OnPacket(pkt *avformat.AVPacket) { h.n += len(pkt.Data) }

// nopPipe is a pipeline for data that is handed to the demuxer directly.
type nopPipe struct{}

func (nopPipe) Write(data []byte, index int, mediaType utils.AVMediaType) (int, error) {
	return len(data), nil
}
func (nopPipe) Fetch(index int) ([]byte, error) { return nil, nil }
func (nopPipe) DiscardBackPacket(index int)     {}
func (nopPipe) DiscardHeadPacket(index int)     {}
func (nopPipe) PendingBlockSize(index int) int  { return 0 }

func newNopDemuxer(name string) *avformat.BaseDemuxer {
	d := &avformat.BaseDemuxer{Name: name, DataPipeline: nopPipe{}}
	d.SetHandler(&nopHandler{})
	return d
}

// entries are the parsing entry points for untrusted data.
func entries() (r []entry) {
	add := func(n string, f func(b []byte)) { r = append(r, entry{n, f}) }
	add("avc.FindStartCode", func(b []byte) { avc.FindStartCode(b) })
	add("avc.FindStartCode2", func(b []byte) { avc.FindStartCode2(b) })
	add("avc.FindStartCodeWithReader", func(b []byte) {
		rd := bufio.NewBytesReader(b)
		for i := 0; avc.FindStartCodeWithReader(rd) > -1; i++ {
			if i > len(b) {
				panic("finds more start codes than there are bytes")
			}
		}
	})
	add("avc.SplitNalU", func(b []byte) {
		n := 0
		avc.SplitNalU(b, func(p []byte) {
			avc.RemoveStartCode(p)
			if n++; n > len(b)+1 {
				panic("more pieces than bytes")
			}
		})
	})
	add("avc.RemoveStartCode", func(b []byte) { avc.RemoveStartCode(b) })
	add("avc.IsKeyFrame", func(b []byte) { avc.IsKeyFrame(b) })
	add("hevc.IsKeyFrame", func(b []byte) { hevc.IsKeyFrame(b) })
	add("avformat.IsKeyFrame", func(b []byte) {
		avformat.IsKeyFrame(utils.AVCodecIdH264, b)
		avformat.IsKeyFrame(utils.AVCodecIdH265, b)
		avformat.IsKeyFrame(utils.AVCodecIdVP8, b)
	})
	add("avc.ParseExtraDataFromKeyNALU", func(b []byte) { avc.ParseExtraDataFromKeyNALU(b) })
	add("hevc.ParseExtraDataFromKeyNALU", func(b []byte) { hevc.ParseExtraDataFromKeyNALU(b) })
	add("avc.ParseSPS", func(b []byte) { avc.ParseSPS(b) })
	add("hevc.ParseSPS", func(b []byte) { hevc.ParseSPS(b) })
	add("avc record Unmarshal", func(b []byte) { (&avc.AVCDecoderConfigurationRecord{}).Unmarshal(b) })
	add("hevc record Unmarshal", func(b []byte) { (&hevc.HEVCDecoderConfigurationRecord{}).Unmarshal(b) })
	add("avc.ExtraDataToAnnexB", func(b []byte) { avc.ExtraDataToAnnexB(b) })
	add("hevc.ExtraDataToAnnexB", func(b []byte) { hevc.ExtraDataToAnnexB(b) })
	add("avc.M4VCExtraDataToAnnexB", func(b []byte) { avc.M4VCExtraDataToAnnexB(b) })
	add("avc.NewCodecDataFromAVCDecoderConfigurationRecord", func(b []byte) { avc.NewCodecDataFromAVCDecoderConfigurationRecord(b) })
	add("hevc.NewCodecDataFromHEVCDecoderConfigurationRecord", func(b []byte) { hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(b) })
	view := func(cd avformat.CodecData, err error) {
		if err == nil && cd != nil {
			cd.AnnexBExtraData()
			cd.MP4ExtraData()
			cd.Width()
			cd.Height()
			cd.SPS()
			cd.PPS()
		}
	}
	add("avformat.ParseAVCDecoderConfigurationRecord", func(b []byte) { view(avformat.ParseAVCDecoderConfigurationRecord(b)) })
	add("avformat.ParseHEVCDecoderConfigurationRecord", func(b []byte) { view(avformat.ParseHEVCDecoderConfigurationRecord(b)) })
	add("avformat.CreateAVCStreamFromKeyFrame", func(b []byte) {
		if s, err := avformat.CreateAVCStreamFromKeyFrame(b, 0); err == nil {
			view(s.CodecParameters, nil)
		}
	})
	add("avformat.CreateHevcStreamFromKeyFrame", func(b []byte) {
		if s, err := avformat.CreateHevcStreamFromKeyFrame(b, 0); err == nil {
			view(s.CodecParameters, nil)
		}
	})
	add("avformat.ExtractVideoExtraDataFromKeyFrame", func(b []byte) {
		avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH264, b)
		avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH265, b)
	})
	add("avformat.ExtractAudioExtraData", func(b []byte) {
		avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, b)
		avformat.ExtractAudioExtraData(utils.AVCodecIdPCMALAW, b)
	})
	add("avformat.ExtractAudioPacket", func(b []byte) {
		for _, adts := range []bool{true, false} {
			if p, err := avformat.ExtractAudioPacket(utils.AVCodecIdAAC, b, 0, 0, 1000, adts); err == nil {
				avformat.FreePacket(p)
			}
		}
	})
	add("utils.ReadADtsFixedHeader", func(b []byte) {
		if h, err := utils.ReadADtsFixedHeader(b); err == nil {
			utils.ADtsHeader2MpegAudioConfigData(h)
		}
	})
	add("utils.ParseMpeg4AudioConfig", func(b []byte) { utils.ParseMpeg4AudioConfig(b) })
	add("avc.AVCC2AnnexB", func(b []byte) {
		d := make([]byte, 8*len(b)+64)
		avc.AVCC2AnnexB(d, b, nil)
		avc.AVCC2AnnexB(d, b, []byte{0, 0, 0, 1, 0x67})
	})
	add("avc.AnnexB2AVCC", func(b []byte) { avc.AnnexB2AVCC(make([]byte, 8*len(b)+64), b) })
	add("avc.Mp4ToAnnexB", func(b []byte) {
		avc.Mp4ToAnnexB(bufio.NewBytesWriter(make([]byte, 8*len(b)+64)), b, []byte{0, 0, 0, 1, 0x67})
	})
	add("hevc.Mp4ToAnnexB", func(b []byte) {
		d := make([]byte, 8*len(b)+64)
		for _, ls := range []int{1, 2, 4} {
			hevc.Mp4ToAnnexB(d, b, []byte{0, 0, 0, 1, 0x40}, ls)
		}
	})
	for _, id := range []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265} {
		id := id
		sets := c13sets264
		if id == utils.AVCodecIdH265 {
			sets = c13sets265
		}
		for _, params := range []int{0, 1, 2, 3, 4} {
			st := crashStream(id, []int{4, 4, 4, 1, 2}[params], []int{0, 1, 2, 1, 1}[params], sets)
			if params > 2 && id == utils.AVCodecIdH264 {
				continue
			}
			add(fmt.Sprintf("packet conversions (codec %d, parameters %d)", id, params), func(b []byte) {
				for _, form := range []avformat.PacketType{avformat.PacketTypeAVCC, avformat.PacketTypeAnnexB} {
					for _, key := range []bool{true, false} {
						p := avformat.NewVideoPacket(b, 0, 0, key, form, id, 0, 1000)
						avformat.AVCCPacket2AnnexB(st, p)
						avformat.AnnexBPacket2AVCC(p)
						avformat.FreePacket(p)
					}
				}
			})
		}
		for _, name := range []string{"ps", "flv", "ts", "jt1078"} {
			name := name
			add(fmt.Sprintf("demuxer %s video input (codec %d)", name, id), func(b []byte) {
				d := newNopDemuxer(name)
				d.OnVideoPacket(0, id, b, true, 0, 0, d.GetPackType())
				d.OnVideoPacket(0, id, b, false, 10, 10, d.GetPackType())
				d.OnVideoPacket(0, id, b, true, 20, 20, d.GetPackType())
				d.ProbeComplete()
				d.OnVideoPacket(0, id, b, true, 30, 30, d.GetPackType())
			})
			add(fmt.Sprintf("demuxer %s video header (codec %d)", name, id), func(b []byte) {
				d := newNopDemuxer(name)
				d.OnNewVideoTrack(0, id, 1000, b)
				d.OnVideoPacket(0, id, b, true, 0, 0, d.GetPackType())
				d.OnNewVideoTrack(1, id, 1000, b)
				d.TryCompleteProbe()
				d.OnNewVideoTrack(1, id, 1000, b)
			})
		}
	}
	for _, id := range []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726} {
		id := id
		for _, name := range []string{"ps", "flv"} {
			name := name
			add(fmt.Sprintf("demuxer %s audio input (codec %d)", name, id), func(b []byte) {
				d := newNopDemuxer(name)
				d.OnAudioPacket(0, id, b, 0)
				d.OnAudioPacket(0, id, b, 100)
				d.TryCompleteProbe()
				d.OnAudioPacket(0, id, b, 700)
				d.ProbeComplete()
			})
			add(fmt.Sprintf("demuxer %s audio header (codec %d)", name, id), func(b []byte) {
				d := newNopDemuxer(name)
				d.OnNewAudioTrack(0, id, 1000, b, avformat.AudioConfig{})
				d.OnAudioPacket(0, id, b, 0)
				d.OnAudioPacket(0, id, b, 100)
				d.ProbeComplete()
			})
		}
	}
	return
}

var (
	entryList []entry
	entryOnce sync.Once
)

// all lists the entry points; built on first use, because it parses well-formed headers.
func all() []entry {
	entryOnce.Do(func() { entryList = entries() })
	return entryList
}

// crashStream is a stream with codec parameters, or without when the code under test does not accept the header.
func crashStream(id utils.AVCodecID, ls, params int, sets [3][][]byte) (st *avformat.AVStream) {
	defer func() {
		if recover() != nil {
			st = &avformat.AVStream{MediaType: utils.AVMediaTypeVideo, CodecID: id}
		}
	}()
	st, _ = c13stream(id, ls, params, sets)
	return st
}

// feed passes one byte string to every entry point, in a slice without spare capacity.
func feed(c *ex.C, b []byte) {
	in := make([]byte, len(b))
	copy(in, b)
	for i := range all() {
		feedOne(c, &entryList[i], b, in)
	}
	c.Step()
}

func feedOne(c *ex.C, e *entry, b, in []byte) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(ex.Violation); ok {
				panic(p)
			}
			buf := make([]byte, 2048)
			if c.Tracing() {
				c.Logf("%s", buf[:runtime.Stack(buf, false)])
			}
			c.Failf("%s panics on %d bytes % x: %v", e.name, len(b), clipb(b), p)
		}
	}()
	e.f(in)
	if !bytes.Equal(in, b) {
		c.Failf("%s modified its input % x to % x", e.name, clipb(b), clipb(in))
	}
}

type sample struct {
	name string
	b    []byte
}

func crashSamples() (r []sample) {
	add := func(n string, b []byte) { r = append(r, sample{n, b}) }
	sps, pps := validAVC[0].nal, c13sets264[2][0]
	hv := c13sets265
	add("avcC", avcRecord([4]byte{1, 66, 0xc0, 30}, 3, true, [][]byte{sps}, [][]byte{pps}))
	hdr := make([]byte, 22)
	hdr[0], hdr[21] = 1, 3
	add("hvcC", hevcRecord(hdr, []hvArray{{32, true, hv[0]}, {33, true, hv[1]}, {34, true, hv[2]}}))
	add("H.264 key frame", cat(sc4, []byte{9, 0xf0}, sc4, sps, sc4, pps, []byte{0, 0, 1}, []byte{0x65, 0x88, 0x84, 0}))
	add("H.265 key frame", cat(sc4, hv[0][0], sc4, hv[1][0], []byte{0, 0, 1}, hv[2][0], sc4, []byte{0x26, 1, 0xaf}))
	add("H.264 length-prefixed", lenPrefix([][]byte{{6, 1, 2}, sps[:6], pps, {0x65, 0x88}, {0x41}}, 4))
	add("H.265 length-prefixed", lenPrefix([][]byte{{0x4e, 1, 2}, {0x26, 1, 9}, {2, 1, 7}}, 4))
	add("H.265 length size 2", lenPrefix([][]byte{{0x4e, 1, 2}, {0x26, 1, 9}, {2, 1, 7}}, 2))
	add("H.265 length size 1", lenPrefix([][]byte{{0x4e, 1, 2}, {0x26, 1, 9}, {2, 1, 7}}, 1))
	add("ADTS", adts(4, 2, []byte{0x21, 0x10, 5}))
	add("audio configuration", []byte{0x12, 0x10, 0x56, 0xe5, 0})
	add("H.264 SPS", sps)
	add("H.265 SPS", hv[1][0])
	return
}

func init() {
	run.Register(&run.Prop{ID: "C25", Spaces: func(th bool) []*ex.Space {
		n1, n2 := 5, 7
		if th {
			n1, n2 = 6, 8
		}
		rep := 3
		if th {
			rep = 4
		}
		samples := crashSamples()
		spsDev := 2
		if th {
			spsDev = 3
		}
		pairVals := []byte{0, 1, 0x7f, 0xff}
		if th {
			pairVals = []byte{0, 1, 2, 3, 0x40, 0x7f, 0x80, 0xfe, 0xff}
		}
		names := ""
		for _, s := range samples {
			names += fmt.Sprintf("%s (%d), ", s.name, len(s.b))
		}
		return []*ex.Space{
			{Name: "two-bytes", Bound: "every byte string of up to 2 bytes", Run: func(c *ex.C) {
				var b []byte
				for n := c.Choose(3); n > 0; n-- {
					b = append(b, byte(c.Choose(256)))
				}
				feed(c, b)
			}},
			{Name: "strings", Bound: fmt.Sprintf("every string of up to %d bytes over 00 01 03 67 68 65 26 42 ff 80, to %d entry points", n1, len(all())), Run: func(c *ex.C) {
				feed(c, str(c, []byte{0, 1, 3, 0x67, 0x68, 0x65, 0x26, 0x42, 0xff, 0x80}, n1))
			}},
			{Name: "framing", Bound: fmt.Sprintf("every string of up to %d bytes over 00 01 02 41 ff", n2), Run: func(c *ex.C) {
				feed(c, str(c, []byte{0, 1, 2, 0x41, 0xff}, n2))
			}},
			{Name: "after-adts-sync", Bound: "ff f1/f9/f0 followed by every 2 bytes, and up to 5 more from 00 1f ff, to the audio entry points", Run: func(c *ex.C) {
				b := []byte{0xff, []byte{0xf1, 0xf9, 0xf0}[c.Choose(3)], byte(c.Choose(256)), byte(c.Choose(256))}
				for n := c.Choose(6); n > 0; n-- {
					b = append(b, []byte{0, 0x1f, 0xff}[n%3])
				}
				in := make([]byte, len(b))
				copy(in, b)
				c.Step()
				for i := range all() {
					if e := &entryList[i]; strings.Contains(e.name, "udio") || strings.Contains(e.name, "ADts") {
						feedOne(c, e, b, in)
					}
				}
			}},
			{Name: "truncation", Bound: "every prefix and every suffix of the samples: " + names, Run: func(c *ex.C) {
				s := samples[c.Choose(len(samples))].b
				k := c.Choose(len(s) + 1)
				if c.Choose(2) == 0 {
					feed(c, s[:k])
				} else {
					feed(c, s[k:])
				}
			}},
			{Name: "one-byte", Bound: "the samples with every byte replaced by every value, whole and cut after it (0..3 bytes later)", Run: func(c *ex.C) {
				s := append([]byte{}, samples[c.Choose(len(samples))].b...)
				k := c.Choose(len(s))
				s[k] = byte(c.Choose(256))
				if cut := c.Choose(3); cut > 0 {
					s = s[:min(len(s), k+1+3*(cut-1))]
				}
				feed(c, s)
			}},
			{Name: "two-positions", Bound: fmt.Sprintf("the samples with every pair of bytes replaced by %d values each", len(pairVals)), Run: func(c *ex.C) {
				s := append([]byte{}, samples[c.Choose(len(samples))].b...)
				if len(s) < 2 {
					c.Skip()
				}
				i := c.Choose(len(s) - 1)
				j := i + 1 + c.Choose(len(s)-1-i)
				s[i] = pairVals[c.Choose(len(pairVals))]
				s[j] = pairVals[c.Choose(len(pairVals))]
				feed(c, s)
			}},
			{Name: "insert-delete", Bound: "the samples with one byte removed, or one of 00 01 80 ff inserted, anywhere", Run: func(c *ex.C) {
				s := samples[c.Choose(len(samples))].b
				k := c.Choose(len(s))
				if v := c.Choose(5); v == 4 {
					feed(c, cat(s[:k], s[k+1:]))
				} else {
					feed(c, cat(s[:k], []byte{[]byte{0, 1, 0x80, 0xff}[v]}, s[k:]))
				}
			}},
			{Name: "sps", MaxDev: spsDev, Bound: fmt.Sprintf("H.264 and H.265 sequence parameter sets of the reference encoder with at most %d syntax deviations: whole, cut at every byte, every byte replaced by 00, 80, ff, to the set parsers", spsDev), Run: func(c *ex.C) {
				var nal []byte
				hv := c.Choose(2) == 1
				if hv {
					nal, _, _ = genHEVC(pick{c: c})
				} else {
					nal, _, _ = genAVC(pick{c: c})
				}
				k := c.Choose(len(nal))
				v := c.Choose(4)
				b := append([]byte{}, nal...)
				if v == 3 {
					b = b[:k]
				} else {
					b[k] = []byte{0, 0x80, 0xff}[v]
				}
				in := make([]byte, len(b))
				copy(in, b)
				c.Step()
				for i := range all() {
					if e := &entryList[i]; e.name == "avc.ParseSPS" && !hv || e.name == "hevc.ParseSPS" && hv {
						feedOne(c, e, b, in)
					}
				}
			}},
			{Name: "repeated", Bound: fmt.Sprintf("every pattern of 1..%d bytes over 00 01 02 03 42 65 ff, repeated 20, 150 and 900 times, alone or after a start code", rep), Run: func(c *ex.C) {
				p := []byte{}
				for n := 1 + c.Choose(rep); n > 0; n-- {
					p = append(p, []byte{0, 1, 2, 3, 0x42, 0x65, 0xff}[c.Choose(7)])
				}
				b := bytes.Repeat(p, []int{20, 150, 900}[c.Choose(3)])
				if c.Bool() {
					b = cat(sc4, b)
				}
				feed(c, b)
			}},
			{Name: "long", Bound: "runs of 1..2000 bytes of one of 9 values, alone, after a start code or a length field, and after each sample", Run: func(c *ex.C) {
				n := []int{1, 7, 64, 255, 256, 1024, 2000}[c.Choose(7)]
				b := bytes.Repeat([]byte{[]byte{0, 1, 2, 0x67, 0x42, 0x7f, 0x80, 0xaa, 0xff}[c.Choose(9)]}, n)
				switch k := c.Choose(4 + len(samples)); k {
				case 0:
				case 1:
					b = cat(sc4, b)
				case 2:
					b = cat([]byte{0, 0, byte(n >> 8), byte(n)}, b)
				case 3:
					b = cat([]byte{0, 0, 1, 0x67}, b)
				default:
					b = cat(samples[k-4].b, b)
				}
				feed(c, b)
			}},
		}
	}, Assumptions: []string{"destination buffers are sufficiently large", "an AAC track without ADTS headers is announced with a configuration (nil is a programming error)", "length-field sizes are 1, 2 or 4", "avc.ParseNalUnits, which nothing uses, is left out"}})
}
