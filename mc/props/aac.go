package props

import (
	"bytes"
	"fmt"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

var stdRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
var stdChannels = []int{0, 1, 2, 3, 4, 5, 6, 8, -1, -1, -1, 7, 8, 24}

// adtsFields lists the fixed and variable header fields of ISO/IEC 14496-3 1.A.2.2 by bit position.
var adtsFields = []struct {
	name   string
	at, n  int
	access func(utils.ADtsHeader) int
}{
	{"syncword", 0, 12, utils.ADtsHeader.SyncWord},
	{"ID", 12, 1, utils.ADtsHeader.ID},
	{"layer", 13, 2, utils.ADtsHeader.Layer},
	{"protection_absent", 15, 1, utils.ADtsHeader.ProtectionAbsent},
	{"profile", 16, 2, utils.ADtsHeader.Profile},
	{"sampling_frequency_index", 18, 4, utils.ADtsHeader.Frequency},
	{"private_bit", 22, 1, utils.ADtsHeader.PrivateBit},
	{"channel_configuration", 23, 3, utils.ADtsHeader.Channel},
	{"original", 26, 1, utils.ADtsHeader.Original},
	{"home", 27, 1, utils.ADtsHeader.Home},
	{"copyright_bit", 28, 1, utils.ADtsHeader.CopyrightBit},
	{"copyright_start", 29, 1, utils.ADtsHeader.CopyrightStart},
	{"frame_length", 30, 13, utils.ADtsHeader.FrameLength},
	{"buffer_fullness", 43, 11, utils.ADtsHeader.Fullness},
	{"raw_data_blocks", 54, 2, utils.ADtsHeader.Blocks},
}

func bitsOf(b []byte, at, n int) (v int) {
	for i := at; i < at+n; i++ {
		v = v<<1 | int(b[i/8]>>(7-i%8)&1)
	}
	return
}

func checkADTSRead(c *ex.C, b []byte) {
	c.Step()
	h, err := utils.ReadADtsFixedHeader(b)
	sync := bitsOf(b, 0, 12) == 0xfff
	if !sync {
		if err == nil {
			c.Failf("header % x without sync word accepted", b)
		}
		return
	}
	if err != nil {
		c.Failf("header % x refused: %v", b, err)
	}
	for i := range adtsFields {
		f := &adtsFields[i]
		if got, want := f.access(h), bitsOf(b, f.at, f.n); got != want {
			c.Failf("header % x: %s = %d, want %d", b, f.name, got, want)
		}
	}
}

func init() {
	run.Register(&run.Prop{ID: "C20", Spaces: func(th bool) []*ex.Space {
		lens := func(c *ex.C) (from, to int) { i := c.Choose(64); return i * 128, (i + 1) * 128 }
		return []*ex.Space{
			{Name: "write-read", Bound: "both versions x 4 profiles x 16 rate indices x 8 channel configurations x all 8192 frame lengths x clean and dirty destination: complete", Run: func(c *ex.C) {
				id, prof, idx, ch := c.Choose(2), c.Choose(4), c.Choose(16), c.Choose(8)
				fill := byte(0xff * c.Choose(2))
				from, to := lens(c)
				buf := bytes.Repeat([]byte{fill}, 9)
				for size := from; size < to; size++ {
					c.Step()
					for i := range buf {
						buf[i] = fill
					}
					utils.SetADtsHeader(buf, id, prof, idx, ch, size)
					if buf[7] != fill || buf[8] != fill {
						c.Failf("SetADtsHeader wrote behind the 7-byte header")
					}
					h, err := utils.ReadADtsFixedHeader(buf)
					if err != nil {
						c.Failf("header % x written for (%d,%d,%d,%d,%d) is refused: %v", buf[:7], id, prof, idx, ch, size, err)
					}
					got := [8]int{h.SyncWord(), h.ID(), h.Layer(), h.ProtectionAbsent(), h.Profile(), h.Frequency(), h.Channel(), h.FrameLength()}
					if want := [8]int{0xfff, id, 0, 1, prof, idx, ch, size}; got != want || h.Blocks() != 0 {
						c.Failf("SetADtsHeader(id %d, profile %d, index %d, channels %d, size %d) wrote % x, which reads back as sync/id/layer/no-crc/profile/index/channels/size %v, blocks %d", id, prof, idx, ch, size, buf[:7], got, h.Blocks())
					}
				}
			}},
			{Name: "read", Bound: "every pair of header bytes x all 65536 values on 4 base headers", Run: func(c *ex.C) {
				base := [][]byte{{0xff, 0xf1, 0x50, 0x80, 0x02, 0x1f, 0xfc}, {0xff, 0xf0, 0, 0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xf9, 0xa5, 0x5a, 0xa5, 0x5a, 0xa5}}[c.Choose(4)]
				i := c.Choose(6)
				j := i + 1 + c.Choose(6-i)
				x := c.Choose(256)
				b := append([]byte{}, base...)
				for y := 0; y < 256; y++ {
					b[i], b[j] = byte(x), byte(y)
					orig := append([]byte{}, b...)
					checkADTSRead(c, b)
					checkADTSRead(c, append(b, 0xde, 0xad))
					if !bytes.Equal(b, orig) {
						c.Failf("the header was modified")
					}
				}
			}},
			{Name: "config", Bound: "both versions x CRC x 4 profiles x 13 rate indices x 8 channel configurations: complete", Run: func(c *ex.C) {
				id, crc, prof, idx, ch := c.Choose(2), c.Choose(2), c.Choose(4), c.Choose(13), c.Choose(8)
				other := byte(0x3f * c.Choose(2))
				b := []byte{0xff, 0xf0 | byte(id)<<3 | byte(1-crc), byte(prof)<<6 | byte(idx)<<2 | byte(ch>>2) | other&2, byte(ch&3)<<6 | other, 0x22, 0x1f, 0xfc, 1, 2, 3, 4}
				c.Logf("ADTS header % x", b)
				c.Step()
				h, err := utils.ReadADtsFixedHeader(b)
				if err != nil {
					c.Failf("header % x: %v", b, err)
				}
				asc, err := utils.ADtsHeader2MpegAudioConfigData(h)
				if err != nil || len(asc) != 2 {
					c.Failf("audio configuration of header % x: % x, %v", b, asc, err)
				}
				if want := []byte{byte((prof+1)<<3 | idx>>1), byte(idx&1<<7 | ch<<3)}; !bytes.Equal(asc, want) {
					c.Failf("audio configuration of header % x is % x, want % x", b, asc, want)
				}
				cfg, err := utils.ParseMpeg4AudioConfig(asc)
				if err != nil {
					c.Failf("audio configuration % x: %v", asc, err)
				}
				if cfg.ObjectType != prof+1 || cfg.SamplingIndex != idx || cfg.SampleRate != stdRates[idx] || cfg.ChanConfig != ch || cfg.Channels != stdChannels[ch] {
					c.Failf("audio configuration of profile %d, index %d, channels %d parses to type %d, index %d, rate %d, channels %d/%d", prof, idx, ch, cfg.ObjectType, cfg.SamplingIndex, cfg.SampleRate, cfg.ChanConfig, cfg.Channels)
				}
				extra, skip, ac, err := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, b)
				if err != nil {
					c.Failf("ExtractAudioExtraData(% x): %v", b, err)
				}
				if !bytes.Equal(extra, asc) || skip != 7+2*crc || ac.SampleRate != cfg.SampleRate || ac.Channels != cfg.Channels || ac.SampleSize != 16 || !ac.HasADTSHeader {
					c.Failf("stream parameters of ADTS header % x: configuration % x, header length %d, %+v; want % x, %d, rate %d, %d channels", b, extra, skip, ac, asc, 7+2*crc, cfg.SampleRate, cfg.Channels)
				}
			}},
			{Name: "parse-config", Bound: "all 65536 2-byte audio configurations, with and without following bytes: complete", Run: func(c *ex.C) {
				x := c.Choose(256)
				tail := [][]byte{nil, {0}, {0xff, 0xff, 0xff}}[c.Choose(3)]
				for y := 0; y < 256; y++ {
					d := append([]byte{byte(x), byte(y)}, tail...)
					orig := append([]byte{}, d...)
					typ, idx, ch := bitsOf(d, 0, 5), bitsOf(d, 5, 4), bitsOf(d, 9, 4)
					c.Step()
					if typ == 31 || idx > 12 {
						continue // escape codes: other layout
					}
					cfg, err := utils.ParseMpeg4AudioConfig(d)
					if ch >= len(stdChannels) {
						if err == nil {
							c.Failf("audio configuration % x with channel configuration %d accepted", d, ch)
						}
						continue
					}
					if err != nil {
						if stdChannels[ch] >= 0 {
							c.Failf("audio configuration % x: %v", d, err)
						}
						continue
					}
					if cfg.ObjectType != typ || cfg.SamplingIndex != idx || cfg.SampleRate != stdRates[idx] || cfg.ChanConfig != ch || stdChannels[ch] >= 0 && cfg.Channels != stdChannels[ch] {
						c.Failf("audio configuration % x parses to type %d, index %d, rate %d, channels %d/%d", d, cfg.ObjectType, cfg.SamplingIndex, cfg.SampleRate, cfg.ChanConfig, cfg.Channels)
					}
					if !bytes.Equal(d, orig) {
						c.Failf("the configuration was modified")
					}
				}
			}},
			{Name: "rates", Bound: "all 13 standard rates and indices, in every order of two lookups", Run: func(c *ex.C) {
				for _, i := range []int{c.Choose(13), c.Choose(13)} {
					c.Step()
					r, ok := utils.GetSampleRateFromFrequency(i)
					if !ok || r != stdRates[i] {
						c.Failf("rate of index %d = %d, %v", i, r, ok)
					}
					if k := utils.GetSampleRateIndex(stdRates[i]); k != i {
						c.Failf("index of rate %d = %d, want %d", stdRates[i], k, i)
					}
				}
			}},
			{Name: "other-audio", Bound: "parameters extracted for codecs without in-band configuration, payloads up to 3 bytes", Run: func(c *ex.C) {
				ids := []utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMMULAW, utils.AVCodecIdADPCMG726, utils.AVCodecIdMP3}
				id := ids[c.Choose(len(ids))]
				d := str(c, []byte{0, 0x55, 0xff}, 3)
				c.Step()
				extra, skip, ac, err := avformat.ExtractAudioExtraData(id, d)
				if want := (avformat.AudioConfig{SampleRate: 8000, SampleSize: 16, Channels: 1}); err != nil || len(extra) != 0 || skip != 0 || ac != want {
					c.Failf("%v: % x, %d, %+v, %v", fmt.Sprint(id), extra, skip, ac, err)
				}
			}},
		}
	}, Assumptions: []string{"escape values (object type 31, rate index 13..15) use another layout and are outside the domain", "frame lengths fit the 13-bit field"}})
}
