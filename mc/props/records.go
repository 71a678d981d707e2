package props

import (
	"bytes"
	"fmt"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

var sc4 = []byte{0, 0, 0, 1}

func cat(p ...[]byte) []byte { return bytes.Join(p, nil) }

func with4(l [][]byte) [][]byte {
	var r [][]byte
	for _, n := range l {
		r = append(r, cat(sc4, n))
	}
	return r
}

func eqSets(c *ex.C, what string, got, want [][]byte) {
	if !eqNals(got, with4(want)) {
		c.Failf("%s: sets %s, want %s", what, clip(fmtNals(got)), clip(fmtNals(with4(want))))
	}
}

// avcRecord builds a well-formed record.
func avcRecord(hdr [4]byte, lsm1 byte, reserved bool, sps, pps [][]byte) []byte {
	b := append([]byte{}, hdr[:]...)
	x, y := lsm1, byte(len(sps))
	if reserved {
		x |= 0xfc
		y |= 0xe0
	}
	b = append(b, x, y)
	put := func(l [][]byte) {
		for _, n := range l {
			b = append(append(b, byte(len(n)>>8), byte(len(n))), n...)
		}
	}
	put(sps)
	b = append(b, byte(len(pps)))
	put(pps)
	return b
}

type hvArray struct {
	typ  byte
	comp bool
	nals [][]byte
}

func hevcRecord(hdr []byte, arrays []hvArray) []byte {
	b := append([]byte{}, hdr[:22]...)
	b = append(b, byte(len(arrays)))
	for _, a := range arrays {
		t := a.typ
		if a.comp {
			t |= 0x80
		}
		b = append(b, t, byte(len(a.nals)>>8), byte(len(a.nals)))
		for _, n := range a.nals {
			b = append(append(b, byte(len(n)>>8), byte(len(n))), n...)
		}
	}
	return b
}

func addSC(n []byte, k int) []byte {
	switch k {
	case 1:
		return cat([]byte{0, 0, 1}, n)
	case 2:
		return cat(sc4, n)
	}
	return append([]byte{}, n...)
}

func unit(h byte, n int) []byte { return longBody(h, n) }

var spsAlpha = [][]byte{
	{0x67, 0x42, 0xc0, 0x1e},
	{0x67, 0x64, 0x00, 0x28, 0xac, 0x00, 0x00, 0x03, 0x01},
	{0x27, 0x4d, 0x40, 0x1f, 0x55},
}
var ppsAlpha = [][]byte{{0x68}, {0x68, 0xce, 0x3c, 0x80}, {0x28, 0xee, 0x00, 0x00, 0x03, 0x01}}

func checkAVCMarshal(c *ex.C, spsIn, ppsIn, sps, pps [][]byte) {
	size := 7
	fits := len(sps) > 0 && len(pps) > 0 && len(sps) <= 31 && len(pps) <= 255
	legal := true
	for _, n := range sps {
		size += 2 + len(n)
		legal = legal && len(n) >= 4 && len(n) <= 0xffff
	}
	for _, n := range pps {
		size += 2 + len(n)
		legal = legal && len(n) >= 1 && len(n) <= 0xffff
	}
	in := fmt.Sprint(spsIn, ppsIn)
	c.Step()
	var rec avc.AVCDecoderConfigurationRecord
	b, err := rec.Marshal(spsIn, ppsIn)
	if fmt.Sprint(spsIn, ppsIn) != in {
		c.Failf("Marshal modified its input")
	}
	if err != nil {
		if fits && legal {
			c.Failf("Marshal of %d SPS and %d PPS (%d bytes) fails: %v", len(sps), len(pps), size, err)
		}
		return
	}
	if len(sps) == 0 || len(pps) == 0 {
		c.Failf("Marshal without SPS or PPS succeeded")
	}
	var back avc.AVCDecoderConfigurationRecord
	if err := back.Unmarshal(b); err != nil {
		c.Failf("Marshal of %d SPS and %d PPS gave an unparsable record: %v", len(sps), len(pps), err)
	}
	eqSets(c, "round trip, SPS", back.SPSList, sps)
	eqSets(c, "round trip, PPS", back.PPSList, pps)
	ok := false
	for _, n := range sps {
		ok = ok || len(n) >= 4 && n[1] == back.AVCProfileIndication && n[2] == back.ProfileCompatibility && n[3] == back.AVCLevelIndication
	}
	if legal && !ok {
		c.Failf("round trip: profile/compatibility/level %x %x %x are those of no SPS", back.AVCProfileIndication, back.ProfileCompatibility, back.AVCLevelIndication)
	}
	if back.LengthSizeMinusOne != 3 {
		c.Failf("round trip: length size minus one is %d", back.LengthSizeMinusOne)
	}
	if back.ConfigurationVersion != 1 {
		c.Failf("round trip: version %d", back.ConfigurationVersion)
	}
	if legal {
		ref := avcRecord([4]byte{1, b[1], b[2], b[3]}, 3, true, sps, pps)
		if !bytes.Equal(b, ref) {
			c.Failf("the record is % x, the format wants % x", b, ref)
		}
	}
}

// checkAVCRecord parses a well-formed record and everything derived from it.
func checkAVCRecord(c *ex.C, rec []byte, hdr [4]byte, lsm1 byte, sps, pps [][]byte) {
	if c.Tracing() {
		c.Logf("record %s", clip(fmt.Sprintf("% x", rec)))
	}
	orig := append([]byte{}, rec...)
	c.Step()
	var r avc.AVCDecoderConfigurationRecord
	if err := r.Unmarshal(rec); err != nil {
		c.Failf("Unmarshal of a well-formed record: %v", err)
	}
	got := [5]byte{r.ConfigurationVersion, r.AVCProfileIndication, r.ProfileCompatibility, r.AVCLevelIndication, r.LengthSizeMinusOne}
	if want := [5]byte{hdr[0], hdr[1], hdr[2], hdr[3], lsm1}; got != want {
		c.Failf("version, profile, compatibility, level, length size = %v, want %v", got, want)
	}
	eqSets(c, "Unmarshal SPS", r.SPSList, sps)
	eqSets(c, "Unmarshal PPS", r.PPSList, pps)
	want := cat(cat(with4(sps)...), cat(with4(pps)...))
	for i, f := range []func([]byte) ([]byte, error){avc.ExtraDataToAnnexB, avc.M4VCExtraDataToAnnexB} {
		name := []string{"ExtraDataToAnnexB", "M4VCExtraDataToAnnexB"}[i]
		c.Step()
		b, err := f(rec)
		if err != nil {
			c.Failf("%s of a well-formed record (%d SPS, %d PPS, %d bytes): %v", name, len(sps), len(pps), len(rec), err)
		}
		if !bytes.Equal(b, want) {
			c.Failf("%s = %s, want %s", name, clip(fmt.Sprintf("% x", b)), clip(fmt.Sprintf("% x", want)))
		}
	}
	if !bytes.Equal(rec, orig) {
		c.Failf("the record was modified")
	}
}

func eqHevcHeader(c *ex.C, r *hevc.HEVCDecoderConfigurationRecord, h []byte, arrays int) {
	be := func(b []byte) (v uint64) {
		for _, x := range b {
			v = v<<8 | uint64(x)
		}
		return
	}
	got := []uint64{uint64(r.ConfigurationVersion), uint64(r.GeneralProfileSpace), uint64(r.GeneralTierFlag), uint64(r.GeneralProfileIdc),
		uint64(r.GeneralProfileCompatibilityFlags), r.GeneralConstraintIndicatorFlags, uint64(r.GeneralLevelIdc), uint64(r.MinSpatialSegmentationIdc),
		uint64(r.ParallelismType), uint64(r.ChromaFormat), uint64(r.BitDepthLumaMinus8), uint64(r.BitDepthChromaMinus8), uint64(r.AvgFrameRate),
		uint64(r.ConstantFrameRate), uint64(r.NumTemporalLayers), uint64(r.TemporalIdNested), uint64(r.LengthSizeMinusOne), uint64(r.NumOfArrays)}
	want := []uint64{uint64(h[0]), uint64(h[1] >> 6), uint64(h[1] >> 5 & 1), uint64(h[1] & 31), be(h[2:6]), be(h[6:12]), uint64(h[12]), be(h[13:15]) & 0xfff,
		uint64(h[15] & 3), uint64(h[16] & 3), uint64(h[17] & 7), uint64(h[18] & 7), be(h[19:21]), uint64(h[21] >> 6), uint64(h[21] >> 3 & 7), uint64(h[21] >> 2 & 1), uint64(h[21]&3) + 1, uint64(arrays)}
	for i := range got {
		if got[i] != want[i] {
			c.Failf("header field %d = %#x, want %#x", i, got[i], want[i])
		}
	}
}

func checkHEVCRecord(c *ex.C, hdr []byte, arrays []hvArray) {
	rec := hevcRecord(hdr, arrays)
	orig := append([]byte{}, rec...)
	if c.Tracing() {
		c.Logf("record %s", clip(fmt.Sprintf("% x", rec)))
	}
	var sets [3][][]byte
	for _, a := range arrays {
		if a.typ >= 32 && a.typ <= 34 {
			sets[a.typ-32] = append(sets[a.typ-32], a.nals...)
		}
	}
	c.Step()
	var r hevc.HEVCDecoderConfigurationRecord
	err := r.Unmarshal(rec)
	if len(sets[0]) == 0 || len(sets[1]) == 0 || len(sets[2]) == 0 {
		if err == nil {
			c.Failf("a record lacking a kind of parameter set was accepted")
		}
		if _, err := hevc.ExtraDataToAnnexB(rec); err == nil {
			c.Failf("a record lacking a kind of parameter set was converted")
		}
		return
	}
	if err != nil {
		c.Failf("Unmarshal of a well-formed record: %v", err)
	}
	eqHevcHeader(c, &r, hdr, len(arrays))
	eqSets(c, "Unmarshal VPS", r.VPSList, sets[0])
	eqSets(c, "Unmarshal SPS", r.SPSList, sets[1])
	eqSets(c, "Unmarshal PPS", r.PPSList, sets[2])
	c.Step()
	b, err := hevc.ExtraDataToAnnexB(rec)
	if err != nil {
		c.Failf("ExtraDataToAnnexB of a well-formed record of %d bytes: %v", len(rec), err)
	}
	want := cat(cat(with4(sets[0])...), cat(with4(sets[1])...), cat(with4(sets[2])...))
	if !bytes.Equal(b, want) {
		c.Failf("ExtraDataToAnnexB = %s, want %s", clip(fmt.Sprintf("% x", b)), clip(fmt.Sprintf("% x", want)))
	}
	if !bytes.Equal(rec, orig) {
		c.Failf("the record was modified")
	}
}

func checkHEVCMarshal(c *ex.C, in, plain [3][][]byte) {
	size := 32
	ok := true
	for _, l := range plain {
		ok = ok && len(l) > 0
		for _, n := range l {
			size += 2 + len(n)
			ok = ok && len(n) >= 2 && len(n) <= 0xffff
		}
	}
	before := fmt.Sprint(in)
	c.Step()
	var rec hevc.HEVCDecoderConfigurationRecord
	b, err := rec.Marshal(in[0], in[1], in[2])
	if fmt.Sprint(in) != before {
		c.Failf("Marshal modified its input")
	}
	if err != nil {
		if ok {
			c.Failf("Marshal of %d/%d/%d sets (%d bytes) fails: %v", len(in[0]), len(in[1]), len(in[2]), size, err)
		}
		return
	}
	for _, l := range plain {
		if len(l) == 0 {
			c.Failf("Marshal without one kind of parameter set succeeded")
		}
	}
	var back hevc.HEVCDecoderConfigurationRecord
	if err := back.Unmarshal(b); err != nil {
		c.Failf("Marshal gave an unparsable record: %v", err)
	}
	eqSets(c, "round trip, VPS", back.VPSList, plain[0])
	eqSets(c, "round trip, SPS", back.SPSList, plain[1])
	eqSets(c, "round trip, PPS", back.PPSList, plain[2])
	if back.ConfigurationVersion != 1 {
		c.Failf("round trip: version %d", back.ConfigurationVersion)
	}
	if back.LengthSizeMinusOne != 4 {
		c.Failf("round trip: length size %d", back.LengthSizeMinusOne)
	}
}

func listOf(c *ex.C, alpha [][]byte, max int, sc bool) (in, plain [][]byte) {
	for len(in) < max {
		k := c.Choose(len(alpha) + 1)
		if k == 0 {
			break
		}
		plain = append(plain, alpha[k-1])
		s := 0
		if sc {
			s = c.Choose(3)
		}
		in = append(in, addSC(alpha[k-1], s))
	}
	return
}

func init() {
	run.Register(&run.Prop{ID: "C14", Spaces: func(th bool) []*ex.Space {
		n := 3
		if th {
			n = 4
		}
		return []*ex.Space{
			{Name: "marshal", Bound: fmt.Sprintf("0..%d SPS x 0..%d PPS from 3 contents each, each with no, 3- or 4-byte start code", n, n), Run: func(c *ex.C) {
				si, sp := listOf(c, spsAlpha, n, true)
				pi, pp := listOf(c, ppsAlpha, n, true)
				checkAVCMarshal(c, si, pi, sp, pp)
			}},
			{Name: "marshal-counts", Bound: "1..34 SPS x 12 PPS counts up to 257 x 5 set sizes 4 to 2000 (records to 70 kB)", Run: func(c *ex.C) {
				ns := 1 + c.Choose(34)
				np := []int{1, 2, 3, 31, 32, 63, 64, 100, 127, 128, 254, 255, 256, 257}[c.Choose(14)]
				var s, p [][]byte
				sz := []int{4, 5, 6, 40, 2000}[c.Choose(5)]
				for i := 0; i < ns; i++ {
					n := append([]byte{0x67}, bytes.Repeat([]byte{byte(i + 1)}, sz-1)...)
					s = append(s, n)
				}
				for i := 0; i < np; i++ {
					p = append(p, []byte{0x68})
				}
				c.Logf("%d SPS of %d bytes, %d PPS", ns, sz, np)
				checkAVCMarshal(c, s, p, s, p)
			}},
			{Name: "marshal-sizes", Bound: "one SPS and one PPS with total record size 1000..1050 and set sizes 4 to 65540 around powers of two", Run: func(c *ex.C) {
				var s, p []byte
				if c.Bool() {
					a := 4 + c.Choose(60)
					t := 1000 + c.Choose(51)
					s, p = unit(0x67, a), unit(0x68, t-7-4-a)
				} else {
					z := []int{4, 254, 255, 256, 257, 511, 512, 1000, 1009, 1010, 1024, 65535, 65536, 65540}
					s, p = unit(0x67, z[c.Choose(len(z))]), unit(0x68, z[c.Choose(len(z))])
				}
				c.Logf("SPS of %d bytes, PPS of %d bytes", len(s), len(p))
				k := c.Choose(3)
				checkAVCMarshal(c, [][]byte{addSC(s, k)}, [][]byte{addSC(p, k)}, [][]byte{s}, [][]byte{p})
			}},
			{Name: "marshal-short", Bound: "every SPS/PPS over {00,01,67,68} up to 5 bytes: error or round trip, no panic", Run: func(c *ex.C) {
				s := str(c, []byte{0x67, 0, 1}, 5)
				p := str(c, []byte{0x68, 0, 1}, 5)
				c.Logf("SPS % x PPS % x", s, p)
				c.Step()
				var rec avc.AVCDecoderConfigurationRecord
				b, err := rec.Marshal([][]byte{s}, [][]byte{p})
				if err == nil {
					var back avc.AVCDecoderConfigurationRecord
					if err := back.Unmarshal(b); err != nil {
						c.Failf("Marshal(% x, % x) gave an unparsable record: %v", s, p, err)
					}
					eqSets(c, "round trip, SPS", back.SPSList, [][]byte{plainNal(s)})
					eqSets(c, "round trip, PPS", back.PPSList, [][]byte{plainNal(p)})
				}
			}},
			{Name: "parse", Bound: fmt.Sprintf("header values x length size x reserved bits x up to %d SPS and PPS x trailing bytes", n+1), Run: func(c *ex.C) {
				hdr := [][4]byte{{1, 0x42, 0xc0, 0x1e}, {1, 0x64, 0, 0x28}, {0, 0, 0, 0}, {255, 255, 255, 255}}[c.Choose(4)]
				ls, res := byte(c.Choose(4)), c.Choose(2) == 0
				_, s := listOf(c, spsAlpha, n+1, false)
				_, p := listOf(c, ppsAlpha, n+1, false)
				rec := avcRecord(hdr, ls, res, s, p)
				if len(s) == 0 || len(p) == 0 {
					c.Step()
					c.Logf("record % x", rec)
					var r avc.AVCDecoderConfigurationRecord
					if r.Unmarshal(rec) == nil {
						c.Failf("a record with %d SPS and %d PPS was accepted: % x", len(s), len(p), rec)
					}
					return
				}
				rec = append(rec, [][]byte{nil, {0xfd, 0xf8, 0xf8, 0}}[c.Choose(2)]...)
				checkAVCRecord(c, rec, hdr, ls, s, p)
			}},
			{Name: "again", Bound: "one record object reads a record of up to 2 SPS and PPS, whole or cut anywhere, then another of up to 2 SPS and 0..2 PPS", Run: func(c *ex.C) {
				_, s := listOf(c, spsAlpha[:2], 2, false)
				_, p := listOf(c, ppsAlpha[:2], 2, false)
				_, s2 := listOf(c, spsAlpha[1:], 2, false)
				_, p2 := listOf(c, ppsAlpha[1:], 2, false)
				if len(s) == 0 || len(p) == 0 || len(s2) == 0 {
					c.Skip()
				}
				rec := avcRecord([4]byte{1, 0x42, 0xc0, 0x1e}, 3, true, s, p)
				rec2 := avcRecord([4]byte{1, 0x64, 0, 0x28}, 1, true, s2, p2)
				k := c.Choose(len(rec) + 1)
				c.Logf("the first %d of %d bytes of record % x, then record % x", k, len(rec), rec, rec2)
				c.Step()
				var r avc.AVCDecoderConfigurationRecord
				_ = r.Unmarshal(rec[:k:k])
				err := r.Unmarshal(rec2)
				if len(p2) == 0 {
					if err == nil {
						c.Failf("a record without PPS was accepted")
					}
					return
				}
				if err != nil {
					c.Failf("Unmarshal of a well-formed record: %v", err)
				}
				if got := [4]byte{r.AVCProfileIndication, r.ProfileCompatibility, r.AVCLevelIndication, r.LengthSizeMinusOne}; got != [4]byte{0x64, 0, 0x28, 1} {
					c.Failf("profile, compatibility, level, length size = %v", got)
				}
				eqSets(c, "Unmarshal into a used object, SPS", r.SPSList, s2)
				eqSets(c, "Unmarshal into a used object, PPS", r.PPSList, p2)
			}},
			{Name: "truncate", Bound: fmt.Sprintf("every proper prefix of every record with up to %d SPS and PPS", n+1), Run: func(c *ex.C) {
				_, s := listOf(c, spsAlpha, n+1, false)
				_, p := listOf(c, ppsAlpha, n+1, false)
				if len(s) == 0 || len(p) == 0 {
					c.Skip()
				}
				rec := avcRecord([4]byte{1, 0x42, 0xc0, 0x1e}, 3, true, s, p)
				k := c.Choose(len(rec))
				c.Logf("record % x cut to %d bytes", rec, k)
				c.Step()
				var r avc.AVCDecoderConfigurationRecord
				if r.Unmarshal(rec[:k:k]) == nil {
					c.Failf("the first %d of %d bytes of record % x were accepted", k, len(rec), rec)
				}
				if _, err := avc.ExtraDataToAnnexB(rec[:k:k]); err == nil {
					c.Failf("the first %d of %d bytes of record % x were converted", k, len(rec), rec)
				}
				if _, _, err := avc.NewCodecDataFromAVCDecoderConfigurationRecord(rec[:k:k]); err == nil {
					c.Failf("the first %d of %d bytes of record % x were accepted", k, len(rec), rec)
				}
			}},
			{Name: "parse-counts", Bound: "1..31 SPS x 14 PPS counts up to 255 x set sizes up to 65535", Run: func(c *ex.C) {
				ns := 1 + c.Choose(31)
				np := []int{1, 2, 3, 31, 32, 63, 64, 100, 120, 127, 128, 200, 254, 255}[c.Choose(14)]
				sz := []int{4, 5, 30, 120, 255, 256, 300, 1024, 65535}[c.Choose(9)]
				if sz > 300 && ns*np > 2 || sz > 30 && ns+np > 64 {
					c.Skip()
				}
				var s, p [][]byte
				for i := 0; i < ns; i++ {
					s = append(s, unit(0x67, sz))
				}
				for i := 0; i < np; i++ {
					p = append(p, unit(0x68, 1+(sz+i)%sz))
				}
				c.Logf("%d SPS, %d PPS, size %d", ns, np, sz)
				hdr := [4]byte{1, 0x64, 0, 0x28}
				checkAVCRecord(c, avcRecord(hdr, 3, true, s, p), hdr, 3, s, p)
			}},
		}
	}, Assumptions: []string{"parameter sets are at least 4 (SPS) and 1 (PPS) bytes long, their first byte is not zero"}})

	run.Register(&run.Prop{ID: "C15", Spaces: func(th bool) []*ex.Space {
		n, m, lk := 4, 2, 4
		if th {
			n, m, lk = 4, 3, 5
		}
		base := []byte{1, 0x41, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f}
		full := []hvArray{{32, true, [][]byte{{0x40, 1, 0xc}}}, {33, true, [][]byte{{0x42, 1, 1}}}, {34, true, [][]byte{{0x44, 1}}}}
		pool := func(t byte) [][]byte {
			h := t << 1
			return [][]byte{{h, 1, t, 1}, {h, 1, t, 2, 9, 9}, {h, 1}}
		}
		arrays := func(c *ex.C, max int) []hvArray {
			var r []hvArray
			types := []byte{32, 33, 34, 39, 40, 35}
			for len(r) < max {
				k := c.Choose(len(types) + 1)
				if k == 0 {
					break
				}
				t := types[k-1]
				a := hvArray{typ: t, comp: len(r)%2 == 0}
				for j, cnt := 0, c.Choose(m+1); j < cnt; j++ {
					a.nals = append(a.nals, cat(pool(t)[(j+len(r))%3], []byte{byte(16*len(r) + j + 1)}))
				}
				r = append(r, a)
			}
			return r
		}
		return []*ex.Space{
			{Name: "arrays", Bound: fmt.Sprintf("every sequence of up to %d arrays of 6 unit types with 0..%d units each", n+1, m), Run: func(c *ex.C) {
				checkHEVCRecord(c, base, arrays(c, n+1))
			}},
			{Name: "headers", Bound: "every header byte x every value", Run: func(c *ex.C) {
				h := append([]byte{}, base...)
				h[c.Choose(22)] = byte(c.Choose(256))
				checkHEVCRecord(c, h, full)
			}},
			{Name: "again", Bound: "one record object reads a record with a full set and up to 1 more array, whole or cut anywhere, then another of up to 3 arrays", Run: func(c *ex.C) {
				rec := hevcRecord(base, append(append([]hvArray{}, full...), arrays(c, 1)...))
				second := arrays(c, 3)
				if len(second) < 2 {
					c.Skip()
				}
				if c.Bool() {
					second = append(second, full...)
				}
				h2 := append([]byte{}, base...)
				h2[21] = h2[21]&^3 | 1
				rec2 := hevcRecord(h2, second)
				k := len(rec) - c.Choose(min(len(rec), 30))
				c.Logf("the first %d of %d bytes of record % x, then record % x", k, len(rec), rec, rec2)
				c.Step()
				var r hevc.HEVCDecoderConfigurationRecord
				_ = r.Unmarshal(rec[:k:k])
				err := r.Unmarshal(rec2)
				var sets [3][][]byte
				for _, a := range second {
					if a.typ >= 32 && a.typ <= 34 {
						sets[a.typ-32] = append(sets[a.typ-32], a.nals...)
					}
				}
				if len(sets[0]) == 0 || len(sets[1]) == 0 || len(sets[2]) == 0 {
					if err == nil {
						c.Failf("a record lacking a kind of parameter set was accepted")
					}
					return
				}
				if err != nil {
					c.Failf("Unmarshal of a well-formed record: %v", err)
				}
				eqHevcHeader(c, &r, h2, len(second))
				eqSets(c, "Unmarshal into a used object, VPS", r.VPSList, sets[0])
				eqSets(c, "Unmarshal into a used object, SPS", r.SPSList, sets[1])
				eqSets(c, "Unmarshal into a used object, PPS", r.PPSList, sets[2])
			}},
			{Name: "truncate", Bound: fmt.Sprintf("every proper prefix of every record with a full set before or after up to %d more arrays", n-2), Run: func(c *ex.C) {
				more := arrays(c, n-2)
				rec := hevcRecord(base, append(append([]hvArray{}, full...), more...))
				if c.Bool() {
					rec = hevcRecord(base, append(more, full...))
				}
				k := c.Choose(len(rec))
				c.Logf("record % x cut to %d bytes", rec, k)
				c.Step()
				var r hevc.HEVCDecoderConfigurationRecord
				if r.Unmarshal(rec[:k:k]) == nil {
					c.Failf("the first %d of %d bytes of record % x were accepted", k, len(rec), rec)
				}
				if _, err := hevc.ExtraDataToAnnexB(rec[:k:k]); err == nil {
					c.Failf("the first %d of %d bytes of record % x were converted", k, len(rec), rec)
				}
			}},
			{Name: "marshal", Bound: fmt.Sprintf("0..%d sets of each kind, each with no, 3- or 4-byte start code", 2), Run: func(c *ex.C) {
				var in, pl [3][][]byte
				for i := range in {
					in[i], pl[i] = listOf(c, pool(byte(32 + i))[:2], 2, th || i == c.Choose(3))
				}
				checkHEVCMarshal(c, in, pl)
			}},
			{Name: "marshal-sizes", Bound: "record sizes 1000..1050, set sizes around 255/256/65536, up to 330 sets", Run: func(c *ex.C) {
				var pl [3][][]byte
				switch c.Choose(3) {
				case 0:
					t := 1000 + c.Choose(51)
					big := c.Choose(3)
					for i := range pl {
						l := 20
						if i == big {
							l = t - 32 - 6 - 40
						}
						pl[i] = [][]byte{unit(byte(0x40+2*i), l)}
					}
				case 1:
					z := []int{2, 255, 256, 257, 512, 900, 1024, 65535, 65536}
					for i := range pl {
						pl[i] = [][]byte{unit(byte(0x40+2*i), z[c.Choose(len(z))])}
					}
				case 2:
					big, cnt := c.Choose(3), []int{3, 15, 16, 17, 63, 64, 100, 230, 255, 256, 257, 330}[c.Choose(12)]
					for i := range pl {
						k := 1
						if i == big {
							k = cnt
						}
						for j := 0; j < k; j++ {
							pl[i] = append(pl[i], []byte{byte(0x40 + 2*i), 1})
						}
					}
				}
				c.Logf("%d/%d/%d sets", len(pl[0]), len(pl[1]), len(pl[2]))
				checkHEVCMarshal(c, pl, pl)
			}},
			{Name: "marshal-layout", MaxDev: lk, Bound: fmt.Sprintf("the header of the record of every SPS with at most %d syntax deviations, alone or in front of a second SPS", lk), Run: func(c *ex.C) {
				sps, _, _, hdr := genHEVCRec(pick{c: c})
				if hdr == nil {
					c.Skip()
				}
				in := [3][][]byte{{{0x40, 1, 0x0c, 1, 0xff}}, {sps}, {{0x44, 1, 0xc1, 0x72}}}
				if k := c.Dev(4); k > 1 {
					for i := range in {
						in[i][0] = addSC(in[i][0], k-1)
					}
				} else if k == 1 {
					in[1] = append(in[1], append(append([]byte{}, sps...), 1))
				}
				if c.Tracing() {
					c.Logf("SPS % x", in[1])
				}
				c.Step()
				var rec hevc.HEVCDecoderConfigurationRecord
				b, err := rec.Marshal(in[0], in[1], in[2])
				if err != nil {
					c.Failf("Marshal: %v", err)
				}
				if len(b) < 22 || !bytes.Equal(b[:22], hdr) {
					c.Failf("the record of SPS % x begins with % x, want % x", sps, b[:bufio.MinInt(22, len(b))], hdr)
				}
			}},
			{Name: "marshal-short", Bound: "every VPS/SPS/PPS over {00,01,hdr} up to 4 bytes: error or round trip, no panic", Run: func(c *ex.C) {
				var in [3][][]byte
				k := c.Choose(3)
				for i := range in {
					in[i] = [][]byte{{byte(0x40 + 2*i), 1, 2}}
				}
				in[k] = append(in[k][:c.Choose(2)], str(c, []byte{byte(0x40 + 2*k), 0, 1}, 5))
				c.Logf("sets % x", in)
				c.Step()
				var rec hevc.HEVCDecoderConfigurationRecord
				b, err := rec.Marshal(in[0], in[1], in[2])
				if err == nil {
					var back hevc.HEVCDecoderConfigurationRecord
					if p := plainNal(in[k][0]); len(p) > 0 && p[0] == byte(0x40+2*k) {
						if err := back.Unmarshal(b); err != nil {
							c.Failf("Marshal(% x) gave an unparsable record: %v", in, err)
						}
						for i, l := range [][][]byte{back.VPSList, back.SPSList, back.PPSList} {
							var want [][]byte
							for _, x := range in[i] {
								want = append(want, plainNal(x))
							}
							eqSets(c, "round trip", l, want)
						}
					}
				}
			}},
			{Name: "parse-counts", Bound: "many and large sets", Run: func(c *ex.C) {
				big, cnt := c.Choose(3), []int{1, 2, 16, 64, 255, 256, 257, 1000}[c.Choose(8)]
				sz := []int{2, 3, 100, 255, 256, 257, 1024, 65535}[c.Choose(8)]
				if sz > 300 && cnt > 2 {
					c.Skip()
				}
				arr := make([]hvArray, 3)
				for i := range arr {
					arr[i] = hvArray{typ: byte(32 + i)}
					k := 1
					if i == big {
						k = cnt
					}
					for j := 0; j < k; j++ {
						arr[i].nals = append(arr[i].nals, unit(byte(0x40+2*i), sz))
					}
				}
				checkHEVCRecord(c, base, arr)
			}},
		}
	}, Assumptions: []string{"parameter sets are at least 2 bytes long and their first byte is not zero", "the length field size is reported as a size in bytes (1..4), as the packet converter uses it"}})

	run.Register(&run.Prop{ID: "C18", Spaces: func(th bool) []*ex.Space {
		k := 6
		if th {
			k = 7
		}
		return []*ex.Space{c18space264(k), c18space265(k), c18records(), c18shared(), c18large()}
	}, Assumptions: []string{"sequence parameter sets are syntactically valid (reference encoder of C16/C17)"}})
}

func plainNal(b []byte) []byte {
	if bytes.HasPrefix(b, []byte{0, 0, 1}) {
		return b[3:]
	} else if bytes.HasPrefix(b, sc4) {
		return b[4:]
	}
	return b
}

type psSet struct {
	nal  []byte
	w, h int
}

// validAVC / validHEVC: a few valid SPS with different sizes, generated by the reference encoder.
var validAVC, validHEVC = mkValid()

func mkValid() (a, h []psSet) {
	sizes := [][2]uint64{{40, 30}, {80, 45}, {22, 18}}
	for _, s := range sizes {
		w := &bw{}
		w.u(8, 66)
		w.u(8, 0xc0)
		w.u(8, 30)
		w.ue(0)
		w.ue(0)
		w.ue(0)
		w.ue(2)
		w.ue(1)
		w.u(1, 0)
		w.ue(s[0] - 1)
		w.ue(s[1] - 1)
		w.u(1, 1)
		w.u(1, 1)
		w.u(1, 0)
		w.u(1, 0)
		w.trail()
		a = append(a, psSet{escape([]byte{0x67}, w.b), int(s[0]) * 16, int(s[1]) * 16})
	}
	for _, s := range [][2]uint64{{1920, 1080}, {416, 240}, {640, 360}} {
		w := &bw{}
		w.u(4, 0)
		w.u(3, 0)
		w.u(1, 1)
		w.u(8, 1)
		w.u(32, 0x60000000)
		w.u(48, 0x900000000000)
		w.u(8, 93)
		w.ue(0)
		w.ue(1)
		w.ue(s[0])
		w.ue(s[1])
		w.u(1, 0)
		w.ue(0)
		w.ue(0)
		w.ue(4)
		w.u(1, 1)
		w.ue(4)
		w.ue(2)
		w.ue(0)
		for _, v := range []uint64{0, 3, 0, 3, 1, 1} {
			w.ue(v)
		}
		w.u(1, 0)
		w.u(2, 3)
		w.u(1, 0)
		w.ue(0)
		w.u(1, 0)
		w.u(2, 3)
		w.u(1, 0)
		w.u(1, 0)
		w.trail()
		h = append(h, psSet{escape([]byte{0x42, 1}, w.b), int(s[0]), int(s[1])})
	}
	return
}

func checkStream(c *ex.C, st *avformat.AVStream, err error, id utils.AVCodecID, index int, extra []byte, w, h int) {
	if err != nil {
		c.Failf("creating the stream: %v", err)
	}
	if st.MediaType != utils.AVMediaTypeVideo || st.Index != index || st.CodecID != id || !bytes.Equal(st.Data, extra) {
		c.Failf("stream: type %v index %d codec %v data % x, want video %d %v % x", st.MediaType, st.Index, st.CodecID, st.Data, index, id, extra)
	}
	if st.CodecParameters.Width() != w || st.CodecParameters.Height() != h || !bytes.Equal(st.CodecParameters.AnnexBExtraData(), extra) {
		c.Failf("stream description: %dx%d % x, want %dx%d % x", st.CodecParameters.Width(), st.CodecParameters.Height(), st.CodecParameters.AnnexBExtraData(), w, h, extra)
	}
}

func c18space264(k int) *ex.Space {
	pps := [][]byte{{0x68, 0xce, 0x3c, 0x80}, {0x28, 0xee}}
	units := [][]byte{validAVC[0].nal, validAVC[1].nal, pps[0], pps[1], {0x65, 0x88, 0x84}, {0x06, 5, 1, 0x80}, {0x09, 0xf0}}
	return &ex.Space{Name: "h264-keyframe", Bound: fmt.Sprintf("every sequence of up to %d units (2 SPS, 2 PPS, IDR, SEI, AUD) x start code lengths", k), Run: func(c *ex.C) {
		var data []byte
		s, p := -1, -1
		scm := c.Choose(4)
		for i := 0; i < k; i++ {
			u := c.Choose(len(units) + 1)
			if u == 0 {
				break
			}
			u--
			if u < 2 {
				s = u
			} else if u < 4 {
				p = u - 2
			}
			data = append(append(data, codes[(scm>>(i%2))&1]...), units[u]...)
		}
		var sn, pn []byte
		w, h := 0, 0
		if s >= 0 {
			sn, w, h = units[s], validAVC[s].w, validAVC[s].h
		}
		if p >= 0 {
			pn = pps[p]
		}
		frame264(c, data, sn, pn, w, h)
	}}
}

// frame264 judges everything derived from a key frame whose last parameter sets are sps and pps.
func frame264(c *ex.C, data, sps, pps []byte, w, h int) {
	orig := append([]byte{}, data...)
	c.Logf("frame %s", hexShort(data))
	c.Step()
	gs, gp, err := avc.ParseExtraDataFromKeyNALU(data)
	ext, err2 := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH264, data)
	st, err3 := avformat.CreateAVCStreamFromKeyFrame(data, 3)
	if sps == nil || pps == nil {
		if err == nil || err2 == nil || err3 == nil {
			c.Failf("a frame without a full set was accepted: %s", hexShort(data))
		}
		return
	}
	if err != nil || err2 != nil || err3 != nil {
		c.Failf("extraction failed: %v %v %v", err, err2, err3)
	}
	ws, wp := cat(sc4, sps), cat(sc4, pps)
	if !bytes.Equal(gs, ws) || !bytes.Equal(gp, wp) {
		c.Failf("extracted % x | % x, want % x | % x", gs, gp, ws, wp)
	}
	extra := cat(ws, wp)
	if !bytes.Equal(ext, extra) {
		c.Failf("ExtractVideoExtraDataFromKeyFrame = % x, want % x", ext, extra)
	}
	checkStream(c, st, err3, utils.AVCodecIdH264, 3, extra, w, h)
	cd, err := avformat.NewAVCCodecData(gs, gp)
	if err != nil {
		c.Failf("NewAVCCodecData: %v", err)
	}
	for i := 0; i < 2; i++ {
		if !bytes.Equal(cd.AnnexBExtraData(), extra) {
			c.Failf("AnnexBExtraData = % x, want % x", cd.AnnexBExtraData(), extra)
		}
		var r avc.AVCDecoderConfigurationRecord
		rec := cd.MP4ExtraData()
		if err := r.Unmarshal(rec); err != nil {
			c.Failf("record view % x does not parse: %v", rec, err)
		}
		eqSets(c, "record view SPS", r.SPSList, [][]byte{sps})
		eqSets(c, "record view PPS", r.PPSList, [][]byte{pps})
		back, err := avformat.ParseAVCDecoderConfigurationRecord(rec)
		if err != nil {
			c.Failf("record view % x: %v", rec, err)
		}
		if !bytes.Equal(back.MP4ExtraData(), rec) || !bytes.Equal(back.AnnexBExtraData(), extra) || back.Width() != w || back.Height() != h {
			c.Failf("description built from the record view differs")
		}
	}
	if cd.Width() != w || cd.Height() != h {
		c.Failf("size %dx%d, want %dx%d", cd.Width(), cd.Height(), w, h)
	}
	eqSets(c, "SPS()", cd.SPS(), [][]byte{sps})
	eqSets(c, "PPS()", cd.PPS(), [][]byte{pps})
	if !bytes.Equal(data, orig) {
		c.Failf("the frame was modified")
	}
}

func c18space265(k int) *ex.Space {
	vps := []byte{0x40, 1, 0x0c, 1, 0xff}
	vps2 := []byte{0x40, 1, 0x0c, 2}
	pps := []byte{0x44, 1, 0xc1, 0x72}
	units := [][]byte{validHEVC[0].nal, validHEVC[1].nal, vps, vps2, pps, {0x26, 1, 0xaf}, {0x4e, 1, 5, 0x80}}
	return &ex.Space{Name: "h265-keyframe", Bound: fmt.Sprintf("every sequence of up to %d units (2 SPS, 2 VPS, PPS, IDR, SEI) x start code lengths", k), Run: func(c *ex.C) {
		var data []byte
		s, v, p := -1, -1, -1
		scm := c.Choose(4)
		for i := 0; i < k; i++ {
			u := c.Choose(len(units) + 1)
			if u == 0 {
				break
			}
			u--
			switch {
			case u < 2:
				s = u
			case u < 4:
				v = u
			case u == 4:
				p = u
			}
			data = append(append(data, codes[(scm>>(i%2))&1]...), units[u]...)
		}
		var vn, sn, pn []byte
		w, h := 0, 0
		if s >= 0 {
			sn, w, h = units[s], validHEVC[s].w, validHEVC[s].h
		}
		if v >= 0 {
			vn = units[v]
		}
		if p >= 0 {
			pn = units[p]
		}
		frame265(c, data, vn, sn, pn, w, h)
	}}
}

func frame265(c *ex.C, data, vps, sps, pps []byte, w, h int) {
	orig := append([]byte{}, data...)
	c.Logf("frame %s", hexShort(data))
	c.Step()
	gv, gs, gp, err := hevc.ParseExtraDataFromKeyNALU(data)
	ext, err2 := avformat.ExtractVideoExtraDataFromKeyFrame(utils.AVCodecIdH265, data)
	st, err3 := avformat.CreateHevcStreamFromKeyFrame(data, 2)
	if vps == nil || sps == nil || pps == nil {
		if err == nil || err2 == nil || err3 == nil {
			c.Failf("a frame without a full set was accepted: %s", hexShort(data))
		}
		return
	}
	if err != nil || err2 != nil || err3 != nil {
		c.Failf("extraction failed: %v %v %v", err, err2, err3)
	}
	wv, ws, wp := cat(sc4, vps), cat(sc4, sps), cat(sc4, pps)
	if !bytes.Equal(gv, wv) || !bytes.Equal(gs, ws) || !bytes.Equal(gp, wp) {
		c.Failf("extracted % x | % x | % x, want % x | % x | % x", gv, gs, gp, wv, ws, wp)
	}
	extra := cat(wv, ws, wp)
	if !bytes.Equal(ext, extra) {
		c.Failf("ExtractVideoExtraDataFromKeyFrame = % x, want % x", ext, extra)
	}
	checkStream(c, st, err3, utils.AVCodecIdH265, 2, extra, w, h)
	cd, err := avformat.NewHEVCCodecData(gv, gs, gp)
	if err != nil {
		c.Failf("NewHEVCCodecData: %v", err)
	}
	for i := 0; i < 2; i++ {
		if !bytes.Equal(cd.AnnexBExtraData(), extra) {
			c.Failf("AnnexBExtraData = % x, want % x", cd.AnnexBExtraData(), extra)
		}
		var r hevc.HEVCDecoderConfigurationRecord
		rec := cd.MP4ExtraData()
		if err := r.Unmarshal(rec); err != nil {
			c.Failf("record view % x does not parse: %v", rec, err)
		}
		eqSets(c, "record view VPS", r.VPSList, [][]byte{vps})
		eqSets(c, "record view SPS", r.SPSList, [][]byte{sps})
		eqSets(c, "record view PPS", r.PPSList, [][]byte{pps})
		back, err := avformat.ParseHEVCDecoderConfigurationRecord(rec)
		if err != nil {
			c.Failf("record view % x: %v", rec, err)
		}
		if !bytes.Equal(back.MP4ExtraData(), rec) || !bytes.Equal(back.AnnexBExtraData(), extra) || back.Width() != w || back.Height() != h {
			c.Failf("description built from the record view differs")
		}
	}
	if cd.Width() != w || cd.Height() != h {
		c.Failf("size %dx%d, want %dx%d", cd.Width(), cd.Height(), w, h)
	}
	eqSets(c, "SPS()", cd.SPS(), [][]byte{sps})
	eqSets(c, "PPS()", cd.PPS(), [][]byte{pps})
	if x, ok := cd.(interface{ VPS() [][]byte }); ok {
		eqSets(c, "VPS()", x.VPS(), [][]byte{vps})
	}
	if !bytes.Equal(data, orig) {
		c.Failf("the frame was modified")
	}
}

// c18large: large parameter sets and key frames.
func c18large() *ex.Space {
	return &ex.Space{Name: "large", Bound: "H.264 and H.265 key frames with a picture (and video) parameter set of 3..65535 bytes, 0..300 leading SEI units of up to 70000 bytes in all, 1..300 slices of up to 2^20 bytes, start code lengths", Run: func(c *ex.C) {
		hv := c.Bool()
		sz := []int{3, 4, 60, 61, 62, 63, 64, 65, 124, 125, 126, 127, 128, 129, 130, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 508, 511, 512, 513, 600, 900, 960, 1000, 1024, 2049, 65535}
		ps, vs := sz[c.Choose(len(sz))], 4
		if hv {
			vs = []int{4, 127, 128, 252, 255, 256, 257, 500, 1024, 65535}[c.Choose(10)]
		}
		lead := [][2]int{{0, 0}, {1, 3}, {1, 255}, {1, 256}, {2, 257}, {1, 70000}, {7, 64}, {9, 20}, {31, 5}, {32, 5}, {33, 5}, {255, 4}, {257, 4}, {300, 10}}[c.Choose(14)]
		body := [][2]int{{1, 3}, {1, 300}, {1, 70000}, {1, 1 << 20}, {3, 65536}, {30, 5}, {33, 5}, {257, 9}, {300, 200}}[c.Choose(9)]
		if lead[1]*lead[0] > 300 && body[0]*body[1] > 70000 || ps+vs > 960 && lead[0]*lead[1]+body[0]*body[1] > 600 {
			c.Skip()
		}
		scm := c.Choose(2)
		var data []byte
		unit := func(b []byte) {
			data = append(append(data, codes[scm^len(data)&1]...), b...)
		}
		sei, idr, pps, vps := byte(0x06), byte(0x65), longBody(0x68, ps), longBody(0x40, vs)
		if hv {
			sei, idr = 0x4e, 0x26
			pps[0], pps[1], vps[1] = 0x44, 1, 1
		}
		rep := func(h byte, n [2]int) {
			for i := 0; i < n[0]; i++ {
				u := longBody(h, n[1])
				u[1] = 1
				unit(u)
			}
		}
		early := c.Bool()
		if early {
			rep(sei, lead)
		}
		if hv {
			unit(vps)
			unit(validHEVC[1].nal)
		} else {
			unit(validAVC[1].nal)
		}
		unit(pps)
		if !early {
			rep(sei, lead)
		}
		rep(idr, body)
		if hv {
			frame265(c, data, vps, validHEVC[1].nal, pps, validHEVC[1].w, validHEVC[1].h)
		} else {
			frame264(c, data, validAVC[1].nal, pps, validAVC[1].w, validAVC[1].h)
		}
	}}
}

// c18records: descriptions built from records with several sets.
func c18records() *ex.Space {
	return &ex.Space{Name: "from-record", Bound: "records with 1..3 SPS x 1..3 PPS (and 1..2 VPS), every length size", Run: func(c *ex.C) {
		hv := c.Bool()
		ns, np := 1+c.Choose(3), 1+c.Choose(3)
		first := c.Choose(3)
		var s, p [][]byte
		ls := byte(c.Choose(4))
		v := validAVC
		if hv {
			v = validHEVC
		}
		for i := 0; i < ns; i++ {
			s = append(s, v[(first+i)%3].nal)
		}
		for i := 0; i < np; i++ {
			if hv {
				p = append(p, []byte{0x44, 1, byte(i + 1)})
			} else {
				p = append(p, []byte{0x68, byte(i + 1), 0x80})
			}
		}
		var rec, extra []byte
		var cd avformat.CodecData
		var err error
		c.Step()
		if hv {
			vps := [][]byte{{0x40, 1, 1}, {0x40, 1, 2, 3}}[:1+c.Choose(2)]
			hdr := []byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0c | ls}
			rec = hevcRecord(hdr, []hvArray{{32, true, vps}, {33, true, s}, {34, true, p}})
			extra = cat(cat(with4(vps)...), cat(with4(s)...), cat(with4(p)...))
			cd, err = avformat.ParseHEVCDecoderConfigurationRecord(rec)
		} else {
			rec = avcRecord([4]byte{1, 66, 0xc0, 30}, ls, true, s, p)
			extra = cat(cat(with4(s)...), cat(with4(p)...))
			cd, err = avformat.ParseAVCDecoderConfigurationRecord(rec)
		}
		c.Logf("record % x", rec)
		if err != nil {
			c.Failf("record % x: %v", rec, err)
		}
		for i := 0; i < 2; i++ {
			if !bytes.Equal(cd.MP4ExtraData(), rec) {
				c.Failf("MP4ExtraData = % x, want the record % x", cd.MP4ExtraData(), rec)
			}
			if !bytes.Equal(cd.AnnexBExtraData(), extra) {
				c.Failf("AnnexBExtraData = % x, want % x", cd.AnnexBExtraData(), extra)
			}
		}
		if cd.Width() != v[first].w || cd.Height() != v[first].h {
			c.Failf("size %dx%d, want %dx%d", cd.Width(), cd.Height(), v[first].w, v[first].h)
		}
		eqSets(c, "SPS()", cd.SPS(), s)
		eqSets(c, "PPS()", cd.PPS(), p)
	}}
}

// c18shared: parameter sets that lie in one buffer, in any order, with other bytes around them.
func c18shared() *ex.Space {
	return &ex.Space{Name: "shared-buffer", Bound: "H.264 and H.265 descriptions built from parameter sets lying in one buffer in every order with 0, 1 or 40 other bytes between them, from a record with spare room behind it, and from a key frame; then every sequence of 3 views, also appended to by their caller, everything checked after each, or of 4 views with nothing else looked at in between", Run: func(c *ex.C) {
		hv := c.Bool()
		v := validAVC
		sets := [][]byte{validAVC[1].nal, {0x68, 0xce, 0x3c, 0x80}}
		if hv {
			v = validHEVC
			sets = [][]byte{{0x40, 1, 0x0c, 1, 0xff}, validHEVC[1].nal, {0x44, 1, 0xc1, 0x72}}
		}
		gap := []int{0, 1, 40}[c.Choose(3)]
		src := c.Choose(3)
		fill := bytes.Repeat([]byte{0xe7}, gap)
		var buf, extra []byte
		var cd avformat.CodecData
		var err error
		for _, x := range sets {
			extra = cat(extra, sc4, x)
		}
		var orig []byte
		c.Step()
		switch src {
		case 0:
			left := []int{}
			for i := range sets {
				left = append(left, i)
			}
			at := make([][2]int, len(sets))
			for len(left) > 0 {
				k := c.Choose(len(left))
				i := left[k]
				left = append(left[:k:k], left[k+1:]...)
				buf = append(buf, fill...)
				at[i] = [2]int{len(buf), len(buf) + 4 + len(sets[i])}
				buf = append(append(buf, sc4...), sets[i]...)
			}
			buf = append(append(buf, fill...), 1, 2, 3, 4, 5, 6, 7, 8)
			orig = append(orig, buf...)
			part := func(i int) []byte { return buf[at[i][0]:at[i][1]] }
			c.Logf("sets at %v of %d bytes", at, len(buf))
			if hv {
				cd, err = avformat.NewHEVCCodecData(part(0), part(1), part(2))
			} else {
				cd, err = avformat.NewAVCCodecData(part(0), part(1))
			}
		case 1:
			var rec []byte
			if hv {
				hdr := []byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f}
				rec = hevcRecord(hdr, []hvArray{{32, true, sets[:1]}, {33, true, sets[1:2]}, {34, true, sets[2:]}})
			} else {
				rec = avcRecord([4]byte{1, 66, 0xc0, 30}, 3, true, sets[:1], sets[1:])
			}
			buf = append(append(append([]byte{}, rec...), fill...), 1, 2, 3, 4, 5, 6, 7, 8)
			orig = append(orig, buf...)
			c.Logf("record of %d bytes in %d", len(rec), len(buf))
			if hv {
				cd, err = avformat.ParseHEVCDecoderConfigurationRecord(buf[:len(rec)])
			} else {
				cd, err = avformat.ParseAVCDecoderConfigurationRecord(buf[:len(rec)])
			}
		case 2:
			for i, x := range sets {
				buf = append(append(buf, sc4...), x...)
				if gap > 0 && i == 0 {
					sei := []byte{0x06, 5}
					if hv {
						sei = []byte{0x4e, 1, 5}
					}
					buf = append(append(append(append(buf, sc4...), sei...), fill...), 0x80)
				}
			}
			buf = append(append(buf, sc4...), 0x65, 0x88, 1, 2)
			if hv {
				buf = append(append(buf[:len(buf)-4], 0x26), 1, 2, 3)
			}
			orig = append(orig, buf...)
			c.Logf("key frame of %d bytes", len(buf))
			var st *avformat.AVStream
			if hv {
				st, err = avformat.CreateHevcStreamFromKeyFrame(buf, 0)
			} else {
				st, err = avformat.CreateAVCStreamFromKeyFrame(buf, 0)
			}
			if err == nil {
				cd = st.CodecParameters
			}
		}
		if err != nil {
			c.Failf("building the description: %v", err)
		}
		var rec []byte
		check := func() {
			if !bytes.Equal(buf, orig) {
				c.Failf("the buffer holding the parameter sets was modified")
			}
			eqSets(c, "SPS()", cd.SPS(), sets[len(sets)-2:len(sets)-1])
			eqSets(c, "PPS()", cd.PPS(), sets[len(sets)-1:])
			if cd.Width() != v[1].w || cd.Height() != v[1].h {
				c.Failf("size %dx%d, want %dx%d", cd.Width(), cd.Height(), v[1].w, v[1].h)
			}
		}
		// quiet: nothing is looked at between the views, except as a view of its own
		quiet, depth, views := c.Bool(), 3, 4
		if quiet {
			depth, views = 4, 7
		} else {
			check()
		}
		for i := 0; i < depth; i++ {
			switch k := c.Choose(views); k {
			case 4:
				eqSets(c, "SPS()", cd.SPS(), sets[len(sets)-2:len(sets)-1])
			case 5:
				eqSets(c, "PPS()", cd.PPS(), sets[len(sets)-1:])
			case 6:
				if cd.Width() != v[1].w || cd.Height() != v[1].h {
					c.Failf("size %dx%d, want %dx%d", cd.Width(), cd.Height(), v[1].w, v[1].h)
				}
			case 0, 1:
				x := cd.AnnexBExtraData()
				if !bytes.Equal(x, extra) {
					c.Failf("AnnexBExtraData = % x, want % x", x, extra)
				}
				if k == 1 && src != 1 {
					_ = append(x, 0xba, 0xad, 0xba, 0xad, 0xba, 0xad)
				}
			case 2, 3:
				x := cd.MP4ExtraData()
				if rec == nil {
					rec = append([]byte{}, x...)
				} else if !bytes.Equal(rec, x) {
					c.Failf("MP4ExtraData = % x, before % x", x, rec)
				}
				if k == 3 && src != 1 {
					_ = append(x, 0xba, 0xad, 0xba, 0xad, 0xba, 0xad)
				}
			}
			if !quiet || i == depth-1 {
				check()
			}
		}
	}}
}
