package props

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

// str enumerates every string over the alphabet up to the given length.
func str(c *ex.C, alphabet []byte, max int) []byte {
	var b []byte
	for len(b) < max {
		k := c.Choose(len(alphabet) + 1)
		if k == 0 {
			break
		}
		b = append(b, alphabet[k-1])
	}
	return b
}

// sc is one start code of a byte string: it occupies [at, at+n) and is followed by a byte.
type sc struct{ at, n int }

// refStartCodes lists all start codes by the definition of Annex B: 00 00 01, with the preceding
// zero byte counted in when there is one that is not before `from`.
func refStartCodes(p []byte) []sc {
	var r []sc
	for i := 0; i+3 < len(p); i++ {
		if p[i] == 0 && p[i+1] == 0 && p[i+2] == 1 {
			if i > 0 && p[i-1] == 0 {
				r = append(r, sc{i - 1, 4})
			} else {
				r = append(r, sc{i, 3})
			}
			i += 2
		}
	}
	return r
}

func checkScan(c *ex.C, p []byte) {
	if c.Tracing() {
		c.Logf("input % x", p)
	}
	orig := append([]byte{}, p...)
	c.Step()
	scs := refStartCodes(p)
	wi, wl, ws := -1, -1, -1
	if len(scs) > 0 {
		wi, wl, ws = scs[0].at+scs[0].n, scs[0].n, scs[0].at
	}
	i, l := avc.FindStartCode(p)
	if i != wi || (wi >= 0 && l != wl) {
		c.Failf("FindStartCode(% x) = %d,%d, want %d,%d", p, i, l, wi, wl)
	}
	if s := avc.FindStartCode2(p); s != ws && !(s < 0 && ws < 0) {
		c.Failf("FindStartCode2(% x) = %d, want %d", p, s, ws)
	}
	// reader based scanner, also from a non-zero offset and repeatedly
	r := bufio.NewBytesReader(append([]byte{7, 7}, p...))
	r.Seek(2)
	off := 2
	for k := 0; ; k++ {
		rest := refStartCodes(p[off-2:])
		v := avc.FindStartCodeWithReader(r)
		if len(rest) == 0 {
			if v != -1 {
				c.Failf("FindStartCodeWithReader(% x at %d) = %d, want none", p, off-2, v)
			}
			if r.Offset() != off {
				c.Failf("FindStartCodeWithReader moved the reader without finding anything")
			}
			break
		}
		h := rest[0].at + rest[0].n
		if v != int(p[off-2+h]) {
			c.Failf("FindStartCodeWithReader(% x at %d) = %d, want %d", p, off-2, v, p[off-2+h])
		}
		off += h + 1
		if r.Offset() != off {
			c.Failf("FindStartCodeWithReader(% x) left the offset at %d, want %d", p, r.Offset()-2, off-2)
		}
	}
	// stripping
	want := p
	if bytes.HasPrefix(p, []byte{0, 0, 1}) {
		want = p[3:]
	} else if bytes.HasPrefix(p, []byte{0, 0, 0, 1}) {
		want = p[4:]
	}
	if got := avc.RemoveStartCode(p); !bytes.Equal(got, want) {
		c.Failf("RemoveStartCode(% x) = % x, want % x", p, got, want)
	}
	// splitting
	var pieces [][]byte
	avc.SplitNalU(p, func(n []byte) { pieces = append(pieces, n) })
	cat := bytes.Join(pieces, nil)
	if !bytes.Equal(cat, p) {
		c.Failf("SplitNalU(% x): pieces concatenate to % x", p, cat)
	}
	isSC := map[int]bool{}
	for _, s := range scs {
		isSC[s.at] = true
		if !(scs[0].at == 0) {
			// data with leading bytes: the three-byte form of a four-byte code is a start code too
			isSC[s.at+s.n-3] = true
		}
	}
	at := 0
	cuts := map[int]bool{}
	for k, q := range pieces {
		if k > 0 {
			if !isSC[at] {
				c.Failf("SplitNalU(% x) cuts at %d, where no start code begins", p, at)
			}
			cuts[at] = true
		}
		at += len(q)
	}
	if len(scs) > 0 && scs[0].at == 0 {
		for _, s := range scs[1:] {
			if !cuts[s.at] {
				c.Failf("SplitNalU(% x) does not cut at the start code at %d", p, s.at)
			}
		}
	}
	if !bytes.Equal(p, orig) {
		c.Failf("the input was modified")
	}
}

// refNals returns the NAL units of an Annex B stream, trailing zero bytes stripped, empty ones
// dropped; ok=false when the string is outside the format (bare start code at the end, a NAL
// unit with a zero header byte, bytes before the first start code).
func refNals(p []byte) (nals [][]byte, raw int, ok bool) {
	i := 0
	for i < len(p) && p[i] == 0 {
		i++
	}
	if i < 2 || i >= len(p) || p[i] != 1 {
		return nil, 0, false
	}
	i++
	for {
		if i >= len(p) {
			return nil, 0, false
		}
		// body up to the next 00 00 01 or the end
		j := i
		for ; j < len(p); j++ {
			if j+2 < len(p) && p[j] == 0 && p[j+1] == 0 && p[j+2] == 1 {
				break
			}
		}
		body := p[i:j]
		t := bytes.TrimRight(body, "\x00")
		if len(t) > 0 {
			if t[0] == 0 {
				return nil, 0, false
			}
			nals = append(nals, t)
		}
		raw += len(body) + 4
		if j >= len(p) {
			return nals, raw, true
		}
		i = j + 3
	}
}

// avccNals parses length-prefixed data strictly.
func avccNals(p []byte, ls int) ([][]byte, bool) {
	var r [][]byte
	for len(p) > 0 {
		if len(p) < ls {
			return r, false
		}
		n := 0
		for _, b := range p[:ls] {
			n = n<<8 | int(b)
		}
		if len(p)-ls < n {
			return r, false
		}
		r = append(r, p[ls:ls+n])
		p = p[ls+n:]
	}
	return r, true
}

func trimNals(in [][]byte) [][]byte {
	var r [][]byte
	for _, n := range in {
		if t := bytes.TrimRight(n, "\x00"); len(t) > 0 {
			r = append(r, t)
		}
	}
	return r
}

func eqNals(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func fmtNals(n [][]byte) string { return fmt.Sprintf("%x", n) }

// guardDst returns a destination of n bytes followed by a canary.
func guardDst(n int) (dst, all []byte) {
	all = bytes.Repeat([]byte{0xEE}, n+64)
	return all[:n:n], all
}

func checkGuard(c *ex.C, all []byte, used int, what string) {
	for i := used; i < len(all); i++ {
		if all[i] != 0xEE {
			c.Failf("%s reported %d bytes but wrote at offset %d", what, used, i)
		}
	}
}

func dropSEI264(in [][]byte) [][]byte {
	var r [][]byte
	for _, n := range in {
		if n[0]&0x1f != 6 {
			r = append(r, n)
		}
	}
	return r
}

func lenPrefix(nals [][]byte, ls int) []byte {
	var r []byte
	for _, n := range nals {
		var l [4]byte
		binary.BigEndian.PutUint32(l[:], uint32(len(n)))
		r = append(append(r, l[4-ls:]...), n...)
	}
	return r
}

// checkAnnexB2AVCC converts p and back.
func checkAnnexB2AVCC(c *ex.C, p []byte) {
	nals, raw, ok := refNals(p)
	if !ok {
		c.Skip()
	}
	if c.Tracing() {
		c.Logf("annexb % x", p)
	}
	orig := append([]byte{}, p...)
	dst, all := guardDst(raw)
	c.Step()
	n := avc.AnnexB2AVCC(dst, p)
	if n < 0 || n > len(dst) {
		c.Failf("AnnexB2AVCC(% x) reported %d bytes for a destination of %d", p, n, len(dst))
	}
	checkGuard(c, all, n, "AnnexB2AVCC")
	got, ok := avccNals(dst[:n], 4)
	if !ok {
		c.Failf("AnnexB2AVCC(% x) = % x is not length-prefixed data", p, dst[:n])
	}
	for _, g := range got {
		if len(g) == 0 {
			c.Failf("AnnexB2AVCC(% x) produced an empty unit: % x", p, dst[:n])
		}
	}
	if !eqNals(trimNals(got), nals) {
		c.Failf("AnnexB2AVCC(% x): units %s, want %s", p, fmtNals(got), fmtNals(nals))
	}
	if !bytes.Equal(p, orig) {
		c.Failf("AnnexB2AVCC modified its input")
	}
	checkAVCC2AnnexB(c, lenPrefix(nals, 4), nals, nil)
}

// checkAVCC2AnnexB converts well-formed length-prefixed H.264 data whose units are nals.
func checkAVCC2AnnexB(c *ex.C, avcc []byte, nals [][]byte, extra []byte) {
	if c.Tracing() {
		c.Logf("avcc % x extra % x", avcc, extra)
	}
	hasPS, idr := false, 0
	for _, n := range nals {
		switch n[0] & 0x1f {
		case 7, 8:
			hasPS = true
		case 5:
			idr++
		}
	}
	var exNals [][]byte
	if len(extra) > 0 {
		exNals, _, _ = refNals(extra)
	}
	orig := append([]byte{}, avcc...)
	judge := func(what string, out []byte, want [][]byte) {
		if len(want) == 0 {
			if len(out) != 0 {
				c.Failf("%s(% x) = % x, want nothing", what, avcc, out)
			}
			return
		}
		got, _, ok := refNals(out)
		if !ok {
			c.Failf("%s(% x) = % x is not an Annex B stream", what, avcc, out)
		}
		if len(extra) == 0 || hasPS || idr == 0 {
			// nothing to insert: a unit sequence equal to the input
			if len(extra) == 0 || idr == 0 {
				if !eqNals(got, want) {
					c.Failf("%s(% x): units %s, want %s", what, avcc, fmtNals(got), fmtNals(want))
				}
				return
			}
		}
		// with insertion the original units must remain in order, what is added is the extra
		g := got
		ins := 0
		for i := 0; i < len(want); {
			if len(g) >= len(exNals) && eqNals(g[:len(exNals)], exNals) && !(len(g) > 0 && bytes.Equal(g[0], want[i])) {
				if want[i][0]&0x1f != 5 {
					c.Failf("%s(% x) inserts parameter sets before a unit of type %d: %s", what, avcc, want[i][0]&0x1f, fmtNals(got))
				}
				g = g[len(exNals):]
				ins++
				continue
			}
			if len(g) == 0 || !bytes.Equal(g[0], want[i]) {
				c.Failf("%s(% x): units %s, want %s (plus parameter sets %s)", what, avcc, fmtNals(got), fmtNals(want), fmtNals(exNals))
			}
			g = g[1:]
			i++
		}
		if len(g) != 0 {
			c.Failf("%s(% x): extra units at the end: %s", what, avcc, fmtNals(got))
		}
		if !hasPS && ins == 0 {
			c.Failf("%s(% x): parameter sets were not inserted before the key unit: %s", what, avcc, fmtNals(got))
		}
	}
	size := len(extra) * (idr + 1)
	for _, n := range nals {
		size += len(n) + 4
	}
	dst, all := guardDst(size)
	c.Step()
	n := avc.AVCC2AnnexB(dst, avcc, extra)
	if n < 0 || n > len(dst) {
		c.Failf("AVCC2AnnexB(% x) reported %d bytes for a destination of %d", avcc, n, len(dst))
	}
	checkGuard(c, all, n, "AVCC2AnnexB")
	out := dst[:n]
	// SEI units may be dropped by the in-place converter
	want := nals
	if g, _, ok := refNals(out); !ok || len(trimSEI(g)) == len(g) {
		want = dropSEI264(nals)
	}
	judge("AVCC2AnnexB", out, want)

	dst2, all2 := guardDst(size)
	w := bufio.NewBytesWriter(dst2)
	c.Step()
	avc.Mp4ToAnnexB(w, avcc, extra)
	checkGuard(c, all2, w.Offset(), "Mp4ToAnnexB")
	judge("Mp4ToAnnexB", w.WrittenBytes(), nals)
	if !bytes.Equal(avcc, orig) {
		c.Failf("the input was modified")
	}
}

func trimSEI(in [][]byte) [][]byte { return dropSEI264(in) }

var nalAlphabet = [][]byte{
	{0x67, 0x42, 0x00, 0x0a, 0x80}, // SPS
	{0x68, 0xce},                   // PPS
	{0x65, 0x88, 0x00, 0x00, 0x03}, // IDR slice with an emulation-prevention byte
	{0x41, 0x9a},                   // slice
	{0x01, 0x9b},                   // non-reference slice: header byte equals 1
	{0x01},                         // the shortest unit
	{0x06, 0x05, 0x80},             // SEI
	{0x09, 0xf0},                   // AUD
	{0x65, 0x00, 0x80},             // IDR slice
	{0x1f, 0xff, 0x01},
}

var codes = [][]byte{{0, 0, 1}, {0, 0, 0, 1}, {0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 1}}

func nalSeq(c *ex.C, alpha [][]byte, max int) [][]byte {
	var r [][]byte
	for len(r) < max {
		k := c.Choose(len(alpha) + 1)
		if k == 0 {
			break
		}
		r = append(r, alpha[k-1])
	}
	return r
}

// longUnits: sizes and counts beyond thresholds.
func longBody(h byte, n int) []byte {
	b := make([]byte, n)
	b[0] = h
	for i := 1; i < n; i++ {
		b[i] = byte(i*7)%253 + 2
	}
	return b
}

func init() {
	run.Register(&run.Prop{ID: "C11", Spaces: func(th bool) []*ex.Space {
		l3, l4, lt := 14, 10, 8
		if th {
			l3, l4, lt = 17, 12, 10
		}
		return []*ex.Space{
			{Name: "strings-012", Bound: fmt.Sprintf("every string over {00,01,02} up to %d bytes", l3), Run: func(c *ex.C) {
				checkScan(c, str(c, []byte{0, 1, 2}, l3))
			}},
			{Name: "strings-header", Bound: fmt.Sprintf("every string over {00,01,03,67,ff} up to %d bytes", l4), Run: func(c *ex.C) {
				checkScan(c, str(c, []byte{0, 1, 3, 0x67, 0xff}, l4))
			}},
			{Name: "strings-offset", Bound: fmt.Sprintf("filler of 0..70 bytes (4 kinds), then every string over {00,01,02} up to %d bytes", lt), Run: func(c *ex.C) {
				k := c.Choose(71)
				f := [][]byte{{0x55}, {0}, {1}, {0, 0, 1, 0x65}}[c.Choose(4)]
				p := bytes.Repeat(f, k)[:k]
				checkScan(c, append(append([]byte{}, p...), str(c, []byte{0, 1, 2}, lt)...))
			}},
			{Name: "far", Bound: "filler of n-4..n+4 bytes for 12 sizes n from 128 to 2^20 (3 kinds), then every string over {00,01,02} up to 6 bytes (4 bytes beyond 8192) and 2 kinds of tail", Run: func(c *ex.C) {
				n := []int{128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20}[c.Choose(12)]
				k := n - 4 + c.Choose(9)
				f, l := c.Choose(3), 6
				if n > 8192 {
					l = 4
				}
				if n > 65536 && (f > 0 || k%4 > 1) {
					c.Skip()
				}
				p := bytes.Repeat([][]byte{{0x55}, {0}, {0, 2}}[f], k)[:k]
				p = append(p, str(c, []byte{0, 1, 2}, l)...)
				if c.Bool() {
					p = append(p, 0x65, 0, 0, 1, 0x41)
				}
				checkScan(c, p)
			}},
			{Name: "many-units", Bound: "1..300 units of 1..3 bytes, start code lengths 3/4", Run: func(c *ex.C) {
				n, l, m := 1+c.Choose(300), 1+c.Choose(3), c.Choose(3)
				var p []byte
				for i := 0; i < n; i++ {
					if m == 0 || m == 2 && i%2 == 0 {
						p = append(p, 0)
					}
					p = append(append(p, 0, 0, 1), bytes.Repeat([]byte{0x41}, l)...)
				}
				checkScan(c, p)
			}},
		}
	}, Assumptions: []string{"a start code without a following byte is not a unit boundary (stated in the property)", "for data that does not begin with a start code only contiguity and the soundness of each cut are judged"}})

	run.Register(&run.Prop{ID: "C12", Spaces: func(th bool) []*ex.Space {
		l, k, kx := 11, 4, 4
		if th {
			l, k, kx = 14, 5, 5
		}
		hv := [][]byte{{0x40, 1, 0x0c}, {0x42, 1}, {0x44, 1, 0xc0}, {0x26, 1, 0xaf, 0, 0, 3}, {0x28, 1, 9}, {0x02, 1}, {0x4e, 1, 5}, {0x2a, 1}, {0x30, 1}, {0x1e, 1, 0x80}, {0x20, 1}}
		return []*ex.Space{
			{Name: "annexb-strings", Bound: fmt.Sprintf("every string over {00,01,65} up to %d bytes after a start code", l), Run: func(c *ex.C) {
				p := append([]byte{0, 0, 1}, str(c, []byte{0, 1, 0x65}, l)...)
				checkAnnexB2AVCC(c, p)
			}},
			{Name: "annexb-units", Bound: fmt.Sprintf("up to %d units of %d kinds (or empty), each with 4 kinds of start code, optional trailing zeros", k, len(nalAlphabet)), Run: func(c *ex.C) {
				var p []byte
				for i := 0; i < k; i++ {
					x := c.Choose(len(nalAlphabet) + 2)
					if x == 0 {
						break
					}
					p = append(p, codes[c.Choose(len(codes))]...)
					if x > 1 {
						p = append(p, nalAlphabet[x-2]...)
					}
				}
				if len(p) == 0 {
					c.Skip()
				}
				p = append(p, make([]byte, c.Choose(2))...)
				checkAnnexB2AVCC(c, p)
			}},
			{Name: "avcc-units", Bound: fmt.Sprintf("up to %d units, with and without parameter sets to insert", kx+1), Run: func(c *ex.C) {
				ex := [][]byte{nil, append(append([]byte{0, 0, 0, 1}, 0x67, 0x4d, 0x11), 0, 0, 0, 1, 0x68, 0xaa)}[c.Choose(2)]
				nals := nalSeq(c, nalAlphabet, kx+1)
				checkAVCC2AnnexB(c, lenPrefix(nals, 4), nals, ex)
			}},
			{Name: "avcc-malformed", Bound: "up to 3 units, then a malformed length field, over all length corruptions", Run: func(c *ex.C) {
				nals := nalSeq(c, nalAlphabet[:7], 3)
				data := lenPrefix(nals, 4)
				tails := [][]byte{{0}, {0, 0}, {0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 2, 0x65}, {0xff, 0xff, 0xff, 0xff, 0x65}, {0x80, 0, 0, 0, 0x41, 1}, {0, 0, 0, 0, 0x65}, {0, 0, 1, 0, 0x65}, {0, 0, 0, 1}, {0x7f, 0xff, 0xff, 0xff, 0x65}, {0, 0, 0, 0, 0, 0, 0, 1, 0x65}}
				data = append(data, tails[c.Choose(len(tails))]...)
				c.Logf("avcc % x", data)
				dst, all := guardDst(len(data) + 64)
				c.Step()
				n := avc.AVCC2AnnexB(dst, data, nil)
				checkGuard(c, all, n, "AVCC2AnnexB")
				w := bufio.NewBytesWriter(make([]byte, len(data)+64))
				avc.Mp4ToAnnexB(w, data, nil)
				for i, out := range [][]byte{dst[:n], w.WrittenBytes()} {
					got, _, ok := refNals(out)
					want := nals
					if i == 0 && len(trimSEI(got)) == len(got) {
						want = dropSEI264(nals)
					}
					if len(out) > 0 && !ok || !eqNals(got, want) {
						c.Failf("malformed data % x gave units %s, the well-formed ones are %s", data, fmtNals(got), fmtNals(want))
					}
				}
			}},
			{Name: "hevc-units", Bound: fmt.Sprintf("up to %d units, length size 1..4, with and without parameter sets to insert", kx), Run: func(c *ex.C) {
				ls := 1 + c.Choose(4)
				ps := [][]byte{{0x40, 1, 1}, {0x42, 1, 2}, {0x44, 1, 3}}
				var extra []byte
				if c.Bool() {
					for _, n := range ps {
						extra = append(append(extra, 0, 0, 0, 1), n...)
					}
				}
				nals := nalSeq(c, hv, kx)
				checkHevcMp4(c, nals, ls, extra, ps)
			}},
			{Name: "hevc-malformed", Bound: "up to 2 units, length size 1..4, then every truncation or oversized length", Run: func(c *ex.C) {
				ls := 1 + c.Choose(4)
				nals := nalSeq(c, hv[:6], 2)
				good := lenPrefix(nals, ls)
				last := lenPrefix([][]byte{{0x26, 1, 7, 8}}, ls)
				cut := c.Choose(len(last)) // proper prefix
				data := append(append([]byte{}, good...), last[:cut]...)
				if m := c.Choose(3); m == 1 && cut >= ls {
					data = append(append([]byte{}, good...), bytes.Repeat([]byte{0xff}, ls)...)
					data = append(data, 0x26, 1)
				} else if m == 2 && cut >= ls {
					data = append(append([]byte{}, good...), make([]byte, ls)...) // zero length
				} else if m != 0 {
					c.Skip()
				}
				c.Logf("data % x length size %d", data, ls)
				dst, all := guardDst(len(data)*5 + 16)
				c.Step()
				n, err := hevc.Mp4ToAnnexB(dst, data, nil, ls)
				if cut == 0 {
					if err != nil || n < 0 {
						c.Failf("well-formed data % x rejected: %v", data, err)
					}
				}
				if err == nil {
					checkGuard(c, all, n, "hevc.Mp4ToAnnexB")
					got, _, ok := refNals(dst[:n])
					if n > 0 && !ok || !eqNals(got, nals) {
						c.Failf("malformed data % x gave units %s, the well-formed ones are %s", data, fmtNals(got), fmtNals(nals))
					}
				}
			}},
			{Name: "sizes", Bound: "unit sizes around powers of two up to 70000, 1..300 units; 1..2 units around 1, 2 and 16 MiB", Run: func(c *ex.C) {
				sz := []int{1, 2, 3, 4, 127, 128, 255, 256, 257, 65534, 65535, 65536, 65537, 70000, 1<<20 - 1, 1<<20 + 2, 1<<21 + 5, 1<<24 + 3}[c.Choose(18)]
				cnt := []int{1, 2, 3, 85, 86, 255, 256, 257, 300}[c.Choose(9)]
				if sz > 1000 && cnt > 3 || sz > 1<<20-2 && cnt > 2 || sz > 1<<24 && cnt > 1 {
					c.Skip()
				}
				var nals [][]byte
				var p []byte
				m := c.Choose(2)
				for i := 0; i < cnt; i++ {
					n := longBody([]byte{0x65, 0x41, 0x01}[i%3], sz)
					nals = append(nals, n)
					p = append(append(p, codes[m]...), n...)
				}
				c.Logf("%d units of %d bytes", cnt, sz)
				checkAnnexB2AVCC(c, p)
				for ls := 2; ls <= 4; ls++ {
					if sz >= 1<<(8*ls) || sz < 2 {
						continue
					}
					hn := make([][]byte, len(nals))
					for i := range nals {
						hn[i] = append([]byte{[]byte{0x26, 0x02}[i%2], 1}, nals[i][2:]...)
					}
					checkHevcMp4(c, hn, ls, nil, nil)
				}
			}},
		}
	}, Assumptions: []string{"trailing zero bytes of a NAL unit in Annex B are padding (the standard forbids them inside a unit) and are ignored when comparing", "a NAL unit's header byte is not zero", "the destination holds the whole output"}})

	run.Register(&run.Prop{ID: "C19", Spaces: func(th bool) []*ex.Space {
		k := 3
		if th {
			k = 4
		}
		pre4 := []byte{0x67, 0x68, 0x06, 0x09, 0x27, 0x46}
		pre5 := []byte{0x40, 0x42, 0x44, 0x46, 0x4e, 0x50, 0xc1}
		build := func(c *ex.C, pre []byte, tail func(c *ex.C, h byte) []byte) ([]byte, byte, int) {
			var p []byte
			lead := c.Choose(2)
			p = append(p, make([]byte, lead*2)...)
			n := 0
			for ; n < k; n++ {
				x := c.Choose(len(pre) + 1)
				if x == 0 {
					break
				}
				p = append(p, codes[c.Choose(2)]...)
				p = append(p, tail(c, pre[x-1])...)
			}
			h := byte(c.Choose(256))
			p = append(append(append(p, codes[c.Choose(2)]...), tail(c, h)...), 0, 0, 1, 0x65, 0x26)
			return p, h, n
		}
		return []*ex.Space{
			{Name: "h264", Bound: fmt.Sprintf("up to %d leading SEI/AUD/parameter-set units, then every header byte", k), Run: func(c *ex.C) {
				p, h, _ := build(c, pre4, func(c *ex.C, h byte) []byte { return []byte{h, 0x80} })
				t := h & 0x1f
				if t >= 6 && t <= 9 {
					// the unit appended behind decides: 0x65 is an IDR slice
					t = 5
				}
				c.Step()
				c.Logf("% x", p)
				want := t == 5
				if got := avformat.IsKeyFrame(utils.AVCodecIdH264, p); got != want {
					c.Failf("H.264 % x: key frame %v, want %v", p, got, want)
				}
				if got := avc.IsKeyFrame(p); got != want {
					c.Failf("H.264 % x: key frame %v, want %v", p, got, want)
				}
			}},
			{Name: "h265", Bound: fmt.Sprintf("up to %d leading parameter-set/SEI/delimiter units, then every header byte", k), Run: func(c *ex.C) {
				p, h, _ := build(c, pre5, func(c *ex.C, h byte) []byte { return []byte{h, 1, 0x80} })
				p[len(p)-2], p[len(p)-1] = 0x26, 0x01 // IDR behind
				t := h >> 1 & 0x3f
				want := t >= 16 && t <= 23
				if t >= 32 && t <= 35 || t == 39 || t == 40 {
					want = true
				}
				c.Step()
				c.Logf("% x", p)
				if got := avformat.IsKeyFrame(utils.AVCodecIdH265, p); got != want {
					c.Failf("H.265 % x: key frame %v, want %v", p, got, want)
				}
				if got := hevc.IsKeyFrame(p); got != want {
					c.Failf("H.265 % x: key frame %v, want %v", p, got, want)
				}
			}},
			{Name: "only-leading", Bound: "nothing but parameter sets, SEI and delimiters: not a key frame", Run: func(c *ex.C) {
				hv := c.Bool()
				pre := pre4
				if hv {
					pre = pre5
				}
				var p []byte
				for i := 0; i < 5; i++ {
					x := c.Choose(len(pre) + 1)
					if x == 0 {
						break
					}
					p = append(append(append(p, codes[c.Choose(2)]...), pre[x-1]), 1, 0x80)
				}
				c.Step()
				id := utils.AVCodecIdH264
				if hv {
					id = utils.AVCodecIdH265
				}
				if avformat.IsKeyFrame(id, p) {
					c.Failf("% x is reported as a key frame of %v", p, id)
				}
			}},
			{Name: "long-lead", Bound: "1..200 leading units of 1..2 kinds and 1..70000 bytes, then every kind of deciding unit, or none", Run: func(c *ex.C) {
				hv := c.Bool()
				pre, id := pre4, utils.AVCodecIdH264
				hs := []byte{0x65, 0x41, 0x25, 0x01}
				if hv {
					pre, id = pre5, utils.AVCodecIdH265
					hs = []byte{0x26, 0x02, 0x2a, 0x12}
				}
				x := pre[c.Choose(len(pre))]
				y := pre[c.Choose(len(pre))]
				n := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200}[c.Choose(20)]
				sz := []int{3, 60, 61, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536, 70000}[c.Choose(21)]
				if n*sz > 70000 || n > 3 && sz > 64 && sz != 255 {
					c.Skip()
				}
				k := c.Choose(len(hs) + 1)
				var p []byte
				for i := 0; i < n; i++ {
					h := x
					if i%2 == 1 {
						h = y
					}
					p = append(p, codes[i%2]...)
					u := longBody(h, sz)
					u[1] = 1
					p = append(p, u...)
				}
				want := false
				if k > 0 {
					p = append(append(p, codes[1]...), hs[k-1], 1, 0x80)
					want = k == 1 || k == 3 // 0x65 and 0x25, 0x26 and 0x2a
				}
				c.Step()
				if c.Tracing() {
					c.Logf("%d units of %d bytes, headers %02x %02x, deciding unit %d", n, sz, x, y, k)
				}
				if got := avformat.IsKeyFrame(id, p); got != want {
					c.Failf("%v: %d leading units of %d bytes (%02x, %02x) and deciding unit %d: key frame %v, want %v", id, n, sz, x, y, k, got, want)
				}
				if hv {
					if got := hevc.IsKeyFrame(p); got != want {
						c.Failf("hevc.IsKeyFrame with %d leading units of %d bytes (%02x, %02x), deciding unit %d: %v, want %v", n, sz, x, y, k, got, want)
					}
				} else if got := avc.IsKeyFrame(p); got != want {
					c.Failf("avc.IsKeyFrame with %d leading units of %d bytes (%02x, %02x), deciding unit %d: %v, want %v", n, sz, x, y, k, got, want)
				}
			}},
			{Name: "no-start-code", Bound: "every string over {00,01,65,26} up to 7 bytes without a start code; every codec id", Run: func(c *ex.C) {
				p := str(c, []byte{0, 1, 0x65, 0x26}, 7)
				c.Step()
				if len(refStartCodes(p)) == 0 {
					if avc.IsKeyFrame(p) || hevc.IsKeyFrame(p) {
						c.Failf("% x has no start code and is reported as a key frame", p)
					}
				}
				for _, id := range []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdMPEG4, utils.AVCodecIdVP8, utils.AVCodecIdNONE, utils.AVCodecIdVVC, utils.AVCodecIdAV1, utils.AVCodecIdVP9} {
					if avformat.IsKeyFrame(id, p) {
						c.Failf("codec %v: % x is reported as a key frame", id, p)
					}
				}
			}},
		}
	}, Assumptions: []string{"NAL units are not empty"}})
}

func checkHevcMp4(c *ex.C, nals [][]byte, ls int, extra []byte, ps [][]byte) {
	data := lenPrefix(nals, ls)
	if c.Tracing() && len(data) < 100 {
		c.Logf("length size %d data % x extra % x", ls, data, extra)
	}
	orig := append([]byte{}, data...)
	var want [][]byte
	size, done := 0, false
	for _, n := range nals {
		t := n[0] >> 1 & 0x3f
		if t >= 16 && t <= 23 && !done {
			done = true
			if len(extra) > 0 {
				want = append(want, ps...)
				size += len(extra)
			}
		}
		want = append(want, n)
		size += len(n) + 4
	}
	dst, all := guardDst(size)
	c.Step()
	n, err := hevc.Mp4ToAnnexB(dst, data, extra, ls)
	if err != nil {
		c.Failf("hevc.Mp4ToAnnexB(% x, length size %d): %v", data, ls, err)
	}
	if n < 0 || n > len(dst) {
		c.Failf("hevc.Mp4ToAnnexB reported %d bytes for a destination of %d", n, len(dst))
	}
	checkGuard(c, all, n, "hevc.Mp4ToAnnexB")
	if len(want) == 0 {
		if n != 0 {
			c.Failf("empty data gave %d bytes", n)
		}
		return
	}
	got, _, ok := refNals(dst[:n])
	if !ok || !eqNals(got, trimNals(want)) {
		c.Failf("hevc.Mp4ToAnnexB(length size %d): units %s, want %s", ls, clip(fmtNals(got)), clip(fmtNals(want)))
	}
	if !bytes.Equal(data, orig) {
		c.Failf("the input was modified")
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}
