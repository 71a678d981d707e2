package props

import (
	"fmt"

	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"

	"verifmc/ex"
	"verifmc/run"
)

// bw writes RBSP bits (independent of the code under test).
type bw struct {
	b []byte
	n int
}

func (w *bw) bit(v uint64) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
	}
	if v&1 != 0 {
		w.b[w.n/8] |= 0x80 >> (w.n % 8)
	}
	w.n++
}
func (w *bw) u(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		w.bit(v >> uint(i))
	}
}
func (w *bw) ue(v uint64) {
	v++
	k := 0
	for v>>uint(k+1) != 0 {
		k++
	}
	w.u(k, 0)
	w.u(k+1, v)
}
func (w *bw) se(v int64) {
	if v > 0 {
		w.ue(uint64(2*v - 1))
	} else {
		w.ue(uint64(-2 * v))
	}
}
func (w *bw) trail() {
	w.bit(1)
	for w.n%8 != 0 {
		w.bit(0)
	}
}

// escape inserts emulation-prevention bytes; hdr bytes are copied verbatim in front.
func escape(hdr, rbsp []byte) []byte {
	out := append([]byte{}, hdr...)
	z := 0
	for _, x := range rbsp {
		if z == 2 && x <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// availBits is the number of RBSP bits a decoder can see in the first k bytes of nal.
func availBits(nal []byte, hdr, k int) int {
	n, z := 0, 0
	for i := hdr; i < k; i++ {
		if z >= 2 && nal[i] == 3 {
			z = 0
			continue
		}
		n += 8
		if nal[i] == 0 {
			z++
		} else {
			z = 0
		}
	}
	return n
}

type pick struct {
	c    *ex.C
	wide *int // nil, or 0 until one field has been given a value of its whole range
}

func (p pick) dev(n int) int { return p.c.Dev(n) }

// r is u for a field of range 0..max (or 1..max, if 0 is not allowed): in wide mode, one such
// field of the set takes every value of its range (near powers of two, if that is long).
func (p pick) r(min, max uint64, vals ...uint64) uint64 {
	if p.wide != nil && *p.wide == 0 && p.c.Bool() {
		*p.wide = 1
		n := max - min + 1
		if n <= 300 {
			return min + uint64(p.c.Choose(int(n)))
		}
		var l []uint64
		for v := min; v < min+40; v++ {
			l = append(l, v)
		}
		for k := uint(5); k < 40; k++ {
			for _, v := range []uint64{1<<k - 2, 1<<k - 1, 1 << k, 1<<k + 1, 1<<k + 1<<(k-1)} {
				if v >= min+40 && v <= max {
					l = append(l, v)
				}
			}
		}
		l = append(l, max)
		return l[p.c.Choose(len(l))]
	}
	return p.u(vals...)
}

// ri is i for a signed field of magnitude up to max.
func (p pick) ri(max uint64, vals ...int64) int64 {
	if p.wide != nil && *p.wide == 0 && p.c.Bool() {
		neg := p.c.Bool()
		v := int64(p.r(0, max, 0))
		*p.wide = 1
		if neg {
			v = -v
		}
		return v
	}
	return p.i(vals...)
}
func (p pick) u(vals ...uint64) uint64 {
	return vals[p.c.Dev(len(vals))]
}
func (p pick) i(vals ...int64) int64 { return vals[p.c.Dev(len(vals))] }

type avcWant struct {
	profile, cs, level, id uint
	w, h, fps              int
}

// genAVC builds one syntactically valid H.264 SPS; every choice other than the first is a deviation.
func genAVC(p pick) (nal []byte, need int, want avcWant) {
	w := &bw{}
	profile := p.u(66, 77, 100, 110, 122, 244, 44, 83, 86, 118, 88, 128, 138, 139, 134, 135)
	cs := p.u(0, 0xC0, 0xFC, 0x40)
	level := p.r(0, 255, 30, 31, 52, 0, 255)
	id := p.r(0, 31, 0, 1, 5, 31)
	w.u(8, profile)
	w.u(8, cs)
	w.u(8, level)
	w.ue(id)
	chroma, sep := uint64(1), uint64(0)
	switch profile {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135:
		chroma = p.u(1, 0, 2, 3)
		w.ue(chroma)
		if chroma == 3 {
			sep = p.u(0, 1)
			w.u(1, sep)
		}
		w.ue(p.r(0, 6, 0, 2, 6))
		w.ue(p.r(0, 6, 0, 2, 6))
		w.u(1, p.u(0, 1))
		mode := p.dev(6) // scaling lists
		if mode == 0 {
			w.u(1, 0)
		} else {
			w.u(1, 1)
			n := 8
			if chroma == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				present := mode >= 2
				if mode == 5 {
					present = i%2 == 1
				}
				if !present {
					w.u(1, 0)
					continue
				}
				w.u(1, 1)
				size := 16
				if i >= 6 {
					size = 64
				}
				last, next := int64(8), int64(8)
				for j := 0; j < size; j++ {
					if next != 0 {
						var d int64
						switch mode {
						case 2: // flat
							d = 0
						case 3: // default matrix: next becomes 0 at once
							d = -last
						case 4, 5: // wandering, ending early in some lists
							d = []int64{1, -3, 127, -128, 5}[j%5]
							if i%3 == 2 && j == 7 {
								d = -last
							}
						}
						w.se(d)
						next = ((last+d+256)%256 + 256) % 256
					}
					if next != 0 {
						last = next
					}
				}
			}
		}
	}
	w.ue(p.r(0, 12, 0, 4, 12))
	switch poc := p.u(0, 1, 2); poc {
	case 0:
		w.ue(0)
		w.ue(p.r(0, 12, 2, 0, 12))
	case 1:
		w.ue(1)
		w.u(1, p.u(0, 1))
		w.se(p.ri(2147483647, 0, 1, -1, 2147483647, -2147483647))
		w.se(p.ri(2147483647, 0, -2, 3, -2147483647))
		k := p.r(0, 255, 0, 1, 2, 3, 255)
		w.ue(k)
		for j := uint64(0); j < k; j++ {
			w.se([]int64{0, -1, 1, 77, -32768}[j%5])
		}
	default:
		w.ue(poc)
	}
	w.ue(p.r(0, 16, 1, 0, 16))
	w.u(1, p.u(0, 1))
	mbw, mbh := p.r(1, 1056, 40, 1, 120, 17, 1055), p.r(1, 1056, 30, 1, 68, 23, 1055)
	w.ue(mbw - 1)
	w.ue(mbh - 1)
	fmo := p.u(1, 0)
	w.u(1, fmo)
	if fmo == 0 {
		w.u(1, p.u(0, 1))
	}
	w.u(1, p.u(1, 0))
	var crop [4]uint64
	if cm := p.dev(4); cm == 0 {
		w.u(1, 0)
	} else {
		w.u(1, 1)
		if cm == 1 {
			crop = [4]uint64{0, 0, 0, 2}
		} else if cm == 2 {
			crop = [4]uint64{1, 2, 3, 1}
		}
		for i := range crop {
			if cm == 3 {
				crop[i] = p.r(0, 250, 0, 1)
			}
			w.ue(crop[i])
		}
	}
	ux, uy := uint64(1), 2-fmo
	if sep == 0 {
		switch chroma {
		case 1:
			ux, uy = 2, 2*(2-fmo)
		case 2:
			ux = 2
		}
	}
	want = avcWant{profile: uint(profile), cs: uint(cs >> 2), level: uint(level), id: uint(id)}
	want.w = int(mbw*16) - int(ux*(crop[0]+crop[1]))
	want.h = int((2-fmo)*mbh*16) - int(uy*(crop[2]+crop[3]))
	if vui := p.u(0, 1); vui == 0 {
		w.u(1, 0)
		need = w.n
	} else {
		w.u(1, 1)
		switch p.dev(3) { // aspect ratio
		case 0:
			w.u(1, 0)
		case 1:
			w.u(1, 1)
			w.u(8, p.r(0, 254, 1))
		case 2:
			w.u(1, 1)
			w.u(8, 255)
			w.u(16, p.r(0, 65535, 4))
			w.u(16, p.r(0, 65535, 0))
		}
		if p.dev(2) == 0 {
			w.u(1, 0)
		} else {
			w.u(2, 3)
		}
		switch p.dev(3) { // video signal type
		case 0:
			w.u(1, 0)
		case 1:
			w.u(1, 1)
			w.u(3, p.r(0, 7, 5))
			w.u(1, 1)
			w.u(1, 0)
		case 2:
			w.u(1, 1)
			w.u(3, 0)
			w.u(1, 0)
			w.u(1, 1)
			w.u(8, p.r(0, 255, 1))
			w.u(8, p.r(0, 255, 1))
			w.u(8, p.r(0, 255, 1))
		}
		switch p.dev(3) { // chroma location
		case 0:
			w.u(1, 0)
		case 1:
			w.u(1, 1)
			w.ue(p.r(0, 5, 0))
			w.ue(p.r(0, 5, 1))
		case 2:
			w.u(1, 1)
			w.ue(5)
			w.ue(4)
		}
		if tm := p.dev(8); tm == 0 {
			w.u(1, 0)
			need = w.n
		} else {
			t := [][2]uint64{{1, 50}, {1001, 60000}, {1, 2}, {1000, 24000}, {4294967295, 4294967295}, {3, 4294967290}, {1001, 48000}}[tm-1]
			t[0], t[1] = p.r(1, 4294967295, t[0]), p.r(1, 4294967295, t[1])
			w.u(1, 1)
			w.u(32, t[0])
			w.u(32, t[1])
			need = w.n
			want.fps = int(t[1] / (2 * t[0]))
			w.u(1, p.u(0, 1))
		}
		w.u(1, 0) // nal hrd
		w.u(1, 0) // vcl hrd
		w.u(1, 0) // pic struct
		if p.dev(2) == 0 {
			w.u(1, 0)
		} else {
			w.u(1, 1)
			w.u(1, 1)
			w.ue(2)
			w.ue(1)
			w.ue(10)
			w.ue(10)
			w.ue(0)
			w.ue(4)
		}
	}
	w.trail()
	return escape([]byte{byte(p.u(0x67, 0x27, 0x47))}, w.b), need, want
}

type hevcWant struct {
	pw, ph uint
	w, h   int
}

func genHEVC(p pick) (nal []byte, need int, want hevcWant) {
	nal, need, want, _ = genHEVCRec(p)
	return
}

// genHEVCRec also returns what a decoder configuration record says of the set
// in front of its arrays, nothing if a bit depth does not fit in there.
func genHEVCRec(p pick) (nal []byte, need int, want hevcWant, hdr []byte) {
	w := &bw{}
	w.u(4, p.u(0, 15))
	sub := p.u(0, 1, 2, 3, 6)
	w.u(3, sub)
	nested := p.u(1, 0)
	w.u(1, nested)
	w.u(2, p.u(0, 3))
	w.u(1, p.u(0, 1))
	w.u(5, p.r(0, 31, 1, 2, 4, 31))
	w.u(32, p.r(0, 0xffffffff, 0x60000000, 0, 0xffffffff))
	w.u(48, p.u(0x900000000000, 0, 0x000003000003))
	w.u(8, p.r(0, 255, 93, 0, 255))
	hdr = append([]byte{1}, w.b[1:13]...)
	var pf, lf [8]uint64
	for i := uint64(0); i < sub; i++ {
		pf[i], lf[i] = p.u(0, 1), p.u(0, 1)
		w.u(1, pf[i])
		w.u(1, lf[i])
	}
	if sub > 0 {
		for i := sub; i < 8; i++ {
			w.u(2, 0)
		}
	}
	for i := uint64(0); i < sub; i++ {
		if pf[i] == 1 {
			w.u(8, 0x41)
			w.u(32, p.u(0x60000000, 0, 0xffffffff))
			w.u(48, 1<<i)
		}
		if lf[i] == 1 {
			w.u(8, 60+i)
		}
	}
	w.ue(p.r(0, 15, 0, 1, 15))
	chroma := p.u(1, 0, 2, 3)
	w.ue(chroma)
	sep := uint64(0)
	if chroma == 3 {
		sep = p.u(0, 1)
		w.u(1, sep)
	}
	pw, ph := p.r(1, 1<<20, 1920, 8, 416, 8192, 65536), p.r(1, 1<<20, 1088, 8, 240, 4320, 65536)
	w.ue(pw)
	w.ue(ph)
	var cw [4]uint64
	if cm := p.dev(4); cm == 0 {
		w.u(1, 0)
	} else {
		w.u(1, 1)
		if cm == 1 {
			cw = [4]uint64{0, 0, 0, 2}
		} else if cm == 2 {
			cw = [4]uint64{1, 1, 0, 1}
		}
		for i := range cw {
			if cm == 3 {
				cw[i] = p.r(0, 250, 0, 1)
			}
			w.ue(cw[i])
		}
	}
	need = w.n
	sx, sy := uint64(1), uint64(1)
	switch chroma {
	case 1:
		sx, sy = 2, 2
	case 2:
		sx = 2
	}
	want = hevcWant{uint(pw), uint(ph), int(pw - sx*(cw[0]+cw[1])), int(ph - sy*(cw[2]+cw[3]))}
	luma, chr := p.r(0, 8, 0, 2, 8), p.r(0, 8, 0, 2, 8)
	w.ue(luma)
	w.ue(chr)
	hdr = append(hdr, 0xf0, 0, 0xfc, 0xfc|byte(chroma), 0xf8|byte(luma), 0xf8|byte(chr), 0, 0, byte(sub+1)<<3|byte(nested)<<2|3)
	if luma > 7 || chr > 7 {
		hdr = nil // not representable
	}
	w.ue(p.r(0, 12, 4, 0, 12))
	ord := p.u(1, 0)
	w.u(1, ord)
	from := sub
	if ord == 1 {
		from = 0
	}
	for i := from; i <= sub; i++ {
		w.ue(4)
		w.ue(p.r(0, 15, 2, 0))
		w.ue(0)
	}
	for _, v := range []uint64{0, 3, 0, 3, 1, 1} {
		w.ue(v)
	}
	w.u(1, 0) // scaling lists
	w.u(2, 3)
	w.u(1, 0) // pcm
	w.ue(0)   // short-term sets
	w.u(1, 0)
	w.u(2, 3)
	w.u(1, 0) // vui
	w.u(1, 0) // extension
	w.trail()
	return escape([]byte{0x42, 0x01}, w.b), need, want, hdr
}

func spsPrefix(c *ex.C) []byte {
	return [][]byte{{0, 0, 0, 1}, nil, {0, 0, 1}}[c.Dev(3)]
}

func spsSpaces264(k, cutk int) []*ex.Space {
	nd, ea, eb := k-1, []byte{0, 1, 3, 4}, []byte{0, 2, 3, 0x80}
	if k > 5 {
		ea, eb = []byte{0, 1, 2, 3, 4}, []byte{0, 1, 3, 0x60, 0x80}
	}
	check := func(c *ex.C, pre, nal []byte, want avcWant) {
		if c.Tracing() {
			c.Logf("sps % x", nal)
		}
		data := append(append([]byte{}, pre...), nal...)
		orig := append([]byte{}, data...)
		c.Step()
		s, err := avc.ParseSPS(data)
		if err != nil {
			c.Failf("ParseSPS(% x): %v", nal, err)
		}
		got := avcWant{s.ProfileIdc, s.ConstraintSetFlag, s.LevelIdc, s.Id, s.Width, s.Height, s.FPS}
		if got != want {
			c.Failf("ParseSPS(% x): profile,constraints,level,id,width,height,fps = %v, want %v", nal, got, want)
		}
		if string(data) != string(orig) {
			c.Failf("ParseSPS modified its input")
		}
	}
	return []*ex.Space{
		{Name: "syntax", MaxDev: k, Bound: fmt.Sprintf("all sets differing from the default one in at most %d syntax choices", k), Run: func(c *ex.C) {
			nal, _, want := genAVC(pick{c: c})
			check(c, spsPrefix(c), nal, want)
		}},
		{Name: "field-range", MaxDev: k - 3, Bound: fmt.Sprintf("every single field over its whole range (around powers of two beyond 300 values), in all sets with at most %d further syntax deviations", k-3), Run: func(c *ex.C) {
			wide := 0
			nal, _, want := genAVC(pick{c, &wide})
			if wide == 0 || want.w <= 0 || want.h <= 0 {
				c.Skip()
			}
			check(c, nil, nal, want)
		}},
		{Name: "scaling-lists", Bound: fmt.Sprintf("one or two scaling lists (4x4, 8x8; first and last) whose first %d deltas take every combination of 0 1 -8 120 127 -128, or that end early", nd), Run: func(c *ex.C) {
			w := &bw{}
			w.u(8, 100)
			w.u(8, 0)
			w.u(8, 40)
			w.ue(0)
			chroma := []uint64{1, 3}[c.Choose(2)]
			lists := 8
			if chroma == 3 {
				lists = 12
			}
			w.ue(chroma)
			if chroma == 3 {
				w.u(1, 0)
			}
			w.ue(0)
			w.ue(0)
			w.u(1, 0)
			w.u(1, 1)
			at := []int{0, 5, 6, lists - 1}[c.Choose(4)]
			again := c.Bool() // a second, flat list behind it
			for i := 0; i < lists; i++ {
				if i != at && !(again && i == (at+1)%lists) {
					w.u(1, 0)
					continue
				}
				w.u(1, 1)
				size := 16
				if i >= 6 {
					size = 64
				}
				last, next := int64(8), int64(8)
				for j := 0; j < size; j++ {
					if next != 0 {
						d := int64(0)
						if i == at && j < nd {
							d = []int64{0, 1, -8, 120, 127, -128}[c.Choose(6)]
						} else if i == at && j == nd && c.Bool() {
							d = (384-last)%256 - 128 // ends the list here
						}
						w.se(d)
						next = ((last+d)%256 + 256) % 256
					}
					if next != 0 {
						last = next
					}
				}
			}
			w.ue(0)
			w.ue(2)
			w.ue(1)
			w.u(1, 0)
			w.ue(9)
			w.ue(8)
			w.u(1, 1)
			w.u(1, 1)
			w.u(1, 0)
			w.u(1, 0)
			w.trail()
			check(c, nil, escape([]byte{0x67}, w.b), avcWant{profile: 100, level: 40, w: 160, h: 144})
		}},
		{Name: "emulation", Bound: fmt.Sprintf("timing fields of every byte combination over %v (units) and %v (scale) at every bit alignment", ea, eb), Run: func(c *ex.C) {
			w := &bw{}
			w.u(8, 66)
			w.u(8, 0)
			w.u(8, 30)
			w.ue(0)
			w.ue(0)
			w.ue(2)
			w.ue(1)
			w.u(1, 0)
			w.ue(9)
			w.ue(8)
			w.u(1, 1)
			w.u(1, 1)
			w.u(1, 0)
			w.u(1, 1)
			// the alignment is varied with the optional parts in front of the timing fields
			switch al := c.Choose(8); al {
			case 0, 1, 2, 3:
				w.u(3, 0)
				w.u(1, 1)
				w.ue([]uint64{0, 1, 3, 5}[al])
				w.ue([]uint64{0, 0, 0, 1}[al])
			default:
				w.u(2, 1)
				w.u(1, uint64(al&1))
				w.u(1, 0)
				w.u(1, 1)
				w.ue([]uint64{0, 1, 3, 5}[al-4])
				w.ue([]uint64{1, 1, 3, 1}[al-4])
			}
			w.u(1, 1)
			var u, t uint64
			for i := 0; i < 4; i++ {
				u = u<<8 | uint64(ea[c.Choose(len(ea))])
			}
			if u == 0 {
				c.Skip()
			}
			for i := 0; i < 4; i++ {
				t = t<<8 | uint64(eb[c.Choose(len(eb))])
			}
			w.u(32, u)
			w.u(32, t)
			w.u(1, 1)
			w.u(4, 0)
			w.trail()
			check(c, nil, escape([]byte{0x67}, w.b), avcWant{profile: 66, level: 30, w: 160, h: 144, fps: int(t / (2 * u))})
		}},
		{Name: "size", MaxDev: 99, Bound: "every chroma format x frame/field coding x crop combination of 0..2 units x timing", Run: func(c *ex.C) {
			w := &bw{}
			w.u(8, 100)
			w.u(8, 0)
			w.u(8, 40)
			w.ue(0)
			chroma, sep := uint64(c.Choose(4)), uint64(0)
			w.ue(chroma)
			if chroma == 3 {
				sep = uint64(c.Choose(2))
				w.u(1, sep)
			}
			w.ue(0)
			w.ue(0)
			w.u(1, 0)
			w.u(1, 0)
			w.ue(0)
			w.ue(2)
			w.ue(1)
			w.u(1, 0)
			mw, mh := uint64(1+c.Choose(4)*40), uint64(1+c.Choose(4)*33)
			w.ue(mw - 1)
			w.ue(mh - 1)
			fmo := uint64(c.Choose(2))
			w.u(1, fmo)
			if fmo == 0 {
				w.u(1, 0)
			}
			w.u(1, 1)
			w.u(1, 1)
			var cr [4]uint64
			for i := range cr {
				cr[i] = uint64(c.Choose(3))
				w.ue(cr[i])
			}
			ux, uy := uint64(1), 2-fmo
			if sep == 0 && chroma == 1 {
				ux, uy = 2, 2*(2-fmo)
			} else if chroma == 2 {
				ux = 2
			}
			want := avcWant{profile: 100, level: 40, w: int(mw*16) - int(ux*(cr[0]+cr[1])), h: int((2-fmo)*mh*16) - int(uy*(cr[2]+cr[3]))}
			w.u(1, 0)
			w.trail()
			check(c, nil, escape([]byte{0x67}, w.b), want)
		}},
		{Name: "truncation", MaxDev: cutk, Bound: fmt.Sprintf("every byte-wise cut before the last needed field, of all sets with at most %d deviations", cutk), Run: func(c *ex.C) {
			nal, need, _ := genAVC(pick{c: c})
			pre := spsPrefix(c)
			k := c.Choose(len(nal))
			if availBits(nal, 1, k) >= need {
				c.Skip()
			}
			c.Logf("sps % x cut to %d bytes", nal, k)
			c.Step()
			if _, err := avc.ParseSPS(append(append([]byte{}, pre...), nal[:k]...)); err == nil {
				c.Failf("ParseSPS accepts % x, the first %d bytes of % x", nal[:k], k, nal)
			}
		}},
	}
}

func spsSpaces265(k, cutk int) []*ex.Space {
	ea := []byte{0, 1, 3}
	if k > 5 {
		ea = []byte{0, 1, 2, 3}
	}
	check := func(c *ex.C, pre, nal []byte, want hevcWant) {
		if c.Tracing() {
			c.Logf("sps % x", nal)
		}
		data := append(append([]byte{}, pre...), nal...)
		orig := append([]byte{}, data...)
		c.Step()
		s, err := hevc.ParseSPS(data)
		if err != nil {
			c.Failf("ParseSPS(% x): %v", nal, err)
		}
		got := hevcWant{s.PicWidthInLumaSamples, s.PicHeightInLumaSamples, s.Width, s.Height}
		if got != want {
			c.Failf("ParseSPS(% x): coded width,height, display width,height = %v, want %v", nal, got, want)
		}
		if string(data) != string(orig) {
			c.Failf("ParseSPS modified its input")
		}
	}
	return []*ex.Space{
		{Name: "syntax", MaxDev: k, Bound: fmt.Sprintf("all sets differing from the default one in at most %d syntax choices", k), Run: func(c *ex.C) {
			nal, _, want := genHEVC(pick{c: c})
			check(c, spsPrefix(c), nal, want)
		}},
		{Name: "field-range", MaxDev: k - 3, Bound: fmt.Sprintf("every single field over its whole range (around powers of two beyond 300 values), in all sets with at most %d further syntax deviations", k-3), Run: func(c *ex.C) {
			wide := 0
			nal, _, want := genHEVC(pick{c, &wide})
			if wide == 0 || want.w <= 0 || want.h <= 0 {
				c.Skip()
			}
			check(c, nil, nal, want)
		}},
		{Name: "emulation", Bound: fmt.Sprintf("compatibility and constraint flags of every byte combination over %v at the head of the set, and sub-layer flags likewise", ea), Run: func(c *ex.C) {
			w := &bw{}
			sub := c.Bool()
			w.u(4, 0)
			if sub {
				w.u(3, 1)
			} else {
				w.u(3, 0)
			}
			w.u(1, 1)
			w.u(8, 1)
			n := 10
			if sub {
				n = 6
				w.u(32, 0x60000000)
				w.u(48, 0)
				w.u(8, 93)
				w.u(2, 3)
				w.u(14, 0)
				w.u(8, 1)
				w.u(32, 0x40000000)
			}
			for i := 0; i < n; i++ {
				w.u(8, uint64(ea[c.Choose(len(ea))]))
			}
			w.u(8, 90)
			w.ue(0)
			w.ue(1)
			w.ue(160)
			w.ue(144)
			w.u(1, 0)
			w.ue(0)
			w.ue(0)
			w.ue(4)
			w.u(1, 0)
			w.ue(4)
			w.ue(2)
			w.ue(0)
			for _, v := range []uint64{0, 3, 0, 3, 1, 1} {
				w.ue(v)
			}
			w.u(8, 0x60)
			w.ue(0)
			w.u(5, 0x0c)
			w.trail()
			check(c, nil, escape([]byte{0x42, 1}, w.b), hevcWant{160, 144, 160, 144})
		}},
		{Name: "sub-layers", MaxDev: 99, Bound: "every number of sub-layers x every combination of profile/level flags x chroma x conformance window", Run: func(c *ex.C) {
			w := &bw{}
			sub := uint64(c.Choose(7))
			w.u(4, 0)
			w.u(3, sub)
			w.u(1, 1)
			w.u(8, 1)
			w.u(32, 0x60000000)
			w.u(48, 0)
			w.u(8, 93)
			flags := make([]int, sub)
			for i := range flags {
				flags[i] = c.Choose(4)
				w.u(2, uint64(flags[i]))
			}
			if sub > 0 {
				for i := sub; i < 8; i++ {
					w.u(2, 0)
				}
			}
			for i, f := range flags {
				if f&2 != 0 {
					w.u(8, 1)
					w.u(32, 0x60000000)
					w.u(48, uint64(i))
				}
				if f&1 != 0 {
					w.u(8, 90)
				}
			}
			w.ue(0)
			chroma := uint64(c.Choose(4))
			w.ue(chroma)
			if chroma == 3 {
				w.u(1, uint64(c.Choose(2)))
			}
			w.ue(1280)
			w.ue(736)
			win := uint64(c.Choose(2))
			w.u(1, win)
			var cw [4]uint64
			if win == 1 {
				cw = [][4]uint64{{0, 0, 0, 8}, {1, 2, 3, 4}, {2, 0, 1, 0}}[c.Choose(3)]
				for _, v := range cw {
					w.ue(v)
				}
			}
			w.ue(0)
			w.ue(0)
			w.ue(4)
			ord := uint64(c.Choose(2))
			w.u(1, ord)
			from := sub
			if ord == 1 {
				from = 0
			}
			for i := from; i <= sub; i++ {
				w.ue(4)
				w.ue(2)
				w.ue(0)
			}
			for _, v := range []uint64{0, 3, 0, 3, 1, 1} {
				w.ue(v)
			}
			w.u(8, 0x60)
			w.ue(0)
			w.u(5, 0x0c)
			w.trail()
			sx, sy := uint64(1), uint64(1)
			if chroma == 1 {
				sx, sy = 2, 2
			} else if chroma == 2 {
				sx = 2
			}
			check(c, []byte{0, 0, 0, 1}, escape([]byte{0x42, 1}, w.b), hevcWant{1280, 736, int(1280 - sx*(cw[0]+cw[1])), int(736 - sy*(cw[2]+cw[3]))})
		}},
		{Name: "truncation", MaxDev: cutk, Bound: fmt.Sprintf("every byte-wise cut before the end of the conformance window, of all sets with at most %d deviations", cutk), Run: func(c *ex.C) {
			nal, need, _ := genHEVC(pick{c: c})
			pre := spsPrefix(c)
			k := c.Choose(len(nal))
			if availBits(nal, 2, k) >= need {
				c.Skip()
			}
			c.Logf("sps % x cut to %d bytes", nal, k)
			c.Step()
			if _, err := hevc.ParseSPS(append(append([]byte{}, pre...), nal[:k]...)); err == nil {
				c.Failf("ParseSPS accepts % x, the first %d bytes of % x", nal[:k], k, nal)
			}
		}},
	}
}

func init() {
	run.Register(&run.Prop{ID: "C16", Spaces: func(th bool) []*ex.Space {
		if th {
			return spsSpaces264(6, 4)
		}
		return spsSpaces264(5, 3)
	}, Assumptions: []string{"the reference encoder follows the syntax of ITU-T H.264 7.3.2.1.1 / E.1.1", "sets differ from the default set in a bounded number of syntax choices (plus the full product of all size-relevant fields)"}})
	run.Register(&run.Prop{ID: "C17", Spaces: func(th bool) []*ex.Space {
		if th {
			return spsSpaces265(6, 4)
		}
		return spsSpaces265(5, 3)
	}, Assumptions: []string{"the reference encoder follows the syntax of ITU-T H.265 7.3.2.2 / 7.3.3", "sets differ from the default set in a bounded number of syntax choices (plus the full product of sub-layer flags)"}})
}
