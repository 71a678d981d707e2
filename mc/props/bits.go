package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/lkmio/avformat/bufio"

	"verifmc/canon"
	"verifmc/ex"
	"verifmc/run"
)

// pattern gives n bytes that are all different and cover high and low bits.
func pattern(n int, k byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i+1)*37 + k + byte(i>>8)*11
	}
	return b
}

// hexShort prints up to 24 bytes.
func hexShort(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("% x", b)
	}
	return fmt.Sprintf("% x ... (%d bytes)", b[:24], len(b))
}

func beVal(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return
}

var seekSizes = []int{0, 1, 2, 3, 8, 9, -1, -2, -9, math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, 1 << 32, -1 << 32, 1 << 31}

type bufModel struct {
	data []byte
	off  int
	all  []byte // backing memory with a guard
	want []byte
}

func (m *bufModel) reset(n int, k byte) {
	m.all = pattern(n+16, k)
	m.want = append([]byte{}, m.all...)
	m.data = m.all[:n]
	m.off = 0
}

func (m *bufModel) can(n int) bool {
	return n >= -m.off && n <= len(m.data)-m.off
}

func checkBuf(c *ex.C, m *bufModel, b bufio.BytesBuffer, what string) {
	if b.Offset() != m.off {
		c.Failf("after %s: offset %d, want %d", what, b.Offset(), m.off)
	}
	if b.ReadableBytes() != len(m.data)-m.off {
		c.Failf("after %s: %d bytes readable, want %d", what, b.ReadableBytes(), len(m.data)-m.off)
	}
	if r := b.RemainingBytes(); !bytes.Equal(r, m.want[m.off:len(m.data)]) {
		c.Failf("after %s: remaining bytes %s, want %s", what, hexShort(r), hexShort(m.want[m.off:len(m.data)]))
	}
	if !bytes.Equal(m.all, m.want) {
		c.Failf("after %s: memory is %s, want %s", what, hexShort(m.all), hexShort(m.want))
	}
}

// commonOp handles the operations of the shared buffer; k enumerates them.
const nCommon = 2*16 + 3

func commonOp(c *ex.C, m *bufModel, b bufio.BytesBuffer, k int) string {
	switch {
	case k < 16:
		n := seekSizes[k]
		err := b.Seek(n)
		if (err == nil) != m.can(n) {
			c.Failf("Seek(%d) at %d of %d bytes: %v", n, m.off, len(m.data), err)
		}
		if err == nil {
			m.off += n
		}
		return fmt.Sprintf("Seek(%d)", n)
	case k < 32:
		n := seekSizes[k-16]
		err := b.SeekBack(n)
		ok := n != math.MinInt && m.can(-n)
		if (err == nil) != ok {
			c.Failf("SeekBack(%d) at %d of %d bytes: %v", n, m.off, len(m.data), err)
		}
		if err == nil {
			m.off -= n
		}
		return fmt.Sprintf("SeekBack(%d)", n)
	case k == 32:
		b.Clear()
		m.off = 0
		return "Clear"
	}
	n := []int{0, 5}[k-33]
	m.reset(n, 0x80)
	b.Reset(m.data)
	return fmt.Sprintf("Reset(%d bytes)", n)
}

// farSizes are buffer sizes around byte and word boundaries.
var farSizes = []int{128, 255, 256, 257, 4096, 32768, 65535, 65536, 65537}

// far moves both to a position within three bytes of either end, or of a power of two.
func far(c *ex.C, m *bufModel, b bufio.BytesBuffer) {
	n := len(m.data)
	pos := []int{n, n - 1, n - 2, n - 3, n - 8, n - 9, 0, 1, 126, 255, 256, 4095, 32767, 65535}[c.Choose(14)]
	if pos < 0 || pos > n {
		c.Skip()
	}
	if err := b.Seek(pos); err != nil {
		c.Failf("Seek(%d) from the start of %d bytes: %v", pos, n, err)
	}
	m.off = pos
}

func c21reader(c *ex.C, depth int, big bool) {
	var m bufModel
	if big {
		m.reset(farSizes[c.Choose(len(farSizes))], 0)
	} else {
		m.reset(c.Choose(12), 0)
	}
	r := bufio.NewBytesReader(m.data)
	if big {
		far(c, &m, r)
	}
	sizes := []int{0, 1, 2, 3, 5, 8, 11, 12, -1, -2, -8, math.MaxInt, math.MinInt, 1 << 32}
	if big {
		sizes = append(sizes, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537)
	}
	for i := 0; i < depth; i++ {
		k := c.Choose(nCommon + 5 + len(sizes))
		c.Step()
		var what string
		if k < nCommon {
			what = commonOp(c, &m, r, k)
		} else if k -= nCommon; k < 5 {
			n := []int{1, 2, 3, 4, 8}[k]
			var v uint64
			var err error
			switch n {
			case 1:
				x, e := r.ReadUint8()
				v, err = uint64(x), e
			case 2:
				x, e := r.ReadUint16()
				v, err = uint64(x), e
			case 3:
				x, e := r.ReadUint24()
				v, err = uint64(x), e
			case 4:
				x, e := r.ReadUint32()
				v, err = uint64(x), e
			case 8:
				v, err = r.ReadUint64()
			}
			what = fmt.Sprintf("reading %d bytes", n)
			if (err == nil) != m.can(n) {
				c.Failf("%s at %d of %d bytes: %v", what, m.off, len(m.data), err)
			}
			if err == nil {
				if want := beVal(m.want[m.off : m.off+n]); v != want {
					c.Failf("%s at %d gave %#x, want %#x", what, m.off, v, want)
				}
				m.off += n
			}
		} else {
			n := sizes[k-5]
			what = fmt.Sprintf("ReadBytes(%d)", n)
			b, err := r.ReadBytes(n)
			if (err == nil) != (n >= 0 && m.can(n)) {
				c.Failf("%s at %d of %d bytes: %v", what, m.off, len(m.data), err)
			}
			if err == nil {
				if !bytes.Equal(b, m.want[m.off:m.off+n]) {
					c.Failf("%s at %d gave %s, want %s", what, m.off, hexShort(b), hexShort(m.want[m.off:m.off+n]))
				}
				m.off += n
			}
		}
		if c.Tracing() {
			c.Logf("%s -> offset %d of %d", what, m.off, len(m.data))
		}
		checkBuf(c, &m, r, what)
	}
}

func c21writer(c *ex.C, depth int, big bool) {
	var m bufModel
	if big {
		m.reset(farSizes[c.Choose(len(farSizes))], 0)
	} else {
		m.reset(c.Choose(12), 0)
	}
	w := bufio.NewBytesWriter(m.data)
	wr := []int{0, 1, 2, 5, 11, 12}
	if big {
		far(c, &m, w)
		wr = append(wr, 128, 255, 256, 257, 32768, 65535, 65536, 65537)
	}
	for i := 0; i < depth; i++ {
		k := c.Choose(nCommon + 4 + len(wr))
		c.Step()
		var what string
		if k < nCommon {
			what = commonOp(c, &m, w, k)
		} else {
			k -= nCommon
			var src []byte
			if k < 4 {
				src = pattern([]int{1, 2, 4, 8}[k], byte(0x91+17*i))
			} else {
				src = pattern(wr[k-4], byte(0x91+17*i))
			}
			n := len(src)
			var err error
			v := beVal(src[:min(8, n)])
			switch k {
			case 0:
				err = w.WriteUint8(byte(v))
			case 1:
				err = w.WriteUint16(uint16(v))
			case 2:
				err = w.WriteUint32(uint32(v))
			case 3:
				err = w.WriteUint64(v)
			default:
				s := append([]byte{}, src...)
				err = w.Write(s)
				if !bytes.Equal(s, src) {
					c.Failf("Write modified its argument")
				}
			}
			what = fmt.Sprintf("writing %d bytes (operation %d)", n, k)
			if (err == nil) != m.can(n) {
				c.Failf("%s at %d of %d bytes: %v", what, m.off, len(m.data), err)
			}
			if err == nil {
				copy(m.want[m.off:], src)
				m.off += n
			}
		}
		if c.Tracing() {
			c.Logf("%s -> offset %d of %d", what, m.off, len(m.data))
		}
		checkBuf(c, &m, w, what)
		if b := w.WrittenBytes(); !bytes.Equal(b, m.want[:m.off]) {
			c.Failf("after %s: written bytes %s, want %s", what, hexShort(b), hexShort(m.want[:m.off]))
		}
	}
}

type quietBuf struct {
	m bufModel
	r bufio.BytesReader
	w bufio.BytesWriter
}

// c21quiet: every observation (Offset, ReadableBytes, RemainingBytes, WrittenBytes) is an operation of
// its own; closes over all states of a small buffer.
func c21quiet(name string, size int, writer bool) *ex.Space {
	names := []string{"Offset", "ReadableBytes", "RemainingBytes", "Seek(1)", "Seek(3)", "Seek(-1)", "SeekBack(2)", "Seek(100)", "Clear", "Reset(same)", "Reset(3 bytes)"}
	if writer {
		names = append(names, "WrittenBytes", "WriteUint8", "WriteUint16", "WriteUint32", "WriteUint64", "Write(1)", "Write(3)", "Write(0)")
	} else {
		names = append(names, "ReadUint8", "ReadUint16", "ReadUint24", "ReadUint32", "ReadUint64", "ReadBytes(0)", "ReadBytes(1)", "ReadBytes(3)")
	}
	var all []int
	for i := range names {
		all = append(all, i)
	}
	b := &ex.BFS{MaxDepth: 40}
	b.New = func(c *ex.C) any {
		q := &quietBuf{}
		q.m.reset(size, 0)
		if writer {
			q.w = bufio.NewBytesWriter(q.m.data)
		} else {
			q.r = bufio.NewBytesReader(q.m.data)
		}
		return q
	}
	b.Ops = func(any) []int { return all }
	b.OpName = func(op int) string { return names[op] }
	b.Canon = func(x any) uint64 {
		q := x.(*quietBuf)
		return canon.HashContents(q.r, q.w, q.m.off, q.m.data, q.m.all)
	}
	b.Apply = func(c *ex.C, x any, op int) {
		q := x.(*quietBuf)
		m := &q.m
		c.Step()
		var buf bufio.BytesBuffer = q.r
		if writer {
			buf = q.w
		}
		answer := func(n int, err error, get func() (string, string)) {
			if (err == nil) != (n >= 0 && m.can(n)) {
				c.Failf("%s at %d of %d bytes: %v", names[op], m.off, len(m.data), err)
			}
			if err != nil {
				return
			}
			if got, want := get(); got != want {
				c.Failf("%s at %d gave %s, want %s", names[op], m.off, got, want)
			}
			m.off += n
		}
		switch op {
		case 0:
			if g := buf.Offset(); g != m.off {
				c.Failf("offset %d, want %d", g, m.off)
			}
		case 1:
			if g := buf.ReadableBytes(); g != len(m.data)-m.off {
				c.Failf("%d bytes readable, want %d", g, len(m.data)-m.off)
			}
		case 2:
			if g := buf.RemainingBytes(); !bytes.Equal(g, m.want[m.off:len(m.data)]) {
				c.Failf("remaining bytes %s, want %s", hexShort(g), hexShort(m.want[m.off:len(m.data)]))
			}
		case 3, 4, 5, 6, 7:
			n := []int{1, 3, -1, -2, 100}[op-3]
			var err error
			if op == 6 {
				err = buf.SeekBack(2)
			} else {
				err = buf.Seek(n)
			}
			if (err == nil) != m.can(n) {
				c.Failf("%s at %d of %d bytes: %v", names[op], m.off, len(m.data), err)
			}
			if err == nil {
				m.off += n
			}
		case 8:
			buf.Clear()
			m.off = 0
		case 9:
			buf.Reset(m.data)
			m.off = 0
		case 10:
			m.reset(3, 0x80)
			buf.Reset(m.data)
		default:
			if !writer {
				k := op - 11
				n := []int{1, 2, 3, 4, 8, 0, 1, 3}[k]
				var v uint64
				var bs []byte
				var err error
				switch k {
				case 0:
					x, e := q.r.ReadUint8()
					v, err = uint64(x), e
				case 1:
					x, e := q.r.ReadUint16()
					v, err = uint64(x), e
				case 2:
					x, e := q.r.ReadUint24()
					v, err = uint64(x), e
				case 3:
					x, e := q.r.ReadUint32()
					v, err = uint64(x), e
				case 4:
					v, err = q.r.ReadUint64()
				default:
					bs, err = q.r.ReadBytes(n)
				}
				answer(n, err, func() (string, string) {
					w := m.want[m.off : m.off+n]
					if k > 4 {
						return hexShort(bs), hexShort(w)
					}
					return fmt.Sprintf("%#x", v), fmt.Sprintf("%#x", beVal(w))
				})
				break
			}
			if op == 11 {
				if g := q.w.WrittenBytes(); !bytes.Equal(g, m.want[:m.off]) {
					c.Failf("written bytes %s, want %s", hexShort(g), hexShort(m.want[:m.off]))
				}
				break
			}
			k := op - 12
			src := pattern([]int{1, 2, 4, 8, 1, 3, 0}[k], byte(0x51+k))
			v := beVal(src)
			var err error
			switch k {
			case 0:
				err = q.w.WriteUint8(byte(v))
			case 1:
				err = q.w.WriteUint16(uint16(v))
			case 2:
				err = q.w.WriteUint32(uint32(v))
			case 3:
				err = q.w.WriteUint64(v)
			default:
				err = q.w.Write(src)
			}
			answer(len(src), err, func() (string, string) {
				copy(m.want[m.off:], src)
				return "", ""
			})
		}
		if !bytes.Equal(m.all, m.want) {
			c.Failf("after %s: memory is %s, want %s", names[op], hexShort(m.all), hexShort(m.want))
		}
	}
	return &ex.Space{Name: name, Bound: fmt.Sprintf("a buffer of %d bytes: every state reached by %d operations, the observers among them", size, len(names)), BFS: b}
}

// refBits reads n bits at position at.
func refBits(b []byte, at, n int) (v uint64) {
	for i := at; i < at+n; i++ {
		v = v<<1 | uint64(b[i/8]>>(7-uint(i%8))&1)
	}
	return
}

func refPut(b []byte, at, n int, v uint64) {
	for i := 0; i < n; i++ {
		p := at + i
		if p/8 >= len(b) {
			return
		}
		m := byte(1) << (7 - uint(p%8))
		b[p/8] &^= m
		if v>>uint(n-1-i)&1 == 1 {
			b[p/8] |= m
		}
	}
}

func mask(n int) uint64 {
	if n >= 64 {
		return math.MaxUint64
	}
	return 1<<uint(n) - 1
}

func edgeValues(n int) []uint64 {
	v := []uint64{0, math.MaxUint64, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555, 0x0123456789abcdef, 0xfedcba9876543210}
	if n > 0 {
		v = append(v, 1, uint64(1)<<uint(n-1), mask(n), mask(n)>>1, mask(n)-1)
		if n < 64 {
			v = append(v, uint64(1)<<uint(n))
		}
	}
	return v
}

func checkWriteBits(c *ex.C, size, at, n int, v uint64, base byte) {
	c.Step()
	all := bytes.Repeat([]byte{base}, size+4)
	want := append([]byte{}, all...)
	refPut(want[:size], at, n, v)
	bufio.WriteBits(all[:size], at, n, v)
	if !bytes.Equal(all, want) {
		c.Failf("WriteBits(%d bytes of %02x, start %d, width %d, %#x) gave % x, want % x", size, base, at, n, v, all, want)
	}
	if at+n <= 8*size {
		if g := bufio.ReadBits(all[:size], at, n); g != v&mask(n) {
			c.Failf("ReadBits(start %d, width %d) after writing %#x = %#x", at, n, v, g)
		}
	}
}

func c22seq(c *ex.C, depth int) {
	size := []int{0, 1, 3, 9, 17}[c.Choose(5)]
	data := pattern(size, 0x33)
	want := append([]byte{}, data...)
	r := &bufio.BitsReader{Data: data}
	w := &bufio.BitsWriter{Data: data}
	ro, wo := 0, 0
	widths := []int{0, 1, 3, 5, 7, 8, 9, 16, 31, 33, 64}
	for i := 0; i < depth; i++ {
		k := c.Choose(2*len(widths) + 10)
		c.Step()
		var what string
		switch {
		case k < len(widths):
			n := widths[k]
			what = fmt.Sprintf("Read(%d) at %d", n, ro)
			v := r.Read(n)
			if ro+n <= 8*size {
				if x := refBits(want, ro, n); v != x {
					c.Failf("%s of %d bytes = %#x, want %#x", what, size, v, x)
				}
			}
			ro += n
		case k < 2*len(widths):
			n := widths[k-len(widths)]
			v := uint64(0x9e3779b97f4a7c15) * uint64(i+1)
			what = fmt.Sprintf("Write(%d, %#x) at %d", n, v, wo)
			w.Write(n, v)
			refPut(want, wo, n, v)
			wo += n
		default:
			j := k - 2*len(widths)
			n := []int{1, 7, 8, 16, 0}[j/2]
			if j < 4 || j == 8 || j == 9 {
				s := []int{1, 5, 0, 0, 8}[j/2]
				if j%2 == 0 {
					what = fmt.Sprintf("reader Seek(%d)", s)
					r.Seek(s)
					ro += s
				} else {
					what = fmt.Sprintf("writer Seek(%d)", s)
					w.Seek(s)
					wo += s
				}
				break
			}
			n = []int{0, 0, 1, 3}[j/2]
			if j%2 == 0 {
				if ro%8 != 0 || ro/8+n > size {
					c.Skip()
				}
				what = fmt.Sprintf("ReadBytes(%d) at %d", n, ro)
				if b := r.ReadBytes(n); !bytes.Equal(b, want[ro/8:ro/8+n]) {
					c.Failf("%s = % x, want % x", what, b, want[ro/8:ro/8+n])
				}
				ro += 8 * n
			} else {
				if wo%8 != 0 || wo/8+n > size {
					c.Skip()
				}
				src := pattern(n, byte(0x71+i))
				what = fmt.Sprintf("WriteBytes(% x) at %d", src, wo)
				w.WriteBytes(src)
				copy(want[wo/8:], src)
				wo += 8 * n
			}
		}
		if c.Tracing() {
			c.Logf("%s", what)
		}
		if !bytes.Equal(data, want) {
			c.Failf("after %s: data % x, want % x", what, data, want)
		}
		if r.Offset != ro || w.Offset != wo {
			c.Failf("after %s: positions %d/%d, want %d/%d", what, r.Offset, w.Offset, ro, wo)
		}
	}
}

// golField is one coded field.
type golField struct {
	kind int // 0 bit, 1 ReadBits, 2 ReadBits32, 3 ReadBits64, 4 ue, 5 se
	n    int
	v    uint64
}

var golNames = []string{"ReadBit", "ReadBits", "ReadBits32", "ReadBits64", "ReadExponentialGolombCode", "ReadSE"}

func golFields(full bool) (r []golField) {
	r = append(r, golField{0, 1, 0}, golField{0, 1, 1})
	w := []int{0, 1, 7, 8, 9, 31, 32, 33, 64}
	if full {
		w = []int{0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 47, 48, 63, 64}
	}
	for _, n := range w {
		vals := []uint64{0x9e3779b97f4a7c15 & mask(n)}
		if full {
			vals = append(vals, 0, mask(n), mask(n)>>1, mask(n)^mask(n)>>1)
		}
		for _, v := range vals {
			r = append(r, golField{1, n, v}, golField{3, n, v})
			if n <= 32 {
				r = append(r, golField{2, n, v})
			}
		}
	}
	for k := 0; k <= 32; k++ {
		if !full && k > 3 && k != 7 && k != 8 && k != 16 && k < 31 {
			continue
		}
		for d := -2; d <= 0; d++ {
			v := int64(1)<<k + int64(d)
			if v < 0 || v > math.MaxUint32-1 || !full && d == 0 && k > 2 {
				continue
			}
			r = append(r, golField{4, 0, uint64(v)}, golField{5, 0, uint64(v)})
		}
	}
	return
}

func (f golField) write(w *bw) {
	if f.kind >= 4 {
		w.ue(f.v)
		return
	}
	for i := f.n - 1; i >= 0; i-- {
		w.bit(f.v >> uint(i) & 1)
	}
}

func (f golField) want() uint64 {
	if f.kind == 5 {
		if f.v&1 == 1 {
			return (f.v + 1) / 2
		}
		return -(f.v / 2)
	}
	return f.v
}

func (f golField) read(r *bufio.GolombBitReader) (uint64, error) {
	switch f.kind {
	case 0:
		v, err := r.ReadBit()
		return uint64(v), err
	case 1:
		v, err := r.ReadBits(f.n)
		return uint64(v), err
	case 2:
		v, err := r.ReadBits32(uint(f.n))
		return uint64(v), err
	case 3:
		return r.ReadBits64(uint(f.n))
	case 4:
		v, err := r.ReadExponentialGolombCode()
		return uint64(v), err
	}
	v, err := r.ReadSE()
	return uint64(v), err
}

// devReader is a byte source that may misbehave within the io.Reader contract.
type devReader struct {
	c    *ex.C
	data []byte
	log  string
	fail int  // fails once, when this many bytes are left; -1: never
	hit  bool // it has failed
}

var errSource = errors.New("source failure")

func (d *devReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if d.fail == len(d.data) && !d.hit {
		d.hit = true
		d.log += " failure"
		return 0, errSource
	}
	if len(d.data) == 0 {
		if d.c.Dev(2) == 1 {
			d.log += " empty"
			return 0, nil
		}
		return 0, io.EOF
	}
	n := 1
	k := 2
	if len(d.data) == 1 {
		k = 3
	}
	x := d.c.Dev(k)
	if x == 1 {
		d.log += " empty"
		return 0, nil
	}
	p[0] = d.data[0]
	d.data = d.data[1:]
	if x == 2 {
		d.log += " last+EOF"
		return n, io.EOF
	}
	return n, nil
}

func c23run(c *ex.C, fs []golField, cut int) { c23source(c, fs, cut, false) }

func c23source(c *ex.C, fs []golField, cut int, failing bool) {
	w := &bw{}
	var ends []int
	for _, f := range fs {
		f.write(w)
		ends = append(ends, w.n)
	}
	data := append([]byte{}, w.b...)
	if cut > len(data) {
		c.Skip()
	}
	data = data[:len(data)-cut]
	if c.Tracing() {
		c.Logf("bytes % x", data)
	}
	src := &devReader{c: c, data: append([]byte{}, data...), fail: -1}
	if failing {
		src.fail = c.Choose(len(data) + 1)
	}
	r := &bufio.GolombBitReader{R: src}
	for i, f := range fs {
		c.Step()
		v, err := f.read(r)
		if c.Tracing() {
			c.Logf("%s(%d) = %d, %v (source:%s)", golNames[f.kind], f.n, v, err, src.log)
		}
		if src.hit {
			if err == nil {
				c.Failf("the source failed while %s of width %d was read and the read reported %d, no error", golNames[f.kind], f.n, v)
			}
			return
		}
		if ends[i] > 8*len(data) {
			if err == nil {
				c.Failf("%s of width %d needs bit %d of %d, yet returned %d without an error", golNames[f.kind], f.n, ends[i], 8*len(data), v)
			}
			// the data stays exhausted
			for again := 0; again < 3; again++ {
				if v, err := r.ReadBit(); err == nil {
					c.Failf("after the end of the data was reported, ReadBit returned %d", v)
				}
			}
			if v, err := f.read(r); err == nil {
				c.Failf("after the end of the data was reported, %s returned %d", golNames[f.kind], v)
			}
			return
		}
		if err != nil {
			c.Failf("%s of width %d ending at bit %d of %d: %v (source:%s)", golNames[f.kind], f.n, ends[i], 8*len(data), err, src.log)
		}
		if v != f.want() {
			c.Failf("%s of width %d in % x at bit %d = %d, want %d (source:%s)", golNames[f.kind], f.n, data, ends[i], int64(v), int64(f.want()), src.log)
		}
	}
}

func init() {
	run.Register(&run.Prop{ID: "C21", Spaces: func(th bool) []*ex.Space {
		d := 3
		if th {
			d = 4
		}
		return []*ex.Space{
			{Name: "reader", Bound: fmt.Sprintf("buffers of 0..11 bytes x every sequence of %d operations out of 54 (reads of every width, ReadBytes/Seek/SeekBack with zero, negative and overflowing sizes, Clear, Reset)", d), Run: func(c *ex.C) { c21reader(c, d, false) }},
			{Name: "writer", Bound: fmt.Sprintf("buffers of 0..11 bytes x every sequence of %d operations out of 45", d), Run: func(c *ex.C) { c21writer(c, d, false) }},
			{Name: "far-reader", Bound: "9 buffers of 128..65537 bytes x positions near either end and near powers of two x every sequence of 2 operations out of 64, block reads of up to 65537 bytes included", Run: func(c *ex.C) { c21reader(c, 2, true) }},
			{Name: "far-writer", Bound: "9 buffers of 128..65537 bytes x positions near either end and near powers of two x every sequence of 2 operations out of 53, block writes of up to 65537 bytes included", Run: func(c *ex.C) { c21writer(c, 2, true) }},
			c21quiet("reader-quiet", 9+2*b2i(th), false),
			c21quiet("writer-quiet", 4+b2i(th), true),
			{Name: "uint24", Bound: "all 2^24 values at 3 positions: complete", Run: func(c *ex.C) {
				hi, at := c.Choose(256), c.Choose(3)
				for lo := 0; lo < 1<<16; lo++ {
					v := uint32(hi<<16 | lo)
					var b [6]byte
					bufio.PutUint24(b[at:], v)
					var w [6]byte
					w[at], w[at+1], w[at+2] = byte(hi), byte(lo>>8), byte(lo)
					if b != w || bufio.Uint24(b[at:]) != v {
						c.Failf("PutUint24(%#x) = % x, read back %#x", v, b, bufio.Uint24(b[at:]))
					}
				}
				c.Step()
			}},
		}
	}, Assumptions: []string{"a successful relative seek may go either way, whatever the sign of its argument"}})

	run.Register(&run.Prop{ID: "C22", Spaces: func(th bool) []*ex.Space {
		d, sz := 4, 10
		if th {
			d, sz = 5, 18
		}
		return []*ex.Space{
			{Name: "read-small", Bound: "all contents of 0..2 bytes x every start and width up to 24 bits", Run: func(c *ex.C) {
				size, at, n := c.Choose(3), c.Choose(25), c.Choose(25)
				x := 0
				if size == 2 {
					x = c.Choose(256)
				}
				data := make([]byte, size)
				for y := 0; y < 256; y++ {
					if size > 0 {
						data[size-1] = byte(y)
					}
					if size > 1 {
						data[0] = byte(x)
					}
					c.Step()
					v := bufio.ReadBits(data, at, n)
					if at+n <= 8*size {
						if w := refBits(data, at, n); v != w {
							c.Failf("ReadBits(% x, start %d, width %d) = %#x, want %#x", data, at, n, v, w)
						}
					}
				}
			}},
			{Name: "read-wide", Bound: fmt.Sprintf("3 contents of 0..%d bytes x every start x widths 0..64", sz), Run: func(c *ex.C) {
				size := c.Choose(sz + 1)
				at, n := c.Choose(8*sz+9), c.Choose(65)
				data := [][]byte{pattern(size, 1), bytes.Repeat([]byte{0xff}, size), pattern(size, 0xc8)}[c.Choose(3)]
				orig := append([]byte{}, data...)
				c.Step()
				v := bufio.ReadBits(data, at, n)
				if at+n <= 8*size {
					if w := refBits(data, at, n); v != w {
						c.Failf("ReadBits(% x, start %d, width %d) = %#x, want %#x", data, at, n, v, w)
					}
				}
				if !bytes.Equal(data, orig) {
					c.Failf("ReadBits modified the data")
				}
			}},
			{Name: "write", Bound: fmt.Sprintf("buffers of 0..%d bytes x every start x widths 0..64 x boundary values x 3 previous contents", sz), Run: func(c *ex.C) {
				size, at, n := c.Choose(sz+1), c.Choose(8*sz+9), c.Choose(65)
				for _, base := range []byte{0, 0xff, 0x5a} {
					for _, v := range edgeValues(n) {
						checkWriteBits(c, size, at, n, v, base)
					}
				}
			}},
			{Name: "far", Bound: "reads and writes of every width 0..64 at every bit position from 9 bits below to 9 above 12 byte positions up to 2^20 in a buffer that ends there, 9 bytes later or far beyond", Run: func(c *ex.C) {
				at := []int{31, 32, 127, 255, 256, 257, 4095, 4096, 8191, 8192, 65536, 1 << 20}[c.Choose(12)]
				size := at + []int{0, 1, 9, 300}[c.Choose(4)]
				n := c.Choose(65)
				all := pattern(size+4, 0x2f)
				want := append([]byte{}, all...)
				for s := 8*at - 9; s <= 8*at+9; s++ {
					c.Step()
					v := 0x9e3779b97f4a7c15 * uint64(s+n+1)
					refPut(want[:size], s, n, v)
					bufio.WriteBits(all[:size], s, n, v)
					lo := max(0, at-4)
					if !bytes.Equal(all[lo:], want[lo:]) {
						c.Failf("WriteBits(%d bytes, start %d, width %d, %#x): wrong bytes near the position", size, s, n, v)
					}
					if s+n <= 8*size {
						if g := bufio.ReadBits(all[:size], s, n); g != v&mask(n) {
							c.Failf("ReadBits(start %d, width %d of %d bytes) after writing %#x = %#x", s, n, size, v, g)
						}
						r := &bufio.BitsReader{Data: all[:size], Offset: s}
						if g := r.Read(n); g != v&mask(n) || r.Offset != s+n {
							c.Failf("Read(%d) at %d of %d bytes = %#x, position %d, want %#x", n, s, size, g, r.Offset, v&mask(n))
						}
					}
				}
				if !bytes.Equal(all, want) {
					c.Failf("WriteBits(%d bytes) around %d changed other bytes", size, at)
				}
			}},
			{Name: "sequences", Bound: fmt.Sprintf("buffers of 0..17 bytes x every sequence of %d reads, writes, seeks and byte accesses out of 32", d), Run: func(c *ex.C) { c22seq(c, d) }},
		}
	}, Assumptions: []string{"positions and widths are not negative, widths at most 64", "byte-wise access happens at byte-aligned positions inside the data"}})

	run.Register(&run.Prop{ID: "C23", Spaces: func(th bool) []*ex.Space {
		depth, dev := 3, 2
		if th {
			depth, dev = 4, 3
		}
		short, full := golFields(false), golFields(true)
		seq := func(c *ex.C, al []golField, n int) []golField {
			var fs []golField
			for i := 0; i < n; i++ {
				fs = append(fs, al[c.Choose(len(al))])
			}
			return fs
		}
		return []*ex.Space{
			{Name: "pairs", Bound: fmt.Sprintf("every pair of %d fields (widths 0..64, codes up to 2^32-2) with up to 1 source deviation and every truncation up to 2 bytes", len(full)), MaxDev: 1, Run: func(c *ex.C) {
				cut := c.Choose(3)
				c23run(c, seq(c, full, 2), cut)
			}},
			{Name: "sequences", Bound: fmt.Sprintf("every sequence of %d fields out of %d, well-behaved source", depth, len(short)), Run: func(c *ex.C) {
				c23run(c, seq(c, short, depth), 0)
			}},
			{Name: "sources", Bound: fmt.Sprintf("every field after 0..7 single bits x every placement of up to %d empty reads and end-of-data notices x every truncation", dev), MaxDev: dev, Run: func(c *ex.C) {
				pre := c.Choose(8)
				var fs []golField
				for i := 0; i < pre; i++ {
					fs = append(fs, golField{0, 1, uint64(i & 1)})
				}
				fs = append(fs, full[c.Choose(len(full))], golField{1, 3, 5})
				c23run(c, fs, c.Choose(11))
			}},
			{Name: "failures", Bound: "every field after 0..7 single bits and before another x a one-time failure of the source at every position", Run: func(c *ex.C) {
				var fs []golField
				for i := c.Choose(8); i > 0; i-- {
					fs = append(fs, golField{0, 1, uint64(i & 1)})
				}
				fs = append(fs, full[c.Choose(len(full))], short[c.Choose(len(short))])
				c23source(c, fs, 0, true)
			}},
			{Name: "long", Bound: "every field repeated 300 and 5000 times after 0..7 single bits, alternating with single bits or not, then every short field", Run: func(c *ex.C) {
				var fs []golField
				for i := c.Choose(8); i > 0; i-- {
					fs = append(fs, golField{0, 1, uint64(i & 1)})
				}
				n := []int{300, 5000}[c.Choose(2)]
				f, alt := short[c.Choose(len(short))], c.Choose(2) == 1
				for i := 0; i < n; i++ {
					fs = append(fs, f)
					if alt {
						fs = append(fs, golField{0, 1, uint64(i & 1)})
					}
				}
				fs = append(fs, short...)
				c23run(c, fs, 0)
			}},
			{Name: "codes", Bound: "every unsigned and signed code from 0 to 65535 at every bit position: complete", Run: func(c *ex.C) {
				pre, hi, kind := c.Choose(8), c.Choose(256), 4+c.Choose(2)
				for lo := 0; lo < 256; lo++ {
					c23run(c, []golField{{1, pre, 0x55 & mask(pre)}, {kind, 0, uint64(hi<<8 | lo)}, {1, 2, 2}}, 0)
				}
			}},
		}
	}, Assumptions: []string{"codes up to 2^32-2, the largest the standards allow", "a source does not return empty reads for ever"}})
}
