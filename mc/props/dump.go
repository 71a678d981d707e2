package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verifmc/ex"
	"verifmc/run"
)

// closeFiles closes every *os.File an object holds, however it names its fields.
func closeFiles(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if f, ok := reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Interface().(*os.File); ok {
			f.Close()
			return
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			closeFiles(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			closeFiles(v.Index(i))
		}
	}
}

var dumpRuns atomic.Int64

// collect keeps the number of open files low if the handler hides them where closeFiles does not look.
func collect() {
	if dumpRuns.Add(1)%300 == 0 {
		if e, err := os.ReadDir("/proc/self/fd"); err == nil && len(e) > 300 {
			runtime.GC()
		}
	}
}

type dumpTrack struct {
	kind  string
	st    *avformat.AVStream
	sets  [][]byte // nil: no parameters
	raw   []byte   // expected bytes (non H.26x)
	pkts  []dumpPkt
	video bool
	stamp func() (dts, pts int64, lasting bool) // nil: consecutive numbers
}

type dumpPkt struct {
	units [][]byte
	key   bool
	avcc  bool
	sets  int // parameter sets may lead the packet this many times
}

var dumpKinds = []string{"h264-avcc", "h264-annexb", "h265-avcc", "aac", "pcma", "h264-avcc-noparams", "h265-annexb", "vp8"}

func newDumpTrack(kind string, index int) *dumpTrack {
	t := &dumpTrack{kind: kind, video: true}
	add := func(id utils.AVCodecID, params int, sets [3][][]byte) {
		t.st, _ = c13stream(id, 4, params, sets)
		if params > 0 {
			for _, l := range sets {
				t.sets = append(t.sets, l...)
			}
		}
	}
	switch kind {
	case "h264-avcc":
		add(utils.AVCodecIdH264, 1, c13sets264)
	case "h264-annexb":
		add(utils.AVCodecIdH264, 2, c13sets264)
	case "h264-avcc-noparams":
		add(utils.AVCodecIdH264, 0, c13sets264)
	case "h265-avcc":
		add(utils.AVCodecIdH265, 1, c13sets265)
	case "h265-annexb":
		add(utils.AVCodecIdH265, 2, c13sets265)
	case "vp8":
		t.st = &avformat.AVStream{MediaType: utils.AVMediaTypeVideo, CodecID: utils.AVCodecIdVP8}
	case "aac":
		t.st, t.video = &avformat.AVStream{MediaType: utils.AVMediaTypeAudio, CodecID: utils.AVCodecIdAAC}, false
	case "pcma":
		t.st, t.video = &avformat.AVStream{MediaType: utils.AVMediaTypeAudio, CodecID: utils.AVCodecIdPCMALAW}, false
	}
	t.st.Index = index
	return t
}

// packet feeds the v-th kind of packet (0: key frame of two units, 1: one-unit inter frame,
// 2: long one, 3: inter unit in a packet flagged key, 4: IDR unit in a packet not flagged key).
func (t *dumpTrack) packet(c *ex.C, h avformat.OnUnpackStreamHandler, v, seq int) {
	c.Step()
	c.Logf("packet of track %d (%s, variant %d)", t.st.Index, t.kind, v)
	id := byte(0x81 + seq%120)
	p := dumpPkt{key: (v == 0 || v == 3) && t.video}
	var data []byte
	form := avformat.PacketTypeNONE
	long := bytes.Repeat([]byte{id, 0x7b, id ^ 0x55}, 700)
	if v >= 100 { // an inter packet of v bytes, or of -v units
		long = bytes.Repeat([]byte{id, 0x7b, id ^ 0x55}, v/3)
		v = 2
	}
	many := 0
	if v < 0 {
		many, v = -v, 2
	}
	switch {
	case t.st.CodecID == utils.AVCodecIdH264 || t.st.CodecID == utils.AVCodecIdH265:
		k, n := []byte{0x65, 0x88}, []byte{0x41, 0x9a}
		if t.st.CodecID == utils.AVCodecIdH265 {
			k, n = []byte{0x26, 1, 0x80}, []byte{2, 1, 0x80}
		}
		switch v {
		case 0:
			p.units = [][]byte{cat(k, []byte{id}), cat(k, []byte{id, 0x99})}
		case 1, 3:
			p.units = [][]byte{cat(n, []byte{id})}
		case 4:
			p.units = [][]byte{cat(k, []byte{id})}
		default:
			p.units = [][]byte{cat(n, []byte{id}, long), cat(n, []byte{id, id})}
		}
		for i := 0; i < many; i++ {
			p.units = append(p.units, cat(n, []byte{id, byte(i%200 + 1)}))
		}
		if bytes.Contains([]byte(t.kind), []byte("avcc")) {
			p.avcc, form, data = true, avformat.PacketTypeAVCC, lenPrefix(p.units, 4)
			if p.key || v == 4 {
				p.sets = 2
			}
		} else {
			form = avformat.PacketTypeAnnexB
			if p.key || v == 4 {
				p.sets = 1
			}
			for _, u := range p.units {
				data = cat(data, sc4, u)
			}
		}
		t.pkts = append(t.pkts, p)
	case v == 2:
		data = long
	default:
		data = []byte{id, byte(v), 0, 0, 1, id}
	}
	if t.st.CodecID != utils.AVCodecIdH264 && t.st.CodecID != utils.AVCodecIdH265 {
		t.raw = append(t.raw, data...)
	}
	dts, pts, lasting := int64(seq), int64(seq), false
	if t.stamp != nil {
		dts, pts, lasting = t.stamp()
	}
	var pkt *avformat.AVPacket
	if t.video {
		pkt = avformat.NewVideoPacket(data, dts, pts, p.key, form, t.st.CodecID, t.st.Index, 1000)
	} else {
		pkt = avformat.NewAudioPacket(data, dts, t.st.CodecID, t.st.Index, 1000)
	}
	if lasting {
		pkt.Duration = 40
	}
	h.OnPacket(pkt)
	for i := range data {
		data[i] = 0xee
	}
	avformat.FreePacket(pkt)
}

// match consumes the units of the packets; parameter sets may lead a packet, and must lead a
// length-prefixed key packet.
func matchDump(got [][]byte, sets [][]byte, pkts []dumpPkt) bool {
	if len(pkts) == 0 {
		return len(got) == 0
	}
	p := pkts[0]
	lead := func(g [][]byte) [][]byte {
		if len(g) < len(sets) || len(sets) == 0 {
			return nil
		}
		if !eqNals(g[:len(sets)], sets) {
			return nil
		}
		return g[len(sets):]
	}
	lo, hi := 0, 0
	if len(sets) > 0 {
		hi = p.sets
		if p.avcc && p.key {
			lo = 1
		}
	}
	g := got
	for k := 0; k <= hi; k++ {
		if k > 0 {
			if g = lead(g); g == nil {
				return false
			}
		}
		if k >= lo && len(g) >= len(p.units) && eqNals(g[:len(p.units)], p.units) && matchDump(g[len(p.units):], sets, pkts[1:]) {
			return true
		}
	}
	return false
}

func dumpName(path string, s *avformat.AVStream) string {
	return fmt.Sprintf("%s.%s.%d.%s", path, s.MediaType.String(), s.Index, s.CodecID.String())
}

func (t *dumpTrack) check(c *ex.C, path string) {
	name := dumpName(path, t.st)
	if st, err := os.Lstat(name); err == nil && st.Mode().IsRegular() && st.Mode().Perm()&ownerBits != ownerBits {
		c.Failf("file %s has mode %v: its owner cannot read it back or write it again", filepath.Base(name), st.Mode())
	}
	os.Chmod(name, 0o600) // whatever the umask
	got, err := os.ReadFile(name)
	if err != nil {
		c.Failf("track %d (%s): no file %s", t.st.Index, t.kind, filepath.Base(name))
	}
	if t.st.CodecID != utils.AVCodecIdH264 && t.st.CodecID != utils.AVCodecIdH265 {
		if !bytes.Equal(got, t.raw) {
			c.Failf("track %d (%s): the file holds %d bytes % x, the payloads are %d bytes % x", t.st.Index, t.kind, len(got), clipb(got), len(t.raw), clipb(t.raw))
		}
		return
	}
	if len(t.pkts) == 0 {
		if len(got) != 0 {
			c.Failf("track %d (%s): the file holds %d bytes, no packet was delivered", t.st.Index, t.kind, len(got))
		}
		return
	}
	nals, _, ok := refNals(got)
	if !ok || !matchDump(nals, t.sets, t.pkts) {
		c.Failf("track %d (%s): the file holds the units %s, which are not those of its %d packets in Annex B form", t.st.Index, t.kind, clip(fmtNals(nals)), len(t.pkts))
	}
}

// ownerBits is what the owner needs of a dumped file, less what the process's
// umask takes away.
var ownerBits = func() os.FileMode {
	m := syscall.Umask(0)
	syscall.Umask(m)
	return 0o600 &^ os.FileMode(m)
}()

func checkDir(c *ex.C, dir, path string, tracks []*dumpTrack) {
	want := map[string]bool{}
	for _, t := range tracks {
		t.check(c, path)
		want[filepath.Base(dumpName(path, t.st))] = true
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !want[e.Name()] {
			c.Failf("file %s belongs to no announced track", e.Name())
		}
	}
}

func withDumpDir(f func(dir string)) {
	dir, err := os.MkdirTemp("/dev/shm", "verifdump")
	if err != nil {
		dir, err = os.MkdirTemp("", "verifdump")
	}
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	collect()
	f(dir)
}

func dumpOnce(path string, kinds []string, f func(h *avformat.OnUnpackStream2FileHandler, ts []*dumpTrack)) []*dumpTrack {
	h := &avformat.OnUnpackStream2FileHandler{Path: path}
	defer closeFiles(reflect.ValueOf(h).Elem())
	var ts []*dumpTrack
	for i, k := range kinds {
		t := newDumpTrack(k, i)
		ts = append(ts, t)
		h.OnNewTrack(&avformat.SimpleTrack{Stream: t.st})
	}
	h.OnTrackComplete()
	f(h, ts)
	return ts
}

func init() {
	run.Register(&run.Prop{ID: "C28", Spaces: func(th bool) []*ex.Space {
		d, nt := 3, 2
		if th {
			d, nt = 4, 3
		}
		seqs := func(c *ex.C, ts []*dumpTrack, h avformat.OnUnpackStreamHandler, n int) {
			for i := 0; i < n; i++ {
				k := c.Choose(len(ts) * 3)
				ts[k/3].packet(c, h, k%3, i)
			}
		}
		return []*ex.Space{
			{Name: "tracks", Bound: fmt.Sprintf("1..%d tracks of %d kinds x every sequence of %d packets (key of two units, inter, long)", nt, len(dumpKinds), d), Run: func(c *ex.C) {
				var kinds []string
				for n := 1 + c.Choose(nt); n > 0; n-- {
					kinds = append(kinds, dumpKinds[c.Choose(len(dumpKinds))])
				}
				withDumpDir(func(dir string) {
					path := filepath.Join(dir, "x")
					ts := dumpOnce(path, kinds, func(h *avformat.OnUnpackStream2FileHandler, ts []*dumpTrack) {
						seqs(c, ts, h, d)
					})
					checkDir(c, dir, path, ts)
				})
			}},
			{Name: "three-tracks", Bound: fmt.Sprintf("every order of three different kinds (length-prefixed video, Annex B video, audio) x every sequence of %d packets", d+1), Run: func(c *ex.C) {
				o := [][]string{{"h264-avcc", "aac", "h265-annexb"}, {"aac", "h264-avcc", "h265-annexb"}, {"pcma", "h265-avcc", "h264-annexb"}, {"h265-annexb", "h264-avcc", "aac"}}[c.Choose(4)]
				withDumpDir(func(dir string) {
					path := filepath.Join(dir, "d.ump")
					ts := dumpOnce(path, o, func(h *avformat.OnUnpackStream2FileHandler, ts []*dumpTrack) {
						seqs(c, ts, h, d+1)
					})
					checkDir(c, dir, path, ts)
				})
			}},
			{Name: "reused-directory", Bound: "a dump of 0..4 packets over an earlier dump of 0..4 packets of the same names, and two dumps side by side", Run: func(c *ex.C) {
				kinds := [][]string{{"h264-avcc", "aac"}, {"pcma"}, {"h265-annexb", "h264-annexb"}}[c.Choose(3)]
				side := c.Choose(2) == 1
				withDumpDir(func(dir string) {
					p1 := filepath.Join(dir, "x")
					p2 := p1
					if side {
						os.Mkdir(filepath.Join(dir, "y"), 0o700)
						p1 = filepath.Join(dir, "y", "x")
					}
					seq := func(h *avformat.OnUnpackStream2FileHandler, ts []*dumpTrack) {
						n := c.Choose(5)
						for i := 0; i < n; i++ {
							ts[i%len(ts)].packet(c, h, c.Choose(2)*2, i)
						}
					}
					var second []*dumpTrack
					first := dumpOnce(p1, kinds, func(h *avformat.OnUnpackStream2FileHandler, ts []*dumpTrack) {
						seq(h, ts)
						if side {
							second = dumpOnce(p2, kinds, seq)
							seq(h, ts)
						}
					})
					if !side {
						second = dumpOnce(p2, kinds, seq)
					} else {
						checkDir(c, filepath.Dir(p1), p1, first)
						os.RemoveAll(filepath.Join(dir, "y"))
					}
					checkDir(c, dir, p2, second)
				})
			}},
			{Name: "many", Bound: "1..12 tracks of one kind each in turn, 1..40 packets round robin", Run: func(c *ex.C) {
				n, k := 1+c.Choose(12), c.Choose(len(dumpKinds))
				np := 1 + c.Choose(40)
				var kinds []string
				for i := 0; i < n; i++ {
					kinds = append(kinds, dumpKinds[(k+i)%len(dumpKinds)])
				}
				withDumpDir(func(dir string) {
					path := filepath.Join(dir, "x")
					ts := dumpOnce(path, kinds, func(h *avformat.OnUnpackStream2FileHandler, ts []*dumpTrack) {
						for i := 0; i < np; i++ {
							ts[i*5%n].packet(c, h, i%3, i)
						}
					})
					checkDir(c, dir, path, ts)
				})
			}},
			{Name: "sizes", Bound: "each kind x a packet of 1 kB to 2 MB or of 70 to 8000 units x one of 1 kB, 64 kB or 3000 units, and a small key packet before, between or behind", Run: func(c *ex.C) {
				vs := []int{1000, 1 << 16, -3000, 1<<15 + 1, 1 << 18, 1<<20 + 5, 2<<20 + 9, -70, -8000}
				kind := dumpKinds[c.Choose(len(dumpKinds))]
				a, b, k := vs[c.Choose(len(vs))], vs[c.Choose(3)], c.Choose(3)
				withDumpDir(func(dir string) {
					path := filepath.Join(dir, "x")
					ts := dumpOnce(path, []string{kind}, func(h *avformat.OnUnpackStream2FileHandler, ts []*dumpTrack) {
						for i, v := range []int{a, b} {
							if k == i {
								ts[0].packet(c, h, 0, 10+i)
							}
							ts[0].packet(c, h, v, i)
						}
						if k == 2 {
							ts[0].packet(c, h, 0, 12)
						}
					})
					checkDir(c, dir, path, ts)
				})
			}},
			{Name: "flags", Bound: fmt.Sprintf("%d kinds x every sequence of %d packets of 5 kinds (key flag and IDR unit agreeing or not)", len(dumpKinds), d+1), Run: func(c *ex.C) {
				kinds := []string{dumpKinds[c.Choose(len(dumpKinds))]}
				withDumpDir(func(dir string) {
					path := filepath.Join(dir, "x")
					ts := dumpOnce(path, kinds, func(h *avformat.OnUnpackStream2FileHandler, ts []*dumpTrack) {
						for i := 0; i <= d; i++ {
							ts[0].packet(c, h, c.Choose(5), i)
						}
					})
					checkDir(c, dir, path, ts)
				})
			}},
			{Name: "timestamps", Bound: fmt.Sprintf("%d kinds x every sequence of 3 packets (key, inter, key flag on other units) x 6 timestamps each (zero, equal, falling, negative, far away, presented earlier), with and without a duration", len(dumpKinds)), Run: func(c *ex.C) {
				kinds := []string{dumpKinds[c.Choose(len(dumpKinds))]}
				dur := c.Bool()
				withDumpDir(func(dir string) {
					path := filepath.Join(dir, "x")
					ts := dumpOnce(path, kinds, func(h *avformat.OnUnpackStream2FileHandler, ts []*dumpTrack) {
						ts[0].stamp = func() (int64, int64, bool) {
							s := [][2]int64{{0, 0}, {40, 80}, {-40, 0}, {1 << 40, 1 << 40}, {80, 40}, {-1 << 33, 1 << 33}}[c.Choose(6)]
							c.Logf("decoded at %d, presented at %d", s[0], s[1])
							return s[0], s[1], dur
						}
						for i := 0; i < 3; i++ {
							ts[0].packet(c, h, []int{0, 1, 3}[c.Choose(3)], i)
						}
					})
					checkDir(c, dir, path, ts)
				})
			}},
			{Name: "output-failures", Bound: "two tracks of every pair of kinds, the output of one of them fails on every write or cannot be created; every sequence of 3 packets", Run: func(c *ex.C) {
				kinds := []string{dumpKinds[c.Choose(len(dumpKinds))], dumpKinds[c.Choose(len(dumpKinds))]}
				bad, create := c.Choose(2), c.Choose(2) == 1
				withDumpDir(func(dir string) {
					path := filepath.Join(dir, "x")
					name := dumpName(path, newDumpTrack(kinds[bad], bad).st)
					h := &avformat.OnUnpackStream2FileHandler{Path: path}
					defer func() { closeFiles(reflect.ValueOf(h).Elem()) }()
					if create {
						c.Logf("%s cannot be created", filepath.Base(name))
						if err := os.Mkdir(name, 0o700); err != nil {
							panic(err)
						}
					} else {
						c.Logf("%s cannot be written", filepath.Base(name))
						if err := os.Symlink("/dev/full", name); err != nil {
							panic(err)
						}
					}
					var ts []*dumpTrack
					for i, k := range kinds {
						t := newDumpTrack(k, i)
						ts = append(ts, t)
						failed := ex.Panics(func() { h.OnNewTrack(&avformat.SimpleTrack{Stream: t.st}) })
						if failed != (create && i == bad) {
							c.Failf("announcing track %d panicked: %v; its file can be created: %v", i, failed, !(create && i == bad))
						}
						if failed {
							return
						}
					}
					for i := 0; i < 3; i++ {
						k, v := c.Choose(2), c.Choose(3)
						failed := ex.Panics(func() { ts[k].packet(c, h, v, i) })
						if l, err := os.Readlink(name); k == bad && !failed && err == nil && l == "/dev/full" {
							c.Failf("a payload of track %d could not be written and this was not reported", k)
						}
						if k != bad && failed {
							c.Failf("a failing output of track %d made a packet of track %d fail", bad, k)
						}
					}
					ts[1-bad].check(c, path)
				})
			}},
			{Name: "names", Bound: "every media type and every codec identifier 0..0x21100: names are usable in a file name and pairwise different", Run: func(c *ex.C) {
				usable := func(n string) bool { return n != "" && !strings.ContainsAny(n, "./\x00") }
				seen := map[string]int{}
				for t := utils.AVMediaTypeUnknown; t <= utils.AVMediaTypeN; t++ {
					n := t.String()
					if o, ok := seen[n]; ok || !usable(n) {
						c.Failf("media type %d is named %q, as %d", t, n, o)
					}
					seen[n] = int(t)
					c.Step()
				}
				seen = map[string]int{}
				for k := 0; k <= 0x21100; k++ {
					n := utils.AVCodecID(k).String()
					if o, ok := seen[n]; ok || !usable(n) {
						c.Failf("codec %d is named %q, as %d: their dumps share a file", k, n, o)
					}
					seen[n] = k
					c.Step()
				}
			}},
			{Name: "none", Bound: "no track found: no file is created", Run: func(c *ex.C) {
				withDumpDir(func(dir string) {
					h := &avformat.OnUnpackStream2FileHandler{Path: filepath.Join(dir, "x")}
					h.OnTrackNotFind()
					checkDir(c, dir, "x", nil)
				})
			}},
		}
	}, Assumptions: []string{"a track's index is its position in the order of announcement", "payloads are well formed and hold no SEI units", "the target directory is writable, except where an output failure is explored", "the parameter sets may appear once or twice in front of a key packet"}})
}
