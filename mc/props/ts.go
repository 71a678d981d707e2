package props

import (
	"fmt"
	"math/bits"

	"github.com/lkmio/avformat"

	"verifmc/ex"
	"verifmc/run"
)

// refConvert is the exact rational ts*dst/src truncated toward zero, by 128-bit arithmetic.
func refConvert(ts int64, src, dst int) (int64, bool) {
	neg := ts < 0
	u := uint64(ts)
	if neg {
		u = -u
	}
	hi, lo := bits.Mul64(u, uint64(dst))
	if hi >= uint64(src) {
		return 0, false
	}
	q, _ := bits.Div64(hi, lo, uint64(src))
	if q > 1<<62 {
		return 0, false
	}
	if neg {
		return -int64(q), true
	}
	return int64(q), true
}

var timebases = []int{1, 2, 24, 25, 30, 50, 60, 90, 100, 600, 1000, 1001, 1200, 3600, 7350, 8000, 11025, 12000, 12800, 15360, 16000, 22050, 24000, 25000, 30000, 32000, 44100, 48000, 50000, 60000, 64000, 88200, 90000, 96000, 180000, 192000, 1000000, 10000000, 27000000, 1000000000}

func checkTs(c *ex.C, ts int64, src, dst int) {
	want, ok := refConvert(ts, src, dst)
	if !ok {
		return
	}
	c.Step()
	if got := avformat.ConvertTs(ts, src, dst); got != want {
		c.Failf("ConvertTs(%d, %d, %d) = %d, the exact quotient is %d", ts, src, dst, got, want)
	}
}

func init() {
	run.Register(&run.Prop{ID: "C24", Spaces: func(th bool) []*ex.Space {
		n := 40
		if th {
			n = 800
		}
		T := len(timebases)
		return []*ex.Space{
			{Name: "dense", Bound: fmt.Sprintf("all timestamps from -%d to %d x all %d pairs of time bases", n*500, n*500, T*T), Run: func(c *ex.C) {
				src, dst := timebases[c.Choose(T)], timebases[c.Choose(T)]
				blk := int64(c.Choose(n) - n/2)
				for ts := blk * 1000; ts < (blk+1)*1000; ts++ {
					checkTs(c, ts, src, dst)
				}
			}},
			{Name: "powers", Bound: fmt.Sprintf("2^k+d, -2^k-d for k to 50 and |d|<=%d, and multiples of every time base +-2 up to 30 days, for all pairs", n), Run: func(c *ex.C) {
				src, dst := timebases[c.Choose(T)], timebases[c.Choose(T)]
				k := c.Choose(51)
				for d := int64(-n); d <= int64(n); d++ {
					checkTs(c, int64(1)<<k+d, src, dst)
					checkTs(c, -(int64(1)<<k)-d, src, dst)
				}
				for _, s := range []int64{1, 59, 3599, 3600, 86399, 86400, 100000, 86400 * 7, 86400 * 30} {
					s += int64(k)
					for d := int64(-2); d <= 2; d++ {
						checkTs(c, s*int64(src)+d, src, dst)
						checkTs(c, -s*int64(src)+d, src, dst)
					}
				}
			}},
			{Name: "laws", Bound: "identity, monotonicity and round trip through multiples, 4001 timestamps around 0 and around 2^k for all pairs", Run: func(c *ex.C) {
				src, dst := timebases[c.Choose(T)], timebases[c.Choose(T)]
				base := []int64{0, 1 << 31, 1 << 33, -(1 << 33), 90000 * 86400}[c.Choose(5)]
				prev, has := int64(0), false
				for ts := base - 2000; ts <= base+2000; ts++ {
					if _, ok := refConvert(ts, src, dst); !ok {
						return
					}
					c.Step()
					v := avformat.ConvertTs(ts, src, dst)
					if src == dst && v != ts {
						c.Failf("ConvertTs(%d, %d, %d) = %d", ts, src, dst, v)
					}
					if has && v < prev {
						c.Failf("ConvertTs from %d to %d is not monotone at %d: %d after %d", src, dst, ts, v, prev)
					}
					prev, has = v, true
					if dst%src == 0 {
						if b := avformat.ConvertTs(v, dst, src); b != ts {
							c.Failf("%d at base %d becomes %d at base %d and %d back", ts, src, v, dst, b)
						}
					}
				}
			}},
			{Name: "packet", Bound: "packet conversions of dts, pts, their difference and duration: 12 values each x all pairs of time bases", Run: func(c *ex.C) {
				src, dst := timebases[c.Choose(T)], timebases[c.Choose(T)]
				vals := []int64{0, 1, -1, 33, 40, 3003, 3600, 90001, -3600, 1 << 33, 7776000001, -12345678}
				dts := vals[c.Choose(12)]
				for _, pts := range vals {
					for _, dur := range vals {
						pkt := &avformat.AVPacket{Dts: dts, Pts: pts, Duration: dur, Timebase: src}
						was := fmt.Sprint(*pkt)
						c.Step()
						for i, q := range []struct {
							name string
							in   int64
							out  int64
						}{{"ConvertDts", dts, pkt.ConvertDts(dst)}, {"ConvertPts", pts, pkt.ConvertPts(dst)}, {"GetDuration", dur, pkt.GetDuration(dst)}, {"GetPtsDtsDelta", pts - dts, pkt.GetPtsDtsDelta(dst)}} {
							if want, ok := refConvert(q.in, src, dst); ok && q.out != want {
								c.Failf("%s of dts %d pts %d duration %d from base %d to %d = %d, want %d (%d)", q.name, dts, pts, dur, src, dst, q.out, want, i)
							}
						}
						if pts == vals[0] && fmt.Sprint(*pkt) != was {
							c.Failf("a conversion modified the packet")
						}
					}
				}
			}},
		}
	}, Assumptions: []string{"time bases are positive and the result fits in 63 bits"}})
}
