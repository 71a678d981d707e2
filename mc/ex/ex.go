// Package ex is the exploration engine: exhaustive depth-first enumeration of choice trees
// (operation sequences, input shapes, environment answers, schedules) and breadth-first search
// over canonical states, both driving the real code and comparing it with a reference model.
package ex

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is the panic value used by an oracle.
type Violation struct{ Msg string }

type skip struct{}

// C is the context of one execution.
type C struct {
	path    []int // choices to follow; afterwards choice 0 is taken
	choices []int
	widths  []int
	limit   int // choices at positions >= limit are forced to 0 (used to split work); -1: none
	devs    int
	MaxDev  int
	tracing bool
	trace   []string
	w       *worker
	steps   int64
	Tier    string

	diverged bool
}

// Choose picks one of n alternatives; all of them are eventually explored.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic("ex: Choose(0)")
	}
	i := len(c.choices)
	v := 0
	if i < len(c.path) {
		v = c.path[i]
		if v >= n {
			// the code under test behaves differently from run to run; the tree is still left in finite time
			v = n - 1
			c.diverged = true
		}
	}
	c.choices = append(c.choices, v)
	c.widths = append(c.widths, n)
	return v
}

// Dev picks one of n alternatives where every alternative other than 0 costs one deviation.
func (c *C) Dev(n int) int {
	if c.devs >= c.MaxDev {
		return 0
	}
	v := c.Choose(n)
	if v != 0 {
		c.devs++
	}
	return v
}

// Bool explores both values, false first.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Logf records a human-readable step (only when replaying).
func (c *C) Logf(f string, a ...any) {
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

func (c *C) Tracing() bool { return c.tracing }

// Failf reports a violation of the property.
func (c *C) Failf(f string, a ...any) { panic(Violation{fmt.Sprintf(f, a...)}) }

// Skip abandons this execution (outside the property's domain).
func (c *C) Skip() { panic(skip{}) }

// Step counts one transition of the system under test.
func (c *C) Step() { c.steps++ }

// Steps counts n transitions.
func (c *C) Steps(n int) { c.steps += int64(n) }

// State counts a distinct state.
func (c *C) State(h uint64) {
	if c.w != nil && len(c.w.states) < maxStates {
		c.w.states[h] = struct{}{}
	}
}

// Outcome counts a distinct observed outcome.
func (c *C) Outcome(s string) {
	if c.w != nil && len(c.w.outcomes) < 1<<16 {
		c.w.outcomes[s]++
	}
}

// KnownKeys are the finding keys listed for the property under check.
var KnownKeys = map[string]string{}

// FailKey reports a violation unless a finding with exactly this key is listed, in which case
// the execution is counted under that key and abandoned.
func (c *C) FailKey(key, f string, a ...any) {
	if _, ok := KnownKeys[key]; ok {
		if c.w != nil {
			c.w.known[key]++
		}
		panic(skip{})
	}
	panic(Violation{fmt.Sprintf("[%s] ", key) + fmt.Sprintf(f, a...)})
}

const maxStates = 1 << 21

type worker struct {
	states   map[uint64]struct{}
	outcomes map[string]int64
	known    map[string]int64
	mu       sync.Mutex
	cur      []int
	start    atomic.Int64 // unix nano of the current execution, 0 when idle
	cpu0     atomic.Int64
}

// Space is one bounded space of a property.
type Space struct {
	Name   string
	Bound  string
	Run    func(*C) // choice-tree space
	BFS    *BFS     // or state space
	Serial bool     // must run single-threaded (global scheduler)
	MaxDev int
	// Post is evaluated after the whole space was explored (reachability oracles).
	Post  func(r *Result) string
	Reset func() // called before exploration starts
}

// Result of exploring one space.
type Result struct {
	Name        string           `json:"space"`
	Bound       string           `json:"bound"`
	Executions  int64            `json:"executions"`
	Nodes       int64            `json:"choice_tree_nodes"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Skipped     int64            `json:"outside_domain"`
	MaxDepth    int              `json:"max_choices"`
	Exhaustive  bool             `json:"exhaustive"`
	Outcomes    map[string]int64 `json:"-"`
	NOutcomes   int              `json:"distinct_outcomes"`
	Known       map[string]int64 `json:"known_findings,omitempty"`
	Samples     []string         `json:"-"`
	Rest        [][]int          `json:"-"`
	Diverged    int64            `json:"not_repeatable,omitempty"`
	Wall        float64          `json:"wall_s"`
	V           *Found           `json:"-"`
}

// Found is a violation with its replay.
type Found struct {
	Property string   `json:"property"`
	Space    string   `json:"space"`
	Kind     string   `json:"kind"` // choices | history
	Path     []int    `json:"path"`
	Msg      string   `json:"message"`
	Trace    []string `json:"trace"`
	Repro    string   `json:"reproduced"`
}

// RunShards explores parts of a serial space in processes of their own; ShardJobs are the choice
// prefixes such a process explores.
var (
	RunShards    func(space string, parts [][][]int, quantum time.Duration) []*Result
	ShardJobs    [][]int
	ShardQuantum time.Duration
)

var Workers = runtime.NumCPU()

// Deadline of the whole check; exploration stops there with exhaustive=false.
var Deadline time.Time

func expired() bool { return late.Load() || !Deadline.IsZero() && time.Now().After(Deadline) }

// late is set when the deadline passes: cheap enough to be read before every execution.
var late atomic.Bool

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// runOne executes the harness once. Returned violation is nil if the property held.
func runOne(sp *Space, c *C) (v *Violation, skipped bool) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case Violation:
				v = &x
			case skip:
				skipped = true
			case string:
				if strings.HasPrefix(x, "ex: ") {
					panic(e)
				}
				v = &Violation{fmt.Sprintf("unexpected panic: %v%s", e, where())}
			default:
				v = &Violation{fmt.Sprintf("unexpected panic: %v%s", e, where())}
			}
		}
	}()
	sp.Run(c)
	return
}

func where() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/repo/") || strings.HasPrefix(l, "github.com/lkmio/avformat") {
			return " at " + l
		}
	}
	return ""
}

func (s *Space) exec(w *worker, path []int, tracing bool, maxDev int) (*C, *Violation, bool) {
	c := &C{path: path, limit: -1, MaxDev: maxDev, tracing: tracing, w: w}
	v, sk := runOne(s, c)
	return c, v, sk
}

func next(c *C, floor int) []int {
	for i := len(c.choices) - 1; i >= floor; i-- {
		if c.choices[i]+1 < c.widths[i] {
			p := make([]int, i+1)
			copy(p, c.choices[:i])
			p[i] = c.choices[i] + 1
			return p
		}
	}
	return nil
}

type shared struct {
	mu    sync.Mutex
	found *Found
	stop  atomic.Bool
}

func (s *shared) report(f *Found) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.found == nil || len(f.Path) < len(s.found.Path) || (len(f.Path) == len(s.found.Path) && fmt.Sprint(f.Path) < fmt.Sprint(s.found.Path)) {
		s.found = f
	}
	s.stop.Store(true)
}

// Explore enumerates the whole space.
func Explore(prop string, sp *Space, onHang func(*Found)) *Result {
	t0 := time.Now()
	late.Store(expired())
	if !Deadline.IsZero() {
		t := time.AfterFunc(time.Until(Deadline), func() { late.Store(true) })
		defer t.Stop()
	}
	res := &Result{Name: sp.Name, Bound: sp.Bound, Outcomes: map[string]int64{}, Known: map[string]int64{}, Exhaustive: true}
	if sp.Reset != nil {
		sp.Reset()
	}
	nw := Workers
	if sp.Serial {
		nw = 1
	}
	ws := make([]*worker, nw)
	for i := range ws {
		ws[i] = &worker{states: map[uint64]struct{}{}, outcomes: map[string]int64{}, known: map[string]int64{}}
	}
	sh := &shared{}
	done := make(chan struct{})
	go watchdog(prop, sp, ws, done, onHang)
	go collector(ws, done)
	if sp.BFS != nil {
		sp.BFS.run(prop, sp, ws, sh, res)
	} else {
		exploreTree(prop, sp, ws, sh, res)
	}
	close(done)
	all := map[uint64]struct{}{}
	for _, w := range ws {
		for h := range w.states {
			all[h] = struct{}{}
		}
		for k, n := range w.outcomes {
			res.Outcomes[k] += n
		}
		for k, n := range w.known {
			res.Known[k] += n
		}
	}
	if sp.BFS == nil {
		res.States += int64(len(all))
	}
	res.NOutcomes = len(res.Outcomes)
	if sh.found != nil {
		res.V = sh.found
		res.Exhaustive = false
	} else if sp.Post != nil && res.Exhaustive {
		if m := sp.Post(res); m != "" {
			res.V = &Found{Property: prop, Space: sp.Name, Kind: "post", Msg: m}
		}
	}
	res.Wall = time.Since(t0).Seconds()
	return res
}

func exploreTree(prop string, sp *Space, ws []*worker, sh *shared, res *Result) {
	// split: enumerate all choice prefixes of length D (zeros after it) until there are enough
	jobs := [][]int{nil}
	shards := 1
	if sp.Serial && sp.Post == nil && RunShards != nil {
		shards = Workers
	}
	if ShardJobs != nil {
		jobs = ShardJobs
	} else if (len(ws) > 1 || shards > 1) && !late.Load() {
		began := time.Now()
		want := max(len(ws), shards) * 24
		for D := 1; D <= 16; D++ {
			cur, short, overflow := [][]int{}, true, false
			for path := []int{}; path != nil; {
				ws[0].begin(path)
				c, _, _ := sp.exec(nil, path, false, sp.MaxDev)
				ws[0].end()
				n := len(c.choices)
				if n > D {
					n, short = D, false
				}
				if D == 1 && n == 1 { // every value of the first choice, without running it
					for v := 0; v < c.widths[0]; v++ {
						cur = append(cur, []int{v})
					}
					short = false
					break
				}
				cur = append(cur, append([]int{}, c.choices[:n]...))
				if D > 1 && (len(cur) > 20000 || time.Since(began) > 5*time.Second) {
					overflow = true
					break
				}
				path = nil
				for i := n - 1; i >= 0; i-- {
					if c.choices[i]+1 < c.widths[i] {
						path = append(append([]int{}, c.choices[:i]...), c.choices[i]+1)
						break
					}
				}
			}
			if overflow {
				break
			}
			jobs = cur
			if short || len(jobs) >= want {
				break
			}
		}
	}
	if shards > 1 && len(jobs) >= shards {
		// the scheduler is global to a process: the space is shared out among processes
		// in rounds; what a process has left at the end of a round is shared out again
		quantum := 500 * time.Millisecond
		var rs []*Result
		for len(jobs) > 0 && !sh.stop.Load() && res.Exhaustive {
			parts := make([][][]int, min(shards, len(jobs)))
			for i, j := range jobs {
				parts[i%len(parts)] = append(parts[i%len(parts)], j)
			}
			jobs = nil
			for _, r := range RunShards(sp.Name, parts, quantum) {
				rs = append(rs, r)
				jobs = append(jobs, r.Rest...)
				res.Exhaustive = res.Exhaustive && r.Exhaustive
				if r.V != nil {
					sh.report(r.V)
				}
			}
			quantum = min(2*quantum, 10*time.Second)
		}
		for _, r := range rs {
			res.Executions += r.Executions
			res.Transitions += r.Transitions
			res.Skipped += r.Skipped
			res.Nodes += r.Nodes
			res.States += r.States
			res.Diverged += r.Diverged
			res.MaxDepth = max(res.MaxDepth, r.MaxDepth)
			for k, n := range r.Outcomes {
				ws[0].outcomes[k] += n
			}
			for k, n := range r.Known {
				ws[0].known[k] += n
			}
			if len(res.Samples) < 4 {
				res.Samples = append(res.Samples, r.Samples...)
			}
		}
		return
	}
	var idx, execs, trans, skipped, nodes, diverged atomic.Int64
	started := time.Now()
	var maxd int64
	var capped atomic.Bool
	var wg sync.WaitGroup
	var smu sync.Mutex
	for wi := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			var le, lt, ls, ld, ln int64
			defer func() {
				execs.Add(le)
				trans.Add(lt)
				skipped.Add(ls)
				nodes.Add(ln)
				smu.Lock()
				if ld > maxd {
					maxd = ld
				}
				smu.Unlock()
			}()
			for {
				k := int(idx.Add(1)) - 1
				if k >= len(jobs) || sh.stop.Load() {
					return
				}
				floor, path := len(jobs[k]), jobs[k]
				if floor > 0 && path[0] < 0 { // continues a subtree: see below
					floor, path = -path[0]-1, path[1:]
				}
				n := 0
				for {
					if sh.stop.Load() {
						return
					}
					if late.Load() {
						capped.Store(true)
						return
					}
					w.begin(path)
					c, v, sk := sp.exec(w, path, false, sp.MaxDev)
					w.end()
					n++
					le++
					lt += c.steps
					if c.diverged {
						diverged.Add(1)
					}
					if sk {
						ls++
					}
					if d := len(c.choices) - len(path); d >= 0 {
						ln += int64(d) + 1
					}
					if d := int64(len(c.choices)); d > ld {
						ld = d
					}
					if v != nil {
						sh.report(&Found{Property: prop, Space: sp.Name, Kind: "choices", Path: append([]int{}, c.choices...), Msg: v.Msg})
						return
					}
					if w == ws[0] && (le == 1 || le == 1000 || le == 100000) && len(res.Samples) < 4 {
						tc, _, _ := sp.exec(nil, c.choices, true, sp.MaxDev)
						smu.Lock()
						res.Samples = append(res.Samples, sp.Name+": "+strings.Join(tc.trace, "; "))
						smu.Unlock()
					}
					if n&15 == 0 && ShardQuantum > 0 && time.Since(started) > ShardQuantum {
						// the largest subtrees left become jobs of their own, the rest stays one job:
						// the level it goes up to (as -level-1), then the path it goes on with
						got := 0
						for ; floor < len(c.choices) && got < 16; floor++ {
							for v := c.choices[floor] + 1; v < c.widths[floor]; v++ {
								res.Rest = append(res.Rest, append(append([]int{}, c.choices[:floor]...), v))
								got++
							}
						}
						if p := next(c, floor); p != nil {
							res.Rest = append(res.Rest, append([]int{-floor - 1}, p...))
						}
						res.Rest = append(res.Rest, jobs[k+1:]...)
						return
					}
					path = next(c, floor)
					if path == nil {
						break
					}
				}
			}
		}(ws[wi])
	}
	wg.Wait()
	res.Executions = execs.Load()
	res.Transitions = trans.Load()
	res.Skipped = skipped.Load()
	res.Nodes = nodes.Load()
	res.MaxDepth = int(maxd)
	if res.Diverged = diverged.Load(); res.Diverged > 0 {
		res.Exhaustive = false
	}
	if capped.Load() {
		res.Exhaustive = false
	}
	if sh.found != nil {
		confirm(sp, sh.found)
	}
}

func (w *worker) begin(path []int) {
	for hold.Load() {
		w.start.Store(0)
		time.Sleep(100 * time.Microsecond)
	}
	w.mu.Lock()
	w.cur = path
	w.mu.Unlock()
	w.cpu0.Store(0)
	w.start.Store(time.Now().UnixNano())
}

func (w *worker) end() { w.start.Store(0) }

// hold keeps the workers between executions.
var hold atomic.Bool

// collector bounds the heap: a concurrent collection that gets too little CPU lets garbage pile up (everything
// allocated while it marks survives), so beyond a limit the workers are held between executions for a full one.
func collector(ws []*worker, done chan struct{}) {
	limit := uint64(1 << 30)
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	t := time.NewTicker(20 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-done:
			return
		case <-t.C:
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() < limit {
			continue
		}
		hold.Store(true)
		until := time.Now().Add(2 * time.Second) // a long execution is not waited for
		for _, w := range ws {
			for w.start.Load() != 0 && time.Now().Before(until) {
				time.Sleep(20 * time.Microsecond)
			}
		}
		runtime.GC()
		metrics.Read(sample)
		if l := 2 * sample[0].Value.Uint64(); l > limit {
			limit = l
		}
		hold.Store(false)
	}
}

// confirm replays the violation with tracing, five times.
func confirm(sp *Space, f *Found) {
	ok := 0
	for i := 0; i < 5; i++ {
		tc, v, _ := sp.exec(nil, f.Path, true, sp.MaxDev)
		if v != nil {
			ok++
			f.Trace = tc.trace
			f.Msg = v.Msg
		} else if f.Trace == nil {
			f.Trace = tc.trace
		}
	}
	f.Repro = fmt.Sprintf("%d/5", ok)
}

// watchdog turns a hanging or memory-eating execution into a violation.
func watchdog(prop string, sp *Space, ws []*worker, done chan struct{}, onHang func(*Found)) {
	t := time.NewTicker(2 * time.Second)
	defer t.Stop()
	for {
		select {
		case <-done:
			return
		case <-t.C:
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		now, cpu := time.Now().UnixNano(), cpuNow()
		for _, w := range ws {
			st := w.start.Load()
			if st == 0 {
				continue
			}
			if w.cpu0.Load() == 0 {
				w.cpu0.Store(cpu)
			}
			age := time.Duration(now - st)
			used := time.Duration(cpu - w.cpu0.Load())
			if (age > 45*time.Second && used > 45*time.Second) || (age > 3*time.Second && ms.HeapAlloc > 14<<30) {
				w.mu.Lock()
				p := append([]int{}, w.cur...)
				w.mu.Unlock()
				if w.start.Load() != st {
					continue
				}
				kind := "choices"
				if sp.BFS != nil {
					kind = "history"
				}
				onHang(&Found{Property: prop, Space: sp.Name, Kind: kind, Path: p, Msg: fmt.Sprintf("execution does not terminate (running for %v, heap %d MB)", age, ms.HeapAlloc>>20), Repro: "not replayed"})
			}
		}
	}
}

// BFS is an explicit-state search whose transitions run real code.
type BFS struct {
	New      func(c *C) any            // fresh real object + model
	Ops      func(s any) []int         // operations enabled in the model state
	Apply    func(c *C, s any, op int) // runs one op on both and checks the invariant
	Canon    func(s any) uint64        // canonical state
	OpName   func(op int) string
	MaxDepth int
}

func (b *BFS) replay(c *C, h []uint16) any {
	s := b.New(c)
	for _, o := range h {
		if c.tracing {
			c.Logf("%s", b.OpName(int(o)))
		}
		b.Apply(c, s, int(o))
	}
	return s
}

func (b *BFS) guarded(f func()) (v *Violation) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case Violation:
				v = &x
			default:
				v = &Violation{fmt.Sprintf("unexpected panic: %v%s", e, where())}
			}
		}
	}()
	f()
	return nil
}

func toInts(h []uint16) []int {
	r := make([]int, len(h))
	for i, x := range h {
		r[i] = int(x)
	}
	return r
}

func (b *BFS) run(prop string, sp *Space, ws []*worker, sh *shared, res *Result) {
	const shards = 64
	var seen [shards]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	for i := range seen {
		seen[i].m = map[uint64]struct{}{}
	}
	var nstates, trans, execs atomic.Int64
	add := func(h uint64) bool {
		s := &seen[h%shards]
		s.Lock()
		defer s.Unlock()
		if _, ok := s.m[h]; ok {
			return false
		}
		s.m[h] = struct{}{}
		nstates.Add(1)
		return true
	}
	c0 := &C{w: ws[0]}
	var root any
	if v := b.guarded(func() { root = b.New(c0) }); v != nil {
		sh.report(&Found{Property: prop, Space: sp.Name, Kind: "history", Path: nil, Msg: v.Msg})
		return
	}
	add(b.Canon(root))
	frontier := [][]uint16{{}}
	var capped atomic.Bool
	depth := 0
	limit := time.Now().Add(max(40*time.Second, time.Until(Deadline)/3)) // a space that does not close leaves time for the others
	for len(frontier) > 0 && depth < b.MaxDepth && !sh.stop.Load() && !capped.Load() {
		if expired() || !Deadline.IsZero() && time.Now().After(limit) {
			capped.Store(true)
			break
		}
		var nextF = make([][][]uint16, len(ws))
		var idx atomic.Int64
		var wg sync.WaitGroup
		for wi := range ws {
			wg.Add(1)
			go func(wi int) {
				defer wg.Done()
				w := ws[wi]
				for {
					k := int(idx.Add(1)) - 1
					if k >= len(frontier) || sh.stop.Load() || capped.Load() {
						return
					}
					if late.Load() || k&7 == 7 && (!Deadline.IsZero() && time.Now().After(limit)) {
						capped.Store(true)
						return
					}
					h := frontier[k]
					c := &C{w: w}
					var s any
					var ops []int
					w.begin(toInts(h))
					if v := b.guarded(func() { s = b.replay(c, h); ops = b.Ops(s) }); v != nil {
						sh.report(&Found{Property: prop, Space: sp.Name, Kind: "history", Path: toInts(h), Msg: "non-deterministic: " + v.Msg})
						return
					}
					for _, op := range ops {
						hist := append(append(make([]uint16, 0, len(h)+1), h...), uint16(op))
						w.begin(toInts(hist))
						var hash uint64
						c := &C{w: w}
						v := b.guarded(func() {
							if s == nil {
								s = b.replay(c, h)
							}
							t := s
							s = nil
							b.Apply(c, t, op)
							hash = b.Canon(t)
						})
						w.end()
						trans.Add(1)
						ne := execs.Add(1)
						if v != nil {
							sh.report(&Found{Property: prop, Space: sp.Name, Kind: "history", Path: toInts(hist), Msg: v.Msg})
							return
						}
						if add(hash) {
							nextF[wi] = append(nextF[wi], hist)
						}
						if ne == 5000 || ne == 100000 {
							var names []string
							for _, o := range hist {
								names = append(names, b.OpName(int(o)))
							}
							w.mu.Lock()
							res.Samples = append(res.Samples, sp.Name+": "+strings.Join(names, "; "))
							w.mu.Unlock()
						}
					}
					w.end()
				}
			}(wi)
		}
		wg.Wait()
		frontier = frontier[:0]
		for _, f := range nextF {
			frontier = append(frontier, f...)
		}
		if !capped.Load() {
			depth++
		}
	}
	res.States = nstates.Load()
	res.Transitions = trans.Load()
	res.Executions = execs.Load()
	res.MaxDepth = depth
	if capped.Load() {
		res.Exhaustive = false
	}
	if len(frontier) == 0 && !capped.Load() && sh.found == nil {
		res.Bound += fmt.Sprintf(" (search closed: all reachable states, longest shortest history %d)", depth)
	} else {
		res.Bound += fmt.Sprintf(" (histories up to %d operations)", depth)
	}
	if f := sh.found; f != nil {
		ok := 0
		for i := 0; i < 5; i++ {
			c := &C{tracing: true}
			v := b.guarded(func() {
				h := make([]uint16, len(f.Path))
				for j, x := range f.Path {
					h[j] = uint16(x)
				}
				b.replay(c, h)
			})
			if v != nil {
				ok++
				f.Trace, f.Msg = c.trace, v.Msg
			}
		}
		f.Repro = fmt.Sprintf("%d/5", ok)
	}
}

// Replay re-executes a stored violation and returns its message ("" if the property holds).
func Replay(sp *Space, f *Found) (string, []string) {
	if sp.Reset != nil {
		sp.Reset()
	}
	if f.Kind == "history" {
		c := &C{tracing: true}
		v := sp.BFS.guarded(func() {
			h := make([]uint16, len(f.Path))
			for j, x := range f.Path {
				h[j] = uint16(x)
			}
			sp.BFS.replay(c, h)
		})
		if v != nil {
			return v.Msg, c.trace
		}
		return "", c.trace
	}
	c, v, _ := sp.exec(nil, f.Path, true, sp.MaxDev)
	if v != nil {
		return v.Msg, c.trace
	}
	return "", c.trace
}

// WriteReplay stores the violation as an artefact and returns its path.
func WriteReplay(dir string, f *Found) string {
	os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	fmt.Fprint(h, f.Space, f.Path, f.Kind)
	p := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", f.Property, h.Sum32()))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

// Hash helpers.
type H uint64

func NewH() H { return 14695981039346656037 }
func (h H) U(x uint64) H {
	for i := 0; i < 8; i++ {
		h = (h ^ H(x&0xff)) * 1099511628211
		x >>= 8
	}
	return h
}
func (h H) I(x int) H { return h.U(uint64(x)) }
func (h H) B(b []byte) H {
	for _, x := range b {
		h = (h ^ H(x)) * 1099511628211
	}
	return h.U(uint64(len(b)))
}
func (h H) S(s string) H { return h.B([]byte(s)) }

// Panics runs f and reports whether it panicked (a refusal).
func Panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(Violation); ok {
				panic(e)
			}
			if s, ok := e.(string); ok && strings.HasPrefix(s, "ex: ") {
				panic(e)
			}
			p = true
		}
	}()
	f()
	return false
}

// PanicMsg is Panics returning the message.
func PanicMsg(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(Violation); ok {
				panic(e)
			}
			if s, ok := e.(string); ok && strings.HasPrefix(s, "ex: ") {
				panic(e)
			}
			msg = fmt.Sprint(e) + where()
		}
	}()
	f()
	return ""
}

func SortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
