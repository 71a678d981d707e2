// Package vsched is a cooperative scheduler: instrumented code runs one thread at a time and
// every switch is a choice of the explorer.
package vsched

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"
)

type thread struct {
	id    int
	wake  chan struct{}
	done  bool
	wait  func() bool // non-nil: blocked until it holds
	spin  int
	fresh bool
}

type abortT struct{}

// Bug is the panic value for a failure the scheduler itself detects.
type Bug struct{ Msg string }

type sched struct {
	threads []*thread
	cur     *thread
	abort   bool
	pv      any
	steps   int
	end     chan struct{}
}

var (
	// Choose and Dev are the explorer's choice functions while an execution is active.
	Choose, Dev func(n int) int
	s           *sched
	// Steps counts scheduling points of the current execution.
	Steps int
	// LastPooled makes pools hand out the object freed last instead of asking the explorer.
	LastPooled bool
)

const (
	maxSteps = 200000
	maxSpin  = 300
)

func (t *thread) runnable() bool { return !t.done && (t.wait == nil || t.wait()) }

func (s *sched) others() (r []*thread) {
	for _, t := range s.threads {
		if t != s.cur && t.runnable() {
			r = append(r, t)
		}
	}
	return
}

func (s *sched) switchTo(t *thread) {
	me := s.cur
	me.spin = 0
	s.cur = t
	t.wake <- struct{}{}
	<-me.wake
	if s.abort {
		panic(abortT{})
	}
}

// Yield is a scheduling point before a statement.
func Yield() {
	point()
	if s != nil {
		s.cur.fresh = true
	}
}

// Atomic is a scheduling point before an atomic operation; directly after the one of its
// statement it adds nothing.
func Atomic() {
	if s != nil && s.cur.fresh && !s.abort {
		s.cur.fresh = false
		return
	}
	point()
	if s != nil {
		s.cur.fresh = false
	}
}

func point() {
	if s == nil {
		return
	}
	if s.abort {
		panic(abortT{})
	}
	Steps++
	s.steps++
	if s.steps > maxSteps {
		panic(Bug{"the threads do not terminate"})
	}
	o := s.others()
	if len(o) == 0 {
		return
	}
	s.cur.spin++
	if s.cur.spin > maxSpin {
		s.switchTo(o[0])
		return
	}
	if k := Dev(1 + len(o)); k > 0 {
		s.switchTo(o[k-1])
	}
}

// Block waits until cond holds.
func Block(cond func() bool) {
	if s == nil {
		if !cond() {
			panic(Bug{"a single thread blocks forever"})
		}
		return
	}
	for !cond() {
		me := s.cur
		me.wait = cond
		o := s.others()
		if len(o) == 0 {
			panic(Bug{"deadlock"})
		}
		s.switchTo(o[Choose(len(o))])
		me.wait = nil
	}
}

// Active tells whether threads are being scheduled.
func Active() bool { return s != nil }

func (s *sched) body(t *thread, f func()) {
	<-t.wake
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abortT); !ok && s.pv == nil {
				s.pv = p
			}
			s.abort = true
		}
		t.done = true
		if s.abort {
			for _, o := range s.threads {
				if !o.done {
					s.cur = o
					o.wake <- struct{}{}
					return
				}
			}
			s.end <- struct{}{}
			return
		}
		o := s.others()
		if len(o) == 0 {
			for _, x := range s.threads {
				if !x.done {
					s.pv, s.abort, s.cur = Bug{"deadlock"}, true, x
					x.wake <- struct{}{}
					return
				}
			}
			s.end <- struct{}{}
			return
		}
		k := 0
		if func() (bad bool) {
			defer func() {
				if p := recover(); p != nil {
					s.pv, s.abort, bad = p, true, true
				}
			}()
			k = Choose(len(o))
			return false
		}() {
			k = 0
		}
		s.cur = o[k]
		o[k].wake <- struct{}{}
	}()
	if s.abort {
		return
	}
	f()
}

// Run executes the bodies as threads and returns when all have ended; a panic of one of them is
// re-raised here.
func Run(bodies ...func()) {
	s = &sched{end: make(chan struct{}, 1)}
	for i := range bodies {
		s.threads = append(s.threads, &thread{id: i, wake: make(chan struct{}, 1)})
	}
	x := s
	for i, f := range bodies {
		go x.body(x.threads[i], f)
	}
	k := 0
	if len(bodies) > 1 {
		k = Choose(len(bodies))
	}
	s.cur = s.threads[k]
	s.cur.wake <- struct{}{}
	<-s.end
	s = nil
	if x.pv != nil {
		panic(x.pv)
	}
}

// Go starts a thread of the code under test.
func Go(f func()) {
	if s == nil {
		f()
		return
	}
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	go s.body(t, f)
	Yield()
}

// ---- package-level variables of the code under test, restored before every execution ----

// region is a piece of memory reachable from a package-level variable: a variable, what a pointer
// points to, the elements of a slice up to its capacity, or a map.
type region struct {
	v     reflect.Value // addressable; a map value for maps
	saved reflect.Value
	elems bool            // v is a slice whose elements are saved
	keys  []reflect.Value // of a map
	vals  []reflect.Value
}

var (
	roots    []reflect.Value
	regions  []*region
	restored bool
)

// Global registers a package-level variable.
func Global(p any) bool {
	if !restored {
		roots = append(roots, reflect.ValueOf(p).Elem())
	}
	return true
}

// own tells whether the memory of values of this type is saved: not the insides of other
// packages' types.
func own(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.HasPrefix(p, "github.com/lkmio/avformat") || strings.HasPrefix(p, "vshim/")
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

var seen = map[visit]bool{}

func saveAt(v reflect.Value) {
	k := visit{v.Addr().UnsafePointer(), v.Type(), -1}
	if seen[k] {
		return
	}
	seen[k] = true
	r := &region{v: v, saved: reflect.New(v.Type()).Elem()}
	r.saved.Set(v)
	regions = append(regions, r)
	follow(v)
}

// follow saves the memory v refers to; v itself is addressable.
func follow(v reflect.Value) {
	if !own(v.Type()) {
		return
	}
	if v.CanAddr() && !v.CanSet() { // an unexported field
		v = reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			follow(v.Field(i))
		}
	case reflect.Array:
		if scalar(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			follow(v.Index(i))
		}
	case reflect.Pointer:
		if !v.IsNil() && own(v.Type().Elem()) {
			saveAt(v.Elem())
		}
	case reflect.Interface:
		if e := v.Elem(); e.IsValid() && e.CanInterface() {
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			follow(c)
		}
	case reflect.Slice:
		if v.Cap() == 0 || !own(v.Type().Elem()) {
			return
		}
		w := v.Slice3(0, v.Cap(), v.Cap())
		k := visit{v.UnsafePointer(), v.Type(), v.Cap()}
		if seen[k] {
			return
		}
		seen[k] = true
		c := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
		reflect.Copy(c, w)
		regions = append(regions, &region{v: w, saved: c, elems: true})
		if !scalar(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				follow(v.Index(i))
			}
		}
	case reflect.Map:
		k := visit{v.UnsafePointer(), v.Type(), -1}
		if v.IsNil() || seen[k] {
			return
		}
		seen[k] = true
		m := reflect.New(v.Type()).Elem()
		m.Set(v)
		r := &region{v: m}
		for it := v.MapRange(); it.Next(); {
			r.keys, r.vals = append(r.keys, it.Key()), append(r.vals, it.Value())
			c := reflect.New(it.Value().Type()).Elem()
			c.Set(it.Value())
			follow(c)
		}
		regions = append(regions, r)
	}
}

func scalar(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map, reflect.Struct, reflect.Array:
		return false
	}
	return true
}

func (r *region) restore() {
	switch {
	case r.elems:
		reflect.Copy(r.v, r.saved)
	case r.v.Kind() == reflect.Map && !r.saved.IsValid():
		if same := r.v.Len() == len(r.keys); !same || len(r.keys) < 64 {
			r.v.Clear()
			for i, k := range r.keys {
				r.v.SetMapIndex(k, r.vals[i])
			}
		}
	default:
		r.v.Set(r.saved)
	}
}

// Restore sets every registered variable, and the memory of the code under test reachable from
// it, to its value at the first call.
func Restore() {
	if !restored {
		restored = true
		for _, v := range roots {
			saveAt(v)
		}
	} else {
		for _, r := range regions {
			r.restore()
		}
	}
	s = nil
	Steps = 0
}

func (b Bug) String() string { return fmt.Sprint(b.Msg) }
