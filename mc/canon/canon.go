// Package canon computes a canonical 64-bit fingerprint of an object graph through reflection.
// Addresses are normalised by order of first visit, overlapping byte slices by their relative
// offset. The contents of []byte backing arrays are ignored (data independence: the code under
// test never branches on payload bytes; payload integrity is checked on every transition), their
// lengths, capacities and mutual positions are kept.
package canon

import (
	"reflect"
	"sort"
	"unsafe"
)

type hasher struct {
	h      uint64
	ptrs   map[uintptr]uint64
	ranges []rng

	contents bool
}

type rng struct{ lo, hi uintptr }

func (x *hasher) u(v uint64) {
	for i := 0; i < 8; i++ {
		x.h = (x.h ^ (v & 0xff)) * 1099511628211
		v >>= 8
	}
}

// Hash fingerprints the given roots in order.
func Hash(roots ...any) uint64 {
	x := &hasher{h: 14695981039346656037, ptrs: map[uintptr]uint64{}}
	for _, r := range roots {
		x.visit(reflect.ValueOf(r), 0)
	}
	return x.h
}

// HashContents is Hash with the contents of byte slices (up to their capacity) included.
func HashContents(roots ...any) uint64 {
	x := &hasher{h: 14695981039346656037, ptrs: map[uintptr]uint64{}, contents: true}
	for _, r := range roots {
		x.visit(reflect.ValueOf(r), 0)
	}
	return x.h
}

func (x *hasher) bytes(v reflect.Value) {
	if x.contents && v.Cap() > 0 {
		for _, b := range unsafe.Slice((*byte)(v.UnsafePointer()), v.Cap()) {
			x.h = (x.h ^ uint64(b)) * 1099511628211
		}
	}
	x.u(uint64(v.Len()))
	x.u(uint64(v.Cap()))
	if v.Cap() == 0 {
		return
	}
	p := v.Pointer()
	for i, r := range x.ranges {
		if p >= r.lo && p < r.hi {
			x.u(uint64(i) + 1)
			x.u(uint64(p - r.lo))
			return
		}
	}
	x.ranges = append(x.ranges, rng{p, p + uintptr(v.Cap())})
	x.u(uint64(len(x.ranges)))
	x.u(0)
}

func (x *hasher) visit(v reflect.Value, depth int) {
	if !v.IsValid() {
		x.u(0)
		return
	}
	x.u(uint64(v.Kind()))
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			x.u(1)
		} else {
			x.u(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x.u(v.Uint())
	case reflect.Float32, reflect.Float64:
		x.u(uint64(v.Float()))
	case reflect.String:
		for _, b := range []byte(v.String()) {
			x.u(uint64(b))
		}
		x.u(uint64(v.Len()))
	case reflect.Ptr:
		if v.IsNil() {
			x.u(0)
			return
		}
		if id, ok := x.ptrs[v.Pointer()]; ok {
			x.u(id)
			return
		}
		id := uint64(len(x.ptrs) + 1)
		x.ptrs[v.Pointer()] = id
		x.u(id)
		x.visit(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			x.u(0)
			return
		}
		x.visit(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			x.visit(v.Field(i), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			x.u(0)
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			x.bytes(v)
			return
		}
		x.u(uint64(v.Len()))
		x.u(uint64(v.Cap()))
		for i := 0; i < v.Len(); i++ {
			x.visit(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			x.visit(v.Index(i), depth+1)
		}
	case reflect.Map:
		var hs []uint64
		for _, k := range v.MapKeys() {
			y := &hasher{h: 14695981039346656037, ptrs: map[uintptr]uint64{}}
			y.visit(k, 0)
			y.visit(v.MapIndex(k), 0)
			hs = append(hs, y.h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		for _, h := range hs {
			x.u(h)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			x.u(0)
		} else {
			x.u(1)
		}
	}
}
