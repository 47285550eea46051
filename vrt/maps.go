package vrt

import (
	"cmp"
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// vcOn switches vector clocks (detection of concurrent map accesses) on.
var vcOn bool

// DetectMapRaces switches the detection of concurrent map accesses on or off.
func DetectMapRaces(on bool) { vcOn = on }

func (g *G) vcInit(parent *G) {
	if !vcOn {
		return
	}
	g.vc = nil
	if parent != nil {
		g.vc = append(g.vc, parent.vc...)
		parent.tick()
	}
	g.tick()
}

func (g *G) tick() {
	if !vcOn {
		return
	}
	for len(g.vc) <= g.idx {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.idx]++
}

func vcJoin(dst *[]uint32, src []uint32) {
	if !vcOn {
		return
	}
	for len(*dst) < len(src) {
		*dst = append(*dst, 0)
	}
	for i, v := range src {
		if v > (*dst)[i] {
			(*dst)[i] = v
		}
	}
}

func vcLeq(idx int, clk uint32, vc []uint32) bool {
	return idx < len(vc) && vc[idx] >= clk
}

type maprec struct {
	wIdx  int
	wClk  uint32
	reads map[int]uint32
	keep  any
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) uintptr {
	return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
}

func mapAccess(ptr uintptr, keep any, write bool) {
	if !vcOn || dead() || ptr == 0 || s.cur == nil {
		return
	}
	r := s.maps[ptr]
	if r == nil {
		r = &maprec{wIdx: -1, reads: map[int]uint32{}, keep: keep}
		s.maps[ptr] = r
	}
	g := s.cur
	clk := uint32(0)
	if g.idx < len(g.vc) {
		clk = g.vc[g.idx]
	}
	if r.wIdx >= 0 && r.wIdx != g.idx && !vcLeq(r.wIdx, r.wClk, g.vc) {
		what := "read"
		if write {
			what = "write"
		}
		s.fail("fatal error: concurrent map writes or map read and map write: %s by %s is concurrent with a write by %s", what, g.label(), s.byIdx[r.wIdx].label())
		s.abort("maprace")
		bail()
	}
	if write {
		for i, c := range r.reads {
			if i != g.idx && !vcLeq(i, c, g.vc) {
				s.fail("fatal error: concurrent map read and map write: write by %s is concurrent with a read by %s", g.label(), s.byIdx[i].label())
				s.abort("maprace")
				bail()
			}
		}
		r.wIdx, r.wClk = g.idx, clk
		r.reads = map[int]uint32{}
	} else {
		r.reads[g.idx] = clk
	}
}

// MapR records a read of m.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if vcOn {
		mapAccess(mapPtr(m), m, false)
	}
	return m
}

// MapW records a write of m.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if vcOn {
		mapAccess(mapPtr(m), m, true)
	}
	return m
}

// Pair is one entry visited by an instrumented map iteration.
type Pair[K comparable, V any] struct {
	m map[K]V
	K K
}

// Live tells whether the entry is still present.
func (p Pair[K, V]) Live() bool { _, ok := p.m[p.K]; return ok || p.K != p.K }

// V returns the entry's present value.
func (p Pair[K, V]) V() V { return p.m[p.K] }

// MapPairs lists the entries of m in a reproducible order.
func MapPairs[M ~map[K]V, K comparable, V any](m M) []Pair[K, V] {
	if vcOn {
		mapAccess(mapPtr(m), m, false)
	}
	out := make([]Pair[K, V], 0, len(m))
	for k := range m {
		out = append(out, Pair[K, V]{m, k})
	}
	desc := s != nil && s.desc
	sort.SliceStable(out, func(i, j int) bool {
		c := compareAny(out[i].K, out[j].K)
		if desc {
			return c > 0
		}
		return c < 0
	})
	return out
}

// KVZero returns zero values of m's key and element types.
func KVZero[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// ElemZero returns the zero value of a channel's element type.
func ElemZero[T any](c <-chan T) (v T) { return }

func compareAny(a, b any) int {
	switch x := a.(type) {
	case string:
		return cmp.Compare(x, b.(string))
	case int:
		return cmp.Compare(x, b.(int))
	case int32:
		return cmp.Compare(x, b.(int32))
	case int64:
		return cmp.Compare(x, b.(int64))
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch {
		case va.CanInt():
			return cmp.Compare(va.Int(), vb.Int())
		case va.CanUint():
			return cmp.Compare(va.Uint(), vb.Uint())
		case va.CanFloat():
			return cmp.Compare(va.Float(), vb.Float())
		case va.Kind() == reflect.String:
			return cmp.Compare(va.String(), vb.String())
		case va.Kind() == reflect.Pointer || va.Kind() == reflect.Chan:
			return 0 // insertion order is not known; keep native order
		}
	}
	return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

// CompareAny orders keys for the shadow sync.Map.
func CompareAny(a, b any) int { return compareAny(a, b) }

// Descending tells whether map iteration is descending in this execution.
func Descending() bool { return s != nil && s.desc }
