package drive

import (
	"cmp"
	"math"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"unsafe"

	"github.com/yusank/godis/zzverif/registry"
)

// HeapHash is a 128-bit digest of everything reachable from the package variables of the code under test,
// up to renaming of addresses: pointer structure (aliasing, interior pointers, cycles) is part of the digest.
type HeapHash [2]uint64

type walker struct {
	a, b  uint64
	ids   map[uintptr]int
	spans map[reflect.Type][]span // by pointed-to type: the struct objects that contain such a value
	roots []any
	want  reflect.Type
	found []span
	seen  map[uintptr]bool
}

type span struct {
	lo, hi uintptr
	v      reflect.Value
}

func (w *walker) u(x uint64) {
	w.a = (w.a ^ x) * 0x9E3779B97F4A7C15
	w.a ^= w.a >> 29
	w.b = (w.b+x)*0xC2B2AE3D27D4EB4F + 0x165667B19E3779F9
	w.b ^= w.b >> 31
}

func (w *walker) str(s string) {
	w.u(uint64(len(s)) + 0x1000)
	i := 0
	for ; i+8 <= len(s); i += 8 {
		w.u(*(*uint64)(unsafe.Pointer(unsafe.StringData(s[i:]))))
	}
	var t uint64
	for ; i < len(s); i++ {
		t = t<<8 | uint64(s[i])
	}
	w.u(t)
}

var (
	replacerType = reflect.TypeOf(strings.Replacer{})
	regexpType   = reflect.TypeOf(regexp.Regexp{})
)

var roots []any

func rootVars() []any {
	if roots == nil {
		for _, p := range registry.Pkgs {
			if len(p.Path) >= 7 && p.Path[:7] == "zzverif" {
				continue // main packages
			}
			for _, v := range p.Vars() {
				t := reflect.TypeOf(v).Elem()
				if t.Kind() == reflect.Map && t.Elem().Kind() == reflect.Func {
					continue
				}
				if t.Kind() == reflect.Func {
					continue
				}
				roots = append(roots, v)
			}
		}
	}
	return roots
}

// Hash digests the current heap.
func Hash() HeapHash {
	w := &walker{ids: make(map[uintptr]int, 256), roots: rootVars()}
	for _, r := range w.roots {
		w.value(reflect.ValueOf(r).Elem())
	}
	return HeapHash{w.a, w.b}
}

func (w *walker) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w.u(1)
		} else {
			w.u(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.u(uint64(v.Int()) + 3)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.u(v.Uint() + 5)
	case reflect.Float32, reflect.Float64:
		w.u(math.Float64bits(v.Float()))
	case reflect.String:
		w.str(v.String())
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if v.IsNil() {
			w.u(7)
		} else {
			w.u(8)
		}
	case reflect.Struct:
		for i, n := 0, v.NumField(); i < n; i++ {
			w.value(v.Field(i))
		}
	case reflect.Array:
		for i, n := 0, v.Len(); i < n; i++ {
			w.value(v.Index(i))
		}
	case reflect.Interface:
		if v.IsNil() {
			w.u(9)
			return
		}
		e := v.Elem()
		w.str(e.Type().String())
		w.value(e)
	case reflect.Pointer:
		w.pointer(v)
	case reflect.Slice:
		if v.IsNil() {
			w.u(10)
			return
		}
		n := v.Len()
		w.u(uint64(n) + 11)
		if n > 0 && v.Cap() > 0 {
			p := v.Pointer()
			if id, ok := w.ids[p]; ok {
				w.u(uint64(id) + 0x5000)
			} else {
				w.ids[p] = len(w.ids)
			}
			if v.Type().Elem().Kind() == reflect.Uint8 {
				w.str(string(v.Bytes()))
				return
			}
			for i := 0; i < n; i++ {
				w.value(v.Index(i))
			}
		}
	case reflect.Map:
		w.mapv(v)
	default:
		w.u(99)
	}
}

func (w *walker) mapv(v reflect.Value) {
	if v.IsNil() {
		w.u(12)
		return
	}
	n := v.Len()
	w.u(uint64(n) + 13)
	if n == 0 {
		return
	}
	p := v.Pointer()
	if id, ok := w.ids[p]; ok {
		w.u(uint64(id) + 0x6000)
		return
	}
	w.ids[p] = len(w.ids)
	keys := v.MapKeys()
	if n > 1 {
		switch v.Type().Key().Kind() {
		case reflect.String:
			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
			sort.Slice(keys, func(i, j int) bool { return keys[i].Int() < keys[j].Int() })
		case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint8, reflect.Uint16:
			sort.Slice(keys, func(i, j int) bool { return keys[i].Uint() < keys[j].Uint() })
		default:
			// keys without a canonical order: digest as an unordered set of (key, value) digests
			var sa, sb uint64
			for _, k := range keys {
				s := &walker{ids: map[uintptr]int{}, roots: w.roots}
				s.value(k)
				s.value(v.MapIndex(k))
				sa += s.a
				sb += s.b
			}
			w.u(sa)
			w.u(sb)
			return
		}
	}
	for _, k := range keys {
		w.value(k)
		w.value(v.MapIndex(k))
	}
}

func (w *walker) pointer(v reflect.Value) {
	if v.IsNil() {
		w.u(14)
		return
	}
	p := v.Pointer()
	et := v.Type().Elem()
	if et.Size() == 0 || et == replacerType || et == regexpType { // immutable, but built lazily inside
		w.u(16)
		return
	}
	if et.Kind() != reflect.Struct {
		// may point into a larger object
		if s := find(w.collect(et), p, et.Size()); s != nil {
			w.u(uint64(p-s.lo) + 0x7000)
			w.object(s.lo, s.v)
			return
		}
	}
	w.object(p, v.Elem())
}

func (w *walker) object(p uintptr, e reflect.Value) {
	if id, ok := w.ids[p]; ok {
		w.u(uint64(id) + 0x8000)
		return
	}
	w.ids[p] = len(w.ids)
	w.u(15)
	w.value(e)
}

func find(spans []span, p, size uintptr) *span {
	i := sort.Search(len(spans), func(i int) bool { return spans[i].lo > p }) - 1
	if i < 0 {
		return nil
	}
	s := &spans[i]
	if p >= s.lo && p+size <= s.hi && s.hi-s.lo > size {
		return s
	}
	return nil
}

var containMemo = map[reflect.Type]map[reflect.Type]bool{}

// contains tells whether a value of type et lies inside a struct of type st.
func contains(st, et reflect.Type) bool {
	memo := containMemo[et]
	if memo == nil {
		memo = map[reflect.Type]bool{}
		containMemo[et] = memo
	}
	if r, ok := memo[st]; ok {
		return r
	}
	r := false
	for i := 0; i < st.NumField() && !r; i++ {
		f := st.Field(i).Type
		for f != et && f.Kind() == reflect.Array {
			f = f.Elem()
		}
		r = f == et || f.Kind() == reflect.Struct && contains(f, et)
	}
	memo[st] = r
	return r
}

// collect finds every struct object reachable through pointers that contains a value of type et.
func (w *walker) collect(et reflect.Type) []span {
	if s, ok := w.spans[et]; ok {
		return s
	}
	if w.spans == nil {
		w.spans = map[reflect.Type][]span{}
	}
	w.seen = make(map[uintptr]bool, 256)
	w.want = et
	w.found = nil
	for _, r := range w.roots {
		w.gather(reflect.ValueOf(r).Elem())
	}
	slices.SortFunc(w.found, func(a, b span) int {
		if a.lo != b.lo {
			return cmp.Compare(a.lo, b.lo)
		}
		return cmp.Compare(b.hi, a.hi)
	})
	// keep maximal spans only
	out := w.found[:0]
	for _, s := range w.found {
		if len(out) > 0 && s.hi <= out[len(out)-1].hi {
			continue
		}
		out = append(out, s)
	}
	w.spans[et] = out
	return out
}

func (w *walker) gather(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i, n := 0, v.NumField(); i < n; i++ {
			w.gather(v.Field(i))
		}
	case reflect.Array:
		if k := v.Type().Elem().Kind(); k >= reflect.Bool && k <= reflect.Float64 || k == reflect.String {
			return
		}
		for i, n := 0, v.Len(); i < n; i++ {
			w.gather(v.Index(i))
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		if k := v.Type().Elem().Kind(); k >= reflect.Bool && k <= reflect.Float64 || k == reflect.String {
			return
		}
		if w.seen[v.Pointer()] {
			return
		}
		w.seen[v.Pointer()] = true
		for i, n := 0, v.Len(); i < n; i++ {
			w.gather(v.Index(i))
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.gather(v.Elem())
		}
	case reflect.Map:
		if v.Len() == 0 || w.seen[v.Pointer()] {
			return
		}
		w.seen[v.Pointer()] = true
		it := v.MapRange()
		for it.Next() {
			w.gather(it.Value())
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		p := v.Pointer()
		et := v.Type().Elem()
		if et.Kind() != reflect.Struct {
			if !w.seen[p] && et.Kind() > reflect.Float64 && et.Kind() != reflect.String {
				w.seen[p] = true
				w.gather(v.Elem())
			}
			return
		}
		if w.seen[p] {
			return
		}
		w.seen[p] = true
		if contains(et, w.want) {
			w.found = append(w.found, span{p, p + et.Size(), v.Elem()})
		}
		w.gather(v.Elem())
	}
}
