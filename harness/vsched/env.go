package vsched

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
)

// ---- map iteration ----

// MapIter drives a range over a map in a deterministic order, rotated by an explorer choice.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapStart begins a range over m.
func MapStart[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return &MapIter[K, V]{m: m, keys: MapKeys(m)}, k, v
}

// Next advances to the next key that is still present.
func (i *MapIter[K, V]) Next(kp *K, vp *V) bool {
	for i.i < len(i.keys) {
		k := i.keys[i.i]
		i.i++
		v, ok := i.m[k]
		if !ok {
			continue
		}
		if kp != nil {
			*kp = k
		}
		if vp != nil {
			*vp = v
		}
		return true
	}
	return false
}

// MapKeys returns the keys in canonical order, rotated by an explorer choice.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		sort.Slice(keys, func(a, b int) bool { return less(keys[a], keys[b]) })
	}
	if n := len(keys); n > 1 && s != nil && s.cfg.MapOrder && !s.ending {
		opts := n
		if n == 2 {
			opts = 2
		}
		if k := Choose(opts, "maporder", 0); k > 0 {
			keys = append(append([]K{}, keys[k:]...), keys[:k]...)
		}
	}
	return keys
}

func less(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return va.Uint() < vb.Uint()
	case reflect.Float64, reflect.Float32:
		return va.Float() < vb.Float()
	}
	return fmt.Sprintf("%#v", a) < fmt.Sprintf("%#v", b)
}

// ---- randomness ----

type source struct{}

var (
	script  func(n int) bool
	scriptN int
)

// Script makes every following draw low exactly when f (given the number of the draw) says so; nil ends it.
func Script(f func(n int) bool) { script, scriptN = f, 0 }

// high is the high draw: all bits but one are set, so that every way to make a smaller number of it gives a high one,
// and that the fractions made of it are below one (math/rand draws again when they are not).
const high = 1<<63 - 1 - 1<<39

// RandInt63 is the controlled source: each draw is either extremely high (default) or extremely low.
func (source) Int63() int64 {
	r := s
	if r == nil || r.ending {
		return high
	}
	r.randN++
	if script != nil {
		scriptN++
		if script(scriptN) {
			return 0
		}
		return high
	}
	if r.randN > 64 {
		// a rejection loop that likes neither extreme gets a deterministic low-discrepancy sequence
		x := uint64(r.randN) * 0x9E3779B97F4A7C15
		return int64(x >> 1)
	}
	if r.randLow >= r.cfg.RandLow {
		return high
	}
	if Choose(2, "rand", r.cfg.RandCost) == 1 {
		r.randLow++
		return 0
	}
	return high
}
func (source) Uint64() uint64 {
	v := uint64(source{}.Int63())
	return v<<1 | v&1
}
func (source) Seed(int64) {}

// Rand is the controlled generator.
var Rand = rand.New(source{})

// Intn enumerates small ranges fully.
func Intn(n int64) int64 {
	r := s
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if r == nil || r.ending {
		return n - 1
	}
	r.randN++
	if script != nil {
		scriptN++
		if script(scriptN) {
			return 0
		}
		return n - 1
	}
	if r.cfg.RandLow == 0 {
		return (n - 1 + int64(r.randN)) % n
	}
	if n <= 6 && r.randN <= 8 {
		return n - 1 - int64(Choose(int(n), "randn", r.cfg.RandCost))
	}
	if r.randN <= 8 && Choose(2, "randn", r.cfg.RandCost) == 1 {
		return 0
	}
	if r.randN > 8 {
		return int64(uint64(r.randN) * 0x9E3779B97F4A7C15 >> 1 % uint64(n))
	}
	return n - 1
}

// NewSource returns the controlled source.
func NewSource() rand.Source { return source{} }
