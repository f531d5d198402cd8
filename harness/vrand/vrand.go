package vrand

import (
	x "math/rand"

	"github.com/yusank/godis/zzverif/vsched"
)

func Int() int             { return vsched.Rand.Int() }
func Intn(n int) int       { return int(vsched.Intn(int64(n))) }
func Int31() int32         { return vsched.Rand.Int31() }
func Int31n(n int32) int32 { return int32(vsched.Intn(int64(n))) }
func Int63() int64         { return vsched.Rand.Int63() }
func Int63n(n int64) int64 { return vsched.Intn(n) }
func Uint32() uint32       { return vsched.Rand.Uint32() }
func Uint64() uint64       { return vsched.Rand.Uint64() }
func Float64() float64 {
	f := float64(vsched.Rand.Int63()>>10) / (1 << 53)
	return f
}
func Float32() float32           { return float32(vsched.Rand.Int63()>>39) / (1 << 24) }
func NormFloat64() float64       { return 0 }
func ExpFloat64() float64        { return 1 }
func Seed(int64)                 {}
func Read(p []byte) (int, error) { return len(p), nil }
func NewSource(int64) x.Source   { return vsched.NewSource() }
func New(x.Source) *x.Rand       { return vsched.Rand }
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
