package vrandv2

import (
	x "math/rand/v2"

	"github.com/yusank/godis/zzverif/vsched"
)

type Rand = x.Rand
type Source = x.Source

type src struct{}

func (src) Uint64() uint64         { return vsched.Rand.Uint64() }
func New(x.Source) *x.Rand         { return x.New(src{}) }
func NewPCG(a, b uint64) x.Source  { return src{} }
func NewChaCha8([32]byte) x.Source { return src{} }
func Int() int                     { return vsched.Rand.Int() }
func IntN(n int) int               { return int(vsched.Intn(int64(n))) }
func Int32() int32                 { return vsched.Rand.Int31() }
func Int32N(n int32) int32         { return int32(vsched.Intn(int64(n))) }
func Int64() int64                 { return vsched.Rand.Int63() }
func Int64N(n int64) int64         { return vsched.Intn(n) }
func Uint32() uint32               { return vsched.Rand.Uint32() }
func Uint64() uint64               { return vsched.Rand.Uint64() }
func UintN(n uint) uint            { return uint(vsched.Intn(int64(n))) }
func Uint32N(n uint32) uint32      { return uint32(vsched.Intn(int64(n))) }
func Uint64N(n uint64) uint64      { return uint64(vsched.Intn(int64(n))) }
func Float64() float64             { return float64(vsched.Rand.Int63()>>10) / (1 << 53) }
func Float32() float32             { return float32(vsched.Rand.Int63()>>39) / (1 << 24) }
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, IntN(i+1))
	}
}
