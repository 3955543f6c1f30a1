// Package vrand makes pseudo-random numbers arbitrary.
package vrand

import "github.com/unit-io/unitdb/zz_verif/vrt"

type Source interface{ Int63() int64 }
type src struct{}

func (src) Int63() int64 { return int64(vrt.U64("rand") >> 1) }

type Rand struct{}

func NewSource(seed int64) Source { return src{} }
func New(s Source) *Rand          { return &Rand{} }
func Seed(int64)                  {}

func Uint64() uint64       { return vrt.U64("rand") }
func Int63() int64         { return int64(vrt.U64("rand") >> 1) }
func Uint32() uint32       { return vrt.U32("rand") }
func Int31() int32         { return int32(vrt.U32("rand") >> 1) }
func Intn(n int) int       { return vrt.Int("rand", 0, n-1) }
func Int31n(n int32) int32 { return int32(vrt.Int("rand", 0, int(n)-1)) }
func Int63n(n int64) int64 { return int64(vrt.Int("rand", 0, int(n)-1)) }
func Int() int             { return int(vrt.U64("rand") >> 1) }
func Float64() float64     { return 0.5 }
func Read(p []byte) (int, error) {
	copy(p, vrt.Bytes("rand", len(p)))
	return len(p), nil
}

func (r *Rand) Uint64() uint64             { return Uint64() }
func (r *Rand) Int63() int64               { return Int63() }
func (r *Rand) Uint32() uint32             { return Uint32() }
func (r *Rand) Int31() int32               { return Int31() }
func (r *Rand) Intn(n int) int             { return Intn(n) }
func (r *Rand) Int31n(n int32) int32       { return Int31n(n) }
func (r *Rand) Int63n(n int64) int64       { return Int63n(n) }
func (r *Rand) Int() int                   { return Int() }
func (r *Rand) Float64() float64           { return 0.5 }
func (r *Rand) Read(p []byte) (int, error) { return Read(p) }
