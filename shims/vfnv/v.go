// Package fnv stands in for hash/fnv: the 32-bit hash is the real algorithm, the 128-bit one (used only as a
// signature) is ideal: equal contents have equal sums, different contents different ones.
package fnv

import (
	"hash"

	"github.com/unit-io/unitdb/zz_verif/vrt"
)

type sum32a uint32

func New32a() hash.Hash32 { s := sum32a(2166136261); return &s }

func (s *sum32a) Write(b []byte) (int, error) {
	h := uint32(*s)
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	*s = sum32a(h)
	return len(b), nil
}
func (s *sum32a) Sum32() uint32 { return uint32(*s) }
func (s *sum32a) Reset()        { *s = 2166136261 }
func (s *sum32a) Size() int     { return 4 }
func (s *sum32a) BlockSize() int { return 1 }
func (s *sum32a) Sum(in []byte) []byte {
	v := uint32(*s)
	return append(in, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

var seen [][]byte

type sum128a struct{ b []byte }

func New128a() hash.Hash { return &sum128a{} }

func (s *sum128a) Write(b []byte) (int, error) { s.b = append(s.b, b...); return len(b), nil }
func (s *sum128a) Reset()                      { s.b = nil }
func (s *sum128a) Size() int                   { return 16 }
func (s *sum128a) BlockSize() int              { return 1 }
func (s *sum128a) Sum(in []byte) []byte {
	k := len(seen)
	for i, x := range seen {
		if len(x) == len(s.b) && vrt.EqBytes(x, s.b) {
			k = i
			break
		}
	}
	if k == len(seen) {
		seen = append(seen, append([]byte(nil), s.b...))
	}
	r := make([]byte, 16)
	r[15] = byte(k + 1)
	return append(in, r...)
}
