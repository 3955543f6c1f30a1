package filter

import (
	"github.com/unit-io/unitdb/zz_verif/vcrand"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// VerifBloom: a key that was added tests positive in the filter and in the filter read back from
// its bytes, whatever else was added before or after it.
// @prop C12
// @bound filters of 2, 64, 65 and 190 bits with 1 or 2 hash keys; message keys: all 2^64 values; one other key, added before or after
// @note the filter's random hash keys are arbitrary
// @reach end
func VerifBloom() {
	m := []uint64{2, 64, 65, 190}[vrt.Choose("m", 4)]
	k := uint64(vrt.Choose("k", 2) + 1)
	f := newFilter(m, k)
	k1 := vrt.U64("k1")
	k2 := vrt.U64("k2")
	if vrt.Choose("before", 2) == 1 {
		f.Add(k2)
		f.Add(k1)
	} else {
		f.Add(k1)
		f.Add(k2)
	}
	vrt.Assert(f.Test(k1), "C12/generator-no-false-negative")
	b := newFilterFromBytes(f.Bytes(), m, k)
	vrt.Assert(b.Test(k1), "C12/block-no-false-negative")
	vrt.Reach("end")
}

// VerifBloomFull: the same through the generator and block the database uses, full size.
// @prop C12
// @bound full-size filter (160000 bits, 7 hash keys), 12 fixed message keys at the edges of the key space, added in either order
// @reach full
func VerifBloomFull() {
	vcrand.Fixed = true
	keys := []uint64{0, 1, 63, 64, 159999, 160000, 160001, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	g := NewFilterGenerator()
	n := vrt.Choose("n", len(keys)) + 1
	rev := vrt.Choose("rev", 2) == 1
	at := func(i int) uint64 {
		if rev {
			return keys[len(keys)-1-i]
		}
		return keys[i]
	}
	for i := 0; i < n; i++ {
		g.Append(at(i))
	}
	b := NewFilterBlock(g.Finish())
	b2 := NewFilterBlock(g.Bytes())
	for i := 0; i < n; i++ {
		vrt.Assert(b.Test(at(i)), "C12/block-no-false-negative")
		vrt.Assert(b2.Test(at(i)), "C12/block-no-false-negative")
	}
	vrt.Reach("full")
}
