package hash

import "github.com/unit-io/unitdb/zz_verif/vrt"

// VerifTopicHash: the topic hash depends on every byte of the topic and leaves the topic as it is.
// @prop C23
// @bound texts of 1, 2, 3 and 9 (thorough 1..10) arbitrary bytes under 2 salts; another text that differs in one byte anywhere
// @reach end
func VerifTopicHash() {
	salt := []uint32{0, 3376684800}[vrt.Choose("salt", 2)]
	n := []int{1, 2, 3, 9}[vrt.Choose("n", 4)]
	if vrt.Thorough() {
		n = 1 + vrt.Choose("len", 10)
	}
	a := vrt.Bytes("a", n)
	b := append([]byte(nil), a...)
	i := vrt.Choose("at", n)
	x := vrt.U8("x")
	vrt.Assume(x != a[i])
	b[i] = x
	keep := append([]byte(nil), a...)
	ha := WithSalt(a, salt)
	vrt.Assert(vrt.EqBytes(a, keep), "C23/hash-changes-text")
	vrt.Assert(WithSalt(append([]byte(nil), a...), salt) == ha, "C23/hash-differs-for-same-text")
	vrt.Assert(WithSalt(b, salt) != ha, "C23/byte-ignored")
	vrt.Reach("end")
}
