package encoding

import "github.com/unit-io/unitdb/zz_verif/vrt"

// VerifBase32: every 32-byte and every 8-byte identifier survives encoding and decoding, and its
// text only uses the alphabet.
// @prop C18
// @bound 32-byte and 8-byte identifiers: all 2^256 and all 2^64 values
// @reach end
func VerifBase32() {
	id := vrt.Bytes("id", 32)
	txt := make([]byte, 52)
	Encode32(txt, id)
	for _, c := range txt {
		vrt.Assert(zzAlpha(c), "C18/alphabet")
	}
	back := make([]byte, 32)
	Decode32(back, txt)
	vrt.Assert(vrt.EqBytes(id, back), "C18/roundtrip32")

	id8 := vrt.Bytes("id8", 8)
	txt8 := make([]byte, 13)
	Encode8(txt8, id8)
	for _, c := range txt8 {
		vrt.Assert(zzAlpha(c), "C18/alphabet")
	}
	back8 := make([]byte, 8)
	Decode8(back8, txt8)
	vrt.Assert(vrt.EqBytes(id8, back8), "C18/roundtrip8")
	vrt.Reach("end")
}

func zzAlpha(c byte) bool {
	in := func(lo, hi byte) bool { return vrt.And(c >= lo, c <= hi) }
	return vrt.Or(vrt.Or(vrt.Or(in('A', 'Z'), in('a', 'z')), in('0', '9')), vrt.Or(c == '-', c == '_'))
}
