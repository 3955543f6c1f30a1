package crypto

import "github.com/unit-io/unitdb/zz_verif/vrt"

// VerifMAC: decrypting an encrypted message returns it; a changed ciphertext never decrypts.
// @prop C19
// @bound messages of 0..12 bytes (thorough 0..20), every content; 32-byte key of arbitrary content; one byte changed anywhere, or the tail cut at any place
// @note the AEAD primitive is an ideal one: Open succeeds only on what Seal produced under the same key and nonce
// @reach end tampered cut wrongkey
func VerifMAC() {
	key := vrt.Bytes("key", 32)
	m, err := New(key)
	vrt.Assert(err == nil, "C19/new")
	max := 13
	if vrt.Thorough() {
		max = 21
	}
	n := vrt.Choose("n", max)
	src := vrt.Bytes("src", n)
	orig := append([]byte(nil), src...)
	enc := m.Encrypt(nil, src)
	vrt.Assert(vrt.EqBytes(src, orig), "C19/encrypt-keeps-source")
	kept := append([]byte(nil), enc...)
	switch vrt.Choose("case", 4) {
	case 0:
		m2, _ := New(append([]byte(nil), key...))
		dec, err := m2.Decrypt(nil, enc)
		vrt.Assert(err == nil, "C19/decrypts")
		vrt.Assert(vrt.EqBytes(dec, orig), "C19/roundtrip")
		vrt.Assert(vrt.EqBytes(enc, kept), "C19/decrypt-keeps-source")
		dec, err = m.Decrypt(nil, enc)
		vrt.Assert(err == nil, "C19/decrypts-again")
		vrt.Assert(vrt.EqBytes(dec, orig), "C19/roundtrip-again")
		vrt.Reach("end")
	case 1:
		i := vrt.Choose("at", len(enc))
		x := vrt.U8("x")
		vrt.Assume(x != 0)
		kept[i] ^= x
		_, err := m.Decrypt(nil, kept)
		vrt.Assert(err != nil, "C19/tampered-accepted")
		vrt.Reach("tampered")
	case 2:
		i := vrt.Choose("len", len(enc))
		_, err := m.Decrypt(nil, kept[:i])
		vrt.Assert(err != nil, "C19/truncated-accepted")
		vrt.Reach("cut")
	case 3:
		key2 := vrt.Bytes("key2", 32)
		vrt.Assume(!vrt.EqBytes(key, key2))
		m2, _ := New(key2)
		_, err := m2.Decrypt(nil, kept)
		vrt.Assert(err != nil, "C19/wrong-key-accepted")
		vrt.Reach("wrongkey")
	}
}
