package uid

import (
	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// VerifClientID: an issued client id is recognised with everything it stands for; nothing else passes for one.
// @prop C28
// @bound every epoch, contract, owner number and permission byte; the issued text as it is, with one of its characters (thorough: or two) replaced by anything, cut at any place, or under any other server key
// @note the AEAD primitive is an ideal one: Open succeeds only on what Seal produced under the same key and nonce
// @reach same changed cut otherkey
func VerifClientID() {
	key := []byte("0123456789abcdef0123456789ABCDEF")
	mac, err := crypto.New(key)
	vrt.Assert(err == nil, "C28/mac")
	id := ID(make([]byte, rawLen))
	e, p, m, c := vrt.U32("epoch"), vrt.U16("primary"), uint32(vrt.U8("perm")), vrt.U32("contract")
	id.SetEpoch(e)
	id.SetPrimary(p)
	id.SetPermissions(m)
	id.SetContract(c)
	vrt.Assert(id.Epoch() == e, "C28/epoch-field")
	vrt.Assert(id.Primary() == p, "C28/primary-field")
	vrt.Assert(id.Permissions() == m, "C28/permission-field")
	vrt.Assert(id.Contract() == c, "C28/contract-field")
	orig := append([]byte(nil), id...)
	text := []byte(id.Encode(mac))
	vrt.Assert(vrt.EqBytes(id, orig), "C28/encode-changes-id")
	switch vrt.Choose("case", 4) {
	case 0:
		got, err := Decode(append([]byte(nil), text...), mac)
		vrt.Assert(err == nil, "C28/issued-id-refused")
		vrt.Assert(vrt.EqBytes(got, orig), "C28/round-trip")
		vrt.Reach("same")
	case 1:
		n := len(text)
		i := vrt.Choose("at", n)
		text[i] = vrt.U8("x")
		if vrt.Thorough() && vrt.Choose("two", 2) == 1 {
			text[(i+7)%n] = vrt.U8("y")
		}
		got, err := Decode(text, mac)
		if err == nil {
			vrt.Assert(vrt.EqBytes(got, orig), "C28/changed-text-passes-as-another-id")
		}
		vrt.Reach("changed")
	case 2:
		_, err := Decode(text[:vrt.Choose("len", len(text))], mac)
		vrt.Assert(err != nil, "C28/cut-text-accepted")
		vrt.Reach("cut")
	case 3:
		k2 := vrt.Bytes("key2", 32)
		vrt.Assume(!vrt.EqBytes(key, k2))
		mac2, _ := crypto.New(k2)
		_, err := Decode(text, mac2)
		vrt.Assert(err != nil, "C28/other-server-accepts")
		vrt.Reach("otherkey")
	}
}

// VerifClientIDNew: a primary id may issue secondary ids that share its contract but not its right to issue.
// @prop C28
// @bound every random contract
// @reach end
func VerifClientIDNew() {
	a, err := NewClientID(1)
	vrt.Assert(err == nil, "C28/new")
	vrt.Assert(a.IsPrimary(), "C28/first-id-not-primary")
	b, err := NewSecondaryClientID(a)
	vrt.Assert(err == nil, "C28/new-secondary")
	vrt.Assert(!b.IsPrimary(), "C28/secondary-is-primary")
	vrt.Assert(b.Contract() == a.Contract(), "C28/contract-not-shared")
	d, err := CachedClientID(a.Contract())
	vrt.Assert(err == nil, "C28/cached")
	vrt.Assert(!d.IsPrimary(), "C28/cached-is-primary")
	vrt.Assert(d.Contract() == a.Contract(), "C28/cached-contract")
	vrt.Reach("end")
}
