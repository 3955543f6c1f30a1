package message

import "github.com/unit-io/unitdb/zz_verif/vrt"

// VerifTopicRecord: a topic reads back as it was stored.
// @prop C10
// @bound topics of 0 to 4 levels (thorough 8) after the contract, any hashes and wildcard counts
// @reach end
func VerifTopicRecord() {
	n := 5
	if vrt.Thorough() {
		n = 9
	}
	d := vrt.Choose("depth", n)
	t := &Topic{Depth: uint8(d)}
	for i := 0; i < d; i++ {
		t.Parts = append(t.Parts, Part{Hash: vrt.U32("hash"), Wildchars: vrt.U8("wild")})
	}
	con := vrt.U32("contract")
	t.AddContract(con)
	r := new(Topic)
	vrt.Assert(r.Unmarshal(t.Marshal()) == nil, "C10/topic-unmarshal")
	vrt.Assert(r.Depth == t.Depth && len(r.Parts) == d+1, "C10/topic-depth")
	for i := range r.Parts {
		vrt.Assert(r.Parts[i] == t.Parts[i], "C10/topic")
	}
	vrt.Assert(r.GetHash(con) == t.GetHash(con), "C10/topic-hash")
	vrt.Reach("end")
}
