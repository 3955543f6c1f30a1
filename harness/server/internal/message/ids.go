package message

import (
	"github.com/unit-io/unitdb/server/utp"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// VerifMessageIDs: message ids handed out on a connection are valid, unused and answered for.
// @prop C24
// @bound any point of the id sequence (symbolic), 0..2 arbitrary ids resumed from an earlier session (including neighbours), 3 new ids
// @reach end
func VerifMessageIDs() {
	mids := NewMessageIds()
	cur := vrt.Int("cur", 0, 65535)
	mids.id = MID(cur)
	nr := vrt.Choose("resumed", 3)
	res := make([]MID, nr)
	for i := range res {
		res[i] = MID(vrt.Int("r", 1, 65535))
		mids.ResumeID(res[i])
	}
	var got []MID
	for i := 0; i < 3; i++ {
		id := mids.NextID(utp.PUBLISH)
		vrt.Assert(vrt.And(id >= 1, id <= 65535), "C24/not-a-16-bit-id")
		for _, r := range res {
			vrt.Assert(id != r, "C24/resumed-id-reused")
		}
		for _, g := range got {
			vrt.Assert(id != g, "C24/id-reused")
		}
		got = append(got, id)
	}
	for _, g := range got {
		vrt.Assert(mids.GetType(g) == utp.PUBLISH, "C24/type-of-id")
	}
	mids.FreeID(got[1])
	vrt.Assert(mids.GetType(got[1]) == 0, "C24/freed-id-still-known")
	vrt.Assert(mids.GetType(got[0]) == utp.PUBLISH, "C24/other-id-freed")
	vrt.Reach("end")
}
