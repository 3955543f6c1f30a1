package message

import (
	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

// VerifID: an id carries its sequence, contract and time.
// @prop C13
// @bound all sequences, all contracts, every second from 20 April 2019 (offset of the ids) to the end of the 32 bit range, every cutoff
// @reach end
func VerifID() {
	now := vrt.I64("now")
	vrt.Assume(now >= 1555770000 && now < 1555770000+1<<32)
	vtime.SetSec(now)
	seq, con, other := vrt.U64("seq"), vrt.U32("contract"), vrt.U32("other")
	id := NewID(seq)
	vrt.Assert(id.Sequence() == seq, "C13/sequence")
	vrt.Assert(id.EvalPrefix(MasterContract, 0), "C13/master-contract")
	keep := append(ID(nil), id...)
	id2 := id
	id2.SetContract(con)
	vrt.Assert(id2.Sequence() == seq, "C13/sequence-with-contract")
	vrt.Assert(vrt.EqBytes(id, keep), "C13/contract-leaks-to-the-id-given")
	vrt.Assert(id2.EvalPrefix(other, 0) == (con == other), "C13/contract")
	cutoff := vrt.I64("cutoff")
	vrt.Assume(cutoff > 0 && cutoff < 1<<40)
	vrt.Assert(id2.EvalPrefix(con, cutoff) == (now >= cutoff), "C13/time")
	vrt.Assert(id2.EvalPrefix(other, cutoff) == (con == other && now >= cutoff), "C13/time-and-contract")
	// the prefix stored with a message gives the same answers
	p := ID(append([]byte(nil), id2.Prefix()...))
	vrt.Assert(len(p) == 8, "C13/prefix-size")
	vrt.Assert(p.EvalPrefix(other, cutoff) == (con == other && now >= cutoff), "C13/prefix")
	vtime.ClearSec()
	vrt.Reach("end")
}

// VerifIDTwo: ids of different sequences differ.
// @prop C13
// @bound all pairs of sequences
// @reach end
func VerifIDTwo() {
	a, b := vrt.U64("a"), vrt.U64("b")
	vrt.Assume(a != b)
	x, y := NewID(a), NewID(b)
	vrt.Assert(!vrt.EqBytes(x, y), "C13/two-messages-one-id")
	vrt.Reach("end")
}
