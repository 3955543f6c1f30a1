package listener

import (
	"bytes"

	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// VerifMatch: the protocol matcher accepts a connection exactly when what it sends starts with (or is) one of the given texts.
// @prop C26
// @bound 1..3 texts of 1..3 arbitrary bytes (thorough 1..4), a connection that sends 0..4 arbitrary bytes (thorough 0..5)
// @reach prefix whole none
func VerifMatch() {
	ns := 1 + vrt.Choose("texts", 3)
	max := 3
	if vrt.Thorough() {
		max = 4
	}
	var strs []string
	for i := 0; i < ns; i++ {
		strs = append(strs, vrt.Str("s", 1+vrt.Choose("sn", max)))
	}
	in := vrt.Bytes("in", vrt.Choose("inn", max+2))
	isPrefix, isWhole := false, false
	for _, s := range strs {
		if len(s) <= len(in) {
			isPrefix = vrt.Or(isPrefix, vrt.EqBytes([]byte(s), in[:len(s)]))
		}
		if len(s) == len(in) {
			isWhole = vrt.Or(isWhole, vrt.EqBytes([]byte(s), in))
		}
	}
	t := newPatriciaTreeString(strs...)
	if vrt.Choose("mode", 2) == 0 {
		got := t.matchPrefix(bytes.NewReader(in))
		vrt.Assert(got == isPrefix, "C26/prefix-match")
		vrt.Reach("prefix")
	} else {
		got := t.match(bytes.NewReader(in))
		vrt.Assert(got == isWhole, "C26/whole-match")
		vrt.Reach("whole")
	}
	if !isPrefix {
		vrt.Reach("none")
	}
}
