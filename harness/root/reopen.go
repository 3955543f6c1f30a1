package unitdb

import "github.com/unit-io/unitdb/zz_verif/vrt"

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4

// VerifReopen: every history of puts, syncs and close/open on two topics.
// @prop C02
// @bound histories of 6 (thorough 8) operations: put to either of two topics, sync, close and open; contents arbitrary
// @steps 100000000
// @reach end
func VerifReopen() {
	m := zzNewModel([]string{"ab.cd", "c"})
	n := 6
	if vrt.Thorough() {
		n = 8
	}
	for i := 0; i < n; i++ {
		op := vrt.Choose("op", 4)
		switch op {
		case 0, 1:
			m.put(op)
		case 2:
			m.sync()
		case 3:
			m.reopen()
		}
	}
	m.reopen()
	m.check(0, 100, "C02")
	m.check(1, 100, "C02")
	vrt.Reach("end")
}
