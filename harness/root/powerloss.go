package unitdb

import (
	"github.com/unit-io/unitdb/zz_verif/vos"
	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4

// VerifPowerLoss: everything a sync stored is on stable storage when it returns.
// @prop C29
// @bound histories of 4 (thorough 6) operations: put to either of two topics, log write, sync, close and open; then a sync, one more put that may or may not be logged, and a power loss that drops all file content that was not flushed; contents arbitrary
// @note files keep the content of their last fsync; creations, renames and removals of files are durable at once
// @steps 100000000
// @reach end
func VerifPowerLoss() {
	m := zzNewModel([]string{"ab.cd", "c"})
	n := 4
	if vrt.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		op := vrt.Choose("op", 5)
		switch op {
		case 0, 1:
			m.put(op)
		case 2:
			m.log()
		case 3:
			m.sync()
		case 4:
			m.reopen()
		}
	}
	m.sync()
	m.put(0)
	if vrt.Bool("log") {
		zzLog()
	}
	vrt.Settle()
	vos.PowerLoss()
	vtime.Clear()
	m.msgs[len(m.msgs)-1].maybe = true
	m.db = zzOpen(m.opts...)
	m.checkAll("C29")
	vrt.Reach("end")
}
