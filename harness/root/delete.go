package unitdb

import "github.com/unit-io/unitdb/zz_verif/vrt"

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4

// VerifDelete: deletes of messages in memory, on disk, and of ones that are gone already.
// @prop C04
// @bound histories of 5 (thorough 6) operations: put to either of two topics, delete of any message put so far, sync, close and open; then sync, close and open; contents arbitrary
// @steps 100000000
// @reach end
func VerifDelete() {
	m := zzNewModel([]string{"ab.cd", "c"}, WithMutable())
	n := 5
	if vrt.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			m.putID(vrt.Choose("topic", 2))
		case 1:
			vrt.Assume(len(m.msgs) > 0)
			m.del(vrt.Choose("which", len(m.msgs)))
		case 2:
			m.sync()
		case 3:
			m.reopen()
		}
	}
	m.checkAll("C04")
	m.sync()
	m.checkAll("C04/sync")
	m.reopen()
	m.checkAll("C04/reopen")
	vrt.Reach("end")
}

// VerifDeleteCrash: a delete that reached the log survives a kill.
// @prop C04
// @bound histories of 5 (thorough 6) operations: put, delete of any message put so far, next time block, sync, kill and open; everything is logged before a kill; contents arbitrary
// @steps 100000000
// @reach end
func VerifDeleteCrash() {
	m := zzNewModel([]string{"ab.cd"}, WithMutable())
	n := 5
	if vrt.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 5) {
		case 0:
			m.putID(0)
		case 1:
			vrt.Assume(len(m.msgs) > 0)
			m.del(vrt.Choose("which", len(m.msgs)))
		case 2:
			zzNextBlock()
		case 3:
			m.sync()
		case 4:
			m.log()
			m.crash()
		}
	}
	m.log()
	m.crash()
	m.checkAll("C04/crash")
	m.reopen()
	m.checkAll("C04/crash-reopen")
	vrt.Reach("end")
}

// VerifDeleteBlocks: deletes that are logged in another time block than the message.
// @prop C04
// @bound two messages in one time block, then one of up to two deletes and a put in the next, then 2 (thorough 3) operations: put, delete of any message, next time block, sync, kill and open; everything is logged before a kill; then a kill, sync and another kill; contents arbitrary
// @steps 100000000
// @reach end
func VerifDeleteBlocks() {
	m := zzNewModel([]string{"ab.cd"}, WithMutable())
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	m.putID(0)
	m.putID(0)
	zzNextBlock()
	m.del(vrt.Choose("which", 2))
	m.putID(0)
	zzNextBlock()
	m.del(vrt.Choose("which", 3))
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 5) {
		case 0:
			m.putID(0)
		case 1:
			m.del(vrt.Choose("which", len(m.msgs)))
		case 2:
			zzNextBlock()
		case 3:
			m.sync()
		case 4:
			m.log()
			m.crash()
		}
	}
	m.log()
	m.crash()
	m.checkAll("C04/blocks")
	m.putID(0)
	m.sync()
	m.crash()
	m.checkAll("C04/blocks-again")
	vrt.Reach("end")
}

// VerifDeleteLimit: deleted messages do not take the place of others when a limit applies.
// @prop C04
// @bound 4 messages, synced or not, any 3 (thorough 4) deletes and syncs, then Get with any limit of 1 to 3; contents arbitrary
// @steps 100000000
// @reach end
func VerifDeleteLimit() {
	m := zzNewModel([]string{"ab.cd"}, WithMutable())
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	for i := 0; i < 4; i++ {
		m.putID(0)
		if i == 2 && vrt.Bool("sync") {
			m.sync()
		}
	}
	for i := 0; i < n; i++ {
		if k := vrt.Choose("which", len(m.msgs)+1); k < len(m.msgs) {
			m.del(k)
		} else {
			m.sync()
		}
	}
	m.check(0, vrt.Choose("limit", 3)+1, "C04/limit")
	vrt.Reach("end")
}

// VerifDeleteLogged: deletes of messages that were logged before, in the same time block or another one.
// @prop C04
// @bound a put and 4 (thorough 5) operations: put, delete of any message put so far, log write, next time block, kill and open, close and open; everything is logged before a kill; then log and kill, sync and kill; contents arbitrary
// @steps 100000000
// @reach end
func VerifDeleteLogged() {
	m := zzNewModel([]string{"ab.cd"}, WithMutable())
	n := 4
	if vrt.Thorough() {
		n = 5
	}
	m.putID(0)
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 6) {
		case 0:
			m.putID(0)
		case 1:
			m.del(vrt.Choose("which", len(m.msgs)))
		case 2:
			m.log()
		case 3:
			zzNextBlock()
		case 4:
			m.log()
			m.crash()
		case 5:
			m.reopen()
		}
	}
	m.log()
	m.crash()
	m.checkAll("C04/logged")
	m.sync()
	m.crash()
	m.checkAll("C04/logged-sync")
	vrt.Reach("end")
}
