package unitdb

import (
	"github.com/unit-io/unitdb/zz_verif/vos"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4

// VerifCrashIdle: the process is killed between operations, at any point of any history.
// @prop C03
// @bound histories of 5 (thorough 7) operations: put to either of two topics, log write, sync, kill and open; then a put to each, sync, kill, open; contents arbitrary
// @steps 100000000
// @reach end
func VerifCrashIdle() {
	m := zzNewModel([]string{"ab.cd", "c"})
	n := 5
	if vrt.Thorough() {
		n = 7
	}
	for i := 0; i < n; i++ {
		op := vrt.Choose("op", 5)
		switch op {
		case 0, 1:
			m.put(op)
		case 2:
			m.log()
		case 3:
			m.sync()
		case 4:
			m.crash()
		}
	}
	m.crash()
	m.checkAll("C03/idle")
	m.put(0)
	m.put(1)
	m.checkAll("C03/idle-then-put")
	m.sync()
	m.crash()
	m.checkAll("C03/idle-then-put-sync")
	vrt.Reach("end")
}

// VerifCrashLog: killed at any point of a log write.
// @prop C03
// @bound kill right before any file operation of a log write, after up to 2 messages that are on disk already and up to 2 new ones; contents arbitrary
// @steps 100000000
// @reach end
func VerifCrashLog() {
	m := zzNewModel([]string{"ab.cd", "c"})
	switch vrt.Choose("before", 4) {
	case 1:
		m.put(0)
		m.log()
	case 2:
		m.put(0)
		m.sync()
	case 3:
		m.put(0)
		m.reopen()
	}
	m.put(vrt.Choose("topic", 2))
	if vrt.Bool("two") {
		m.put(vrt.Choose("topic", 2))
	}
	vos.Arm(vrt.Choose("at", 8))
	zzLog()
	if !vos.Crashed() {
		m.allLogged()
	}
	m.crash()
	m.checkAll("C03/log")
	m.put(0)
	m.reopen()
	m.checkAll("C03/log-then-put")
	vrt.Reach("end")
}

// zzCrashBefore prepares a database with some messages on disk.
func zzCrashBefore(m *zzModel) {
	switch vrt.Choose("before", 4) {
	case 1:
		m.put(0)
		m.sync()
	case 2:
		m.put(0)
		m.put(1)
		m.put(0)
		m.put(0)
		m.sync()
	case 3:
		m.put(0)
		m.put(0)
		m.sync()
		m.put(0)
		m.put(0)
		m.reopen()
	}
}

// VerifCrashSync: killed at any point of a sync.
// @prop C03
// @bound kill right before any file operation of a sync of 1 or 2 new messages, after 0 to 4 messages that are on disk already; contents arbitrary
// @steps 100000000
// @reach end
func VerifCrashSync() {
	m := zzNewModel([]string{"ab.cd", "c"})
	zzCrashBefore(m)
	m.put(vrt.Choose("topic", 2))
	if vrt.Bool("two") {
		m.put(vrt.Choose("topic", 2))
	}
	zzNextBlock()
	m.allLogged()
	vos.Arm(vrt.Choose("at", 16))
	m.db.Sync()
	m.crash()
	m.checkAll("C03/sync")
	m.put(0)
	m.put(1)
	m.reopen()
	m.checkAll("C03/sync-then-put")
	vrt.Reach("end")
}

// VerifCrashClose: killed at any point of a close.
// @prop C03
// @bound kill right before any file operation of a close, with 0 to 2 new messages, logged or not, after 0 to 4 messages that are on disk already; contents arbitrary
// @steps 100000000
// @reach end
func VerifCrashClose() {
	m := zzNewModel([]string{"ab.cd", "c"})
	zzCrashBefore(m)
	for i := vrt.Choose("new", 3); i > 0; i-- {
		m.put(vrt.Choose("topic", 2))
	}
	if vrt.Bool("log") {
		m.log()
	}
	vos.Arm(vrt.Choose("at", 12))
	m.db.Close()
	m.crash()
	m.checkAll("C03/close")
	m.put(0)
	m.put(1)
	m.reopen()
	m.checkAll("C03/close-then-put")
	vrt.Reach("end")
}

// VerifCrashOpen: killed at any point of the recovery when opening.
// @prop C03
// @bound kill right before any file operation of an open that recovers 1 or 2 logged messages, after 0 to 4 messages that are on disk already; contents arbitrary
// @steps 100000000
// @reach end
func VerifCrashOpen() {
	m := zzNewModel([]string{"ab.cd", "c"})
	zzCrashBefore(m)
	m.put(vrt.Choose("topic", 2))
	if vrt.Bool("two") {
		m.put(vrt.Choose("topic", 2))
	}
	m.log()
	vrt.Settle()
	vos.Reboot()
	vos.Arm(vrt.Choose("at", 16))
	m.db = zzOpen(m.opts...)
	m.crash()
	m.checkAll("C03/open")
	m.put(0)
	m.put(1)
	m.reopen()
	m.checkAll("C03/open-then-put")
	vrt.Reach("end")
}
