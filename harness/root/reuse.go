package unitdb

import "github.com/unit-io/unitdb/zz_verif/vrt"

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4
// @const . nShards=1

// VerifReuse: the space of deleted messages is used again.
// @prop C11
// @bound three messages of 2 or 5 bytes on disk, then 3 (thorough 4) operations: put of a message of 2 or 5 bytes, delete of any message put so far, sync, close and open; then sync, close and open; contents arbitrary
// @steps 100000000
// @reach end
func VerifReuse() {
	m := zzNewModel([]string{"ab.cd"}, WithMutable(), WithFreeBlockSize(1))
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	m.putN(0, 2)
	m.sync()
	for i := 0; i < 2; i++ {
		m.putN(0, 2+3*vrt.Choose("size", 2))
	}
	m.sync()
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			m.putN(0, 2+3*vrt.Choose("size", 2))
		case 1:
			m.del(vrt.Choose("which", len(m.msgs)))
		case 2:
			m.sync()
		case 3:
			m.reopen()
		}
	}
	m.sync()
	m.checkAll("C11/reuse")
	m.reopen()
	m.checkAll("C11/reuse")
	vrt.Reach("end")
}

// VerifReuseMany: space of several deleted messages, next to each other or not, is used for several new ones.
// @prop C11
// @bound four messages of 2 bytes on disk, any two (thorough three) deleted, close and open or not, three messages of 2 or 5 bytes put, sync; close and open or kill and open, another message, sync; contents arbitrary
// @steps 100000000
// @reach end
func VerifReuseMany() {
	m := zzNewModel([]string{"ab.cd"}, WithMutable(), WithFreeBlockSize(1))
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	m.putN(0, 2)
	m.sync()
	for i := 0; i < 3; i++ {
		m.putN(0, 2)
	}
	m.sync()
	for i := 0; i < n; i++ {
		m.del(vrt.Choose("which", len(m.msgs)))
	}
	if vrt.Bool("reopen") {
		m.reopen()
	}
	for i := 0; i < 3; i++ {
		m.putN(0, 2+3*vrt.Choose("size", 2))
	}
	m.sync()
	m.checkAll("C11/many")
	if vrt.Bool("kill") {
		m.crash()
	} else {
		m.reopen()
	}
	m.putN(0, 2)
	m.sync()
	m.checkAll("C11/many")
	vrt.Reach("end")
}

// VerifReuseCrash: what is free is known after a kill too.
// @prop C11
// @bound three messages on disk, any one deleted, close and open, then 3 (thorough 4) operations: put and sync, delete of any message, kill and open, close and open; then a put, sync and kill; contents arbitrary
// @steps 100000000
// @reach end
func VerifReuseCrash() {
	m := zzNewModel([]string{"ab.cd"}, WithMutable(), WithFreeBlockSize(1))
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	m.putN(0, 2)
	m.sync()
	m.putN(0, 2)
	m.putN(0, 2)
	m.sync()
	m.del(vrt.Choose("which", len(m.msgs)))
	m.reopen()
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			m.putN(0, 2)
			m.sync()
		case 1:
			m.del(vrt.Choose("which", len(m.msgs)))
		case 2:
			m.log()
			m.crash()
		case 3:
			m.reopen()
		}
	}
	m.putN(0, 2)
	m.sync()
	m.checkAll("C11/crash")
	m.crash()
	m.checkAll("C11/crash")
	vrt.Reach("end")
}
