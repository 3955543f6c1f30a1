package unitdb

import "github.com/unit-io/unitdb/zz_verif/vrt"

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4

// VerifHistory: every history of puts and syncs on two topics.
// @prop C01
// @bound histories of 6 (thorough 8) operations: put to either of two topics or sync; contents arbitrary
// @steps 100000000
// @reach end
func VerifHistory() {
	m := zzNewModel([]string{"a.b", "c"})
	n := 6
	if vrt.Thorough() {
		n = 8
	}
	for i := 0; i < n; i++ {
		op := vrt.Choose("op", 3)
		switch op {
		case 0, 1:
			m.put(op)
		case 2:
			m.sync()
		}
	}
	m.check(0, 100, "C01")
	m.check(1, 100, "C01")
	m.check(0, vrt.Choose("limit", 3)+1, "C01/limit")
	vrt.Reach("end")
}

// VerifReadWrite: reads in between, with the log writer moving on to new time blocks.
// @prop C01
// @bound histories of 5 (thorough 7) operations: put to either of two topics, read both, next time block, sync; contents arbitrary
// @steps 100000000
// @reach end
func VerifReadWrite() {
	m := zzNewModel([]string{"a.b", "c"})
	n := 4
	if vrt.Thorough() {
		n = 6
	}
	m.put(0)
	for i := 0; i < n; i++ {
		op := vrt.Choose("op", 5)
		switch op {
		case 0, 1:
			m.put(op)
		case 2:
			m.sync()
		case 3:
			m.checkAll("C01/read")
		case 4:
			zzNextBlock()
		}
	}
	m.checkAll("C01/read")
	vrt.Reach("end")
}

// VerifLimit: a limit cuts to the newest messages wherever they are.
// @prop C01
// @bound a put, then 4 (thorough 6) operations: put to the topic, put to another, next time block, sync; then Get with any limit of 1 to 3; contents arbitrary
// @steps 100000000
// @reach end
func VerifLimit() {
	m := zzNewModel([]string{"a.b", "c"})
	n := 4
	if vrt.Thorough() {
		n = 6
	}
	m.put(0)
	for i := 0; i < n; i++ {
		op := vrt.Choose("op", 4)
		switch op {
		case 0, 1:
			m.put(op)
		case 2:
			m.sync()
		case 3:
			zzNextBlock()
		}
	}
	m.check(0, vrt.Choose("limit", 3)+1, "C01/limit")
	vrt.Reach("end")
}

// VerifTopics: topics made of the same words are different topics.
// @prop C01
// @bound three puts, each to any of six topics of two words in different order and number, before and after a sync; contents arbitrary
// @steps 100000000
// @reach end
func VerifTopics() {
	m := zzNewModel([]string{"a.b", "b.a", "a.a", "b.b", "a.b.a", "b.a.a", "a"})
	for i := 0; i < 3; i++ {
		m.put(vrt.Choose("topic", len(m.topics)))
	}
	m.checkAll("C01/topics")
	m.sync()
	m.checkAll("C01/topics-sync")
	vrt.Reach("end")
}
