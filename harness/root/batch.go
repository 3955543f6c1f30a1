package unitdb

import (
	"errors"

	"github.com/unit-io/unitdb/zz_verif/vos"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4

// batch runs a batch of n operations; mutable: deletes too; write: explicit Writes after at least one of them.
func (m *zzModel) batch(n int, dels, write, fail bool) {
	var pend []zzMsg
	var gone []int
	boom := errors.New("boom")
	writes := 0
	if write {
		writes = vrt.Choose("writes", 1<<uint(n)-1) + 1
	}
	err := m.db.Batch(func(b *Batch, done <-chan struct{}) error {
		for i := 0; i < n; i++ {
			k := vrt.Choose("batch-op", len(m.topics)+zzIf(dels, len(m.msgs)))
			if k < len(m.topics) {
				m.n++
				p := []byte{vrt.U8("payload"), m.n, vrt.U8("payload")}
				keep := append([]byte(nil), p...)
				id := m.db.NewID()
				e := NewEntry([]byte(m.topics[k]), p).WithID(append([]byte(nil), id...))
				vrt.Assert(b.PutEntry(e) == nil, "batch-put-refused")
				p[0], p[1], p[2] = 0, 0, 0
				pend = append(pend, zzMsg{topic: k, payload: keep, id: id, logged: true})
			} else {
				x := m.msgs[k-len(m.topics)]
				vrt.Assert(b.Delete(append([]byte(nil), x.id...), []byte(m.topics[x.topic])) == nil, "batch-delete-refused")
				gone = append(gone, k-len(m.topics))
			}
			if writes>>uint(i)&1 != 0 {
				vrt.Assert(b.Write() == nil, "batch-write-fails")
			}
		}
		if fail {
			return boom
		}
		return nil
	})
	if fail {
		vrt.Assert(err == boom, "batch-error-lost")
		return
	}
	vrt.Assert(err == nil, "batch-fails")
	m.msgs = append(m.msgs, pend...)
	for _, k := range gone {
		m.msgs[k].deleted = true
	}
}

func zzIf(c bool, n int) int {
	if c {
		return n
	}
	return 0
}

// VerifBatch: committed and failed batches between puts and syncs.
// @prop C05
// @bound a put, then 2 (thorough 3) steps: batch of two operations (puts to either of two topics, deletes of any message) that succeeds or fails, put, sync, close and open, log and kill; then sync and kill; contents arbitrary
// @steps 100000000
// @reach end
func VerifBatch() {
	m := zzNewModel([]string{"ab.cd", "c"}, WithMutable())
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	m.putID(0)
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 6) {
		case 0:
			m.batch(2, true, false, false)
		case 1:
			m.batch(2, true, false, true)
		case 2:
			m.putID(0)
		case 3:
			m.sync()
		case 4:
			m.reopen()
		case 5:
			m.log()
			m.crash()
		}
		m.checkAll("C05")
	}
	m.sync()
	m.checkAll("C05/sync")
	m.crash()
	m.checkAll("C05/crash")
	vrt.Reach("end")
}

// VerifBatchWrite: batches with an explicit Write.
// @prop C05
// @bound a put, then 2 (thorough 3) steps: batch of two puts to either of two topics with a Write after the first, the second or both, that succeeds or fails, put, sync, close and open; then sync, close and open; contents arbitrary
// @steps 100000000
// @reach end
func VerifBatchWrite() {
	m := zzNewModel([]string{"ab.cd", "c"}, WithMutable())
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	m.putID(0)
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 5) {
		case 0:
			m.batch(2, false, true, false)
		case 1:
			m.batch(2, false, true, true)
		case 2:
			m.putID(0)
		case 3:
			m.sync()
		case 4:
			m.reopen()
		}
		m.checkAll("C05/write")
	}
	m.sync()
	m.checkAll("C05/write-sync")
	m.reopen()
	m.checkAll("C05/write-reopen")
	vrt.Reach("end")
}

// VerifBatchKill: a kill during a batch leaves all of it or nothing.
// @prop C05
// @bound up to one message before, synced or logged; a batch of 2 (thorough 3) puts to either of two topics; kill right before any of the first 8 file operations of the batch; contents arbitrary
// @steps 100000000
// @reach end killed
func VerifBatchKill() {
	m := zzNewModel([]string{"ab.cd", "c"}, WithMutable())
	switch vrt.Choose("before", 3) {
	case 1:
		m.putID(0)
		m.log()
	case 2:
		m.putID(0)
		m.sync()
	}
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	before := len(m.msgs)
	vos.Arm(vrt.Choose("at", 8))
	m.batch(n, false, false, false)
	killed := vos.Crashed()
	for i := range m.msgs[before:] {
		m.msgs[before+i].logged = !killed // killed inside the batch: all of it or nothing
	}
	m.crash()
	if killed {
		there := 0
		for t := range m.topics {
			got := zzGet(m.db, m.topics[t], 0, 100)
			for _, x := range m.msgs[before:] {
				if x.topic == t && zzHas(got, x.payload) {
					there++
				}
			}
		}
		vrt.Assert(there == 0 || there == n, "C05/kill-half-a-batch")
		vrt.Reach("killed")
	}
	m.checkAll("C05/kill")
	m.putID(0)
	m.sync()
	m.checkAll("C05/kill-put")
	vrt.Reach("end")
}

// VerifBatchLimit: a limit cuts to the newest messages around batches too.
// @prop C05
// @bound 3 (thorough 4) steps: batch of two puts to either of two topics, put, sync; then sync; Get with any limit of 1 to 4 before and after; contents arbitrary
// @steps 100000000
// @reach end
func VerifBatchLimit() {
	m := zzNewModel([]string{"ab.cd", "c"}, WithMutable())
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 3) {
		case 0:
			m.batch(2, false, false, false)
		case 1:
			m.putID(0)
		case 2:
			m.sync()
		}
	}
	limit := vrt.Choose("limit", 4) + 1
	m.check(0, limit, "C05/limit")
	m.sync()
	m.check(0, limit, "C05/limit-sync")
	vrt.Reach("end")
}
