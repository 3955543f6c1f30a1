package unitdb

import (
	"github.com/unit-io/unitdb/message"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4

// zzContracts chooses two different contracts; 0 stands for the default one.
func zzContracts() (uint32, uint32) {
	all := []uint32{0, 1, 0x01000001, 0xfffffffe, message.MasterContract + 1}
	i := vrt.Choose("contract", len(all)-1)
	j := i + 1 + vrt.Choose("contract", len(all)-1-i)
	return all[i], all[j]
}

// VerifContract: the same topic under different contracts.
// @prop C09
// @bound two of five contracts, the topic under each of them and a second topic under one; two puts, then 2 (thorough 4) operations: put to any of them, delete of any message, sync, close and open; contents arbitrary
// @steps 100000000
// @reach end
func VerifContract() {
	c1, c2 := zzContracts()
	m := zzNewModel([]string{"ab.cd", "ab.cd", "ef"}, WithMutable())
	m.cons = []uint32{c1, c2, c1}
	n := 2
	if vrt.Thorough() {
		n = 4
	}
	m.putID(0)
	m.putID(vrt.Choose("topic", 2))
	for i := 0; i < n; i++ {
		op := vrt.Choose("op", 5)
		switch op {
		case 0, 1:
			m.putID(op + 1)
		case 2:
			m.sync()
		case 3:
			m.reopen()
		case 4:
			m.del(vrt.Choose("which", len(m.msgs)))
		}
	}
	m.checkAll("C09")
	m.reopen()
	m.checkAll("C09/reopen")
	vrt.Reach("end")
}

// VerifContractWildcard: wildcard topics reach topics of their contract only.
// @prop C09
// @bound two of five contracts; a message to any of four wildcard topics under one of them; Get of a topic they match under both; contents arbitrary; unsynced, synced, and after close and open
// @steps 100000000
// @reach end
func VerifContractWildcard() {
	c1, c2 := zzContracts()
	w := []string{"...", "ab...", "ab.*", "*.cd"}[vrt.Choose("topic", 4)]
	m := zzNewModel([]string{w, w}, WithMutable())
	m.cons = []uint32{c1, c2}
	t := vrt.Choose("which", 2)
	m.putID(t)
	for i := 0; i < 3; i++ {
		got := zzGet(m.db, "ab.cd", m.cons[t], 10)
		vrt.Assert(len(got) == 1, "C09/wildcard-missed")
		vrt.Assert(vrt.EqBytes(got[0], m.msgs[0].payload), "C09/wildcard-content")
		vrt.Assert(len(zzGet(m.db, "ab.cd", m.cons[1-t], 10)) == 0, "C09/wildcard-leak")
		m.checkAll("C09/wildcard")
		switch i {
		case 0:
			m.sync()
		case 1:
			m.reopen()
		}
	}
	vrt.Reach("end")
}

// VerifContractBatch: a batch puts to its contract.
// @prop C09
// @bound two of five contracts set for a batch of two entries to the same topic, each put with Put or PutEntry, with or without a contract of its own; contents arbitrary
// @steps 100000000
// @reach end
func VerifContractBatch() {
	c1, c2 := zzContracts()
	m := zzNewModel([]string{"ab.cd", "ab.cd"})
	m.cons = []uint32{c1, c2}
	bc := vrt.Choose("batch-contract", 2)
	err := m.db.Batch(func(b *Batch, done <-chan struct{}) error {
		if c := m.cons[bc]; c != 0 {
			b.SetOptions(WithBatchContract(c))
		}
		for i := 0; i < 2; i++ {
			m.n++
			p := []byte{vrt.U8("payload"), m.n, vrt.U8("payload")}
			keep := append([]byte(nil), p...)
			t := bc
			switch vrt.Choose("how", 3) {
			case 0:
				vrt.Assert(b.Put([]byte("ab.cd"), p) == nil, "batch-put-refused")
			case 1:
				vrt.Assert(b.PutEntry(NewEntry([]byte("ab.cd"), p)) == nil, "batch-put-refused")
			case 2:
				t = 1 // never the default one
				vrt.Assert(b.PutEntry(NewEntry([]byte("ab.cd"), p).WithContract(m.cons[t])) == nil, "batch-put-refused")
			}
			m.msgs = append(m.msgs, zzMsg{topic: t, payload: keep})
		}
		return nil
	})
	vrt.Assert(err == nil, "batch-fails")
	m.checkAll("C09/batch")
	m.sync()
	m.checkAll("C09/batch-sync")
	vrt.Reach("end")
}

// VerifContractEntry: an entry that is put again goes to the topic and the contract it has then.
// @prop C09
// @bound one Entry value put three (thorough four) times, each time with its topic (one of two), its contract (one of two of the five) set, or neither, then sync or not between; contents arbitrary; checked unsynced, after sync, and after close and open
// @steps 100000000
// @reach end
func VerifContractEntry() {
	c1, c2 := zzContracts()
	m := zzNewModel([]string{"ab.cd", "ab.cd", "ef", "ef"})
	m.cons = []uint32{c1, c2, c1, c2}
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	e := NewEntry([]byte(m.topics[0]), nil)
	if c1 != 0 {
		e.WithContract(c1)
	}
	t := 0
	for i := 0; i < n; i++ {
		if i > 0 {
			switch vrt.Choose("change", 4) {
			case 1:
				t ^= 1
				e.WithContract(m.cons[t])
			case 2:
				t ^= 2
				e.Topic = []byte(m.topics[t])
			case 3:
				m.sync()
			}
		}
		m.n++
		p := []byte{vrt.U8("payload"), m.n, vrt.U8("payload")}
		vrt.Assert(m.db.PutEntry(e.WithPayload(append([]byte(nil), p...))) == nil, "put-refused")
		m.msgs = append(m.msgs, zzMsg{topic: t, payload: p})
	}
	m.checkAll("C09/entry")
	m.sync()
	m.checkAll("C09/entry")
	m.reopen()
	m.checkAll("C09/entry")
	vrt.Reach("end")
}
