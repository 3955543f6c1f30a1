package unitdb

import (
	"time"

	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4
// @const . nBlocks=1

func zzNow() uint32 { return uint32(vtime.NowNs() / 1000000000) }

// putExp puts a message that expires at any time.
func (m *zzModel) putExp(t int) {
	exp := vrt.U32("expires")
	m.n++
	p := []byte{vrt.U8("payload"), m.n, vrt.U8("payload")}
	id := m.db.NewID()
	e := m.entry(t, append([]byte(nil), p...)).WithID(append([]byte(nil), id...))
	e.ExpiresAt = exp
	vrt.Assert(m.db.PutEntry(e) == nil, "put-refused")
	m.msgs = append(m.msgs, zzMsg{topic: t, payload: p, id: id, exp: exp})
}

// putSoon puts a message that expires in 30 s.
func (m *zzModel) putSoon(t int) {
	m.n++
	p := []byte{vrt.U8("payload"), m.n, vrt.U8("payload")}
	e := m.entry(t, append([]byte(nil), p...))
	e.ExpiresAt = zzNow() + 30
	vrt.Assert(m.db.PutEntry(e) == nil, "put-refused")
	m.msgs = append(m.msgs, zzMsg{topic: t, payload: p, exp: zzNow() + 30})
}

// VerifTTL: a message is there until its expiry time and gone from then on.
// @prop C06
// @bound 3 (thorough 5) steps of put with any expiry time (32 bits), put without, sync, close and open, 2 s passing, log and kill; one topic, contents arbitrary; 3 window and 4 index entries per block; then sync, close and open
// @steps 100000000
// @reach end
func VerifTTL() {
	m := zzNewModel([]string{"ab.cd"})
	n := 3
	if vrt.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 6) {
		case 0:
			m.putExp(0)
		case 1:
			m.putID(0)
		case 2:
			m.sync()
		case 3:
			m.reopen()
		case 4:
			vtime.Advance(2 * time.Second)
		case 5:
			m.log()
			m.crash()
		}
		m.checkAll("C06/ttl")
	}
	m.sync()
	m.checkAll("C06/ttl-sync")
	m.reopen()
	m.checkAll("C06/ttl-reopen")
	vrt.Reach("end")
}

// VerifTTLLimit: expired messages do not count for the limit.
// @prop C06
// @bound 4 (thorough 6) messages with or without any expiry time, synced up to none, two or all of them; limit 2; contents arbitrary
// @steps 100000000
// @reach end
func VerifTTLLimit() {
	m := zzNewModel([]string{"ab.cd"})
	n := 4
	if vrt.Thorough() {
		n = 6
	}
	at := vrt.Choose("sync-at", 3) * 2
	for i := 0; i < n; i++ {
		if i == at {
			m.sync()
		}
		if vrt.Bool("ttl") {
			m.putExp(0)
		} else {
			m.putID(0)
		}
	}
	m.check(0, 2, "C06/limit")
	vrt.Reach("end")
}

// VerifExpirer: the background expiry takes nothing but expired messages and damages no other.
// @prop C06
// @bound 4 (thorough 6) steps of put that expires in 30 s, with or without sync, put that does not and sync, 61 s passing, get and the expirer; then 61 s, get, the expirer, two puts, sync and get; free space used again at once; one shard of expiry windows and of free blocks (code: 100000, 27)
// @const . nShards=1
// @steps 200000000
// @reach end
func VerifExpirer() {
	m := zzNewModel([]string{"ab.cd"}, WithBackgroundKeyExpiry(), WithFreeBlockSize(1))
	n := 4
	if vrt.Thorough() {
		n = 6
	}
	m.putID(0)
	m.sync()
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			m.putSoon(0)
		case 1:
			m.putSoon(0)
			m.sync()
		case 2:
			m.putID(0)
			m.sync()
		case 3:
			vtime.Advance(61 * time.Second)
			m.checkAll("C06/expirer-time")
			vtime.Fire(time.Minute)
			vrt.Settle()
		}
		m.checkAll("C06/expirer")
	}
	vtime.Advance(61 * time.Second)
	m.checkAll("C06/expirer-late")
	vtime.Fire(time.Minute)
	vrt.Settle()
	m.putID(0)
	m.putID(0)
	m.sync()
	m.checkAll("C06/expirer-sync")
	vrt.Reach("end")
}

// VerifTTLText: the ways to give a time to live mean the same time.
// @prop C06
// @bound ttl of every number of seconds 1 to 999 as a plain number, or with unit s, m, h (1 to 99), with WithTTL, in the topic, on an entry used twice, or in a batch; then 1 s before and at the expiry
// @steps 100000000
// @reach end
func VerifTTLText() {
	zzFresh()
	db := zzOpen()
	d0 := vrt.Choose("digits", 3)
	var num []byte
	secs := int64(0)
	for i := 0; i <= d0; i++ {
		d := vrt.U8("digit")
		vrt.Assume(d <= 9)
		num = append(num, '0'+d)
		secs = secs*10 + int64(d)
	}
	vrt.Assume(secs > 0)
	switch vrt.Choose("unit", 4) {
	case 1:
		num = append(num, 's')
	case 2:
		num = append(num, 'm')
		secs *= 60
	case 3:
		num = append(num, 'h')
		secs *= 3600
	}
	ttl := string(num)
	vtime.SetStep(0)
	now := vtime.NowNs() / 1000000000
	switch vrt.Choose("how", 4) {
	case 0:
		vrt.Assert(db.PutEntry(NewEntry([]byte("ab.cd"), []byte("m")).WithTTL(ttl)) == nil, "put-refused")
	case 1:
		vrt.Assert(db.Put([]byte("ab.cd?ttl="+ttl), []byte("m")) == nil, "put-refused")
	case 2:
		e := NewEntry([]byte("ab.cd?ttl="+ttl), nil)
		vrt.Assert(db.PutEntry(e.WithPayload([]byte("x"))) == nil, "put-refused")
		vtime.Advance(5 * time.Hour)
		now += 5 * 3600
		vrt.Assert(db.PutEntry(e.WithPayload([]byte("m"))) == nil, "put-refused")
	case 3:
		err := db.Batch(func(b *Batch, done <-chan struct{}) error {
			return b.Put([]byte("ab.cd?ttl="+ttl), []byte("m"))
		})
		vrt.Assert(err == nil, "batch-refused")
	}
	for _, before := range []bool{true, false} {
		t := now + secs
		if before {
			t--
		}
		vtime.SetSec(t)
		items, err := db.Get(NewQuery([]byte("ab.cd")).WithLimit(10))
		vtime.ClearSec()
		vrt.Assert(err == nil, "get-fails")
		there := len(items) > 0 && items[0][0] == 'm'
		vrt.Assert(there || !before, "C06/text-gone-early")
		vrt.Assert(!there || before, "C06/text-there-late")
	}
	vrt.Reach("end")
}
