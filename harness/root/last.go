package unitdb

import (
	"time"

	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

// @const . entriesPerWindowBlock=2
// @const . entriesPerIndexBlock=4

// VerifLast: a query for the last so long returns exactly the messages stored since.
// @prop C08
// @bound 4 (thorough 6) steps of put, 3 s passing, sync (1 s), close and open; then Get for the last 1 to 9 s, given with WithLast or in the topic, limit 2 or 100; one topic; 2 window and 4 index entries per block
// @steps 100000000
// @reach end
func VerifLast() {
	m := zzNewModel([]string{"ab.cd"})
	var at []int64
	n := 4
	if vrt.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			m.put(0)
			at = append(at, vtime.NowNs()/1000000000)
		case 1:
			vtime.Advance(3 * time.Second)
		case 2:
			m.sync()
		case 3:
			m.reopen()
		}
	}
	zzLast(m, at)
}

// VerifLastSecond: messages of one second that take several window blocks.
// @prop C08
// @bound up to 5 (thorough 6) messages; before each and before the end: nothing, close and open and sync in the same second, or the next second; a second later Get for the last 1 to 9 s, given with WithLast or in the topic, limit 2 or 100; one topic; 2 window and 4 index entries per block
// @steps 100000000
// @reach end
func VerifLastSecond() {
	m := zzNewModel([]string{"ab.cd"})
	var at []int64
	n := 5
	if vrt.Thorough() {
		n = 6
	}
	for i := 0; i <= n; i++ {
		if i > 0 {
			switch vrt.Choose("op", 3) {
			case 1:
				m.reopen()
				vrt.Assert(m.db.Sync() == nil, "sync-fails")
			case 2:
				vtime.Advance(time.Second)
			}
		}
		if i < n {
			m.put(0)
			at = append(at, vtime.NowNs()/1000000000)
		}
	}
	vtime.Advance(time.Second)
	zzLast(m, at)
}

// zzLast queries any recent period: the messages of these times are there.
func zzLast(m *zzModel, at []int64) {
	d := vrt.U8("last")
	vrt.Assume(d >= 1 && d <= 9)
	dur := string([]byte{'0' + d, 's'})
	limit := 100
	if vrt.Bool("limit") {
		limit = 2
	}
	q := NewQuery([]byte("ab.cd")).WithLimit(limit)
	if vrt.Bool("topic") {
		q.Topic = []byte("ab.cd?last=" + dur)
	} else {
		q = q.WithLast(dur)
	}
	got, err := m.db.Get(q)
	now := vtime.NowNs() / 1000000000
	vrt.Assert(err == nil, "get-fails")
	k := 0
	for i := len(m.msgs) - 1; i >= 0 && k < limit; i-- {
		if at[i] < now-int64(d) {
			continue
		}
		vrt.Assert(k < len(got), "C08/last-lost")
		vrt.Assert(vrt.EqBytes(got[k], m.msgs[i].payload), "C08/last-content")
		k++
	}
	vrt.Assert(len(got) == k, "C08/last-extra")
	vrt.Reach("end")
}
