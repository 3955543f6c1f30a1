package unitdb

import (
	"github.com/unit-io/unitdb/message"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4
// @points . !meter.go !logger.go !options.go !entry.go
// @points memdb !meter.go !options.go

// prep makes a message of topic t that is put later.
func (m *zzModel) prep(t int) (put func(), x *zzMsg) {
	m.n++
	p := []byte{vrt.U8("payload"), m.n, vrt.U8("payload")}
	id := m.db.NewID()
	m.msgs = append(m.msgs, zzMsg{topic: t, payload: p, id: id})
	e := m.entry(t, append([]byte(nil), p...)).WithID(append([]byte(nil), id...))
	return func() {
		vrt.Assert(m.db.PutEntry(e) == nil, "race-put-refused")
	}, &m.msgs[len(m.msgs)-1]
}

// VerifRacePut: a put races another put, a get, a delete, a log write and a sync.
// @prop C30
// @bound a message in memory, log or files; then a put to its topic or a new one, at any statement of which one of the following runs as far as it can: put to the same topic, to a topic with the same first level or to another one; log write; sync; delete of the first message; get; then sync, close and open
// @steps 100000000
// @reach end
func VerifRacePut() {
	m := zzNewModel([]string{"a.b", "a.c", "d"}, WithMutable())
	before := vrt.Choose("before", 4)
	if before > 0 {
		m.putID(0)
	}
	if before == 2 {
		m.log()
	}
	if before == 3 {
		m.sync()
	}
	a, _ := m.prep(vrt.Choose("topic", 2))
	var b func()
	switch k := vrt.Choose("other", 7); k {
	case 0, 1, 2:
		b, _ = m.prep(k)
	case 3:
		b = zzLog
	case 4:
		b = m.sync
	case 5:
		vrt.Assume(before > 0)
		b = func() { m.del(0) }
	case 6:
		vrt.Assume(before > 0)
		b = func() {
			got := zzGet(m.db, "a.b", 0, 100)
			vrt.Assert(len(got) > 0 && vrt.EqBytes(got[len(got)-1], m.msgs[0].payload), "C30/get")
		}
	}
	vrt.Race(a, b)
	m.checkAll("C30/race")
	m.sync()
	m.checkAll("C30/race-sync")
	m.reopen()
	m.checkAll("C30/race-reopen")
	vrt.Reach("end")
}

// with chooses what runs along with another operation: it changes the model as if it ran alone.
func (m *zzModel) with(what string) func() {
	var fs []func()
	for _, w := range what {
		switch w {
		case 'p':
			fs = append(fs, func() {})
		case 'l':
			fs = append(fs, zzLog)
		case 's':
			fs = append(fs, m.sync)
		case 'd':
			fs = append(fs, func() { m.del(0) })
		case 'g':
			fs = append(fs, func() {
				n := 0
				for _, p := range zzGet(m.db, "a.b", 0, 100) {
					for i := range m.msgs {
						if x := &m.msgs[i]; x.topic == 0 && x.payload[1] == p[1] {
							vrt.Assert(vrt.EqBytes(p, x.payload), "C30/get-content")
							n++
						}
					}
				}
				for i := range m.msgs {
					if x := &m.msgs[i]; x.topic == 0 && !x.deleted && !x.maybe {
						n--
					}
				}
				vrt.Assert(n >= 0, "C30/get-lost")
			})
		}
	}
	k := vrt.Choose("other", len(fs))
	if what[k] == 'p' {
		b, _ := m.prep(vrt.Choose("put", 2))
		return b
	}
	return fs[k]
}

func (m *zzModel) raced() {
	m.checkAll("C30/race")
	m.sync()
	m.checkAll("C30/race-sync")
	m.reopen()
	m.checkAll("C30/race-reopen")
	vrt.Reach("end")
}

// VerifRaceGet: a get races a put, a get, a delete, a log write and a sync.
// @prop C30
// @bound one message in memory, log or files and another one in memory or files; a get, at any statement of which one of the following runs as far as it can: put to the same topic or another one; log write; sync; get; delete of the first message; then sync, close and open
// @steps 100000000
// @reach end
func VerifRaceGet() {
	m := zzNewModel([]string{"a.b", "a.c"}, WithMutable())
	m.putID(0)
	switch vrt.Choose("before", 3) {
	case 1:
		m.log()
	case 2:
		m.sync()
	}
	m.putID(0)
	b := m.with("plsdg")
	var got [][]byte
	n := len(m.msgs)
	vrt.Race(func() { got = zzGet(m.db, "a.b", 0, 100) }, b)
	k := 0
	for _, p := range got {
		vrt.Assert(len(p) == 3 && int(p[1]) <= n, "C30/get-strange")
		x := &m.msgs[p[1]-1]
		vrt.Assert(x.topic == 0 && vrt.EqBytes(p, x.payload), "C30/get-wrong")
		if p[1] <= 2 && !x.deleted {
			k++
		}
	}
	for i := 0; i < 2; i++ {
		if !m.msgs[i].deleted {
			k--
		}
	}
	vrt.Assert(k == 0, "C30/get-misses")
	m.raced()
}

// VerifRaceSync: a sync races a put, a get, a delete and a log write.
// @prop C30
// @bound a message in the files or not, then one in the log; a sync, at any statement of which one of the following runs as far as it can: put to the same topic or another one; log write; get; delete of the first message; then sync, close and open
// @steps 100000000
// @reach end
func VerifRaceSync() {
	m := zzNewModel([]string{"a.b", "a.c"}, WithMutable())
	if vrt.Bool("before") {
		m.putID(0)
		m.sync()
	}
	m.putID(0)
	zzNextBlock()
	b := m.with("pldg")
	vrt.Race(func() {
		vrt.Assert(m.db.Sync() == nil, "C30/sync-fails")
	}, b)
	m.raced()
}

// VerifRaceDelete: a delete races a put, a get, another delete, a log write and a sync.
// @prop C30
// @bound two messages in memory, log or files; a delete of the second, at any statement of which one of the following runs as far as it can: put to the same topic or another one; log write; sync; get; delete of the first message; then sync, close and open
// @steps 100000000
// @reach end
func VerifRaceDelete() {
	m := zzNewModel([]string{"a.b", "a.c"}, WithMutable())
	m.putID(0)
	m.putID(0)
	switch vrt.Choose("before", 3) {
	case 1:
		m.log()
	case 2:
		m.sync()
	}
	b := m.with("plsdg")
	m.msgs[1].maybe = true
	vrt.Race(func() { m.del(1) }, b)
	m.raced()
}

// VerifRaceBatch: a batch of two messages races a put, a get, a delete, a log write and a sync.
// @prop C30
// @bound a message in memory or files (thorough: log); a batch of two messages of two topics (thorough: or one), at any statement of which one of the following runs as far as it can: put to the same topic or another one; sync; delete of the first message (thorough: log write; get); then sync, close and open
// @steps 100000000
// @reach end
func VerifRaceBatch() {
	m := zzNewModel([]string{"a.b", "a.c"}, WithMutable())
	m.putID(0)
	switch vrt.Choose("before", 3) {
	case 1:
		vrt.Assume(vrt.Thorough())
		m.log()
	case 2:
		m.sync()
	}
	what := "psd"
	if vrt.Thorough() {
		what = "plsdg"
	}
	b := m.with(what)
	n := len(m.msgs)
	second := 1
	if vrt.Thorough() {
		second = vrt.Choose("second", 2)
	}
	for _, t := range []int{0, second} {
		m.n++
		m.msgs = append(m.msgs, zzMsg{topic: t, payload: []byte{vrt.U8("payload"), m.n}, id: m.db.NewID(), maybe: true})
	}
	vrt.Race(func() {
		err := m.db.Batch(func(bt *Batch, done <-chan struct{}) error {
			for _, x := range m.msgs[n:] {
				if err := bt.PutEntry(m.entry(x.topic, append([]byte(nil), x.payload...)).WithID(append([]byte(nil), x.id...))); err != nil {
					return err
				}
			}
			return nil
		})
		vrt.Assert(err == nil, "C30/batch-fails")
	}, b)
	for i := range m.msgs[n:] {
		m.msgs[n+i].maybe = false
	}
	m.raced()
}

// VerifRaceClose: a put, a delete or a get races Close.
// @prop C30
// @bound a message in memory, log or files; a put to its topic or another one, a delete or a get, at any statement of which Close runs as far as it can; then open: what was acknowledged is there
// @steps 100000000
// @reach end
func VerifRaceClose() {
	m := zzNewModel([]string{"a.b", "a.c"}, WithMutable())
	m.putID(0)
	switch vrt.Choose("before", 3) {
	case 1:
		m.log()
	case 2:
		m.sync()
	}
	var a func()
	switch vrt.Choose("op", 3) {
	case 0:
		t := vrt.Choose("topic", 2)
		m.n++
		x := zzMsg{topic: t, payload: []byte{vrt.U8("payload"), m.n}, id: m.db.NewID(), maybe: true}
		a = func() {
			err := m.db.PutEntry(m.entry(t, append([]byte(nil), x.payload...)).WithID(append([]byte(nil), x.id...)))
			x.maybe = err != nil
			m.msgs = append(m.msgs, x)
		}
	case 1:
		a = func() {
			x := &m.msgs[0]
			err := m.db.DeleteEntry(m.entry(x.topic, nil).WithID(append([]byte(nil), x.id...)))
			if err == nil {
				x.deleted = true
			} else {
				x.maybe = true
			}
		}
	case 2:
		a = func() {
			items, err := m.db.Get(NewQuery([]byte("a.b")).WithLimit(100))
			if err == nil {
				vrt.Assert(len(items) == 1 && vrt.EqBytes(items[0], m.msgs[0].payload), "C30/get-closing")
			}
		}
	}
	vrt.Race(a, func() {
		vrt.Assert(m.db.Close() == nil, "close-fails")
	})
	vrt.Settle()
	m.allLogged()
	m.db = zzOpen(m.opts...)
	m.checkAll("C30/race-close")
	vrt.Reach("end")
}

// VerifRaceIDs: two goroutines get ids, or put without one.
// @prop C30
// @bound a new id or a put without an id, at any statement of which a new id or a put without an id runs as far as it can; then sync, close and open
// @steps 100000000
// @reach end
func VerifRaceIDs() {
	m := zzNewModel([]string{"a.b"}, WithMutable())
	var ids [2]message.ID
	var ps [2][]byte
	op := func(i int) func() {
		ps[i] = []byte{vrt.U8("payload"), byte(i + 1)}
		if vrt.Bool("id") {
			return func() { ids[i] = message.ID(m.db.NewID()) }
		}
		return func() {
			vrt.Assert(m.db.Put([]byte("a.b"), append([]byte(nil), ps[i]...)) == nil, "C30/put-refused")
		}
	}
	a, b := op(0), op(1)
	vrt.Race(a, b)
	for i := range ids {
		if ids[i] != nil {
			vrt.Assert(ids[1-i] == nil || ids[0].Sequence() != ids[1].Sequence(), "C30/id-twice")
			ps[i] = append(ps[i], 0)
			vrt.Assert(m.db.PutEntry(NewEntry([]byte("a.b"), ps[i]).WithID(ids[i])) == nil, "C30/put-refused")
		}
	}
	check := func(tag string) {
		got := zzGet(m.db, "a.b", 0, 100)
		vrt.Assert(len(got) == 2, tag+"/count")
		for i := range got {
			k := got[i][1] - 1
			vrt.Assert(vrt.EqBytes(got[i], ps[k]), tag+"/content")
		}
		vrt.Assert(got[0][1] != got[1][1], tag+"/twice")
	}
	check("C30/ids")
	m.sync()
	check("C30/ids-sync")
	m.reopen()
	check("C30/ids-reopen")
	vrt.Reach("end")
}
