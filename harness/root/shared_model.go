package unitdb

import (
	"github.com/unit-io/unitdb/zz_verif/vos"
	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

// zzMsg is a message the model remembers.
type zzMsg struct {
	topic   int
	payload []byte
	id      []byte
	deleted bool
	exp     uint32 // when it expires, 0: never
	logged  bool   // reached the write ahead log: has to survive a crash
	maybe   bool   // was not logged when the process died: may or may not be there
}

// zzModel is the database's abstract state: every acknowledged message in order.
type zzModel struct {
	db     *DB
	opts   []Options
	topics []string
	cons   []uint32 // contract per topic, all 0 when nil
	msgs   []zzMsg
	n      byte
}

func (m *zzModel) contract(t int) uint32 {
	if m.cons == nil {
		return 0
	}
	return m.cons[t]
}

// entry is an Entry of topic t, with its contract if it has one.
func (m *zzModel) entry(t int, payload []byte) *Entry {
	e := NewEntry([]byte(m.topics[t]), payload)
	if c := m.contract(t); c != 0 {
		e = e.WithContract(c)
	}
	return e
}

func zzNewModel(topics []string, opts ...Options) *zzModel {
	zzFresh()
	m := &zzModel{opts: opts, topics: topics}
	m.db = zzOpen(opts...)
	return m
}

// put stores a message of arbitrary content; the second byte numbers it.
func (m *zzModel) put(t int) {
	m.n++
	p := []byte{vrt.U8("payload"), m.n, vrt.U8("payload")}
	keep := append([]byte(nil), p...)
	vrt.Assert(m.db.Put([]byte(m.topics[t]), p) == nil, "put-refused")
	p[0], p[1], p[2] = 0, 0, 0 // the caller may reuse its buffer
	m.msgs = append(m.msgs, zzMsg{topic: t, payload: keep})
}

// putID is put with an id of NewID, so that the message can be deleted.
func (m *zzModel) putID(t int) {
	m.n++
	p := []byte{vrt.U8("payload"), m.n, vrt.U8("payload")}
	id := m.db.NewID()
	err := m.db.PutEntry(m.entry(t, append([]byte(nil), p...)).WithID(append([]byte(nil), id...)))
	vrt.Assert(err == nil, "put-refused")
	m.msgs = append(m.msgs, zzMsg{topic: t, payload: p, id: id})
}

func (m *zzModel) allLogged() {
	for i := range m.msgs {
		m.msgs[i].logged = true
	}
}

// log lets the log writer run.
func (m *zzModel) log() {
	zzLog()
	m.allLogged()
}

func (m *zzModel) sync() {
	zzSync(m.db)
	m.allLogged()
}

func (m *zzModel) reopen() {
	vrt.Assert(m.db.Close() == nil, "close-fails")
	m.allLogged()
	m.db = nil
	vrt.Settle()
	m.db = zzOpen(m.opts...)
}

// crash abandons the open database as a killed process would: what it wrote stays, its locks go.
func (m *zzModel) crash() {
	vrt.Settle()
	vos.Reboot()
	vtime.Clear()
	for i := range m.msgs {
		if !m.msgs[i].logged {
			m.msgs[i].maybe = true
		}
	}
	m.db = zzOpen(m.opts...)
}

// live lists the expected payloads of a topic, newest first.
func (m *zzModel) live(t int) (out []*zzMsg) {
	for i := len(m.msgs) - 1; i >= 0; i-- {
		if m.msgs[i].topic == t && !m.msgs[i].deleted && !m.msgs[i].expired() {
			out = append(out, &m.msgs[i])
		}
	}
	return out
}

// expired tells whether a message is past its time to live now.
func (x *zzMsg) expired() bool {
	return x.exp != 0 && x.exp <= uint32(vtime.NowNs()/1000000000)
}

func zzHas(items [][]byte, p []byte) bool {
	for _, it := range items {
		if len(it) > 1 && it[1] == p[1] {
			return true
		}
	}
	return false
}

// zzUnique drops a message that repeats the one before it.
func zzUnique(items [][]byte) (out [][]byte, dup bool) {
	for _, it := range items {
		if n := len(out); n > 0 && len(it) > 1 && len(out[n-1]) > 1 && it[1] == out[n-1][1] {
			dup = true
			continue
		}
		out = append(out, it)
	}
	return out, dup
}

// check compares Get with the model: same messages, same content, newest first.
func (m *zzModel) check(t, limit int, tag string) {
	all := m.live(t)
	got := zzGet(m.db, m.topics[t], m.contract(t), limit)
	vrt.Assert(len(got) <= limit, tag+"/limit-exceeded")
	got, dup := zzUnique(got)
	var want []*zzMsg // the messages that are there
	for _, w := range all {
		if w.maybe && !zzHas(got, w.payload) {
			continue
		}
		want = append(want, w)
	}
	if len(want) > limit {
		want = want[:limit]
	}
	for _, w := range want {
		vrt.Assert(zzHas(got, w.payload), tag+"/message-lost")
	}
	vrt.Assert(len(got) == len(want), tag+"/extra-message")
	for i, w := range want {
		vrt.Assert(len(got[i]) == len(w.payload) && got[i][1] == w.payload[1], tag+"/order")
		vrt.Assert(vrt.EqBytes(got[i], w.payload), tag+"/content")
	}
	vrt.Assert(!dup, tag+"/duplicate")
}

func (m *zzModel) checkAll(tag string) {
	for t := range m.topics {
		m.check(t, 100, tag)
	}
}

// del deletes the k-th message.
func (m *zzModel) del(k int) {
	x := &m.msgs[k]
	err := m.db.DeleteEntry(m.entry(x.topic, nil).WithID(append([]byte(nil), x.id...)))
	vrt.Assert(err == nil, "delete-refused")
	x.deleted = true
}

// putN is putID with a payload of n bytes.
func (m *zzModel) putN(t, n int) {
	m.n++
	p := make([]byte, n)
	for i := range p {
		p[i] = vrt.U8("payload")
	}
	p[1] = m.n
	id := m.db.NewID()
	err := m.db.PutEntry(m.entry(t, append([]byte(nil), p...)).WithID(append([]byte(nil), id...)))
	vrt.Assert(err == nil, "put-refused")
	m.msgs = append(m.msgs, zzMsg{topic: t, payload: p, id: id})
}
