package memdb

import (
	"time"

	"github.com/unit-io/unitdb/zz_verif/vcrand"
	"github.com/unit-io/unitdb/zz_verif/vos"
	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

const zzPath = "/vdb"

// zzStore is a store and what it has to hold.
type zzStore struct {
	db       *DB
	n        byte
	val      map[uint64][]byte // value last put, absent when deleted
	out      map[uint64][]byte // value last handed out before its block was freed
	gone     map[uint64]bool   // handed out and freed: not there any more
	last     uint64            // largest key in use
	deleting bool              // key 1 is being deleted
	sub      int64             // where in the second the store starts
}

func zzNewStore() *zzStore {
	vcrand.Fixed = true
	vos.Reset()
	vtime.Clear()
	vtime.ClearSec()
	vtime.SetStep(1000)
	vtime.Set(1600000000 * 1000000000)
	s := &zzStore{val: map[uint64][]byte{}, out: map[uint64][]byte{}, gone: map[uint64]bool{}}
	s.open()
	return s
}

func (s *zzStore) open() {
	vtime.Clear()
	db, err := Open(WithLogFilePath(zzPath))
	vrt.Assert(err == nil && db != nil, "open-fails")
	vrt.Settle()
	s.db = db
}

func (s *zzStore) value() []byte {
	s.n++
	return []byte{vrt.U8("value"), s.n}
}

// put stores a value of arbitrary content.
func (s *zzStore) put(key uint64) {
	v := s.value()
	keep := append([]byte(nil), v...)
	_, err := s.db.Put(key, v)
	vrt.Assert(err == nil, "put-refused")
	v[0], v[1] = 0, 0
	s.val[key] = keep
	delete(s.gone, key)
	if key > s.last {
		s.last = key
	}
}

func (s *zzStore) del(key uint64) {
	_, there := s.val[key]
	_, err := s.db.Get(key)
	in := err == nil
	err = s.db.Delete(key)
	vrt.Assert((err == nil) == in, "delete-result")
	vrt.Assert(there || !in, "deleted-key-there")
	if in {
		delete(s.val, key)
		delete(s.out, key)
	}
}

// log lets the log writer run.
func (s *zzStore) log() {
	vtime.Fire(15 * time.Millisecond)
	vrt.Settle()
}

func (s *zzStore) reopen() {
	vrt.Assert(s.db.Close() == nil, "close-fails")
	vrt.Settle()
	s.open()
}

func (s *zzStore) crash() {
	vrt.Settle()
	vos.Reboot()
	s.gone = map[uint64]bool{} // a free may be lost with the process
	s.open()
}

// check compares the store with the model.
func (s *zzStore) check(tag string) {
	live := 0
	for k := uint64(1); k <= s.last; k++ {
		want, there := s.val[k]
		got, err := s.db.Get(k)
		if err != nil {
			v, ok := s.out[k]
			vrt.Assert(!there || ok, tag+"/lost")
			if there && ok {
				vrt.Assert(vrt.EqBytes(v, want), tag+"/handed-out-stale")
			}
			continue
		}
		live++
		vrt.Assert(!s.gone[k], tag+"/freed-there")
		vrt.Assert(there, tag+"/deleted-there")
		vrt.Assert(len(got) == len(want) && got[1] == want[1] && vrt.EqBytes(got, want), tag+"/value")
	}
	keys := s.db.Keys()
	seen := map[uint64]bool{}
	for _, k := range keys {
		vrt.Assert(!seen[k], tag+"/key-twice")
		seen[k] = true
		_, err := s.db.Get(k)
		vrt.Assert(err == nil, tag+"/key-without-entry")
	}
	vrt.Assert(len(keys) == live, tag+"/keys")
	vrt.Assert(s.db.Size() == int64(live), tag+"/size")
}

// drain takes what was logged and frees it, as a sync does.
func (s *zzStore) drain(tag string) {
	var ids []int64
	var taken []uint64
	err := s.db.BlockIterator(func(timeID int64, keys []uint64) (bool, error) {
		for _, k := range keys {
			v, err := s.db.Lookup(timeID, k)
			vrt.Assert(err == nil, tag+"/lookup-fails")
			_, there := s.val[k]
			vrt.Assert(there, tag+"/deleted-handed-out")
			s.out[k] = append([]byte(nil), v...)
		}
		ids = append(ids, timeID)
		taken = append(taken, keys...)
		return false, nil
	})
	vrt.Assert(err == nil, tag+"/iterator-fails")
	for _, id := range ids {
		vrt.Assert(s.db.Free(id) == nil, tag+"/free-fails")
	}
	for _, k := range taken {
		s.gone[k] = true
	}
}
