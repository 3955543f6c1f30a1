package memdb

import (
	"errors"
	"time"

	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

// VerifStore: a key has the value last put, or none.
// @prop C16
// @bound 4 (thorough 5) steps of put of a new key, put of a deleted key, delete of a key, log write, 0.3 s passing, next second with drain and free, close and open
// @steps 100000000
// @reach end
func VerifStore() {
	s := zzNewStore()
	n := 4
	if vrt.Thorough() {
		n = 5
	}
	s.put(1)
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 7) {
		case 0:
			s.put(s.last + 1)
		case 1:
			k := vrt.Choose("again", int(s.last)) + 1
			if _, there := s.val[uint64(k)]; !there {
				s.put(uint64(k))
			}
		case 2:
			s.del(uint64(vrt.Choose("key", int(s.last))) + 1)
		case 3:
			s.log()
		case 4:
			vtime.Advance(300 * time.Millisecond)
			s.log()
		case 5:
			s.reopen()
		case 6:
			vtime.Advance(time.Second)
			s.log()
			s.drain("C16/drain")
		}
		s.check("C16/store")
	}
	s.reopen()
	s.check("C16/store-reopen")
	vrt.Reach("end")
}

// VerifStoreBatch: a batch that fails leaves nothing behind, one that succeeds is there as a whole.
// @prop C16
// @bound 3 (thorough 4) steps of put, batch of two puts that succeeds or fails, with or without a write before its end, delete, log write, drain and free, close and open
// @steps 100000000
// @reach end
func VerifStoreBatch() {
	s := zzNewStore()
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 6) {
		case 0:
			s.put(s.last + 1)
		case 1, 2:
			fail := vrt.Bool("fails")
			write := vrt.Bool("write")
			a, b := s.last+1, s.last+2
			va, vb := s.value(), s.value()
			err := s.db.Batch(func(x *Batch, completed <-chan struct{}) error {
				vrt.Assert(x.Put(a, append([]byte(nil), va...)) == nil, "put-refused")
				if write {
					vrt.Assert(x.Write() == nil, "write-fails")
				}
				vrt.Assert(x.Put(b, append([]byte(nil), vb...)) == nil, "put-refused")
				if fail {
					return errors.New("no")
				}
				return nil
			})
			vrt.Assert((err != nil) == fail, "batch-result")
			vrt.Settle()
			s.last += 2
			if !fail {
				s.val[a], s.val[b] = va, vb
			}
		case 3:
			if s.last > 0 {
				s.del(s.last)
			}
		case 4:
			vtime.Advance(time.Second)
			s.log()
			s.drain("C16/batch-drain")
		case 5:
			s.reopen()
		}
		s.check("C16/batch")
	}
	s.reopen()
	s.check("C16/batch-reopen")
	vrt.Reach("end")
}
