package memdb

import (
	"time"

	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

// @points memdb !meter.go !options.go
// @points wal !header.go

// op makes an operation on the store that can run along with others; done tells the model.
func (s *zzStore) op(what string) (run, done func()) {
	k := vrt.Choose("op", len(what))
	switch what[k] {
	case 'p':
		v := s.value()
		s.last++
		key := s.last
		return func() {
				_, err := s.db.Put(key, append([]byte(nil), v...))
				vrt.Assert(err == nil, "C31/store-put-refused")
			}, func() {
				s.val[key] = v
			}
	case 'd':
		s.deleting = true
		return func() {
				err := s.db.Delete(1)
				vrt.Assert(err == nil || err == errEntryDoesNotExist, "C31/store-delete-refused")
			}, func() {
				delete(s.val, 1)
			}
	case 'g':
		return func() {
			v, err := s.db.Get(1)
			vrt.Assert(err == nil || s.deleting, "C31/store-get-fails")
			vrt.Assert(err != nil || vrt.EqBytes(v, s.val[1]), "C31/store-get")
		}, func() {}
	case 'b':
		v := s.value()
		s.last++
		key := s.last
		return func() {
				err := s.db.Batch(func(b *Batch, done <-chan struct{}) error {
					return b.Put(key, append([]byte(nil), v...))
				})
				vrt.Assert(err == nil, "C31/store-batch-fails")
			}, func() {
				s.val[key] = v
			}
	}
	return func() { s.log() }, func() {}
}

func (s *zzStore) raced() {
	s.check("C31/store")
	s.log()
	s.check("C31/store-logged")
	s.crash()
	s.check("C31/store-kill")
	vrt.Reach("end")
}

// VerifRaceStore: two operations of the store run at once.
// @prop C31
// @bound an entry, logged or not, in the current time block or an older one; a put, delete, batch or log write, at any statement of which one of the following runs as far as it can: put, delete (of the entry), batch, get, log write (thorough: also a second later); then log write, kill, open
// @steps 100000000
// @reach end
func VerifRaceStore() {
	s := zzNewStore()
	s.put(1)
	switch vrt.Choose("before", 3) {
	case 1:
		s.log()
	case 2:
		vtime.Advance(time.Second)
		s.log()
	}
	a, adone := s.op("pdb")
	b, bdone := s.op("pdbgl")
	if vrt.Thorough() && vrt.Bool("later") {
		vtime.Advance(time.Second)
	}
	vrt.Race(a, b)
	adone()
	bdone()
	s.raced()
}

// VerifRaceLog: an operation of the store runs along with the log writer.
// @prop C31
// @bound two entries, the first logged or not, the second not; a log write, at any statement of whose goroutines one of the following runs as far as it can: put, delete of the first entry, batch, get; then log write, kill, open
// @steps 100000000
// @reach end
func VerifRaceLog() {
	s := zzNewStore()
	s.put(1)
	if vrt.Bool("before") {
		s.log()
	}
	s.put(2)
	b, bdone := s.op("pdbg")
	if vrt.Bool("later") {
		vtime.Advance(time.Second)
	}
	vrt.RaceBg(s.log, b)
	bdone()
	s.raced()
}
