package memdb

import (
	"time"

	"github.com/unit-io/unitdb/zz_verif/vos"
	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

// checkKilled compares the store after a kill with the model: logged entries are there or were handed out, deleted ones are gone.
func (s *zzStore) checkKilled(logged map[uint64]bool, tag string) {
	for k := uint64(1); k <= s.last; k++ {
		want, there := s.val[k]
		got, err := s.db.Get(k)
		if err == nil {
			vrt.Assert(there, tag+"/deleted-there")
			vrt.Assert(vrt.EqBytes(got, want), tag+"/value")
			continue
		}
		_, out := s.out[k]
		vrt.Assert(!there || !logged[k] || out, tag+"/lost")
		if there && !out {
			delete(s.val, k)
		}
	}
}

// some takes n steps of put, delete and 0.3 s passing with a log write.
func (s *zzStore) some(n int) {
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 3) {
		case 0:
			s.put(s.last + 1)
		case 1:
			if s.last > 0 {
				s.del(uint64(vrt.Choose("key", int(s.last))) + 1)
			}
		case 2:
			vtime.Advance(300 * time.Millisecond)
			s.log()
		}
	}
}

func (s *zzStore) logged() map[uint64]bool {
	s.log()
	l := map[uint64]bool{}
	for k := range s.val {
		l[k] = true
	}
	return l
}

func (s *zzStore) killed(logged map[uint64]bool, tag string) {
	s.crash()
	s.checkKilled(logged, tag)
	s.some(1)
	s.log()
	s.crash()
	s.check(tag + "-after")
	vrt.Reach("end")
}

// VerifStoreKill: killed at any point of a log write or a close, a logged entry is kept and a logged delete stays.
// @prop C17
// @bound put; any 3 (thorough 4) steps of put, delete of a key, 0.3 s passing with a log write; log write; put; then a kill right before any file operation of a log write or close; then one more step, log write and kill
// @steps 100000000
// @reach end
func VerifStoreKill() {
	s := zzNewStore()
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	s.put(1)
	s.some(n)
	logged := s.logged()
	s.put(s.last + 1)
	vos.Arm(vrt.Choose("at", 4))
	if vrt.Bool("close") {
		s.db.Close()
	} else {
		s.log()
	}
	s.killed(logged, "C17/kill")
}

// VerifStoreKillDrain: killed at any point of a drain, a logged entry was handed out or is kept and a logged delete stays.
// @prop C17
// @bound any 2 (thorough 3) steps of put, delete of a key, 0.3 s passing with a log write; close and open or not; 1 (thorough 2) more steps, a put and log write; then a kill right before any file operation of a drain; then one more step, log write and kill
// @steps 100000000
// @reach end
func VerifStoreKillDrain() {
	s := zzNewStore()
	n := 1
	if vrt.Thorough() {
		n = 2
	}
	s.some(n + 1)
	if vrt.Bool("reopen") {
		s.reopen()
	}
	s.some(n)
	s.put(s.last + 1)
	logged := s.logged()
	vtime.Advance(time.Second)
	s.log()
	vos.Arm(vrt.Choose("at", 5))
	s.drain("C17/drain")
	s.killed(logged, "C17/drain-kill")
}
