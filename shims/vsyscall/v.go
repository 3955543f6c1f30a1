package vsyscall

import "github.com/unit-io/unitdb/zz_verif/vos"

type Errno uintptr

func (e Errno) Error() string { return "errno" }

const (
	LOCK_EX = 2
	LOCK_NB = 4
	LOCK_SH = 1
	LOCK_UN = 8

	EWOULDBLOCK = Errno(11)
	EAGAIN      = Errno(11)
	EBADF       = Errno(9)
)

func Flock(fd int, how int) error {
	if !vos.Flock(fd, how&LOCK_UN != 0) {
		return EWOULDBLOCK
	}
	return nil
}
