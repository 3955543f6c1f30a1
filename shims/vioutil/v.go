package vioutil

import (
	"io"

	"github.com/unit-io/unitdb/zz_verif/vos"
)

var Discard io.Writer = io.Discard

func ReadDir(dir string) ([]vos.FileInfo, error) { return vos.ReadDirInfo(dir) }
func ReadFile(name string) ([]byte, error)       { return vos.ReadFile(name) }
func WriteFile(name string, b []byte, perm vos.FileMode) error {
	return vos.WriteFile(name, b, perm)
}
func ReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }
