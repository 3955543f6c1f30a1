// Package vcrand makes cryptographic randomness arbitrary.
package vcrand

import (
	"io"

	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// Fixed makes Read deterministic when set.
var Fixed bool

type reader struct{}

func (reader) Read(p []byte) (int, error) { return Read(p) }

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) {
	if Fixed {
		for i := range p {
			p[i] = byte(i*37 + 11)
		}
		return len(p), nil
	}
	copy(p, vrt.Bytes("rand", len(p)))
	return len(p), nil
}
