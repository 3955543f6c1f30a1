// Package hash stands in for the topic hash of access keys: an ideal hash without collisions.
package hash

import "github.com/unit-io/unitdb/zz_verif/vrt"

type rec struct {
	text []byte
	salt uint32
}

var seen []rec

// WithSalt gives equal texts under equal salts equal values, and everything else different ones.
func WithSalt(text []byte, salt uint32) uint32 {
	for i, r := range seen {
		if len(r.text) == len(text) && vrt.And(r.salt == salt, vrt.EqBytes(r.text, text)) {
			return uint32(i+1) * 0x01020305
		}
	}
	seen = append(seen, rec{append([]byte(nil), text...), salt})
	return uint32(len(seen)) * 0x01020305
}

func New(b []byte) uint32 { return WithSalt(b, 0) }
