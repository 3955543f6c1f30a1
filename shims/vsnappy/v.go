// Package vsnappy models the compressor as an identity codec with the snappy
// block framing (uvarint length, literal chunks).
package vsnappy

import "errors"

var ErrCorrupt = errors.New("snappy: corrupt input")

// Fault makes the next n decodes fail.
var Fault int

func MaxEncodedLen(n int) int { return 32 + n + n/6 }

func Encode(dst, src []byte) []byte {
	n := len(src)
	out := make([]byte, 0, MaxEncodedLen(n))
	v := n
	for v >= 0x80 {
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	out = append(out, byte(v))
	if n == 0 {
		return out
	}
	l := n - 1
	switch {
	case l < 60:
		out = append(out, byte(l<<2))
	case l < 1<<8:
		out = append(out, 60<<2, byte(l))
	default:
		out = append(out, 61<<2, byte(l), byte(l>>8))
	}
	return append(out, src...)
}

func Decode(dst, src []byte) ([]byte, error) {
	n, s, i := 0, uint(0), 0
	for {
		if i >= len(src) || i > 4 {
			return nil, ErrCorrupt
		}
		b := src[i]
		i++
		n |= int(b&0x7f) << s
		if b < 0x80 {
			break
		}
		s += 7
	}
	if n == 0 {
		if i != len(src) {
			return nil, ErrCorrupt
		}
		return []byte{}, nil
	}
	if i >= len(src) || src[i]&3 != 0 {
		return nil, ErrCorrupt
	}
	l := int(src[i] >> 2)
	i++
	switch {
	case l < 60:
	case l == 60:
		if i >= len(src) {
			return nil, ErrCorrupt
		}
		l = int(src[i])
		i++
	case l == 61:
		if i+1 >= len(src) {
			return nil, ErrCorrupt
		}
		l = int(src[i]) | int(src[i+1])<<8
		i += 2
	default:
		return nil, ErrCorrupt
	}
	l++
	if l != n || len(src)-i != n {
		return nil, ErrCorrupt
	}
	return append([]byte{}, src[i:]...), nil
}

func DecodedLen(src []byte) (int, error) {
	d, err := Decode(nil, src)
	return len(d), err
}
