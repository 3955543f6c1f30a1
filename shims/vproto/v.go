// Package proto stands in for the protocol buffer library: an ideal codec. What it keeps of the real
// one: a message of only default values has no bytes, an empty bytes field comes back as nil, decoding
// damaged bytes reports an error (with the fields decoded so far kept), decoding of any bytes is possible.
// The per-message methods are generated from the struct tags of the package's own .pb.go files.
package proto

import (
	"errors"

	"github.com/unit-io/unitdb/zz_verif/vrt"
)

const ProtoPackageIsVersion2 = true
const ProtoPackageIsVersion3 = true

type Message interface {
	Reset()
	String() string
	ProtoMessage()
}

type coder interface {
	VMarshal() ([]byte, error)
	VUnmarshal(b []byte) error
}

var ErrTruncated = errors.New("proto: unexpected EOF")
var errNil = errors.New("proto: repeated field has nil element")
var errNilMsg = errors.New("proto: Marshal called with nil")

func NilElem() error { return errNil }

func Marshal(m Message) ([]byte, error) {
	c, ok := m.(coder)
	if !ok {
		return nil, errNilMsg
	}
	return c.VMarshal()
}

func Unmarshal(b []byte, m Message) error {
	m.Reset()
	if len(b) == 0 {
		return nil
	}
	return m.(coder).VUnmarshal(b)
}

func PutI32(b []byte, v int32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func PutBool(b []byte, v bool) []byte {
	return append(b, byte(vrt.IteInt(v, 1, 0)))
}

func PutLen(b []byte, n int) []byte {
	if n > 65535 {
		panic("vproto: field too long for the stand-in")
	}
	return append(b, byte(n), byte(n>>8))
}

func PutBytes(b, v []byte) []byte { return append(PutLen(b, len(v)), v...) }

func PutStr(b []byte, v string) []byte { return append(PutLen(b, len(v)), v...) }

func GetI32(p *[]byte) (int32, error) {
	b := *p
	if len(b) < 4 {
		return 0, ErrTruncated
	}
	*p = b[4:]
	return int32(b[0]) | int32(b[1])<<8 | int32(b[2])<<16 | int32(b[3])<<24, nil
}

func GetBool(p *[]byte) (bool, error) {
	b := *p
	if len(b) < 1 {
		return false, ErrTruncated
	}
	*p = b[1:]
	return b[0] != 0, nil
}

func GetLen(p *[]byte) (int, error) {
	b := *p
	if len(b) < 2 {
		return 0, ErrTruncated
	}
	*p = b[2:]
	return int(b[0]) | int(b[1])<<8, nil
}

func GetBytes(p *[]byte) ([]byte, error) {
	n, err := GetLen(p)
	if err != nil {
		return nil, err
	}
	b := *p
	if n > len(b) {
		return nil, ErrTruncated
	}
	for i := 0; i <= len(b); i++ {
		if n == i {
			*p = b[i:]
			if i == 0 {
				return nil, nil
			}
			return append([]byte(nil), b[:i]...), nil
		}
	}
	return nil, ErrTruncated
}

func GetStr(p *[]byte) (string, error) {
	b, err := GetBytes(p)
	return string(b), err
}

func RegisterType(Message, string)                               {}
func RegisterEnum(string, map[int32]string, map[string]int32)    {}
func RegisterFile(string, []byte)                                {}
func CompactTextString(Message) string                           { return "" }
func MarshalTextString(Message) string                           { return "" }
func EnumName(m map[int32]string, v int32) string                { return m[v] }
func Clone(m Message) Message                                    { panic("vproto: Clone") }
func Size(m Message) int                                         { b, _ := Marshal(m); return len(b) }

// And does not branch.
func And(a, b bool) bool { return vrt.And(a, b) }
