package common

import (
	"context"
	"errors"

	proto "github.com/unit-io/unitdb/zz_verif/vproto"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

type vPacket struct{ Data []byte }

func (p *vPacket) Reset()         { *p = vPacket{} }
func (p *vPacket) String() string { return "" }
func (p *vPacket) ProtoMessage()  {}

type vStream struct{ q [][]byte }

func (s *vStream) Context() context.Context { return nil }
func (s *vStream) SendMsg(m interface{}) error {
	s.q = append(s.q, append([]byte(nil), m.(*vPacket).Data...))
	return nil
}
func (s *vStream) RecvMsg(m interface{}) error {
	if len(s.q) == 0 {
		return errors.New("EOF")
	}
	m.(*vPacket).Data = s.q[0]
	s.q = s.q[1:]
	return nil
}

func vField(m proto.Message) *[]byte { return &m.(*vPacket).Data }

// VerifStream: bytes written to a connection over a message stream come out once each and in order.
// @prop C27
// @bound 1..2 writes of 0..5 arbitrary bytes, sent in messages of at most 1..3 bytes, read with buffers of 0..6 bytes until all is read (thorough: 3 writes)
// @reach end
func VerifStream() {
	st := &vStream{}
	size := 1 + vrt.Choose("chunk", 3)
	w := &Conn{Stream: st, InMsg: &vPacket{}, OutMsg: &vPacket{}, Encode: ChunkedEncoder(Encode(vField), size), Decode: Decode(vField)}
	r := &Conn{Stream: st, InMsg: &vPacket{}, OutMsg: &vPacket{}, Encode: Encode(vField), Decode: Decode(vField)}
	var sent []byte
	nw := 1 + vrt.Choose("writes", 2)
	if vrt.Thorough() {
		nw++
	}
	for i := 0; i < nw; i++ {
		p := vrt.Bytes("p", vrt.Choose("pn", 6))
		n, err := w.Write(p)
		vrt.Assert(err == nil, "C27/write-error")
		vrt.Assert(n == len(p), "C27/write-count")
		sent = append(sent, p...)
	}
	for _, m := range st.q {
		vrt.Assert(len(m) <= size, "C27/message-too-long")
	}
	var got []byte
	bl := vrt.Choose("buf", 7)
	zero := vrt.Choose("zero", 2) == 1
	if bl == 0 {
		bl = 1
		zero = true
	}
	for step := 0; len(got) < len(sent) && step < 30; step++ {
		if zero {
			n, err := r.Read(nil)
			vrt.Assert(vrt.And(n == 0, err == nil), "C27/empty-read")
		}
		p := make([]byte, bl)
		n, err := r.Read(p)
		vrt.Assert(err == nil, "C27/bytes-lost")
		vrt.Assert(n >= 0 && n <= len(p), "C27/read-count")
		got = append(got, p[:n]...)
	}
	vrt.Assert(len(got) == len(sent), "C27/count")
	vrt.Assert(vrt.EqBytes(got, sent), "C27/content")
	vrt.Reach("end")
}
