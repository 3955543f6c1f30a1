package net

import (
	"bytes"
	"io"

	"github.com/unit-io/unitdb/server/utp"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

func vStr(name string) string {
	return vrt.Str(name, vrt.Choose(name+"n", 3))
}

func vBytes(name string) []byte {
	n := vrt.Choose(name+"n", 3)
	if n == 0 {
		return nil
	}
	return vrt.Bytes(name, n)
}

func vEqBytes(a, b []byte, id string) {
	vrt.Assert(len(a) == len(b), id+"-length")
	vrt.Assert(vrt.EqBytes(a, b), id)
}

func vEqStr(a, b, id string) { vEqBytes([]byte(a), []byte(b), id) }

func vRead(r io.Reader, id string) MessagePack {
	m, err := Read(r)
	vrt.Assert(err == nil, id+"/read-error")
	vrt.Assert(m != nil, id+"/nothing-read")
	return m
}

// vTail encodes a second message that follows on the same connection.
func vTail() ([]byte, func(r *bytes.Reader)) {
	id := vrt.U16("tail")
	vrt.Assume(id != 0)
	p := &utp.Publish{MessageID: id, DeliveryMode: 1, Messages: []*utp.PublishMessage{{Topic: "t"}}}
	b, err := p.ToBinary()
	vrt.Assert(err == nil, "C21/tail-encode")
	return b.Bytes(), func(r *bytes.Reader) {
		q, ok := vRead(r, "C21/next").(*utp.Publish)
		vrt.Assert(ok, "C21/next-type")
		vrt.Assert(q.MessageID == id, "C21/next-id")
		vrt.Assert(len(q.Messages) == 1, "C21/next-count")
		vEqStr(q.Messages[0].Topic, "t", "C21/next-topic")
		_, err := Read(r)
		vrt.Assert(err != nil, "C21/more-than-sent")
		vrt.Assert(r.Len() == 0, "C21/left-over")
		vrt.Reach("next")
	}
}

// VerifWireRequests: requests survive the wire, one at a time and in order.
// @prop C21
// @bound one request of every kind (connect, publish, relay, subscribe, unsubscribe, ping, disconnect) with 0..2 entries, every id, number and flag arbitrary, texts and payloads of 0..2 arbitrary bytes, followed by a publish
// @note the protocol buffer library is an ideal codec over the field tags of the generated code
// @reach connect publish relay subscribe unsubscribe ping disconnect next
func VerifWireRequests() {
	tail, next := vTail()
	var buf bytes.Buffer
	var err error
	kind := vrt.Choose("kind", 7)
	switch kind {
	case 0:
		a := &utp.Connect{
			Version: vrt.I32("version"), InsecureFlag: vrt.Bool("insecure"), ClientID: vStr("client"),
			KeepAlive: vrt.I32("keep"), CleanSessFlag: vrt.Bool("clean"), SessKey: vrt.I32("sess"),
			Username: vStr("user"), Password: vBytes("pass"), BatchDuration: vrt.I32("bd"),
			BatchByteThreshold: vrt.I32("bb"), BatchCountThreshold: vrt.I32("bc"),
		}
		buf, err = a.ToBinary()
		vrt.Assert(err == nil, "C21/encode")
		r := bytes.NewReader(append(append([]byte(nil), buf.Bytes()...), tail...))
		b, ok := vRead(r, "C21/connect").(*utp.Connect)
		vrt.Assert(ok, "C21/connect-type")
		vrt.Assert(a.Version == b.Version, "C21/connect-version")
		vrt.Assert(a.InsecureFlag == b.InsecureFlag, "C21/connect-insecure")
		vEqStr(a.ClientID, b.ClientID, "C21/connect-client")
		vrt.Assert(a.KeepAlive == b.KeepAlive, "C21/connect-keepalive")
		vrt.Assert(a.CleanSessFlag == b.CleanSessFlag, "C21/connect-clean")
		vrt.Assert(a.SessKey == b.SessKey, "C21/connect-session")
		vEqStr(a.Username, b.Username, "C21/connect-user")
		vEqBytes(a.Password, b.Password, "C21/connect-password")
		vrt.Assert(a.BatchDuration == b.BatchDuration, "C21/connect-batch-duration")
		vrt.Assert(a.BatchByteThreshold == b.BatchByteThreshold, "C21/connect-batch-bytes")
		vrt.Assert(a.BatchCountThreshold == b.BatchCountThreshold, "C21/connect-batch-count")
		vrt.Reach("connect")
		next(r)
	case 1:
		a := &utp.Publish{MessageID: vrt.U16("id"), DeliveryMode: vrt.U8("mode")}
		for i := vrt.Choose("n", 3); i > 0; i-- {
			a.Messages = append(a.Messages, &utp.PublishMessage{Topic: vStr("topic"), Payload: vBytes("payload"), Ttl: vStr("ttl")})
		}
		buf, err = Encode(a)
		vrt.Assert(err == nil, "C21/encode")
		r := bytes.NewReader(append(append([]byte(nil), buf.Bytes()...), tail...))
		b, ok := vRead(r, "C21/publish").(*utp.Publish)
		vrt.Assert(ok, "C21/publish-type")
		vrt.Assert(a.MessageID == b.MessageID, "C21/publish-id")
		vrt.Assert(a.DeliveryMode == b.DeliveryMode, "C21/publish-mode")
		vrt.Assert(len(a.Messages) == len(b.Messages), "C21/publish-count")
		for i := range a.Messages {
			vEqStr(a.Messages[i].Topic, b.Messages[i].Topic, "C21/publish-topic")
			vEqBytes(a.Messages[i].Payload, b.Messages[i].Payload, "C21/publish-payload")
			vEqStr(a.Messages[i].Ttl, b.Messages[i].Ttl, "C21/publish-ttl")
		}
		vrt.Reach("publish")
		next(r)
	case 2:
		a := &utp.Relay{MessageID: vrt.U16("id")}
		for i := vrt.Choose("n", 3); i > 0; i-- {
			a.RelayRequests = append(a.RelayRequests, &utp.RelayRequest{Topic: vStr("topic"), Last: vStr("last")})
		}
		buf, err = a.ToBinary()
		vrt.Assert(err == nil, "C21/encode")
		r := bytes.NewReader(append(append([]byte(nil), buf.Bytes()...), tail...))
		b, ok := vRead(r, "C21/relay").(*utp.Relay)
		vrt.Assert(ok, "C21/relay-type")
		vrt.Assert(a.MessageID == b.MessageID, "C21/relay-id")
		vrt.Assert(len(a.RelayRequests) == len(b.RelayRequests), "C21/relay-count")
		for i := range a.RelayRequests {
			vEqStr(a.RelayRequests[i].Topic, b.RelayRequests[i].Topic, "C21/relay-topic")
			vEqStr(a.RelayRequests[i].Last, b.RelayRequests[i].Last, "C21/relay-last")
		}
		vrt.Reach("relay")
		next(r)
	case 3, 4:
		id := vrt.U16("id")
		var subs []*utp.Subscription
		for i := vrt.Choose("n", 3); i > 0; i-- {
			subs = append(subs, &utp.Subscription{DeliveryMode: vrt.U8("mode"), Delay: vrt.I32("delay"), Topic: vStr("topic")})
		}
		if kind == 3 {
			buf, err = (&utp.Subscribe{MessageID: id, Subscriptions: subs}).ToBinary()
		} else {
			buf, err = (&utp.Unsubscribe{MessageID: id, Subscriptions: subs}).ToBinary()
		}
		vrt.Assert(err == nil, "C21/encode")
		r := bytes.NewReader(append(append([]byte(nil), buf.Bytes()...), tail...))
		var got []*utp.Subscription
		if kind == 3 {
			b, ok := vRead(r, "C21/subscribe").(*utp.Subscribe)
			vrt.Assert(ok, "C21/subscribe-type")
			vrt.Assert(id == b.MessageID, "C21/subscribe-id")
			got = b.Subscriptions
			vrt.Reach("subscribe")
		} else {
			b, ok := vRead(r, "C21/unsubscribe").(*utp.Unsubscribe)
			vrt.Assert(ok, "C21/unsubscribe-type")
			vrt.Assert(id == b.MessageID, "C21/unsubscribe-id")
			got = b.Subscriptions
			vrt.Reach("unsubscribe")
		}
		vrt.Assert(len(got) == len(subs), "C21/subscription-count")
		for i := range subs {
			vrt.Assert(subs[i].DeliveryMode == got[i].DeliveryMode, "C21/subscription-mode")
			vrt.Assert(subs[i].Delay == got[i].Delay, "C21/subscription-delay")
			vEqStr(subs[i].Topic, got[i].Topic, "C21/subscription-topic")
		}
		next(r)
	case 5:
		buf, err = (&utp.Pingreq{}).ToBinary()
		vrt.Assert(err == nil, "C21/encode")
		r := bytes.NewReader(append(append([]byte(nil), buf.Bytes()...), tail...))
		_, ok := vRead(r, "C21/ping").(*utp.Pingreq)
		vrt.Assert(ok, "C21/ping-type")
		vrt.Reach("ping")
		next(r)
	case 6:
		buf, err = Encode(&utp.Disconnect{MessageID: vrt.U16("id")})
		vrt.Assert(err == nil, "C21/encode")
		r := bytes.NewReader(append(append([]byte(nil), buf.Bytes()...), tail...))
		_, ok := vRead(r, "C21/disconnect").(*utp.Disconnect)
		vrt.Assert(ok, "C21/disconnect-type")
		vrt.Reach("disconnect")
		next(r)
	}
}

// VerifWireControl: acknowledgements and the other control messages survive the wire.
// @prop C21
// @bound every control message the protocol defines (acknowledge of connect..ping; notify, receive, receipt, complete of a publish), every id, 0..3 arbitrary bytes of content; connect acknowledgements with arbitrary code, epoch and connection id inside; followed by a publish
// @note the protocol buffer library is an ideal codec over the field tags of the generated code
// @reach control connack next
func VerifWireControl() {
	tail, next := vTail()
	fc := utp.FlowControl(vrt.Int("fc", 1, 5))
	mt := utp.MessageType(vrt.Int("mt", 1, 6))
	vrt.Assume(vrt.Or(fc == utp.ACKNOWLEDGE, mt == utp.PUBLISH))
	a := &utp.ControlMessage{MessageID: vrt.U16("id"), MessageType: mt, FlowControl: fc}
	var ca *utp.ConnectAcknowledge
	if vrt.Choose("what", 2) == 1 {
		ca = &utp.ConnectAcknowledge{ReturnCode: vrt.U8("code"), Epoch: vrt.I32("epoch"), ConnID: vrt.I32("conn")}
		b, err := ca.ToBinary()
		vrt.Assert(err == nil, "C21/encode")
		a.Message = b.Bytes()
	} else if n := vrt.Choose("n", 4); n > 0 {
		a.Message = vrt.Bytes("msg", n)
	}
	buf, err := Encode(a)
	vrt.Assert(err == nil, "C21/encode")
	r := bytes.NewReader(append(append([]byte(nil), buf.Bytes()...), tail...))
	b, ok := vRead(r, "C21/control").(*utp.ControlMessage)
	vrt.Assert(ok, "C21/control-type")
	vrt.Assert(a.MessageID == b.MessageID, "C21/control-id")
	vrt.Assert(a.MessageType == b.MessageType, "C21/control-of")
	vrt.Assert(a.FlowControl == b.FlowControl, "C21/control-flow")
	vEqBytes(a.Message, b.Message, "C21/control-content")
	if ca != nil {
		cb := &utp.ConnectAcknowledge{}
		cb.FromBinary(utp.FixedHeader{}, b.Message)
		vrt.Assert(ca.ReturnCode == cb.ReturnCode, "C21/connack-code")
		vrt.Assert(ca.Epoch == cb.Epoch, "C21/connack-epoch")
		vrt.Assert(ca.ConnID == cb.ConnID, "C21/connack-conn")
		vrt.Reach("connack")
	}
	vrt.Reach("control")
	next(r)
}

// VerifWireBytes: whatever bytes a client sends, reading a message from them ends with a message or an error.
// @prop C22
// @bound streams of 0..32 arbitrary bytes (a declared length above 64 is not followed further)
// @note the protocol buffer library is an ideal codec: any bytes decode to some field values or to an error
// @reach error message
func VerifWireBytes() {
	n := vrt.Choose("n", 33)
	b := vrt.Bytes("b", n)
	if n > 12 {
		// keep the declared length of the body small or negative
		vrt.Assume(vrt.Or(b[12] >= 0x80, vrt.And(vrt.And(b[12] == 0, b[11] == 0), vrt.And(b[10] == 0, b[9] <= 64))))
	}
	if n > 0 {
		vrt.Assume(b[0] <= 12)
	}
	m, err := Read(bytes.NewReader(b))
	if err != nil {
		vrt.Reach("error")
		return
	}
	vrt.Assert(m != nil, "C22/no-message-no-error")
	vrt.Reach("message")
}
