package security

import "github.com/unit-io/unitdb/zz_verif/vrt"

func vTopic(name string, max int) string {
	n := 1 + vrt.Choose(name+"n", max)
	b := vrt.Bytes(name, n)
	for _, c := range b {
		vrt.Assume(vrt.And(c != '/', c != '?'))
	}
	return string(b)
}

// VerifKeyAccess: an access key carries its permissions and opens its own topic only.
// @prop C23
// @bound topics of 1..3 arbitrary bytes (thorough 1..4; no slash, no question mark), every contract, every set of the four permissions; every other topic of 1..3 (1..4) bytes
// @note the 32-bit topic hash is an ideal one here (different texts, different values); the hash itself: VerifTopicHash
// @reach own other wildcard plain
func VerifKeyAccess() {
	contract := vrt.U32("contract")
	max := 3
	if vrt.Thorough() {
		max = 4
	}
	topic := vTopic("topic", max)
	perm := vrt.U32("perm")
	vrt.Assume(perm&^(AllowOwner|AllowAdmin|AllowReadWrite) == 0)
	text, err := GenerateKey(contract, topic, perm)
	vrt.Assert(err == nil, "C23/generate")
	key, err := DecodeKey(text)
	vrt.Assert(err == nil, "C23/decode")
	vrt.Assert(key.Permissions() == perm, "C23/permissions")
	for _, f := range []uint32{AllowOwner, AllowAdmin, AllowRead, AllowWrite, AllowReadWrite} {
		vrt.Assert(key.HasPermission(f) == (perm&f == f), "C23/has-permission")
	}
	ok, wild := key.ValidateTopic(contract, topic)
	vrt.Assert(ok, "C23/own-topic-refused")
	vrt.Reach("own")
	star := false
	if n := len(topic); topic[n-1] == '*' {
		star = true
	}
	for i := 0; i+1 < len(topic); i++ {
		if topic[i] == '*' && topic[i+1] == '.' {
			star = true
		}
	}
	if star || topic == "..." {
		vrt.Assert(wild, "C23/wildcard-not-reported")
		vrt.Reach("wildcard")
	} else {
		dots := true
		for i := 0; i < len(topic); i++ {
			if topic[i] != '.' {
				dots = false
			}
		}
		if !dots {
			vrt.Assert(!wild, "C23/plain-topic-called-wildcard")
			vrt.Reach("plain")
		}
	}
	other := vrt.Bytes("other", 1+vrt.Choose("on", max))
	if topic == "..." {
		return
	}
	vrt.Assume(string(other) != topic)
	ok, _ = key.ValidateTopic(contract, string(other))
	vrt.Assert(!ok, "C23/other-topic-allowed")
	vrt.Reach("other")
}

// VerifKeyAll: the key for "..." opens every topic, for reading.
// @prop C23
// @bound topics of 1..4 arbitrary bytes, every contract
// @note ideal topic hash
// @reach all
func VerifKeyAll() {
	contract := vrt.U32("contract")
	text, err := GenerateKey(contract, "...", AllowRead)
	vrt.Assert(err == nil, "C23/generate")
	key, err := DecodeKey(text)
	vrt.Assert(err == nil, "C23/decode")
	ok, wild := key.ValidateTopic(contract, vTopic("topic", 4))
	vrt.Assert(vrt.And(ok, wild), "C23/all-topics-refused")
	vrt.Assert(!key.HasPermission(AllowWrite), "C23/permission-made-up")
	vrt.Reach("all")
}

// VerifKeyText: the text in front of a topic is the key, what follows the question mark is not part of the topic.
// @prop C23
// @bound every text of 0..6 (thorough 0..8) characters over a letter, the separators '/', '?' and '.'
// @reach keyed bare
func VerifKeyText() {
	max := 7
	if vrt.Thorough() {
		max = 9
	}
	n := vrt.Choose("n", max)
	b := make([]byte, n)
	for i := range b {
		b[i] = "a/?."[vrt.Int("c", 0, 3)]
	}
	text := string(b)
	t := ParseKey(text)
	vrt.Assert(t != nil, "C23/nil-topic")
	vrt.Assert(t.Size >= 0 && t.Size <= len(t.Topic), "C23/size-outside")
	// the parts between slashes
	var parts []string
	s := 0
	for i := 0; i <= n; i++ {
		if i == n || b[i] == '/' {
			if i > s {
				parts = append(parts, string(b[s:i]))
			}
			s = i + 1
		}
	}
	var want string
	switch {
	case len(parts) == 0:
		vrt.Assert(t.TopicType == TopicInvalid, "C23/empty-text-accepted")
		return
	case len(parts) == 1:
		vrt.Assert(t.Key == "", "C23/key-made-up")
		want = parts[0]
		vrt.Reach("bare")
	default:
		vrt.Assert(t.Key == parts[0], "C23/key")
		want = parts[1]
		vrt.Reach("keyed")
	}
	if t.TopicType == TopicInvalid {
		for i := 0; i < len(want); i++ {
			vrt.Assert(want[i] == '?', "C23/good-topic-refused")
		}
		return
	}
	vrt.Assert(t.Topic == want, "C23/topic")
	if want[0] != '?' {
		q := 0
		for q < len(want) && want[q] != '?' {
			q++
		}
		vrt.Assert(t.Size == q, "C23/options-in-topic")
	}
}

// VerifKeyBytes: no key text sent by a client is trouble: it decodes to a key or is refused.
// @prop C22
// @bound key texts of 0..14 arbitrary bytes, every contract, a topic of 1 arbitrary byte
// @note ideal topic hash
// @reach ok refused
func VerifKeyBytes() {
	n := vrt.Choose("n", 15)
	key, err := DecodeKey(vrt.Str("k", n))
	if err != nil {
		vrt.Reach("refused")
		return
	}
	key.HasPermission(AllowRead)
	key.ValidateTopic(vrt.U32("contract"), vrt.Str("t", 1))
	vrt.Reach("ok")
}
