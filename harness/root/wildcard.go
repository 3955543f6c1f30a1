package unitdb

import "github.com/unit-io/unitdb/zz_verif/vrt"

// zzTopic chooses a topic of up to depth levels out of words; multi allows "..." at its end.
func zzTopic(words []string, depth int, multi bool) (parts []string, s string) {
	n := vrt.Choose("levels", depth) + 1
	if multi && vrt.Bool("multi") {
		n--
		for i := 0; i < n; i++ {
			w := words[vrt.Choose("word", len(words))]
			parts = append(parts, w)
			if i > 0 {
				s += "."
			}
			s += w
		}
		return append(parts, "..."), s + "..."
	}
	for i := 0; i < n; i++ {
		w := words[vrt.Choose("word", len(words))]
		parts = append(parts, w)
		if i > 0 {
			s += "."
		}
		s += w
	}
	return parts, s
}

// zzMatch tells whether a message stored to topic w reaches topic q; unclear when the documentation does not say.
func zzMatch(w, q []string) (match, unclear bool) {
	for i, p := range w {
		if p == "..." {
			return true, len(q) == i
		}
		if i >= len(q) || (p != "*" && p != q[i]) {
			return false, false
		}
	}
	return len(w) == len(q), false
}

// VerifWildcard: one message stored to a static or wildcard topic is returned for exactly the topics it matches.
// @prop C07
// @bound topics of up to 3 levels (thorough 4) over two words and "*", with or without "..." at the end; queries of up to 3 (thorough 4) levels over the two words; payload bytes arbitrary; unsynced and synced
// @steps 100000000
// @reach end
func VerifWildcard() {
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	w, ws := zzTopic([]string{"a", "b", "*"}, n, true)
	q, qs := zzTopic([]string{"a", "b"}, n, false)
	m := zzNewModel([]string{ws})
	m.put(0)
	match, unclear := zzMatch(w, q)
	for i := 0; i < 2; i++ {
		got := zzGet(m.db, qs, 0, 10)
		if !unclear {
			if match {
				vrt.Assert(len(got) == 1, "C07/match-missed")
			} else {
				vrt.Assert(len(got) == 0, "C07/no-match-returned")
			}
		}
		for _, g := range got {
			vrt.Assert(vrt.EqBytes(g, m.msgs[0].payload), "C07/content")
		}
		if i == 0 {
			m.sync()
		}
	}
	vrt.Reach("end")
}
