package hash

import "github.com/unit-io/unitdb/zz_verif/vrt"

// VerifRing: every key has an owner among the nodes, all members agree on it, and a new node takes keys only for itself.
// @prop C25
// @bound 1..2 nodes of 2 replicas, 3 nodes of 1 (thorough 2) replicas, the nodes added in every order and grouping, every hash function (its values on the texts it is asked for are arbitrary, equal values included)
// @note the 128-bit signature hash is ideal: different contents, different sums
// @reach end grow
func VerifRing() {
	reps := 2
	memo := map[string]uint32{}
	fn := func(b []byte) uint32 {
		k := string(b)
		if v, ok := memo[k]; ok {
			return v
		}
		v := vrt.U32("h" + k)
		memo[k] = v
		return v
	}
	nodes := []string{"a", "b", "c"}[:1+vrt.Choose("nodes", 3)]
	n := len(nodes)
	if n == 3 && !vrt.Thorough() {
		reps = 1
	}
	one := NewRing(reps, fn)
	one.Add(nodes...)
	// any order
	perm := []string{}
	used := [3]bool{}
	for i := 0; i < n; i++ {
		k := vrt.Choose("next", n-i)
		for j := 0; j < n; j++ {
			if used[j] {
				continue
			}
			if k == 0 {
				used[j] = true
				perm = append(perm, nodes[j])
				break
			}
			k--
		}
	}
	two := NewRing(reps, fn)
	before, have := "", false
	for i, p := range perm {
		if i == n-1 && i > 0 {
			before, have = two.Get("key"), true
		}
		two.Add(p)
	}
	got := one.Get("key")
	member := false
	for _, x := range nodes {
		if x == got {
			member = true
		}
	}
	vrt.Assert(member, "C25/owner-not-a-node")
	vrt.Assert(two.Get("key") == got, "C25/members-disagree")
	vrt.Assert(one.Len() == n*reps, "C25/replicas")
	vrt.Assert(two.Signature() == one.Signature(), "C25/same-members-different-signature")
	if n > 1 {
		three := NewRing(reps, fn)
		three.Add(nodes[1:]...)
		vrt.Assert(three.Signature() != one.Signature(), "C25/other-members-same-signature")
	}
	if have {
		vrt.Assert(vrt.Or(got == before, got == perm[n-1]), "C25/key-moved-between-old-nodes")
		vrt.Reach("grow")
	}
	vrt.Reach("end")
}

// VerifRingEmpty: a ring without nodes has no owner.
// @prop C25
// @bound 1 key
// @reach end
func VerifRingEmpty() {
	r := NewRing(2, nil)
	vrt.Assert(r.Get("x") == "", "C25/owner-in-empty-ring")
	vrt.Reach("end")
}
