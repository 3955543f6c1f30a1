package hash

import "github.com/unit-io/unitdb/zz_verif/vrt"

// The pseudo random stream of a key is replaced by an arbitrary one: position i of the stream is
// an unconstrained 32-bit value, the same for every lookup of the key.
//
// @rename fleaInit fleaRound

var zzStream []uint32

// zzDraw bounds the draws of a lookup: each draw of a correct lookup moves to
// a block that was in use longer, so it takes at most one per block.
func zzDraw(i int) uint32 {
	vrt.Assert(i <= 12, "C14/lookup-settles")
	for len(zzStream) <= i {
		zzStream = append(zzStream, vrt.U32("rnd"))
	}
	return zzStream[i]
}

func fleaInit(key uint64) (a, b, c, d uint32) {
	return 0, 0, 0, zzDraw(0)
}

func fleaRound(a, b, c, d uint32) (uint32, uint32, uint32, uint32) {
	return a + 1, 0, 0, zzDraw(int(a + 1))
}

// VerifAnchor: every key maps to a working block; removals and additions move
// only the keys they must.
// @prop C14
// @bound capacity 2..5 blocks, initial size 1..capacity, up to 4 (thorough 5) add/remove steps in any order; the pseudo random stream of the key: every sequence of 32-bit values
// @note the key's pseudo random stream (fleaInit/fleaRound) is an arbitrary function of the position
// @reach end moved grown
// @hang 400
// @mux 0
func VerifAnchor() {
	zzStream = nil
	a := vrt.Choose("cap", 4) + 2
	w := vrt.Choose("used", a) + 1
	c := InitConsistent(a, w)
	key := uint64(12345)
	working := make([]bool, a)
	n := 0
	for i := 0; i < w; i++ {
		working[i] = true
		n++
	}
	prev := int(c.FindBlock(key))
	vrt.Assert(prev < a && working[prev], "C14/assigned-to-working-block")
	steps := 4
	if vrt.Thorough() {
		steps = 5
	}
	for s := 0; s < steps; s++ {
		op := vrt.Choose("op", a+2)
		if op == a+1 {
			break
		}
		if op == a {
			if n == a {
				break
			}
			b := int(c.AddBlock())
			vrt.Assert(b < a && !working[b], "C14/add-returns-unused")
			working[b] = true
			n++
			now := int(c.FindBlock(key))
			vrt.Assert(now == prev || now == b, "C14/add-moves-only-to-new")
			if now != prev {
				vrt.Reach("grown")
			}
			prev = now
		} else {
			if !working[op] || n == 1 {
				break
			}
			c.RemoveBlock(uint16(op))
			working[op] = false
			n--
			now := int(c.FindBlock(key))
			vrt.Assert(now < a && working[now], "C14/assigned-to-working-block")
			vrt.Assert(prev == op || now == prev, "C14/remove-moves-only-removed")
			if prev == op {
				vrt.Reach("moved")
			}
			prev = now
		}
	}
	p := c.GetPath(key, nil)
	vrt.Assert(len(p) > 0 && int(p[len(p)-1]) == prev, "C14/path-ends-at-block")
	vrt.Reach("end")
}
