package main

import (
	"go/types"
	"math/bits"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type ssaPackage = ssa.Package

var debugEngine = false

func (m *M) input(name string, w uint8) *Term {
	m.nvar++
	t := m.ts.Var(w, name+"#"+strconv.Itoa(m.nvar))
	m.inputs = append(m.inputs, inputRec{Name: name, T: t, W: w})
	return t
}

func (m *M) concStr(v Val) string { return goString(v) }

// ranged makes an input in [lo,hi].
func (m *M) ranged(name string, lo, hi int64) Val {
	if lo > hi {
		m.fail("assume", "empty range")
	}
	if lo == hi {
		m.inputs = append(m.inputs, inputRec{Name: name, Conc: uint64(lo), W: 64})
		return Val{K: uint64(lo)}
	}
	span := uint64(hi - lo)
	k := uint8(bits.Len64(span))
	m.nvar++
	raw := m.ts.Var(k, name+"#"+strconv.Itoa(m.nvar))
	ext := raw
	if k < 64 {
		ext = m.ts.Zext(raw, 64)
	}
	t := m.ts.Add(ext, m.ts.Const(64, uint64(lo)))
	m.inputs = append(m.inputs, inputRec{Name: name, T: t, W: 64})
	if span != mask(k) {
		m.assume(m.tval(m.ts.Ule(raw, m.ts.Const(k, span))))
	}
	return m.tval(t)
}

func vrtIntrinsics() map[string]intrinsic {
	uw := func(w uint8) intrinsic {
		return func(m *M, a []Val) (Val, int) {
			if m.spec {
				panic(specAbort{})
			}
			return Val{T: m.input(m.concStr(a[0]), w)}, cNext
		}
	}
	return map[string]intrinsic{
		"U8": uw(8), "U16": uw(16), "U32": uw(32), "U64": uw(64), "I32": uw(32), "I64": uw(64), "I16": uw(16), "I8": uw(8), "Bool": uw(0),
		"Int": func(m *M, a []Val) (Val, int) {
			if m.spec {
				panic(specAbort{})
			}
			return m.ranged(m.concStr(a[0]), int64(a[1].K), int64(a[2].K)), cNext
		},
		"Choose": func(m *M, a []Val) (Val, int) {
			if m.spec {
				panic(specAbort{})
			}
			n := m.concretize(a[1])
			v := m.ranged(m.concStr(a[0]), 0, int64(n)-1)
			return Val{K: m.concretize(v)}, cNext
		},
		"Bytes": func(m *M, a []Val) (Val, int) {
			if m.spec {
				panic(specAbort{})
			}
			n := int(m.concretize(a[1]))
			name := m.concStr(a[0])
			b := &BArr{c: make([]byte, n), t: map[int]*Term{}}
			for i := 0; i < n; i++ {
				b.t[i] = m.input(name, 8)
			}
			return Val{R: Slice{arr: b, len: n, cap: n}}, cNext
		},
		"Str": func(m *M, a []Val) (Val, int) {
			if m.spec {
				panic(specAbort{})
			}
			n := int(m.concretize(a[1]))
			name := m.concStr(a[0])
			c := make([]byte, n)
			t := make([]*Term, n)
			for i := 0; i < n; i++ {
				t[i] = m.input(name, 8)
			}
			return mkStr(c, t), cNext
		},
		"Assume": func(m *M, a []Val) (Val, int) { m.assume(a[0]); return Val{}, cNext },
		"Assert": func(m *M, a []Val) (Val, int) {
			if m.spec {
				panic(specAbort{})
			}
			m.assertProp(a[0], m.concStr(a[1]))
			return Val{}, cNext
		},
		"Reach": func(m *M, a []Val) (Val, int) {
			if m.spec {
				panic(specAbort{})
			}
			id := m.concStr(a[0])
			if !m.reached[id] {
				m.reached[id] = true
				m.ex.noteReach(id)
			}
			return Val{}, cNext
		},
		"Concrete": func(m *M, a []Val) (Val, int) { return Val{K: m.concretize(a[0])}, cNext },
		"Symbolic": func(m *M, a []Val) (Val, int) { return Val{K: 1}, cNext },
		"Thorough": func(m *M, a []Val) (Val, int) { return Val{K: b2u(thoroughTier)}, cNext },
		"IsFunc": func(m *M, a []Val) (Val, int) {
			f, ok := a[0].R.(*Iface)
			if !ok {
				return Val{}, cNext
			}
			_, isf := f.t.Underlying().(*types.Signature)
			return Val{K: b2u(isf)}, cNext
		},
		"CallFunc": func(m *M, a []Val) (Val, int) {
			return m.tail(a[0].R.(*Iface).v.R.(*Closure), nil)
		},
		"PointsOn":  func(m *M, a []Val) (Val, int) { m.pointG = m.g; m.pointBg = false; return Val{}, cNext },
		"PointsBg":  func(m *M, a []Val) (Val, int) { m.pointG = m.g; m.pointBg = true; return Val{}, cNext },
		"PointsOff": func(m *M, a []Val) (Val, int) { m.pointG = nil; return Val{}, cNext },
		"racePause": func(m *M, a []Val) (Val, int) {
			m.race = &raceRec{g: m.g, paused: true, acc: map[*Map]uint8{}}
			return Val{}, cNext
		},
		"raceResume": func(m *M, a []Val) (Val, int) {
			if m.race != nil {
				m.race.paused, m.race.open = false, true
			}
			return Val{}, cNext
		},
		"Point": func(m *M, a []Val) (Val, int) {
			m.raceShut()
			if m.pointG == nil || (m.pointG != m.g) != m.pointBg {
				return Val{}, cNext
			}
			if m.spec {
				panic(specAbort{})
			}
			if m.pointBg {
				return m.tail(&Closure{fn: m.p.vrtFn("AtPointBg")}, []Val{a[0]})
			}
			return m.tail(&Closure{fn: m.p.vrtFn("AtPoint")}, nil)
		},
		"Log": func(m *M, a []Val) (Val, int) { return Val{}, cNext },
		"Sched": func(m *M, a []Val) (Val, int) {
			m.schedOn = true
			m.switches = int(m.concretize(a[0]))
			return Val{}, cNext
		},
		// IsSym reports whether a byte is symbolic (debugging aid).
		"IteInt": func(m *M, a []Val) (Val, int) {
			if a[0].T == nil {
				if a[0].K != 0 {
					return a[1], cNext
				}
				return a[2], cNext
			}
			return m.tval(m.ts.Ite(a[0].T, m.term(a[1], 64), m.term(a[2], 64))), cNext
		},
		"And": func(m *M, a []Val) (Val, int) {
			return m.tval(m.ts.And(m.term(a[0], 0), m.term(a[1], 0))), cNext
		},
		"Or": func(m *M, a []Val) (Val, int) {
			return m.tval(m.ts.Or(m.term(a[0], 0), m.term(a[1], 0))), cNext
		},
		"Not": func(m *M, a []Val) (Val, int) { return m.tval(m.ts.Not(m.term(a[0], 0))), cNext },
		"EqBytes": func(m *M, a []Val) (Val, int) {
			ac, at := sliceParts(a[0])
			bc, bt := sliceParts(a[1])
			if len(ac) != len(bc) {
				return Val{}, cNext
			}
			return m.eqBytes(ac, at, bc, bt), cNext
		},
	}
}
