package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is a term constructor.
type Op uint8

const (
	OVar Op = iota
	OConst
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBvNot
	ONeg
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBvAnd
	OBvOr
	OBvXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
	// floating point (operands and results are IEEE bit patterns, w=64)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFNeg
	OFRound  // k: 0 floor 1 ceil 2 trunc
	OSToF    // signed bv -> f64
	OUToF    // unsigned bv -> f64
	OFToS    // f64 -> signed bv of width w (truncation)
	OFToU    // f64 -> unsigned bv
	OBoolVar // bool variable
)

// Term is a hash-consed bit-vector (w>0) or boolean (w==0) expression.
type Term struct {
	op      Op
	w       uint8
	hi, lo  uint8
	a, b, c *Term
	k       uint64
	name    string
	id      int
	size    int // capped DAG-ish size hint
}

type tkey struct {
	op      Op
	w       uint8
	hi, lo  uint8
	a, b, c int
	k       uint64
	name    string
}

// Terms is a per-worker term store.
type Terms struct {
	tab  map[tkey]*Term
	next int
	T, F *Term
}

func newTerms() *Terms {
	s := &Terms{tab: map[tkey]*Term{}}
	s.T = s.mk(OTrue, 0, 0, 0, nil, nil, nil, 0, "")
	s.F = s.mk(OFalse, 0, 0, 0, nil, nil, nil, 0, "")
	return s
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (s *Terms) mk(op Op, w, hi, lo uint8, a, b, c *Term, k uint64, name string) *Term {
	key := tkey{op, w, hi, lo, tid(a), tid(b), tid(c), k, name}
	if t, ok := s.tab[key]; ok {
		return t
	}
	s.next++
	t := &Term{op: op, w: w, hi: hi, lo: lo, a: a, b: b, c: c, k: k, name: name, id: s.next}
	s.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	sh := 64 - w
	return int64(k<<sh) >> sh
}

func (s *Terms) Const(w uint8, k uint64) *Term {
	return s.mk(OConst, w, 0, 0, nil, nil, nil, k&mask(w), "")
}
func (s *Terms) Bool(b bool) *Term {
	if b {
		return s.T
	}
	return s.F
}
func (s *Terms) Var(w uint8, name string) *Term {
	if w == 0 {
		return s.mk(OBoolVar, 0, 0, 0, nil, nil, nil, 0, name)
	}
	return s.mk(OVar, w, 0, 0, nil, nil, nil, 0, name)
}

func (t *Term) isC() bool { return t.op == OConst }

func (s *Terms) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return s.F
	case OFalse:
		return s.T
	case ONot:
		return a.a
	}
	return s.mk(ONot, 0, 0, 0, a, nil, nil, 0, "")
}

func (s *Terms) And(a, b *Term) *Term {
	if a == s.F || b == s.F {
		return s.F
	}
	if a == s.T {
		return b
	}
	if b == s.T || a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return s.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OAnd, 0, 0, 0, a, b, nil, 0, "")
}

func (s *Terms) Or(a, b *Term) *Term {
	if a == s.T || b == s.T {
		return s.T
	}
	if a == s.F {
		return b
	}
	if b == s.F || a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return s.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OOr, 0, 0, 0, a, b, nil, 0, "")
}

func (s *Terms) Ite(c, a, b *Term) *Term {
	if c == s.T || a == b {
		return a
	}
	if c == s.F {
		return b
	}
	if c.op == ONot {
		return s.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a == s.T && b == s.F {
			return c
		}
		if a == s.F && b == s.T {
			return s.Not(c)
		}
		if a == s.T {
			return s.Or(c, b)
		}
		if a == s.F {
			return s.And(s.Not(c), b)
		}
		if b == s.T {
			return s.Or(s.Not(c), a)
		}
		if b == s.F {
			return s.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return s.mk(OIte, a.w, 0, 0, c, a, b, 0, "")
}

func (s *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return s.T
	}
	if a.w == 0 {
		if a == s.T {
			return b
		}
		if b == s.T {
			return a
		}
		if a == s.F {
			return s.Not(b)
		}
		if b == s.F {
			return s.Not(a)
		}
		return s.mk(OEq, 0, 0, 0, a, b, nil, 0, "")
	}
	if a.isC() && b.isC() {
		return s.Bool(a.k == b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		switch a.op {
		case OConcat:
			lw := a.b.w
			return s.And(s.Eq(a.a, s.Const(a.a.w, b.k>>lw)), s.Eq(a.b, s.Const(lw, b.k)))
		case OIte:
			if a.b.isC() && a.c.isC() {
				x, y := a.b.k == b.k, a.c.k == b.k
				switch {
				case x && y:
					return s.T
				case x:
					return a.a
				case y:
					return s.Not(a.a)
				default:
					return s.F
				}
			}
			if a.b.isC() {
				if a.b.k == b.k {
					return s.Or(a.a, s.Eq(a.c, b))
				}
				return s.And(s.Not(a.a), s.Eq(a.c, b))
			}
			if a.c.isC() {
				if a.c.k == b.k {
					return s.Or(s.Not(a.a), s.Eq(a.b, b))
				}
				return s.And(a.a, s.Eq(a.b, b))
			}
		case OAdd:
			if a.b.isC() {
				return s.Eq(a.a, s.Const(a.w, b.k-a.b.k))
			}
		case OBvXor:
			if a.b.isC() {
				return s.Eq(a.a, s.Const(a.w, b.k^a.b.k))
			}
		case OBvNot:
			return s.Eq(a.a, s.Const(a.w, ^b.k))
		case OSext:
			lowS := s.Const(a.a.w, b.k)
			if uint64(sext64(lowS.k, a.a.w))&mask(a.w) != b.k {
				return s.F
			}
			return s.Eq(a.a, lowS)
		}
	} else if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
		return s.And(s.Eq(a.a, b.a), s.Eq(a.b, b.b))
	} else if a.op == OAdd && b.op == OAdd && a.b == b.b {
		return s.Eq(a.a, b.a)
	} else if a.op == OAdd && a.b.isC() && a.a == b {
		return s.F // x+k==x, k!=0
	} else if b.op == OAdd && b.b.isC() && b.a == a {
		return s.F
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return s.mk(OEq, 0, 0, 0, a, b, nil, 0, "")
}

// umax is a cheap upper bound of an unsigned value.
func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OConcat:
		return umax(t.a)<<t.b.w | umax(t.b)
	case OBvAnd:
		x, y := umax(t.a), umax(t.b)
		if x < y {
			return x
		}
		return y
	case OIte:
		x, y := umax(t.b), umax(t.c)
		if x > y {
			return x
		}
		return y
	case OUrem:
		if t.b.isC() && t.b.k > 0 {
			return t.b.k - 1
		}
	case OUdiv:
		if t.b.isC() && t.b.k > 0 {
			return umax(t.a) / t.b.k
		}
	case OAdd:
		x, y := umax(t.a), umax(t.b)
		if x+y >= x && x+y <= mask(t.w) {
			return x + y
		}
	case OMul:
		x, y := umax(t.a), umax(t.b)
		h, l := bits.Mul64(x, y)
		if h == 0 && l <= mask(t.w) {
			return l
		}
	}
	return mask(t.w)
}

func (s *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return s.F
	}
	if a.isC() && b.isC() {
		return s.Bool(a.k < b.k)
	}
	if b.isC() {
		if b.k == 0 {
			return s.F
		}
		if umax(a) < b.k {
			return s.T
		}
	}
	if a.isC() && a.k >= umax(b) {
		return s.F
	}
	if a.op == OConcat && b.op == OConcat && a.a == b.a {
		return s.Ult(a.b, b.b)
	}
	if a.op == OConcat && a.a.isC() && a.a.k == 0 && b.isC() {
		if b.k > mask(a.b.w) {
			return s.T
		}
		return s.Ult(a.b, s.Const(a.b.w, b.k))
	}
	return s.mk(OUlt, 0, 0, 0, a, b, nil, 0, "")
}
func (s *Terms) Ule(a, b *Term) *Term { return s.Not(s.Ult(b, a)) }

func nonneg(t *Term) bool {
	return umax(t) <= mask(t.w)>>1
}

func (s *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return s.F
	}
	if a.isC() && b.isC() {
		return s.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return s.Ult(a, b)
	}
	if b.isC() && b.k == 0 && nonneg(a) {
		return s.F
	}
	if nonneg(a) && b.isC() && sext64(b.k, b.w) < 0 {
		return s.F
	}
	if nonneg(b) && a.isC() && sext64(a.k, a.w) < 0 {
		return s.T
	}
	return s.mk(OSlt, 0, 0, 0, a, b, nil, 0, "")
}
func (s *Terms) Sle(a, b *Term) *Term { return s.Not(s.Slt(b, a)) }

func (s *Terms) BvNot(a *Term) *Term {
	if a.isC() {
		return s.Const(a.w, ^a.k)
	}
	if a.op == OBvNot {
		return a.a
	}
	return s.mk(OBvNot, a.w, 0, 0, a, nil, nil, 0, "")
}
func (s *Terms) Neg(a *Term) *Term {
	if a.isC() {
		return s.Const(a.w, -a.k)
	}
	return s.mk(ONeg, a.w, 0, 0, a, nil, nil, 0, "")
}
func (s *Terms) Add(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return s.Const(a.w, a.k+b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.isC() {
			return s.Add(a.a, s.Const(a.w, a.b.k+b.k))
		}
	} else {
		if a.op == OAdd && a.b.isC() {
			return s.Add(s.Add(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isC() {
			return s.Add(s.Add(a, b.a), b.b)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return s.mk(OAdd, a.w, 0, 0, a, b, nil, 0, "")
}
func (s *Terms) Sub(a, b *Term) *Term {
	if a == b {
		return s.Const(a.w, 0)
	}
	if b.isC() {
		return s.Add(a, s.Const(a.w, -b.k))
	}
	if a.op == OAdd && a.b.isC() {
		return s.Add(s.Sub(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isC() {
		return s.Add(s.Sub(a, b.a), s.Const(a.w, -b.b.k))
	}
	if a.op == OAdd && a.a == b {
		return a.b
	}
	if a.op == OAdd && a.b == b {
		return a.a
	}
	return s.mk(OSub, a.w, 0, 0, a, b, nil, 0, "")
}
func (s *Terms) Mul(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return s.Const(a.w, a.k*b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return s.Shl(a, s.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
	}
	return s.mk(OMul, a.w, 0, 0, a, b, nil, 0, "")
}
func (s *Terms) Udiv(a, b *Term) *Term {
	if b.isC() && b.k != 0 {
		if a.isC() {
			return s.Const(a.w, a.k/b.k)
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return s.Lshr(a, s.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if umax(a) < b.k {
			return s.Const(a.w, 0)
		}
	}
	return s.mk(OUdiv, a.w, 0, 0, a, b, nil, 0, "")
}
func (s *Terms) Urem(a, b *Term) *Term {
	if b.isC() && b.k != 0 {
		if a.isC() {
			return s.Const(a.w, a.k%b.k)
		}
		if b.k&(b.k-1) == 0 {
			return s.BvAnd(a, s.Const(a.w, b.k-1))
		}
		if umax(a) < b.k {
			return a
		}
	}
	return s.mk(OUrem, a.w, 0, 0, a, b, nil, 0, "")
}
func (s *Terms) Sdiv(a, b *Term) *Term {
	if a.isC() && b.isC() && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return s.Const(a.w, uint64(-x))
		}
		return s.Const(a.w, uint64(x/y))
	}
	if nonneg(a) && nonneg(b) {
		return s.Udiv(a, b)
	}
	return s.mk(OSdiv, a.w, 0, 0, a, b, nil, 0, "")
}
func (s *Terms) Srem(a, b *Term) *Term {
	if a.isC() && b.isC() && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return s.Const(a.w, 0)
		}
		return s.Const(a.w, uint64(x%y))
	}
	if nonneg(a) && nonneg(b) {
		return s.Urem(a, b)
	}
	return s.mk(OSrem, a.w, 0, 0, a, b, nil, 0, "")
}

// pieces of a term from most to least significant.
func flat(t *Term, out []*Term) []*Term {
	if t.op == OConcat {
		return flat(t.b, flat(t.a, out))
	}
	return append(out, t)
}

func (s *Terms) concatList(ps []*Term) *Term {
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = s.Concat(ps[i], r)
	}
	return r
}

// zipSegs splits a and b on common boundaries and combines piecewise.
func (s *Terms) zipSegs(a, b *Term, f func(x, y *Term) *Term) *Term {
	as, bs := flat(a, nil), flat(b, nil)
	var out []*Term
	for len(as) > 0 {
		x, y := as[0], bs[0]
		switch {
		case x.w == y.w:
			as, bs = as[1:], bs[1:]
		case x.w > y.w:
			rest := s.Extract(x, x.w-y.w-1, 0)
			x = s.Extract(x, x.w-1, x.w-y.w)
			as = append([]*Term{rest}, as[1:]...)
			bs = bs[1:]
		default:
			rest := s.Extract(y, y.w-x.w-1, 0)
			y = s.Extract(y, y.w-1, y.w-x.w)
			bs = append([]*Term{rest}, bs[1:]...)
			as = as[1:]
		}
		z := f(x, y)
		if z == nil {
			return nil
		}
		out = append(out, z)
	}
	return s.concatList(out)
}

func runs(k uint64, w uint8) int {
	n := 1
	for i := uint8(1); i < w; i++ {
		if (k>>i)&1 != (k>>(i-1))&1 {
			n++
		}
	}
	return n
}

// splitConst renders a constant as a concat-like list of its 0/1 runs.
func (s *Terms) splitConst(k uint64, w uint8) []*Term {
	var out []*Term
	i := int(w) - 1
	for i >= 0 {
		b := (k >> uint(i)) & 1
		j := i
		for j > 0 && (k>>uint(j-1))&1 == b {
			j--
		}
		ww := uint8(i - j + 1)
		if b == 1 {
			out = append(out, s.Const(ww, mask(ww)))
		} else {
			out = append(out, s.Const(ww, 0))
		}
		i = j - 1
	}
	return out
}

func (s *Terms) maskOp(a *Term, k uint64, f func(x *Term, one bool) *Term) *Term {
	hi := int(a.w) - 1
	var out []*Term
	for _, c := range s.splitConst(k, a.w) {
		lo := hi - int(c.w) + 1
		out = append(out, f(s.Extract(a, uint8(hi), uint8(lo)), c.k != 0))
		hi = lo - 1
	}
	return s.concatList(out)
}

func (s *Terms) BvAnd(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return s.Const(a.w, a.k&b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		if b.k == mask(b.w) {
			return a
		}
		if runs(b.k, b.w) <= 4 {
			return s.maskOp(a, b.k, func(x *Term, one bool) *Term {
				if one {
					return x
				}
				return s.Const(x.w, 0)
			})
		}
	} else if a.op == OConcat || b.op == OConcat {
		z := s.zipSegs(a, b, func(x, y *Term) *Term {
			if x.isC() || y.isC() || x == y {
				return s.BvAnd(x, y)
			}
			return nil
		})
		if z != nil {
			return z
		}
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return s.mk(OBvAnd, a.w, 0, 0, a, b, nil, 0, "")
}

func (s *Terms) BvOr(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return s.Const(a.w, a.k|b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(b.w) {
			return b
		}
		if runs(b.k, b.w) <= 4 {
			return s.maskOp(a, b.k, func(x *Term, one bool) *Term {
				if one {
					return s.Const(x.w, mask(x.w))
				}
				return x
			})
		}
	} else if a.op == OConcat || b.op == OConcat {
		z := s.zipSegs(a, b, func(x, y *Term) *Term {
			if x.isC() && x.k == 0 {
				return y
			}
			if y.isC() && y.k == 0 {
				return x
			}
			if x == y {
				return x
			}
			if x.isC() && y.isC() {
				return s.BvOr(x, y)
			}
			return nil
		})
		if z != nil {
			return z
		}
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return s.mk(OBvOr, a.w, 0, 0, a, b, nil, 0, "")
}

func (s *Terms) BvXor(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return s.Const(a.w, a.k^b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if a == b {
		return s.Const(a.w, 0)
	}
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(b.w) {
			return s.BvNot(a)
		}
		if a.op == OBvXor && a.b.isC() {
			return s.BvXor(a.a, s.Const(a.w, a.b.k^b.k))
		}
	} else {
		if a.op == OConcat || b.op == OConcat {
			z := s.zipSegs(a, b, func(x, y *Term) *Term {
				if x.isC() && x.k == 0 {
					return y
				}
				if y.isC() && y.k == 0 {
					return x
				}
				if x.isC() && y.isC() || x == y {
					return s.BvXor(x, y)
				}
				return nil
			})
			if z != nil {
				return z
			}
		}
		// (x^y)^y
		if a.op == OBvXor {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if b.op == OBvXor {
			if b.a == a {
				return b.b
			}
			if b.b == a {
				return b.a
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return s.mk(OBvXor, a.w, 0, 0, a, b, nil, 0, "")
}

// shifts: count has the same width as a.
func (s *Terms) Shl(a, n *Term) *Term {
	if n.isC() {
		if n.k >= uint64(a.w) {
			return s.Const(a.w, 0)
		}
		if n.k == 0 {
			return a
		}
		if a.isC() {
			return s.Const(a.w, a.k<<n.k)
		}
		k := uint8(n.k)
		return s.Concat(s.Extract(a, a.w-1-k, 0), s.Const(k, 0))
	}
	return s.mk(OShl, a.w, 0, 0, a, n, nil, 0, "")
}
func (s *Terms) Lshr(a, n *Term) *Term {
	if n.isC() {
		if n.k >= uint64(a.w) {
			return s.Const(a.w, 0)
		}
		if n.k == 0 {
			return a
		}
		if a.isC() {
			return s.Const(a.w, a.k>>n.k)
		}
		k := uint8(n.k)
		return s.Zext(s.Extract(a, a.w-1, k), a.w)
	}
	return s.mk(OLshr, a.w, 0, 0, a, n, nil, 0, "")
}
func (s *Terms) Ashr(a, n *Term) *Term {
	if n.isC() {
		sh := n.k
		if sh >= uint64(a.w) {
			sh = uint64(a.w) - 1
		}
		if sh == 0 {
			return a
		}
		if a.isC() {
			return s.Const(a.w, uint64(sext64(a.k, a.w)>>sh))
		}
		return s.Sext(s.Extract(a, a.w-1, uint8(sh)), a.w)
	}
	return s.mk(OAshr, a.w, 0, 0, a, n, nil, 0, "")
}

func (s *Terms) Concat(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return s.Const(a.w+b.w, a.k<<b.w|b.k)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.lo == b.hi+1 {
		return s.Extract(a.a, a.hi, b.lo)
	}
	if b.op == OConcat {
		x := b.a
		if a.isC() && x.isC() || a.op == OExtract && x.op == OExtract && a.a == x.a && a.lo == x.hi+1 {
			return s.Concat(s.Concat(a, x), b.b)
		}
	}
	if a.op == OConcat { // right-nest
		return s.Concat(a.a, s.Concat(a.b, b))
	}
	return s.mk(OConcat, a.w+b.w, 0, 0, a, b, nil, 0, "")
}

func (s *Terms) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return s.Const(w, a.k>>lo)
	case OExtract:
		return s.Extract(a.a, a.lo+hi, a.lo+lo)
	case OConcat:
		lw := a.b.w
		if hi < lw {
			return s.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return s.Extract(a.a, hi-lw, lo-lw)
		}
		return s.Concat(s.Extract(a.a, hi-lw, 0), s.Extract(a.b, lw-1, lo))
	case OSext:
		if hi < a.a.w {
			return s.Extract(a.a, hi, lo)
		}
		if lo < a.a.w {
			return s.Sext(s.Extract(a.a, a.a.w-1, lo), w)
		}
	case OBvAnd, OBvOr, OBvXor:
		x, y := s.Extract(a.a, hi, lo), s.Extract(a.b, hi, lo)
		switch a.op {
		case OBvAnd:
			return s.BvAnd(x, y)
		case OBvOr:
			return s.BvOr(x, y)
		}
		return s.BvXor(x, y)
	case OBvNot:
		return s.BvNot(s.Extract(a.a, hi, lo))
	case OIte:
		if a.b.isC() || a.c.isC() {
			return s.Ite(a.a, s.Extract(a.b, hi, lo), s.Extract(a.c, hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 { // low bits depend only on low bits
			x, y := s.Extract(a.a, hi, 0), s.Extract(a.b, hi, 0)
			switch a.op {
			case OAdd:
				return s.Add(x, y)
			case OSub:
				return s.Sub(x, y)
			}
			return s.Mul(x, y)
		}
	}
	return s.mk(OExtract, w, hi, lo, a, nil, nil, 0, "")
}

func (s *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return s.Extract(a, w-1, 0)
	}
	return s.Concat(s.Const(w-a.w, 0), a)
}
func (s *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return s.Extract(a, w-1, 0)
	}
	if a.isC() {
		return s.Const(w, uint64(sext64(a.k, a.w)))
	}
	if nonneg(a) {
		return s.Zext(a, w)
	}
	if a.op == OSext {
		a = a.a
	}
	return s.mk(OSext, w, 0, 0, a, nil, nil, 0, "")
}

func (s *Terms) fop(op Op, w uint8, a, b *Term, k uint64) *Term {
	if a.isC() && (b == nil || b.isC()) {
		var bk uint64
		if b != nil {
			bk = b.k
		}
		r := evalF(op, w, a.k, bk, a.w, k)
		if w == 0 {
			return s.Bool(r != 0)
		}
		return s.Const(w, r)
	}
	return s.mk(op, w, 0, 0, a, b, nil, k, "")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalF(op Op, w uint8, a, b uint64, aw uint8, k uint64) uint64 {
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	switch op {
	case OFAdd:
		return math.Float64bits(x + y)
	case OFSub:
		return math.Float64bits(x - y)
	case OFMul:
		return math.Float64bits(x * y)
	case OFDiv:
		return math.Float64bits(x / y)
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	case OFEq:
		return b2u(x == y)
	case OFNeg:
		return math.Float64bits(-x)
	case OFRound:
		switch k {
		case 0:
			return math.Float64bits(math.Floor(x))
		case 1:
			return math.Float64bits(math.Ceil(x))
		}
		return math.Float64bits(math.Trunc(x))
	case OSToF:
		return math.Float64bits(float64(sext64(a, aw)))
	case OUToF:
		return math.Float64bits(float64(a))
	case OFToS:
		return uint64(int64(x)) & mask(w)
	case OFToU:
		return uint64(x) & mask(w)
	}
	panic("evalF")
}

// ---- evaluation under a model ----

type evaluator struct {
	model map[string]uint64
	memo  map[*Term]uint64
}

func newEval(model map[string]uint64) *evaluator {
	return &evaluator{model: model, memo: map[*Term]uint64{}}
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OVar, OBoolVar:
		return e.model[t.name] & maskb(t.w)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v
}

func maskb(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (e *evaluator) eval1(t *Term) uint64 {
	m := maskb(t.w)
	switch t.op {
	case ONot:
		return e.eval(t.a) ^ 1
	case OAnd:
		if e.eval(t.a) == 0 {
			return 0
		}
		return e.eval(t.b)
	case OOr:
		if e.eval(t.a) == 1 {
			return 1
		}
		return e.eval(t.b)
	case OIte:
		if e.eval(t.a) == 1 {
			return e.eval(t.b)
		}
		return e.eval(t.c)
	case OEq:
		return b2u(e.eval(t.a) == e.eval(t.b))
	case OUlt:
		return b2u(e.eval(t.a) < e.eval(t.b))
	case OUle:
		return b2u(e.eval(t.a) <= e.eval(t.b))
	case OSlt:
		return b2u(sext64(e.eval(t.a), t.a.w) < sext64(e.eval(t.b), t.b.w))
	case OSle:
		return b2u(sext64(e.eval(t.a), t.a.w) <= sext64(e.eval(t.b), t.b.w))
	case OBvNot:
		return ^e.eval(t.a) & m
	case ONeg:
		return -e.eval(t.a) & m
	case OAdd:
		return (e.eval(t.a) + e.eval(t.b)) & m
	case OSub:
		return (e.eval(t.a) - e.eval(t.b)) & m
	case OMul:
		return (e.eval(t.a) * e.eval(t.b)) & m
	case OUdiv:
		d := e.eval(t.b)
		if d == 0 {
			return m
		}
		return e.eval(t.a) / d
	case OUrem:
		d := e.eval(t.b)
		if d == 0 {
			return e.eval(t.a)
		}
		return e.eval(t.a) % d
	case OSdiv:
		x, y := sext64(e.eval(t.a), t.w), sext64(e.eval(t.b), t.w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := sext64(e.eval(t.a), t.w), sext64(e.eval(t.b), t.w)
		if y == 0 {
			return uint64(x) & m
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBvAnd:
		return e.eval(t.a) & e.eval(t.b)
	case OBvOr:
		return e.eval(t.a) | e.eval(t.b)
	case OBvXor:
		return e.eval(t.a) ^ e.eval(t.b)
	case OShl:
		n := e.eval(t.b)
		if n >= uint64(t.w) {
			return 0
		}
		return e.eval(t.a) << n & m
	case OLshr:
		n := e.eval(t.b)
		if n >= uint64(t.w) {
			return 0
		}
		return e.eval(t.a) >> n
	case OAshr:
		n := e.eval(t.b)
		if n >= uint64(t.w) {
			n = uint64(t.w) - 1
		}
		return uint64(sext64(e.eval(t.a), t.w)>>n) & m
	case OConcat:
		return e.eval(t.a)<<t.b.w | e.eval(t.b)
	case OExtract:
		return e.eval(t.a) >> t.lo & m
	case OSext:
		return uint64(sext64(e.eval(t.a), t.a.w)) & m
	}
	var bk uint64
	if t.b != nil {
		bk = e.eval(t.b)
	}
	return evalF(t.op, t.w, e.eval(t.a), bk, t.a.w, t.k) & m
}

// ---- SMT-LIB printing ----

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBvNot: "bvnot", ONeg: "bvneg", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// smtDefs collects declarations for t not yet in seen, appending to sb, and returns the reference.
func smtRef(t *Term) string {
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar, OBoolVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func smtDefine(sb *strings.Builder, t *Term, seen map[*Term]bool, vars *[]*Term) {
	switch t.op {
	case OTrue, OFalse, OConst:
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case OVar, OBoolVar:
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", t.name, sortName(t.w))
		*vars = append(*vars, t)
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			smtDefine(sb, x, seen, vars)
		}
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortName(t.w))
	f := func(x *Term) string { return "((_ to_fp 11 53) " + smtRef(x) + ")" }
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.hi, t.lo, smtRef(t.a))
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		fmt.Fprintf(sb, "(fp.to_ieee_bv (%s RNE %s %s))", n, f(t.a), f(t.b))
	case OFLt:
		fmt.Fprintf(sb, "(fp.lt %s %s)", f(t.a), f(t.b))
	case OFLe:
		fmt.Fprintf(sb, "(fp.leq %s %s)", f(t.a), f(t.b))
	case OFEq:
		fmt.Fprintf(sb, "(fp.eq %s %s)", f(t.a), f(t.b))
	case OFNeg:
		fmt.Fprintf(sb, "(fp.to_ieee_bv (fp.neg %s))", f(t.a))
	case OFRound:
		fmt.Fprintf(sb, "(fp.to_ieee_bv (fp.roundToIntegral %s %s))", []string{"RTN", "RTP", "RTZ"}[t.k], f(t.a))
	case OSToF:
		fmt.Fprintf(sb, "(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", smtRef(t.a))
	case OUToF:
		fmt.Fprintf(sb, "(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE %s))", smtRef(t.a))
	case OFToS:
		fmt.Fprintf(sb, "((_ fp.to_sbv %d) RTZ %s)", t.w, f(t.a))
	case OFToU:
		fmt.Fprintf(sb, "((_ fp.to_ubv %d) RTZ %s)", t.w, f(t.a))
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" " + smtRef(x))
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

func (s *Terms) size() int { return len(s.tab) }
