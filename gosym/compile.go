package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// compile translates an SSA function into closures (once).
func (p *Prog) compile(fi *fnInfo) {
	fi.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(compileErr); ok {
					fi.err = string(s)
					return
				}
				panic(r)
			}
		}()
		c := &compiler{p: p, fi: fi, regs: map[ssa.Value]int{}, ck: map[ssa.Value]int{}}
		c.run()
		p.regMu.Lock()
		p.regMaps[fi] = c.regs
		p.regMu.Unlock()
	})
}

type compileErr string

type compiler struct {
	p    *Prog
	fi   *fnInfo
	regs map[ssa.Value]int
	ck   map[ssa.Value]int
	bmap map[*ssa.BasicBlock]*blockInfo
}

func (c *compiler) run() {
	fn := c.fi.fn
	p := c.p
	if fn.Pkg != nil {
		p.buildPkg(fn.Pkg)
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		p.buildPkg(fn.Origin().Pkg)
	}
	if fn.Blocks == nil {
		panic(compileErr("no body"))
	}
	for _, pr := range fn.Params {
		c.fi.params = append(c.fi.params, c.reg(pr))
	}
	for _, fv := range fn.FreeVars {
		c.fi.fvs = append(c.fi.fvs, c.reg(fv))
	}
	c.bmap = map[*ssa.BasicBlock]*blockInfo{}
	for _, b := range fn.Blocks {
		c.bmap[b] = &blockInfo{idx: b.Index, ssab: b}
	}
	if fn.Recover != nil {
		if c.bmap[fn.Recover] == nil {
			c.bmap[fn.Recover] = &blockInfo{idx: fn.Recover.Index, ssab: fn.Recover}
		}
	}
	all := append([]*ssa.BasicBlock(nil), fn.Blocks...)
	if fn.Recover != nil {
		found := false
		for _, b := range all {
			if b == fn.Recover {
				found = true
			}
		}
		if !found {
			all = append(all, fn.Recover)
		}
	}
	for _, b := range all {
		bi := c.bmap[b]
		for _, pr := range b.Preds {
			bi.preds = append(bi.preds, pr.Index)
		}
		c.block(b, bi)
	}
	for _, b := range fn.Blocks {
		c.fi.blocks = append(c.fi.blocks, c.bmap[b])
	}
	if fn.Recover != nil {
		c.fi.recov = c.bmap[fn.Recover]
	}
	c.fi.nregs = len(c.regs)
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := len(c.regs)
	c.regs[v] = r
	return r
}

// opd returns an operand code: >=0 register, <0 constant.
func (c *compiler) opd(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Const:
		return c.konst(v, c.p.constVal(v))
	case *ssa.Global:
		return c.konst(v, Val{R: c.p.globalIdx(v)})
	case *ssa.Function:
		return c.konst(v, Val{R: &Closure{fn: c.p.fnOf(v)}})
	case *ssa.Builtin:
		return c.konst(v, Val{R: v})
	}
	return c.reg(v)
}

func (c *compiler) konst(v ssa.Value, k Val) int {
	if i, ok := c.ck[v]; ok {
		return i
	}
	c.fi.consts = append(c.fi.consts, k)
	i := -len(c.fi.consts)
	c.ck[v] = i
	return i
}

func (fr *frame) get(m *M, o int) Val {
	if o >= 0 {
		return fr.regs[o]
	}
	v := fr.fn.consts[-o-1]
	if g, ok := v.R.(globalRef); ok {
		return Val{R: m.global(g)}
	}
	return v
}

func (p *Prog) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	if w, signed, ok := bwidth(t); ok {
		if w == 0 {
			return Val{K: b2u(constant.BoolVal(c.Value))}
		}
		if signed {
			return Val{K: uint64(c.Int64()) & mask(w)}
		}
		return Val{K: c.Uint64() & mask(w)}
	}
	if ok, n := isFloat(t); ok {
		f := c.Float64()
		if n == 32 {
			f = float64(float32(f))
		}
		return Val{K: math.Float64bits(f)}
	}
	if isString(t) {
		s := constant.StringVal(c.Value)
		if c.Value.Kind() == constant.Int {
			s = string(rune(c.Int64()))
		}
		if s == "" {
			return Val{}
		}
		return Val{R: s}
	}
	return Val{R: unsupportedConst{}}
}

type unsupportedConst struct{}

func (c *compiler) block(b *ssa.BasicBlock, bi *blockInfo) {
	bi.simple = true
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			continue
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.If, *ssa.Jump:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				bi.simple = false
			}
		case *ssa.Call:
			if bu, ok := x.Call.Value.(*ssa.Builtin); !ok || (bu.Name() != "len" && bu.Name() != "cap") {
				bi.simple = false
			}
		case *ssa.Lookup:
			if !isString(x.X.Type()) {
				bi.simple = false
			}
		default:
			bi.simple = false
		}
	}
	// phis are executed on block entry in parallel
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	if len(phis) > 0 {
		bi.code = append(bi.code, c.phis(b, phis))
		bi.src = append(bi.src, phis[0])
	}
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		}
		f := c.instr(in, bi)
		if f == nil {
			panic(compileErr(fmt.Sprintf("instruction %T %s", in, in)))
		}
		bi.code = append(bi.code, f)
		bi.src = append(bi.src, in)
	}
}

func (c *compiler) phis(b *ssa.BasicBlock, phis []*ssa.Phi) inst {
	n := len(phis)
	dst := make([]int, n)
	src := make([][]int, n)
	for i, ph := range phis {
		dst[i] = c.reg(ph)
		for _, e := range ph.Edges {
			src[i] = append(src[i], c.opd(e))
		}
	}
	predOf := map[int]int{}
	for i, pr := range b.Preds {
		predOf[pr.Index] = i
	}
	if n == 1 {
		return func(m *M, fr *frame) int {
			fr.regs[dst[0]] = fr.get(m, src[0][predOf[fr.prev]])
			return cNext
		}
	}
	return func(m *M, fr *frame) int {
		e := predOf[fr.prev]
		var buf [8]Val
		tmp := buf[:0]
		for i := range dst {
			tmp = append(tmp, fr.get(m, src[i][e]))
		}
		for i := range dst {
			fr.regs[dst[i]] = tmp[i]
		}
		return cNext
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *compiler) instr(in ssa.Instruction, bi *blockInfo) inst {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.reg(x)
		t := deref(x.Type())
		if !needsZero(t) {
			return func(m *M, fr *frame) int {
				fr.regs[d] = Val{R: &Val{}}
				return cNext
			}
		}
		return func(m *M, fr *frame) int {
			v := zero(t)
			fr.regs[d] = Val{R: &v}
			return cNext
		}
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		return c.callInstr(x)
	case *ssa.ChangeInterface:
		return c.move(x, x.X)
	case *ssa.ChangeType:
		return c.move(x, x.X)
	case *ssa.Convert:
		return c.convert(x)
	case *ssa.MultiConvert:
		return nil
	case *ssa.SliceToArrayPointer:
		d, a := c.reg(x), c.opd(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		return func(m *M, fr *frame) int {
			s := sliceOf(fr.get(m, a))
			if s.len < n {
				m.goPanicStr("cannot convert slice to array pointer: length too short")
			}
			if s.arr == nil {
				fr.regs[d] = Val{}
				return cNext
			}
			if s.off != 0 || arrLen(s.arr) != n {
				m.unsupported("slice to array pointer with offset")
			}
			fr.regs[d] = Val{R: &Val{R: s.arr}}
			return cNext
		}
	case *ssa.Extract:
		d, a, i := c.reg(x), c.opd(x.Tuple), x.Index
		return func(m *M, fr *frame) int {
			fr.regs[d] = fr.get(m, a).R.(Tuple)[i]
			return cNext
		}
	case *ssa.Field:
		d, a, i := c.reg(x), c.opd(x.X), x.Field
		return func(m *M, fr *frame) int {
			fr.regs[d] = fr.get(m, a).R.(*Struct).f[i]
			return cNext
		}
	case *ssa.FieldAddr:
		d, a, i := c.reg(x), c.opd(x.X), x.Field
		return func(m *M, fr *frame) int {
			p, ok := fr.get(m, a).R.(*Val)
			if !ok || p == nil {
				m.nilDeref(fr.get(m, a))
			}
			st, ok := p.R.(*Struct)
			if !ok {
				m.unsupported("field address of %T", p.R)
			}
			fr.regs[d] = Val{R: &st.f[i]}
			return cNext
		}
	case *ssa.Index:
		return c.index(x)
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.MakeChan:
		d, a := c.reg(x), c.opd(x.Size)
		return func(m *M, fr *frame) int {
			fr.regs[d] = Val{R: &Chan{cap: int(m.concretize(fr.get(m, a)))}}
			return cNext
		}
	case *ssa.MakeClosure:
		d := c.reg(x)
		fi := c.p.fnOf(x.Fn.(*ssa.Function))
		var bs []int
		for _, b := range x.Bindings {
			bs = append(bs, c.opd(b))
		}
		return func(m *M, fr *frame) int {
			cl := &Closure{fn: fi, free: make([]Val, len(bs))}
			for i, b := range bs {
				cl.free[i] = fr.get(m, b)
			}
			fr.regs[d] = Val{R: cl}
			return cNext
		}
	case *ssa.MakeInterface:
		d, a, t := c.reg(x), c.opd(x.X), x.X.Type()
		return func(m *M, fr *frame) int {
			fr.regs[d] = Val{R: &Iface{t: t, v: fr.get(m, a)}}
			return cNext
		}
	case *ssa.MakeMap:
		d := c.reg(x)
		return func(m *M, fr *frame) int {
			fr.regs[d] = Val{R: newMap()}
			return cNext
		}
	case *ssa.MakeSlice:
		d, l, cp := c.reg(x), c.opd(x.Len), c.opd(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		by := isByte(et)
		return func(m *M, fr *frame) int {
			ln := m.smallInt(fr.get(m, l), "makeslice: len out of range")
			cn := m.smallInt(fr.get(m, cp), "makeslice: cap out of range")
			if ln > cn {
				m.goPanicStr("makeslice: cap out of range")
			}
			if by {
				fr.regs[d] = Val{R: Slice{arr: &BArr{c: make([]byte, cn)}, len: ln, cap: cn}}
				return cNext
			}
			a := &VArr{e: make([]Val, cn)}
			fillZero(a.e, et)
			fr.regs[d] = Val{R: Slice{arr: a, len: ln, cap: cn}}
			return cNext
		}
	case *ssa.Next:
		return c.next(x)
	case *ssa.Range:
		d, a := c.reg(x), c.opd(x.X)
		str := isString(x.X.Type())
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			if str {
				fr.regs[d] = Val{R: &strIter{s: v}}
			} else {
				it := &mapIter{}
				if mp, ok := v.R.(*Map); ok {
					m.mapAcc(mp, false)
					it.mp = mp
					it.ents = append(it.ents, mp.ents...)
				}
				fr.regs[d] = Val{R: it}
			}
			return cNext
		}
	case *ssa.Select:
		return c.selectInstr(x)
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.If:
		return c.ifInstr(x)
	case *ssa.Jump:
		to := c.bmap[x.Block().Succs[0]]
		from := x.Block().Index
		return func(m *M, fr *frame) int {
			fr.prev = from
			fr.b = to
			fr.pc = 0
			return cJump
		}
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
			return func(m *M, fr *frame) int { return m.ret(Val{}) }
		case 1:
			a := c.opd(x.Results[0])
			return func(m *M, fr *frame) int { return m.ret(fr.get(m, a)) }
		}
		var os []int
		for _, r := range x.Results {
			os = append(os, c.opd(r))
		}
		return func(m *M, fr *frame) int {
			t := make(Tuple, len(os))
			for i, o := range os {
				t[i] = fr.get(m, o)
			}
			return m.ret(Val{R: t})
		}
	case *ssa.RunDefers:
		return func(m *M, fr *frame) int {
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				fr.pc--
				if m.pushDefer(fr, d) {
					return cJump
				}
				fr.pc++
			}
			return cNext
		}
	case *ssa.Panic:
		a := c.opd(x.X)
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			if m.spec {
				panic(specAbort{})
			}
			panic(pathPanic{&goPanic{val: v, msg: m.show(v), where: m.where()}})
		}
	case *ssa.Go:
		cc := c.callee(&x.Call)
		return func(m *M, fr *frame) int {
			if m.spec {
				panic(specAbort{})
			}
			cl, args := cc(m, fr)
			m.newG(cl, args)
			return cNext
		}
	case *ssa.Defer:
		cc := c.callee(&x.Call)
		return func(m *M, fr *frame) int {
			cl, args := cc(m, fr)
			fr.defers = append(fr.defers, deferRec{cl, args})
			return cNext
		}
	case *ssa.Send:
		ch, v := c.opd(x.Chan), c.opd(x.X)
		return func(m *M, fr *frame) int {
			cv, _ := fr.get(m, ch).R.(*Chan)
			return m.chanSend(fr, cv, fr.get(m, v))
		}
	case *ssa.Store:
		a, v := c.opd(x.Addr), c.opd(x.Val)
		return func(m *M, fr *frame) int {
			if m.spec {
				panic(specAbort{})
			}
			m.store(fr.get(m, a), fr.get(m, v))
			return cNext
		}
	case *ssa.MapUpdate:
		a, k, v := c.opd(x.Map), c.opd(x.Key), c.opd(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(m *M, fr *frame) int {
			mp, ok := fr.get(m, a).R.(*Map)
			if !ok {
				m.goPanicStr("assignment to entry in nil map")
			}
			m.mapAcc(mp, true)
			m.mapSet(mp, copyVal(fr.get(m, k)), copyVal(fr.get(m, v)), kt)
			return cNext
		}
	}
	return nil
}

func (m *M) nilDeref(v Val) {
	if v.R != nil {
		m.unsupported("dereference of %T", v.R)
	}
	m.goPanicStr("invalid memory address or nil pointer dereference")
}

// smallInt concretises a length.
func (m *M) smallInt(v Val, msg string) int {
	k := v.K
	if v.T != nil {
		// negative or absurd lengths panic
		if m.decide(m.ts.Slt(v.T, m.ts.Const(v.T.w, 0))) {
			m.goPanicStr(msg)
		}
		if m.decide(m.ts.Slt(m.ts.Const(v.T.w, 1<<28), v.T)) {
			m.fail("limit", "allocation larger than the memory bound at "+m.where())
		}
		k = m.concretize(v)
	}
	n := int64(k)
	if n < 0 {
		m.goPanicStr(msg)
	}
	if n > 1<<30 {
		m.fail("limit", "allocation larger than the memory bound at "+m.where())
	}
	return int(n)
}

func (m *M) store(p Val, v Val) {
	switch a := p.R.(type) {
	case *Val:
		if a == nil {
			m.nilDeref(Val{})
		}
		if v.R == nil {
			*a = v
			return
		}
		storeInto(a, v)
	case BPtr:
		a.a.set(a.i, v)
	case *SymElem:
		m.storeSym(a, v)
	default:
		m.nilDeref(p)
	}
}

func (m *M) load(p Val) Val {
	switch a := p.R.(type) {
	case *Val:
		if a == nil {
			m.nilDeref(Val{})
		}
		if a.R == nil {
			return *a
		}
		return copyVal(*a)
	case BPtr:
		return a.a.get(a.i)
	case *SymElem:
		return m.loadSym(a)
	}
	m.nilDeref(p)
	return Val{}
}

func (c *compiler) move(x ssa.Value, src ssa.Value) inst {
	d, a := c.reg(x), c.opd(src)
	return func(m *M, fr *frame) int {
		fr.regs[d] = fr.get(m, a)
		return cNext
	}
}

func (c *compiler) unop(x *ssa.UnOp) inst {
	d, a := c.reg(x), c.opd(x.X)
	switch x.Op {
	case token.MUL:
		str := isString(x.Type())
		_, isSl := x.Type().Underlying().(*types.Slice)
		return func(m *M, fr *frame) int {
			v := m.load(fr.get(m, a))
			if str {
				if s, ok := v.R.(Slice); ok { // *(*string)(unsafe.Pointer(&b))
					_ = s
					cb, ct := sliceParts(v)
					v = mkStr(cb, ct)
				}
			} else if isSl {
				switch v.R.(type) {
				case string, *SStr:
					cb, ct := strParts(v)
					v = mkBytes(cb, ct, len(cb))
				}
			}
			fr.regs[d] = v
			return cNext
		}
	case token.NOT:
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			if v.T == nil {
				fr.regs[d] = Val{K: v.K ^ 1}
			} else {
				fr.regs[d] = m.tval(m.ts.Not(v.T))
			}
			return cNext
		}
	case token.SUB:
		if ok, _ := isFloat(x.Type()); ok {
			return func(m *M, fr *frame) int {
				v := fr.get(m, a)
				fr.regs[d] = m.tval(m.ts.fop(OFNeg, 64, m.term(v, 64), nil, 0))
				return cNext
			}
		}
		w, _, ok := bwidth(x.Type())
		if !ok {
			return nil
		}
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			if v.T == nil {
				fr.regs[d] = Val{K: -v.K & mask(w)}
			} else {
				fr.regs[d] = m.tval(m.ts.Neg(v.T))
			}
			return cNext
		}
	case token.XOR:
		w, _, ok := bwidth(x.Type())
		if !ok {
			return nil
		}
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			if v.T == nil {
				fr.regs[d] = Val{K: ^v.K & mask(w)}
			} else {
				fr.regs[d] = m.tval(m.ts.BvNot(v.T))
			}
			return cNext
		}
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(m *M, fr *frame) int {
			ch, _ := fr.get(m, a).R.(*Chan)
			v, ok, ctl := m.chanRecv(fr, ch, et)
			if ctl != cNext {
				return ctl
			}
			if x.CommaOk {
				fr.regs[d] = Val{R: Tuple{v, Val{K: b2u(ok)}}}
			} else {
				fr.regs[d] = v
			}
			return cNext
		}
	}
	return nil
}

func (c *compiler) binop(x *ssa.BinOp) inst {
	d, a, b := c.reg(x), c.opd(x.X), c.opd(x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		if w, _, ok := bwidth(t); ok {
			return func(m *M, fr *frame) int {
				p, q := fr.get(m, a), fr.get(m, b)
				if p.T == nil && q.T == nil {
					fr.regs[d] = Val{K: b2u((p.K == q.K) != neg)}
					return cNext
				}
				e := m.ts.Eq(m.term(p, w), m.term(q, w))
				if neg {
					e = m.ts.Not(e)
				}
				fr.regs[d] = m.tval(e)
				return cNext
			}
		}
		t1, t2 := t, x.Y.Type()
		_, if1 := t1.Underlying().(*types.Interface)
		_, if2 := t2.Underlying().(*types.Interface)
		return func(m *M, fr *frame) int {
			p, q := fr.get(m, a), fr.get(m, b)
			ct := t1
			if if1 != if2 {
				if if1 {
					q = Val{R: &Iface{t: t2, v: q}}
				} else {
					p = Val{R: &Iface{t: t1, v: p}}
					ct = t2
				}
			}
			var e Val
			// nil comparison for slices, maps, funcs
			if s, ok := p.R.(Slice); ok {
				e = Val{K: b2u(s.arr == nil && q.R == nil)}
			} else if s, ok := q.R.(Slice); ok {
				e = Val{K: b2u(s.arr == nil && p.R == nil)}
			} else {
				e = m.eqVal(p, q, ct)
			}
			if neg {
				if e.T == nil {
					e.K ^= 1
				} else {
					e = m.tval(m.ts.Not(e.T))
				}
			}
			fr.regs[d] = e
			return cNext
		}
	}
	if isString(t) {
		op := x.Op
		return func(m *M, fr *frame) int {
			p, q := fr.get(m, a), fr.get(m, b)
			if op == token.ADD {
				fr.regs[d] = strConcat(p, q)
				return cNext
			}
			pc, pt := strParts(p)
			qc, qt := strParts(q)
			var r Val
			neg := false
			switch op {
			case token.LSS:
				r = m.ltBytes(pc, pt, qc, qt)
			case token.GTR:
				r = m.ltBytes(qc, qt, pc, pt)
			case token.LEQ:
				r, neg = m.ltBytes(qc, qt, pc, pt), true
			case token.GEQ:
				r, neg = m.ltBytes(pc, pt, qc, qt), true
			}
			if neg {
				r = m.tval(m.ts.Not(m.term(r, 0)))
			}
			fr.regs[d] = r
			return cNext
		}
	}
	if ok, n := isFloat(t); ok {
		op := x.Op
		return func(m *M, fr *frame) int {
			v := m.fbin(op, fr.get(m, a), fr.get(m, b))
			if n == 32 && v.T == nil && op != token.LSS && op != token.GTR && op != token.LEQ && op != token.GEQ {
				v.K = math.Float64bits(float64(float32(math.Float64frombits(v.K))))
			}
			fr.regs[d] = v
			return cNext
		}
	}
	w, signed, ok := bwidth(t)
	if !ok {
		return nil
	}
	op := x.Op
	var yw uint8
	var ysigned bool
	if op == token.SHL || op == token.SHR {
		yw, ysigned, _ = bwidth(x.Y.Type())
	}
	return func(m *M, fr *frame) int {
		p, q := fr.get(m, a), fr.get(m, b)
		if p.T == nil && q.T == nil {
			fr.regs[d] = m.ibin(op, p.K, q.K, w, signed, yw, ysigned)
			return cNext
		}
		fr.regs[d] = m.sbin(op, p, q, w, signed, yw, ysigned)
		return cNext
	}
}

func (m *M) ibin(op token.Token, x, y uint64, w uint8, signed bool, yw uint8, ysigned bool) Val {
	mk := mask(w)
	switch op {
	case token.ADD:
		return Val{K: (x + y) & mk}
	case token.SUB:
		return Val{K: (x - y) & mk}
	case token.MUL:
		return Val{K: (x * y) & mk}
	case token.QUO, token.REM:
		if y == 0 {
			m.goPanicStr("integer divide by zero")
		}
		if signed {
			sx, sy := sext64(x, w), sext64(y, w)
			if sy == -1 {
				if op == token.QUO {
					return Val{K: uint64(-sx) & mk}
				}
				return Val{}
			}
			if op == token.QUO {
				return Val{K: uint64(sx/sy) & mk}
			}
			return Val{K: uint64(sx%sy) & mk}
		}
		if op == token.QUO {
			return Val{K: x / y}
		}
		return Val{K: x % y}
	case token.AND:
		return Val{K: x & y}
	case token.OR:
		return Val{K: x | y}
	case token.XOR:
		return Val{K: x ^ y}
	case token.AND_NOT:
		return Val{K: x &^ y}
	case token.SHL, token.SHR:
		if ysigned && sext64(y, yw) < 0 {
			m.goPanicStr("negative shift amount")
		}
		if op == token.SHL {
			if y >= uint64(w) {
				return Val{}
			}
			return Val{K: x << y & mk}
		}
		if signed {
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return Val{K: uint64(sext64(x, w)>>y) & mk}
		}
		if y >= uint64(w) {
			return Val{}
		}
		return Val{K: x >> y}
	}
	var r bool
	if signed {
		sx, sy := sext64(x, w), sext64(y, w)
		switch op {
		case token.LSS:
			r = sx < sy
		case token.LEQ:
			r = sx <= sy
		case token.GTR:
			r = sx > sy
		case token.GEQ:
			r = sx >= sy
		}
	} else {
		switch op {
		case token.LSS:
			r = x < y
		case token.LEQ:
			r = x <= y
		case token.GTR:
			r = x > y
		case token.GEQ:
			r = x >= y
		}
	}
	return Val{K: b2u(r)}
}

func (m *M) sbin(op token.Token, p, q Val, w uint8, signed bool, yw uint8, ysigned bool) Val {
	ts := m.ts
	if op == token.SHL || op == token.SHR {
		x := m.term(p, w)
		y := m.term(q, yw)
		if ysigned && m.decide(ts.Slt(y, ts.Const(yw, 0))) {
			m.goPanicStr("negative shift amount")
		}
		cw := w
		if yw > w && !y.isC() {
			cw = yw
		}
		if y.isC() {
			k := y.k
			if k > 255 {
				k = 255
			}
			if k >= uint64(w) {
				k = uint64(w)
			}
			if w == 8 && k > 255 {
				k = 255
			}
			y = ts.Const(cw, k)
		} else {
			y = ts.Zext(y, cw)
		}
		var r *Term
		switch {
		case op == token.SHL:
			r = ts.Extract(ts.Shl(ts.Zext(x, cw), y), w-1, 0)
		case signed:
			r = ts.Extract(ts.Ashr(ts.Sext(x, cw), y), w-1, 0)
		default:
			r = ts.Extract(ts.Lshr(ts.Zext(x, cw), y), w-1, 0)
		}
		return m.tval(r)
	}
	x, y := m.term(p, w), m.term(q, w)
	switch op {
	case token.ADD:
		return m.tval(ts.Add(x, y))
	case token.SUB:
		return m.tval(ts.Sub(x, y))
	case token.MUL:
		return m.tval(ts.Mul(x, y))
	case token.QUO, token.REM:
		if m.decide(ts.Eq(y, ts.Const(w, 0))) {
			m.goPanicStr("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return m.tval(ts.Sdiv(x, y))
		case op == token.QUO:
			return m.tval(ts.Udiv(x, y))
		case signed:
			return m.tval(ts.Srem(x, y))
		}
		return m.tval(ts.Urem(x, y))
	case token.AND:
		return m.tval(ts.BvAnd(x, y))
	case token.OR:
		return m.tval(ts.BvOr(x, y))
	case token.XOR:
		return m.tval(ts.BvXor(x, y))
	case token.AND_NOT:
		return m.tval(ts.BvAnd(x, ts.BvNot(y)))
	case token.LSS:
		if signed {
			return m.tval(ts.Slt(x, y))
		}
		return m.tval(ts.Ult(x, y))
	case token.LEQ:
		if signed {
			return m.tval(ts.Sle(x, y))
		}
		return m.tval(ts.Ule(x, y))
	case token.GTR:
		if signed {
			return m.tval(ts.Slt(y, x))
		}
		return m.tval(ts.Ult(y, x))
	case token.GEQ:
		if signed {
			return m.tval(ts.Sle(y, x))
		}
		return m.tval(ts.Ule(y, x))
	}
	m.unsupported("binop %s", op)
	return Val{}
}

func (m *M) fbin(op token.Token, p, q Val) Val {
	x, y := m.term(p, 64), m.term(q, 64)
	ts := m.ts
	switch op {
	case token.ADD:
		return m.tval(ts.fop(OFAdd, 64, x, y, 0))
	case token.SUB:
		return m.tval(ts.fop(OFSub, 64, x, y, 0))
	case token.MUL:
		return m.tval(ts.fop(OFMul, 64, x, y, 0))
	case token.QUO:
		return m.tval(ts.fop(OFDiv, 64, x, y, 0))
	case token.LSS:
		return m.tval(ts.fop(OFLt, 0, x, y, 0))
	case token.LEQ:
		return m.tval(ts.fop(OFLe, 0, x, y, 0))
	case token.GTR:
		return m.tval(ts.fop(OFLt, 0, y, x, 0))
	case token.GEQ:
		return m.tval(ts.fop(OFLe, 0, y, x, 0))
	case token.EQL:
		return m.tval(ts.fop(OFEq, 0, x, y, 0))
	case token.NEQ:
		return m.tval(ts.Not(ts.fop(OFEq, 0, x, y, 0)))
	}
	m.unsupported("float op %s", op)
	return Val{}
}

func (c *compiler) convert(x *ssa.Convert) inst {
	d, a := c.reg(x), c.opd(x.X)
	from, to := x.X.Type(), x.Type()
	fw, fs, fok := bwidth(from)
	tw, tsn, tok := bwidth(to)
	ff, _ := isFloat(from)
	tf, tn := isFloat(to)
	switch {
	case fok && tok:
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			if v.R != nil { // uintptr(unsafe.Pointer)
				fr.regs[d] = v
				return cNext
			}
			if v.T == nil {
				k := v.K
				if tw > fw && fs {
					k = uint64(sext64(k, fw))
				}
				fr.regs[d] = Val{K: k & mask(tw)}
				return cNext
			}
			t := v.T
			if tw > fw {
				if fs {
					t = m.ts.Sext(t, tw)
				} else {
					t = m.ts.Zext(t, tw)
				}
			} else if tw < fw {
				t = m.ts.Extract(t, tw-1, 0)
			}
			fr.regs[d] = m.tval(t)
			return cNext
		}
	case fok && tf:
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			op := OUToF
			t := m.term(v, fw)
			if fs {
				op = OSToF
			}
			r := m.tval(m.ts.fop(op, 64, t, nil, 0))
			if tn == 32 && r.T == nil {
				r.K = math.Float64bits(float64(float32(math.Float64frombits(r.K))))
			}
			fr.regs[d] = r
			return cNext
		}
	case ff && tok:
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			op := OFToU
			if tsn {
				op = OFToS
			}
			if v.T != nil && tw < 64 {
				t := m.ts.fop(OFToS, 64, v.T, nil, 0)
				fr.regs[d] = m.tval(m.ts.Extract(t, tw-1, 0))
				return cNext
			}
			fr.regs[d] = m.tval(m.ts.fop(op, tw, m.term(v, 64), nil, 0))
			return cNext
		}
	case ff && tf:
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			if tn == 32 {
				if v.T != nil {
					m.unsupported("symbolic float32")
				}
				v.K = math.Float64bits(float64(float32(math.Float64frombits(v.K))))
			}
			fr.regs[d] = v
			return cNext
		}
	case isString(to):
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if isByte(sl.Elem()) {
				return func(m *M, fr *frame) int {
					cb, ct := sliceParts(fr.get(m, a))
					fr.regs[d] = mkStr(cb, ct)
					return cNext
				}
			}
			return func(m *M, fr *frame) int { // []rune -> string
				s := sliceOf(fr.get(m, a))
				var out Val
				for i := 0; i < s.len; i++ {
					out = strConcat(out, m.runeStr(arrGet(s.arr, s.off+i)))
				}
				fr.regs[d] = out
				return cNext
			}
		}
		if fok {
			return func(m *M, fr *frame) int {
				v := fr.get(m, a)
				if v.T != nil {
					v.T = m.ts.Sext(v.T, 64)
					if !fs {
						v.T = m.ts.Zext(v.T, 64)
					}
					v.T = m.ts.Extract(v.T, 31, 0)
				}
				fr.regs[d] = m.runeStr(v)
				return cNext
			}
		}
		return c.move(x, x.X)
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if isByte(sl.Elem()) {
				return func(m *M, fr *frame) int {
					cb, ct := strParts(fr.get(m, a))
					fr.regs[d] = mkBytes(cb, ct, roundupsize(len(cb)))
					return cNext
				}
			}
			return func(m *M, fr *frame) int { // string -> []rune
				it := &strIter{s: fr.get(m, a)}
				va := &VArr{}
				for it.i < strLen(it.s) {
					r, _ := m.decodeRune(it)
					va.e = append(va.e, r)
				}
				fr.regs[d] = Val{R: Slice{arr: va, len: len(va.e), cap: len(va.e)}}
				return cNext
			}
		}
	}
	// unsafe.Pointer and pointer conversions
	return func(m *M, fr *frame) int {
		v := fr.get(m, a)
		fr.regs[d] = v
		return cNext
	}
}

func (m *M) runeStr(v Val) Val {
	if v.T == nil {
		return Val{R: string(rune(int32(v.K)))}
	}
	if m.decide(m.ts.Ult(v.T, m.ts.Const(v.T.w, 0x80))) {
		return mkStr([]byte{0}, []*Term{m.ts.Extract(v.T, 7, 0)})
	}
	k := m.concretize(v)
	return Val{R: string(rune(int32(k)))}
}

// ---- indexing ----

// bound forks on idx in [0,n).
func (m *M) bound(idx Val, n int, w uint8, signed bool) Val {
	if idx.T == nil {
		k := idx.K
		if signed {
			k = uint64(sext64(k, w))
		}
		if k >= uint64(n) {
			m.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", int64(k), n))
		}
		return Val{K: k}
	}
	t := idx.T
	var ok *Term
	if w < 64 {
		if signed {
			t = m.ts.Sext(t, 64)
		} else {
			t = m.ts.Zext(t, 64)
		}
	}
	ok = m.ts.Ult(t, m.ts.Const(64, uint64(n)))
	if !m.decide(ok) {
		m.goPanicStr(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return m.tval(t)
}

// mux selects element idx (in range) of n scalar elements.
func (m *M) mux(get func(i int) Val, n int, idx *Term, w uint8) Val {
	els := make([]*Term, n)
	for i := range els {
		v := get(i)
		if v.R != nil {
			return Val{R: muxFail{}}
		}
		els[i] = m.term(v, w)
	}
	bitsN := 0
	for (1 << bitsN) < n {
		bitsN++
	}
	var rec func(lo, b int) *Term
	rec = func(lo, b int) *Term {
		if lo >= n {
			return nil
		}
		if b < 0 {
			return els[lo]
		}
		l := rec(lo, b-1)
		h := rec(lo+1<<b, b-1)
		if h == nil {
			return l
		}
		bit := m.ts.Eq(m.ts.Extract(idx, uint8(b), uint8(b)), m.ts.Const(1, 1))
		return m.ts.Ite(bit, h, l)
	}
	return m.tval(rec(0, bitsN-1))
}

type muxFail struct{}

const muxLimit = 5000 // longest array read or written through a symbolic index without a case split

// SymElem is a pointer to a symbolically indexed array element.
type SymElem struct {
	arr any
	off int
	n   int
	idx *Term
	w   uint8
}

func (c *compiler) index(x *ssa.Index) inst {
	d, a, i := c.reg(x), c.opd(x.X), c.opd(x.Index)
	iw, is, _ := bwidth(x.Index.Type())
	ew, _, scalar := bwidth(x.Type())
	str := isString(x.X.Type())
	return func(m *M, fr *frame) int {
		v := fr.get(m, a)
		var n int
		if str {
			n = strLen(v)
		} else {
			n = arrLen(v.R)
		}
		ix := m.bound(fr.get(m, i), n, iw, is)
		get := func(k int) Val {
			if str {
				return strAt(v, k)
			}
			return arrGet(v.R, k)
		}
		if ix.T != nil && scalar && n <= m.ex.mux {
			fr.regs[d] = m.mux(get, n, ix.T, ew)
			return cNext
		}
		fr.regs[d] = get(int(m.concretize(ix)))
		return cNext
	}
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) inst {
	d, a, i := c.reg(x), c.opd(x.X), c.opd(x.Index)
	iw, is, _ := bwidth(x.Index.Type())
	_, isSlice := x.X.Type().Underlying().(*types.Slice)
	ew, _, scalar := bwidth(deref(x.Type()))
	// symbolic element pointers are only produced when every use is a load or store through it
	onlyMem := true
	if refs := x.Referrers(); refs != nil {
		for _, r := range *refs {
			switch y := r.(type) {
			case *ssa.UnOp:
				if y.Op != token.MUL {
					onlyMem = false
				}
			case *ssa.Store:
				if y.Val == ssa.Value(x) {
					onlyMem = false
				}
			case *ssa.DebugRef:
			default:
				onlyMem = false
			}
		}
	}
	return func(m *M, fr *frame) int {
		v := fr.get(m, a)
		var arr any
		var off, n int
		if isSlice {
			s := sliceOf(v)
			arr, off, n = s.arr, s.off, s.len
		} else {
			p, ok := v.R.(*Val)
			if !ok || p == nil {
				m.nilDeref(v)
			}
			arr = p.R
			n = arrLen(arr)
		}
		ix := m.bound(fr.get(m, i), n, iw, is)
		if ix.T != nil && scalar && onlyMem && n <= m.ex.mux {
			fr.regs[d] = Val{R: &SymElem{arr, off, n, ix.T, ew}}
			return cNext
		}
		k := off + int(m.concretize(ix))
		switch ar := arr.(type) {
		case *VArr:
			fr.regs[d] = Val{R: &ar.e[k]}
		case *BArr:
			fr.regs[d] = Val{R: BPtr{ar, k}}
		}
		return cNext
	}
}

func (m *M) loadSym(e *SymElem) Val {
	return m.mux(func(i int) Val { return arrGet(e.arr, e.off+i) }, e.n, e.idx, e.w)
}

func (m *M) storeSym(e *SymElem, v Val) {
	nv := m.term(v, e.w)
	for i := 0; i < e.n; i++ {
		old := arrGet(e.arr, e.off+i)
		t := m.ts.Ite(m.ts.Eq(e.idx, m.ts.Const(e.idx.w, uint64(i))), nv, m.term(old, e.w))
		r := m.tval(t)
		switch ar := e.arr.(type) {
		case *VArr:
			ar.e[e.off+i] = r
		case *BArr:
			ar.set(e.off+i, r)
		}
	}
}

func (c *compiler) lookup(x *ssa.Lookup) inst {
	d, a, i := c.reg(x), c.opd(x.X), c.opd(x.Index)
	if isString(x.X.Type()) {
		iw, is, _ := bwidth(x.Index.Type())
		return func(m *M, fr *frame) int {
			v := fr.get(m, a)
			n := strLen(v)
			ix := m.bound(fr.get(m, i), n, iw, is)
			if ix.T != nil && n <= m.ex.mux {
				fr.regs[d] = m.mux(func(k int) Val { return strAt(v, k) }, n, ix.T, 8)
				return cNext
			}
			fr.regs[d] = strAt(v, int(m.concretize(ix)))
			return cNext
		}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	return func(m *M, fr *frame) int {
		mp, _ := fr.get(m, a).R.(*Map)
		m.mapAcc(mp, false)
		e := m.mapFind(mp, fr.get(m, i), mt.Key())
		var v Val
		if e != nil {
			v = e.v
		} else {
			v = zero(mt.Elem())
		}
		if x.CommaOk {
			fr.regs[d] = Val{R: Tuple{v, Val{K: b2u(e != nil)}}}
		} else {
			fr.regs[d] = v
		}
		return cNext
	}
}

type strIter struct {
	s Val
	i int
}
type mapIter struct {
	mp   *Map
	ents []*mapEnt
	i    int
}

func (c *compiler) next(x *ssa.Next) inst {
	d, a := c.reg(x), c.opd(x.Iter)
	tt := x.Type().(*types.Tuple)
	return func(m *M, fr *frame) int {
		switch it := fr.get(m, a).R.(type) {
		case *strIter:
			if it.i >= strLen(it.s) {
				fr.regs[d] = Val{R: Tuple{Val{}, Val{}, Val{}}}
				return cNext
			}
			pos := it.i
			r, _ := m.decodeRune(it)
			fr.regs[d] = Val{R: Tuple{Val{K: 1}, Val{K: uint64(pos)}, r}}
		case *mapIter:
			m.mapAcc(it.mp, false)
			for it.i < len(it.ents) && !it.ents[it.i].live {
				it.i++
			}
			if it.i >= len(it.ents) {
				fr.regs[d] = Val{R: Tuple{Val{}, zeroOr(tt.At(1).Type()), zeroOr(tt.At(2).Type())}}
				return cNext
			}
			e := it.ents[it.i]
			it.i++
			fr.regs[d] = Val{R: Tuple{Val{K: 1}, e.k, e.v}}
		}
		return cNext
	}
}

func zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Val{}
	}
	return zero(t)
}

// decodeRune decodes one rune at it.i (forking on lead-byte classes) and advances.
func (m *M) decodeRune(it *strIter) (Val, int) {
	n := strLen(it.s)
	b0 := strAt(it.s, it.i)
	ts := m.ts
	if b0.T == nil && b0.K < 0x80 {
		it.i++
		return Val{K: b0.K}, 1
	}
	if b0.T != nil {
		if m.decide(ts.Ult(b0.T, ts.Const(8, 0x80))) {
			it.i++
			return Val{T: ts.Zext(b0.T, 32)}, 1
		}
	}
	at := func(i int) *Term {
		return m.term(strAt(it.s, i), 8)
	}
	in := func(t *Term, lo, hi uint64) bool {
		return m.decide(ts.And(ts.Ule(ts.Const(8, lo), t), ts.Ule(t, ts.Const(8, hi))))
	}
	bad := func() (Val, int) {
		it.i++
		return Val{K: 0xFFFD}, 1
	}
	t0 := at(it.i)
	lowbits := func(t *Term, k uint8) *Term { return ts.Zext(ts.Extract(t, k-1, 0), 32) }
	sh := func(t *Term, k uint64) *Term { return ts.Shl(t, ts.Const(32, k)) }
	rest := n - it.i
	switch {
	case in(t0, 0xC2, 0xDF):
		if rest < 2 || !in(at(it.i+1), 0x80, 0xBF) {
			return bad()
		}
		r := ts.BvOr(sh(lowbits(t0, 5), 6), lowbits(at(it.i+1), 6))
		it.i += 2
		return m.tval(r), 2
	case in(t0, 0xE0, 0xEF):
		lo, hi := uint64(0x80), uint64(0xBF)
		if m.decide(ts.Eq(t0, ts.Const(8, 0xE0))) {
			lo = 0xA0
		} else if m.decide(ts.Eq(t0, ts.Const(8, 0xED))) {
			hi = 0x9F
		}
		if rest < 3 || !in(at(it.i+1), lo, hi) || !in(at(it.i+2), 0x80, 0xBF) {
			return bad()
		}
		r := ts.BvOr(sh(lowbits(t0, 4), 12), ts.BvOr(sh(lowbits(at(it.i+1), 6), 6), lowbits(at(it.i+2), 6)))
		it.i += 3
		return m.tval(r), 3
	case in(t0, 0xF0, 0xF4):
		lo, hi := uint64(0x80), uint64(0xBF)
		if m.decide(ts.Eq(t0, ts.Const(8, 0xF0))) {
			lo = 0x90
		} else if m.decide(ts.Eq(t0, ts.Const(8, 0xF4))) {
			hi = 0x8F
		}
		if rest < 4 || !in(at(it.i+1), lo, hi) || !in(at(it.i+2), 0x80, 0xBF) || !in(at(it.i+3), 0x80, 0xBF) {
			return bad()
		}
		r := ts.BvOr(sh(lowbits(t0, 3), 18), ts.BvOr(sh(lowbits(at(it.i+1), 6), 12), ts.BvOr(sh(lowbits(at(it.i+2), 6), 6), lowbits(at(it.i+3), 6))))
		it.i += 4
		return m.tval(r), 4
	}
	return bad()
}

func (c *compiler) slice(x *ssa.Slice) inst {
	d, a := c.reg(x), c.opd(x.X)
	lo, hi, mx := -1<<30, -1<<30, -1<<30
	type wi struct {
		w uint8
		s bool
	}
	var lw, hw, mw wi
	if x.Low != nil {
		lo = c.opd(x.Low)
		lw.w, lw.s, _ = bwidth(x.Low.Type())
	}
	if x.High != nil {
		hi = c.opd(x.High)
		hw.w, hw.s, _ = bwidth(x.High.Type())
	}
	if x.Max != nil {
		mx = c.opd(x.Max)
		mw.w, mw.s, _ = bwidth(x.Max.Type())
	}
	str := isString(x.X.Type())
	const none = -1 << 30
	return func(m *M, fr *frame) int {
		v := fr.get(m, a)
		var arr any
		var off, ln, cp int
		if str {
			ln = strLen(v)
			cp = ln
		} else if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			s := sliceOf(v)
			arr, off, ln, cp = s.arr, s.off, s.len, s.cap
		} else {
			p, ok := v.R.(*Val)
			if !ok || p == nil {
				m.nilDeref(v)
			}
			arr = p.R
			ln = arrLen(arr)
			cp = ln
		}
		bnd := func(o int, wi wi, lim int, what string) int {
			iv := fr.get(m, o)
			if iv.T == nil {
				k := iv.K
				if wi.s {
					k = uint64(sext64(k, wi.w))
				}
				if k > uint64(lim) {
					m.goPanicStr(fmt.Sprintf("slice bounds out of range [%s %d with capacity %d]", what, int64(k), lim))
				}
				return int(k)
			}
			t := iv.T
			if wi.w < 64 {
				if wi.s {
					t = m.ts.Sext(t, 64)
				} else {
					t = m.ts.Zext(t, 64)
				}
			}
			if !m.decide(m.ts.Ule(t, m.ts.Const(64, uint64(lim)))) {
				m.goPanicStr(fmt.Sprintf("slice bounds out of range [%s symbolic with capacity %d]", what, lim))
			}
			return int(m.concretize(m.tval(t)))
		}
		max := cp
		if mx != none {
			max = bnd(mx, mw, cp, "max")
		}
		h := ln
		if hi != none {
			h = bnd(hi, hw, max, "high")
		} else if h > max {
			h = max
		}
		l := 0
		if lo != none {
			l = bnd(lo, lw, h, "low")
		}
		if str {
			fr.regs[d] = strSub(v, l, h)
			return cNext
		}
		if arr == nil {
			fr.regs[d] = Val{}
			return cNext
		}
		fr.regs[d] = Val{R: Slice{arr: arr, off: off + l, len: h - l, cap: max - l}}
		return cNext
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) inst {
	d, a := c.reg(x), c.opd(x.X)
	at := x.AssertedType
	it, isI := at.Underlying().(*types.Interface)
	p := c.p
	return func(m *M, fr *frame) int {
		v := fr.get(m, a)
		var ok bool
		var r Val
		if i, y := v.R.(*Iface); y {
			if isI {
				ok = p.implements(i.t, it)
				r = v
			} else {
				ok = typeID(i.t) == typeID(at)
				r = i.v
			}
		}
		if x.CommaOk {
			if !ok {
				r = zero(at)
			}
			fr.regs[d] = Val{R: Tuple{r, Val{K: b2u(ok)}}}
			return cNext
		}
		if !ok {
			m.goPanicStr("interface conversion: wrong dynamic type for " + at.String())
		}
		fr.regs[d] = r
		return cNext
	}
}

// ---- branching with if-conversion of side-effect-free diamonds ----

func (c *compiler) ifInstr(x *ssa.If) inst {
	a := c.opd(x.Cond)
	b := x.Block()
	tb, fb := c.bmap[b.Succs[0]], c.bmap[b.Succs[1]]
	from := b.Index
	var merge func(m *M, fr *frame, t *Term) bool
	merge = c.mergePlan(b)
	return func(m *M, fr *frame) int {
		v := fr.get(m, a)
		if v.T != nil && merge != nil && !m.spec {
			if merge(m, fr, v.T) {
				return cJump
			}
		}
		fr.prev = from
		if m.cond(v) {
			fr.b = tb
		} else {
			fr.b = fb
		}
		fr.pc = 0
		return cJump
	}
}

// simpleJump reports that blk is a single-predecessor block of pure instructions ending in a jump.
func simpleJump(blk *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
	if len(blk.Preds) != 1 || len(blk.Instrs) > 24 {
		return nil, false
	}
	if _, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Jump); !ok {
		return nil, false
	}
	return blk.Succs[0], true
}

func (c *compiler) mergePlan(b *ssa.BasicBlock) func(m *M, fr *frame, t *Term) bool {
	T, F := b.Succs[0], b.Succs[1]
	if T == F {
		return nil
	}
	var join *ssa.BasicBlock
	var sideT, sideF *ssa.BasicBlock
	jt, okT := simpleJump(T)
	jf, okF := simpleJump(F)
	switch {
	case okT && okF && jt == jf:
		join, sideT, sideF = jt, T, F
	case okT && jt == F:
		join, sideT = F, T
	case okF && jf == T:
		join, sideF = T, F
	default:
		return c.mergeChain(b)
	}
	if join == b || join == T && sideT == T {
		return nil
	}
	predT, predF := b.Index, b.Index
	if sideT != nil {
		predT = sideT.Index
	}
	if sideF != nil {
		predF = sideF.Index
	}
	var phis []*ssa.Phi
	for _, in := range join.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			if _, _, sc := bwidth(ph.Type()); !sc {
				return nil
			}
			phis = append(phis, ph)
		}
	}
	edge := map[int]int{}
	for i, p := range join.Preds {
		edge[p.Index] = i
	}
	type pm struct {
		dst, t, f int
		w         uint8
	}
	var pms []pm
	for _, ph := range phis {
		w, _, _ := bwidth(ph.Type())
		pms = append(pms, pm{c.reg(ph), c.opd(ph.Edges[edge[predT]]), c.opd(ph.Edges[edge[predF]]), w})
	}
	jb := c.bmap[join]
	var bt, bf *blockInfo
	if sideT != nil {
		bt = c.bmap[sideT]
	}
	if sideF != nil {
		bf = c.bmap[sideF]
	}
	nphi := 0
	if len(phis) > 0 {
		nphi = 1
	}
	return func(m *M, fr *frame, t *Term) bool {
		if bt != nil && !m.specRun(fr, bt, len(bt.code)-1) || bf != nil && !m.specRun(fr, bf, len(bf.code)-1) {
			return false
		}
		vals := make([]Val, len(pms))
		for i, p := range pms {
			x, y := fr.get(m, p.t), fr.get(m, p.f)
			if x.R != nil || y.R != nil {
				return false
			}
			vals[i] = m.tval(m.ts.Ite(t, m.term(x, p.w), m.term(y, p.w)))
		}
		for i, p := range pms {
			fr.regs[p.dst] = vals[i]
		}
		fr.prev = predT
		fr.b = jb
		fr.pc = nphi
		return true
	}
}

// mergeChain handles short-circuit conditions: if a {if b goto X else Y} else Y.
func (c *compiler) mergeChain(b *ssa.BasicBlock) func(m *M, fr *frame, t *Term) bool {
	T, F := b.Succs[0], b.Succs[1]
	try := func(inner, other *ssa.BasicBlock, innerOnTrue bool) func(m *M, fr *frame, t *Term) bool {
		if len(inner.Preds) != 1 || len(inner.Instrs) > 24 {
			return nil
		}
		iff, ok := inner.Instrs[len(inner.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		var otherTrue bool // inner's true edge goes to other
		switch other {
		case inner.Succs[0]:
			otherTrue = true
		case inner.Succs[1]:
		default:
			return nil
		}
		if inner.Succs[0] == inner.Succs[1] {
			return nil
		}
		// phis in other must agree on both incoming edges
		var e1, e2 = -1, -1
		for i, p := range other.Preds {
			if p == b {
				e1 = i
			}
			if p == inner {
				e2 = i
			}
		}
		for _, in := range other.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && ph.Edges[e1] != ph.Edges[e2] {
				return nil
			}
		}
		cond := c.opd(iff.Cond)
		ib, ob := c.bmap[inner], c.bmap[other]
		var next *blockInfo
		if otherTrue {
			next = c.bmap[inner.Succs[1]]
		} else {
			next = c.bmap[inner.Succs[0]]
		}
		from, ifrom := b.Index, inner.Index
		return func(m *M, fr *frame, t *Term) bool {
			if !m.specRun(fr, ib, len(ib.code)-1) {
				return false
			}
			v := fr.get(m, cond)
			if v.R != nil {
				return false
			}
			// reach next iff (t==innerOnTrue) and inner cond leads to next
			g := t
			if !innerOnTrue {
				g = m.ts.Not(t)
			}
			ic := m.term(v, 0)
			if otherTrue {
				ic = m.ts.Not(ic)
			}
			if m.decide(m.ts.And(g, ic)) {
				fr.prev = ifrom
				fr.b = next
			} else {
				fr.prev = from
				fr.b = ob
			}
			fr.pc = 0
			return true
		}
	}
	if r := try(T, F, true); r != nil {
		return r
	}
	return try(F, T, false)
}

// specRun executes the first n instructions of a side-effect-free block speculatively.
func (m *M) specRun(fr *frame, b *blockInfo, n int) (ok bool) {
	if !b.simple {
		return false
	}
	if len(b.ssab.Instrs) > 0 {
		if _, isPhi := b.ssab.Instrs[0].(*ssa.Phi); isPhi {
			return false
		}
	}
	ob, opc := fr.b, fr.pc
	m.spec = true
	defer func() {
		m.spec = false
		fr.b, fr.pc = ob, opc
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	fr.b = b
	for i := 0; i < n; i++ {
		fr.pc = i + 1
		if b.code[i](m, fr) != cNext {
			return false
		}
		m.steps++
	}
	return true
}
