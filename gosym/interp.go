package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// control codes returned by instructions
const (
	cNext  = iota
	cJump  // frame/block changed: reload
	cBlock // goroutine cannot proceed: retry this instruction later
)

type inst func(m *M, fr *frame) int

type blockInfo struct {
	idx    int
	code   []inst
	src    []ssa.Instruction
	preds  []int
	ssab   *ssa.BasicBlock
	simple bool // only speculatable instructions
}

type fnInfo struct {
	name   string
	fn     *ssa.Function
	once   sync.Once
	blocks []*blockInfo
	nregs  int
	consts []Val
	params []int
	fvs    []int
	recov  *blockInfo
	intr   func(m *M, args []Val) (Val, int)
	err    string
	isInit bool
}

type deferRec struct {
	fn   *Closure
	args []Val
}

type goPanic struct {
	val       Val // interface value
	msg       string
	where     string
	recovered bool
}

type frame struct {
	fn        *fnInfo
	regs      []Val
	b         *blockInfo
	pc        int
	prev      int
	caller    *frame
	dst       int
	defers    []deferRec
	panicking *goPanic
	isDefer   bool // this frame runs a deferred call of caller
	wait      *waiter
	spec      bool
	onRet     func(m *M, v Val)
}

type gor struct {
	id    int
	top   *frame
	ready func() bool
	done  bool

	pend *Val // RWMutex it waits to write

	yielded bool // has let the others run at the current instruction
}

// pathEnd aborts the current path.
type pathEnd struct {
	kind string // ok, assume, violation, unsupported, limit, unknown
	msg  string
}

type pathPanic struct{ p *goPanic }

// specAbort leaves speculative execution.
type specAbort struct{}

type decision struct {
	taken  bool
	forced bool
	val    uint64 // concretisation value
}

// M is one worker's machine.
type M struct {
	p       *Prog
	ts      *Terms
	sol     *Solver
	globals []*Val
	inited  map[*ssa.Package]bool // per path (or sticky) package initialisation
	sticky  map[*ssa.Package]bool
	initing []*ssa.Package

	gs   []*gor
	g    *gor
	fr   *frame
	ngor int

	// path state
	prefix   []decision
	trace    []decision
	model    map[string]uint64
	ev       *evaluator
	nvar     int
	inputs   []inputRec
	steps    int64
	spec     bool
	ex       *Explorer
	pools    map[any][]Val
	opaque   int
	reached  map[string]bool
	asserts  int
	chooseN  int
	side     map[any]any
	entered  map[*fnInfo]bool
	limit    int64
	switches int
	schedOn  bool
	pointG   *gor // goroutine whose scheduling points are on
	pointBg  bool // those of all others are on instead
	race     *raceRec
	lastPos  token.Pos
}

type inputRec struct {
	Name string
	T    *Term
	W    uint8
	Conc uint64
}

func (m *M) fail(kind, msg string) { panic(pathEnd{kind, msg}) }

func (m *M) unsupported(f string, a ...any) {
	if m.spec {
		panic(specAbort{})
	}
	m.fail("unsupported", fmt.Sprintf(f, a...)+" at "+m.where())
}

func (m *M) where() string {
	var sb strings.Builder
	for fr, i := m.fr, 0; fr != nil && i < 8; fr, i = fr.caller, i+1 {
		if i > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.fn.name)
		pc := fr.pc - 1
		if i == 0 || pc >= 0 {
			if pc >= 0 && pc < len(fr.b.src) {
				pos := m.p.fset.Position(fr.b.src[pc].Pos())
				if pos.IsValid() {
					fmt.Fprintf(&sb, "(%s:%d)", shortPath(pos.Filename), pos.Line)
				}
			}
		}
	}
	return sb.String()
}

func shortPath(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

// ---- path condition ----

func (m *M) decide(t *Term) bool {
	if t == m.ts.T {
		return true
	}
	if t == m.ts.F {
		return false
	}
	if m.spec {
		panic(specAbort{})
	}
	n := len(m.trace)
	if n < len(m.prefix) {
		d := m.prefix[n]
		m.trace = append(m.trace, d)
		if !d.forced {
			m.addPC(t, d.taken)
		}
		return d.taken
	}
	if len(m.trace) > m.ex.maxDecisions {
		m.hang("decision limit")
	}
	side := m.evalModel(t) == 1
	q := t
	if side {
		q = m.ts.Not(t)
	}
	res, model := m.sol.check(q, true)
	switch res {
	case rUnsat:
		m.trace = append(m.trace, decision{side, true, 0})
		return side
	case rUnknown:
		m.timeUp()
		m.ex.noteUnknown(m.where())
		// keep exploring the known-feasible side only: recorded as reduced bound
		m.trace = append(m.trace, decision{side, false, 0})
		m.addPC(t, side)
		return side
	}
	alt := make([]decision, n+1)
	copy(alt, m.trace)
	alt[n] = decision{!side, false, 0}
	m.ex.push(workItem{alt, model})
	m.trace = append(m.trace, decision{side, false, 0})
	m.addPC(t, side)
	return side
}

// hang ends a path that exceeds its step bound; a harness that declares such a path impossible
// ("@hang N") gets a candidate, confirmed only if the native run does not end either.
func (m *M) hang(why string) {
	if m.ex.hang {
		m.violationAt("hang", m.model, why)
	}
	m.fail("limit", why+" at "+m.where())
}

// timeUp ends the path when the exploration's time is used up.
func (m *M) timeUp() {
	if time.Now().After(m.ex.deadline) {
		m.fail("limit", "time limit")
	}
}

func (m *M) addPC(t *Term, val bool) {
	if !val {
		t = m.ts.Not(t)
	}
	m.sol.assert(t)
}

func (m *M) evalModel(t *Term) uint64 {
	if m.ev == nil {
		m.ev = newEval(m.model)
	}
	return m.ev.eval(t)
}

func (m *M) setModel(mod map[string]uint64) {
	m.model = mod
	m.sol.hint = mod
	m.ev = nil
}

func (m *M) cond(v Val) bool {
	if v.T == nil {
		return v.K != 0
	}
	return m.decide(v.T)
}

func (m *M) term(v Val, w uint8) *Term {
	if v.T != nil {
		return v.T
	}
	if w == 0 {
		return m.ts.Bool(v.K != 0)
	}
	return m.ts.Const(w, v.K)
}

func (m *M) tval(t *Term) Val {
	switch t.op {
	case OConst:
		return Val{K: t.k}
	case OTrue:
		return Val{K: 1}
	case OFalse:
		return Val{}
	}
	return Val{T: t}
}

// concretize enumerates the feasible values of v by forking.
func (m *M) concretize(v Val) uint64 {
	if v.T == nil {
		return v.K
	}
	if m.spec {
		panic(specAbort{})
	}
	for i := 0; ; i++ {
		if i > m.ex.maxEnum {
			m.fail("limit", "concretisation has too many values at "+m.where())
		}
		n := len(m.trace)
		if n < len(m.prefix) {
			d := m.prefix[n]
			m.trace = append(m.trace, d)
			if !d.forced {
				m.addPC(m.ts.Eq(v.T, m.ts.Const(v.T.w, d.val)), d.taken)
			}
			if d.taken {
				return d.val
			}
			continue
		}
		k := m.evalModel(v.T)
		eq := m.ts.Eq(v.T, m.ts.Const(v.T.w, k))
		res, model := m.sol.check(m.ts.Not(eq), true)
		switch res {
		case rUnsat:
			m.trace = append(m.trace, decision{true, true, k})
			return k
		case rUnknown:
			m.ex.noteUnknown("concretise " + m.where())
		case rSat:
			alt := make([]decision, n+1)
			copy(alt, m.trace)
			alt[n] = decision{false, false, k}
			m.ex.push(workItem{alt, model})
		}
		m.trace = append(m.trace, decision{true, false, k})
		m.addPC(eq, true)
		return k
	}
}

// assume restricts the path.
func (m *M) assume(v Val) {
	if v.T == nil {
		if v.K == 0 {
			m.fail("assume", "")
		}
		return
	}
	if m.spec {
		panic(specAbort{})
	}
	n := len(m.trace)
	if n < len(m.prefix) {
		m.trace = append(m.trace, m.prefix[n])
		m.addPC(v.T, true)
		return
	}
	if m.evalModel(v.T) == 1 {
		m.trace = append(m.trace, decision{true, false, 0})
		m.addPC(v.T, true)
		return
	}
	res, model := m.sol.check(v.T, true)
	switch res {
	case rUnsat:
		m.fail("assume", "")
	case rUnknown:
		m.timeUp()
		m.ex.noteUnknown("assume " + m.where())
		m.fail("assume", "")
	}
	m.setModel(model)
	m.trace = append(m.trace, decision{true, false, 0})
	m.addPC(v.T, true)
}

// check an assertion: all values on this path must satisfy it.
func (m *M) assertProp(v Val, id string) {
	m.asserts++
	m.ex.noteAssert(id, v.T != nil)
	if v.T == nil {
		if v.K == 0 {
			m.violation(id, m.model)
		}
		return
	}
	n := len(m.trace)
	if n < len(m.prefix) {
		// decided on an ancestor path
		m.trace = append(m.trace, m.prefix[n])
		if !m.prefix[n].forced {
			m.addPC(v.T, true)
		}
		return
	}
	if m.evalModel(v.T) == 0 {
		m.violation(id, m.model)
	}
	res, model := m.sol.check(m.ts.Not(v.T), true)
	switch res {
	case rSat:
		m.violation(id, model)
	case rUnknown:
		m.timeUp()
		m.ex.noteUnknown("assert " + id)
		m.trace = append(m.trace, decision{true, false, 0})
		m.addPC(v.T, true)
		return
	}
	m.trace = append(m.trace, decision{true, true, 0})
}

// ---- goroutines and frames ----

func (m *M) newG(c *Closure, args []Val) *gor {
	m.ngor++
	g := &gor{id: m.ngor}
	m.gs = append(m.gs, g)
	og, of := m.g, m.fr
	m.g, m.fr = g, nil
	v, ctl := m.call(c, args, -1)
	_ = v
	if ctl == cNext { // native: done already
		g.done = true
	} else {
		g.top = m.fr
	}
	m.g, m.fr = og, of
	return g
}

// call invokes c; for interpreted functions it pushes a frame and returns cJump.
func (m *M) call(c *Closure, args []Val, dst int) (Val, int) {
	if c == nil {
		m.goPanicStr("invalid memory address or nil pointer dereference")
	}
	if c.native != nil {
		return c.native(m, args)
	}
	fi := c.fn
	if fi.intr != nil {
		m.entered[fi] = true
		return fi.intr(m, args)
	}
	if m.spec {
		panic(specAbort{})
	}
	m.p.compile(fi)
	if fi.err != "" {
		m.unsupported("%s: %s", fi.name, fi.err)
	}
	m.entered[fi] = true
	fr := &frame{fn: fi, regs: make([]Val, fi.nregs), caller: m.fr, dst: dst, b: fi.blocks[0]}
	for i, r := range fi.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fi.fvs {
		fr.regs[r] = c.free[i]
	}
	d := 0
	if m.fr != nil {
		d = m.depth()
	}
	if d > 400 {
		m.fail("limit", "call depth at "+m.where())
	}
	m.fr = fr
	return Val{}, cJump
}

func (m *M) depth() int {
	n := 0
	for f := m.fr; f != nil; f = f.caller {
		n++
		if n > 401 {
			break
		}
	}
	return n
}

func (m *M) goPanicStr(msg string) {
	if m.spec {
		panic(specAbort{})
	}
	w := m.where()
	panic(pathPanic{&goPanic{val: Val{R: &Iface{t: m.p.rtErrType, v: Val{R: "runtime error: " + msg}}}, msg: "runtime error: " + msg, where: w}})
}

func (m *M) ret(v Val) int {
	fr := m.fr
	caller := fr.caller
	m.fr = caller
	m.g.top = caller
	if fr.onRet != nil {
		fr.onRet(m, v)
		if m.fr != caller {
			return cJump
		}
	}
	if caller == nil {
		m.g.done = true
		return cJump
	}
	if fr.isDefer && caller.panicking != nil {
		if caller.panicking.recovered {
			caller.panicking = nil
			// run remaining defers, then return through the recover block
			m.afterRecover(caller)
			return cJump
		}
		m.unwind(caller.panicking)
		return cJump
	}
	if fr.isDefer && caller.wait == recoverMark {
		m.afterRecover(caller)
		return cJump
	}
	if fr.dst >= 0 {
		caller.regs[fr.dst] = v
	}
	return cJump
}

var recoverMark = &waiter{}

func (m *M) afterRecover(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.wait = recoverMark
		if m.pushDefer(fr, d) {
			return
		}
	}
	fr.wait = nil
	m.fr = fr
	if fr.fn.recov != nil {
		fr.b = fr.fn.recov
		fr.pc = 0
		return
	}
	var v Val
	res := fr.fn.fn.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		v = zero(res.At(0).Type())
	default:
		v = zero(res)
	}
	m.ret(v)
}

// pushDefer starts a deferred call; false when it completed immediately.
func (m *M) pushDefer(fr *frame, d deferRec) bool {
	m.fr = fr
	_, ctl := m.call(d.fn, d.args, -1)
	if ctl == cJump && m.fr != fr {
		m.fr.isDefer = true
		return true
	}
	return false
}

// safeUnwind unwinds; a panic raised by a native deferred call replaces the current one.
func (m *M) safeUnwind(p *goPanic) {
	for p != nil {
		cur := p
		p = nil
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(pathPanic); ok {
						p = x.p
						return
					}
					panic(r)
				}
			}()
			m.unwind(cur)
		}()
	}
}

func (m *M) unwind(p *goPanic) {
	for {
		fr := m.fr
		if fr == nil {
			m.ex.uncaught(m, p)
			return
		}
		fr.panicking = p
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			if m.pushDefer(fr, d) {
				return
			}
			continue
		}
		fr.panicking = nil
		m.fr = fr.caller
		m.g.top = m.fr
		if fr.isDefer && m.fr != nil && m.fr.panicking != nil {
			// panic in deferred call replaces the old one
			m.fr.panicking = nil
		}
	}
}

// run executes until the main goroutine finishes.
func (m *M) run() {
	main := m.gs[0]
	for !main.done {
		if m.fr == nil || m.g.done {
			m.g.top = nil
			if !m.schedule() {
				m.fail("violation-deadlock", "all goroutines are blocked")
			}
			continue
		}
		m.exec()
	}
}

func (m *M) exec() {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathPanic:
				m.safeUnwind(x.p)
			default:
				panic(r)
			}
		}
	}()
	for {
		fr := m.fr
		if fr == nil || m.g.done {
			return
		}
		code := fr.b.code
		for {
			in := code[fr.pc]
			fr.pc++
			m.steps++
			if c := in(m, fr); c != cNext {
				if c == cBlock {
					fr.pc--
					m.g.top = m.fr
					if !m.schedule() {
						m.ex.deadlock(m)
					}
				}
				break
			}
		}
		if m.steps > m.limit {
			m.hang("instruction limit")
		}
		if m.steps&0x3fff < 64 && time.Now().After(m.ex.deadline) {
			m.fail("limit", "deadline")
		}
	}
}

// schedule picks the next runnable goroutine after the current one.
func (m *M) schedule() bool {
	// drop finished goroutines (never the main one)
	n := len(m.gs)
	cur := 0
	for i, g := range m.gs {
		if g == m.g {
			cur = i
		}
	}
	for k := 1; k <= n; k++ {
		g := m.gs[(cur+k)%n]
		if g.done {
			continue
		}
		if g.ready != nil && !g.ready() {
			continue
		}
		g.ready = nil
		if g != m.g {
			m.g.top = m.fr
		}
		m.g = g
		m.fr = g.top
		if len(m.gs) > 64 {
			m.gcG()
		}
		return true
	}
	return false
}

func (m *M) gcG() {
	var out []*gor
	for i, g := range m.gs {
		if i == 0 || !g.done || g == m.g {
			out = append(out, g)
		}
	}
	m.gs = out
}

// block parks the current goroutine until ready() and retries the instruction.
func (m *M) block(ready func() bool) int {
	if m.spec {
		panic(specAbort{})
	}
	m.raceShut()
	m.g.ready = ready
	return cBlock
}

// yield gives other goroutines a chance (used by Gosched/Sleep).
func (m *M) yield() {
	if m.spec {
		panic(specAbort{})
	}
}

// ---- equality ----

func (m *M) eqVal(a, b Val, t types.Type) Val {
	ts := m.ts
	bo := func(x bool) Val { return Val{K: b2u(x)} }
	if w, _, ok := bwidth(t); ok {
		if a.T == nil && b.T == nil {
			return bo(a.K == b.K)
		}
		return m.tval(ts.Eq(m.term(a, w), m.term(b, w)))
	}
	if ok, _ := isFloat(t); ok {
		return m.fbin(token.EQL, a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if strLen(a) != strLen(b) {
				return bo(false)
			}
			if x, ok := a.R.(string); ok {
				if y, ok := b.R.(string); ok {
					return bo(x == y)
				}
			}
			ac, at := strParts(a)
			bc, bt := strParts(b)
			return m.eqBytes(ac, at, bc, bt)
		}
		return bo(ptrEq(a.R, b.R))
	case *types.Struct:
		acc := ts.T
		x, y := a.R.(*Struct), b.R.(*Struct)
		for i := range x.f {
			e := m.eqVal(x.f[i], y.f[i], u.Field(i).Type())
			acc = ts.And(acc, m.term(e, 0))
			if acc == ts.F {
				break
			}
		}
		return m.tval(acc)
	case *types.Array:
		acc := ts.T
		for i := 0; i < int(u.Len()); i++ {
			e := m.eqVal(arrGet(a.R, i), arrGet(b.R, i), u.Elem())
			acc = ts.And(acc, m.term(e, 0))
			if acc == ts.F {
				break
			}
		}
		return m.tval(acc)
	case *types.Interface:
		if a.R == nil || b.R == nil {
			return bo(a.R == nil && b.R == nil)
		}
		x, ok1 := a.R.(*Iface)
		y, ok2 := b.R.(*Iface)
		if !ok1 || !ok2 {
			return bo(false)
		}
		if typeID(x.t) != typeID(y.t) {
			return bo(false)
		}
		return m.eqVal(x.v, y.v, x.t)
	}
	return bo(ptrEq(a.R, b.R))
}

func (m *M) eqBytes(ac []byte, at []*Term, bc []byte, bt []*Term) Val {
	ts := m.ts
	acc := ts.T
	for i := range ac {
		x, y := at[i], bt[i]
		if x == nil && y == nil {
			if ac[i] != bc[i] {
				return Val{}
			}
			continue
		}
		if x == nil {
			x = ts.Const(8, uint64(ac[i]))
		}
		if y == nil {
			y = ts.Const(8, uint64(bc[i]))
		}
		acc = ts.And(acc, ts.Eq(x, y))
		if acc == ts.F {
			return Val{}
		}
	}
	return m.tval(acc)
}

// ltBytes: lexicographic a<b.
func (m *M) ltBytes(ac []byte, at []*Term, bc []byte, bt []*Term) Val {
	ts := m.ts
	n := len(ac)
	if len(bc) < n {
		n = len(bc)
	}
	res := ts.Bool(len(ac) < len(bc))
	for i := n - 1; i >= 0; i-- {
		x, y := at[i], bt[i]
		if x == nil {
			x = ts.Const(8, uint64(ac[i]))
		}
		if y == nil {
			y = ts.Const(8, uint64(bc[i]))
		}
		res = ts.Or(ts.Ult(x, y), ts.And(ts.Eq(x, y), res))
	}
	return m.tval(res)
}

func ptrEq(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case Slice:
		return false
	case BPtr:
		y, ok := b.(BPtr)
		return ok && x == y
	case *Closure:
		return a == b
	}
	return a == b
}

// ---- explorer ----

type workItem struct {
	prefix []decision
	model  map[string]uint64
}

var _ = sort.Ints
var _ = os.Exit
