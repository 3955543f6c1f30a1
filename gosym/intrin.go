package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math"
	"strconv"
	"strings"
)

type intrinsic func(m *M, a []Val) (Val, int)

// stubPkgs: every function is a no-op returning zero values (logging / formatting only).
var stubPkgs = map[string]bool{
	"github.com/rs/zerolog":     true,
	"github.com/rs/zerolog/log": true,
	"log":                       true,
	"runtime/debug":             true,
}

func ret0(m *M, a []Val) (Val, int) { return Val{}, cNext }

// leaf returns the i-th scalar cell below a pointer (lock state storage).
func leaf(p Val, i int) *Val {
	v, ok := p.R.(*Val)
	if !ok || v == nil {
		return nil
	}
	var found *Val
	n := 0
	var rec func(c *Val)
	rec = func(c *Val) {
		if found != nil {
			return
		}
		switch r := c.R.(type) {
		case *Struct:
			for j := range r.f {
				rec(&r.f[j])
			}
		case *VArr:
			for j := range r.e {
				rec(&r.e[j])
			}
		case *BArr:
		default:
			if n == i {
				found = c
			}
			n++
		}
	}
	rec(v)
	return found
}

func (m *M) leafOr(p Val, i int) *Val {
	if p.R == nil {
		m.goPanicStr("invalid memory address or nil pointer dereference")
	}
	c := leaf(p, i)
	if c == nil {
		m.unsupported("lock layout")
	}
	return c
}

func lockIntr(m *M, a []Val) (Val, int) {
	c := m.leafOr(a[0], 0)
	r := m.leafOr(a[0], 1)
	if c.K != 0 || r.K != 0 {
		return Val{}, m.block(func() bool { return c.K == 0 && r.K == 0 })
	}
	c.K = 1
	return Val{}, cNext
}

func mutexLock(m *M, a []Val) (Val, int) {
	c := m.leafOr(a[0], 0)
	m.raceShut()
	if m.preempt() {
		return Val{}, cBlock
	}
	if c.K != 0 {
		return Val{}, m.block(func() bool { return c.K == 0 })
	}
	c.K = 1
	return Val{}, cNext
}
func mutexUnlock(m *M, a []Val) (Val, int) {
	c := m.leafOr(a[0], 0)
	if c.K == 0 {
		m.goPanicPlain("fatal error: sync: unlock of unlocked mutex")
	}
	c.K = 0
	return Val{}, cNext
}
func rwLock(m *M, a []Val) (Val, int) {
	w, r, p := m.leafOr(a[0], 0), m.leafOr(a[0], 1), m.leafOr(a[0], 2)
	m.raceShut()
	if m.preempt() {
		return Val{}, cBlock
	}
	if w.K != 0 || r.K != 0 {
		if m.g.pend != p {
			if m.spec {
				panic(specAbort{})
			}
			// a waiting writer keeps new readers out.
			m.g.pend = p
			p.K++
		}
		return Val{}, m.block(func() bool { return w.K == 0 && r.K == 0 })
	}
	if m.g.pend == p {
		m.g.pend = nil
		p.K--
	}
	w.K = 1
	return Val{}, cNext
}
func rwUnlock(m *M, a []Val) (Val, int) {
	w := m.leafOr(a[0], 0)
	if w.K == 0 {
		m.goPanicPlain("fatal error: sync: Unlock of unlocked RWMutex")
	}
	w.K = 0
	return Val{}, cNext
}
func rwRLock(m *M, a []Val) (Val, int) {
	w, r, p := m.leafOr(a[0], 0), m.leafOr(a[0], 1), m.leafOr(a[0], 2)
	m.raceShut()
	if m.preempt() {
		return Val{}, cBlock
	}
	if w.K != 0 || p.K != 0 {
		return Val{}, m.block(func() bool { return w.K == 0 && p.K == 0 })
	}
	r.K++
	return Val{}, cNext
}
func rwRUnlock(m *M, a []Val) (Val, int) {
	r := m.leafOr(a[0], 1)
	if r.K == 0 {
		m.goPanicPlain("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	r.K--
	return Val{}, cNext
}

// preempt lets another goroutine run before a synchronisation point when the
// harness asked for schedule exploration (bounded number of switches).
func (m *M) preempt() bool {
	if !m.schedOn || m.switches <= 0 || m.g.ready != nil {
		return false
	}
	if m.side["preempted"] == m.fr {
		delete(m.side, "preempted")
		return false
	}
	others := 0
	for _, g := range m.gs {
		if g != m.g && !g.done && (g.ready == nil || g.ready()) {
			others++
		}
	}
	if others == 0 {
		return false
	}
	v := m.newVar("sched", 0)
	if m.cond(v) {
		m.switches--
		m.side["preempted"] = m.fr
		return true
	}
	return false
}

func (m *M) newVar(name string, w uint8) Val {
	m.nvar++
	n := name + "#" + strconv.Itoa(m.nvar)
	t := m.ts.Var(w, n)
	m.inputs = append(m.inputs, inputRec{Name: name, T: t, W: w})
	return Val{T: t}
}

func (m *M) opaqueStr(s string) Val { return Val{R: s} }

func atomicAdd(w uint8) intrinsic {
	return func(m *M, a []Val) (Val, int) {
		m.raceShut()
		v := m.load(a[0])
		var r Val
		if v.T == nil && a[1].T == nil {
			r = Val{K: (v.K + a[1].K) & mask(w)}
		} else {
			r = m.tval(m.ts.Add(m.term(v, w), m.term(a[1], w)))
		}
		m.store(a[0], r)
		return r, cNext
	}
}
func atomicLoad(m *M, a []Val) (Val, int)  { m.raceShut(); return m.load(a[0]), cNext }
func atomicStore(m *M, a []Val) (Val, int) { m.raceShut(); m.store(a[0], a[1]); return Val{}, cNext }
func atomicSwap(m *M, a []Val) (Val, int) {
	m.raceShut()
	v := m.load(a[0])
	m.store(a[0], a[1])
	return v, cNext
}
func atomicCAS(w uint8) intrinsic {
	return func(m *M, a []Val) (Val, int) {
		m.raceShut()
		v := m.load(a[0])
		var eq bool
		if w == 255 {
			eq = ptrEq(v.R, a[1].R)
		} else if v.T == nil && a[1].T == nil {
			eq = v.K == a[1].K
		} else {
			eq = m.decide(m.ts.Eq(m.term(v, w), m.term(a[1], w)))
		}
		if eq {
			m.store(a[0], a[2])
		}
		return Val{K: b2u(eq)}, cNext
	}
}

func (m *M) mkError(msg string) Val {
	s := &Struct{f: []Val{{R: msg}}}
	return Val{R: &Iface{t: m.p.errStrPtr, v: Val{R: &Val{R: s}}}}
}

// ifaceStr renders an interface argument as a concrete string when possible.
func (m *M) ifaceStr(v Val) (string, bool) {
	i, ok := v.R.(*Iface)
	if !ok {
		return "<nil>", true
	}
	if isString(i.t) {
		if _, sym := i.v.R.(*SStr); sym {
			return "", false
		}
		return goString(i.v), true
	}
	if w, s, ok := bwidth(i.t); ok && i.v.T == nil {
		if w == 0 {
			return strconv.FormatBool(i.v.K != 0), true
		}
		if s {
			return strconv.FormatInt(sext64(i.v.K, w), 10), true
		}
		return strconv.FormatUint(i.v.K, 10), true
	}
	return "", false
}

// sprintf is a formatting model: exact for concrete %s/%d/%v arguments, opaque otherwise.
func (m *M) sprintf(a []Val) string {
	f := goString(a[0])
	s := sliceOf(a[1])
	var sb strings.Builder
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' || i+1 >= len(f) {
			sb.WriteByte(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			sb.WriteByte('%')
			i = j
			continue
		}
		if ai < s.len {
			x, ok := m.ifaceStr(arrGet(s.arr, s.off+ai))
			if !ok {
				m.opaque++
				x = "<?>"
			}
			sb.WriteString(x)
		}
		ai++
		i = j
	}
	return sb.String()
}

func constLenBytes(v Val) ([]byte, []*Term) {
	switch v.R.(type) {
	case string, *SStr:
		return strParts(v)
	}
	return sliceParts(v)
}

// indexOf finds the first position where pred holds, forking on symbolic bytes.
func (m *M) indexByte(v Val, c Val, last bool) Val {
	cb, ct := constLenBytes(v)
	n := len(cb)
	for k := 0; k < n; k++ {
		i := k
		if last {
			i = n - 1 - k
		}
		if ct[i] == nil && c.T == nil {
			if cb[i] == byte(c.K) {
				return Val{K: uint64(i)}
			}
			continue
		}
		x := ct[i]
		if x == nil {
			x = m.ts.Const(8, uint64(cb[i]))
		}
		if m.decide(m.ts.Eq(x, m.term(c, 8))) {
			return Val{K: uint64(i)}
		}
	}
	return Val{K: ^uint64(0)}
}

func (m *M) indexSub(v, sub Val) Val {
	cb, ct := constLenBytes(v)
	sb, st := constLenBytes(sub)
	for i := 0; i+len(sb) <= len(cb); i++ {
		if m.cond(m.eqBytes(cb[i:i+len(sb)], ct[i:i+len(sb)], sb, st)) {
			return Val{K: uint64(i)}
		}
	}
	return Val{K: ^uint64(0)}
}

var intrinsics map[string]intrinsic

func init() {
	eqB := func(m *M, a []Val) (Val, int) {
		ac, at := constLenBytes(a[0])
		bc, bt := constLenBytes(a[1])
		if len(ac) != len(bc) {
			return Val{}, cNext
		}
		return m.eqBytes(ac, at, bc, bt), cNext
	}
	cmpB := func(m *M, a []Val) (Val, int) {
		ac, at := constLenBytes(a[0])
		bc, bt := constLenBytes(a[1])
		lt := m.term(m.ltBytes(ac, at, bc, bt), 0)
		gt := m.term(m.ltBytes(bc, bt, ac, at), 0)
		one, mone, z := m.ts.Const(64, 1), m.ts.Const(64, ^uint64(0)), m.ts.Const(64, 0)
		return m.tval(m.ts.Ite(lt, mone, m.ts.Ite(gt, one, z))), cNext
	}
	idx := func(m *M, a []Val) (Val, int) { return m.indexByte(a[0], a[1], false), cNext }
	lidx := func(m *M, a []Val) (Val, int) { return m.indexByte(a[0], a[1], true), cNext }
	isub := func(m *M, a []Val) (Val, int) { return m.indexSub(a[0], a[1]), cNext }
	count := func(m *M, a []Val) (Val, int) {
		cb, ct := constLenBytes(a[0])
		acc := m.ts.Const(64, 0)
		for i := range cb {
			x := ct[i]
			if x == nil {
				x = m.ts.Const(8, uint64(cb[i]))
			}
			acc = m.ts.Add(acc, m.ts.Ite(m.ts.Eq(x, m.term(a[1], 8)), m.ts.Const(64, 1), m.ts.Const(64, 0)))
		}
		return m.tval(acc), cNext
	}
	identity := func(m *M, a []Val) (Val, int) { return a[0], cNext }
	fround := func(k uint64) intrinsic {
		return func(m *M, a []Val) (Val, int) { return m.tval(m.ts.fop(OFRound, 64, m.term(a[0], 64), nil, k)), cNext }
	}
	fconc := func(f func(float64) float64) intrinsic {
		return func(m *M, a []Val) (Val, int) {
			if a[0].T != nil {
				m.unsupported("symbolic float function")
			}
			return Val{K: math.Float64bits(f(math.Float64frombits(a[0].K)))}, cNext
		}
	}
	onceDo := func(m *M, a []Val) (Val, int) {
		c := m.leafOr(a[0], 0)
		if c.K != 0 {
			return Val{}, cNext
		}
		c.K = 1
		cl, _ := a[1].R.(*Closure)
		fr := m.fr
		_, ctl := m.call(cl, nil, -1)
		_ = fr
		return Val{}, ctl
	}
	intrinsics = map[string]intrinsic{
		"(*sync.Mutex).Lock":   mutexLock,
		"(*sync.Mutex).Unlock": mutexUnlock,
		"(*sync.Mutex).TryLock": func(m *M, a []Val) (Val, int) {
			c := m.leafOr(a[0], 0)
			if c.K != 0 {
				return Val{}, cNext
			}
			c.K = 1
			return Val{K: 1}, cNext
		},
		"(*sync.RWMutex).Lock":    rwLock,
		"(*sync.RWMutex).Unlock":  rwUnlock,
		"(*sync.RWMutex).RLock":   rwRLock,
		"(*sync.RWMutex).RUnlock": rwRUnlock,
		"(*sync.Once).Do":         onceDo,
		"(*sync.WaitGroup).Add": func(m *M, a []Val) (Val, int) {
			c := m.leafOr(a[0], 0)
			c.K += a[1].K
			if int64(c.K) < 0 {
				m.goPanicPlain("sync: negative WaitGroup counter")
			}
			return Val{}, cNext
		},
		"(*sync.WaitGroup).Done": func(m *M, a []Val) (Val, int) {
			c := m.leafOr(a[0], 0)
			c.K--
			if int64(c.K) < 0 {
				m.goPanicPlain("sync: negative WaitGroup counter")
			}
			return Val{}, cNext
		},
		"(*sync.WaitGroup).Wait": func(m *M, a []Val) (Val, int) {
			c := m.leafOr(a[0], 0)
			if c.K != 0 {
				return Val{}, m.block(func() bool { return c.K == 0 })
			}
			return Val{}, cNext
		},
		"(*sync.Pool).Get": func(m *M, a []Val) (Val, int) {
			p := a[0].R.(*Val)
			if l := m.pools[p]; len(l) > 0 {
				v := l[len(l)-1]
				m.pools[p] = l[:len(l)-1]
				return v, cNext
			}
			st := p.R.(*Struct)
			cl, _ := st.f[len(st.f)-1].R.(*Closure)
			if cl == nil {
				return Val{}, cNext
			}
			// result goes to the call instruction's destination register
			return m.tail(cl, nil)
		},
		"(*sync.Pool).Put": func(m *M, a []Val) (Val, int) {
			p := a[0].R.(*Val)
			m.pools[p] = append(m.pools[p], a[1])
			return Val{}, cNext
		},
		"runtime.Gosched":                      func(m *M, a []Val) (Val, int) { return m.gosched() },
		"runtime.KeepAlive":                    ret0,
		"runtime.SetFinalizer":                 ret0,
		"runtime.GC":                           ret0,
		"runtime.NumGoroutine":                 func(m *M, a []Val) (Val, int) { return Val{K: 1}, cNext },
		"runtime.GOMAXPROCS":                   func(m *M, a []Val) (Val, int) { return Val{K: 1}, cNext },
		"runtime.NumCPU":                       func(m *M, a []Val) (Val, int) { return Val{K: 1}, cNext },
		"internal/bytealg.Equal":               eqB,
		"bytes.Equal":                          eqB,
		"internal/bytealg.Compare":             cmpB,
		"bytes.Compare":                        cmpB,
		"strings.Compare":                      cmpB,
		"internal/bytealg.CompareString":       cmpB,
		"internal/bytealg.IndexByte":           idx,
		"internal/bytealg.IndexByteString":     idx,
		"bytes.IndexByte":                      idx,
		"strings.IndexByte":                    idx,
		"internal/stringslite.IndexByte":       idx,
		"internal/bytealg.LastIndexByte":       lidx,
		"internal/bytealg.LastIndexByteString": lidx,
		"strings.LastIndexByte":                lidx,
		"bytes.LastIndexByte":                  lidx,
		"internal/bytealg.Count":               count,
		"internal/bytealg.CountString":         count,
		"internal/bytealg.Index":               isub,
		"internal/bytealg.IndexString":         isub,
		"strings.Index":                        isub,
		"bytes.Index":                          isub,
		"internal/stringslite.Index":           isub,
		"internal/bytealg.MakeNoZero": func(m *M, a []Val) (Val, int) {
			n := int(m.concretize(a[0]))
			return Val{R: Slice{arr: &BArr{c: make([]byte, n)}, len: n, cap: n}}, cNext
		},
		"internal/abi.NoEscape":      identity,
		"internal/abi.Escape":        identity,
		"strings.noescape":           identity,
		"internal/stringslite.Clone": identity,
		"strings.Clone":              identity,
		"math.Float64bits":           identity,
		"math.Float64frombits":       identity,
		"math.Floor":                 fround(0),
		"math.floor":                 fround(0),
		"math.Ceil":                  fround(1),
		"math.Trunc":                 fround(2),
		"math.Sqrt":                  fconc(math.Sqrt),
		"math.Log":                   fconc(math.Log),
		"math.Exp":                   fconc(math.Exp),
		"math.Log2":                  fconc(math.Log2),
		"math.Abs": func(m *M, a []Val) (Val, int) {
			return m.tval(m.ts.BvAnd(m.term(a[0], 64), m.ts.Const(64, 1<<63-1))), cNext
		},
		"math.Pow": func(m *M, a []Val) (Val, int) {
			if a[0].T != nil || a[1].T != nil {
				m.unsupported("symbolic pow")
			}
			return Val{K: math.Float64bits(math.Pow(math.Float64frombits(a[0].K), math.Float64frombits(a[1].K)))}, cNext
		},
		"fmt.Sprintf": func(m *M, a []Val) (Val, int) { return Val{R: m.sprintf(a)}, cNext },
		"fmt.Errorf":  func(m *M, a []Val) (Val, int) { return m.mkError(m.sprintf(a)), cNext },
		"fmt.Sprint": func(m *M, a []Val) (Val, int) {
			s := sliceOf(a[0])
			var sb strings.Builder
			for i := 0; i < s.len; i++ {
				x, ok := m.ifaceStr(arrGet(s.arr, s.off+i))
				if !ok {
					m.unsupported("fmt.Sprint of symbolic value")
				}
				sb.WriteString(x)
			}
			return Val{R: sb.String()}, cNext
		},
		"fmt.Println":      func(m *M, a []Val) (Val, int) { return Val{R: Tuple{Val{}, Val{}}}, cNext },
		"fmt.Printf":       func(m *M, a []Val) (Val, int) { return Val{R: Tuple{Val{}, Val{}}}, cNext },
		"fmt.Print":        func(m *M, a []Val) (Val, int) { return Val{R: Tuple{Val{}, Val{}}}, cNext },
		"fmt.Fprintf":      func(m *M, a []Val) (Val, int) { return Val{R: Tuple{Val{}, Val{}}}, cNext },
		"fmt.Fprintln":     func(m *M, a []Val) (Val, int) { return Val{R: Tuple{Val{}, Val{}}}, cNext },
		"time.runtimeNano": func(m *M, a []Val) (Val, int) { return Val{K: 1}, cNext },
		"errors.Is": func(m *M, a []Val) (Val, int) {
			return m.eqVal(a[0], a[1], types.Universe.Lookup("error").Type()), cNext
		},
		"sort.Slice":           sortSlice,
		"sort.SliceStable":     sortSlice,
		"sync/atomic.AddInt32": atomicAdd(32), "sync/atomic.AddUint32": atomicAdd(32),
		"sync/atomic.AddInt64": atomicAdd(64), "sync/atomic.AddUint64": atomicAdd(64), "sync/atomic.AddUintptr": atomicAdd(64),
		"sync/atomic.LoadInt32": atomicLoad, "sync/atomic.LoadUint32": atomicLoad, "sync/atomic.LoadInt64": atomicLoad,
		"sync/atomic.LoadUint64": atomicLoad, "sync/atomic.LoadUintptr": atomicLoad, "sync/atomic.LoadPointer": atomicLoad,
		"sync/atomic.StoreInt32": atomicStore, "sync/atomic.StoreUint32": atomicStore, "sync/atomic.StoreInt64": atomicStore,
		"sync/atomic.StoreUint64": atomicStore, "sync/atomic.StoreUintptr": atomicStore, "sync/atomic.StorePointer": atomicStore,
		"sync/atomic.SwapInt32": atomicSwap, "sync/atomic.SwapUint32": atomicSwap, "sync/atomic.SwapInt64": atomicSwap, "sync/atomic.SwapUint64": atomicSwap,
		"sync/atomic.CompareAndSwapInt32": atomicCAS(32), "sync/atomic.CompareAndSwapUint32": atomicCAS(32),
		"sync/atomic.CompareAndSwapInt64": atomicCAS(64), "sync/atomic.CompareAndSwapUint64": atomicCAS(64),
		"sync/atomic.CompareAndSwapPointer": atomicCAS(255),
		"(*sync/atomic.Value).Load": func(m *M, a []Val) (Val, int) {
			return *a[0].R.(*Val).R.(*Struct).f[0].ptr(), cNext
		},
		"(*sync/atomic.Value).Store": func(m *M, a []Val) (Val, int) {
			*a[0].R.(*Val).R.(*Struct).f[0].ptr() = a[1]
			return Val{}, cNext
		},
	}
	for k, f := range vrtIntrinsics() {
		intrinsics[vrtPath+"."+k] = f
	}
}

func (v *Val) ptr() *Val { return v }

// tail calls cl with the result delivered where the current call instruction expects it.
func (m *M) tail(cl *Closure, args []Val) (Val, int) {
	caller := m.fr
	v, ctl := m.call(cl, args, -1)
	if ctl == cNext {
		return v, cNext
	}
	// find destination register of the current instruction
	d := -1
	if caller.pc-1 >= 0 && caller.pc-1 < len(caller.b.src) {
		if c, ok := caller.b.src[caller.pc-1].(*ssa.Call); ok {
			d = m.p.regOf(caller.fn, c)
		}
	}
	m.fr.dst = d
	return Val{}, ctl
}

func (m *M) gosched() (Val, int) {
	if m.spec {
		panic(specAbort{})
	}
	// run every other runnable goroutine once before continuing
	if m.g.yielded {
		m.g.yielded = false
		return Val{}, cNext
	}
	m.g.yielded = true
	return Val{}, cBlock
}

// sortSlice runs the harness runtime's insertion sort with a native swap.
func sortSlice(m *M, a []Val) (Val, int) {
	i := a[0].R.(*Iface)
	s := sliceOf(i.v)
	swap := &Closure{name: "swap", native: func(m *M, b []Val) (Val, int) {
		x, y := int(m.concretize(b[0])), int(m.concretize(b[1]))
		switch ar := s.arr.(type) {
		case *VArr:
			p, q := &ar.e[s.off+x], &ar.e[s.off+y]
			pv, qv := copyVal(*p), copyVal(*q)
			storeInto(p, qv)
			storeInto(q, pv)
		case *BArr:
			pv, qv := ar.get(s.off+x), ar.get(s.off+y)
			ar.set(s.off+x, qv)
			ar.set(s.off+y, pv)
		}
		return Val{}, cNext
	}}
	fi := m.p.vrtFn("SortImpl")
	if fi == nil {
		m.unsupported("sort runtime missing")
	}
	return m.call(&Closure{fn: fi}, []Val{{K: uint64(s.len)}, a[1], {R: swap}}, -1)
}
