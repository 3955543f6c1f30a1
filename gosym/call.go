package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee resolves a call's target and arguments at run time.
func (c *compiler) callee(cc *ssa.CallCommon) func(m *M, fr *frame) (*Closure, []Val) {
	var as []int
	for _, a := range cc.Args {
		as = append(as, c.opd(a))
	}
	args := func(m *M, fr *frame, extra int) []Val {
		out := make([]Val, extra, extra+len(as))
		for _, a := range as {
			out = append(out, fr.get(m, a))
		}
		return out
	}
	if cc.IsInvoke() {
		recv := c.opd(cc.Value)
		meth := cc.Method
		p := c.p
		return func(m *M, fr *frame) (*Closure, []Val) {
			v := fr.get(m, recv)
			i, ok := v.R.(*Iface)
			if !ok {
				m.goPanicStr("invalid memory address or nil pointer dereference (nil interface)")
			}
			if no, ok := i.v.R.(*nativeObj); ok {
				f := no.methods[meth.Name()]
				if f == nil {
					m.unsupported("native method %s", meth.Name())
				}
				return &Closure{native: f, name: meth.Name()}, args(m, fr, 0)
			}
			fi := p.method(i.t, meth)
			if fi == nil {
				m.unsupported("method %s of %s", meth.Name(), i.t)
			}
			out := args(m, fr, 1)
			out[0] = i.v
			return &Closure{fn: fi}, out
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		b := c.builtin(f, cc)
		if b == nil {
			panic(compileErr("builtin " + f.Name()))
		}
		cl := &Closure{native: b, name: f.Name()}
		return func(m *M, fr *frame) (*Closure, []Val) { return cl, args(m, fr, 0) }
	case *ssa.Function:
		cl := &Closure{fn: c.p.fnOf(f)}
		return func(m *M, fr *frame) (*Closure, []Val) { return cl, args(m, fr, 0) }
	}
	fv := c.opd(cc.Value)
	return func(m *M, fr *frame) (*Closure, []Val) {
		cl, _ := fr.get(m, fv).R.(*Closure)
		return cl, args(m, fr, 0)
	}
}

// nativeObj is an interface implementation provided by the engine.
type nativeObj struct {
	methods map[string]func(m *M, args []Val) (Val, int)
}

func (c *compiler) callInstr(x *ssa.Call) inst {
	d := c.reg(x)
	cc := c.callee(&x.Call)
	return func(m *M, fr *frame) int {
		cl, args := cc(m, fr)
		v, ctl := m.call(cl, args, d)
		if ctl == cNext {
			fr.regs[d] = v
		}
		return ctl
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(m *M, args []Val) (Val, int) {
	argT := func(i int) types.Type { return cc.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		isLen := b.Name() == "len"
		return func(m *M, a []Val) (Val, int) {
			switch r := a[0].R.(type) {
			case nil:
				return Val{}, cNext
			case string, *SStr:
				return Val{K: uint64(strLen(a[0]))}, cNext
			case Slice:
				if isLen {
					return Val{K: uint64(r.len)}, cNext
				}
				return Val{K: uint64(r.cap)}, cNext
			case *Map:
				return Val{K: uint64(r.n)}, cNext
			case *Chan:
				if isLen {
					return Val{K: uint64(len(r.buf))}, cNext
				}
				return Val{K: uint64(r.cap)}, cNext
			case *VArr, *BArr:
				return Val{K: uint64(arrLen(r))}, cNext
			case *Val:
				return Val{K: uint64(arrLen(r.R))}, cNext
			}
			m.unsupported("len of %T", a[0].R)
			return Val{}, cNext
		}
	case "append":
		st := cc.Signature().Results().At(0).Type().Underlying().(*types.Slice)
		et := st.Elem()
		by := isByte(et)
		esz := int(sizes.Sizeof(et))
		return func(m *M, a []Val) (Val, int) {
			s := sliceOf(a[0])
			var add int
			isStr := false
			switch r := a[1].R.(type) {
			case nil:
				if s.arr == nil {
					return a[0], cNext
				}
				return a[0], cNext
			case string, *SStr:
				add = strLen(a[1])
				isStr = true
			case Slice:
				add = r.len
			}
			if add == 0 {
				return a[0], cNext
			}
			n := s.len + add
			if n > s.cap {
				nc := growcap(s.cap, n, esz)
				if by {
					nb := &BArr{c: make([]byte, nc)}
					if s.len > 0 {
						copyBytes(nb, 0, s.arr.(*BArr), s.off, s.len)
					}
					s = Slice{arr: nb, len: s.len, cap: nc}
				} else {
					na := &VArr{e: make([]Val, nc)}
					fillZero(na.e[s.len:], et)
					for i := 0; i < s.len; i++ {
						na.e[i] = copyVal(arrGet(s.arr, s.off+i))
					}
					s = Slice{arr: na, len: s.len, cap: nc}
				}
			}
			if by {
				dst := s.arr.(*BArr)
				if isStr {
					cb, ct := strParts(a[1])
					for i := range cb {
						if ct[i] != nil {
							dst.set(s.off+s.len+i, Val{T: ct[i]})
						} else {
							dst.set(s.off+s.len+i, Val{K: uint64(cb[i])})
						}
					}
				} else {
					src := a[1].R.(Slice)
					copyBytes(dst, s.off+s.len, src.arr.(*BArr), src.off, src.len)
				}
			} else {
				src := a[1].R.(Slice)
				tmp := make([]Val, add)
				for i := 0; i < add; i++ {
					tmp[i] = copyVal(arrGet(src.arr, src.off+i))
				}
				da := s.arr.(*VArr)
				for i := 0; i < add; i++ {
					storeInto(&da.e[s.off+s.len+i], tmp[i])
				}
			}
			s.len = n
			return Val{R: s}, cNext
		}
	case "copy":
		return func(m *M, a []Val) (Val, int) {
			d := sliceOf(a[0])
			n := d.len
			switch r := a[1].R.(type) {
			case nil:
				return Val{}, cNext
			case string, *SStr:
				if l := strLen(a[1]); l < n {
					n = l
				}
				for i := 0; i < n; i++ {
					d.arr.(*BArr).set(d.off+i, strAt(a[1], i))
				}
				return Val{K: uint64(n)}, cNext
			case Slice:
				if r.len < n {
					n = r.len
				}
				if n == 0 {
					return Val{}, cNext
				}
				if db, ok := d.arr.(*BArr); ok {
					copyBytes(db, d.off, r.arr.(*BArr), r.off, n)
				} else {
					da, sa := d.arr.(*VArr), r.arr.(*VArr)
					tmp := make([]Val, n)
					for i := range tmp {
						tmp[i] = copyVal(sa.e[r.off+i])
					}
					for i := range tmp {
						storeInto(&da.e[d.off+i], tmp[i])
					}
				}
			}
			return Val{K: uint64(n)}, cNext
		}
	case "delete":
		kt := argT(0).Underlying().(*types.Map).Key()
		return func(m *M, a []Val) (Val, int) {
			if mp, ok := a[0].R.(*Map); ok {
				m.mapAcc(mp, true)
				m.mapDel(mp, a[1], kt)
			}
			return Val{}, cNext
		}
	case "clear":
		_, isMap := argT(0).Underlying().(*types.Map)
		return func(m *M, a []Val) (Val, int) {
			if isMap {
				if mp, ok := a[0].R.(*Map); ok {
					m.mapAcc(mp, true)
					for _, e := range mp.ents {
						e.live = false
					}
					*mp = *newMap()
				}
				return Val{}, cNext
			}
			s := sliceOf(a[0])
			et := argT(0).Underlying().(*types.Slice).Elem()
			for i := 0; i < s.len; i++ {
				switch ar := s.arr.(type) {
				case *BArr:
					ar.set(s.off+i, Val{})
				case *VArr:
					storeInto(&ar.e[s.off+i], zero(et))
				}
			}
			return Val{}, cNext
		}
	case "close":
		return func(m *M, a []Val) (Val, int) {
			ch, _ := a[0].R.(*Chan)
			if ch == nil {
				m.goPanicPlain("close of nil channel")
			}
			if ch.closed {
				m.goPanicPlain("close of closed channel")
			}
			m.chanClose(ch)
			return Val{}, cNext
		}
	case "panic":
		return func(m *M, a []Val) (Val, int) {
			panic(pathPanic{&goPanic{val: a[0], msg: m.show(a[0]), where: m.where()}})
		}
	case "recover":
		return func(m *M, a []Val) (Val, int) {
			fr := m.fr
			if fr != nil && fr.isDefer && fr.caller != nil && fr.caller.panicking != nil && !fr.caller.panicking.recovered {
				fr.caller.panicking.recovered = true
				return fr.caller.panicking.val, cNext
			}
			return Val{}, cNext
		}
	case "print", "println":
		return func(m *M, a []Val) (Val, int) {
			if debugEngine {
				for _, x := range a {
					switch {
					case x.T != nil:
						fmt.Print("<sym> ")
					case x.R != nil:
						fmt.Print(goString(x), " ")
					default:
						fmt.Print(int64(x.K), " ")
					}
				}
				fmt.Println()
			}
			return Val{}, cNext
		}
	case "min", "max":
		t := argT(0)
		w, sg, ok := bwidth(t)
		isMin := b.Name() == "min"
		if !ok {
			return nil
		}
		return func(m *M, a []Val) (Val, int) {
			r := a[0]
			for _, x := range a[1:] {
				var lt *Term
				p, q := m.term(r, w), m.term(x, w)
				if sg {
					lt = m.ts.Slt(p, q)
				} else {
					lt = m.ts.Ult(p, q)
				}
				if isMin {
					r = m.tval(m.ts.Ite(lt, p, q))
				} else {
					r = m.tval(m.ts.Ite(lt, q, p))
				}
			}
			return r, cNext
		}
	case "ssa:wrapnilchk":
		return func(m *M, a []Val) (Val, int) {
			if a[0].R == nil {
				m.goPanicStr("invalid memory address or nil pointer dereference")
			}
			return a[0], cNext
		}
	case "ssa:deferstack":
		return func(m *M, a []Val) (Val, int) { return Val{}, cNext }
	case "SliceData", "StringData":
		return func(m *M, a []Val) (Val, int) {
			switch r := a[0].R.(type) {
			case Slice:
				if r.arr == nil {
					return Val{}, cNext
				}
				if b, ok := r.arr.(*BArr); ok {
					return Val{R: BPtr{b, r.off}}, cNext
				}
				if r.off < len(r.arr.(*VArr).e) {
					return Val{R: &r.arr.(*VArr).e[r.off]}, cNext
				}
				return Val{}, cNext
			case string, *SStr:
				cb, ct := strParts(a[0])
				s := mkBytes(cb, ct, len(cb)).R.(Slice)
				return Val{R: BPtr{s.arr.(*BArr), 0}}, cNext
			}
			return Val{}, cNext
		}
	case "String":
		return func(m *M, a []Val) (Val, int) {
			n := int(m.concretize(a[1]))
			if n == 0 {
				return Val{}, cNext
			}
			bp, ok := a[0].R.(BPtr)
			if !ok {
				m.unsupported("unsafe.String of %T", a[0].R)
			}
			cb, ct := sliceParts(Val{R: Slice{arr: bp.a, off: bp.i, len: n, cap: n}})
			return mkStr(cb, ct), cNext
		}
	case "Slice":
		return func(m *M, a []Val) (Val, int) {
			n := int(m.concretize(a[1]))
			if bp, ok := a[0].R.(BPtr); ok {
				return Val{R: Slice{arr: bp.a, off: bp.i, len: n, cap: n}}, cNext
			}
			if n == 0 {
				return Val{}, cNext
			}
			m.unsupported("unsafe.Slice")
			return Val{}, cNext
		}
	}
	return nil
}

func (m *M) goPanicPlain(msg string) {
	if m.spec {
		panic(specAbort{})
	}
	panic(pathPanic{&goPanic{val: Val{R: &Iface{t: m.p.rtErrType, v: Val{R: msg}}}, msg: msg, where: m.where()}})
}

// show renders a value for messages.
func (m *M) show(v Val) string {
	if i, ok := v.R.(*Iface); ok {
		if isString(i.t) {
			return goString(i.v)
		}
		if p, ok := i.v.R.(*Val); ok {
			if s, ok := p.R.(*Struct); ok && len(s.f) > 0 {
				return fmt.Sprintf("%s{%s}", i.t, goString(s.f[0]))
			}
		}
		return i.t.String()
	}
	return goString(v)
}

// size classes of the Go allocator
var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n == 0 {
		return 0
	}
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growcap(old, need, esz int) int {
	nc := old
	if need > old*2 {
		nc = need
	} else if old < 256 {
		nc = old * 2
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if esz == 0 {
		return need
	}
	return roundupsize(nc*esz) / esz
}

// ---- channels ----

type waiter struct {
	done bool
	idx  int
	val  Val
	ok   bool
}

type wq struct {
	w   *waiter
	idx int
	val Val
}

// Chan is a channel.
type Chan struct {
	cap    int
	buf    []Val
	closed bool
	recvq  []wq
	sendq  []wq
}

func popq(q *[]wq) *wq {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.w.done {
			return &x
		}
	}
	return nil
}

func hasq(q []wq) bool {
	for _, x := range q {
		if !x.w.done {
			return true
		}
	}
	return false
}

// trySend attempts a send without blocking.
func (m *M) trySend(ch *Chan, v Val) bool {
	if ch.closed {
		m.goPanicPlain("send on closed channel")
	}
	if r := popq(&ch.recvq); r != nil {
		r.w.done, r.w.idx, r.w.val, r.w.ok = true, r.idx, v, true
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return true
	}
	return false
}

func (m *M) tryRecv(ch *Chan) (Val, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Val(nil), ch.buf[1:]...)
		if s := popq(&ch.sendq); s != nil {
			ch.buf = append(ch.buf, s.val)
			s.w.done, s.w.idx = true, s.idx
		}
		return v, true, true
	}
	if s := popq(&ch.sendq); s != nil {
		s.w.done, s.w.idx = true, s.idx
		return s.val, true, true
	}
	if ch.closed {
		return Val{}, false, true
	}
	return Val{}, false, false
}

func (m *M) chanClose(ch *Chan) {
	m.raceShut()
	ch.closed = true
	for {
		r := popq(&ch.recvq)
		if r == nil {
			break
		}
		r.w.done, r.w.idx, r.w.ok = true, r.idx, false
		r.w.val = Val{R: closedMark{}}
	}
}

type closedMark struct{}

func (m *M) chanSend(fr *frame, ch *Chan, v Val) int {
	m.raceShut()
	if fr.wait != nil {
		fr.wait = nil
		return cNext
	}
	if ch == nil {
		return m.block(func() bool { return false })
	}
	if m.trySend(ch, v) {
		return cNext
	}
	w := &waiter{}
	ch.sendq = append(ch.sendq, wq{w, 0, v})
	fr.wait = w
	return m.block(func() bool { return w.done || ch.closed })
}

func (m *M) chanRecv(fr *frame, ch *Chan, et types.Type) (Val, bool, int) {
	m.raceShut()
	if fr.wait != nil {
		w := fr.wait
		fr.wait = nil
		if !w.ok {
			return zero(et), false, cNext
		}
		return w.val, true, cNext
	}
	if ch == nil {
		return Val{}, false, m.block(func() bool { return false })
	}
	v, ok, done := m.tryRecv(ch)
	if done {
		if !ok {
			v = zero(et)
		}
		return v, ok, cNext
	}
	w := &waiter{}
	ch.recvq = append(ch.recvq, wq{w, 0, Val{}})
	fr.wait = w
	return Val{}, false, m.block(func() bool { return w.done })
}

func (c *compiler) selectInstr(x *ssa.Select) inst {
	d := c.reg(x)
	type st struct {
		ch, val int
		send    bool
		et      types.Type
	}
	var sts []st
	nrecv := 0
	for _, s := range x.States {
		e := st{ch: c.opd(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if e.send {
			e.val = c.opd(s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, e)
	}
	result := func(fr *frame, idx int, v Val, ok bool) {
		t := make(Tuple, 2, 2+nrecv)
		t[0] = Val{K: uint64(int64(idx))}
		t[1] = Val{K: b2u(ok)}
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == idx && ok {
				t = append(t, v)
			} else {
				t = append(t, zero(s.et))
			}
		}
		fr.regs[d] = Val{R: t}
	}
	return func(m *M, fr *frame) int {
		if m.spec {
			panic(specAbort{})
		}
		if fr.wait != nil {
			w := fr.wait
			fr.wait = nil
			result(fr, w.idx, w.val, w.ok)
			return cNext
		}
		yielded := m.g.yielded
		m.g.yielded = false
		for i, s := range sts {
			ch, _ := fr.get(m, s.ch).R.(*Chan)
			if ch == nil {
				continue
			}
			if s.send {
				if m.trySend(ch, fr.get(m, s.val)) {
					result(fr, i, Val{}, false)
					return cNext
				}
			} else if v, ok, done := m.tryRecv(ch); done {
				result(fr, i, v, ok)
				return cNext
			}
		}
		if !x.Blocking {
			// polling: let the others run before giving up
			if !yielded {
				m.g.yielded = true
				return cBlock
			}
			result(fr, -1, Val{}, false)
			return cNext
		}
		w := &waiter{}
		for i, s := range sts {
			ch, _ := fr.get(m, s.ch).R.(*Chan)
			if ch == nil {
				continue
			}
			if s.send {
				ch.sendq = append(ch.sendq, wq{w, i, fr.get(m, s.val)})
			} else {
				ch.recvq = append(ch.recvq, wq{w, i, Val{}})
			}
		}
		fr.wait = w
		return m.block(func() bool { return w.done })
	}
}

var _ = math.Pi
var _ = strings.Contains
