package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Val is one interpreter value. Scalars live in K (concrete) or T (symbolic);
// everything else is in R.
type Val struct {
	K uint64
	T *Term
	R any
}

// Struct is a mutable struct cell; register copies are never mutated.
type Struct struct{ f []Val }

// VArr is a general array backing store.
type VArr struct{ e []Val }

// BArr is a byte array backing store: concrete bytes plus symbolic overrides.
type BArr struct {
	c []byte
	t map[int]*Term
}

// Slice is a slice header; arr is *VArr or *BArr.
type Slice struct {
	arr           any
	off, len, cap int
}

// BPtr is a pointer to one byte of a BArr.
type BPtr struct {
	a *BArr
	i int
}

// SStr is a string with symbolic bytes (concrete length).
type SStr struct {
	c []byte
	t []*Term
}

// Iface is a non-nil interface value.
type Iface struct {
	t types.Type
	v Val
}

// Closure is a function value.
type Closure struct {
	fn     *fnInfo
	free   []Val
	native func(m *M, args []Val) (Val, int)
	name   string
}

// Tuple is a multi-value result.
type Tuple []Val

// mapEnt is one map entry cell.
type mapEnt struct {
	k, v Val
	live bool
}

// Map is an insertion-ordered map.
type Map struct {
	idx  map[string]*mapEnt // concrete keys
	ents []*mapEnt
	n    int
	sym  bool // some key is symbolic
}

type globalRef int

func (b *BArr) get(i int) Val {
	if b.t != nil {
		if t, ok := b.t[i]; ok {
			return Val{T: t}
		}
	}
	return Val{K: uint64(b.c[i])}
}

func (b *BArr) set(i int, v Val) {
	if v.T == nil {
		b.c[i] = byte(v.K)
		if b.t != nil {
			delete(b.t, i)
		}
		return
	}
	if b.t == nil {
		b.t = map[int]*Term{}
	}
	b.t[i] = v.T
}

// copyBytes copies n bytes src[so:] to dst[do:], handling overlap.
func copyBytes(dst *BArr, do int, src *BArr, so int, n int) {
	if n == 0 {
		return
	}
	var tmp map[int]*Term
	if len(src.t) > 0 {
		tmp = map[int]*Term{}
		if len(src.t) < n {
			for i, t := range src.t {
				if i >= so && i < so+n {
					tmp[i-so] = t
				}
			}
		} else {
			for i := 0; i < n; i++ {
				if t, ok := src.t[so+i]; ok {
					tmp[i] = t
				}
			}
		}
	}
	copy(dst.c[do:do+n], src.c[so:so+n])
	if len(dst.t) > 0 {
		if len(dst.t) < n {
			for i := range dst.t {
				if i >= do && i < do+n {
					delete(dst.t, i)
				}
			}
		} else {
			for i := 0; i < n; i++ {
				delete(dst.t, do+i)
			}
		}
	}
	for i, t := range tmp {
		if dst.t == nil {
			dst.t = map[int]*Term{}
		}
		dst.t[do+i] = t
	}
}

func arrLen(a any) int {
	switch a := a.(type) {
	case *VArr:
		return len(a.e)
	case *BArr:
		return len(a.c)
	}
	panic(fmt.Sprintf("arrLen %T", a))
}

func arrGet(a any, i int) Val {
	switch a := a.(type) {
	case *VArr:
		return a.e[i]
	case *BArr:
		return a.get(i)
	}
	panic(fmt.Sprintf("arrGet %T", a))
}

// deep copy of aggregates (register values / memory cells).
func copyVal(v Val) Val {
	switch r := v.R.(type) {
	case nil:
		return v
	case *Struct:
		n := &Struct{f: make([]Val, len(r.f))}
		for i := range r.f {
			if r.f[i].R == nil {
				n.f[i] = r.f[i]
			} else {
				n.f[i] = copyVal(r.f[i])
			}
		}
		return Val{R: n}
	case *VArr:
		n := &VArr{e: make([]Val, len(r.e))}
		for i := range r.e {
			n.e[i] = copyVal(r.e[i])
		}
		return Val{R: n}
	case *BArr:
		n := &BArr{c: append([]byte(nil), r.c...)}
		for i, t := range r.t {
			if n.t == nil {
				n.t = map[int]*Term{}
			}
			n.t[i] = t
		}
		return Val{R: n}
	}
	return v
}

// storeInto writes v into the cell p keeping the identity of inner cells.
func storeInto(p *Val, v Val) {
	switch r := v.R.(type) {
	case *Struct:
		if d, ok := p.R.(*Struct); ok && len(d.f) == len(r.f) {
			if d == r {
				return
			}
			for i := range r.f {
				storeInto(&d.f[i], r.f[i])
			}
			return
		}
		*p = copyVal(v)
		return
	case *VArr:
		if d, ok := p.R.(*VArr); ok && len(d.e) == len(r.e) {
			if d == r {
				return
			}
			for i := range r.e {
				storeInto(&d.e[i], r.e[i])
			}
			return
		}
		*p = copyVal(v)
		return
	case *BArr:
		if d, ok := p.R.(*BArr); ok && len(d.c) == len(r.c) {
			if d != r {
				copyBytes(d, 0, r, 0, len(r.c))
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

// ---- types ----

var sizes = types.SizesFor("gc", "amd64")

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// bwidth returns (width, signed, isScalarInt); bool gives width 0.
func bwidth(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (bool, int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false, 0
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return true, 64
	case types.Float32:
		return true, 32
	}
	return false, 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &Struct{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = zero(u.Field(i).Type())
		}
		return Val{R: s}
	case *types.Array:
		if isByte(u.Elem()) {
			return Val{R: &BArr{c: make([]byte, u.Len())}}
		}
		a := &VArr{e: make([]Val, u.Len())}
		fillZero(a.e, u.Elem())
		return Val{R: a}
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = zero(u.At(i).Type())
		}
		return Val{R: tu}
	}
	return Val{}
}

func needsZero(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func fillZero(e []Val, t types.Type) {
	if needsZero(t) {
		for i := range e {
			e[i] = zero(t)
		}
	}
}

var (
	typeMu   sync.Mutex
	typeMap  typeutil.Map
	typeNext int
	typePtr  sync.Map // types.Type -> int
)

func typeID(t types.Type) int {
	if v, ok := typePtr.Load(t); ok {
		return v.(int)
	}
	typeMu.Lock()
	defer typeMu.Unlock()
	var id int
	if v := typeMap.At(t); v != nil {
		id = v.(int)
	} else {
		typeNext++
		id = typeNext
		typeMap.Set(t, id)
	}
	typePtr.Store(t, id)
	return id
}

// ---- strings ----

func strLen(v Val) int {
	switch s := v.R.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.c)
	}
	panic(fmt.Sprintf("strLen %T", v.R))
}

func strAt(v Val, i int) Val {
	switch s := v.R.(type) {
	case string:
		return Val{K: uint64(s[i])}
	case *SStr:
		if s.t[i] != nil {
			return Val{T: s.t[i]}
		}
		return Val{K: uint64(s.c[i])}
	}
	panic("strAt")
}

func mkStr(c []byte, t []*Term) Val {
	for _, x := range t {
		if x != nil {
			return Val{R: &SStr{c: c, t: t}}
		}
	}
	if len(c) == 0 {
		return Val{}
	}
	return Val{R: string(c)}
}

func strParts(v Val) ([]byte, []*Term) {
	switch s := v.R.(type) {
	case nil:
		return nil, nil
	case string:
		return []byte(s), make([]*Term, len(s))
	case *SStr:
		return s.c, s.t
	}
	panic(fmt.Sprintf("strParts %T", v.R))
}

func strSub(v Val, lo, hi int) Val {
	switch s := v.R.(type) {
	case nil:
		return v
	case string:
		if lo == hi {
			return Val{}
		}
		return Val{R: s[lo:hi]}
	case *SStr:
		return mkStr(s.c[lo:hi], s.t[lo:hi])
	}
	panic("strSub")
}

func strConcat(a, b Val) Val {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	if x, ok := a.R.(string); ok {
		if y, ok := b.R.(string); ok {
			return Val{R: x + y}
		}
	}
	ac, at := strParts(a)
	bc, bt := strParts(b)
	c := append(append([]byte(nil), ac...), bc...)
	t := append(append([]*Term(nil), at...), bt...)
	return mkStr(c, t)
}

func goString(v Val) string {
	switch s := v.R.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SStr:
		var sb strings.Builder
		for i := range s.c {
			if s.t[i] != nil {
				sb.WriteByte('?')
			} else {
				sb.WriteByte(s.c[i])
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("%T", v.R)
}

// bytes of a slice value
func sliceOf(v Val) Slice {
	if v.R == nil {
		return Slice{}
	}
	return v.R.(Slice)
}

func sliceParts(v Val) ([]byte, []*Term) {
	s := sliceOf(v)
	c := make([]byte, s.len)
	t := make([]*Term, s.len)
	if s.len == 0 {
		return c, t
	}
	b := s.arr.(*BArr)
	copy(c, b.c[s.off:s.off+s.len])
	if len(b.t) > 0 {
		for i := range t {
			t[i] = b.t[s.off+i]
		}
	}
	return c, t
}

func mkBytes(c []byte, t []*Term, capn int) Val {
	if capn < len(c) {
		capn = len(c)
	}
	b := &BArr{c: make([]byte, capn)}
	copy(b.c, c)
	for i, x := range t {
		if x != nil {
			if b.t == nil {
				b.t = map[int]*Term{}
			}
			b.t[i] = x
		}
	}
	return Val{R: Slice{arr: b, off: 0, len: len(c), cap: capn}}
}

func bytesVal(c []byte) Val { return mkBytes(c, nil, len(c)) }

// ---- maps ----

func newMap() *Map { return &Map{idx: map[string]*mapEnt{}} }

// keyStr gives a canonical encoding of a concrete map key, ok=false when symbolic.
func keyStr(v Val, t types.Type) (string, bool) {
	if v.T != nil {
		return "", false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if s, ok := v.R.(*SStr); ok {
				_ = s
				return "", false
			}
			if v.R == nil {
				return "s", true
			}
			return "s" + v.R.(string), true
		}
		return fmt.Sprintf("k%x", v.K), true
	case *types.Interface:
		if v.R == nil {
			return "nil", true
		}
		i := v.R.(*Iface)
		s, ok := keyStr(i.v, i.t)
		return fmt.Sprintf("i%d:%s", typeID(i.t), s), ok
	case *types.Struct:
		st := v.R.(*Struct)
		var sb strings.Builder
		for i := range st.f {
			s, ok := keyStr(st.f[i], u.Field(i).Type())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	case *types.Array:
		var sb strings.Builder
		for i := 0; i < int(u.Len()); i++ {
			s, ok := keyStr(arrGet(v.R, i), u.Elem())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	}
	if bp, ok := v.R.(BPtr); ok {
		return fmt.Sprintf("b%p.%d", bp.a, bp.i), true
	}
	return fmt.Sprintf("p%p", v.R), true
}

// mapFind locates a key, forking on equality with symbolic keys; nil when absent.
func (m *M) mapFind(mp *Map, k Val, t types.Type) *mapEnt {
	if mp == nil {
		return nil
	}
	ks, conc := keyStr(k, t)
	if conc {
		if e, ok := mp.idx[ks]; ok {
			return e
		}
		if !mp.sym {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.live && m.cond(m.eqVal(e.k, k, t)) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mp *Map, k, v Val, t types.Type) {
	if e := m.mapFind(mp, k, t); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k, v, true}
	if ks, conc := keyStr(k, t); conc {
		mp.idx[ks] = e
	} else {
		mp.sym = true
	}
	mp.ents = append(mp.ents, e)
	mp.n++
}

func (m *M) mapDel(mp *Map, k Val, t types.Type) {
	e := m.mapFind(mp, k, t)
	if e == nil {
		return
	}
	if ks, conc := keyStr(e.k, t); conc {
		delete(mp.idx, ks)
	}
	e.live = false
	mp.n--
	if len(mp.ents) > 32 && mp.n*2 < len(mp.ents) {
		var n []*mapEnt
		for _, x := range mp.ents {
			if x.live {
				n = append(n, x)
			}
		}
		mp.ents = n
	}
}
