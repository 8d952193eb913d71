package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *T, *Str, *Value (pointer), *SymElem, Slice, Struct, Array,
// Iface, *Closure, *ssa.Function, *ssa.Builtin, *MapV, *ChanV, Tuple, Cplx, *RangeIter, UPtr
type Value any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Cplx struct{ re, im *T }

type UPtr struct{ v Value } // unsafe.Pointer

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type SymElem struct {
	base []Value
	idx  *T // width 64
}

type Str struct {
	s string
	b []*T // non-nil: symbolic bytes (length len(b))
	// opaque decimal rendering of a signed bigW value (see mat)
	dec *T
}

type MapEntry struct {
	k Value
	v Value // slot
}

type MapV struct {
	ents []*MapEntry
	kt   types.Type
}

type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	// waiting senders: value handed over
	recvWaiting int
	sendq       []*sendReq
	id          int
}
type sendReq struct {
	v    Value
	done bool
}

type RangeIter struct {
	str  *Str
	pos  int
	keys []*MapEntry
	m    *MapV
}

func mkStr(s string) *Str { return &Str{s: s} }
func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}
func (s *Str) At(c *Ctx, i int) *T {
	if s.b != nil {
		return s.b[i]
	}
	return c.BV(8, uint64(s.s[i]))
}
func strFromTerms(b []*T) *Str {
	all := true
	for _, t := range b {
		if !t.isConst() {
			all = false
			break
		}
	}
	if all {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.v)
		}
		return &Str{s: string(bs)}
	}
	return &Str{b: b}
}
func (s *Str) Terms(c *Ctx) []*T {
	if s.b != nil {
		return s.b
	}
	r := make([]*T, len(s.s))
	for i := range r {
		r[i] = c.BV(8, uint64(s.s[i]))
	}
	return r
}
func (s *Str) Sub(i, j int) *Str {
	if s.b != nil {
		return strFromTerms(s.b[i:j])
	}
	return &Str{s: s.s[i:j]}
}
func (s *Str) Cat(c *Ctx, o *Str) *Str {
	if s.b == nil && o.b == nil {
		return &Str{s: s.s + o.s}
	}
	r := append(append([]*T{}, s.Terms(c)...), o.Terms(c)...)
	return strFromTerms(r)
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

var sizes64 = types.SizesFor("gc", "amd64")

// width and signedness of a basic integer type
func intInfo(b *types.Basic) (w Sort, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	if b, ok := under(t).(*types.Basic); ok {
		_, s := intInfo(b)
		return s
	}
	return false
}

func (m *Machine) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.c.fls
		case u.Info()&types.IsInteger != 0:
			w, _ := intInfo(u)
			return m.c.BV(w, 0)
		case u.Kind() == types.Float32:
			return m.c.F32(0)
		case u.Kind() == types.Float64, u.Kind() == types.UntypedFloat:
			return m.c.F64(0)
		case u.Kind() == types.Complex64:
			return Cplx{m.c.F32(0), m.c.F32(0)}
		case u.Kind() == types.Complex128:
			return Cplx{m.c.F64(0), m.c.F64(0)}
		case u.Info()&types.IsString != 0:
			return &Str{}
		case u.Kind() == types.UnsafePointer:
			return UPtr{(*Value)(nil)}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			e := under(u.Elem())
			switch e.(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = m.zero(u.Elem())
				}
			default:
				z := m.zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if u.Len() == 0 {
			return nil
		}
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of " + t.String()))
}

func isAggregate(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	}
	return v
}

// ---------- journal ----------
type jent struct {
	addr *Value
	old  Value
	undo func()
	obj  any // what undo restores a part of
}

func (m *Machine) set(addr *Value, v Value) {
	m.journal = append(m.journal, jent{addr: addr, old: *addr})
	*addr = v
}
func (m *Machine) undoable(obj any, f func()) {
	m.journal = append(m.journal, jent{undo: f, obj: obj})
}
func (m *Machine) rollback(mark int) {
	for i := len(m.journal) - 1; i >= mark; i-- {
		e := &m.journal[i]
		if e.undo != nil {
			e.undo()
		} else {
			*e.addr = e.old
		}
	}
	m.journal = m.journal[:mark]
}

func (m *Machine) storeAt(addr *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		l := (*addr).(Struct)
		for i := range x {
			m.storeAt(&l[i], x[i])
		}
	case Array:
		l := (*addr).(Array)
		for i := range x {
			m.storeAt(&l[i], x[i])
		}
	default:
		m.set(addr, v)
	}
}

func (m *Machine) load(p Value) Value {
	switch a := p.(type) {
	case *Value:
		if a == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*a)
	case *SymElem:
		return m.symLoad(a)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (m *Machine) store(p Value, v Value) {
	switch a := p.(type) {
	case *Value:
		if a == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.storeAt(a, v)
		return
	case *SymElem:
		nv, ok := v.(*T)
		if ok {
			for i := range a.base {
				old := a.base[i].(*T)
				m.set(&a.base[i], m.c.Ite(m.c.Eq(a.idx, m.c.BV(64, uint64(i))), nv, old))
			}
			return
		}
		i := m.concretize(a.idx)
		m.storeAt(&a.base[i], v)
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (m *Machine) symLoad(a *SymElem) Value {
	n := len(a.base)
	allT := true
	for _, e := range a.base {
		if _, ok := e.(*T); !ok {
			allT = false
			break
		}
	}
	if !allT {
		i := m.concretize(a.idx)
		return copyVal(a.base[i])
	}
	// run-compressed ite chain
	r := a.base[n-1].(*T)
	i := n - 1
	for i > 0 && a.base[i-1].(*T) == r {
		i--
	}
	for i > 0 {
		v := a.base[i-1].(*T)
		j := i - 1
		for j > 0 && a.base[j-1].(*T) == v {
			j--
		}
		var k *T
		if i-j == 1 && j > 0 {
			k = m.c.Eq(a.idx, m.c.BV(64, uint64(j)))
			// entries above i are handled by r already; exact match is enough
		} else {
			k = m.c.Ult(a.idx, m.c.BV(64, uint64(i)))
		}
		// chain must test larger prefixes first; build from the top down:
		r = m.c.Ite(k, v, r)
		i = j
	}
	return r
}

// ---------- equality ----------
func (m *Machine) eq(x, y Value) *T {
	switch a := x.(type) {
	case *T:
		b := y.(*T)
		if a.s.isFP() {
			return m.c.FCmp(OFEq, a, b)
		}
		return m.c.Eq(a, b)
	case *Str:
		return m.strEq(a, y.(*Str))
	case Cplx:
		b := y.(Cplx)
		return m.c.And(m.c.FCmp(OFEq, a.re, b.re), m.c.FCmp(OFEq, a.im, b.im))
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			panic(unsupported("pointer comparison with symbolic element address"))
		}
		return m.c.Bool(a == b)
	case *SymElem:
		if b, ok := y.(*Value); ok && b == nil {
			return m.c.fls
		}
		panic(unsupported("symbolic element address comparison"))
	case Struct:
		b := y.(Struct)
		r := m.c.tru
		for i := range a {
			r = m.c.And(r, m.eq(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := m.c.tru
		for i := range a {
			r = m.c.And(r, m.eq(a[i], b[i]))
		}
		return r
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return m.c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return m.c.fls
		}
		if !types.Comparable(a.t) {
			m.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return m.eq(a.v, b.v)
	case *ChanV:
		return m.c.Bool(a == y.(*ChanV))
	case *MapV:
		return m.c.Bool(a == y.(*MapV)) // only nil comparisons are legal
	case Slice:
		b := y.(Slice)
		return m.c.Bool(a == nil && b == nil)
	case *Closure:
		b, ok := y.(*Closure)
		return m.c.Bool(ok && a == nil && b == nil)
	case *ssa.Function, *ssa.Builtin:
		return m.c.fls
	case UPtr:
		return m.eq(a.v, y.(UPtr).v)
	}
	panic(unsupported(fmt.Sprintf("== on %T", x)))
}

func (m *Machine) strEq(a, b *Str) *T {
	if a.dec != nil && b.dec != nil {
		return m.c.Eq(a.dec, b.dec)
	}
	a, b = m.mat(a), m.mat(b)
	if a.Len() != b.Len() {
		return m.c.fls
	}
	if a.b == nil && b.b == nil {
		return m.c.Bool(a.s == b.s)
	}
	r := m.c.tru
	for i := a.Len() - 1; i >= 0; i-- {
		r = m.c.And(m.c.Eq(a.At(m.c, i), b.At(m.c, i)), r)
	}
	return r
}

func (m *Machine) strLess(a, b *Str) *T {
	a, b = m.mat(a), m.mat(b)
	if a.b == nil && b.b == nil {
		return m.c.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := m.c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.At(m.c, i), b.At(m.c, i)
		r = m.c.Or(m.c.Ult(x, y), m.c.And(m.c.Eq(x, y), r))
	}
	return r
}

// ---------- merging ----------
// merge returns ite(k, a, b) or ok=false.
func (m *Machine) merge(k *T, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		if !ok || x.s != y.s {
			return nil, false
		}
		return m.c.Ite(k, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if ok && x.dec != nil && y.dec != nil {
			return &Str{dec: m.c.Ite(k, x.dec, y.dec)}, true
		}
		if ok && (x.dec != nil || y.dec != nil) {
			return x, x == y
		}
		if !ok || x.Len() != y.Len() {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := make([]*T, x.Len())
		for i := range r {
			r[i] = m.c.Ite(k, x.At(m.c, i), y.At(m.c, i))
		}
		return strFromTerms(r), true
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Struct, len(x))
		for i := range x {
			v, ok := m.merge(k, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Array, len(x))
		for i := range x {
			v, ok := m.merge(k, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			v, ok := m.merge(k, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Cplx:
		y, ok := b.(Cplx)
		if !ok {
			return nil, false
		}
		return Cplx{m.c.Ite(k, x.re, y.re), m.c.Ite(k, x.im, y.im)}, true
	case *Value:
		y, ok := b.(*Value)
		return a, ok && x == y
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return nil, false
		}
		if cap(x) == 0 || &x[:1][0] == &y[:1][0] {
			return a, true
		}
		return nil, false
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return a, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.merge(k, x.v, y.v)
		return Iface{x.t, v}, ok
	case *Closure:
		y, ok := b.(*Closure)
		return a, ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return a, ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return a, ok && x == y
	case *ChanV:
		y, ok := b.(*ChanV)
		return a, ok && x == y
	case nil:
		return nil, b == nil
	case *RangeIter:
		y, ok := b.(*RangeIter)
		return a, ok && x == y
	}
	return nil, false
}

func (m *Machine) show(v Value) string {
	switch x := v.(type) {
	case *T:
		if x.isConst() {
			if x.s == SBool {
				return fmt.Sprint(x.v != 0)
			}
			if x.s.isFP() {
				return fmt.Sprint(x.f64())
			}
			return x.bigVal().String()
		}
		return "<sym>"
	case *Str:
		if x.dec != nil {
			return "<decimal>"
		}
		if x.b == nil {
			return x.s
		}
		return "<symstr>"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, m.show(e))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		return x.t.String() + "(" + m.show(x.v) + ")"
	case Slice:
		var p []string
		for _, e := range x {
			p = append(p, m.show(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("%T", v)
}
