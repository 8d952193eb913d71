package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool)

var (
	tString = types.Typ[types.String]
	tUint8  = types.Typ[types.Uint8]
)

func derefT(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

const gostPath = "github.com/myyrakle/gost"

// packages whose initialisers are executed (lazily) when a global is touched
func initAllowed(p string) bool {
	if strings.HasPrefix(p, gostPath) || strings.HasPrefix(p, "gostverif") {
		return true
	}
	switch p {
	case "errors", "io", "io/fs", "internal/oserror", "unicode", "unicode/utf8", "unicode/utf16", "strings", "strconv", "sort", "slices",
		"bytes", "math", "math/bits", "time", "encoding/binary", "path", "path/filepath", "internal/filepathlite", "container/list", "container/heap", "cmp", "maps",
		"internal/stringslite", "internal/bytealg", "internal/strconv", "bufio", "unique", "iter", "context", "sync", "math/rand", "hash/maphash", "os", "syscall":
		return true
	}
	return false
}

// run the initialiser of p outside the journal (its effects are permanent)
func (m *Machine) lazyInit(p *ssa.Package) {
	if m.initDone[p] {
		if why, bad := m.initFail[p]; bad {
			panic(unsupported(why))
		}
		return
	}
	m.initDone[p] = true
	path := p.Pkg.Path()
	if !initAllowed(path) {
		return
	}
	if path == "os" || path == "syscall" {
		return // zero values; specific variables are set below
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	p.Build()
	sj, sc, sd, ss, ssp, sst := m.journal, m.cur, m.depth, m.spec, m.specSteps, m.steps
	smod, sev, smax, sgs := m.model, m.ev, m.maxSteps, m.gs
	m.journal, m.cur, m.depth, m.spec = nil, nil, 0, 0
	m.gs = nil
	m.maxSteps = 1 << 40
	m.inInit++
	ok := false
	func() {
		defer func() {
			if !ok {
				if r := recover(); r != nil {
					if u, isU := r.(unsupported); isU {
						m.initFail[p] = "init of " + path + ": " + string(u)
						panic(unsupported(m.initFail[p]))
					}
					if tp, isT := r.(targetPanic); isT {
						m.initFail[p] = "init of " + path + " panics: " + m.show(tp.v)
						panic(unsupported(m.initFail[p]))
					}
					panic(r)
				}
			}
		}()
		m.callFn(nil, f, nil, nil)
		ok = true
	}()
	m.inInit--
	m.journal, m.cur, m.depth, m.spec, m.specSteps, m.steps = sj, sc, sd, ss, ssp, sst
	m.model, m.ev, m.maxSteps, m.gs = smod, sev, smax, sgs
}

func (m *Machine) runInit() {}

// ---------- dispatch ----------
var intrinTable = map[string]intrinsicFn{}

func (m *Machine) intrinsic(fn *ssa.Function) intrinsicFn {
	if h, ok := m.intrin[fn]; ok {
		return h
	}
	h := m.findIntrinsic(fn)
	m.intrin[fn] = h
	return h
}

func (m *Machine) findIntrinsic(fn *ssa.Function) intrinsicFn {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if mf, ok := m.e.models[name]; ok {
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			return m.callFn(caller, mf, args, nil), true
		}
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	}
	if pkg == m.e.nd || pkg == m.e.nd+"128" {
		base := fn.Name()
		if i := strings.IndexByte(base, '['); i >= 0 {
			base = base[:i]
		}
		if h := ndIntrinsic(base); h != nil {
			return h
		}
		return nil
	}
	if h, ok := intrinTable[name]; ok {
		return h
	}
	switch pkg {
	case "sync":
		return syncIntrinsic(name)
	case "sync/atomic", "internal/runtime/atomic":
		return atomicIntrinsic(name)
	case "math/big":
		if h := m.bigIntrinsic(name); h != nil {
			return h
		}
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			panic(unsupported("math/big operation " + fn.String()))
		}
	case "runtime", "internal/runtime/sys", "syscall", "os", "internal/poll", "reflect":
		if fn.Synthetic == "" && !cplxHelper[fn.Name()] && name != "(*os.PathError).Error" {
			return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
				if w := fn.Name(); w == "NewError" || strings.HasPrefix(w, "Is") && fn.Signature.Recv() == nil && pkgOf(fn) == "os" || w == "underlyingError" || w == "underlyingErrorIs" {
					return nil, false
				}
				panic(unsupported("runtime service " + fn.String()))
			}
		}
	}
	return nil
}

// the runtime's pure complex-division helpers
var cplxHelper = map[string]bool{"complex128div": true, "abs": true, "copysign": true, "inf2one": true, "isNaN": true, "isInf": true, "isFinite": true}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	return ""
}

func (m *Machine) str(v Value) *Str {
	s, ok := v.(*Str)
	if !ok {
		panic(unsupported(fmt.Sprintf("string expected, got %T", v)))
	}
	return m.mat(s)
}

func (m *Machine) concStr(v Value) string {
	s := m.str(v)
	if s.b != nil {
		panic(unsupported("symbolic string where a concrete one is needed"))
	}
	return s.s
}

func reg(names string, f intrinsicFn) {
	for _, n := range strings.Fields(names) {
		intrinTable[n] = f
	}
}

type RV struct { // reflect.Value model
	t types.Type
	v Value
}
type RT struct{ t types.Type } // *reflect.rtype model

var rtypePtr types.Type

func (m *Machine) rtypeIface(pkg string, t types.Type) Value {
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported(pkg + " not loaded"))
	}
	o := p.Pkg.Scope().Lookup("rtype")
	var rt types.Type
	if pkg == "reflect" {
		rt = types.NewPointer(o.Type())
	} else {
		rt = o.Type()
	}
	if v, ok := m.rtypes[pkg]; ok {
		rt = v
	} else {
		m.rtypes[pkg] = rt
	}
	return Iface{rt, RT{t}}
}

func fpUnary(f func(c *Ctx, x *T) *T) intrinsicFn {
	return func(m *Machine, caller *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return f(m.c, a[0].(*T)), true
	}
}

func uf1(name string, g func(float64) float64) {
	reg("math."+name, func(m *Machine, caller *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		x := a[0].(*T)
		if x.isConst() {
			return m.c.F64(g(x.f64())), true
		}
		return m.c.UF("math."+name, SF64, x), true
	})
}
func uf2(name string, g func(a, b float64) float64) {
	reg("math."+name, func(m *Machine, caller *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(*T), a[1].(*T)
		if x.isConst() && y.isConst() {
			return m.c.F64(g(x.f64(), y.f64())), true
		}
		return m.c.UF("math."+name, SF64, x, y), true
	})
}

func (m *Machine) fpBits(x *T) *T {
	w := Sort(64)
	if x.s == SF32 {
		w = 32
	}
	if x.isConst() {
		return m.c.BV(w, x.v)
	}
	if x.op == OFFromBits {
		return x.a[0]
	}
	m.noSpec("float bits")
	b := m.c.Var(m.freshName("fbits", int(x.id)), w)
	m.define(m.c.Eq(m.c.FFromBits(b), x))
	return b
}

// signbit: x's sign bit is set, read off the operations that keep or change it.
func (m *Machine) signbit(x *T) *T {
	c := m.c
	switch x.op {
	case OFToFP, OFRti:
		return m.signbit(x.a[0])
	case OFNeg:
		return c.Not(m.signbit(x.a[0]))
	case OFAbs:
		return c.fls
	case OIte:
		return c.Ite(x.a[0], m.signbit(x.a[1]), m.signbit(x.a[2]))
	}
	b := m.fpBits(x)
	return c.Eq(c.Extract(b, int(b.s)-1, int(b.s)-1), c.BV(1, 1))
}

func (m *Machine) freshName(base string, i int) string {
	return fmt.Sprintf("%s!%d.%d", base, m.freshN, i)
}

// decimal rendering of an integer term
func (m *Machine) itoa(x *T, signed bool) *Str {
	c := m.c
	if x.isConst() {
		if signed {
			return mkStr(strconv.FormatInt(x.sval(), 10))
		}
		return mkStr(strconv.FormatUint(x.v, 10))
	}
	if signed && topBits(x) == int(x.s) {
		if m.branch(c.Slt(x, c.BV(x.s, 0))) {
			// magnitude at the narrowest width that holds it
			if x.op == OSext {
				n := x.a[0]
				mag := c.Neg(c.Sext(n, n.s+1))
				return mkStr("-").Cat(c, m.udecimalCached(c.Zext(c.Extract(mag, int(n.s)-1, 0), 64)))
			}
			return mkStr("-").Cat(c, m.udecimalCached(c.Neg(x)))
		}
		if x.op == OSext {
			n := x.a[0]
			x = c.Zext(c.Extract(n, int(n.s)-2, 0), 64)
		} else {
			x = c.Zext(c.Extract(x, int(x.s)-2, 0), x.s)
		}
	}
	return m.udecimalCached(x)
}

// itoaLazy leaves the digits opaque until they are looked at.
func (m *Machine) itoaLazy(x *T, signed bool) *Str {
	if x.isConst() || topBits(x) <= 7 {
		return m.itoa(x, signed)
	}
	if signed {
		return m.decStr(m.c.Sext(x, bigW))
	}
	return m.decStr(m.c.Zext(x, bigW))
}

// the digits of one value are introduced once per path
func (m *Machine) udecimalCached(x *T) *Str {
	if r, ok := m.digs[x]; ok {
		return r
	}
	r := m.udecimal(x)
	if m.spec == 0 {
		m.digs[x] = r
	}
	return r
}

func basicKind(t types.Type) *types.Basic {
	b, _ := under(t).(*types.Basic)
	return b
}

func (m *Machine) callMethod(caller *Frame, i Iface, name string) (Value, bool) {
	ms := m.prog.MethodSets.MethodSet(i.t)
	for k := 0; k < ms.Len(); k++ {
		s := ms.At(k)
		if s.Obj().Name() == name {
			sig := s.Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && basicKind(sig.Results().At(0).Type()) == tString {
				f := m.prog.MethodValue(s)
				if f == nil {
					return nil, false
				}
				return m.callFn(caller, f, []Value{i.v}, nil), true
			}
		}
	}
	return nil, false
}

// %v / %s of one operand
func (m *Machine) fmtV(caller *Frame, v Value, verb byte) *Str {
	i, ok := v.(Iface)
	if !ok {
		panic(unsupported("fmt operand"))
	}
	if i.t == nil {
		if verb == 'v' {
			return mkStr("<nil>")
		}
		return mkStr("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'v' || verb == 's' {
		if r, ok := m.callMethod(caller, i, "Error"); ok {
			return m.str(r)
		}
		if r, ok := m.callMethod(caller, i, "String"); ok {
			return m.str(r)
		}
	}
	switch u := under(i.t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && (verb == 'v' || verb == 's'):
			return m.str(i.v)
		case u.Info()&types.IsString != 0 && verb == 'q':
			return mkStr(strconv.Quote(m.concStr(i.v)))
		case u.Info()&types.IsInteger != 0 && (verb == 'v' || verb == 'd'):
			_, sg := intInfo(u)
			return m.itoa(m.c.Resize(i.v.(*T), 64, sg), sg)
		case u.Info()&types.IsInteger != 0 && (verb == 'c'):
			_, sg := intInfo(u)
			return m.runeToStr(m.c.Resize(i.v.(*T), 64, sg))
		case u.Info()&types.IsInteger != 0 && (verb == 'x' || verb == 'X' || verb == 'b' || verb == 'o') && i.v.(*T).isConst():
			return mkStr(fmt.Sprintf("%"+string(verb), i.v.(*T).v))
		case u.Info()&types.IsBoolean != 0 && (verb == 'v' || verb == 't'):
			if m.branch(i.v.(*T)) {
				return mkStr("true")
			}
			return mkStr("false")
		case u.Info()&types.IsFloat != 0:
			x := i.v.(*T)
			if x.isConst() && (verb == 'v' || verb == 'f' || verb == 'g') {
				if x.s == SF32 {
					return mkStr(fmt.Sprintf("%"+string(verb), x.f32()))
				}
				return mkStr(fmt.Sprintf("%"+string(verb), x.f64()))
			}
		}
	case *types.Struct:
		if verb == 'v' {
			r := mkStr("{")
			s := i.v.(Struct)
			for k := range s {
				if k > 0 {
					r = r.Cat(m.c, mkStr(" "))
				}
				ft := u.Field(k).Type()
				if types.IsInterface(ft) {
					r = r.Cat(m.c, m.fmtV(caller, s[k], 'v'))
				} else {
					r = r.Cat(m.c, m.fmtV(caller, Iface{ft, s[k]}, 'v'))
				}
			}
			return r.Cat(m.c, mkStr("}"))
		}
	case *types.Slice:
		if verb == 'v' {
			r := mkStr("[")
			for k, e := range i.v.(Slice) {
				if k > 0 {
					r = r.Cat(m.c, mkStr(" "))
				}
				if types.IsInterface(u.Elem()) {
					r = r.Cat(m.c, m.fmtV(caller, e, 'v'))
				} else {
					r = r.Cat(m.c, m.fmtV(caller, Iface{u.Elem(), e}, 'v'))
				}
			}
			return r.Cat(m.c, mkStr("]"))
		}
	}
	panic(unsupported("fmt verb %" + string(verb) + " of " + i.t.String()))
}

// sprintfSym formats by a template with symbolic bytes, which are forked on
// being a percent sign and then the verb %.
func (m *Machine) sprintfSym(caller *Frame, f *Str, args Slice) *Str {
	c := m.c
	if f = m.mat(f); f.b == nil {
		return m.sprintf(caller, f.s, args)
	}
	out := mkStr("")
	k := 0
	puts := func(s string) { out = out.Cat(c, mkStr(s)) }
	put := func(x *T) { out = out.Cat(c, strFromTerms([]*T{x})) }
	in := func(x *T, lo, hi byte) *T { return c.And(c.Ule(c.BV(8, uint64(lo)), x), c.Ule(x, c.BV(8, uint64(hi)))) }
	for i := 0; i < f.Len(); i++ {
		ch := f.At(c, i)
		if !m.branch(c.Eq(ch, c.BV(8, '%'))) {
			put(ch)
			continue
		}
		i++
		if i == f.Len() {
			puts("%!(NOVERB)")
			break
		}
		vb := f.At(c, i)
		if m.branch(c.Eq(vb, c.BV(8, '%'))) {
			puts("%")
			continue
		}
		// flags, widths and characters of several bytes are left out
		if m.branch(c.Or(c.Or(in(vb, '0', '9'), in(vb, '*', '.')), c.Or(c.Eq(vb, c.BV(8, '#')), c.Or(c.Eq(vb, c.BV(8, ' ')), c.Or(c.Eq(vb, c.BV(8, '[')), in(vb, 0x80, 0xff)))))) {
			panic(unsupported("fmt: symbolic flags"))
		}
		if k < len(args) {
			known := false
			for _, v := range "svd" {
				if m.branch(c.Eq(vb, c.BV(8, uint64(v)))) {
					out = out.Cat(c, m.fmtV(caller, args[k], byte(v)))
					known = true
					break
				}
			}
			if !known {
				panic(unsupported("fmt: symbolic verb"))
			}
			k++
			continue
		}
		puts("%!")
		put(vb)
		puts("(MISSING)")
	}
	return m.fmtExtra(caller, out, args[k:])
}

func (m *Machine) sprintf(caller *Frame, format string, args Slice) *Str {
	out := mkStr("")
	k := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = out.Cat(m.c, mkStr(format[i:]))
			break
		}
		out = out.Cat(m.c, mkStr(format[i:i+j]))
		i += j + 1
		if i >= len(format) {
			return out.Cat(m.c, mkStr("%!(NOVERB)"))
		}
		vb := format[i]
		i++
		if vb == '%' {
			out = out.Cat(m.c, mkStr("%"))
			continue
		}
		if vb == '+' || vb == '#' {
			if i < len(format) && format[i] == 'v' {
				panic(unsupported("fmt %" + string(vb) + "v"))
			}
		}
		if vb == 'T' {
			if k < len(args) {
				it := args[k].(Iface)
				k++
				if it.t == nil {
					out = out.Cat(m.c, mkStr("<nil>"))
				} else {
					out = out.Cat(m.c, mkStr(types.TypeString(it.t, func(p *types.Package) string { return p.Name() })))
				}
				continue
			}
		}
		if k >= len(args) {
			out = out.Cat(m.c, mkStr("%!"+string(vb)+"(MISSING)"))
			continue
		}
		if vb == 'w' {
			vb = 'v'
		}
		out = out.Cat(m.c, m.fmtV(caller, args[k], vb))
		k++
	}
	return m.fmtExtra(caller, out, args[k:])
}

// fmtExtra adds what fmt says about operands without a verb.
func (m *Machine) fmtExtra(caller *Frame, out *Str, args Slice) *Str {
	if len(args) == 0 {
		return out
	}
	out = out.Cat(m.c, mkStr("%!(EXTRA "))
	for i, a := range args {
		if i > 0 {
			out = out.Cat(m.c, mkStr(", "))
		}
		it := a.(Iface)
		if it.t == nil {
			out = out.Cat(m.c, mkStr("<nil>"))
			continue
		}
		out = out.Cat(m.c, mkStr(types.TypeString(it.t, func(p *types.Package) string { return p.Name() })+"="))
		out = out.Cat(m.c, m.fmtV(caller, a, 'v'))
	}
	return out.Cat(m.c, mkStr(")"))
}

func (m *Machine) strIndexOf(a, b *Str, from int) int {
	for i := from; i+b.Len() <= a.Len(); i++ {
		q := m.c.tru
		for k := 0; k < b.Len(); k++ {
			q = m.c.And(q, m.c.Eq(a.At(m.c, i+k), b.At(m.c, k)))
		}
		if m.branch(q) {
			return i
		}
	}
	return -1
}

func sliceStr(s Slice) *Str {
	b := make([]*T, len(s))
	for i := range s {
		b[i] = s[i].(*T)
	}
	return strFromTerms(b)
}

func asStr(v Value) *Str {
	switch x := v.(type) {
	case *Str:
		return x
	case Slice:
		return sliceStr(x)
	}
	panic(unsupported("text operand"))
}

func (m *Machine) deepEq(t types.Type, a, b Value, depth int) *T {
	c := m.c
	if depth > 200 {
		panic(unsupported("DeepEqual depth"))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return m.eq(a, b)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		r := c.tru
		for i := range x {
			r = c.And(r, m.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		r := c.tru
		for i := range x {
			r = c.And(r, m.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return c.fls
		}
		r := c.tru
		for i := range x {
			r = c.And(r, m.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Pointer:
		x, ok1 := a.(*Value)
		y, ok2 := b.(*Value)
		if !ok1 || !ok2 {
			panic(unsupported("DeepEqual pointer"))
		}
		if x == y {
			return c.tru
		}
		if x == nil || y == nil {
			return c.fls
		}
		return m.deepEq(u.Elem(), *x, *y, depth+1)
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.fls
		}
		return m.deepEq(x.t, x.v, y.v, depth+1)
	case *types.Signature:
		x, ok := a.(*Closure)
		y, ok2 := b.(*Closure)
		return c.Bool(ok && ok2 && x == nil && y == nil)
	case *types.Chan:
		return c.Bool(a.(*ChanV) == b.(*ChanV))
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if x == y {
			return c.tru
		}
		if x == nil || y == nil || len(x.ents) != len(y.ents) {
			return c.fls
		}
		r := c.tru
		for _, e := range x.ents {
			f := m.mapFind(y, e.k)
			if f == nil {
				return c.fls
			}
			r = c.And(r, m.deepEq(u.Elem(), e.v, f.v, depth+1))
		}
		return r
	}
	panic(unsupported("DeepEqual of " + t.String()))
}

func (m *Machine) reflectKind(t types.Type) uint64 {
	if t == nil {
		return 0
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func typeName(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		n := x.Obj().Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			var p []string
			for i := 0; i < ta.Len(); i++ {
				p = append(p, types.TypeString(ta.At(i), nil))
			}
			n += "[" + strings.Join(p, ",") + "]"
		}
		return n
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func (m *Machine) libPanic(msg string) {
	panic(targetPanic{v: Iface{tString, mkStr(msg)}, rt: msg, at: m.where()})
}

func init() {
	type A = []Value
	nop := func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		if fn.Signature.Results().Len() == 0 {
			return nil, true
		}
		return m.zeroResult(fn), true
	}
	reg("runtime.KeepAlive runtime.GC runtime.SetFinalizer (*strings.Builder).copyCheck internal/race.Acquire internal/race.Release", nop)
	reg("runtime.Gosched", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		m.hadSched = true
		m.yieldG()
		return nil, true
	})
	reg("time.runtimeNano time.runtimeNow", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		if fn.Name() != "runtimeNano" {
			panic(unsupported("the system clock"))
		}
		if m.inInit == 0 {
			panic(unsupported("the system clock"))
		}
		return m.c.BV(64, 1), true
	})
	reg("time.Sleep", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		m.hadSched = true
		if m.sleepObs != nil {
			m.noSpec("sleep")
			*m.sleepObs = append(*m.sleepObs, a[0].(*T))
		}
		m.yieldG()
		return nil, true
	})
	reg("runtime.NumGoroutine runtime.GOMAXPROCS runtime.NumCPU", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.c.BV(64, 4), true
	})
	reg("math.runtime_rand internal/rand.runtime_rand math/rand.runtime_rand runtime.rand", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		m.freshN++
		return m.c.Var(m.freshName("rand", 0), 64), true
	})

	// floats
	rti := func(mode uint64) intrinsicFn { return fpUnary(func(c *Ctx, x *T) *T { return c.FRti(mode, x) }) }
	reg("math.Floor math.floor", rti(3))
	reg("math.Ceil math.ceil", rti(2))
	reg("math.Trunc math.trunc", rti(4))
	reg("math.Round", rti(1))
	reg("math.RoundToEven", rti(0))
	reg("math.Sqrt math.sqrt", fpUnary(func(c *Ctx, x *T) *T { return c.FSqrt(x) }))
	reg("math.Abs", fpUnary(func(c *Ctx, x *T) *T { return c.FAbs(x) }))
	reg("math.IsNaN", fpUnary(func(c *Ctx, x *T) *T { return c.FIsNaN(x) }))
	reg("math.IsInf", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		c := m.c
		x := a[0].(*T)
		sg := a[1].(*T)
		if !sg.isConst() {
			return nil, false
		}
		p := c.FCmp(OFEq, x, c.F64(math.Inf(1)))
		n := c.FCmp(OFEq, x, c.F64(math.Inf(-1)))
		switch s := int64(sg.v); {
		case s > 0:
			return p, true
		case s < 0:
			return n, true
		}
		return c.Or(p, n), true
	})
	reg("math.Float64bits math.Float32bits runtime.float64bits", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.fpBits(a[0].(*T)), true
	})
	reg("math.Float64frombits math.Float32frombits runtime.float64frombits", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.c.FFromBits(a[0].(*T)), true
	})
	reg("math.Signbit", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.signbit(a[0].(*T)), true
	})
	reg("math.Copysign", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		x := m.c.FAbs(a[0].(*T))
		return m.c.Ite(m.signbit(a[1].(*T)), m.c.FNeg(x), x), true
	})
	reg("math.Modf", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		x := a[0].(*T)
		if x.isConst() {
			i, f := math.Modf(x.f64())
			return Tuple{m.c.F64(i), m.c.F64(f)}, true
		}
		// as documented: the parts sum to x and both have its sign
		c := m.c
		i := c.FRti(4, x)
		f := c.FBin(OFSub, x, i)
		zero := c.Ite(m.signbit(x), c.F64(math.Copysign(0, -1)), c.F64(0))
		return Tuple{i, c.Ite(c.FCmp(OFEq, f, c.F64(0)), zero, f)}, true
	})
	for n, g := range map[string]func(float64) float64{"Exp": math.Exp, "Exp2": math.Exp2, "Expm1": math.Expm1, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p,
		"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh,
		"Asinh": math.Asinh, "Acosh": math.Acosh, "Atanh": math.Atanh, "Cbrt": math.Cbrt, "Gamma": math.Gamma} {
		uf1(n, g)
	}
	for n, g := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Atan2": math.Atan2, "Hypot": math.Hypot, "Mod": math.Mod, "Remainder": math.Remainder} {
		uf2(n, g)
	}

	// strconv
	reg("strconv.Itoa", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.itoaLazy(a[0].(*T), true), true
	})
	// parsing the text of a value of fitting width gives the value
	parseDec := func(sg bool) intrinsicFn {
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			s, ok := a[0].(*Str)
			if !ok || s.dec == nil || isFloatText(s.dec) {
				return nil, false
			}
			if len(a) == 3 {
				if b, n := a[1].(*T), a[2].(*T); !b.isConst() || b.v != 10 || !n.isConst() || n.v != 64 {
					return nil, false
				}
			}
			d, c := s.dec, m.c
			v := c.Extract(d, 63, 0)
			fits := c.Eq(c.Zext(v, bigW), d)
			if sg {
				fits = c.Eq(c.Sext(v, bigW), d)
			}
			if !m.branch(fits) {
				return nil, false
			}
			return Tuple{v, Iface{}}, true
		}
	}
	reg("strconv.Atoi strconv.ParseInt", parseDec(true))
	reg("strconv.ParseUint", parseDec(false))
	prefix := func(trim bool) intrinsicFn {
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			s, ok := a[0].(*Str)
			p, ok2 := a[1].(*Str)
			if !ok || !ok2 || s.dec == nil || isFloatText(s.dec) || p.dec != nil || p.b != nil || p.s == "" || p.s[0] == '-' || p.s[0] >= '0' && p.s[0] <= '9' {
				return nil, false
			}
			if trim {
				return s, true
			}
			return m.c.fls, true
		}
	}
	reg("strings.HasPrefix", prefix(false))
	reg("strings.TrimPrefix", prefix(true))
	fint := func(sg bool) intrinsicFn {
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			b := a[1].(*T)
			if !b.isConst() {
				return nil, false
			}
			if b.v == 10 {
				return m.itoaLazy(a[0].(*T), sg), true
			}
			if x := a[0].(*T); x.isConst() {
				if sg {
					return mkStr(strconv.FormatInt(int64(x.v), int(b.v))), true
				}
				return mkStr(strconv.FormatUint(x.v, int(b.v))), true
			}
			return nil, false
		}
	}
	reg("strconv.FormatInt", fint(true))
	reg("strconv.FormatUint", fint(false))
	reg("strconv.FormatBool", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		if m.branch(a[0].(*T)) {
			return mkStr("true"), true
		}
		return mkStr("false"), true
	})
	reg("strconv.FormatFloat", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		x := a[0].(*T)
		if !a[1].(*T).isConst() || !a[2].(*T).isConst() || !a[3].(*T).isConst() {
			panic(unsupported("FormatFloat with a symbolic format"))
		}
		f, p, b := byte(a[1].(*T).v), int(int64(a[2].(*T).v)), int(a[3].(*T).v)
		if x.isConst() {
			return mkStr(strconv.FormatFloat(x.f64(), f, p, b)), true
		}
		return &Str{dec: m.c.UF(fmt.Sprintf("text.%c.%d.%d", f, p, b), bigW, x)}, true
	})
	reg("strconv.FormatComplex", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		x := a[0].(Cplx)
		if !a[1].(*T).isConst() || !a[2].(*T).isConst() || !a[3].(*T).isConst() {
			panic(unsupported("FormatComplex with a symbolic format"))
		}
		f, p, b := byte(a[1].(*T).v), int(int64(a[2].(*T).v)), int(a[3].(*T).v)
		if x.re.isConst() && x.im.isConst() {
			return mkStr(strconv.FormatComplex(complex(x.re.f64(), x.im.f64()), f, p, b)), true
		}
		return &Str{dec: m.c.UF(fmt.Sprintf("text.complex.%c.%d.%d", f, p, b), bigW, x.re, x.im)}, true
	})
	reg("strconv.ParseFloat", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := a[0].(*Str)
		c := m.c
		if !a[1].(*T).isConst() {
			panic(unsupported("ParseFloat with a symbolic size"))
		}
		size := int(a[1].(*T).v)
		// the shortest decimal of a float reads back as the float
		if s.dec != nil && s.dec.op == OUF && s.dec.name == fmt.Sprintf("text.f.-1.%d", size) && size == 64 {
			return Tuple{s.dec.a[0], Iface{}}, true
		}
		s = m.str(s)
		if s.b != nil {
			return m.parseFloat(caller, s, size), true
		}
		f, err := strconv.ParseFloat(s.s, size)
		ev := Value(Iface{})
		if err != nil {
			ev = m.mkError(caller, err.Error())
		}
		return Tuple{c.F64(f), ev}, true
	})

	// fmt
	reg("fmt.Sprintf", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.sprintfSym(caller, m.str(a[0]), a[1].(Slice)), true
	})
	reg("fmt.Errorf", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := m.sprintfSym(caller, m.str(a[0]), a[1].(Slice))
		return m.mkErrorStr(caller, s), true
	})
	sprint := func(ln bool) intrinsicFn {
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			r := mkStr("")
			var prevStr bool
			for i, v := range a[0].(Slice) {
				iv := v.(Iface)
				isS := iv.t != nil && basicKind(iv.t) != nil && basicKind(iv.t).Info()&types.IsString != 0
				if i > 0 && (ln || (!isS && !prevStr)) {
					r = r.Cat(m.c, mkStr(" "))
				}
				r = r.Cat(m.c, m.fmtV(caller, v, 'v'))
				prevStr = isS
			}
			if ln {
				r = r.Cat(m.c, mkStr("\n"))
			}
			return r, true
		}
	}
	reg("fmt.Sprint", sprint(false))
	reg("fmt.Sprintln", sprint(true))
	outp := func(ln bool) intrinsicFn {
		f := sprint(ln)
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			v, _ := f(m, caller, fn, a)
			s := v.(*Str)
			m.noSpec("output")
			m.stdout = append(m.stdout, s.Terms(m.c)...)
			return Tuple{m.c.BV(64, uint64(s.Len())), Iface{}}, true
		}
	}
	reg("fmt.Print", outp(false))
	reg("fmt.Println", outp(true))
	reg("fmt.Printf", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := m.sprintfSym(caller, m.str(a[0]), a[1].(Slice))
		m.noSpec("output")
		m.stdout = append(m.stdout, s.Terms(m.c)...)
		return Tuple{m.c.BV(64, uint64(s.Len())), Iface{}}, true
	})

	// bytealg & strings kernels
	idxByte := func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := m.matText(a[0])
		ch := a[1].(*T)
		for i := 0; i < s.Len(); i++ {
			if m.branch(m.c.Eq(s.At(m.c, i), ch)) {
				return m.c.BV(64, uint64(i)), true
			}
		}
		return m.c.BV(64, ^uint64(0)), true
	}
	reg("internal/bytealg.IndexByte internal/bytealg.IndexByteString strings.IndexByte bytes.IndexByte internal/stringslite.IndexByte", idxByte)
	lastByte := func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := m.matText(a[0])
		ch := a[1].(*T)
		for i := s.Len() - 1; i >= 0; i-- {
			if m.branch(m.c.Eq(s.At(m.c, i), ch)) {
				return m.c.BV(64, uint64(i)), true
			}
		}
		return m.c.BV(64, ^uint64(0)), true
	}
	reg("internal/bytealg.LastIndexByte internal/bytealg.LastIndexByteString strings.LastIndexByte bytes.LastIndexByte", lastByte)
	reg("internal/bytealg.Count internal/bytealg.CountString", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := m.matText(a[0])
		ch := a[1].(*T)
		r := m.c.BV(64, 0)
		for i := 0; i < s.Len(); i++ {
			r = m.c.Add(r, m.c.Ite(m.c.Eq(s.At(m.c, i), ch), m.c.BV(64, 1), m.c.BV(64, 0)))
		}
		return r, true
	})
	index := func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.c.BV(64, uint64(int64(m.strIndexOf(m.matText(a[0]), m.matText(a[1]), 0)))), true
	}
	reg("strings.Index bytes.Index internal/stringslite.Index internal/bytealg.Index internal/bytealg.IndexString", index)
	reg("bytes.Equal internal/bytealg.Equal", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.strEq(m.matText(a[0]), m.matText(a[1])), true
	})
	reg("internal/bytealg.Compare bytes.Compare internal/bytealg.CompareString strings.Compare", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		c := m.c
		x, y := m.matText(a[0]), m.matText(a[1])
		return c.Ite(m.strEq(x, y), c.BV(64, 0), c.Ite(m.strLess(x, y), c.BV(64, ^uint64(0)), c.BV(64, 1))), true
	})
	reg("internal/bytealg.MakeNoZero", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		n := m.concInt(a[0], types.Typ[types.Int])
		return m.makeSlice(tUint8, n, growCap(0, 0, n, 1)), true
	})
	reg("(*strings.Builder).String", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		st := (*(a[0].(*Value))).(Struct)
		for _, f := range st {
			if s, ok := f.(Slice); ok {
				return sliceStr(s), true
			}
		}
		return nil, false
	})
	reg("strings.Clone internal/stringslite.Clone", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return a[0], true
	})
	dec := func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := m.matText(a[0])
		if s.Len() == 0 {
			return Tuple{m.c.BV(32, 0xFFFD), m.c.BV(64, 0)}, true
		}
		r, n := m.decodeRune(s, 0)
		return Tuple{r, m.c.BV(64, uint64(n))}, true
	}
	reg("unicode/utf8.DecodeRuneInString unicode/utf8.DecodeRune", dec)
	reg("unicode/utf8.RuneCountInString unicode/utf8.RuneCount", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := m.matText(a[0])
		n := 0
		for p := 0; p < s.Len(); n++ {
			_, k := m.decodeRune(s, p)
			p += k
		}
		return m.c.BV(64, uint64(n)), true
	})
	reg("unicode/utf8.ValidString unicode/utf8.Valid", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := m.matText(a[0])
		for p := 0; p < s.Len(); {
			r, k := m.decodeRune(s, p)
			if k == 1 && m.branch(m.c.Eq(r, m.c.BV(32, 0xFFFD))) {
				return m.c.fls, true
			}
			p += k
		}
		return m.c.tru, true
	})
	reg("unicode/utf8.AppendRune", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s := m.runeToStr(m.c.Sext(a[1].(*T), 64))
		ex := make([]Value, s.Len())
		for i := range ex {
			ex[i] = s.At(m.c, i)
		}
		return m.doAppend(tUint8, a[0].(Slice), ex), true
	})

	// reflection
	valueOf := func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		i := a[0].(Iface)
		return RV{i.t, i.v}, true
	}
	reg("reflect.ValueOf internal/reflectlite.ValueOf", valueOf)
	reg("reflect.TypeOf", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}, true
		}
		return m.rtypeIface("reflect", i.t), true
	})
	reg("internal/reflectlite.TypeOf", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}, true
		}
		return m.rtypeIface("internal/reflectlite", i.t), true
	})
	reg("(internal/reflectlite.rtype).Comparable (*reflect.rtype).Comparable", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.c.Bool(types.Comparable(a[0].(RT).t)), true
	})
	reg("(*reflect.rtype).Elem", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		switch u := under(a[0].(RT).t).(type) {
		case *types.Pointer:
			return m.rtypeIface("reflect", u.Elem()), true
		case *types.Slice:
			return m.rtypeIface("reflect", u.Elem()), true
		case *types.Array:
			return m.rtypeIface("reflect", u.Elem()), true
		case *types.Map:
			return m.rtypeIface("reflect", u.Elem()), true
		case *types.Chan:
			return m.rtypeIface("reflect", u.Elem()), true
		}
		m.libPanic("reflect: Elem of invalid type " + a[0].(RT).t.String())
		return nil, true
	})
	reg("(*reflect.rtype).Name", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return mkStr(typeName(a[0].(RT).t)), true
	})
	reg("(*reflect.rtype).String", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return mkStr(types.TypeString(a[0].(RT).t, func(p *types.Package) string { return p.Name() })), true
	})
	reg("(*reflect.rtype).Kind", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.c.BV(64, m.reflectKind(a[0].(RT).t)), true
	})
	reg("(reflect.Value).Interface (reflect.Value).Elem", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		v := a[0].(RV)
		if fn.Name() == "Elem" {
			switch u := under(v.t).(type) {
			case *types.Pointer:
				p := v.v.(*Value)
				if p == nil {
					return RV{}, true
				}
				return RV{u.Elem(), copyVal(*p)}, true
			case *types.Interface:
				i := v.v.(Iface)
				return RV{i.t, i.v}, true
			}
			m.libPanic("reflect: call of reflect.Value.Elem on non-pointer")
		}
		if v.t == nil {
			m.libPanic("reflect: call of reflect.Value.Interface on zero Value")
		}
		if i, ok := v.v.(Iface); ok && types.IsInterface(v.t) {
			return i, true
		}
		return Iface{v.t, v.v}, true
	})
	reg("(reflect.Value).Kind", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.c.BV(64, m.reflectKind(a[0].(RV).t)), true
	})
	reg("(reflect.Value).Int (reflect.Value).Uint (reflect.Value).Float (reflect.Value).Bool (reflect.Value).String", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		v := a[0].(RV)
		var b *types.Basic
		if v.t != nil {
			b, _ = under(v.t).(*types.Basic)
		}
		want := map[string]types.BasicInfo{"Int": types.IsInteger, "Uint": types.IsUnsigned, "Float": types.IsFloat, "Bool": types.IsBoolean, "String": types.IsString}[fn.Name()]
		if b == nil || b.Info()&want == 0 || fn.Name() == "Int" && b.Info()&types.IsUnsigned != 0 {
			if fn.Name() == "String" {
				panic(unsupported("reflect String of another kind"))
			}
			m.libPanic("reflect: call of reflect.Value." + fn.Name() + " on another kind of value")
		}
		return m.convert(caller, v.t, fn.Signature.Results().At(0).Type(), v.v), true
	})
	reg("(reflect.Value).CanInterface", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		if a[0].(RV).t == nil {
			m.libPanic("reflect: call of reflect.Value.CanInterface on zero Value")
		}
		return m.c.Bool(true), true
	})
	reg("(reflect.Value).IsValid", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		return m.c.Bool(a[0].(RV).t != nil), true
	})
	reg("(reflect.Value).Type", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		v := a[0].(RV)
		if v.t == nil {
			m.libPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return m.rtypeIface("reflect", v.t), true
	})
	reg("(reflect.Value).IsNil", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		switch x := a[0].(RV).v.(type) {
		case *Value:
			return m.c.Bool(x == nil), true
		case Slice:
			return m.c.Bool(x == nil), true
		case *MapV:
			return m.c.Bool(x == nil), true
		case *ChanV:
			return m.c.Bool(x == nil), true
		case *Closure:
			return m.c.Bool(x == nil), true
		case *ssa.Function:
			return m.c.fls, true
		case Iface:
			return m.c.Bool(x.t == nil), true
		}
		m.libPanic("reflect: call of reflect.Value.IsNil on non-nillable Value")
		return nil, true
	})
	reg("(internal/reflectlite.Value).Len (reflect.Value).Len", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		switch x := a[0].(RV).v.(type) {
		case Slice:
			return m.c.BV(64, uint64(len(x))), true
		case *Str:
			return m.c.BV(64, uint64(m.mat(x).Len())), true
		}
		panic(unsupported("reflect Len"))
	})
	swapper := func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			m.libPanic("reflect: Swapper of non-slice")
		}
		return &nativeFn{func(x []Value) Value {
			m.boundsCheck(x[0].(*T), len(s))
			m.boundsCheck(x[1].(*T), len(s))
			i, j := m.concInt(x[0], types.Typ[types.Int]), m.concInt(x[1], types.Typ[types.Int])
			p, q := copyVal(s[i]), copyVal(s[j])
			m.setElem(&s[i], q)
			m.setElem(&s[j], p)
			return nil
		}}, true
	}
	reg("internal/reflectlite.Swapper reflect.Swapper", swapper)
	reg("reflect.DeepEqual", func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return m.c.Bool(x.t == nil && y.t == nil), true
		}
		if !types.Identical(x.t, y.t) {
			return m.c.fls, true
		}
		return m.deepEq(x.t, x.v, y.v, 0), true
	})
}

func (m *Machine) matText(v Value) *Str {
	if s, ok := v.(*Str); ok {
		return m.mat(s)
	}
	return asStr(v)
}

// isFloatText: the opaque text is that of a float, not of an integer.
func isFloatText(t *T) bool {
	return t.op == OUF || t.op == OIte && (isFloatText(t.a[1]) || isFloatText(t.a[2]))
}

// parseFloat reads a short text of symbolic bytes: an optional sign, digits
// and at most one point. The value of a mantissa below 2^53 over a power of ten
// up to 10^22 is their correctly rounded quotient.
func (m *Machine) parseFloat(caller *Frame, s *Str, size int) Value {
	c := m.c
	if size != 64 || s.Len() > 12 {
		panic(unsupported("ParseFloat of symbolic text"))
	}
	fail := func() Value {
		return Tuple{c.F64(0), m.mkError(caller, "strconv.ParseFloat: invalid syntax")}
	}
	is := func(i int, b byte) bool { return m.branch(c.Eq(s.At(c, i), c.BV(8, uint64(b)))) }
	for i := 0; i < s.Len(); i++ {
		l := c.BOr(s.At(c, i), c.BV(8, 0x20))
		if m.branch(c.Or(c.And(c.Ule(c.BV(8, 'a'), l), c.Ule(l, c.BV(8, 'z'))), c.Eq(s.At(c, i), c.BV(8, '_')))) {
			panic(unsupported("ParseFloat of symbolic text with letters"))
		}
	}
	i, neg := 0, false
	if s.Len() > 0 {
		if is(0, '-') {
			i, neg = 1, true
		} else if is(0, '+') {
			i = 1
		}
	}
	mant, digits, div, dot := c.BV(64, 0), 0, 1.0, false
	for ; i < s.Len(); i++ {
		ch := s.At(c, i)
		switch {
		case m.branch(c.And(c.Ule(c.BV(8, '0'), ch), c.Ule(ch, c.BV(8, '9')))):
			mant = c.Add(c.Mul(mant, c.BV(64, 10)), c.Zext(c.Sub(ch, c.BV(8, '0')), 64))
			digits++
			if dot {
				div *= 10
			}
		case !dot && is(i, '.'):
			dot = true
		default:
			return fail()
		}
	}
	if digits == 0 {
		return fail()
	}
	v := c.FFromInt(mant, SF64, true)
	if div != 1 {
		v = c.FBin(OFDiv, v, c.F64(div))
	}
	if neg {
		v = c.FNeg(v)
	}
	return Tuple{v, Iface{}}
}

func (m *Machine) mkErrorStr(caller *Frame, s *Str) Value {
	p := m.prog.ImportedPackage("errors")
	p.Build()
	return m.callFn(caller, p.Func("New"), []Value{s}, nil)
}
func (m *Machine) mkError(caller *Frame, s string) Value { return m.mkErrorStr(caller, mkStr(s)) }

// ---------- nd ----------
func ndIntrinsic(name string) intrinsicFn {
	type A = []Value
	in := func(w Sort, kind string) intrinsicFn {
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("input")
			return m.newInput(m.concStr(a[0]), w, kind), true
		}
	}
	switch name {
	case "U8":
		return in(8, "u8")
	case "U16":
		return in(16, "u16")
	case "U32":
		return in(32, "u32")
	case "U64":
		return in(64, "u64")
	case "I8":
		return in(8, "i8")
	case "I16":
		return in(16, "i16")
	case "I32":
		return in(32, "i32")
	case "I64", "Int":
		return in(64, "i64")
	case "Bool":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("input")
			b := m.newInput(m.concStr(a[0]), 1, "bool")
			return m.c.Eq(b, m.c.BV(1, 1)), true
		}
	case "SameF64", "SameF32":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			x, y := a[0].(*T), a[1].(*T)
			if x.isConst() && y.isConst() && x.f64() != x.f64() && y.f64() != y.f64() {
				return m.c.tru, true // NaNs of any payload
			}
			return m.c.Eq(x, y), true
		}
	case "F64", "F32":
		w := Sort(64)
		if name == "F32" {
			w = 32
		}
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("input")
			return m.c.FFromBits(m.newInput(m.concStr(a[0]), w, strings.ToLower(name))), true
		}
	case "Choice":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("choice")
			nm := m.inputName(m.concStr(a[0]))
			n := m.concInt(a[1], types.Typ[types.Int])
			k := m.choose(n, "")
			m.recordInput(nm, strconv.Itoa(k))
			return m.c.BV(64, uint64(k)), true
		}
	case "Writes": // does the call write memory that exists before it?
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("choice")
			w := m.writes(caller, a[1])
			k := "0"
			if w {
				k = "1"
			}
			m.recordInput(m.inputName(m.concStr(a[0])), k)
			return m.c.Bool(w), true
		}
	case "Str", "Bytes":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("input")
			n := m.concInt(a[1], types.Typ[types.Int])
			base := m.concStr(a[0])
			b := make([]*T, n)
			for i := range b {
				b[i] = m.newInput(base, 8, "u8")
			}
			if name == "Bytes" {
				s := m.makeSlice(tUint8, n, n)
				for i := range b {
					s[i] = b[i]
				}
				return s, true
			}
			return strFromTerms(b), true
		}
	case "Assume":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.assume(a[0].(*T))
			return nil, true
		}
	case "Lemma":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("lemma")
			c := a[0].(*T)
			if m.model != nil && m.evalBool(c) == 0 {
				panic(unsupported("harness lemma is false"))
			}
			if !c.isConst() {
				m.addPC(c)
			}
			return nil, true
		}
	case "Assert":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.assertTerm(a[0].(*T), m.concStr(a[1]), caller)
			return nil, true
		}
	case "Observe":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("observe")
			v := a[1].(Iface)
			val := v.v
			if s, ok := val.(*Str); ok {
				val = m.mat(s)
			}
			switch val.(type) {
			case *T, *Str:
				m.obs = append(m.obs, obsRec{m.concStr(a[0]), val, v.t})
			default:
				panic(unsupported("Observe of this type"))
			}
			return nil, true
		}
	case "Cover":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("cover")
			l := m.concStr(a[0])
			m.h.mu.Lock()
			if m.h.Reached == nil {
				m.h.Reached = map[string]bool{}
			}
			m.h.Reached[l] = true
			m.h.mu.Unlock()
			return nil, true
		}
	case "Bound":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			l := m.concStr(a[0])
			m.h.mu.Lock()
			if m.h.Bounds == nil {
				m.h.Bounds = map[string]bool{}
			}
			m.h.Bounds[l] = true
			m.h.mu.Unlock()
			return nil, true
		}
	case "Tier":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			if m.e.cfg.Tier == "thorough" {
				return a[1], true
			}
			return a[0], true
		}
	case "Native":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) { return m.c.fls, true }
	case "MapOrder":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.mapMode = m.concInt(a[0], types.Typ[types.Int])
			return nil, true
		}
	case "NoMerge":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noMerge = true
			return nil, true
		}
	case "Merge":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noMerge = m.concInt(a[0], types.Typ[types.Int]) == 0
			return nil, true
		}
	case "NoReplay": // outcome depends on scheduling: samples of this harness are not replayed
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.hadSched = true
			return nil, true
		}
	case "NeedFakes":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			if !m.e.fakes {
				panic(unsupported("gost's os or time import could not be replaced"))
			}
			return nil, true
		}
	case "Point":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("point")
			m.hadSched = true
			m.schedPoint()
			return nil, true
		}
	case "Steps":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.maxSteps = int64(m.concInt(a[0], types.Typ[types.Int]))
			return nil, true
		}
	case "Preempt":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.maxPreempt = m.concInt(a[0], types.Typ[types.Int])
			return nil, true
		}
	case "PreemptAll":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.preemptAll = true
			m.noMerge = true
			return nil, true
		}
	case "Yield":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.hadSched = true
			m.yieldG()
			return nil, true
		}
	case "Quiesce":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.hadSched = true
			m.quiesce()
			return nil, true
		}
	case "Stdout": // text printed so far
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			m.noSpec("stdout")
			return strFromTerms(append([]*T{}, m.stdout...)), true
		}
	case "MkU128", "MkI128":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			hi, lo := m.hiLo(fn.Signature.Results().At(0).Type())
			s := make(Struct, 2)
			s[hi], s[lo] = a[0], a[1]
			return s, true
		}
	case "SplitU128", "SplitI128":
		return func(m *Machine, caller *Frame, fn *ssa.Function, a A) (Value, bool) {
			hi, lo := m.hiLo(fn.Signature.Params().At(0).Type())
			s := a[0].(Struct)
			return Tuple{s[hi], s[lo]}, true
		}
	}
	return nil
}

func (m *Machine) hiLo(t types.Type) (int, int) {
	st := under(t).(*types.Struct)
	hi, lo := 0, 1
	if st.NumFields() != 2 {
		panic(unsupported("128-bit integer representation"))
	}
	for i := 0; i < 2; i++ {
		n := strings.ToLower(st.Field(i).Name())
		if strings.HasPrefix(n, "lo") {
			lo, hi = i, 1-i
		}
	}
	return hi, lo
}

var _ = big.NewInt
