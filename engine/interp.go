package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// engine-level signals (Go panics)
type unsupported string
type pathEnd struct{ why string }
type specAbort struct{ why string }
type stepBound struct{ why string }
type killed struct{}

// a panic of the program under analysis
type targetPanic struct {
	v  Value
	rt string // runtime error text or ""
	at string
}

type FnInfo struct {
	fn       *ssa.Function
	idx      map[ssa.Value]int
	nregs    int
	pdom     []int // immediate postdominator block index, -1 = exit
	loopIf   []bool
	loopRegs [][]int // registers redefined by a merged arm and live after it
	hasDefer bool
	gost     bool
	name     string
}

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *FnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	if p := pkgPathOf(fn); len(p) >= len(gostPath) && p[:len(gostPath)] == gostPath || len(p) >= 9 && p[:9] == "gostverif" {
		fi.gost = true
	}
	fi.computePdom()
	v, _ := fnInfos.LoadOrStore(fn, fi)
	return v.(*FnInfo)
}

func pkgPathOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if r := f.Signature.Recv(); r != nil {
			if n, ok := types.Unalias(derefT(r.Type())).(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
		}
	}
	return ""
}

// postdominators, ignoring blocks that end in panic (they never continue)
func (fi *FnInfo) computePdom() {
	bs := fi.fn.Blocks
	n := len(bs)
	fi.pdom = make([]int, n)
	fi.loopIf = make([]bool, n)
	if n == 0 || n > 2000 {
		for i := range fi.pdom {
			fi.pdom[i] = -1
		}
		return
	}
	// bitset dataflow; exit = n
	w := (n + 1 + 63) / 64
	sets := make([][]uint64, n+1)
	full := make([]uint64, w)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << uint(i%64)
	}
	for i := range sets {
		sets[i] = append([]uint64{}, full...)
	}
	sets[n] = make([]uint64, w)
	sets[n][n/64] |= 1 << uint(n%64)
	isPanic := func(b *ssa.BasicBlock) bool {
		if len(b.Instrs) == 0 {
			return false
		}
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return ok
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := bs[i]
			cur := append([]uint64{}, full...)
			any := false
			if len(b.Succs) == 0 {
				if !isPanic(b) {
					copy(cur, sets[n])
					any = true
				}
			}
			for _, s := range b.Succs {
				any = true
				for k := range cur {
					cur[k] &= sets[s.Index][k]
				}
			}
			if !any { // panic block: top
				continue
			}
			cur[i/64] |= 1 << uint(i%64)
			for k := range cur {
				if cur[k] != sets[i][k] {
					changed = true
				}
			}
			sets[i] = cur
		}
	}
	count := func(s []uint64) int {
		c := 0
		for _, x := range s {
			for ; x != 0; x &= x - 1 {
				c++
			}
		}
		return c
	}
	for i := 0; i < n; i++ {
		// ipdom: the strict postdominator with the largest set
		best, bc := -1, -1
		for j := 0; j <= n; j++ {
			if j != i && sets[i][j/64]>>uint(j%64)&1 == 1 {
				if c := count(sets[j]); c > bc {
					bc, best = c, j
				}
			}
		}
		if best == n {
			best = -1
		}
		fi.pdom[i] = best
	}
	// loop condition: block reachable from a successor without passing its ipdom
	fi.loopRegs = make([][]int, n)
	for i := 0; i < n; i++ {
		if len(bs[i].Succs) < 2 {
			continue
		}
		seen := map[int]bool{}
		var st []int
		for _, s := range bs[i].Succs {
			st = append(st, s.Index)
		}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x] || x == fi.pdom[i] {
				continue
			}
			seen[x] = true
			if x == i {
				fi.loopIf[i] = true
			}
			for _, s := range bs[x].Succs {
				st = append(st, s.Index)
			}
		}
		if p := fi.pdom[i]; fi.loopIf[i] && p >= 0 {
			for x := 0; x < n; x++ {
				if seen[x] && bs[x].Dominates(bs[p]) {
					fi.loopRegs[i] = append(fi.loopRegs[i], fi.liveDefs(bs[x], bs[p])...)
				}
			}
		}
	}
}

// the registers defined in block x that may be read once control is in p
// (before x is executed again)
func (fi *FnInfo) liveDefs(x, p *ssa.BasicBlock) []int {
	reach := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{p}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if reach[b] || b == x {
			continue
		}
		reach[b] = true
		st = append(st, b.Succs...)
	}
	var out []int
	for _, in := range x.Instrs {
		v, ok := in.(ssa.Value)
		if !ok || v.Referrers() == nil {
			continue
		}
		live := false
		for _, r := range *v.Referrers() {
			if ph, ok := r.(*ssa.Phi); ok {
				for k, e := range ph.Edges {
					if e == v && reach[ph.Block().Preds[k]] {
						live = true
					}
				}
			} else if reach[r.Block()] {
				live = true
			}
		}
		if live {
			out = append(out, fi.idx[v])
		}
	}
	return out
}

type deferred struct {
	fn   Value
	args []Value
}

type Frame struct {
	m         *Machine
	fi        *FnInfo
	env       []Value
	caller    *Frame
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking bool
	pan       targetPanic
	recovered bool
	pending   []Value
	pos       token.Pos
}

func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{v: Iface{t: types.Typ[types.String], v: mkStr("runtime error: " + msg)}, rt: msg, at: m.where()})
}

func (m *Machine) where() string {
	if m.cur == nil {
		return ""
	}
	fr := m.cur
	s := ""
	for i := 0; fr != nil && i < 6; i++ {
		p := m.prog.Fset.Position(fr.pos)
		s += fmt.Sprintf("%s(%s:%d) < ", fr.fi.name, shortPath(p.Filename), p.Line)
		fr = fr.caller
	}
	return s
}

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.m.constVal(x)
	case *ssa.Global:
		return fr.m.globalAddr(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no register for %s in %s", v.Name(), fr.fi.name)))
	}
	return fr.env[i]
}
func (fr *Frame) put(v ssa.Value, x Value) { fr.env[fr.fi.idx[v]] = x }

func (m *Machine) constVal(x *ssa.Const) Value {
	if v, ok := m.consts[x]; ok {
		return v
	}
	v := m.mkConst(x)
	if !isAggregate(x.Type()) {
		m.consts[x] = v
	}
	return v
}

func (m *Machine) mkConst(x *ssa.Const) Value {
	if x.Value == nil {
		return m.zero(x.Type())
	}
	t := under(x.Type())
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsupported("const of type param " + tp.String()))
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.Bool(constant.BoolVal(x.Value))
	case b.Info()&types.IsInteger != 0:
		w, _ := intInfo(b)
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return m.c.BV(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return m.c.BV(w, u)
	case b.Kind() == types.Float32:
		f, _ := constant.Float32Val(x.Value)
		return m.c.F32(f)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(x.Value)
		return m.c.F64(f)
	case b.Kind() == types.Complex64:
		re, _ := constant.Float32Val(constant.Real(x.Value))
		im, _ := constant.Float32Val(constant.Imag(x.Value))
		return Cplx{m.c.F32(re), m.c.F32(im)}
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(x.Value))
		im, _ := constant.Float64Val(constant.Imag(x.Value))
		return Cplx{m.c.F64(re), m.c.F64(im)}
	case b.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(x.Value))
		}
		i, _ := constant.Int64Val(x.Value)
		return mkStr(string(rune(i)))
	}
	panic(unsupported("const " + x.String()))
}

func (m *Machine) globalAddr(g *ssa.Global) Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	if g.Pkg != nil && !m.initDone[g.Pkg] {
		if g.String() == "runtime.inf" {
			p := new(Value)
			*p = m.c.F64(math.Inf(1))
			m.globals[g] = p
			return p
		}
		if !initAllowed(g.Pkg.Pkg.Path()) {
			panic(unsupported("global of uninitialised package " + g.String()))
		}
		m.lazyInit(g.Pkg)
		if p, ok := m.globals[g]; ok {
			return p
		}
	}
	p := new(Value)
	*p = m.zero(g.Type().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

// ---------- calls ----------
func (m *Machine) call(caller *Frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return m.callFn(caller, f, args, nil)
	case *Closure:
		if f == nil {
			m.rtPanic("call of nil function")
		}
		return m.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		panic("builtin call without instr")
	case *nativeFn:
		return f.f(args)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

type nativeFn struct{ f func(args []Value) Value }

func (m *Machine) callFn(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := infoOf(fn)
	if fn.Synthetic == "package initializer" && fn.Name() == "init" && fn.Pkg != nil {
		if m.initRun[fn.Pkg] || m.inInit == 0 || len(args) > 0 || m.cur != nil {
			return nil // initialisers of imports run when first needed
		}
		m.initRun[fn.Pkg] = true
		fn.Pkg.Build()
	}
	if h := m.intrinsic(fn); h != nil {
		if r, handled := h(m, caller, fn, args); handled {
			return r
		}
	}
	if len(fn.Blocks) == 0 {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if len(fn.Blocks) == 0 {
			panic(unsupported("function without body: " + fn.String()))
		}
		fnInfos.Delete(fn)
		fi = infoOf(fn)
	}
	m.touch(fi)
	depth := m.depth
	m.depth++
	if m.depth > 4000 {
		m.depth = depth
		panic(stepBound{"call depth"})
	}
	fr := &Frame{m: m, fi: fi, env: make([]Value, fi.nregs), caller: caller, block: fn.Blocks[0]}
	for i := range args {
		fr.env[i] = args[i]
	}
	np := len(fn.Params)
	if len(args) != np {
		panic(unsupported(fmt.Sprintf("arity mismatch calling %s: %d vs %d", fn, len(args), np)))
	}
	for i, e := range env {
		fr.env[np+i] = e
	}
	saved := m.cur
	m.cur = fr
	if fi.hasDefer {
		fr.runDeferring()
	} else {
		fr.run(-2)
	}
	m.cur = saved
	m.depth = depth
	return fr.result
}

// run a frame that has defers: intercept target panics
func (fr *Frame) runDeferring() {
	m := fr.m
	depth := m.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			if m.spec > 0 {
				panic(specAbort{"panic in deferring frame"})
			}
			fr.panicking = true
			fr.pan = tp
		}()
		fr.run(-2)
	}()
	if !fr.panicking {
		return
	}
	m.cur = fr
	m.depth = depth
	fr.runDefers()
	if fr.panicking {
		panic(fr.pan)
	}
	// recovered: return via recover block
	if fr.fi.fn.Recover != nil {
		fr.block = fr.fi.fn.Recover
		fr.prev = nil
		fr.run(-2)
	} else {
		fr.result = m.zeroResult(fr.fi.fn)
	}
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(rs.At(0).Type())
	}
	return m.zero(rs)
}

func (fr *Frame) runDefers() {
	m := fr.m
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := m.depth
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				m.cur = fr
				m.depth = depth
				fr.panicking = true
				fr.pan = tp
			}()
			m.callDeferred(fr, d)
		}()
		m.cur = fr
	}
}

func (m *Machine) callDeferred(fr *Frame, d deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		m.builtin(fr, b, d.args, nil)
		return
	}
	m.call(fr, d.fn, d.args)
}

const (
	armStop = iota
	armReturn
)

// run executes from fr.block until the function returns (armReturn) or control
// reaches block index stop in this frame (armStop; phis not yet executed).
func (fr *Frame) run(stop int) int {
	m := fr.m
	for {
		b := fr.block
		if b.Index == stop {
			return armStop
		}
		i := 0
		// phis in parallel
		if fr.pending != nil {
			pv := fr.pending
			fr.pending = nil
			for k, v := range pv {
				fr.put(b.Instrs[k].(*ssa.Phi), v)
			}
			i = len(pv)
		} else if _, ok := b.Instrs[0].(*ssa.Phi); ok {
			pi := predIndex(b, fr.prev)
			n := 0
			for ; n < len(b.Instrs); n++ {
				if _, ok := b.Instrs[n].(*ssa.Phi); !ok {
					break
				}
			}
			if n == 1 {
				p := b.Instrs[0].(*ssa.Phi)
				fr.put(p, fr.get(p.Edges[pi]))
			} else {
				tmp := make([]Value, n)
				for k := 0; k < n; k++ {
					tmp[k] = fr.get(b.Instrs[k].(*ssa.Phi).Edges[pi])
				}
				for k := 0; k < n; k++ {
					fr.put(b.Instrs[k].(*ssa.Phi), tmp[k])
				}
			}
			i = n
		}
		r := fr.exec(b, i, stop)
		switch r {
		case execReturn:
			return armReturn
		case execMergedStop:
			return armStop
		}
		_ = m
	}
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	panic("predIndex")
}

const (
	execJump = iota
	execReturn
	execMergedStop
)

func (fr *Frame) exec(b *ssa.BasicBlock, i int, stop int) int {
	m := fr.m
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		m.steps++
		if m.steps > m.maxSteps {
			panic(stepBound{"steps"})
		}
		if m.spec > 0 {
			m.specSteps++
			if m.specSteps > m.maxSpecSteps {
				panic(specAbort{"speculation budget"})
			}
		}
		if m.steps&0x3fff == 0 {
			m.checkBudget()
		}
		if p := in.Pos(); p.IsValid() {
			fr.pos = p
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if m.preemptAll && fr.fi.gost && x.Op == token.MUL {
				m.schedPoint()
			}
			fr.put(x, m.unop(fr, x))
		case *ssa.BinOp:
			fr.put(x, m.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(x.X), fr.get(x.Y)))
		case *ssa.Call:
			fr.put(x, m.doCall(fr, &x.Call))
		case *ssa.ChangeInterface:
			fr.put(x, fr.get(x.X))
		case *ssa.ChangeType:
			fr.put(x, fr.get(x.X))
		case *ssa.Convert:
			fr.put(x, m.convert(fr, x.X.Type(), x.Type(), fr.get(x.X)))
		case *ssa.MultiConvert:
			fr.put(x, m.convert(fr, x.X.Type(), x.Type(), fr.get(x.X)))
		case *ssa.MakeInterface:
			fr.put(x, Iface{x.X.Type(), fr.get(x.X)})
		case *ssa.Extract:
			fr.put(x, fr.get(x.Tuple).(Tuple)[x.Index])
		case *ssa.Slice:
			fr.put(x, m.slice(fr, x))
		case *ssa.SliceToArrayPointer:
			panic(unsupported("slice to array pointer"))
		case *ssa.Return:
			switch len(x.Results) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = fr.get(x.Results[0])
			default:
				t := make(Tuple, len(x.Results))
				for k, r := range x.Results {
					t[k] = fr.get(r)
				}
				fr.result = t
			}
			return execReturn
		case *ssa.RunDefers:
			if m.spec > 0 && len(fr.defers) > 0 {
				panic(specAbort{"defers"})
			}
			fr.runDefers()
			if fr.panicking {
				p := fr.pan
				fr.panicking = false
				panic(p)
			}
		case *ssa.Panic:
			panic(targetPanic{v: fr.get(x.X), at: m.where()})
		case *ssa.Store:
			if m.preemptAll && fr.fi.gost {
				m.schedPoint()
			}
			m.store(fr.get(x.Addr), fr.get(x.Val))
		case *ssa.If:
			c := fr.get(x.Cond).(*T)
			if c.isConst() {
				fr.prev = b
				if c.v != 0 {
					fr.block = b.Succs[0]
				} else {
					fr.block = b.Succs[1]
				}
				return execJump
			}
			return fr.symIf(b, c, stop)
		case *ssa.Jump:
			fr.prev, fr.block = b, b.Succs[0]
			return execJump
		case *ssa.Alloc:
			p := new(Value)
			*p = m.zero(x.Type().Underlying().(*types.Pointer).Elem())
			if m.spec > 0 {
				m.noteBorn(p)
			}
			fr.put(x, p)
		case *ssa.MakeSlice:
			n := m.concInt(fr.get(x.Len), x.Len.Type())
			c := m.concInt(fr.get(x.Cap), x.Cap.Type())
			if n < 0 || n > 1<<40 {
				m.rtPanic("makeslice: len out of range")
			}
			if c < n || c > 1<<40 {
				m.rtPanic("makeslice: cap out of range")
			}
			if c > 1<<20 {
				panic(stepBound{"huge allocation"})
			}
			et := under(x.Type()).(*types.Slice).Elem()
			fr.put(x, m.makeSlice(et, n, c))
		case *ssa.MakeMap:
			kt := under(x.Type()).(*types.Map).Key()
			if x.Reserve != nil {
				if r, ok := fr.get(x.Reserve).(*T); ok {
					_ = r
				}
			}
			fr.put(x, &MapV{kt: kt})
		case *ssa.MakeChan:
			n := m.concInt(fr.get(x.Size), x.Size.Type())
			m.chanID++
			fr.put(x, &ChanV{cap: n, id: m.chanID})
		case *ssa.MakeClosure:
			cl := &Closure{fn: x.Fn.(*ssa.Function)}
			for _, e := range x.Bindings {
				cl.env = append(cl.env, fr.get(e))
			}
			fr.put(x, cl)
		case *ssa.FieldAddr:
			fr.put(x, m.fieldAddr(fr.get(x.X), x.Field))
		case *ssa.Field:
			fr.put(x, copyVal(fr.get(x.X).(Struct)[x.Field]))
		case *ssa.IndexAddr:
			fr.put(x, m.indexAddr(fr.get(x.X), fr.get(x.Index), x.Index.Type()))
		case *ssa.Index:
			fr.put(x, m.index(fr.get(x.X), fr.get(x.Index), x.Index.Type()))
		case *ssa.Lookup:
			fr.put(x, m.lookup(fr, x))
		case *ssa.MapUpdate:
			m.mapUpdate(fr.get(x.Map), fr.get(x.Key), fr.get(x.Value))
		case *ssa.Range:
			fr.put(x, m.rangeIter(fr.get(x.X)))
		case *ssa.Next:
			fr.put(x, m.next(fr, x))
		case *ssa.TypeAssert:
			fr.put(x, m.typeAssert(x, fr.get(x.X)))
		case *ssa.Defer:
			if m.spec > 0 {
				panic(specAbort{"defer"})
			}
			fn, args := m.prepCall(fr, &x.Call)
			fr.defers = append(fr.defers, deferred{fn, args})
		case *ssa.Go:
			fn, args := m.prepCall(fr, &x.Call)
			m.spawn(fn, args)
		case *ssa.Send:
			m.chanSend(fr.get(x.Chan), fr.get(x.X))
		case *ssa.Select:
			fr.put(x, m.doSelect(fr, x))
		default:
			panic(unsupported(fmt.Sprintf("instr %T", in)))
		}
	}
	panic("fell off block")
}

func (m *Machine) makeSlice(et types.Type, n, c int) Slice {
	s := make([]Value, c)
	if isAggregate(et) {
		for i := range s {
			s[i] = m.zero(et)
		}
	} else {
		z := m.zero(et)
		for i := range s {
			s[i] = z
		}
	}
	if m.spec > 0 {
		for i := range s {
			m.noteBorn(&s[i])
		}
	}
	return Slice(s[:n])
}

func (m *Machine) fieldAddr(p Value, f int) Value {
	switch a := p.(type) {
	case *Value:
		if a == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return &(*a).(Struct)[f]
	case *SymElem:
		i := m.concretize(a.idx)
		return &a.base[i].(Struct)[f]
	}
	panic(unsupported(fmt.Sprintf("field of %T", p)))
}

// index as a 64-bit term
func (m *Machine) idx64(v Value, t types.Type) *T {
	x := v.(*T)
	return m.c.Resize(x, 64, isSigned(t))
}

func (m *Machine) boundsCheck(i *T, n int) {
	ok := m.c.Ult(i, m.c.BV(64, uint64(n)))
	if ok.isConst() {
		if ok.v == 0 {
			m.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", m.show(i), n))
		}
		return
	}
	if !m.branch(ok) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (m *Machine) indexAddr(p Value, iv Value, it types.Type) Value {
	i := m.idx64(iv, it)
	var base []Value
	switch a := p.(type) {
	case Slice:
		base = a
	case *Value:
		if a == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		base = (*a).(Array)
	default:
		panic(unsupported(fmt.Sprintf("indexaddr of %T", p)))
	}
	m.boundsCheck(i, len(base))
	if i.isConst() {
		return &base[i.v]
	}
	if len(base) > 0 {
		if _, ok := base[0].(*T); ok {
			return &SymElem{base, i}
		}
	}
	k := m.concretize(i)
	return &base[k]
}

func (m *Machine) index(p Value, iv Value, it types.Type) Value {
	i := m.idx64(iv, it)
	switch a := p.(type) {
	case Array:
		m.boundsCheck(i, len(a))
		if i.isConst() {
			return copyVal(a[i.v])
		}
		return m.symLoad(&SymElem{a, i})
	case *Str:
		return m.strIndex(m.mat(a), i)
	}
	panic(unsupported(fmt.Sprintf("index of %T", p)))
}

func (m *Machine) strIndex(a *Str, i *T) Value {
	m.boundsCheck(i, a.Len())
	if i.isConst() {
		return a.At(m.c, int(i.v))
	}
	base := make([]Value, a.Len())
	for k := range base {
		base[k] = a.At(m.c, k)
	}
	return m.symLoad(&SymElem{base, i})
}

func (m *Machine) slice(fr *Frame, x *ssa.Slice) Value {
	opt := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return m.concInt(fr.get(v), v.Type())
	}
	switch a := fr.get(x.X).(type) {
	case *Str:
		a = m.mat(a)
		n := a.Len()
		lo := opt(x.Low, 0)
		hi := opt(x.High, n)
		if lo < 0 || hi < lo || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return a.Sub(lo, hi)
	case Slice:
		return m.slice3(x, a, opt, true)
	case *Value:
		if a == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.slice3(x, Slice((*a).(Array)), opt, false)
	}
	panic(unsupported("slice of"))
}

func (m *Machine) slice3(x *ssa.Slice, a Slice, opt func(ssa.Value, int) int, isSlice bool) Value {
	lo := opt(x.Low, 0)
	hi := opt(x.High, len(a))
	mx := opt(x.Max, cap(a))
	if lo < 0 || hi < lo || mx < hi || mx > cap(a) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(a)))
	}
	if a == nil {
		return Slice(nil)
	}
	r := a[lo:hi:mx]
	if r == nil {
		r = Slice{}
	}
	return r
}

// concrete int value of an integer (forking if symbolic)
func (m *Machine) concInt(v Value, t types.Type) int {
	x := v.(*T)
	if !x.isConst() {
		k := m.concretize(x)
		x = m.c.BV(x.s, k)
	}
	if isSigned(t) {
		return int(x.sval())
	}
	if x.v > math.MaxInt64 {
		return math.MaxInt64
	}
	return int(x.v)
}

func (m *Machine) prepCall(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var fn Value
	if c.IsInvoke() {
		recv := fr.get(c.Value)
		rv, ok := recv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
		}
		if rv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (nil interface method call)")
		}
		fn = m.findMethod(rv.t, c.Method)
		args = append(args, rv.v)
	} else {
		fn = fr.get(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth}
	if f, ok := m.methods[k]; ok {
		return f
	}
	ms := m.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		panic(unsupported("method not found " + meth.Name() + " on " + t.String()))
	}
	f := m.prog.MethodValue(sel)
	m.methods[k] = f
	return f
}

func (m *Machine) doCall(fr *Frame, c *ssa.CallCommon) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = fr.get(a)
		}
		return m.builtin(fr, b, args, c)
	}
	fn, args := m.prepCall(fr, c)
	return m.call(fr, fn, args)
}

func (m *Machine) unop(fr *Frame, x *ssa.UnOp) Value {
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		return m.load(v)
	case token.NOT:
		return m.c.Not(v.(*T))
	case token.SUB:
		switch a := v.(type) {
		case *T:
			if a.s.isFP() {
				return m.c.FNeg(a)
			}
			return m.c.Neg(a)
		case Cplx:
			return Cplx{m.c.FNeg(a.re), m.c.FNeg(a.im)}
		}
	case token.XOR:
		return m.c.BNot(v.(*T))
	case token.ARROW:
		r, ok := m.chanRecv(v)
		et := under(x.X.Type()).(*types.Chan).Elem()
		if !ok {
			r = m.zero(et)
		}
		if x.CommaOk {
			return Tuple{r, m.c.Bool(ok)}
		}
		return r
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (m *Machine) binop(op token.Token, xt, yt types.Type, xv, yv Value) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.eq(xv, yv)
	case token.NEQ:
		return c.Not(m.eq(xv, yv))
	}
	switch x := xv.(type) {
	case *Str:
		y := yv.(*Str)
		switch op {
		case token.ADD:
			return m.mat(x).Cat(c, m.mat(y))
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return c.Not(m.strLess(y, x))
		case token.GEQ:
			return c.Not(m.strLess(x, y))
		}
	case Cplx:
		y := yv.(Cplx)
		switch op {
		case token.ADD:
			return Cplx{c.FBin(OFAdd, x.re, y.re), c.FBin(OFAdd, x.im, y.im)}
		case token.SUB:
			return Cplx{c.FBin(OFSub, x.re, y.re), c.FBin(OFSub, x.im, y.im)}
		case token.MUL:
			return Cplx{
				c.FBin(OFSub, c.FBin(OFMul, x.re, y.re), c.FBin(OFMul, x.im, y.im)),
				c.FBin(OFAdd, c.FBin(OFMul, x.re, y.im), c.FBin(OFMul, x.im, y.re))}
		case token.QUO:
			return m.cplxDiv(x, y)
		}
	case *T:
		y := yv.(*T)
		if x.s.isFP() {
			switch op {
			case token.ADD:
				return c.FBin(OFAdd, x, y)
			case token.SUB:
				return c.FBin(OFSub, x, y)
			case token.MUL:
				return c.FBin(OFMul, x, y)
			case token.QUO:
				return c.FBin(OFDiv, x, y)
			case token.LSS:
				return c.FCmp(OFLt, x, y)
			case token.LEQ:
				return c.FCmp(OFLe, x, y)
			case token.GTR:
				return c.FCmp(OFLt, y, x)
			case token.GEQ:
				return c.FCmp(OFLe, y, x)
			}
			break
		}
		if x.s == SBool {
			switch op {
			case token.AND, token.LAND:
				return c.And(x, y)
			case token.OR, token.LOR:
				return c.Or(x, y)
			case token.XOR:
				return c.Not(c.Eq(x, y))
			}
			break
		}
		sg := isSigned(xt)
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.QUO, token.REM:
			z := c.Eq(y, c.BV(y.s, 0))
			if z.isConst() {
				if z.v != 0 {
					m.rtPanic("integer divide by zero")
				}
			} else if m.branch(z) {
				m.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && sg:
				return c.SDiv(x, y)
			case op == token.QUO:
				return c.UDiv(x, y)
			case sg:
				return c.SRem(x, y)
			default:
				return c.URem(x, y)
			}
		case token.AND:
			return c.BAnd(x, y)
		case token.OR:
			return c.BOr(x, y)
		case token.XOR:
			return c.BXor(x, y)
		case token.AND_NOT:
			return c.BAnd(x, c.BNot(y))
		case token.SHL, token.SHR:
			if isSigned(yt) {
				neg := c.Slt(y, c.BV(y.s, 0))
				if neg.isConst() {
					if neg.v != 0 {
						m.rtPanic("negative shift amount")
					}
				} else if m.branch(neg) {
					m.rtPanic("negative shift amount")
				}
			}
			return m.shift(op, sg, x, y)
		case token.LSS:
			if sg {
				return c.Slt(x, y)
			}
			return c.Ult(x, y)
		case token.LEQ:
			if sg {
				return c.Sle(x, y)
			}
			return c.Ule(x, y)
		case token.GTR:
			if sg {
				return c.Slt(y, x)
			}
			return c.Ult(y, x)
		case token.GEQ:
			if sg {
				return c.Sle(y, x)
			}
			return c.Ule(y, x)
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T", op, xv)))
}

func (m *Machine) shift(op token.Token, sg bool, x, y *T) *T {
	c := m.c
	w := x.s
	var over *T = c.fls
	var k *T
	if y.s > w {
		over = c.Ule(c.BV(y.s, uint64(w)), y)
		k = c.Extract(y, int(w)-1, 0)
	} else {
		k = c.Zext(y, w)
	}
	switch {
	case op == token.SHL:
		return c.Ite(over, c.BV(w, 0), c.Shl(x, k))
	case sg:
		return c.Ite(over, c.Ashr(x, c.BV(w, uint64(w-1))), c.Ashr(x, k))
	default:
		return c.Ite(over, c.BV(w, 0), c.Lshr(x, k))
	}
}

func (m *Machine) cplxDiv(x, y Cplx) Value {
	// complex64 division is done in complex128
	if x.re.s == SF32 {
		c := m.c
		r := m.cplxDiv(Cplx{c.FToFP(x.re, SF64), c.FToFP(x.im, SF64)}, Cplx{c.FToFP(y.re, SF64), c.FToFP(y.im, SF64)}).(Cplx)
		return Cplx{c.FToFP(r.re, SF32), c.FToFP(r.im, SF32)}
	}
	rt := m.prog.ImportedPackage("runtime")
	if rt != nil {
		rt.Build()
		if f := rt.Func("complex128div"); f != nil {
			return m.callFn(m.cur, f, []Value{x, y}, nil)
		}
	}
	panic(unsupported("complex division"))
}

func (m *Machine) convert(fr *Frame, from, to types.Type, v Value) Value {
	c := m.c
	uf, ut := under(from), under(to)
	switch t := ut.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			if p, ok := v.(UPtr); ok {
				return p
			}
			return UPtr{v}
		case t.Info()&types.IsInteger != 0:
			w, sg := intInfo(t)
			switch x := v.(type) {
			case *T:
				if x.s.isFP() {
					return m.floatToInt(x, w, sg)
				}
				return c.Resize(x, w, isSigned(from))
			case UPtr:
				panic(unsupported("pointer to uintptr"))
			}
		case t.Info()&types.IsFloat != 0:
			x := v.(*T)
			s := SF64
			if t.Kind() == types.Float32 {
				s = SF32
			}
			if x.s.isFP() {
				return c.FToFP(x, s)
			}
			return c.FFromInt(x, s, isSigned(from))
		case t.Info()&types.IsComplex != 0:
			x := v.(Cplx)
			s := SF64
			if t.Kind() == types.Complex64 {
				s = SF32
			}
			return Cplx{c.FToFP(x.re, s), c.FToFP(x.im, s)}
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case *Str:
				return x
			case *T: // rune -> string
				return m.runeToStr(c.Resize(x, 64, isSigned(from)))
			case Slice:
				et := under(uf.(*types.Slice).Elem()).(*types.Basic)
				if et.Kind() == types.Uint8 {
					b := make([]*T, len(x))
					for i := range x {
						b[i] = x[i].(*T)
					}
					return strFromTerms(b)
				}
				var r *Str = mkStr("")
				for i := range x {
					r = r.Cat(c, m.runeToStr(c.Sext(x[i].(*T), 64)))
				}
				return r
			}
		}
	case *types.Slice:
		if x, ok := v.(*Str); ok {
			x = m.mat(x)
			et := under(t.Elem()).(*types.Basic)
			if et.Kind() == types.Uint8 {
				n := x.Len()
				cp := n
				if n <= 32 {
					cp = growCap(0, 0, n, 1)
				}
				s := make([]Value, n, cp)
				for i := range s {
					s[i] = x.At(c, i)
				}
				full := s[:cap(s)]
				for i := n; i < cap(s); i++ {
					full[i] = c.BV(8, 0)
				}
				return Slice(s)
			}
			var out []Value
			pos := 0
			for pos < x.Len() {
				r, n := m.decodeRune(x, pos)
				out = append(out, r)
				pos += n
			}
			if out == nil {
				out = []Value{}
			}
			return Slice(out)
		}
		return v
	case *types.Pointer:
		switch x := v.(type) {
		case UPtr:
			return x.v
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s", from, to)))
}

func (m *Machine) floatToInt(x *T, w Sort, sg bool) *T {
	c := m.c
	if x.isConst() {
		f := x.f64()
		if sg {
			switch {
			case w == 64:
				return c.BV(64, uint64(int64(f)))
			default:
				return c.BV(w, uint64(int64(int32(f))))
			}
		}
		if w == 64 {
			return c.BV(64, uint64(f))
		}
		return c.BV(w, uint64(int64(f)))
	}
	// in range: exact truncation; otherwise implementation-specific (amd64 integer indefinite)
	var lo, hi float64
	if sg {
		lo = -math.Ldexp(1, int(w)-1)
		hi = math.Ldexp(1, int(w)-1)
	} else {
		lo, hi = 0, math.Ldexp(1, int(w))
	}
	d := c.FToFP(x, SF64)
	// strictly greater than lo-1 and less than hi
	inr := c.FCmp(OFLt, d, c.F64(hi))
	if w < 64 || !sg {
		inr = c.And(inr, c.FCmp(OFLt, c.F64(lo-1), d))
	} else {
		inr = c.And(inr, c.FCmp(OFLe, c.F64(lo), d))
	}
	m.freshN++
	other := c.Var(fmt.Sprintf("fpconv!%d:%d", m.freshN, w), w)
	if sg && w == 64 {
		other = c.BV(64, 1<<63)
	}
	return c.Ite(inr, c.FToInt(d, w, sg), other)
}

func (m *Machine) runeToStr(r *T) *Str {
	if r.isConst() {
		v := r.sval()
		if v < 0 || v > 0x10ffff {
			v = 0xfffd
		}
		return mkStr(string(rune(v)))
	}
	c := m.c
	k := func(v uint64) *T { return c.BV(64, v) }
	ex := func(t *T) *T { return c.Extract(t, 7, 0) }
	if m.branch(c.Ult(r, k(0x80))) {
		return strFromTerms([]*T{ex(r)})
	}
	if m.branch(c.Ult(r, k(0x800))) {
		return strFromTerms([]*T{ex(c.BOr(k(0xC0), c.Lshr(r, k(6)))), ex(c.BOr(k(0x80), c.BAnd(r, k(0x3F))))})
	}
	bad := c.Or(c.Ult(k(0x10ffff), r), c.And(c.Ule(k(0xd800), r), c.Ule(r, k(0xdfff))))
	if m.branch(bad) {
		return mkStr("\uFFFD")
	}
	if m.branch(c.Ult(r, k(0x10000))) {
		return strFromTerms([]*T{ex(c.BOr(k(0xE0), c.Lshr(r, k(12)))), ex(c.BOr(k(0x80), c.BAnd(c.Lshr(r, k(6)), k(0x3F)))), ex(c.BOr(k(0x80), c.BAnd(r, k(0x3F))))})
	}
	return strFromTerms([]*T{ex(c.BOr(k(0xF0), c.Lshr(r, k(18)))), ex(c.BOr(k(0x80), c.BAnd(c.Lshr(r, k(12)), k(0x3F)))), ex(c.BOr(k(0x80), c.BAnd(c.Lshr(r, k(6)), k(0x3F)))), ex(c.BOr(k(0x80), c.BAnd(r, k(0x3F))))})
}

// decodeRune follows utf8.DecodeRuneInString on symbolic bytes.
func (m *Machine) decodeRune(s *Str, pos int) (*T, int) {
	c := m.c
	bad := c.BV(32, 0xFFFD)
	n := s.Len() - pos
	b0 := s.At(c, pos)
	k8 := func(v uint64) *T { return c.BV(8, v) }
	z := func(t *T) *T { return c.Zext(t, 32) }
	if m.branch(c.Ult(b0, k8(0x80))) {
		return z(b0), 1
	}
	in := func(t *T, lo, hi uint64) *T { return c.And(c.Ule(k8(lo), t), c.Ule(t, k8(hi))) }
	low6 := func(t *T) *T { return z(c.BAnd(t, k8(0x3f))) }
	sh := func(t *T, k uint64) *T { return c.Shl(t, c.BV(32, k)) }
	if !m.branch(in(b0, 0xC2, 0xF4)) || n < 2 {
		return bad, 1
	}
	b1 := s.At(c, pos+1)
	// admissible second byte depends on the first
	is := func(v uint64) *T { return c.Eq(b0, k8(v)) }
	lo := c.Ite(is(0xE0), k8(0xA0), c.Ite(is(0xF0), k8(0x90), k8(0x80)))
	hi := c.Ite(is(0xED), k8(0x9F), c.Ite(is(0xF4), k8(0x8F), k8(0xBF)))
	ok1 := c.And(c.Ule(lo, b1), c.Ule(b1, hi))
	if m.branch(c.Ult(b0, k8(0xE0))) {
		if !m.branch(ok1) {
			return bad, 1
		}
		return c.BOr(sh(z(c.BAnd(b0, k8(0x1f))), 6), low6(b1)), 2
	}
	three := m.branch(c.Ult(b0, k8(0xF0)))
	if n < 3 || (!three && n < 4) {
		return bad, 1
	}
	if !m.branch(ok1) {
		return bad, 1
	}
	b2 := s.At(c, pos+2)
	if !m.branch(in(b2, 0x80, 0xBF)) {
		return bad, 1
	}
	if three {
		return c.BOr(c.BOr(sh(z(c.BAnd(b0, k8(0x0f))), 12), sh(low6(b1), 6)), low6(b2)), 3
	}
	b3 := s.At(c, pos+3)
	if !m.branch(in(b3, 0x80, 0xBF)) {
		return bad, 1
	}
	return c.BOr(c.BOr(sh(z(c.BAnd(b0, k8(0x07))), 18), sh(low6(b1), 12)), c.BOr(sh(low6(b2), 6), low6(b3))), 4
}

// ---------- type assertion ----------
func (m *Machine) typeAssert(x *ssa.TypeAssert, v Value) Value {
	iv := v.(Iface)
	ok := false
	var res Value
	if iv.t != nil {
		if it, isI := under(x.AssertedType).(*types.Interface); isI {
			if m.implements(iv.t, it) {
				ok = true
				res = iv
			}
		} else if types.Identical(iv.t, x.AssertedType) {
			ok = true
			res = copyVal(iv.v)
		}
	}
	if !ok {
		if !x.CommaOk {
			m.rtPanic(fmt.Sprintf("interface conversion: not %s", x.AssertedType))
		}
		res = m.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{res, m.c.Bool(ok)}
	}
	return res
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (m *Machine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := m.impls[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	m.impls[k] = r
	return r
}

// ---------- maps ----------
func (m *Machine) mapFind(mv *MapV, k Value) *MapEntry {
	for _, e := range mv.ents {
		q := m.eq(e.k, k)
		if q.isConst() {
			if q.v != 0 {
				return e
			}
			continue
		}
		if m.branch(q) {
			return e
		}
	}
	return nil
}

func (m *Machine) checkHashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("hash of unhashable type")
	}
}

func (m *Machine) lookup(fr *Frame, x *ssa.Lookup) Value {
	switch a := fr.get(x.X).(type) {
	case *Str:
		return m.strIndex(m.mat(a), m.idx64(fr.get(x.Index), x.Index.Type()))
	case *MapV:
		k := fr.get(x.Index)
		m.checkHashable(k)
		var e *MapEntry
		if a != nil {
			e = m.mapFind(a, k)
		}
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = m.zero(under(x.X.Type()).(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{v, m.c.Bool(e != nil)}
		}
		return v
	}
	panic(unsupported("lookup"))
}

func (m *Machine) mapUpdate(mv Value, k, v Value) {
	a := mv.(*MapV)
	if a == nil {
		panic(targetPanic{v: Iface{types.Typ[types.String], mkStr("assignment to entry in nil map")}, rt: "nil map", at: m.where()})
	}
	m.checkHashable(k)
	if e := m.mapFind(a, k); e != nil {
		m.set(&e.v, copyVal(v))
		return
	}
	old := a.ents
	m.undoable(a, func() { a.ents = old })
	ne := make([]*MapEntry, len(old), len(old)+1)
	copy(ne, old)
	a.ents = append(ne, &MapEntry{copyVal(k), copyVal(v)})
}

func (m *Machine) mapDelete(mv Value, k Value) {
	a := mv.(*MapV)
	if a == nil {
		return
	}
	e := m.mapFind(a, k)
	if e == nil {
		return
	}
	old := a.ents
	m.undoable(a, func() { a.ents = old })
	var ne []*MapEntry
	for _, x := range old {
		if x != e {
			ne = append(ne, x)
		}
	}
	a.ents = ne
}

func (m *Machine) rangeIter(v Value) Value {
	switch a := v.(type) {
	case *Str:
		return &RangeIter{str: m.mat(a)}
	case *MapV:
		it := &RangeIter{m: a}
		if a != nil {
			it.keys = m.mapOrder(a.ents)
		}
		return it
	}
	panic(unsupported("range"))
}

// iteration order of a map: insertion order, or (when the harness asks for it)
// any permutation, or reversed.
func (m *Machine) mapOrder(ents []*MapEntry) []*MapEntry {
	out := append([]*MapEntry{}, ents...)
	if len(out) < 2 {
		return out
	}
	switch m.mapMode {
	case 1: // forward or reversed
		if m.choose(2, "") == 1 {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
	case 2: // any permutation
		for i := 0; i < len(out)-1; i++ {
			j := i + m.choose(len(out)-i, "")
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (m *Machine) next(fr *Frame, x *ssa.Next) Value {
	it := fr.get(x.Iter).(*RangeIter)
	if x.IsString {
		if it.pos >= it.str.Len() {
			return Tuple{m.c.fls, m.c.BV(64, 0), m.c.BV(32, 0)}
		}
		r, n := m.decodeRune(it.str, it.pos)
		p := it.pos
		it.pos += n
		m.undoable(it, func() { it.pos = p })
		return Tuple{m.c.tru, m.c.BV(64, uint64(p)), r}
	}
	tt := x.Type().(*types.Tuple)
	z := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return m.zero(tt.At(i).Type())
	}
	for it.pos < len(it.keys) {
		e := it.keys[it.pos]
		p := it.pos
		it.pos++
		m.undoable(it, func() { it.pos = p })
		live := false
		for _, q := range it.m.ents {
			if q == e {
				live = true
				break
			}
		}
		if live {
			return Tuple{m.c.tru, copyVal(e.k), copyVal(e.v)}
		}
	}
	return Tuple{m.c.fls, z(1), z(2)}
}

// ---------- builtins ----------
func growCap(oldLen, oldCap, add, esz int) int {
	need := oldLen + add
	if need <= oldCap {
		return oldCap
	}
	// mirror runtime.growslice before size-class rounding
	newcap := oldCap
	dbl := newcap + newcap
	if need > dbl {
		newcap = need
	} else if oldCap < 256 {
		newcap = dbl
	} else {
		for newcap < need {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return need
	}
	// size-class rounding using the real allocator on bytes
	by := newcap * esz
	if by <= 32768 {
		by = cap(append([]byte(nil), make([]byte, by)...))
	}
	return by / esz
}

func (m *Machine) doAppend(et types.Type, a Slice, extra []Value) Slice {
	n := len(a) + len(extra)
	if len(extra) == 0 {
		return a
	}
	if n <= cap(a) {
		r := a[:n]
		for i, v := range extra {
			m.setElem(&r[len(a)+i], v)
		}
		return r
	}
	nc := growCap(len(a), cap(a), len(extra), int(sizes64.Sizeof(et)))
	if nc > 1<<20 {
		panic(stepBound{"huge append"})
	}
	r := m.makeSlice(et, n, nc)
	for i := range a {
		r[i] = copyVal(a[i])
	}
	for i, v := range extra {
		r[len(a)+i] = copyVal(v)
	}
	return r
}

// overwrite an element slot (aggregates in place)
func (m *Machine) setElem(slot *Value, v Value) {
	switch v.(type) {
	case Struct, Array:
		m.storeAt(slot, copyVal(v))
	default:
		m.set(slot, v)
	}
}

func (m *Machine) builtin(fr *Frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	c := m.c
	for i, a := range args {
		if s, ok := a.(*Str); ok && s.dec != nil && b.Name() != "panic" {
			args[i] = m.mat(s)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return c.BV(64, uint64(x.Len()))
		case Slice:
			return c.BV(64, uint64(len(x)))
		case Array:
			return c.BV(64, uint64(len(x)))
		case *Value:
			if x == nil {
				at := under(under(call.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array)
				return c.BV(64, uint64(at.Len()))
			}
			return c.BV(64, uint64(len((*x).(Array))))
		case *MapV:
			if x == nil {
				return c.BV(64, 0)
			}
			return c.BV(64, uint64(len(x.ents)))
		case *ChanV:
			if x == nil {
				return c.BV(64, 0)
			}
			return c.BV(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.BV(64, uint64(cap(x)))
		case Array:
			return c.BV(64, uint64(len(x)))
		case *Value:
			return c.BV(64, uint64(len((*x).(Array))))
		case *ChanV:
			if x == nil {
				return c.BV(64, 0)
			}
			return c.BV(64, uint64(x.cap))
		}
	case "append":
		a := args[0].(Slice)
		et := under(call.Args[0].Type()).(*types.Slice).Elem()
		switch y := args[1].(type) {
		case Slice:
			ex := make([]Value, len(y))
			for i := range y {
				ex[i] = copyVal(y[i])
			}
			return m.doAppend(et, a, ex)
		case *Str:
			ex := make([]Value, y.Len())
			for i := range ex {
				ex[i] = y.At(c, i)
			}
			return m.doAppend(et, a, ex)
		}
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			n := len(d)
			if len(y) < n {
				n = len(y)
			}
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(y[i])
			}
			for i := range tmp {
				m.setElem(&d[i], tmp[i])
			}
			return c.BV(64, uint64(n))
		case *Str:
			n := len(d)
			if y.Len() < n {
				n = y.Len()
			}
			for i := 0; i < n; i++ {
				m.set(&d[i], y.At(c, i))
			}
			return c.BV(64, uint64(n))
		}
	case "delete":
		m.mapDelete(args[0], args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				old := x.ents
				m.undoable(x, func() { x.ents = old })
				x.ents = nil
			}
		case Slice:
			if len(x) > 0 {
				et := under(call.Args[0].Type()).(*types.Slice).Elem()
				for i := range x {
					m.setElem(&x[i], m.zero(et))
				}
			}
		}
		return nil
	case "panic":
		panic(targetPanic{v: args[0], at: m.where()})
	case "recover":
		return m.doRecover(fr)
	case "print", "println":
		return nil
	case "real":
		return args[0].(Cplx).re
	case "imag":
		return args[0].(Cplx).im
	case "complex":
		return Cplx{args[0].(*T), args[1].(*T)}
	case "close":
		m.chanClose(args[0])
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			t := call.Args[0].Type()
			var k *T
			if x, ok := r.(*T); ok && x.s.isFP() {
				return m.fminmax(b.Name(), args)
			}
			if b.Name() == "min" {
				k = m.binop(token.LSS, t, t, a, r).(*T)
			} else {
				k = m.binop(token.GTR, t, t, a, r).(*T)
			}
			v, ok := m.merge(k, a, r)
			if !ok {
				if m.branch(k) {
					v = a
				} else {
					v = r
				}
			}
			r = v
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData", "StringData":
		return UPtr{args[0]}
	case "String":
		if u, ok := args[0].(UPtr); ok {
			if s, ok := u.v.(Slice); ok {
				n := m.concInt(args[1], types.Typ[types.Int])
				b := make([]*T, n)
				for i := range b {
					b[i] = s[:n][i].(*T)
				}
				return strFromTerms(b)
			}
		}
	case "Slice":
		if u, ok := args[0].(UPtr); ok {
			if s, ok := u.v.(*Str); ok {
				n := m.concInt(args[1], types.Typ[types.Int])
				r := make(Slice, n)
				for i := range r {
					r[i] = s.At(c, i)
				}
				return r
			}
		}
	}
	panic(unsupported(fmt.Sprintf("builtin %s", b.Name())))
}

func (m *Machine) fminmax(name string, args []Value) Value {
	c := m.c
	r := args[0].(*T)
	for _, av := range args[1:] {
		a := av.(*T)
		if r.isConst() && a.isConst() {
			x, y := r.f64(), a.f64()
			if name == "min" {
				r = c.FConst(r.s, min(x, y))
			} else {
				r = c.FConst(r.s, max(x, y))
			}
			continue
		}
		panic(unsupported("symbolic float min/max"))
	}
	return r
}

// recover(): only valid in a deferred call while its caller frame is panicking
func (m *Machine) doRecover(fr *Frame) Value {
	if fr == nil || fr.caller == nil || !fr.caller.panicking {
		return Iface{}
	}
	p := fr.caller.pan
	fr.caller.panicking = false
	fr.caller.recovered = true
	if i, ok := p.v.(Iface); ok {
		if i.t == nil {
			return Iface{types.Typ[types.String], mkStr("panic called with nil argument")}
		}
		return i
	}
	return Iface{types.Typ[types.String], mkStr(fmt.Sprint(p.rt))}
}

var _ = big.NewInt
