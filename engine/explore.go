package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A decision of a path. Kinds:
//
//	T/F  forked branch (adds the condition / its negation to the path condition)
//	t/f  branch forced by the path condition
//	M    merged (if-converted) branch
//	C    n-way choice (scheduler, map order, harness choice)
//	V    candidate value of a concretisation
//	A    assumption (adds it)
//	S    assertion decided
type Dec struct {
	k byte
	v uint64
}

type Work struct {
	h     *Harness
	trace []Dec
	model *Model
}

type Harness struct {
	Name  string
	Prop  string
	fn    *ssa.Function
	Doc   string
	mu    sync.Mutex
	Paths int
	Ends  map[string]int // completed, assume, step bound, unsupported...
	Asserts,
	AssertQ,
	Forks, Merges int
	Steps    int64
	Undec    []string
	Viol     []*Violation
	Reached  map[string]bool
	Samples  []*Sample
	Incompl  map[string]int
	MaxPath  int
	Pending  int64
	start    time.Time
	Wall     time.Duration
	Deadline time.Time
	stopped  atomic.Bool
	seq      atomic.Int64
	Bounds   map[string]bool
	skipVal  bool
}

type Violation struct {
	Harness string
	Msg     string
	At      string
	Kind    string // assert, panic, deadlock, bound
	Inputs  map[string]string
	Choices []string
	Order   []string
}

type Sample struct {
	Inputs map[string]string
	Order  []string
	Obs    []string
}

type inputRec struct {
	name string
	t    *T
	kind string
}

type siteStat struct{ ok, fail int }

type Engine struct {
	fakes     bool // os and time are replaced
	prog      *ssa.Program
	nd        string // nd package path
	cfg       Config
	mu        sync.Mutex
	cond      *sync.Cond
	queue     []*Work
	active    int
	done      bool
	fnTouch   sync.Map // *FnInfo -> *int64
	sites     sync.Map // *ssa.BasicBlock -> *siteStat
	stats     SolverStats
	statsMu   sync.Mutex
	models    map[string]*ssa.Function
	deadline  time.Time
	unstarted atomic.Int32 // harnesses not begun
	exhaust   atomic.Bool
}

type Config struct {
	Workers  int
	TimeMS   int
	HardMS   int
	MaxSteps int64
	Tier     string
	Budget   time.Duration
	Verbose  bool
	Seed     int64
	MaxViol  int
	Samples  int
}

type Machine struct {
	e    *Engine
	c    *Ctx
	prog *ssa.Program
	sol  *Solver
	h    *Harness

	consts   map[*ssa.Const]Value
	globals  map[*ssa.Global]*Value
	methods  map[methKey]*ssa.Function
	impls    map[implKey]bool
	initDone map[*ssa.Package]bool
	initRun  map[*ssa.Package]bool
	initFail map[*ssa.Package]string
	intrin   map[*ssa.Function]intrinsicFn
	touched  map[*FnInfo]bool

	// per path
	journal      []jent
	pc           []*T
	pcSet        map[*T]bool
	trace        []Dec
	pos          int
	model        *Model
	ev           *Evaluator
	cur          *Frame
	depth        int
	steps        int64
	maxSteps     int64
	spec         int
	specSteps    int
	maxSpecSteps int
	born         map[*Value]int
	bornSeq      int
	inputs       []inputRec
	inputIdx     map[string]int
	nameN        map[string]int
	choices      []string
	obs          []obsRec
	freshN       int
	chanID       int
	mapMode      int
	noMerge      bool
	hadSched     bool
	asserts      int

	gs         []*G
	curG       *G
	kill       bool
	fatal      any
	preempts   int
	maxPreempt int
	preemptAll bool
	syncs      int // synchronising operations so far
	sync       map[any]*syncState
	bigs       map[*Value]*Value
	mats       map[*T]*Str
	digs       map[*T]*Str
	rtypes     map[string]types.Type
	inInit     int
	stdout     []*T
	sleepObs   *[]*T
}

type obsRec struct {
	label string
	v     Value
	t     types.Type
}

func NewMachine(e *Engine) *Machine {
	m := &Machine{e: e, prog: e.prog}
	m.c = NewCtx()
	m.sol = NewSolver(m.c, "z3-new", e.cfg.TimeMS)
	m.consts = map[*ssa.Const]Value{}
	m.globals = map[*ssa.Global]*Value{}
	m.methods = map[methKey]*ssa.Function{}
	m.impls = map[implKey]bool{}
	m.initDone = map[*ssa.Package]bool{}
	m.initRun = map[*ssa.Package]bool{}
	m.initFail = map[*ssa.Package]string{}
	m.intrin = map[*ssa.Function]intrinsicFn{}
	m.touched = map[*FnInfo]bool{}
	m.rtypes = map[string]types.Type{}
	return m
}

func shortPath(p string) string { return filepath.Base(p) }

func (m *Machine) touch(fi *FnInfo) {
	if m.touched[fi] {
		return
	}
	m.touched[fi] = true
	m.e.fnTouch.Store(fi.fn, true)
}

func (m *Machine) resetPath() {
	m.rollback(0)
	m.pc = m.pc[:0]
	m.pcSet = map[*T]bool{}
	m.trace = nil
	m.pos = 0
	m.model = nil
	m.ev = nil
	m.cur = nil
	m.depth = 0
	m.steps = 0
	m.maxSteps = m.e.cfg.MaxSteps
	m.spec = 0
	m.specSteps = 0
	m.maxSpecSteps = 60000
	m.born = map[*Value]int{}
	m.bornSeq = 0
	m.inputs = nil
	m.inputIdx = map[string]int{}
	m.nameN = map[string]int{}
	m.choices = nil
	m.obs = nil
	m.freshN = 0
	m.chanID = 0
	m.mapMode = 1
	m.noMerge = false
	m.hadSched = false
	m.asserts = 0
	m.gs = nil
	m.curG = nil
	m.kill = false
	m.fatal = nil
	m.preempts = 0
	m.maxPreempt = 2
	m.preemptAll = false
	m.sync = map[any]*syncState{}
	m.bigs = map[*Value]*Value{}
	m.mats = map[*T]*Str{}
	m.digs = map[*T]*Str{}
	m.stdout = nil
	m.sleepObs = nil
	if len(m.c.tab) > 3000000 {
		// drop the term table (and with it the solver's definitions)
		m.c = NewCtx()
		m.sol.c = m.c
		m.sol.restart()
		m.consts = map[*ssa.Const]Value{}
		m.rebuildGlobals()
	}
}

// globals hold terms of the old context: re-run the initialisers
func (m *Machine) rebuildGlobals() {
	m.globals = map[*ssa.Global]*Value{}
	m.initDone = map[*ssa.Package]bool{}
	m.initRun = map[*ssa.Package]bool{}
	m.initFail = map[*ssa.Package]string{}
	m.runInit()
}

func (m *Machine) checkBudget() {
	if !m.e.deadline.IsZero() && time.Now().After(m.e.deadline) {
		m.e.exhaust.Store(true)
		panic(pathEnd{"time budget"})
	}
	if m.h != nil && !m.h.Deadline.IsZero() && time.Now().After(m.h.Deadline) {
		m.h.stopped.Store(true)
		panic(pathEnd{"time budget"})
	}
}

// ---------- path condition ----------
func (m *Machine) addPC(c *T) {
	if c.isConst() {
		return
	}
	if c.op == OAnd {
		m.addPC(c.a[0])
		m.addPC(c.a[1])
		return
	}
	m.pc = append(m.pc, c)
	m.pcSet[c] = true
}

func (m *Machine) setModel(md *Model) {
	m.model = md
	if md != nil {
		m.ev = NewEvaluator(m.c, md)
	} else {
		m.ev = nil
	}
}

// value of a boolean under the current model: 1, 0 or -1 (unknown)
func (m *Machine) evalBool(c *T) int {
	if m.ev == nil {
		return -1
	}
	v := m.ev.Eval(c)
	if !v.ok {
		return -1
	}
	if v.v != 0 {
		return 1
	}
	return 0
}

func (m *Machine) query(c *T) (SatRes, *Model) {
	if c.isConst() && c.v == 0 {
		return Unsat, nil
	}
	r, md := m.sol.Check(m.pc, c, 0, true)
	return r, md
}

// feasibility of both sides
func (m *Machine) sides(c *T) (canT, canF bool, mT, mF *Model) {
	if m.pcSet[c] {
		return true, false, m.model, nil
	}
	n := m.c.Not(c)
	if m.pcSet[n] {
		return false, true, nil, m.model
	}
	switch m.orderDecides(c) {
	case 1:
		return true, false, m.model, nil
	case 0:
		return false, true, nil, m.model
	}
	switch m.evalBool(c) {
	case 1:
		canT, mT = true, m.model
		r, md := m.query(n)
		canF, mF = r != Unsat, md
	case 0:
		canF, mF = true, m.model
		r, md := m.query(c)
		canT, mT = r != Unsat, md
	default:
		r, md := m.query(c)
		canT, mT = r != Unsat, md
		r, md = m.query(n)
		canF, mF = r != Unsat, md
	}
	return
}

func (m *Machine) replaying() bool { return m.pos < len(m.trace) }
func (m *Machine) log(k byte, v uint64) {
	m.trace = append(m.trace, Dec{k, v})
	m.pos = len(m.trace)
}

func (m *Machine) desync(what string, d Dec) {
	panic(fmt.Sprintf("internal: replay desync at %s: %c (pos %d of %d) at %s", what, d.k, m.pos, len(m.trace), m.where()))
}

func (m *Machine) branch(c *T) bool {
	if c.isConst() {
		return c.v != 0
	}
	if m.replaying() {
		d := m.trace[m.pos]
		m.pos++
		switch d.k {
		case 'T':
			m.addPC(c)
			return true
		case 'F':
			m.addPC(m.c.Not(c))
			return false
		case 't':
			return true
		case 'f':
			return false
		}
		m.desync("branch", d)
	}
	canT, canF, mT, mF := m.sides(c)
	return m.decide(c, canT, canF, mT, mF)
}

func (m *Machine) decide(c *T, canT, canF bool, mT, mF *Model) bool {
	switch {
	case canT && !canF:
		m.log('t', 0)
		if m.model == nil && mT != nil {
			m.setModel(mT)
		}
		return true
	case canF && !canT:
		m.log('f', 0)
		if m.model == nil && mF != nil {
			m.setModel(mF)
		}
		return false
	case !canT && !canF:
		panic(pathEnd{"infeasible"})
	}
	if m.spec > 0 {
		panic(specAbort{"fork"})
	}
	atomic.AddInt64(&forkCount, 1)
	m.h.mu.Lock()
	m.h.Forks++
	m.h.mu.Unlock()
	// follow the side the current model satisfies (or true)
	takeT := true
	if m.model != nil && mF == m.model {
		takeT = false
	}
	alt := make([]Dec, len(m.trace)+1)
	copy(alt, m.trace)
	if takeT {
		alt[len(m.trace)] = Dec{'F', 0}
		m.e.push(&Work{m.h, alt, mF})
		m.log('T', 0)
		m.addPC(c)
		if m.model != mT {
			m.setModel(mT)
		}
		return true
	}
	alt[len(m.trace)] = Dec{'T', 0}
	m.e.push(&Work{m.h, alt, mT})
	m.log('F', 0)
	m.addPC(m.c.Not(c))
	return false
}

var forkCount int64

// n-way choice
func (m *Machine) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	var v int
	if m.replaying() {
		d := m.trace[m.pos]
		m.pos++
		if d.k != 'C' {
			m.desync("choose", d)
		}
		v = int(d.v)
	} else {
		if m.spec > 0 {
			panic(specAbort{"choice"})
		}
		for k := n - 1; k >= 1; k-- {
			alt := make([]Dec, len(m.trace)+1)
			copy(alt, m.trace)
			alt[len(m.trace)] = Dec{'C', uint64(k)}
			m.e.push(&Work{m.h, alt, m.model})
		}
		m.log('C', 0)
	}
	if label != "" {
		m.choices = append(m.choices, fmt.Sprintf("%s=%d", label, v))
	}
	return v
}

const maxConcretize = 600

func (m *Machine) concretize(t *T) uint64 {
	if t.isConst() {
		return t.v
	}
	for n := 0; n < maxConcretize; n++ {
		var v uint64
		if m.replaying() {
			d := m.trace[m.pos]
			m.pos++
			if d.k != 'V' {
				m.desync("concretize", d)
			}
			v = d.v
		} else {
			got := false
			if m.ev != nil {
				if r := m.ev.Eval(t); r.ok {
					v, got = r.v, true
				}
			}
			if !got {
				r, md := m.query(m.c.tru2())
				if r == Sat && md != nil {
					ev := NewEvaluator(m.c, md)
					if m.model == nil {
						m.setModel(md)
					}
					if q := ev.Eval(t); q.ok {
						v, got = q.v, true
					}
				}
				if !got {
					panic(pathEnd{"cannot concretise"})
				}
			}
			if m.spec > 0 {
				// only acceptable if forced
				canT, canF, _, _ := m.sides(m.c.Eq(t, m.c.BV(t.s, v)))
				if canT && canF {
					panic(specAbort{"concretise"})
				}
			}
			m.log('V', v)
		}
		if m.branch(m.c.Eq(t, m.c.BV(t.s, v))) {
			return v
		}
	}
	panic(stepBound{"concretisation bound"})
}

func (c *Ctx) tru2() *T { return c.tru }

// ---------- symbolic If ----------
func (e *Engine) site(b *ssa.BasicBlock) *siteStat {
	if v, ok := e.sites.Load(b); ok {
		return v.(*siteStat)
	}
	v, _ := e.sites.LoadOrStore(b, &siteStat{})
	return v.(*siteStat)
}

func pureArm(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 12 || len(b.Preds) != 1 || len(b.Succs) != 1 {
		return false
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Jump, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.Extract, *ssa.FieldAddr, *ssa.Store:
		case *ssa.BinOp:
			switch x.Op.String() {
			case "/", "%", "<<", ">>":
				return false
			}
		case *ssa.UnOp:
			if x.Op.String() == "<-" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (fr *Frame) goTo(b *ssa.BasicBlock, t bool) int {
	fr.prev = b
	if t {
		fr.block = b.Succs[0]
	} else {
		fr.block = b.Succs[1]
	}
	return execJump
}

func (fr *Frame) symIf(b *ssa.BasicBlock, c *T, stop int) int {
	m := fr.m
	if m.replaying() {
		d := m.trace[m.pos]
		m.pos++
		switch d.k {
		case 'T':
			m.addPC(c)
			return fr.goTo(b, true)
		case 'F':
			m.addPC(m.c.Not(c))
			return fr.goTo(b, false)
		case 't':
			return fr.goTo(b, true)
		case 'f':
			return fr.goTo(b, false)
		case 'M':
			ok, r := fr.tryMerge(b, c, stop)
			if !ok {
				m.desync("merge", d)
			}
			return r
		}
		m.desync("if", d)
	}
	if m.pcSet[c] {
		m.log('t', 0)
		return fr.goTo(b, true)
	}
	if m.pcSet[m.c.Not(c)] {
		m.log('f', 0)
		return fr.goTo(b, false)
	}
	mayMerge := !m.noMerge && m.preempts >= 0
	st := m.e.site(b)
	if st.fail >= 3 && st.ok < st.fail {
		mayMerge = false
	}
	p := fr.fi.pdom[b.Index]
	if mayMerge && p >= 0 {
		pb := fr.fi.fn.Blocks[p]
		d := true
		for _, s := range b.Succs {
			if s != pb && !(pureArm(s) && s.Succs[0] == pb) {
				d = false
			}
		}
		if d {
			if ok, r := fr.attemptMerge(b, c, stop, st); ok {
				return r
			}
			mayMerge = false
		}
	}
	if mayMerge && st.ok > 0 && !fr.fi.loopIf[b.Index] {
		if ok, r := fr.attemptMerge(b, c, stop, st); ok {
			return r
		}
		mayMerge = false
	}
	canT, canF, mT, mF := m.sides(c)
	if canT && canF && mayMerge {
		if ok, r := fr.attemptMerge(b, c, stop, st); ok {
			return r
		}
	}
	return fr.goTo(b, m.decide(c, canT, canF, mT, mF))
}

func (fr *Frame) attemptMerge(b *ssa.BasicBlock, c *T, stop int, st *siteStat) (bool, int) {
	m := fr.m
	mark := len(m.trace)
	m.log('M', 0)
	ok, r := fr.tryMerge(b, c, stop)
	if ok {
		st.ok++
		if m.spec == 0 {
			m.h.mu.Lock()
			m.h.Merges++
			m.h.mu.Unlock()
		}
		return true, r
	}
	st.fail++
	m.trace = m.trace[:mark]
	m.pos = mark
	return false, 0
}

type armRes struct {
	ok     bool
	writes map[*Value]Value
	order  []*Value
	phis   []Value
	regs   []Value
	result Value
	ret    bool
}

func (fr *Frame) phiVals(p *ssa.BasicBlock) []Value {
	if fr.pending != nil {
		v := fr.pending
		fr.pending = nil
		return v
	}
	var out []Value
	if _, ok := p.Instrs[0].(*ssa.Phi); !ok {
		return []Value{}
	}
	pi := predIndex(p, fr.prev)
	for _, in := range p.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, fr.get(ph.Edges[pi]))
	}
	return out
}

func (fr *Frame) runArm(b, succ *ssa.BasicBlock, cond *T, p int) (res armRes) {
	m := fr.m
	mark := len(m.journal)
	pcMark := len(m.pc)
	savedModel, savedEv := m.model, m.ev
	depth, cur, spec := m.depth, m.cur, m.spec
	savedPos := fr.pos
	defers := len(fr.defers)
	pan := fr.panicking
	if m.spec == 0 {
		m.specSteps = 0
		m.born = map[*Value]int{}
	}
	m.bornSeq++
	seq := m.bornSeq
	m.spec++
	var added []*T
	defer func() {
		r := recover()
		m.spec = spec
		m.pc = m.pc[:pcMark]
		for _, t := range added {
			delete(m.pcSet, t)
		}
		m.model, m.ev = savedModel, savedEv
		m.depth, m.cur = depth, cur
		fr.pos = savedPos
		fr.panicking = pan
		fr.defers = fr.defers[:defers]
		fr.pending = nil
		m.rollback(mark)
		if r != nil {
			res = armRes{}
			switch r.(type) {
			case specAbort, targetPanic, unsupported:
				return
			case pathEnd:
				pe := r.(pathEnd)
				if pe.why == "infeasible" {
					return
				}
			case stepBound:
				return
			}
			panic(r)
		}
	}()
	pc0 := len(m.pc)
	_ = pc0
	// add condition (tracking what is new in pcSet)
	var add func(c *T)
	add = func(c *T) {
		if c.isConst() {
			return
		}
		if c.op == OAnd {
			add(c.a[0])
			add(c.a[1])
			return
		}
		m.pc = append(m.pc, c)
		if !m.pcSet[c] {
			m.pcSet[c] = true
			added = append(added, c)
		}
	}
	if m.evalBool(cond) != 1 {
		m.model, m.ev = nil, nil
	}
	add(cond)
	fr.block, fr.prev, fr.pending = succ, b, nil
	st := fr.run(p)
	if st == armReturn {
		res.ret = true
		res.result = fr.result
	} else {
		res.phis = fr.phiVals(fr.fi.fn.Blocks[p])
		for _, k := range fr.fi.loopRegs[b.Index] {
			res.regs = append(res.regs, fr.env[k])
		}
	}
	res.writes = map[*Value]Value{}
	for i := mark; i < len(m.journal); i++ {
		e := &m.journal[i]
		if e.undo != nil {
			panic(specAbort{"side effect"})
		}
		if bs, ok := m.born[e.addr]; ok && bs >= seq {
			continue
		}
		if _, ok := res.writes[e.addr]; !ok {
			res.order = append(res.order, e.addr)
			res.writes[e.addr] = *e.addr
		}
	}
	res.ok = true
	return
}

func (fr *Frame) tryMerge(b *ssa.BasicBlock, c *T, stop int) (bool, int) {
	m := fr.m
	p := fr.fi.pdom[b.Index]
	if p == -1 && fr.fi.hasDefer {
		return false, 0
	}
	// arms may re-execute blocks that dominate b: registers are restored
	env0 := append([]Value{}, fr.env...)
	A := fr.runArm(b, b.Succs[0], c, p)
	copy(fr.env, env0)
	if !A.ok {
		return false, 0
	}
	B := fr.runArm(b, b.Succs[1], m.c.Not(c), p)
	copy(fr.env, env0)
	if !B.ok || A.ret != B.ret {
		return false, 0
	}
	// merge results
	var phis, regs []Value
	var result Value
	if A.ret {
		v, ok := m.merge(c, A.result, B.result)
		if !ok {
			return false, 0
		}
		result = v
	} else {
		phis = make([]Value, len(A.phis))
		for i := range phis {
			v, ok := m.merge(c, A.phis[i], B.phis[i])
			if !ok {
				return false, 0
			}
			phis[i] = v
		}
		regs = make([]Value, len(A.regs))
		for i := range regs {
			v, ok := m.merge(c, A.regs[i], B.regs[i])
			if !ok {
				return false, 0
			}
			regs[i] = v
		}
	}
	type wr struct {
		a *Value
		v Value
	}
	var ws []wr
	for _, a := range A.order {
		vb, ok := B.writes[a]
		if !ok {
			vb = *a
		}
		v, ok := m.merge(c, A.writes[a], vb)
		if !ok {
			return false, 0
		}
		ws = append(ws, wr{a, v})
	}
	for _, a := range B.order {
		if _, ok := A.writes[a]; ok {
			continue
		}
		v, ok := m.merge(c, *a, B.writes[a])
		if !ok {
			return false, 0
		}
		ws = append(ws, wr{a, v})
	}
	for _, w := range ws {
		m.set(w.a, w.v)
	}
	if A.ret {
		fr.result = result
		return true, execReturn
	}
	for i, k := range fr.fi.loopRegs[b.Index] {
		fr.env[k] = regs[i]
	}
	fr.block = fr.fi.fn.Blocks[p]
	fr.prev = nil
	fr.pending = phis
	return true, execJump
}

// register the slots of a fresh object created during speculation
func (m *Machine) noteBorn(v *Value) {
	if m.spec == 0 {
		return
	}
	m.born[v] = m.bornSeq
	switch x := (*v).(type) {
	case Struct:
		for i := range x {
			m.noteBorn(&x[i])
		}
	case Array:
		for i := range x {
			m.noteBorn(&x[i])
		}
	}
}

// ---------- work queue ----------
func (e *Engine) push(w *Work) {
	atomic.AddInt64(&w.h.Pending, 1)
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop() *Work {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.done {
			return nil
		}
		if n := len(e.queue); n > 0 {
			w := e.queue[n-1]
			e.queue[n-1] = nil
			e.queue = e.queue[:n-1]
			e.active++
			return w
		}
		if e.active == 0 {
			e.done = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) finish(w *Work) {
	if atomic.AddInt64(&w.h.Pending, -1) == 0 {
		w.h.mu.Lock()
		w.h.Wall = time.Since(w.h.start)
		w.h.mu.Unlock()
	}
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.done = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Engine) worker(wg *sync.WaitGroup) {
	defer wg.Done()
	m := NewMachine(e)
	defer m.sol.Close()
	m.resetPath()
	m.runInit()
	for {
		w := e.pop()
		if w == nil {
			break
		}
		m.runPath(w)
		e.finish(w)
	}
	e.statsMu.Lock()
	s := m.sol.Stats
	e.stats.Queries += s.Queries
	e.stats.Sat += s.Sat
	e.stats.Unsat += s.Unsat
	e.stats.Unknown += s.Unknown
	e.stats.OneShot += s.OneShot
	e.stats.Time += s.Time
	if s.MaxTime > e.stats.MaxTime {
		e.stats.MaxTime = s.MaxTime
	}
	e.statsMu.Unlock()
}

func (m *Machine) runPath(w *Work) {
	h := w.h
	if !m.e.deadline.IsZero() && time.Now().After(m.e.deadline) {
		m.e.exhaust.Store(true)
	}
	if !h.Deadline.IsZero() && time.Now().After(h.Deadline) {
		h.stopped.Store(true)
	}
	if h.stopped.Load() || m.e.exhaust.Load() {
		h.mu.Lock()
		h.Incompl["unexplored prefixes (budget or stop)"]++
		h.mu.Unlock()
		return
	}
	m.resetPath()
	m.h = h
	h.mu.Lock()
	if h.start.IsZero() {
		h.start = time.Now()
		// at most half of what is left, unless it is the last one
		if m.e.unstarted.Add(-1) > 0 && !m.e.deadline.IsZero() {
			h.Deadline = h.start.Add(time.Until(m.e.deadline) / 2)
		}
	}
	h.mu.Unlock()
	m.trace = append([]Dec{}, w.trace...)
	if len(w.trace) == 0 && w.model == nil {
		m.setModel(&Model{u: map[string]uint64{}, b: map[string]*big.Int{}})
	} else {
		m.setModel(w.model)
	}
	end := "completed"
	var viol *Violation
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			m.spec = 0
			switch x := r.(type) {
			case pathEnd:
				end = x.why
			case stepBound:
				end = "bound: " + x.why
				viol = m.mkViolation("bound", "execution does not end within the step bound ("+x.why+")", m.where(), nil)
			case unsupported:
				end = "unsupported: " + string(x) + " at " + m.where()
			case targetPanic:
				end = "panic"
				viol = m.mkViolation("panic", "unexpected panic: "+m.show(x.v), x.at, nil)
			case killed:
				end = "killed"
			case violationEnd:
				end = "violation"
				viol = x.v
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(r)
				}
				end = fmt.Sprintf("engine error: %v", r)
			}
		}()
		m.runMain(h.fn)
	}()
	m.killGs()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.Paths++
	h.Ends[endClass(end)]++
	h.Steps += m.steps
	h.Asserts += m.asserts
	if len(m.trace) > h.MaxPath {
		h.MaxPath = len(m.trace)
	}
	if strings.HasPrefix(end, "unsupported") || strings.HasPrefix(end, "engine error") || strings.HasPrefix(end, "time budget") || strings.HasPrefix(end, "cannot") {
		h.Incompl[end]++
	}
	if viol != nil {
		if viol.Kind == "bound" {
			h.Incompl[end]++
		}
		h.Viol = append(h.Viol, viol)
		if len(h.Viol) >= m.e.cfg.MaxViol {
			h.stopped.Store(true)
		}
	}
	if end == "completed" && (len(h.Samples) < m.e.cfg.Samples || (h.Paths%37 == 0 && len(h.Samples) < 4*m.e.cfg.Samples)) && !h.skipVal && !m.hadSched {
		if s := m.mkSample(); s != nil {
			h.Samples = append(h.Samples, s)
		}
	}
}

func endClass(s string) string {
	if i := strings.Index(s, " at "); i >= 0 {
		return s[:i]
	}
	return s
}

type violationEnd struct{ v *Violation }

func (m *Machine) inputValues(md *Model) (map[string]string, []string) {
	ev := NewEvaluator(m.c, md)
	in := map[string]string{}
	var order []string
	for _, r := range m.inputs {
		if r.t == nil {
			in[r.name] = r.kind
			order = append(order, r.name)
			continue
		}
		v := ev.Eval(r.t)
		s := "0"
		if v.ok {
			if v.b != nil {
				s = v.b.String()
			} else {
				s = fmt.Sprintf("%d", v.v)
			}
		}
		in[r.name] = s
		order = append(order, r.name)
	}
	return in, order
}

func (m *Machine) anyModel() *Model {
	if m.model != nil {
		return m.model
	}
	r, md := m.sol.Check(m.pc, m.c.tru, m.e.cfg.HardMS, true)
	if r == Sat {
		return md
	}
	if r == Unknown {
		r, md = m.sol.OneShot(m.pc, m.c.tru, time.Duration(m.e.cfg.HardMS)*time.Millisecond, false)
		if r == Sat {
			return md
		}
	}
	return nil
}

func (m *Machine) mkViolation(kind, msg, at string, md *Model) *Violation {
	if md == nil {
		md = m.anyModel()
	}
	if md == nil {
		return nil // path not shown feasible
	}
	in, order := m.inputValues(md)
	return &Violation{Harness: m.h.Name, Msg: msg, At: at, Kind: kind, Inputs: in, Order: order, Choices: append([]string{}, m.choices...)}
}

func (m *Machine) mkSample() *Sample {
	md := m.model
	if md == nil {
		return nil
	}
	for _, c := range m.pc {
		if m.evalBool(c) != 1 {
			return nil
		}
	}
	in, order := m.inputValues(md)
	s := &Sample{Inputs: in, Order: order}
	ev := NewEvaluator(m.c, md)
	for _, o := range m.obs {
		s.Obs = append(s.Obs, o.label+"="+m.concShow(ev, o.v))
	}
	return s
}

func (m *Machine) concShow(ev *Evaluator, v Value) string {
	switch x := v.(type) {
	case *T:
		r := ev.Eval(x)
		if !r.ok {
			return "?"
		}
		if x.s == SBool {
			return fmt.Sprint(r.v != 0)
		}
		if r.b != nil {
			return r.b.String()
		}
		return fmt.Sprint(r.v)
	case *Str:
		var sb strings.Builder
		for i := 0; i < x.Len(); i++ {
			r := ev.Eval(x.At(m.c, i))
			if !r.ok {
				return "?"
			}
			fmt.Fprintf(&sb, "%02x", r.v)
		}
		return sb.String()
	}
	return "?"
}

// ---------- assertions ----------
func (m *Machine) assertTerm(c *T, msg string, fr *Frame) {
	if m.spec > 0 {
		panic(specAbort{"assert"})
	}
	m.asserts++
	if c.isConst() && c.v != 0 {
		return
	}
	if m.replaying() {
		d := m.trace[m.pos]
		m.pos++
		if d.k != 'S' {
			m.desync("assert", d)
		}
		return
	}
	m.h.mu.Lock()
	m.h.AssertQ++
	m.h.mu.Unlock()
	if d, _ := strconv.Atoi(os.Getenv("GOSYM_PP")); d > 0 {
		fmt.Fprintln(os.Stderr, "assert", msg, c.pp(d))
	}
	n := m.c.Not(c)
	if m.evalBool(c) == 0 && m.model != nil {
		m.fail(msg, m.model)
	}
	if c.isConst() {
		if md := m.anyModel(); md != nil {
			m.fail(msg, md)
		}
		panic(pathEnd{"infeasible"})
	}
	if m.sol.AbsUnsat(m.pc, n, 3*time.Second) {
		m.log('S', 0)
		return
	}
	r, md := m.sol.Check(m.pc, n, m.assertMS(), true)
	if r == Unknown {
		r, md = m.sol.OneShot(m.pc, n, time.Duration(m.e.cfg.HardMS)*time.Millisecond, m.hasFP(n))
	}
	switch r {
	case Sat:
		m.fail(msg, md)
	case Unknown:
		m.h.mu.Lock()
		if len(m.h.Undec) < 20 {
			m.h.Undec = append(m.h.Undec, msg)
		}
		m.h.Incompl["undecided assertion (solver limit): "+msg]++
		m.h.mu.Unlock()
	}
	m.log('S', 0)
}

func (m *Machine) assertMS() int { return 800 }

func (m *Machine) hasFP(t *T) bool {
	seen := map[uint32]bool{}
	var rec func(t *T) bool
	rec = func(t *T) bool {
		if t.s.isFP() {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for i := uint8(0); i < t.n; i++ {
			if rec(t.a[i]) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (m *Machine) fail(msg string, md *Model) {
	v := m.mkViolation("assert", msg, m.where(), md)
	panic(violationEnd{v})
}

func (m *Machine) assume(c *T) {
	if c.isConst() {
		if c.v == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if m.spec > 0 {
		panic(specAbort{"assume"})
	}
	if m.replaying() {
		d := m.trace[m.pos]
		m.pos++
		if d.k != 'A' {
			m.desync("assume", d)
		}
		m.addPC(c)
		return
	}
	if m.evalBool(c) != 1 {
		r, md := m.query(c)
		if r == Unsat {
			panic(pathEnd{"assume"})
		}
		m.setModel(md)
	}
	m.log('A', 0)
	m.addPC(c)
}

// ---------- inputs ----------
func (m *Machine) inputName(base string) string {
	n := m.nameN[base]
	m.nameN[base] = n + 1
	return fmt.Sprintf("%s#%d", base, n)
}

func (m *Machine) newInput(base string, s Sort, kind string) *T {
	nm := m.inputName(base)
	t := m.c.Var(fmt.Sprintf("%s:%d", nm, s), s)
	m.inputs = append(m.inputs, inputRec{nm, t, kind})
	return t
}

func (m *Machine) recordInput(nm string, val string) {
	m.inputs = append(m.inputs, inputRec{nm, nil, val})
}

func sortedKeys[V any](mp map[string]V) []string {
	var ks []string
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = types.Typ
