package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cooperative scheduler: exactly one goroutine of the program under analysis
// runs at a time; every switch is a choice of the explored path.

type G struct {
	id      int
	resume  chan struct{}
	done    bool
	block   func() bool // nil: runnable; else runnable when it returns true
	yielded bool
	cur     *Frame
	depth   int
	exited  chan struct{}
}

type syncState struct {
	locked  bool
	readers int
	wwait   int
	n       int64
	onceRun bool
	waiters []*G
}

func (m *Machine) noSpec(what string) {
	if m.spec > 0 {
		panic(specAbort{what})
	}
}

func (m *Machine) runMain(fn *ssa.Function) {
	g := &G{id: 0, resume: make(chan struct{})}
	m.gs = []*G{g}
	m.curG = g
	m.callFn(nil, fn, nil, nil)
	g.done = true
}

func (m *Machine) spawn(fn Value, args []Value) {
	m.noSpec("go")
	if len(m.gs) > 64 {
		panic(unsupported("too many goroutines"))
	}
	g := &G{id: len(m.gs), resume: make(chan struct{}), exited: make(chan struct{})}
	m.gs = append(m.gs, g)
	m.hadSched = true
	go func() {
		defer close(g.exited)
		<-g.resume
		if m.kill {
			return
		}
		defer func() {
			r := recover()
			if _, ok := r.(killed); ok || m.kill {
				return
			}
			if r != nil {
				m.fatal = r
				m.handTo(m.gs[0])
				return
			}
			g.done = true
			m.finishG()
		}()
		m.cur, m.depth = nil, 0
		if b, ok := fn.(*ssa.Builtin); ok {
			m.builtin(nil, b, args, nil)
		} else {
			m.call(nil, fn, args)
		}
	}()
	m.schedPoint()
}

// give control to g and return (the caller must not touch the machine afterwards)
func (m *Machine) handTo(g *G) {
	m.curG = g
	m.cur, m.depth = g.cur, g.depth
	g.resume <- struct{}{}
}

// the current goroutine has ended: pick another
func (m *Machine) finishG() {
	defer func() {
		if r := recover(); r != nil {
			m.fatal = r
			m.handTo(m.gs[0])
		}
	}()
	next := m.pick(nil)
	m.handTo(next)
}

func (m *Machine) switchTo(g *G) {
	me := m.curG
	if g == me {
		return
	}
	me.cur, me.depth = m.cur, m.depth
	m.curG = g
	m.cur, m.depth = g.cur, g.depth
	g.resume <- struct{}{}
	<-me.resume
	if m.kill {
		panic(killed{})
	}
	m.curG = me
	m.cur, m.depth = me.cur, me.depth
	if me.id == 0 && m.fatal != nil {
		f := m.fatal
		m.fatal = nil
		panic(f)
	}
}

func (m *Machine) runnable(g *G) bool {
	if g.done {
		return false
	}
	return g.block == nil || g.block()
}

// choose a runnable goroutine other than `not`; panics with a deadlock if none.
func (m *Machine) pick(not *G) *G {
	var rs []*G
	for _, g := range m.gs {
		if g != not && m.runnable(g) {
			rs = append(rs, g)
		}
	}
	// goroutines that voluntarily yielded only run again when nothing else can
	var fresh []*G
	for _, g := range rs {
		if !g.yielded {
			fresh = append(fresh, g)
		}
	}
	if len(fresh) > 0 {
		rs = fresh
	} else {
		for _, g := range rs {
			g.yielded = false
		}
	}
	if len(rs) == 0 {
		m.deadlock()
	}
	k := m.choose(len(rs), "sched")
	return rs[k]
}

func (m *Machine) deadlock() {
	at := ""
	if m.cur != nil {
		at = m.where()
	}
	panic(violationEnd{m.mkViolation("deadlock", "all goroutines are blocked", at, nil)})
}

// a point where the scheduler may preempt the current goroutine
func (m *Machine) schedPoint() {
	if len(m.gs) < 2 || m.preempts >= m.maxPreempt {
		return
	}
	var rs []*G
	for _, g := range m.gs {
		if g != m.curG && m.runnable(g) && !g.yielded {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		return
	}
	k := m.choose(len(rs)+1, "preempt")
	if k == 0 {
		return
	}
	m.preempts++
	m.switchTo(rs[k-1])
}

// voluntary yield (Sleep, Gosched)
func (m *Machine) yieldG() {
	m.noSpec("yield")
	if len(m.gs) < 2 {
		return
	}
	me := m.curG
	me.yielded = true
	any := false
	for _, g := range m.gs {
		if g != me && m.runnable(g) {
			any = true
		}
	}
	if !any {
		me.yielded = false
		return
	}
	g := m.pick(me)
	m.switchTo(g)
	me.yielded = false
}

// run everybody else until they are done or blocked
func (m *Machine) quiesce() {
	m.noSpec("quiesce")
	me := m.curG
	me.block = func() bool {
		for _, g := range m.gs {
			if g != me && m.runnable(g) {
				return false
			}
		}
		return true
	}
	if !me.block() {
		m.switchTo(m.pick(me))
		for !me.block() {
			m.switchTo(m.pick(me))
		}
	}
	me.block = nil
}

func (m *Machine) blockUntil(cond func() bool) {
	m.noSpec("block")
	if cond() {
		return
	}
	me := m.curG
	me.block = cond
	for !cond() {
		g := m.pick(me)
		m.switchTo(g)
	}
	me.block = nil
}

func (m *Machine) killGs() {
	m.kill = true
	for _, g := range m.gs {
		if g.id == 0 || g.exited == nil {
			continue
		}
		select {
		case <-g.exited:
			continue
		default:
		}
		select {
		case g.resume <- struct{}{}:
		case <-g.exited:
		}
		<-g.exited
	}
	m.kill = false
	m.gs = nil
}

// ---------- channels ----------
func (m *Machine) chanSend(cv Value, v Value) {
	m.noSpec("chan")
	m.hadSched = true
	ch := cv.(*ChanV)
	if ch == nil {
		m.blockUntil(func() bool { return false })
	}
	m.schedPoint()
	if ch.closed {
		panic(targetPanic{v: Iface{types.Typ[types.String], mkStr("send on closed channel")}, rt: "send on closed channel", at: m.where()})
	}
	if len(ch.sendq) == 0 && len(ch.buf) < ch.cap {
		ch.buf = append(append([]Value{}, ch.buf...), copyVal(v))
		return
	}
	sr := &sendReq{v: copyVal(v)}
	ch.sendq = append(ch.sendq, sr)
	m.blockUntil(func() bool { return sr.done || ch.closed })
	if !sr.done {
		panic(targetPanic{v: Iface{types.Typ[types.String], mkStr("send on closed channel")}, rt: "send on closed channel", at: m.where()})
	}
	m.schedPoint()
}

// try to receive without blocking: value, received?, ready?
func (ch *ChanV) tryRecv() (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		if len(ch.sendq) > 0 {
			s := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			s.done = true
			ch.buf = append(ch.buf, s.v)
		}
		return v, true, true
	}
	if len(ch.sendq) > 0 {
		s := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		s.done = true
		return s.v, true, true
	}
	if ch.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (ch *ChanV) recvReady() bool { return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed }

func (m *Machine) chanRecv(cv Value) (Value, bool) {
	m.noSpec("chan")
	m.hadSched = true
	ch := cv.(*ChanV)
	if ch == nil {
		m.blockUntil(func() bool { return false })
	}
	m.schedPoint()
	ch.recvWaiting++
	m.blockUntil(ch.recvReady)
	ch.recvWaiting--
	v, ok, _ := ch.tryRecv()
	return v, ok
}

func (m *Machine) chanClose(cv Value) {
	m.noSpec("chan")
	m.hadSched = true
	ch := cv.(*ChanV)
	if ch == nil {
		m.rtPanic("close of nil channel")
	}
	m.schedPoint()
	if ch.closed {
		panic(targetPanic{v: Iface{types.Typ[types.String], mkStr("close of closed channel")}, rt: "close of closed channel", at: m.where()})
	}
	ch.closed = true
}

func (m *Machine) doSelect(fr *Frame, x *ssa.Select) Value {
	m.noSpec("select")
	m.hadSched = true
	m.schedPoint()
	type st struct {
		ch  *ChanV
		dir types.ChanDir
		v   Value
	}
	var ss []st
	for _, s := range x.States {
		ch, _ := fr.get(s.Chan).(*ChanV)
		q := st{ch: ch, dir: s.Dir}
		if s.Send != nil {
			q.v = fr.get(s.Send)
		}
		ss = append(ss, q)
	}
	ready := func() []int {
		var r []int
		for i, s := range ss {
			if s.ch == nil {
				continue
			}
			if s.dir == types.RecvOnly {
				if s.ch.recvReady() {
					r = append(r, i)
				}
			} else if s.ch.closed || len(s.ch.buf) < s.ch.cap || (s.ch.cap == 0 && s.ch.recvWaiting > 0 && len(s.ch.sendq) == 0) {
				r = append(r, i)
			}
		}
		return r
	}
	var nrecv int
	for _, s := range ss {
		if s.dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(idx int, recvOK bool, val Value) Value {
		t := Tuple{m.c.BV(64, uint64(int64(idx))), m.c.Bool(recvOK)}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				et := under(s.Chan.Type()).(*types.Chan).Elem()
				if i == idx && recvOK {
					t = append(t, val)
				} else {
					t = append(t, m.zero(et))
				}
			}
		}
		return t
	}
	r := ready()
	if len(r) == 0 {
		if !x.Blocking {
			return mk(-1, false, nil)
		}
		for _, s := range ss {
			if s.ch != nil && s.dir == types.RecvOnly {
				s.ch.recvWaiting++
			}
		}
		m.blockUntil(func() bool { return len(ready()) > 0 })
		for _, s := range ss {
			if s.ch != nil && s.dir == types.RecvOnly {
				s.ch.recvWaiting--
			}
		}
		r = ready()
	}
	i := r[m.choose(len(r), "select")]
	s := ss[i]
	if s.dir == types.RecvOnly {
		v, ok, _ := s.ch.tryRecv()
		return mk(i, ok, v)
	}
	m.chanSend(s.ch, s.v)
	return mk(i, false, nil)
}

// ---------- sync ----------
func (m *Machine) syncOf(p Value) *syncState {
	m.noSpec("sync")
	m.hadSched = true
	m.syncs++
	if q, ok := p.(*Value); ok && q == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := m.sync[p]
	if s == nil {
		s = &syncState{}
		m.sync[p] = s
	}
	return s
}

func (m *Machine) fatalErr(msg string) {
	panic(targetPanic{v: Iface{types.Typ[types.String], mkStr("fatal error: " + msg)}, rt: msg, at: m.where()})
}

func syncIntrinsic(name string) intrinsicFn {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.syncOf(args[0])
			m.schedPoint()
			s.wwait++
			m.blockUntil(func() bool { return !s.locked && s.readers == 0 })
			s.wwait--
			s.locked = true
			m.schedPoint()
			return nil, true
		}
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.syncOf(args[0])
			m.schedPoint()
			if s.locked || s.readers > 0 {
				return m.c.fls, true
			}
			s.locked = true
			return m.c.tru, true
		}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.syncOf(args[0])
			m.schedPoint()
			if !s.locked {
				m.fatalErr("sync: unlock of unlocked mutex")
			}
			s.locked = false
			m.schedPoint()
			return nil, true
		}
	case "(*sync.RWMutex).RLock":
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.syncOf(args[0])
			m.schedPoint()
			m.blockUntil(func() bool { return !s.locked && s.wwait == 0 })
			s.readers++
			return nil, true
		}
	case "(*sync.RWMutex).TryRLock":
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.syncOf(args[0])
			m.schedPoint()
			if s.locked || s.wwait > 0 {
				return m.c.fls, true
			}
			s.readers++
			return m.c.tru, true
		}
	case "(*sync.RWMutex).RUnlock":
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.syncOf(args[0])
			m.schedPoint()
			if s.readers == 0 {
				m.fatalErr("sync: RUnlock of unlocked RWMutex")
			}
			s.readers--
			return nil, true
		}
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
		done := name == "(*sync.WaitGroup).Done"
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.syncOf(args[0])
			m.schedPoint()
			d := int64(-1)
			if !done {
				d = int64(m.concInt(args[1], types.Typ[types.Int]))
			}
			s.n += d
			if s.n < 0 {
				m.fatalErr("sync: negative WaitGroup counter")
			}
			return nil, true
		}
	case "(*sync.WaitGroup).Wait":
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.syncOf(args[0])
			m.schedPoint()
			m.blockUntil(func() bool { return s.n == 0 })
			return nil, true
		}
	case "(*sync.WaitGroup).Go":
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.syncOf(args[0])
			s.n++
			f := args[1]
			m.spawn(&nativeFn{func([]Value) Value {
				m.call(nil, f, nil)
				s.n--
				return nil
			}}, nil)
			return nil, true
		}
	case "(*sync.Once).Do":
		return func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) (Value, bool) {
			if m.inInit > 0 { // package initialisation: single threaded
				m.call(caller, args[1], nil)
				return nil, true
			}
			s := m.syncOf(args[0])
			m.schedPoint()
			if s.onceRun {
				m.blockUntil(func() bool { return !s.locked })
				return nil, true
			}
			s.onceRun = true
			s.locked = true
			func() {
				defer func() { s.locked = false }()
				m.call(caller, args[1], nil)
			}()
			return nil, true
		}
	}
	return nil
}

// atomics: sequentially consistent single steps
func atomicIntrinsic(pkgFn string) intrinsicFn {
	load := func(m *Machine, c *Frame, fn *ssa.Function, args []Value) (Value, bool) {
		m.atomicPoint()
		return m.load(args[0]), true
	}
	store := func(m *Machine, c *Frame, fn *ssa.Function, args []Value) (Value, bool) {
		m.atomicPoint()
		m.store(args[0], args[1])
		return nil, true
	}
	add := func(m *Machine, c *Frame, fn *ssa.Function, args []Value) (Value, bool) {
		m.atomicPoint()
		v := m.c.Add(m.load(args[0]).(*T), args[1].(*T))
		m.store(args[0], v)
		return v, true
	}
	swap := func(m *Machine, c *Frame, fn *ssa.Function, args []Value) (Value, bool) {
		m.atomicPoint()
		v := m.load(args[0])
		m.store(args[0], args[1])
		return v, true
	}
	cas := func(m *Machine, c *Frame, fn *ssa.Function, args []Value) (Value, bool) {
		m.atomicPoint()
		v := m.load(args[0])
		if m.branch(m.eq(v, args[1])) {
			m.store(args[0], args[2])
			return m.c.tru, true
		}
		return m.c.fls, true
	}
	for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			switch pkgFn {
			case p + "Load" + t:
				return load
			case p + "Store" + t:
				return store
			case p + "Add" + t:
				return add
			case p + "Swap" + t:
				return swap
			case p + "CompareAndSwap" + t:
				return cas
			}
		}
	}
	return nil
}

func (m *Machine) atomicPoint() {
	if m.inInit > 0 {
		return
	}
	m.noSpec("atomic")
	m.hadSched = true
	m.syncs++
	m.schedPoint()
}

var _ = fmt.Sprint
