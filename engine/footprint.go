package main

import "strings"

// writes runs the function value f and reports whether it writes a memory cell
// reachable from its captured variables or a global of gost, or synchronises.
func (m *Machine) writes(caller *Frame, f Value) bool {
	old := &reach{cells: map[*Value]bool{}, objs: map[any]bool{}}
	old.value(f)
	for g, p := range m.globals {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), gostPath) {
			old.cell(p)
		}
	}
	mark, syncs, gs := len(m.journal), m.syncs, len(m.gs)
	m.call(caller, f, nil)
	if m.syncs != syncs || len(m.gs) != gs {
		return true
	}
	for i := mark; i < len(m.journal); i++ {
		e := &m.journal[i]
		if e.undo == nil && old.cells[e.addr] || e.obj != nil && old.objs[e.obj] {
			return true
		}
	}
	return false
}

// reach is what can be reached from some values.
type reach struct {
	cells map[*Value]bool
	objs  map[any]bool
	depth int
}

func (r *reach) cell(p *Value) {
	if p == nil || r.cells[p] {
		return
	}
	r.cells[p] = true
	r.value(*p)
}

func (r *reach) cells1(s []Value) {
	for i := range s {
		r.cell(&s[i])
	}
}

func (r *reach) value(v Value) {
	switch x := v.(type) {
	case *Value:
		r.cell(x)
	case Struct:
		r.cells1(x)
	case Array:
		r.cells1(x)
	case Slice:
		r.cells1(x[:cap(x)])
	case Tuple:
		r.cells1(x)
	case *SymElem:
		r.cells1(x.base)
	case Iface:
		r.value(x.v)
	case UPtr:
		r.value(x.v)
	case *Closure:
		if x == nil || r.objs[x] {
			return
		}
		r.objs[x] = true
		r.cells1(x.env)
	case *MapV:
		if x == nil || r.objs[x] {
			return
		}
		r.objs[x] = true
		for _, e := range x.ents {
			r.value(e.k)
			r.cell(&e.v)
		}
	}
}
