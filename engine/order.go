package main

// Order reasoning for branch feasibility: when the comparisons already in the
// path condition imply a new comparison (transitively, and through constants),
// the other side of the branch is infeasible and no solver query is needed.
// Assertions never use this; they always go to the solver.

type ordEdge struct {
	u, v   *T
	strict bool // u < v, else u <= v
}

// atomOrd reads t as a comparison. kind is 's' or 'u'; eq and ne give
// equality and disequality.
func atomOrd(t *T) (kind byte, e ordEdge, eq, ne bool, ok bool) {
	neg := false
	for t.op == ONot {
		neg = !neg
		t = t.a[0]
	}
	switch t.op {
	case OSlt, OUlt:
		e = ordEdge{t.a[0], t.a[1], true}
	case OSle, OUle:
		e = ordEdge{t.a[0], t.a[1], false}
	case OEq:
		if !t.a[0].s.isBV() || t.a[0].s > 64 {
			return
		}
		return 0, ordEdge{t.a[0], t.a[1], false}, !neg, neg, true
	default:
		return
	}
	if !t.a[0].s.isBV() || t.a[0].s > 64 {
		return
	}
	if neg {
		e = ordEdge{e.v, e.u, !e.strict}
	}
	kind = 's'
	if t.op == OUlt || t.op == OUle {
		kind = 'u'
	}
	return kind, e, false, false, true
}

func constLess(a, b *T, kind byte) (less, same bool) {
	if kind == 'u' {
		return a.v < b.v, a.v == b.v
	}
	sh := 64 - uint(a.s)
	x, y := int64(a.v<<sh)>>sh, int64(b.v<<sh)>>sh
	return x < y, x == y
}

// orderDecides reports whether the path condition implies c (1) or its
// negation (0), as far as comparisons alone can tell; otherwise -1.
func (m *Machine) orderDecides(c *T) int {
	kind, q, eq, ne, ok := atomOrd(c)
	if !ok {
		return -1
	}
	if !eq && !ne {
		return m.orderCmp(kind, q)
	}
	// equality: refuted by a strict order either way, implied by both weak ones
	for _, k := range []byte{'s', 'u'} {
		lt := m.orderCmp(k, ordEdge{q.u, q.v, true})
		gt := m.orderCmp(k, ordEdge{q.v, q.u, true})
		r := -1
		if lt == 1 || gt == 1 {
			r = 0
		} else if lt == 0 && gt == 0 {
			r = 1
		}
		if r >= 0 {
			if ne {
				r = 1 - r
			}
			return r
		}
	}
	return -1
}

func (m *Machine) orderCmp(kind byte, q ordEdge) int {
	// q: u < v or u <= v
	switch m.orderReach(kind, q.u, q.v) {
	case 2:
		return 1
	case 1:
		if !q.strict {
			return 1
		}
	}
	switch m.orderReach(kind, q.v, q.u) {
	case 2: // v < u
		return 0
	case 1: // v <= u
		if q.strict {
			return 0
		}
	}
	return -1
}

// orderReach: 2 when a < b is implied, 1 when a <= b is, 0 unknown.
func (m *Machine) orderReach(kind byte, a, b *T) int {
	if a == b {
		return 1
	}
	if len(m.pc) > 400 {
		return 0
	}
	var edges []ordEdge
	var nes []ordEdge
	consts := []*T{}
	addC := func(t *T) {
		if t.op == OConst {
			consts = append(consts, t)
		}
	}
	addC(a)
	addC(b)
	for _, p := range m.pc {
		k, e, eq, ne, ok := atomOrd(p)
		if !ok || e.u.s != a.s {
			continue
		}
		switch {
		case eq:
			edges = append(edges, ordEdge{e.u, e.v, false}, ordEdge{e.v, e.u, false})
		case ne:
			nes = append(nes, e)
		case k == kind:
			edges = append(edges, e)
		default:
			continue
		}
		addC(e.u)
		addC(e.v)
	}
	if len(edges) == 0 {
		return 0
	}
	for i := range edges {
		e := &edges[i]
		if !e.strict {
			for _, n := range nes {
				if n.u == e.u && n.v == e.v || n.u == e.v && n.v == e.u {
					e.strict = true
				}
			}
		}
	}
	best := map[*T]int{a: 1}
	work := []*T{a}
	step := func(t *T, s int) {
		if best[t] < s {
			best[t] = s
			work = append(work, t)
		}
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		s := best[t]
		for _, e := range edges {
			if e.u == t {
				n := s
				if e.strict {
					n = 2
				}
				step(e.v, n)
			}
		}
		if t.op == OConst {
			for _, d := range consts {
				if d == t {
					continue
				}
				less, same := constLess(t, d, kind)
				if less {
					step(d, 2)
				} else if same {
					step(d, s)
				}
			}
		}
		if best[b] == 2 {
			return 2
		}
	}
	return best[b]
}
