package main

import (
	"context"
	"os/exec"
	"strings"
	"time"
)

// Wide divisions and products make bit-blasting hopeless, yet most assertions
// about them only need that equal operands give equal results. absWide replaces
// each by a fresh variable and records what division guarantees; a formula
// unsatisfiable after that is unsatisfiable. Nothing is concluded otherwise.
type absWide struct {
	c      *Ctx
	memo   map[*T]*T
	lemmas []*T
	n      int
}

func isWideOp(t *T) bool {
	return (t.op == OUDiv || t.op == OURem || t.op == OMul && !t.a[1].isConst() && !t.a[0].isConst()) && t.s >= 32
}

// hasWide reports whether t contains such an operation.
func (c *Ctx) hasWide(t *T) bool {
	if t.n == 0 {
		return false
	}
	if r, ok := c.wideMemo[t.id]; ok {
		return r
	}
	r := isWideOp(t)
	for i := 0; i < int(t.n) && !r; i++ {
		r = c.hasWide(t.a[i])
	}
	c.wideMemo[t.id] = r
	return r
}

func (w *absWide) do(t *T) *T {
	if !w.c.hasWide(t) {
		return t
	}
	if r, ok := w.memo[t]; ok {
		return r
	}
	var x [3]*T
	ch := false
	for i := 0; i < int(t.n); i++ {
		x[i] = w.do(t.a[i])
		ch = ch || x[i] != t.a[i]
	}
	r := t
	if ch {
		r = w.c.rebuild(t, x)
	}
	if isWideOp(r) {
		r = w.fresh(r)
	}
	w.memo[t] = r
	return r
}

func (w *absWide) fresh(t *T) *T {
	if r, ok := w.memo[t]; ok {
		return r
	}
	c := w.c
	v := c.mk(OVar, t.s, 0, nil, nil, nil, "abs!"+itoa64(uint64(t.id)))
	w.memo[t] = v
	w.n++
	a, b := t.a[0], t.a[1]
	nz := c.Not(c.Eq(b, c.BV(b.s, 0)))
	switch t.op {
	case OUDiv:
		w.lemmas = append(w.lemmas,
			c.Or(c.Not(c.Ult(a, b)), c.Eq(v, c.BV(t.s, 0))),
			c.Or(c.Not(nz), c.Ule(v, a)),
			c.Or(c.Not(nz), c.Or(c.Ult(a, b), c.Not(c.Eq(v, c.BV(t.s, 0))))),
			c.Or(c.Not(c.Eq(b, c.BV(t.s, 1))), c.Eq(v, a)))
	case OURem:
		w.lemmas = append(w.lemmas,
			c.Or(c.Not(c.Ult(a, b)), c.Eq(v, a)),
			c.Or(c.Not(nz), c.Ult(v, b)),
			c.Ule(v, a))
	case OMul:
		z := c.BV(t.s, 0)
		w.lemmas = append(w.lemmas,
			c.Or(c.Not(c.Eq(a, z)), c.Eq(v, z)),
			c.Or(c.Not(c.Eq(b, z)), c.Eq(v, z)))
	}
	return v
}

func itoa64(v uint64) string {
	s := ""
	for {
		s = string(rune('0'+v%10)) + s
		v /= 10
		if v == 0 {
			return s
		}
	}
}

// AbsUnsat reports that pc /\ extra is unsatisfiable even with wide operations
// left open.
func (s *Solver) AbsUnsat(pc []*T, extra *T, timeout time.Duration) bool {
	c := s.c
	wide := c.hasWide(extra)
	for _, p := range pc {
		wide = wide || c.hasWide(p)
	}
	if !wide {
		return false
	}
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	w := &absWide{c: c, memo: map[*T]*T{}}
	var q []*T
	for _, p := range pc {
		q = append(q, w.do(p))
	}
	e := w.do(extra)
	if e.isConst() && e.v == 0 {
		return true
	}
	q = append(q, w.lemmas...)
	body, _ := Script(c, q, e)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-smt2")
	cmd.Stdin = strings.NewReader(body + "(check-sat)\n")
	out, _ := cmd.Output()
	s.Stats.Queries++
	if strings.HasPrefix(strings.TrimSpace(string(out)), "unsat") {
		s.Stats.Unsat++
		return true
	}
	s.Stats.Unknown++
	return false
}
