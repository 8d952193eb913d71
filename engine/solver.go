package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	OneShot                      int
	Time                         time.Duration
	MaxTime                      time.Duration
	CrossChecked, CrossAgree     int
}

type Solver struct {
	c        *Ctx
	bin      string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	buf      bytes.Buffer
	stack    []*T // asserted path condition, one push level each
	defined  map[uint32]bool
	declared map[string]bool
	ndefs    int
	Stats    SolverStats
	TimeMS   int
	dead     bool
	curMS    int
	crossN   int // cross-check every n-th query (0 = never)
	onCross  func(script string, r SatRes)
}

func NewSolver(c *Ctx, bin string, timeMS int) *Solver {
	s := &Solver{c: c, bin: bin, TimeMS: timeMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.bin, err))
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.defined = map[uint32]bool{}
	s.declared = map[string]bool{}
	s.stack = nil
	s.ndefs = 0
	s.curMS = 0
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// emit definitions so that t can be referenced by ref(t)
func (s *Solver) define(t *T) string {
	return defineInto(s.c, &s.buf, s.defined, s.declared, &s.ndefs, t)
}

func refOf(t *T) string {
	if t.op == OConst {
		return t.constSMT()
	}
	if t.op == OVar {
		return "|" + t.name + "|"
	}
	return "d" + strconv.Itoa(int(t.id))
}

func defineInto(c *Ctx, buf *bytes.Buffer, defined map[uint32]bool, declared map[string]bool, nd *int, t *T) string {
	if t.op == OConst {
		return t.constSMT()
	}
	if t.op == OVar {
		if !declared[t.name] {
			declared[t.name] = true
			fmt.Fprintf(buf, "(declare-const |%s| %s)\n", t.name, t.s.smt())
		}
		return refOf(t)
	}
	if defined[t.id] {
		return refOf(t)
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *T
		i uint8
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || defined[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.t.op == OVar {
			defineInto(c, buf, defined, declared, nd, f.t)
			st = st[:len(st)-1]
			continue
		}
		if f.i < f.t.n {
			a := f.t.a[f.i]
			f.i++
			if a.op != OConst && !(a.op != OVar && defined[a.id]) {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		if x.op == OUF && !declared["\x00uf"+x.name] {
			declared["\x00uf"+x.name] = true
			sg := c.ufs[x.name]
			var as []string
			for _, q := range sg[:len(sg)-1] {
				as = append(as, q.smt())
			}
			fmt.Fprintf(buf, "(declare-fun |%s| (%s) %s)\n", x.name, strings.Join(as, " "), sg[len(sg)-1].smt())
		}
		fmt.Fprintf(buf, "(define-fun d%d () %s %s)\n", x.id, x.s.smt(), x.smtNode(refOf))
		defined[x.id] = true
		*nd++
		st = st[:len(st)-1]
	}
	return refOf(t)
}

// align the assertion stack with pc
func (s *Solver) SetPath(pc []*T) {
	if s.ndefs > 400000 {
		s.restart()
	}
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		r := s.define(t)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) flush() error {
	_, err := s.in.Write(s.buf.Bytes())
	s.buf.Reset()
	return err
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if l = strings.TrimSpace(l); l != "" || err != nil {
			return l, err
		}
	}
}

// Check sat of pc /\ extra. Returns model when sat.
func (s *Solver) Check(pc []*T, extra *T, timeMS int, wantModel bool) (SatRes, *Model) {
	t0 := time.Now()
	s.Stats.Queries++
	r, m := s.check(pc, extra, timeMS, wantModel)
	d := time.Since(t0)
	s.Stats.Time += d
	if d > s.Stats.MaxTime {
		s.Stats.MaxTime = d
	}
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return r, m
}

func (s *Solver) check(pc []*T, extra *T, timeMS int, wantModel bool) (SatRes, *Model) {
	if timeMS <= 0 {
		timeMS = s.TimeMS
	}
	s.SetPath(pc)
	ref := s.define(extra)
	if timeMS != s.curMS {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", timeMS)
		s.curMS = timeMS
	}
	fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n(check-sat)\n", ref)
	proc := s.cmd.Process
	timer := time.AfterFunc(time.Duration(timeMS)*time.Millisecond*2+3*time.Second, func() { proc.Kill() })
	defer timer.Stop()
	if err := s.flush(); err != nil {
		s.restart()
		return Unknown, nil
	}
	l, err := s.readLine()
	if err != nil {
		s.restart()
		return Unknown, nil
	}
	res := Unknown
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown":
	default:
		fmt.Fprintf(os.Stderr, "solver said: %s\n", l)
		s.restart()
		return Unknown, nil
	}
	var m *Model
	if res == Sat && wantModel {
		m, err = s.getModel()
		if err != nil {
			fmt.Fprintf(os.Stderr, "model: %v\n", err)
			s.restart()
			return Unknown, nil
		}
	}
	s.buf.WriteString("(pop 1)\n")
	return res, m
}

func (s *Solver) getModel() (*Model, error) {
	m := &Model{u: map[string]uint64{}, b: map[string]*big.Int{}}
	var names []*T
	for _, v := range s.c.vars {
		if s.declared[v.name] {
			names = append(names, v)
		}
	}
	if len(names) == 0 {
		return m, nil
	}
	s.buf.WriteString("(get-value (")
	for _, v := range names {
		s.buf.WriteString(" |" + v.name + "|")
	}
	s.buf.WriteString("))\n")
	if err := s.flush(); err != nil {
		return nil, err
	}
	txt, err := readSexp(s.out)
	if err != nil {
		return nil, err
	}
	return m, parseModel(txt, names, m)
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if inBar {
			if b == '|' {
				inBar = false
			}
			continue
		}
		switch b {
		case '|':
			inBar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseModel(txt string, names []*T, m *Model) error {
	i := 0
	n := len(txt)
	skip := func() {
		for i < n && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
	}
	tok := func() string {
		skip()
		st := i
		if i < n && txt[i] == '|' {
			i++
			for txt[i] != '|' {
				i++
			}
			i++
			return txt[st+1 : i-1]
		}
		if txt[i] == '(' {
			d := 0
			for {
				if txt[i] == '(' {
					d++
				}
				if txt[i] == ')' {
					d--
				}
				i++
				if d == 0 {
					return txt[st:i]
				}
			}
		}
		for i < n && txt[i] != ' ' && txt[i] != ')' && txt[i] != '\n' {
			i++
		}
		return txt[st:i]
	}
	skip()
	if i >= n || txt[i] != '(' || strings.HasPrefix(txt, "(error") {
		return fmt.Errorf("bad model %q", txt)
	}
	i++
	srt := map[string]Sort{}
	for _, v := range names {
		srt[v.name] = v.s
	}
	for {
		skip()
		if txt[i] == ')' {
			return nil
		}
		i++ // (
		nm := tok()
		val := tok()
		skip()
		i++ // )
		switch {
		case val == "true":
			m.u[nm] = 1
		case val == "false":
			m.u[nm] = 0
		case strings.HasPrefix(val, "#x"), strings.HasPrefix(val, "#b"):
			base := 16
			if val[1] == 'b' {
				base = 2
			}
			b, _ := new(big.Int).SetString(val[2:], base)
			if srt[nm] > 64 {
				m.b[nm] = b
			} else {
				m.u[nm] = b.Uint64()
			}
		default:
			return fmt.Errorf("bad value %s = %s", nm, val)
		}
	}
}

// Script renders pc /\ extra as a standalone SMT-LIB script.
func Script(c *Ctx, pc []*T, extra *T) (string, []*T) {
	var buf bytes.Buffer
	def, dec, nd := map[uint32]bool{}, map[string]bool{}, 0
	var as []string
	for _, t := range append(append([]*T{}, pc...), extra) {
		as = append(as, defineInto(c, &buf, def, dec, &nd, t))
	}
	for _, a := range as {
		fmt.Fprintf(&buf, "(assert %s)\n", a)
	}
	var vs []*T
	for _, v := range c.vars {
		if dec[v.name] {
			vs = append(vs, v)
		}
	}
	return buf.String(), vs
}

// OneShot runs a portfolio of fresh solver processes on pc /\ extra.
func (s *Solver) OneShot(pc []*T, extra *T, timeout time.Duration, fp bool) (SatRes, *Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.Stats.OneShot++
	body, vars := Script(s.c, pc, extra)
	gv := ""
	if len(vars) > 0 {
		gv = "(get-value ("
		for _, v := range vars {
			gv += " |" + v.name + "|"
		}
		gv += "))\n"
	}
	type job struct {
		name   string
		args   []string
		script string
	}
	pre := "(set-option :produce-models true)\n"
	jobs := []job{
		{"z3-new", []string{"-in", "-smt2"}, pre + body + "(check-sat)\n" + gv},
		{"z3", []string{"-in", "-smt2"}, pre + body + "(check-sat)\n" + gv},
		{"cvc5", []string{"--lang=smt2", "--produce-models"}, "(set-logic ALL)\n" + body + "(check-sat)\n" + gv},
	}
	if !fp {
		jobs = append(jobs, job{"cvc5", []string{"--lang=smt2", "--produce-models", "--solve-bv-as-int=sum"}, "(set-logic ALL)\n" + body + "(check-sat)\n" + gv})
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type res struct {
		r SatRes
		m *Model
		j int
	}
	ch := make(chan res, len(jobs))
	var wg sync.WaitGroup
	for ji, j := range jobs {
		wg.Add(1)
		go func(ji int, j job) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, j.name, j.args...)
			cmd.Stdin = strings.NewReader(j.script)
			out, _ := cmd.Output()
			o := string(out)
			first, rest, _ := strings.Cut(o, "\n")
			switch strings.TrimSpace(first) {
			case "unsat":
				ch <- res{Unsat, nil, ji}
			case "sat":
				m := &Model{u: map[string]uint64{}, b: map[string]*big.Int{}}
				if len(vars) > 0 {
					if err := parseModel(strings.TrimSpace(rest), vars, m); err != nil {
						ch <- res{Unknown, nil, ji}
						return
					}
				}
				ch <- res{Sat, m, ji}
			default:
				ch <- res{Unknown, nil, ji}
			}
		}(ji, j)
	}
	out := res{Unknown, nil, -1}
	for range jobs {
		r := <-ch
		if r.r != Unknown {
			out = r
			break
		}
	}
	cancel()
	go wg.Wait()
	if os.Getenv("GOSYM_HARD") != "" {
		w := "none"
		if out.j >= 0 {
			w = jobs[out.j].name + fmt.Sprint(jobs[out.j].args)
		}
		fmt.Fprintf(os.Stderr, "hard: %v by %s in %v\n", out.r, w, time.Since(t0))
	}
	return out.r, out.m
}
