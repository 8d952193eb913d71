// gosym: bounded symbolic execution of Go SSA with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"go/ast"
	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fVerif   = flag.String("verif", "/verif", "verif directory")
	fOnly    = flag.String("only", "", "regexp of harness names")
	fVerbose = flag.Bool("v", false, "verbose")
	fBudget  = flag.Duration("budget", 0, "time budget of the exploration")
	fNoNat   = flag.Bool("nonative", false, "skip native replay")
	fWorkers = flag.Int("workers", 8, "workers")
	fList    = flag.Bool("list", false, "list harnesses")
	fTimeMS  = flag.Int("solverms", 5000, "solver time limit per query")
	fHardMS  = flag.Int("hardms", 0, "solver time limit per hard query")
)

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GO111MODULE", "GOSUMDB", "GONOSUMDB", "GONOSUMCHECK":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOSUMDB=off")
}

type hinfo struct {
	name, prop, doc string
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+format+"\n", a...)
	os.Exit(2)
}

func loadTree(hdir string, overlay map[string][]byte) ([]*packages.Package, []string) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: hdir, Env: goEnv(), Overlay: overlay}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, []string{err.Error()}
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	return ps, errs
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	hdir := filepath.Join(*fVerif, "harness")
	overlay := fakeOverlay(gostDir(hdir))
	ps, errs := loadTree(hdir, overlay)
	if len(errs) > 0 {
		// gost uses something of os or time the stand-ins do not have
		first := errs
		overlay = nil
		if ps, errs = loadTree(hdir, nil); len(errs) > 0 {
			for _, e := range errs {
				fmt.Fprintln(os.Stderr, e)
			}
			fatal("the tree does not type-check")
		}
		for _, e := range first {
			fmt.Fprintln(os.Stderr, "stand-ins not used:", e)
		}
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, nd: "gostverif/nd", fakes: overlay != nil, models: map[string]*ssa.Function{}}
	e.cond = sync.NewCond(&e.mu)
	tLoad := time.Since(t0)

	var hs []*Harness
	var only *regexp.Regexp
	if *fOnly != "" {
		only = regexp.MustCompile(*fOnly)
	}
	var all []hinfo
	var modelNames []string
	for i, p := range ps {
		sp := pkgs[i]
		if sp == nil {
			continue
		}
		if p.PkgPath == "gostverif/models" {
			for _, f := range p.Syntax {
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil {
						continue
					}
					for _, c := range fd.Doc.List {
						if o, ok := strings.CutPrefix(c.Text, "//override "); ok {
							for _, n := range strings.Fields(o) {
								e.models[n] = sp.Func(fd.Name.Name)
								modelNames = append(modelNames, n)
							}
						}
					}
				}
			}
		}
		if p.PkgPath != "gostverif/h" {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
					continue
				}
				parts := strings.SplitN(fd.Name.Name, "_", 3)
				hi := hinfo{fd.Name.Name, parts[1], strings.TrimSpace(fd.Doc.Text())}
				all = append(all, hi)
				if hi.prop != *fProp || (only != nil && !only.MatchString(hi.name)) {
					continue
				}
				hs = append(hs, &Harness{Name: hi.name, Prop: hi.prop, fn: sp.Func(hi.name), Doc: hi.doc, Ends: map[string]int{}, Incompl: map[string]int{}})
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	if *fList {
		for _, h := range all {
			fmt.Println(h.prop, h.name)
		}
		return
	}
	if len(hs) == 0 {
		fatal("no harness for property %s", *fProp)
	}
	_ = modelNames

	// native build in the background
	var mine []hinfo
	var names []string
	for _, hi := range all {
		if hi.prop == *fProp {
			mine = append(mine, hi)
			names = append(names, hi.name)
		}
	}
	nat := newNative(hdir, mine)
	nat.overlay = overlay
	nat.pruned = pruneInto(overlay, hdir, names)
	if !*fNoNat {
		go nat.build()
	}

	budget := 90 * time.Second
	if *fTier == "thorough" {
		budget = 600 * time.Second
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	hard := *fHardMS
	if hard == 0 {
		hard = 20000
		if *fTier == "thorough" {
			hard = 90000
		}
	}
	w := *fWorkers
	if n := runtime.NumCPU(); w > n {
		w = n
	}
	e.cfg = Config{Workers: w, TimeMS: *fTimeMS, HardMS: hard, MaxSteps: 3000000, Tier: *fTier, Verbose: *fVerbose, MaxViol: 40, Samples: 6}
	e.deadline = time.Now().Add(budget)
	e.unstarted.Store(int32(len(hs)))
	for i := len(hs) - 1; i >= 0; i-- {
		e.push(&Work{h: hs[i]})
	}
	t1 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go e.worker(&wg)
	}
	wg.Wait()
	tExp := time.Since(t1)

	rep := e.report(hs, nat)
	rep.loadS = tLoad.Seconds()
	rep.exploreS = tExp.Seconds()
	rep.wall = time.Since(t0).Seconds()
	code := rep.finish(*fProp, *fTier, *fVerif)
	nat.cleanup()
	os.Exit(code)
}

// ---------- reporting ----------
type Report struct {
	e                      *Engine
	hs                     []*Harness
	nat                    *native
	loadS, exploreS, wall  float64
	confirmed, unconfirmed []*Violation
	validated, mismatched  int
	mismatch               []string
	replayRuns             int
	known                  map[string]string
}

type KnownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
}

func loadKnown(path string) []KnownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Findings []KnownFinding `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		return nil
	}
	return f.Findings
}

func (e *Engine) report(hs []*Harness, nat *native) *Report {
	r := &Report{e: e, hs: hs, nat: nat, known: map[string]string{}}
	if !*fNoNat {
		nat.wait()
	}
	// Replays of counterexamples that do not terminate each take until their time limit; once one is
	// confirmed the verdict is settled and the others only add detail.
	replayStart := time.Now()
	spent := func() bool {
		d := time.Since(replayStart)
		return d > 15*time.Second && len(r.confirmed) > 0 || d > 3*time.Minute
	}
	for _, h := range hs {
		sort.SliceStable(h.Viol, func(i, j int) bool { return len(h.Viol[i].Choices) < len(h.Viol[j].Choices) })
		per := map[string]int{}
		done := map[string]bool{}
		for _, v := range h.Viol {
			key := v.Kind + "|" + v.Msg
			if v.Kind == "panic" || v.Kind == "bound" {
				key += "|" + firstFrame(v.At)
			}
			if done[key] || per[key] >= 6 || spent() {
				continue
			}
			per[key]++
			ok := *fNoNat
			if !ok {
				var why string
				ok, why = nat.confirm(v)
				r.replayRuns++
				if *fVerbose {
					fmt.Fprintf(os.Stderr, "replay %s %s: %v (%s)\n", h.Name, v.Msg, ok, why)
				}
			}
			if ok {
				done[key] = true
				r.confirmed = append(r.confirmed, v)
			} else {
				r.unconfirmed = append(r.unconfirmed, v)
			}
		}
	}
	if !*fNoNat {
		r.validated, r.mismatched, r.mismatch = nat.validate(hs)
	}
	return r
}

func firstFrame(at string) string {
	s, _, _ := strings.Cut(at, " < ")
	return s
}

func (r *Report) finish(prop, tier, verif string) int {
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
	var news []*Violation
	for _, v := range r.confirmed {
		matched := false
		for _, k := range known {
			if k.Property == prop && k.Harness == v.Harness && k.Msg == v.Msg {
				matched = true
				r.known[k.Harness+"|"+k.Msg] = k.What
			}
		}
		if !matched {
			news = append(news, v)
		}
	}
	for _, k := range known {
		if k.Property == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	replay := ""
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
	for i, v := range news {
		p := filepath.Join(verif, "evidence", "replay", fmt.Sprintf("%s_%d.json", prop, i))
		writeJSON(p, v)
		if i == 0 {
			replay = p
		}
		if i < 8 {
			fmt.Printf("counterexample: harness=%s kind=%s: %s\n  at %s\n  inputs:", v.Harness, v.Kind, v.Msg, v.At)
			for _, n := range v.Order {
				fmt.Printf(" %s=%s", n, v.Inputs[n])
			}
			if len(v.Choices) > 0 {
				fmt.Printf(" schedule: %s", strings.Join(v.Choices, " "))
			}
			fmt.Println()
		}
	}
	r.writeEvidence(prop, tier, verif, len(news))
	for _, h := range r.hs {
		fmt.Printf("%-44s paths=%-6d asserts=%-6d queries=%-6d forks=%-6d merges=%-6d steps=%-9d wall=%.1fs", h.Name, h.Paths, h.Asserts, h.AssertQ, h.Forks, h.Merges, h.Steps, h.Wall.Seconds())
		if len(h.Incompl) > 0 {
			fmt.Printf(" INCOMPLETE")
			for _, k := range sortedKeys(h.Incompl) {
				fmt.Printf(" [%s x%d]", k, h.Incompl[k])
			}
		}
		if h.Ends["completed"] == 0 && len(h.Viol) == 0 {
			fmt.Printf(" VACUOUS %v", h.Ends)
		}
		fmt.Println()
		if *fVerbose {
			fmt.Printf("    ends: %v\n", h.Ends)
		}
	}
	s := r.e.stats
	fmt.Printf("solver: %d queries (%d sat, %d unsat, %d unknown), %d hard, %.1fs, max %.2fs; load %.1fs explore %.1fs; validated %d traces natively (%d mismatches); unconfirmed counterexamples %d\n",
		s.Queries, s.Sat, s.Unsat, s.Unknown, s.OneShot, s.Time.Seconds(), s.MaxTime.Seconds(), r.loadS, r.exploreS, r.validated, r.mismatched, len(r.unconfirmed))
	for _, m := range r.mismatch {
		fmt.Println("  mismatch:", m)
	}
	if *fVerbose {
		for _, v := range r.unconfirmed {
			fmt.Printf("  unconfirmed: %s %s: %s at %s %v\n", v.Harness, v.Kind, v.Msg, v.At, v.Inputs)
		}
	}
	if len(news) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	fmt.Printf("OK property=%s\n", prop)
	return 0
}

func writeJSON(p string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
}

func (r *Report) writeEvidence(prop, tier, verif string, viol int) {
	var fns []string
	r.e.fnTouch.Range(func(k, _ any) bool {
		fn := k.(*ssa.Function)
		if p := pkgPathOf(fn); strings.HasPrefix(p, gostPath) {
			n := fn
			if o := fn.Origin(); o != nil {
				n = o
			}
			fns = append(fns, strings.ReplaceAll(n.String(), gostPath, "gost"))
		}
		return true
	})
	sort.Strings(fns)
	u := fns[:0]
	for i, f := range fns {
		if i == 0 || f != fns[i-1] {
			u = append(u, f)
		}
	}
	fns = u
	states, trans, asserts, aq := 0, 0, 0, 0
	complete := true
	var hrep []any
	var samples []any
	bounds := map[string]bool{}
	var notes []string
	for _, h := range r.hs {
		states += h.Paths
		trans += h.Forks + h.Merges
		asserts += h.Asserts
		aq += h.AssertQ
		hr := map[string]any{"harness": h.Name, "what": h.Doc, "paths": h.Paths, "ends": h.Ends, "assertions_reached": h.Asserts, "assertion_queries": h.AssertQ, "forks": h.Forks, "merged_branches": h.Merges, "ssa_instructions_executed": h.Steps, "longest_decision_trace": h.MaxPath, "wall_s": h.Wall.Seconds(),
			"reachable": h.Ends["completed"] > 0, "covered": sortedKeys(h.Reached), "exhaustive_within_bounds": len(h.Incompl) == 0 && !h.stopped.Load()}
		if len(h.Incompl) > 0 || h.stopped.Load() {
			complete = false
			hr["incomplete"] = h.Incompl
			notes = append(notes, h.Name)
		}
		if len(h.Undec) > 0 {
			hr["undecided_assertions"] = h.Undec
		}
		hrep = append(hrep, hr)
		for b := range h.Bounds {
			bounds[b] = true
		}
		for i, s := range h.Samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": h.Name, "path_witness": s.Inputs, "observed": s.Obs})
		}
	}
	if len(samples) > 40 {
		samples = samples[:40]
	}
	if len(samples) == 0 {
		for _, h := range r.hs {
			samples = append(samples, map[string]any{"harness": h.Name, "paths": h.Paths, "ends": h.Ends})
		}
	}
	s := r.e.stats
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": r.validated,
		"trace_mismatches":              r.mismatched,
		"samples":                       samples,
		"exhaustive":                    complete,
		"explanation":                   "Symbolic execution of the SSA of /repo's current source: states = symbolic paths, transitions = symbolic branches decided (forked or merged); every assertion on every path is decided by the SMT solver for all values of the inputs on that path. Counterexamples are replayed against the natively compiled code before being reported; sampled completed paths are replayed natively and their observed outputs compared with the encoding.",
		"functions_encoded":             fns,
		"functions_encoded_count":       len(fns),
		"bounds":                        sortedKeys(bounds),
		"assertions_reached":            asserts,
		"assertions_decided_by_solver":  aq,
		"queries": map[string]any{"total": s.Queries, "sat": s.Sat, "unsat": s.Unsat, "unknown": s.Unknown, "portfolio": s.OneShot,
			"solver_time_s": s.Time.Seconds(), "max_query_s": s.MaxTime.Seconds()},
		"harnesses":                   hrep,
		"counterexamples_replayed":    r.replayRuns,
		"counterexamples_unconfirmed": len(r.unconfirmed),
		"incomplete_harnesses":        notes,
		"load_s":                      r.loadS, "explore_s": r.exploreS,
	}
	if len(r.known) > 0 {
		cov["known_findings_reproduced"] = r.known
	}
	if len(r.mismatch) > 0 {
		cov["mismatches"] = r.mismatch
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": r.wall, "violations": viol,
		"assumptions": []string{
			"bounds are those listed under coverage.bounds; nothing outside them is claimed",
			"go/ssa (x/tools v0.52.0) renders /repo's source faithfully; gosym interprets that SSA; z3/cvc5 answers are trusted",
			"standard-library kernels replaced by models: float rounding/sqrt via SMT floating point, transcendental functions uninterpreted, integer-to-text by Horner digits, math/big.Int as a 272-bit vector, sync/channels by a cooperative scheduler with bounded preemptions, os.* by an in-memory file system (see /verif/DESIGN.md)",
		}}
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
}

var _ = types.Typ
