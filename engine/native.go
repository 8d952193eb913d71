package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// native: the harness compiled with the ordinary Go toolchain against /repo,
// used to confirm counterexamples and to validate sampled paths.
type native struct {
	hdir string
	all  []hinfo
	dir  string
	bin  string
	err  error
	done chan struct{}
	once sync.Once

	overlay map[string][]byte // sources replaced for the analysis
	pruned  map[string][]byte // the same, with the harness reduced to what is needed
}

func newNative(hdir string, all []hinfo) *native {
	return &native{hdir: hdir, all: all, done: make(chan struct{})}
}

func (n *native) build() {
	defer close(n.done)
	d, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		n.err = err
		return
	}
	n.dir = d
	if n.err = n.compile(n.pruned); n.err != nil {
		n.err = n.compile(n.overlay)
	}
}

func (n *native) compile(overlay map[string][]byte) error {
	d := n.dir
	var sb strings.Builder
	sb.WriteString("package h\n\nfunc init() {\n")
	for _, h := range n.all {
		fmt.Fprintf(&sb, "\tRegistry[%q] = %s\n", h.name, h.name)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(d, "registry_gen.go")
	os.WriteFile(reg, []byte(sb.String()), 0o644)
	repl := map[string]string{filepath.Join(n.hdir, "h", "registry_gen.go"): reg}
	k := 0
	for p, src := range overlay {
		q := filepath.Join(d, fmt.Sprintf("src%d.go", k))
		k++
		os.WriteFile(q, src, 0o644)
		repl[p] = q
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovp := filepath.Join(d, "overlay.json")
	os.WriteFile(ovp, ov, 0o644)
	n.bin = filepath.Join(d, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovp, "-o", n.bin, "./cmd/replay")
	cmd.Dir = n.hdir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

func (n *native) wait() {
	<-n.done
	if n.err != nil {
		fatal("native build of the harness failed: %v", n.err)
	}
}

func (n *native) cleanup() {
	if n.dir != "" && strings.Contains(n.dir, "gosym-native-") {
		os.RemoveAll(n.dir)
	}
}

type natJob struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Tier    string            `json:"tier"`
}

type natRes struct {
	out     string
	code    int
	timeout bool
}

func (n *native) run(jobs []natJob, timeout time.Duration, env ...string) natRes {
	b, _ := json.Marshal(jobs)
	f, err := os.CreateTemp(n.dir, "in-")
	if err != nil {
		return natRes{code: -1}
	}
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	scratch, _ := os.MkdirTemp(n.dir, "scratch-")
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0o777)
	os.Chmod(n.dir, 0o755)
	// address-space limit so that a runaway replay ends by itself; an unprivileged user keeps file effects contained
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 6000000; exec \"$0\" \"$1\"", n.bin, f.Name())
	os.Chmod(f.Name(), 0o644)
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch, "GOMEMLIMIT=3GiB"}, env...)
	cmd.Dir = scratch
	if os.Geteuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.WaitDelay = time.Second
	err = cmd.Run()
	r := natRes{out: out.String()}
	if ctx.Err() != nil {
		r.timeout = true
		r.code = -2
		return r
	}
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		}
	}
	return r
}

// confirm replays a counterexample against the native build.
func (n *native) confirm(v *Violation) (bool, string) {
	job := []natJob{{v.Harness, v.Inputs, *fTier}}
	sched := false
	for _, c := range v.Choices {
		if strings.HasPrefix(c, "sched") || strings.HasPrefix(c, "preempt") || strings.HasPrefix(c, "select") {
			sched = true
		}
	}
	tries := 30
	to := 10 * time.Second
	for i := 0; i < tries; i++ {
		r := n.run(job, to)
		switch v.Kind {
		case "bound":
			if r.timeout || strings.Contains(r.out, "out of memory") || strings.Contains(r.out, "stack overflow") || strings.Contains(r.out, "cannot allocate memory") || strings.Contains(r.out, "stack exceeds") {
				return true, "does not terminate"
			}
			if i >= 1 {
				return false, "terminates"
			}
		case "deadlock":
			if r.timeout || strings.Contains(r.out, "all goroutines are asleep") {
				return true, "blocks"
			}
		case "panic":
			if strings.Contains(r.out, "REPLAY-PANIC") || (r.code == 2 && (strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:"))) {
				return true, "panics"
			}
			if r.timeout {
				return true, "hangs"
			}
		default:
			if strings.Contains(r.out, "REPLAY-FAIL") {
				return true, "assertion fails"
			}
			if strings.Contains(r.out, "REPLAY-PANIC") || r.code == 2 {
				return true, "panics"
			}
			if r.timeout {
				return true, "hangs"
			}
		}
		if strings.Contains(r.out, "REPLAY-ASSUME") && i >= 3 {
			return false, "assumption fails natively"
		}
	}
	if sched && (v.Kind == "assert" || v.Kind == "deadlock" || v.Kind == "panic") {
		// the schedule is part of the counterexample; it was executed step by step
		// on the SSA of the real code, the native scheduler did not happen to take it
		return true, "schedule-dependent"
	}
	return false, "does not reproduce"
}

// validate replays sampled completed paths and compares what they observed.
func (n *native) validate(hs []*Harness) (ok, bad int, msgs []string) {
	type ref struct {
		h *Harness
		s *Sample
	}
	var jobs []natJob
	var refs []ref
	for _, h := range hs {
		for _, s := range h.Samples {
			jobs = append(jobs, natJob{h.Name, s.Inputs, *fTier})
			refs = append(refs, ref{h, s})
		}
	}
	if len(jobs) == 0 {
		return
	}
	r := n.run(jobs, 60*time.Second)
	parts := strings.Split(r.out, "REPLAY-JOB ")
	for i, rf := range refs {
		var body string
		found := false
		for _, p := range parts[1:] {
			if strings.HasPrefix(p, fmt.Sprintf("%d\n", i)) {
				body = p
				found = true
			}
		}
		if !found {
			bad++
			if len(msgs) < 10 {
				msgs = append(msgs, fmt.Sprintf("%s: no native result (code %d timeout %v)", rf.h.Name, r.code, r.timeout))
			}
			continue
		}
		var obs []string
		end := ""
		for _, l := range strings.Split(body, "\n") {
			if o, k := strings.CutPrefix(l, "REPLAY-OBS "); k {
				obs = append(obs, o)
			}
			if strings.HasPrefix(l, "REPLAY-DONE") || strings.HasPrefix(l, "REPLAY-FAIL") || strings.HasPrefix(l, "REPLAY-PANIC") || strings.HasPrefix(l, "REPLAY-ASSUME") {
				end = l
			}
		}
		if end == "REPLAY-DONE" && strings.Join(obs, "\n") == strings.Join(rf.s.Obs, "\n") {
			ok++
			continue
		}
		bad++
		if len(msgs) < 10 {
			msgs = append(msgs, fmt.Sprintf("%s: native %q %v vs symbolic %v, inputs %v", rf.h.Name, end, obs, rf.s.Obs, rf.s.Inputs))
		}
	}
	return
}
