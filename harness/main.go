package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Exit codes: 0 held, 1 violation, 2 the check itself failed;
// of subprocesses: 0 held, 3 violation, 4 harness trouble, others a crash.

var (
	fProp   = flag.String("prop", "", "property")
	fMode   = flag.String("mode", "run", "run, worker, exec or replay")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fW      = flag.Int("w", 0, "worker number")
	fNW     = flag.Int("nw", 0, "number of workers")
	fTotal  = flag.Int("n", 0, "number of cases")
	fBase   = flag.String("base", "", "scratch directory")
	fPlan   = flag.String("plan", "", "plan to execute")
	fOut    = flag.String("out", "", "evidence file")
	fReplay = flag.String("replays", "", "directory for replay files")
	fCap    = flag.Int("cap", 0, "seconds after which no further cases are begun")
	fStart  = flag.Int("start", -1, "first case of the worker")
	fOpT    = flag.Float64("optimeout", 30, "seconds an operation may take")
	fIdx    = flag.Int("idx", -1, "show or run only this case")
	fUfs    = flag.String("ufsbin", "", "the ufs command, built")
	fAlt    = flag.String("altbin", "", "this program, built with regenerated stubs")
	fGenF   = flag.String("genfail", "", "report of a failed regeneration of the stubs")
	fSrc    = flag.String("src", "", "the source tree")
	fDump   = flag.Bool("dump", false, "print the plan of case -idx")
)

const nobody = 65534

func main() {
	flag.Parse()
	log.SetOutput(io.Discard)
	opTimeout = time.Duration(*fOpT * float64(time.Second))
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	thorough := *fTier == "thorough"
	switch *fMode {
	case "worker":
		limitMemory()
		syscall.Umask(022)
		first := *fW
		if *fStart >= 0 {
			first = *fStart
		}
		worker(p, *fSeed, thorough, *fW, first, *fNW, *fTotal, *fBase, time.Duration(*fCap)*time.Second)
	case "exec":
		limitMemory()
		syscall.Umask(022)
		execPlan(p)
	case "behave":
		limitMemory()
		behaveMode()
	case "replay":
		os.Exit(replay(p))
	case "run":
		if *fDump {
			b, _ := json.MarshalIndent(p.Gen(newG(*fSeed, p.ID, *fIdx, thorough)), "", " ")
			fmt.Println(string(b))
			return
		}
		os.Exit(run(p, thorough))
	}
}

func loadPlan(p *Prop, path string) (interface{}, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var r struct{ Plan json.RawMessage }
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	plan := p.New()
	err = json.Unmarshal(r.Plan, plan)
	return plan, err
}

// execPlan runs one plan in this process.
func execPlan(p *Prop) {
	plan, err := loadPlan(p, *fPlan)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(4)
	}
	dir := filepath.Join(*fBase, "d")
	if err := os.Mkdir(dir, 0755); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(4)
	}
	_, v, h := runCase(p, plan, dir)
	chmodAll(dir)
	os.RemoveAll(dir)
	switch {
	case v != nil:
		fmt.Fprintln(os.Stderr, "VIOLATED:", v.Msg)
		if v.Hang {
			os.Exit(5)
		}
		os.Exit(3)
	case h != nil:
		fmt.Fprintln(os.Stderr, "harness:", h.Msg)
		os.Exit(4)
	}
	os.Exit(0)
}

type limited struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// sub starts a copy of this program.
func sub(p *Prop, args ...string) (*exec.Cmd, *limited) {
	cmd := exec.Command(os.Args[0], append([]string{"-prop", p.ID, "-tier", *fTier, "-ufsbin", *fUfs, "-altbin", *fAlt, "-src", *fSrc}, args...)...)
	e := &limited{}
	cmd.Stderr = e
	cmd.Stdout = e
	cmd.Dir = *fBase
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "HOME="+*fBase, raceEnv(*fBase))
	if p.Unpriv && os.Getuid() == 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody, Groups: []uint32{}}
	}
	return cmd, e
}

func exitCode(err error) (int, string) {
	if err == nil {
		return 0, ""
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return -1, "signal " + ws.Signal().String()
		}
		return ee.ExitCode(), ""
	}
	return -2, err.Error()
}

// crashed tells whether the output is that of a Go program that crashed in, or
// because of, the code under test.
func crashed(code int, out string) bool {
	if code == 1 {
		// The harness never exits with 1: the code under test ended the
		// process (os.Exit, log.Fatal).
		return true
	}
	if code != 2 && code != 66 {
		return false
	}
	// Running out of memory counts, if it is the code under test that asks
	// for it: memory is limited per process, generously (see limitMemory).
	if strings.Contains(out, "pthread_create failed") {
		return false
	}
	i := strings.Index(out, "panic: ")
	j := strings.Index(out, "fatal error: ")
	if i < 0 && j < 0 {
		return false
	}
	if j >= 0 && (i < 0 || j < i) {
		i = j
	}
	// The goroutine that crashed is printed first.
	tr := out[i:]
	if k := strings.Index(tr, "\ngoroutine "); k >= 0 {
		g := tr[k+1:]
		if e := strings.Index(g, "\n\n"); e >= 0 {
			g = g[:e]
		}
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "created by ") {
				continue
			}
			if strings.Contains(l, "github.com/Harvey-OS/ninep/") {
				return true
			}
		}
	}
	return false
}

// limitMemory keeps a process that executes cases from taking all memory.
// Nothing the checks do needs anywhere near this much.
func limitMemory() {
	const lim = 3 << 30
	if raceEnabled {
		return // the race detector reserves more than that
	}
	syscall.Setrlimit(2 /* RLIMIT_DATA */, &syscall.Rlimit{Cur: lim, Max: lim})
}

type outcome int

const (
	held outcome = iota
	violated
	hung
	trouble
)

var execSeq struct {
	sync.Mutex
	n int
}

// try executes a plan in a subprocess.
func try(p *Prop, plan []byte, optimeout float64) (outcome, string) {
	execSeq.Lock()
	execSeq.n++
	n := execSeq.n
	execSeq.Unlock()
	dir := filepath.Join(*fBase, fmt.Sprintf("x%d", n))
	if err := os.Mkdir(dir, 0755); err != nil {
		return trouble, err.Error()
	}
	defer os.RemoveAll(dir)
	if p.Unpriv && os.Getuid() == 0 {
		os.Chown(dir, nobody, nobody)
	}
	f := filepath.Join(dir, "plan.json")
	if err := os.WriteFile(f, append(append([]byte(`{"Plan":`), plan...), '}'), 0644); err != nil {
		return trouble, err.Error()
	}
	cmd, e := sub(p, "-mode", "exec", "-base", dir, "-plan", f, "-optimeout", fmt.Sprint(optimeout))
	cmd.Env = append(cmd.Env, raceEnv(dir))
	if err := cmd.Start(); err != nil {
		return trouble, err.Error()
	}
	var killed atomic.Bool
	tm := time.AfterFunc(time.Duration((optimeout*1.5+30)*float64(time.Second)), func() {
		killed.Store(true)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		time.Sleep(time.Second)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err := cmd.Wait()
	tm.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	chmodAll(dir)
	code, why := exitCode(err)
	out := e.b.String()
	switch {
	case code == 0:
		return held, ""
	case code == 3:
		return violated, out
	case code == 5:
		return hung, out
	case killed.Load():
		return hung, "no answer: the case does not end\n" + out
	case crashed(code, out):
		return violated, "the process crashed:\n" + out
	}
	return trouble, fmt.Sprintf("exit %d %s\n%s", code, why, out)
}

type replayFile struct {
	Property string
	Seed     uint64
	Tier     string
	Case     int
	What     string
	Note     string `json:",omitempty"`
	Plan     json.RawMessage
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// report confirms, shrinks and saves a failure; it returns the exit code.
//
// A failure counts even if it does not happen again when the case is run
// alone, because it may need a particular schedule. Only a missed time limit
// does not count then, if the machine was too busy (starved) to say anything.
func report(p *Prop, seed uint64, idx int, first string, hang, starved bool) int {
	plan := p.Gen(newG(seed, p.ID, idx, *fTier == "thorough"))
	pj, err := json.Marshal(plan)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	fmt.Fprintf(os.Stderr, "%s: case %d failed: %s\n", p.ID, idx, tail(first, 2000))
	note := ""
	confirmed := false
	what := first
	for i := 0; i < 4; i++ {
		o, m := try(p, pj, 40)
		if o == violated || o == hung {
			confirmed, what, hang = true, m, o == hung
			break
		}
		if hang && starved && i == 1 {
			break
		}
	}
	if !confirmed {
		if hang && starved {
			fmt.Fprintf(os.Stderr, "%s: case %d did not answer in time once, but does when run alone: inconclusive\n", p.ID, idx)
			return -1
		}
		note = "does not fail every time: it depends on the schedule; not shrunk"
	} else {
		ot := 40.0
		if hang {
			ot = 3
		}
		limit := 60 * time.Second
		pj, what = shrink(p, pj, what, ot, limit)
		if hang {
			// The shrunk plan was judged with a short time limit; keep it
			// only if it stands up to the long one.
			if o, m := try(p, pj, 40); o == violated || o == hung {
				what = m
			} else {
				pj, _ = json.Marshal(plan)
				note = "shrunk plan did not stand up; this is the original"
			}
		}
	}
	os.MkdirAll(*fReplay, 0755)
	path := filepath.Join(*fReplay, fmt.Sprintf("%s-%s-seed%d-case%d.json", p.ID, *fTier, seed, idx))
	b, _ := json.MarshalIndent(replayFile{p.ID, seed, *fTier, idx, tail(what, 6000), note, pj}, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	fmt.Fprintf(os.Stderr, "%s: minimal failure: %s\n", p.ID, tail(what, 3000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

func replay(p *Prop) int {
	plan, err := loadPlan(p, *fPlan)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	pj, _ := json.Marshal(plan)
	for i := 0; i < 3; i++ {
		o, m := try(p, pj, 40)
		switch o {
		case violated, hung:
			fmt.Fprintln(os.Stderr, tail(m, 6000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *fPlan)
			return 1
		case trouble:
			fmt.Fprintln(os.Stderr, m)
			return 2
		}
	}
	fmt.Println("the property holds on this plan")
	return 0
}

func run(p *Prop, thorough bool) int {
	start := time.Now()
	total := p.Quick
	capS := 300
	if thorough {
		total, capS = p.Thorough, 600
	}
	if *fTotal > 0 {
		total = *fTotal
	}
	if *fCap > 0 {
		capS = *fCap
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw > total {
		nw = total
	}
	if os.Getuid() == 0 && p.Unpriv {
		os.Chown(*fBase, nobody, nobody)
	}
	sum := workerResult{Labels: map[string]int{}}
	distinct := map[uint64]bool{}
	code := 0
	var results []workerResult
	if *fGenF != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *fGenF)
		code, total = 1, 0
	} else {
		// Next case of each worker.
		next := map[int]int{}
		for w := 0; w < nw; w++ {
			next[w] = w
		}
		for round := 0; code == 0 && len(next) > 0; round++ {
			left := capS - int(time.Since(start).Seconds())
			if round == 5 || left <= 0 {
				sum.Capped = true
				break
			}
			var rs []workerResult
			rs, next, code = runWorkers(p, next, nw, total, left)
			results = append(results, rs...)
		}
	}
	for _, r := range results {
		sum.Evals += r.Evals
		sum.NonTriv += r.NonTriv
		sum.Capped = sum.Capped || r.Capped
		for _, h := range r.Hashes {
			distinct[h] = true
		}
		for k, n := range r.Labels {
			sum.Labels[k] += n
		}
		if len(sum.Samples) < 4 {
			sum.Samples = append(sum.Samples, r.Samples...)
		}
	}
	if len(sum.Samples) > 4 {
		sum.Samples = sum.Samples[:4]
	}
	if sum.Samples == nil {
		sum.Samples = []json.RawMessage{}
	}
	v := 0
	if code == 1 {
		v = 1
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": int64(*fSeed), "level": "exploration",
		"wall_s": time.Since(start).Seconds(), "violations": v,
		"assumptions": append([]string{}, p.Assume...),
		"coverage": map[string]interface{}{
			"evaluations": sum.Evals, "nontrivial": sum.NonTriv, "distinct_nontrivial": len(distinct),
			"rule": p.Rule, "samples": sum.Samples, "classes": sum.Labels, "cases_planned": total, "stopped_early": sum.Capped,
		},
	}
	if *fOut != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*fOut), 0755)
		if err := os.WriteFile(*fOut, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			return 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases (%d planned), %d distinct non-trivial, %.1fs\n", p.ID, *fTier, *fSeed, sum.Evals, total, len(distinct), time.Since(start).Seconds())
	for _, k := range sortedKeys(sum.Labels) {
		fmt.Printf("  %6d %s\n", sum.Labels[k], k)
	}
	return code
}

// runWorkers runs the workers in next from the given cases on. It returns their
// results, the cases from which to carry on after inconclusive ones, and the
// exit code of the check so far.
func runWorkers(p *Prop, next map[int]int, nw, total, capS int) (results []workerResult, more map[int]int, code int) {
	type proc struct {
		cmd *exec.Cmd
		e   *limited
		err error
	}
	ps := map[int]*proc{}
	done := make(chan int)
	stop := func() {
		for _, q := range ps {
			syscall.Kill(-q.cmd.Process.Pid, syscall.SIGKILL)
		}
	}
	file := func(w int, ext string) string { return filepath.Join(*fBase, fmt.Sprintf("w%d.%s", w, ext)) }
	for w := range next {
		os.Remove(file(w, "json"))
		os.Remove(file(w, "idx"))
	}
	for w, first := range next {
		cmd, e := sub(p, "-mode", "worker", "-seed", strconv.FormatUint(*fSeed, 10), "-w", strconv.Itoa(w), "-start", strconv.Itoa(first), "-nw", strconv.Itoa(nw),
			"-n", strconv.Itoa(total), "-base", *fBase, "-cap", strconv.Itoa(capS), "-optimeout", fmt.Sprint(*fOpT))
		q := &proc{cmd: cmd, e: e}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			stop()
			return nil, nil, 2
		}
		ps[w] = q
		w := w
		go func() {
			q.err = cmd.Wait()
			done <- w
		}()
	}
	result := func(w int) (r workerResult) {
		b, _ := os.ReadFile(file(w, "json"))
		json.Unmarshal(b, &r)
		return
	}
	// Workers that end badly; hangs do not stop the others, anything else does.
	bad := -1
	var hungW []int
	// A worker that neither ends nor starts another case for very long is stuck
	// in a way the operation time limits do not see.
	stuck := map[int]int{}
	last := map[int]string{}
	lastT := map[int]time.Time{}
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	running := map[int]bool{}
	for w := range ps {
		running[w] = true
	}
	for len(running) > 0 {
		select {
		case w := <-done:
			delete(running, w)
			syscall.Kill(-ps[w].cmd.Process.Pid, syscall.SIGKILL)
			c, _ := exitCode(ps[w].err)
			if c == 0 || bad >= 0 {
				break
			}
			if _, ok := stuck[w]; ok {
				hungW = append(hungW, w)
				break
			}
			if r := result(w); r.Finished && r.Fail != nil && r.Fail.Hang {
				hungW = append(hungW, w)
				break
			}
			bad = w
			stop()
		case now := <-tick.C:
			for w := range running {
				b, _ := os.ReadFile(file(w, "idx"))
				if s := string(b); s != last[w] || lastT[w].IsZero() {
					last[w], lastT[w] = s, now
				} else if _, ok := stuck[w]; !ok && now.Sub(lastT[w]) > 100*time.Second {
					stuck[w], _ = strconv.Atoi(strings.TrimSpace(s))
					syscall.Kill(-ps[w].cmd.Process.Pid, syscall.SIGKILL)
				}
			}
		}
	}
	for w := range ps {
		results = append(results, result(w))
	}
	if bad >= 0 {
		w := bad
		out := ps[w].e.b.String()
		r := result(w)
		ec, why := exitCode(ps[w].err)
		ib, _ := os.ReadFile(file(w, "idx"))
		idx, _ := strconv.Atoi(strings.TrimSpace(string(ib)))
		switch {
		case r.Finished && r.Fail != nil:
			return results, nil, report(p, *fSeed, r.FailIdx, r.Fail.Msg, false, false)
		case r.Finished && r.Harness != nil:
			fmt.Fprintln(os.Stderr, "harness:", r.Harness.Msg)
		case crashed(ec, out):
			return results, nil, report(p, *fSeed, idx, "the process crashed:\n"+out, false, false)
		default:
			fmt.Fprintf(os.Stderr, "harness: worker %d ended with %d %s in case %d\n%s\n", w, ec, why, idx, tail(out, 5000))
		}
		return results, nil, 2
	}
	more = map[int]int{}
	for _, w := range hungW {
		idx, msg, starved := 0, "the case does not end", true
		if i, ok := stuck[w]; ok {
			idx = i
		} else {
			r := result(w)
			idx, msg, starved = r.FailIdx, r.Fail.Msg, r.Fail.Starved
		}
		if c := report(p, *fSeed, idx, msg, true, starved); c != -1 {
			return results, nil, c
		}
		if idx+nw < total {
			more[w] = idx + nw
		}
	}
	return results, more, 0
}
