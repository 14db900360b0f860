// Package main is the property-based testing harness for Harvey-OS/ninep.
//
// A property is a generator of plans (plain data: messages, operations,
// schedules, faults) and a function that executes a plan against the real code
// and compares it with an oracle. Case i of a run is a pure function of
// (seed, i), so a case is identified by two numbers; a failing plan is shrunk
// structurally and saved as JSON, which replays without any generator.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// G is the source of all random choices of a generator.
type G struct {
	r *rand.Rand
	// Thorough asks for larger cases.
	Thorough bool
	// Idx is the index of the case; generators use it to schedule rare,
	// expensive shapes at fixed places.
	Idx int
}

func newG(seed uint64, prop string, idx int, thorough bool) *G {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	return &G{r: rand.New(rand.NewPCG(h.Sum64(), seed*0x9e3779b97f4a7c15+uint64(idx))), Thorough: thorough, Idx: idx}
}

// N returns a number in [0,n).
func (g *G) N(n int) int { return g.r.IntN(n) }

// R returns a number in [a,b].
func (g *G) R(a, b int) int { return a + g.r.IntN(b-a+1) }

// P is true with probability pct/100.
func (g *G) P(pct int) bool { return g.r.IntN(100) < pct }

// W picks an index with the given weights.
func (g *G) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := g.r.IntN(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	panic("unreachable")
}

func pick[T any](g *G, xs ...T) T { return xs[g.r.IntN(len(xs))] }

func (g *G) U64() uint64 {
	switch g.N(8) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2: // one bit
		return 1 << g.N(64)
	case 3: // around a power of two
		return (1 << g.N(64)) + uint64(g.R(-2, 2))
	case 4:
		return uint64(g.N(300))
	case 5: // distinct bytes, so that swapped ones show
		return 0x0807060504030201 * uint64(1+g.N(3))
	}
	return g.r.Uint64()
}
func (g *G) U32() uint32 {
	switch g.N(8) {
	case 0:
		return 0
	case 1:
		return ^uint32(0)
	case 2:
		return 1 << g.N(32)
	case 3:
		return (1 << g.N(32)) + uint32(g.R(-2, 2))
	case 4:
		return uint32(g.N(300))
	case 5:
		return 0x04030201 * uint32(1+g.N(3))
	}
	return g.r.Uint32()
}
func (g *G) U16() uint16 {
	switch g.N(6) {
	case 0:
		return pick(g, uint16(0), 1, 255, 256, 257, 32767, 32768, 65534, 65535)
	case 1:
		return 1 << g.N(16)
	}
	return uint16(g.r.Uint32())
}
func (g *G) U8() uint8 {
	if g.P(20) {
		return 1 << g.N(8)
	}
	return uint8(g.r.Uint32())
}

// Len is a length, mostly small, at times at a boundary up to max.
func (g *G) Len(max int) int {
	var n int
	switch g.W(50, 20, 10, 8, 6) {
	case 0:
		n = g.N(12)
	case 1:
		n = g.N(64)
	case 2:
		n = pick(g, 127, 128, 129, 255, 256, 257, 511, 512, 513)
	case 3:
		n = pick(g, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65534, 65535)
	case 4:
		n = g.N(max + 1)
	}
	if n > max {
		n = max
	}
	return n
}

// Str is a string of arbitrary bytes that survives JSON.
type Str string

func (s Str) MarshalText() ([]byte, error) { return []byte(strconv.QuoteToASCII(string(s))), nil }
func (s *Str) UnmarshalText(b []byte) error {
	q, err := strconv.Unquote(string(b))
	*s = Str(q)
	return err
}

// QuoteToASCII writes invalid UTF-8 as \x escapes, so it is lossless.

func (g *G) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := g.r.Uint64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}

// Str returns a string of at most max bytes.
func (g *G) Str(max int) Str {
	n := g.Len(max)
	switch g.N(4) {
	case 0:
		return Str(g.Bytes(n))
	case 1:
		return Str(strings.Repeat("é\x00☺z", n/7+1)[:n])
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + g.N(26))
	}
	return Str(b)
}

// Blob is data written compactly: Lit followed by N bytes made from S.
type Blob struct {
	Lit Str    `json:",omitempty"`
	N   int    `json:",omitempty"`
	S   uint32 `json:",omitempty"`
}

func (b Blob) Expand() []byte {
	out := make([]byte, len(b.Lit)+b.N)
	copy(out, b.Lit)
	x := uint64(b.S)*0x9e3779b97f4a7c15 + 0x1234567
	for i := len(b.Lit); i < len(out); i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		out[i] = byte(x>>24) | 1 // never 0, so that holes show
	}
	return out
}
func (b Blob) Len() int { return len(b.Lit) + b.N }

func (g *G) Blob(max int) Blob {
	n := g.Len(65536)
	if max > 65536 && g.P(4) {
		n = g.N(max + 1)
	}
	if n > max {
		n = max
	}
	if n < 16 && g.P(50) {
		return Blob{Lit: Str(g.Bytes(n))}
	}
	return Blob{N: n, S: g.r.Uint32() >> 8}
}

// ---- execution of a case

type violation struct {
	Msg     string
	Hang    bool
	Starved bool // the process did not get to run all the time
}

type harnessError struct{ Msg string }

// Ctx is the context of the execution of one plan.
type Ctx struct {
	Dir     string // scratch directory of the case
	Prop    string
	labels  map[string]int
	nontriv bool
	cleanup []func()
	trace   func(string, ...interface{}) // for listeners and clients made by behave
	look    bool                         // users look whether their clients are dead
}

func (c *Ctx) Failf(f string, a ...interface{}) { panic(&violation{Msg: fmt.Sprintf(f, a...)}) }
func (c *Ctx) Hangf(f string, a ...interface{}) {
	panic(&violation{Msg: "no answer: " + fmt.Sprintf(f, a...), Hang: true, Starved: starved()})
}

// pulse notes how long the process has gone without running at a stretch.
var pulse struct {
	sync.Mutex
	gaps []time.Time // when gaps of more than half a second ended
}

func startPulse() {
	go func() {
		last := time.Now()
		for {
			time.Sleep(50 * time.Millisecond)
			now := time.Now()
			if now.Sub(last) > 500*time.Millisecond {
				pulse.Lock()
				pulse.gaps = append(pulse.gaps, now)
				pulse.Unlock()
			}
			last = now
		}
	}()
}

// starved tells whether the process was kept from running during the time in
// which an operation did not finish.
func starved() bool {
	pulse.Lock()
	defer pulse.Unlock()
	for _, t := range pulse.gaps {
		if time.Since(t) < opTimeout+time.Second {
			return true
		}
	}
	return false
}

// Broken reports trouble of the harness itself.
func (c *Ctx) Broken(f string, a ...interface{}) { panic(&harnessError{fmt.Sprintf(f, a...)}) }
func (c *Ctx) Must(err error) {
	if err != nil {
		c.Broken("%v", err)
	}
}

// Label classifies the case.
func (c *Ctx) Label(f string, a ...interface{}) {
	labelMu.Lock()
	c.labels[fmt.Sprintf(f, a...)]++
	labelMu.Unlock()
}

var labelMu sync.Mutex

func (c *Ctx) NonTrivial()      { c.nontriv = true }
func (c *Ctx) Cleanup(f func()) { c.cleanup = append(c.cleanup, f) }

// Prop is a property: how to make cases and how to decide one.
type Prop struct {
	ID       string
	Rule     string
	Assume   []string
	Unpriv   bool // run as an unprivileged user
	Quick    int  // cases
	Thorough int
	New      func() interface{}
	Gen      func(g *G) interface{}
	Run      func(c *Ctx, plan interface{})
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// runCase executes a plan and returns what went wrong, if anything.
func runCase(p *Prop, plan interface{}, dir string) (c *Ctx, v *violation, h *harnessError) {
	c = &Ctx{Dir: dir, Prop: p.ID, labels: map[string]int{}}
	defer func() {
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			func() {
				defer func() { recover() }()
				c.cleanup[i]()
			}()
		}
	}()
	defer func() {
		switch x := recover().(type) {
		case nil:
		case *violation:
			v = x
		case *harnessError:
			h = x
		default:
			st := string(debug.Stack())
			if panicInRepo(st) {
				v = &violation{Msg: fmt.Sprintf("panic in the code under test: %v\n%s", x, st)}
				return
			}
			h = &harnessError{fmt.Sprintf("panic in the harness: %v\n%s", x, st)}
		}
	}()
	p.Run(c, plan)
	return
}

// panicInRepo tells whether the innermost frame that is not of the standard
// library is of the repository.
func panicInRepo(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.Contains(l, "github.com/Harvey-OS/ninep/") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

var opTimeout = 20 * time.Second

// ---- worker

type workerResult struct {
	Evals    int
	NonTriv  int
	Hashes   []uint64
	Labels   map[string]int
	Samples  []json.RawMessage
	Capped   bool
	FailIdx  int
	Fail     *violation
	Harness  *harnessError
	Finished bool
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path+".tmp", b, 0644)
	}
	if err == nil {
		err = os.Rename(path+".tmp", path)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(4)
	}
}

func worker(p *Prop, seed uint64, thorough bool, w, first, nw, total int, base string, cap time.Duration) {
	res := workerResult{Labels: map[string]int{}, FailIdx: -1}
	out := filepath.Join(base, fmt.Sprintf("w%d.json", w))
	jf, err := os.Create(filepath.Join(base, fmt.Sprintf("w%d.idx", w)))
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(4)
	}
	start := time.Now()
	startPulse()
	for idx := first; idx < total; idx += nw {
		if time.Since(start) > cap {
			res.Capped = true
			break
		}
		jf.WriteAt([]byte(fmt.Sprintf("%-12d", idx)), 0)
		plan := p.Gen(newG(seed, p.ID, idx, thorough))
		dir := filepath.Join(base, fmt.Sprintf("w%d.d", w))
		os.RemoveAll(dir)
		if err := os.Mkdir(dir, 0755); err != nil {
			res.Harness = &harnessError{err.Error()}
			break
		}
		c, v, h := runCase(p, plan, dir)
		chmodAll(dir)
		os.RemoveAll(dir)
		if v != nil || h != nil {
			res.FailIdx, res.Fail, res.Harness = idx, v, h
			break
		}
		res.Evals++
		for k := range c.labels {
			res.Labels[k]++
		}
		if c.nontriv {
			b, _ := json.Marshal(plan)
			hh := fnv.New64a()
			hh.Write(b)
			res.Hashes = append(res.Hashes, hh.Sum64())
			res.NonTriv++
			if len(res.Samples) < 2 && len(b) < 4000 {
				res.Samples = append(res.Samples, b)
			}
		}
	}
	res.Finished = true
	writeJSON(out, res)
	if res.Fail != nil {
		os.Exit(3)
	}
	if res.Harness != nil {
		os.Exit(4)
	}
	os.Exit(0)
}

// chmodAll makes a tree removable again.
func chmodAll(dir string) {
	if fi, err := os.Lstat(dir); err != nil || !fi.IsDir() {
		return
	} else if fi.Mode().Perm()&0700 != 0700 {
		os.Chmod(dir, 0700)
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.IsDir() {
			chmodAll(filepath.Join(dir, e.Name()))
		}
	}
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
