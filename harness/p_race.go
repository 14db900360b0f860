package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

// C30: concurrent use is free of unsynchronised accesses to memory. The check
// is built with Go's race detector; the cases are those of other properties,
// whose own verdicts do not count here.

type planC30 struct {
	C08 *planC08  `json:",omitempty"`
	C09 *planC09  `json:",omitempty"`
	C10 *planC10  `json:",omitempty"`
	C11 *planC11  `json:",omitempty"`
	C12 *planC12  `json:",omitempty"`
	C25 *planC25  `json:",omitempty"`
	C26 *planC26  `json:",omitempty"`
	C27 *planC27  `json:",omitempty"`
	C31 *planC31  `json:",omitempty"`
	St  *stormC30 `json:",omitempty"`
}

func genC30(g *G) interface{} {
	p := &planC30{}
	idx := g.Idx
	g.Idx = 1 // none of the rare large shapes
	defer func() { g.Idx = idx }()
	switch g.W(14, 8, 12, 16, 6, 8, 12, 10, 14, 8) {
	case 0:
		p.C08 = genC08(g).(*planC08)
	case 1:
		p.C09 = genC09(g).(*planC09)
	case 2:
		p.C10 = genC10(g).(*planC10)
	case 3:
		p.C11 = genC11(g).(*planC11)
	case 4:
		p.C12 = genC12(g).(*planC12)
	case 5:
		p.C25 = genC25(g).(*planC25)
	case 6:
		p.C26 = genC26(g).(*planC26)
	case 7:
		p.C27 = genC27(g).(*planC27)
	case 9:
		p.C31 = genC31(g).(*planC31)
	default:
		st := &stormC30{Client: g.P(50), Trace: g.P(20)}
		for n := g.R(2, 6); n > 0; n-- {
			var ops []int
			for k := g.R(1, 12); k > 0; k-- {
				ops = append(ops, g.W(40, 30, 15, 15))
			}
			st.Users = append(st.Users, ops)
		}
		for n := g.N(40); n > 0; n-- {
			st.Stray = append(st.Stray, pick(g, 1+g.N(20), 1+g.N(200), g.N(1<<16)))
		}
		p.St = st
	}
	return p
}

// stormC30 is what several goroutines do with a listener or a client, with
// nothing else that orders them.
type stormC30 struct {
	Client bool
	Trace  bool
	Users  [][]int
	Stray  []int // tags of replies that nobody asked for
}

func runStorm(c *Ctx, pl interface{}) {
	p := pl.(*stormC30)
	var tr protocol.Tracer
	if p.Trace {
		tr = func(f string, a ...interface{}) { _ = fmt.Sprintf(f, a...) }
	}
	var wg sync.WaitGroup
	each := func(f func(i, op int)) {
		for i, ops := range p.Users {
			wg.Add(1)
			go func(i int, ops []int) {
				defer wg.Done()
				for _, op := range ops {
					f(i, op)
				}
			}(i, ops)
		}
	}
	if p.Client {
		a, b := memPair()
		c.Cleanup(func() { a.Close(); b.Close() })
		cl := newTraced(c, b, tr)
		go func() { // the server
			for {
				var h [7]byte
				if _, err := io.ReadFull(a, h[:]); err != nil {
					return
				}
				n := int64(h[0]) | int64(h[1])<<8 | int64(h[2])<<16
				body := make([]byte, n-7)
				if _, err := io.ReadFull(a, body); err != nil {
					return
				}
				q, _ := decode(append(h[:], body...))
				if q.Fid%7 == 6 {
					continue
				}
				r := resFor(1, q)
				r.Tag = q.Tag
				a.Write(encode(r))
			}
		}()
		each(func(i, op int) {
			m := [...]M{{T: tTclunk}, {T: tTread, N: 10}, {T: tTwrite, Data: []byte("data")}, {T: tTstat}}[op]
			m.Fid = uint32(cl.GetFID())
			if _, err := repoCall(cl, m); err != nil && op == 3 {
				_ = cl.GetFID()
			}
		})
		for _, t := range p.Stray {
			a.Write(encode(M{T: tRclunk, Tag: uint16(t)}))
			runtime.Gosched()
		}
		time.Sleep(2 * time.Millisecond)
		a.Close()
	} else {
		l, err := protocol.NewListener(func() protocol.NineServer { return &modelNS{} }, func(l *protocol.Listener) error {
			l.Trace = tr
			return nil
		})
		if err != nil {
			c.Failf("NewListener: %v", err)
		}
		use := func(i int, a *mconn) {
			a.Write(encode(M{T: tTversion, Tag: 1, N: 8192, S1: "9P2000"}))
			a.Write(encode(M{T: tTclunk, Tag: 2, Fid: uint32(i)}))
			io.ReadFull(a, make([]byte, 7))
			a.Close()
		}
		each(func(i, op int) {
			switch op {
			case 0, 1:
				fl := newFakeLn(nil)
				done := make(chan bool)
				go func() {
					l.Serve(fl)
					close(done)
				}()
				if op == 1 {
					a, b := memPair()
					fl.push(accItem{conn: b})
					go func() {
						time.Sleep(time.Millisecond)
						a.Close() // it may never be accepted
					}()
					use(i, a)
				}
				fl.Close()
				<-done
			case 2:
				a, b := memPair()
				l.Accept(b)
				use(i, a)
			case 3:
				l.Shutdown()
			}
		})
	}
	if !within(opTimeout, wg.Wait) {
		c.Hangf("users of one client or listener do not get on")
	}
}

func runC30(c *Ctx, pl interface{}) {
	p := pl.(*planC30)
	if !raceEnabled {
		c.Broken("built without the race detector")
	}
	c.look = true
	run := func(what string, f func(*Ctx, interface{}), pl interface{}) {
		v, h, gave := guard(func() { f(c, pl) })
		races(c)
		switch {
		case h != nil:
			panic(h)
		case v != nil || gave:
			c.Label("%s: given up", what)
		default:
			c.Label("%s", what)
			c.NonTrivial()
		}
	}
	if p.C08 != nil {
		run("connections to the file server", runC08, p.C08)
	}
	if p.C09 != nil {
		run("listeners", runC09, p.C09)
	}
	if p.C10 != nil {
		run("calls of one client", runC10, p.C10)
	}
	if p.C11 != nil {
		run("dying servers", runC11, p.C11)
	}
	if p.C12 != nil {
		run("tags and fids", runC12, p.C12)
	}
	if p.C25 != nil {
		run("tracing", runC25, p.C25)
	}
	if p.C26 != nil {
		run("end to end", runC26, p.C26)
	}
	if p.C27 != nil {
		run("connections that end", runC27, p.C27)
	}
	if p.C31 != nil {
		run("shared trees", runC31, p.C31)
	}
	if p.St != nil {
		run(map[bool]string{false: "storm on a listener", true: "storm on a client"}[p.St.Client], runStorm, p.St)
	}
}

// lookDead does what a user may do who has been told that a client is dead.
func (c *Ctx) lookDead(cl *protocol.Client) {
	if c.look && !cl.Dead {
		c.Label("not marked dead")
	}
}

func raceEnv(base string) string {
	return "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=" + filepath.Join(base, "race")
}

var raceSeen int // bytes of the race detector's log that have been judged

// races judges what the race detector has reported in the meantime.
func races(c *Ctx) {
	b, _ := os.ReadFile(filepath.Join(*fBase, "race."+strconv.Itoa(os.Getpid())))
	if len(b) <= raceSeen {
		return
	}
	out := string(b[raceSeen:])
	raceSeen = len(b)
	for _, r := range strings.Split(out, "==================\n") {
		if raceInRepo(r) {
			c.Failf("%s", r)
		} else if strings.Contains(r, "WARNING: DATA RACE\n") {
			c.Label("race in the harness")
		}
	}
}

// raceInRepo tells whether a report of the race detector is about accesses of
// the code under test: at least one of the two has its innermost frame outside
// the standard library there.
func raceInRepo(out string) bool {
	i := strings.Index(out, "WARNING: DATA RACE\n")
	if i < 0 || strings.Contains(out, "  flag.Set()\n") {
		// The harness sets flags while servers of earlier cases may
		// still be there.
		return false
	}
	for _, sec := range strings.Split(out[i+len("WARNING: DATA RACE\n"):], "\n\n") {
		h := strings.ToLower(strings.TrimPrefix(sec, "Previous "))
		if !(strings.HasPrefix(h, "read at") || strings.HasPrefix(h, "write at") || strings.HasPrefix(h, "atomic ")) {
			continue
		}
		for _, l := range strings.Split(sec, "\n") {
			if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "      ") {
				continue
			}
			f := strings.TrimSpace(l)
			if strings.HasPrefix(f, "github.com/Harvey-OS/ninep/") {
				return true
			}
			if strings.HasPrefix(f, "main.") {
				break
			}
		}
	}
	return false
}

func init() {
	register(&Prop{ID: "C30", Rule: "a history with concurrency was executed to its end under the race detector", Unpriv: true, Quick: 4000, Thorough: 60000,
		Assume: []string{"two accesses race if the race detector sees no synchronisation that orders them, in the schedule that happened"},
		New:    func() interface{} { return &planC30{} }, Gen: genC30, Run: runC30})
}
