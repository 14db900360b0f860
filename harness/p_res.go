package main

import (
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

// C27: when a connection ends, whatever it had is given back: the server and
// the client close their ends, their goroutines finish, and nothing keeps the
// connection's state or the files it had open alive.

type endC27 struct {
	Net   int // 0 in memory, 1 net.Pipe, 2 TCP
	Reqs  []Msg
	Files int    // fids opened (server) or calls outstanding (client)
	End   string // how it ends
	Cut   int
	Trace bool `json:",omitempty"`
	Drain bool `json:",omitempty"` // of a client: its user takes all tags
}

type planC27 struct {
	Client bool
	Ufs    bool
	Debug  bool `json:",omitempty"`
	Conns  []endC27
	Par    bool
}

var endsSrv = []string{"close", "cut", "half", "size", "stall", "stallcut", "reset"}
var endsCl = []string{"close", "cut", "user", "size", "reset", "wfail"}

func genC27(g *G) interface{} {
	p := &planC27{Client: g.P(40), Ufs: g.P(50), Debug: g.P(10), Par: g.P(50)}
	for n := g.R(2, 8); n > 0; n-- {
		e := endC27{Net: g.W(50, 25, 25), Files: g.W(20, 20, 20, 20, 20), Cut: g.N(40), Trace: g.P(10)}
		if p.Client {
			e.End = pick(g, endsCl...)
			e.Drain = g.P(3)
		} else {
			e.End = pick(g, endsSrv...)
		}
		for k := g.N(5); k > 0; k-- {
			e.Reqs = append(e.Reqs, g.reqMsg())
		}
		p.Conns = append(p.Conns, e)
	}
	return p
}

// ours returns the stacks of the goroutines that execute the repository's code.
func ours() []string {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	var r []string
	for _, s := range strings.Split(string(b), "\n\n") {
		if strings.Contains(s, "github.com/Harvey-OS/ninep/") {
			r = append(r, s)
		}
	}
	return r
}

// fdsUnder counts the open files of this process below dir.
func fdsUnder(dir string) int {
	es, _ := os.ReadDir("/proc/self/fd")
	n := 0
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (t == dir || strings.HasPrefix(t, dir+"/")) {
			n++
		}
	}
	return n
}

// watched is an end of a connection that notes that it was closed.
type watched struct {
	net.Conn
	closed atomic.Bool
}

func (w *watched) Close() error {
	w.closed.Store(true)
	return w.Conn.Close()
}

// pairC27 returns our end and theirs.
func pairC27(c *Ctx, kind int) (net.Conn, *watched) {
	switch kind {
	case 1:
		a, b := net.Pipe()
		return a, &watched{Conn: b}
	case 2:
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		c.Must(err)
		defer ln.Close()
		a, err := net.Dial("tcp", ln.Addr().String())
		c.Must(err)
		b, err := ln.Accept()
		c.Must(err)
		return a, &watched{Conn: b}
	}
	a, b := memPair()
	return a, &watched{Conn: b}
}

// reset ends a connection abruptly.
func reset(a net.Conn) {
	switch x := a.(type) {
	case *net.TCPConn:
		x.SetLinger(0)
	case *mconn:
		x.w.end(errReset)
	}
	a.Close()
}

func runC27(c *Ctx, pl interface{}) {
	p := pl.(*planC27)
	waitFor(2*time.Second, func() bool { return len(ours()) == 0 })
	base := len(ours())
	var states, freed atomic.Int64
	var root string
	var theirs []*watched
	// In a function of its own, so that nothing of it is left on the stack.
	func() {
		var vs []*violation
		var mu sync.Mutex
		var wg sync.WaitGroup
		var run func(e endC27) *watched
		if p.Client {
			run = func(e endC27) *watched { return clientC27(c, e, &states, &freed) }
		} else {
			var l *protocol.Listener
			if p.Ufs {
				root = newRoot(c)
				for k := 0; k < 5; k++ {
					c.Must(os.WriteFile(fmt.Sprintf("%s/f%d", root, k), make([]byte, 100000), 0644))
				}
				l = ufsListener(c, root, "harvey", p.Debug)
			} else {
				var err error
				l, err = protocol.NewListener(func() protocol.NineServer {
					states.Add(1)
					ns := &modelNS{salt: 1}
					runtime.SetFinalizer(ns, func(*modelNS) { freed.Add(1) })
					return ns
				})
				if err != nil {
					c.Failf("NewListener: %v", err)
				}
			}
			if len(p.Conns) > 0 && p.Conns[0].Trace {
				l.Trace = sink
			}
			c.Cleanup(func() { l.Shutdown() }) // the listener lives on
			run = func(e endC27) *watched { return serverC27(c, l, e, p.Ufs) }
		}
		for _, e := range p.Conns {
			e := e
			f := func() {
				v, h, _ := guard(func() {
					w := run(e)
					mu.Lock()
					theirs = append(theirs, w)
					mu.Unlock()
				})
				mu.Lock()
				defer mu.Unlock()
				if h != nil {
					vs = append(vs, &violation{Msg: "harness: " + h.Msg})
				}
				if v != nil {
					vs = append(vs, v)
				}
			}
			if !p.Par {
				f()
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				f()
			}()
		}
		wg.Wait()
		for _, v := range vs {
			if strings.HasPrefix(v.Msg, "harness: ") {
				c.Broken("%s", v.Msg)
			}
			panic(v)
		}
	}()
	who := "server"
	if p.Client {
		who = "client"
	}
	if !waitFor(opTimeout, func() bool { return len(ours()) <= base }) {
		o := ours()
		c.Hangf("%d connections of a %s have ended, but %d goroutines go on (%d did before), such as\n%s", len(p.Conns), who, len(o), base, tail(o[len(o)-1], 2000))
	}
	for i, w := range theirs {
		if !w.closed.Load() {
			c.Failf("connection %d has ended and the %s's goroutines have finished, but the %s has not closed its end of it", i, who, who)
		}
	}
	// One or two may be held by chance; what accumulates is not.
	few := int64(2)
	if !waitFor(opTimeout, func() bool {
		runtime.GC()
		return states.Load()-freed.Load() <= few && (root == "" || int64(fdsUnder(root)) <= few)
	}) {
		if root != "" {
			c.Hangf("all connections have ended, but %d files are still open", fdsUnder(root))
		}
		c.Hangf("%d connections of a %s have ended, but the state of %d of them is still kept", len(p.Conns), who, states.Load()-freed.Load())
	}
	for _, e := range p.Conns {
		c.Label("%s: %s", who, e.End)
	}
	if root != "" {
		c.Label("files")
	}
	c.NonTrivial()
}

// serverC27 is a connection to a server from its beginning to its end.
func serverC27(c *Ctx, l *protocol.Listener, e endC27, isUfs bool) *watched {
	a, b := pairC27(c, e.Net)
	defer a.Close()
	if err := l.Accept(b); err != nil {
		c.Failf("Accept: %v", err)
	}
	pr := newPeer(a)
	n := uint16(0)
	do := func(m M) {
		n++
		m.Tag = n
		a.SetWriteDeadline(time.Now().Add(opTimeout))
		if _, err := a.Write(encode(m)); err != nil {
			c.Hangf("write: %v", err)
		}
		r, err := pr.recv(opTimeout)
		if err == errTimeout {
			c.Hangf("%v", m)
		}
		if err != nil {
			c.Failf("%v is not answered: %v", m, err)
		}
		checkReply(c, "server", r, m)
	}
	do(M{T: tTversion, N: 8192, S1: "9P2000"})
	if isUfs {
		do(M{T: tTattach, Fid: 0, Fid2: noFid, S1: "u"})
		for k := 0; k < e.Files; k++ {
			names := []string{fmt.Sprintf("f%d", k)}
			if k == 3 {
				names = nil
			}
			do(M{T: tTwalk, Fid: 0, Fid2: uint32(k + 1), Names: names})
			do(M{T: tTopen, Fid: uint32(k + 1), Mode: 0})
		}
	}
	for _, m := range e.Reqs {
		if isReq(m.T) {
			q := m.M()
			if isUfs && q.T != tTflush {
				q = M{T: tTread, Fid: uint32(q.Tag % 6), N: 100}
			}
			do(q)
		}
	}
	part := encode(M{T: tTwrite, Tag: 5, Fid: 1, Data: make([]byte, 30)})
	if e.Cut >= 0 && e.Cut < len(part) {
		part = part[:e.Cut]
	} else {
		part = part[:len(part)-1]
	}
	gone := func() {
		// The server closes the connection by itself.
		if r, err := pr.recv(opTimeout); err == errTimeout {
			c.Hangf("the server does not close the connection (%s)", e.End)
		} else if err == nil {
			c.Failf("unexpected reply % x", tailB(r))
		}
	}
	a.SetWriteDeadline(time.Now().Add(opTimeout))
	switch e.End {
	case "cut":
		a.Write(part)
	case "half":
		a.Write(part)
		switch x := a.(type) {
		case *net.TCPConn:
			x.CloseWrite()
			gone()
		case *mconn:
			x.w.end(io.EOF)
			gone()
		}
	case "size":
		a.Write([]byte{byte(e.Cut % 7), 0, 0, 0, tTclunk, 1, 0})
		gone()
	case "stall", "stallcut":
		// Requests whose replies nobody takes.
		a.SetWriteDeadline(time.Now().Add(50 * time.Millisecond))
		var out []byte
		for k := 0; k < 30; k++ {
			out = append(out, encode(M{T: tTread, Tag: uint16(k), Fid: 1, N: 8000})...)
		}
		if e.End == "stallcut" {
			out = append(out, part...)
		}
		switch x := a.(type) {
		case *mconn:
			x.Write(out)
			x.r.rend()
		default:
			a.Write(out)
		}
	case "reset":
		reset(a)
	}
	a.Close()
	return b
}

// clientC27 is a client from its beginning to its end.
func clientC27(c *Ctx, e endC27, states, freed *atomic.Int64) *watched {
	a, b := pairC27(c, e.Net)
	defer a.Close()
	var cl *protocol.Client
	if e.Trace {
		cl = newTraced(c, b, sink)
	} else {
		cl = newTraced(c, b, nil)
	}
	states.Add(1)
	runtime.SetFinalizer(cl, func(*protocol.Client) { freed.Add(1) })
	pr := newPeer(a)
	for _, m := range e.Reqs {
		if !isReq(m.T) {
			continue
		}
		cr := startCall(cl, m.M(), 0)
		raw, err := pr.recv(opTimeout)
		if err == errTimeout {
			c.Hangf("no request for %v", m)
		}
		if err != nil {
			c.Failf("no request for %v: %v", m, err)
		}
		r := onWire(resFor(1, m.M()))
		r.Tag = le.Uint16(raw[5:])
		a.SetWriteDeadline(time.Now().Add(opTimeout))
		a.Write(encode(r))
		cr.wait(c, "client")
	}
	var out []*callRes
	for k := 0; k < e.Files; k++ {
		out = append(out, startCall(cl, M{T: tTread, Fid: uint32(k), N: 10}, k))
		if _, err := pr.recv(opTimeout); err != nil {
			c.Hangf("no request: %v", err)
		}
	}
	if e.Drain && e.End != "wfail" {
		if !within(opTimeout, func() {
			for k := len(out); k < 65534; k++ {
				cl.GetTag()
			}
		}) {
			c.Hangf("taking all tags of a client")
		}
		out = append(out, startCall(cl, M{T: tTclunk, Fid: 1}, 0))
		time.Sleep(5 * time.Millisecond)
		c.Label("client without tags")
	}
	part := encode(M{T: tRread, Tag: 5, Data: make([]byte, 30)})
	if e.Cut >= 0 && e.Cut < len(part) {
		part = part[:e.Cut]
	} else {
		part = part[:len(part)-1]
	}
	a.SetWriteDeadline(time.Now().Add(opTimeout))
	switch e.End {
	case "cut":
		a.Write(part)
		a.Close()
	case "user":
		b.Conn.Close()
		b.closed.Store(true)
	case "size":
		a.Write([]byte{byte(e.Cut % 7), 0, 0, 0, tRclunk, 1, 0})
		if _, err := pr.recv(opTimeout); err == errTimeout {
			c.Hangf("the client does not close the connection after a message that is none")
		}
	case "reset":
		reset(a)
	case "wfail":
		// Writing fails, while reading would just wait.
		switch x := b.Conn.(type) {
		case *mconn:
			x.w.mu.Lock()
			x.w.limit, x.w.werr = x.w.total, errReset
			x.w.mu.Unlock()
		case *net.TCPConn:
			x.CloseWrite()
		default:
			b.Conn.Close()
			b.closed.Store(true)
		}
		out = append(out, startCall(cl, M{T: tTclunk, Fid: 1}, 0))
	default:
		a.Close()
	}
	for _, cr := range out {
		cr.wait(c, "client ("+e.End+")")
		if cr.err == nil {
			c.Failf("a call that was not answered returned %v", cr.r)
		}
	}
	return b
}

func init() {
	register(&Prop{ID: "C27", Rule: "every connection of the case was brought to its end and what remains of it was examined", Unpriv: true, Quick: 3000, Thorough: 60000,
		Assume: []string{"a connection is one stream for both directions", "what the garbage collector can reclaim counts as given back, and one or two instances may be held by chance"},
		New:    func() interface{} { return new(planC27) }, Gen: genC27, Run: runC27})
}
