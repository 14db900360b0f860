package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

// C26: the client library, the listener and the file server together. Several
// users share clients; each works in a subtree of its own, with fids its
// client handed out, and has to see what a file system would show.

type planC26 struct {
	User    Str
	Debug   bool `json:",omitempty"`
	LTrace  bool `json:",omitempty"`
	CTrace  bool `json:",omitempty"`
	Net     int  // 0 in memory, 1 TCP, 2 net.Pipe
	Clients int
	Msize   uint32
	Users   []sessC08 // user i uses client i modulo Clients
}

func genC26(g *G) interface{} {
	p := &planC26{User: "harvey", Debug: g.P(15), LTrace: g.P(15), CTrace: g.P(15), Net: g.W(70, 20, 10), Clients: g.W(0, 80, 20),
		Msize: pick(g, uint32(8192), 8192, 1024, 300, 65536)}
	ids := []string{"C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"}
	for n := g.R(1, 6); n > 0; n-- {
		w := fsFocus[pick(g, ids...)]
		w.lists = 0
		s := sessC08{}
		for k := g.R(1, 6); k > 0; k-- {
			s.Init = append(s.Init, g.hostOp(w, true))
		}
		for k := g.R(3, 25); k > 0; k-- {
			if g.P(6) {
				s.Ops = append(s.Ops, g.listing()...)
				continue
			}
			op := g.fsOp(w)
			if op.K == "version" {
				op = Op{K: "probe"}
			}
			s.Ops = append(s.Ops, op)
		}
		p.Users = append(p.Users, s)
	}
	return p
}

// call makes a request with the client library. The library's errors are taken
// as the server's.
func (x *fsx) call(m M) M {
	orig := m
	conv := func(n uint32, fresh bool) uint32 {
		if n == noFid {
			return n
		}
		if _, ok := x.fmap[n]; !ok || fresh {
			x.fmap[n] = uint32(x.cl.GetFID())
		}
		return x.fmap[n]
	}
	switch m.T {
	case tTversion, tTflush:
	case tTattach:
		m.Fid = conv(m.Fid, x.fids[m.Fid] == nil)
	case tTwalk:
		m.Fid = conv(m.Fid, false)
		m.Fid2 = conv(m.Fid2, orig.Fid2 != orig.Fid && x.fids[orig.Fid2] == nil)
	default:
		m.Fid = conv(m.Fid, false)
	}
	arg := m.Data
	keep := append([]byte(nil), m.Data...)
	cr := startCall(x.cl, m, 0)
	t := time.NewTimer(opTimeout)
	defer t.Stop()
	select {
	case <-cr.done:
	case <-t.C:
		x.c.Hangf("%v\nhistory:\n  %s", m, strings.Join(x.hist, "\n  "))
	}
	r := cr.r
	if cr.err != nil {
		r = M{T: tRerror, S1: cr.err.Error()}
	}
	x.logf("%v (fid %d) -> %v", orig, m.Fid, r)
	if !bytes.Equal(arg, keep) {
		x.c.Failf("the data passed to a call was changed by it: %v\nhistory:\n  %s", orig, strings.Join(x.hist, "\n  "))
	}
	if len(r.Data) > 0 && len(x.kept) < 200 {
		x.kept = append(x.kept, [2][]byte{r.Data, append([]byte(nil), r.Data...)})
	}
	if r.T == tRread && uint64(len(r.Data)) > uint64(m.N) {
		x.c.Failf("a read returned %d bytes: %v\nhistory:\n  %s", len(r.Data), orig, strings.Join(x.hist, "\n  "))
	}
	return r
}

func runC26(c *Ctx, pl interface{}) {
	p := pl.(*planC26)
	if len(p.Users) == 0 {
		return
	}
	root := newRoot(c)
	var xs []*fsx
	for i, s := range p.Users {
		sub := &Ctx{Dir: c.Dir, Prop: c.Prop, labels: map[string]int{}}
		x := newFsx(sub, root, fmt.Sprintf("/s%d", i), string(p.User))
		x.umask, x.multi, x.fmap = 022, true, map[uint32]uint32{}
		c.Must(os.Mkdir(x.host(x.base), 0755))
		x.load()
		for _, op := range s.Init {
			if strings.HasPrefix(op.K, "h") {
				x.doHost(op)
			}
		}
		xs = append(xs, x)
	}
	l := ufsListener(c, root, string(p.User), p.Debug)
	if p.LTrace {
		l.Trace = sink
	}
	addr := ""
	if p.Net == 1 {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		c.Must(err)
		addr = ln.Addr().String()
		go l.Serve(ln)
		c.Cleanup(func() { ln.Close() })
	}
	nc := p.Clients
	if nc < 1 {
		nc = 1
	}
	ms := p.Msize
	if ms < 256 {
		ms = 8192
	}
	var cls []*protocol.Client
	for k := 0; k < nc; k++ {
		var conn net.Conn
		if addr != "" {
			a, err := net.Dial("tcp", addr)
			c.Must(err)
			conn = a
		} else {
			var b net.Conn
			if p.Net == 2 {
				conn, b = net.Pipe()
			} else {
				conn, b = memPair()
			}
			if err := l.Accept(b); err != nil {
				c.Failf("Accept: %v", err)
			}
		}
		c.Cleanup(func() { conn.Close() })
		cls = append(cls, newClient(c, conn, p.CTrace))
	}
	agreed := make([]uint32, nc)
	for k, cl := range cls {
		cr := startCall(cl, M{T: tTversion, N: ms, S1: "9P2000"}, 0)
		cr.wait(c, "version")
		if cr.err != nil || cr.r.S1 != "9P2000" || cr.r.N > ms {
			c.Failf("version with msize %d: %v, %v", ms, cr.r, cr.err)
		}
		agreed[k] = cr.r.N
	}
	var wg sync.WaitGroup
	vs := make([]*violation, len(xs))
	hs := make([]*harnessError, len(xs))
	gave := make([]bool, len(xs))
	for i, x := range xs {
		i, x := i, x
		x.cl, x.msize = cls[i%nc], agreed[i%nc]
		wg.Add(1)
		go func() {
			defer wg.Done()
			vs[i], hs[i], gave[i] = guard(func() {
				x.do(Op{K: "attach"})
				for _, op := range p.Users[i].Ops {
					if op.K == "version" || op.K == "drop" {
						continue
					}
					x.do(op)
				}
				x.do(Op{K: "probe"})
			})
		}()
	}
	wg.Wait()
	for i, x := range xs {
		for k, n := range x.c.labels {
			c.labels[k] += n
		}
		if hs[i] != nil {
			panic(hs[i])
		}
		if vs[i] != nil {
			panic(vs[i])
		}
	}
	n, data := 0, false
	for i, x := range xs {
		for _, k := range x.kept {
			if !bytes.Equal(k[0], k[1]) {
				c.Failf("user %d: data a call returned has changed since: %s is now %s", i, sum(k[1]), sum(k[0]))
			}
			data = true
		}
		if !gave[i] && x.nops > 3 {
			n++
		}
	}
	// Nobody touched what belongs to nobody.
	es, err := os.ReadDir(root)
	c.Must(err)
	if len(es) != len(xs) {
		c.Failf("the exported directory has %d entries, not %d", len(es), len(xs))
	}
	c.Label("%s", [...]string{"in memory", "TCP", "net.Pipe"}[uint(p.Net)%3])
	if len(xs) > nc {
		c.Label("users share a client")
	}
	if n == len(xs) && data {
		c.NonTrivial()
	}
}

// sink is a tracer that looks at everything it is given.
func sink(f string, a ...interface{}) { sinkLen.Add(int64(len(fmt.Sprintf(f, a...)))) }

var sinkLen atomic.Int64

func init() {
	register(&Prop{ID: "C26", Rule: "every user's history was executed to its end, with more than three operations, and at least one call returned data", Unpriv: true, Quick: 6000, Thorough: 80000,
		Assume: []string{"users work in disjoint subtrees of one exported tree, so that each one's results are determined by its own history"},
		New:    func() interface{} { return new(planC26) }, Gen: genC26, Run: runC26})
}
