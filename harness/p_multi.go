package main

import (
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

// C08: several connections to one file server. Each works in a subtree of its
// own, with the same fid numbers, and must see exactly what it would alone.

type sessC08 struct {
	Init  []Op
	Ops   []Op
	Msize uint32
}

type planC08 struct {
	User  Str
	Debug bool `json:",omitempty"`
	Sess  []sessC08
	Order []int // the interleaving; empty: all at once
	Bad   []badC08
	TCP   bool `json:",omitempty"`
	// Burst, if not nil, is executed instead of the above.
	Burst *burstC08 `json:",omitempty"`
}

// burstC08 is a number of sessions that each send a stream of requests as fast
// as they can, with connections coming and going besides. The streams are
// functions of the seed. What a session is answered must be what it is
// answered when it runs alone on the same tree.
type burstC08 struct {
	Seed  int64
	N     int // sessions
	Len   int // requests of each
	Pipe  int // how many requests a session may have outstanding
	Churn int // connections that come and go
}

// badC08 is a further connection that misbehaves: it sends Req and then part
// of a message, and is left there, stops reading, or disconnects.
type badC08 struct {
	At   int // before this step
	Req  []Msg
	Cut  int
	Junk Str
	How  string // idle, close, stall, fifo
}

func genC08(g *G) interface{} {
	p := &planC08{User: "harvey", Debug: g.P(10), TCP: g.P(5)}
	if g.P(12) {
		p.Burst = &burstC08{Seed: int64(g.r.Uint32()), N: g.R(2, 6), Len: g.R(60, 500), Pipe: pick(g, 1, 1, 2, 8, 64), Churn: pick(g, 0, 0, 1, 20)}
		return p
	}
	ids := []string{"C14", "C15", "C16", "C17", "C18", "C20", "C21"}
	n := g.R(2, 4)
	total := 0
	for i := 0; i < n; i++ {
		w := fsFocus[pick(g, ids...)]
		w.lists = 0
		s := sessC08{Msize: pick(g, uint32(8192), 8192, 1024, 300, 65536)}
		for k := g.R(1, 6); k > 0; k-- {
			s.Init = append(s.Init, g.hostOp(w, true))
		}
		for k := g.R(3, 18); k > 0; k-- {
			if g.P(5) {
				s.Ops = append(s.Ops, Op{K: "drop", N: uint32(g.N(3))})
				continue
			}
			if g.P(5) {
				s.Ops = append(s.Ops, g.listing()...)
				continue
			}
			s.Ops = append(s.Ops, g.fsOp(w))
		}
		// All sessions like to do the same things to the same fids.
		if i > 0 && g.P(30) {
			s.Ops = append([]Op(nil), p.Sess[0].Ops...)
			s.Init = append([]Op(nil), p.Sess[0].Init...)
		}
		p.Sess = append(p.Sess, s)
		total += len(s.Ops) + 1
	}
	if g.P(65) {
		for k := 0; k < total; k++ {
			p.Order = append(p.Order, g.N(n))
		}
	}
	for k := g.W(50, 30, 20); k > 0; k-- {
		b := badC08{At: g.N(total), How: pick(g, "idle", "close", "stall", "fifo"), Cut: g.N(20)}
		for j := g.N(4); j > 0; j-- {
			b.Req = append(b.Req, g.reqMsg())
		}
		if g.P(30) {
			b.Junk = Str(g.Bytes(g.N(30)))
		}
		p.Bad = append(p.Bad, b)
	}
	return p
}

// one runs f and returns the violation or abandonment in it.
func guard(f func()) (v *violation, h *harnessError, gaveUp bool) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case *violation:
			v = x
		case *harnessError:
			h = x
		case *abandon:
			gaveUp = true
		default:
			panic(x)
		}
	}()
	f()
	return
}

type multi struct {
	c    *Ctx
	l    *protocol.Listener
	xs   []*fsx
	dead []bool // given up
	next []int
	p    *planC08
	addr string

	root  string
	fifos int

	release []func() // lets requests end
}

func (m *multi) connect(x *fsx) {
	if m.addr == "" {
		x.connect(m.l)
		return
	}
	conn, err := net.Dial("tcp", m.addr)
	if err != nil {
		m.c.Broken("dial: %v", err)
	}
	x.c.Cleanup(func() { conn.Close() })
	x.conn, x.pr = conn, newPeer(conn)
}

// setup makes the subtrees and connections of the sessions in which.
func (m *multi) setup(root string, which func(i int) bool) {
	m.root = root
	for i, s := range m.p.Sess {
		sub := &Ctx{Dir: m.c.Dir, Prop: m.c.Prop, labels: map[string]int{}}
		x := newFsx(sub, root, fmt.Sprintf("/s%d", i), string(m.p.User))
		x.umask, x.multi = 022, true
		m.c.Must(os.Mkdir(x.host(x.base), 0755))
		x.load()
		for _, op := range s.Init {
			if strings.HasPrefix(op.K, "h") {
				x.doHost(op)
			}
		}
		m.xs = append(m.xs, x)
	}
	m.dead = make([]bool, len(m.xs))
	m.next = make([]int, len(m.xs))
	m.l = ufsListener(m.c, root, string(m.p.User), m.p.Debug)
	if m.p.TCP {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		m.c.Must(err)
		m.addr = ln.Addr().String()
		go m.l.Serve(ln)
		m.c.Cleanup(func() { ln.Close() })
	}
	for i, x := range m.xs {
		if which(i) {
			m.connect(x)
		} else {
			m.dead[i] = true
		}
	}
}

func (m *multi) close() {
	m.free()
	for _, x := range m.xs {
		for k, n := range x.c.labels {
			m.c.labels[k] += n
		}
		for _, f := range x.c.cleanup {
			f()
		}
	}
}

// step does the next operation of session i; it reports false at the end.
func (m *multi) step(i int) bool {
	x, s := m.xs[i], m.p.Sess[i]
	k := m.next[i]
	if m.dead[i] || k > len(s.Ops) {
		return false
	}
	m.next[i]++
	_, _, gave := guardV(func() {
		if k == 0 {
			x.do(Op{K: "version", N: s.Msize})
			x.do(Op{K: "attach"})
			return
		}
		op := s.Ops[k-1]
		if op.K != "drop" {
			x.do(op)
			return
		}
		// Disconnect, perhaps in the middle of a message, and come again.
		if op.N > 0 {
			b := encode(M{T: tTwrite, Tag: 9, Fid: 1, Data: []byte("incomplete")})
			x.conn.Write(b[:len(b)-int(op.N)*5])
		}
		x.conn.Close()
		x.fids, x.dead = map[uint32]*mfid{}, map[uint32]string{}
		m.connect(x)
		x.logf("disconnected")
		x.c.Label("disconnect")
		x.do(Op{K: "version", N: s.Msize})
		x.do(Op{K: "attach"})
	})
	if gave {
		m.dead[i] = true
	}
	return !m.dead[i]
}

// guardV lets violations and harness errors through.
func guardV(f func()) (v *violation, h *harnessError, gaveUp bool) {
	v, h, gaveUp = guard(f)
	if v != nil {
		panic(v)
	}
	if h != nil {
		panic(h)
	}
	return
}

func (m *multi) free() {
	for _, f := range m.release {
		f()
	}
	m.release = nil
}

func (m *multi) bad(b badC08) {
	var conn io.ReadWriteCloser
	if b.How == "stall" && m.addr == "" {
		// A connection on which the server's writes are never taken.
		a, z := net.Pipe()
		if err := m.l.Accept(z); err != nil {
			m.c.Failf("Accept: %v", err)
		}
		a.SetWriteDeadline(time.Now().Add(200 * time.Millisecond))
		conn = a
	} else if m.addr == "" {
		a, z := memPair()
		if err := m.l.Accept(z); err != nil {
			m.c.Failf("Accept: %v", err)
		}
		conn = a
	} else {
		a, err := net.Dial("tcp", m.addr)
		if err != nil {
			return
		}
		conn = a
	}
	m.c.Cleanup(func() { conn.Close() })
	var out []byte
	out = append(out, encode(M{T: tTversion, Tag: 65535, N: 8192, S1: "9P2000"})...)
	out = append(out, encode(M{T: tTattach, Tag: 1, Fid: 0, Fid2: noFid, S1: "u", S2: "/"})...)
	for _, r := range b.Req {
		q := r.M()
		switch q.T {
		case tTcreate, tTremove, tTwstat, tTwrite: // not in the others' trees
			q = M{T: tTstat, Tag: q.Tag, Fid: q.Fid}
		case tTopen:
			q.Mode &= 3 // no truncation
		}
		out = append(out, encode(q)...)
	}
	if b.How == "fifo" {
		// A request that takes until somebody else does something.
		m.fifos++
		name := fmt.Sprintf("fifo%d", m.fifos)
		p := filepath.Join(m.root, name)
		m.c.Must(syscall.Mkfifo(p, 0666))
		m.release = append(m.release, func() {
			if f, err := os.OpenFile(p, os.O_RDWR|syscall.O_NONBLOCK, 0); err == nil {
				time.Sleep(time.Millisecond)
				f.Close()
			}
		})
		out = append(out, encode(M{T: tTwalk, Tag: 1, Fid: 0, Fid2: 9999, Names: []string{name}})...)
		out = append(out, encode(M{T: tTopen, Tag: 2, Fid: 9999, Mode: uint8(b.Cut % 2)})...)
		m.c.Label("request that does not end")
	}
	part := encode(M{T: tTread, Tag: 3, Fid: 0, N: 10})
	if b.Cut < len(part) {
		part = part[:b.Cut]
	}
	out = append(append(out, part...), b.Junk...)
	if b.How == "stall" {
		go conn.Write(out)
		return
	}
	conn.Write(out)
	if b.How == "close" {
		conn.Close()
	}
}

func runC08(c *Ctx, pl interface{}) {
	p := pl.(*planC08)
	if p.Burst != nil {
		runBurst(c, p)
		return
	}
	if len(p.Sess) == 0 {
		return
	}
	root := newRoot(c)
	m := &multi{c: c, p: p}
	m.setup(root, func(int) bool { return true })
	defer m.close()
	v, h, _ := guard(func() { m.all() })
	if h != nil {
		panic(h)
	}
	if v == nil {
		n := 0
		for i := range m.xs {
			if !m.dead[i] && m.xs[i].nops > 3 {
				n++
			}
		}
		if n > 1 {
			c.NonTrivial()
		}
		return
	}
	m.free()
	// Something is wrong. Is it when the sessions run alone, too?
	for i := range p.Sess {
		r2 := newRoot(c)
		a := &multi{c: c, p: &planC08{User: p.User, Debug: p.Debug, Sess: p.Sess}}
		a.setup(r2, func(k int) bool { return k == i })
		v2, h2, _ := guard(func() {
			for a.step(i) {
			}
		})
		a.close()
		if h2 != nil {
			panic(h2)
		}
		if v2 != nil {
			c.Label("given up: fails without other connections")
			return
		}
	}
	v.Msg = "with several connections (alone, each works): " + v.Msg
	panic(v)
}

func (m *multi) all() {
	p := m.p
	if len(p.Order) > 0 {
		m.c.Label("interleaved")
		for k, i := range p.Order {
			for _, b := range p.Bad {
				if b.At == k {
					m.bad(b)
				}
			}
			if i = i % len(m.xs); i >= 0 {
				m.step(i)
			}
		}
		for i := range m.xs {
			for m.step(i) {
			}
		}
		// At the end, all is as each session left it.
		for i, x := range m.xs {
			if !m.dead[i] && m.next[i] > 0 {
				_, _, m.dead[i] = guardV(func() { x.do(Op{K: "probe"}) })
			}
		}
		return
	}
	m.c.Label("concurrent")
	var wg sync.WaitGroup
	vs := make([]*violation, len(m.xs))
	hs := make([]*harnessError, len(m.xs))
	for i := range m.xs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			vs[i], hs[i], _ = guard(func() {
				for m.step(i) {
				}
			})
		}()
	}
	for _, b := range p.Bad {
		m.bad(b)
	}
	wg.Wait()
	for i := range m.xs {
		if hs[i] != nil {
			panic(hs[i])
		}
		if vs[i] != nil {
			panic(vs[i])
		}
	}
}

func init() {
	register(&Prop{ID: "C08", Rule: "at least two sessions executed more than three operations each to their end", Unpriv: true, Quick: 4000, Thorough: 60000,
		Assume: []string{"sessions work in disjoint subtrees of one exported tree, so that each one's replies are determined by its own history", "a stalled or silent connection is judged over the length of the case only"},
		New:    func() interface{} { return new(planC08) }, Gen: genC08, Run: runC08})
}
