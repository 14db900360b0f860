package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

func sameCalls(c *Ctx, what string, got, want []M) {
	for i := range got {
		if i >= len(want) {
			c.Failf("%s: the file server was also called with %v", what, got[i])
		}
		w := want[i]
		w.Tag = 0
		if !got[i].equal(w) {
			c.Failf("%s: call %d of the file server was %v, want %v", what, i, got[i], w)
		}
	}
	if len(got) < len(want) {
		c.Failf("%s: the file server was not called with %v", what, want[len(got)])
	}
}

// reqMsg makes a request. It keeps contents mostly small.
func (g *G) reqMsg() Msg { return g.Msg(tTypes[g.N(len(tTypes))], g.P(8)) }

// ---- C04

type planC04 struct {
	Salt  uint32
	Kind  int // 0: in-memory, pipelined; 1: in-memory, one at a time; 2: net.Pipe
	Reqs  []Msg
	Cuts  []int
	Tail  Msg
	TailN int // bytes of Tail sent before the end of the stream
	EOF   int // 1: the end comes with the last bytes; 2: as an error
}

func genC04(g *G) interface{} {
	p := &planC04{Salt: g.r.Uint32(), Kind: g.W(55, 25, 20), Cuts: g.Cuts(), EOF: g.N(3)}
	n := g.R(1, 12)
	if g.P(5) {
		n = g.R(50, 400)
	}
	for i := 0; i < n; i++ {
		m := g.reqMsg()
		if n > 50 {
			m = g.Msg(tTypes[g.N(len(tTypes))], false)
		}
		if g.P(20) { // tags need not differ
			m.Tag = pick(g, uint16(0), 1, 65535)
		}
		p.Reqs = append(p.Reqs, m)
	}
	switch {
	case g.Idx%1000 == 11: // a long session
		for n = g.R(2000, 9000); n > 0; n-- {
			m := g.Msg(tTypes[g.N(len(tTypes))], false)
			if m.Data.Len() > 100 {
				m.Data = Blob{N: g.N(100)}
			}
			p.Reqs = append(p.Reqs, m)
		}
	case g.Idx%3000 == 13: // a message of more than 16 MB
		p.Reqs = append(p.Reqs, Msg{T: tTwrite, Tag: 3, Fid: 1, Data: Blob{N: 1<<24 + g.N(1<<20), S: uint32(g.N(100))}}, g.reqMsg())
	}
	if g.P(70) {
		p.Tail = g.reqMsg()
		l := len(encode(p.Tail.M()))
		p.TailN = g.R(1, l-1)
		if g.P(40) && l > 8 {
			p.TailN = pick(g, 4, 5, 6, 7, l-1, l-2)
		}
	}
	return p
}

func checkReply(c *Ctx, what string, b []byte, req M) M {
	r, ok := decode(b)
	if !ok {
		c.Failf("%s: reply to %v is malformed: % x", what, req, tailB(b))
	}
	if r.Tag != req.Tag {
		c.Failf("%s: reply to %v has tag %d: %v", what, req, r.Tag, r)
	}
	if r.T != tRerror && r.T != req.T+1 {
		c.Failf("%s: reply to %v is %v", what, req, r)
	}
	return r
}

func tailB(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func recvReply(c *Ctx, pr *peer, what string, req M) []byte {
	b, err := pr.recv(opTimeout)
	if err == errTimeout {
		c.Hangf("%s: reply to %v", what, req)
	}
	if err != nil {
		c.Failf("%s: instead of a reply to %v: %v", what, req, err)
	}
	return b
}

func runC04(c *Ctx, pl interface{}) {
	p := pl.(*planC04)
	reqs := []M{{T: tTversion, Tag: 65535, N: 8192, S1: "9P2000"}}
	for _, m := range p.Reqs {
		if _, ok := layouts[m.T]; !ok || m.T%2 != 0 {
			return
		}
		reqs = append(reqs, m.M())
	}
	// The same requests one by one in whole pieces, on a connection of its own.
	var base [][]byte
	f0 := newFarm(c, p.Salt)
	a0 := f0.dial(c)
	p0 := newPeer(a0)
	for _, m := range reqs {
		a0.Write(encode(m))
		b := recvReply(c, p0, "whole pieces", m)
		checkReply(c, "whole pieces", b, m)
		base = append(base, b)
	}
	sameCalls(c, "whole pieces", f0.served()[0].taken(), reqs)

	f := newFarm(c, p.Salt)
	var a io.ReadWriteCloser
	var mem *mconn
	if p.Kind == 2 {
		x, y := net.Pipe()
		if err := f.l.Accept(y); err != nil {
			c.Failf("Accept: %v", err)
		}
		a = x
		c.Cleanup(func() { x.Close() })
	} else {
		mem = f.dial(c)
		if p.EOF == 1 {
			mem.w.eofLast = true
		}
		a = mem
	}
	pr := newPeer(a)
	k := 0
	werr := make(chan error, 1)
	var tail []byte
	if p.TailN > 0 && layouts[p.Tail.T] != "" && p.Tail.T%2 == 0 {
		tail = encode(p.Tail.M())
		if p.TailN < len(tail) {
			tail = tail[:p.TailN]
		} else {
			tail = tail[:len(tail)-1]
		}
	}
	check := func(i int) {
		b := recvReply(c, pr, "cut up", reqs[i])
		checkReply(c, "cut up", b, reqs[i])
		if !bytes.Equal(b, base[i]) {
			x, _ := decode(b)
			y, _ := decode(base[i])
			c.Failf("cut up, reply %d is %v; sent in whole pieces it is %v", i, x, y)
		}
	}
	fin := func() {
		if mem != nil {
			e := error(io.EOF)
			if p.EOF == 2 {
				e = errReset
			}
			mem.w.end(e)
		}
	}
	if p.Kind == 1 {
		for i, m := range reqs {
			writeCut(a, encode(m), p.Cuts, &k)
			check(i)
		}
		writeCut(a, tail, p.Cuts, &k)
		fin()
	} else {
		go func() {
			var s []byte
			for _, m := range reqs {
				s = append(s, encode(m)...)
			}
			err := writeCut(a, append(s, tail...), p.Cuts, &k)
			fin()
			werr <- err
		}()
		for i := range reqs {
			check(i)
		}
		select {
		case <-werr:
		case <-time.After(opTimeout):
			c.Hangf("the server does not read all requests")
		}
	}
	if p.Kind == 2 {
		// The end of the stream takes the replies with it here.
		a.Close()
	}
	b, err := pr.recv(opTimeout)
	if err == nil {
		c.Failf("a further reply: % x", tailB(b))
	}
	if mem != nil && err != io.EOF && err != errTimeout {
		c.Failf("after the last reply: %v", err)
	}
	sv := f.served()
	if len(sv) != 1 {
		c.Failf("%d file servers were called for one connection", len(sv))
	}
	sameCalls(c, "cut up", sv[0].taken(), reqs)
	c.Label("kind %d", p.Kind)
	if len(p.Cuts) > 0 && len(reqs) > 2 {
		c.NonTrivial()
	}
	if len(tail) > 0 {
		c.Label("tail cut off")
	}
	if len(reqs) > 50 {
		c.Label("long")
	}
}

// ---- C05

type planC05 struct {
	Salt  uint32
	Calls []Msg
	Par   int // goroutines
	Pipe  bool
}

func genC05(g *G) interface{} {
	p := &planC05{Salt: g.r.Uint32(), Par: 1, Pipe: g.P(25)}
	n := g.R(2, 12)
	if g.P(20) {
		p.Par = g.R(2, 5)
		n = g.R(4, 24)
	}
	for i := 0; i < n; i++ {
		p.Calls = append(p.Calls, g.Msg(tTypes[g.N(len(tTypes))], g.P(20)))
	}
	if g.Idx == 2 || g.Idx == 3 {
		p.Calls = []Msg{{T: tTwrite, Fid: 1, Off: 1 << 33, Data: Blob{N: 1<<24 + 5, S: 9}}, {T: tTread, Fid: 3, N: 1 << 20}}
	}
	return p
}

func runC05(c *Ctx, pl interface{}) {
	p := pl.(*planC05)
	f := newFarm(c, p.Salt)
	var a, b net.Conn
	if p.Pipe {
		a, b = net.Pipe()
	} else {
		a, b = memPair()
	}
	if err := f.l.Accept(b); err != nil {
		c.Failf("Accept: %v", err)
	}
	c.Cleanup(func() { a.Close(); b.Close() })
	cl, err := protocol.NewClient(func(c *protocol.Client) error {
		c.FromNet, c.ToNet = a, a
		return nil
	})
	if err != nil {
		c.Failf("NewClient: %v", err)
	}
	type res struct {
		m, arg, r M
		err       error
		data      []byte
	}
	calls := []M{{T: tTversion, N: 8192, S1: "9P2000"}}
	for _, m := range p.Calls {
		if _, ok := layouts[m.T]; !ok || m.T%2 != 0 {
			return
		}
		calls = append(calls, m.M())
	}
	var mu sync.Mutex
	var all []*res
	one := func(m M) {
		m.Tag = 0
		x := &res{m: m, arg: m}
		x.arg.Data = append([]byte(nil), m.Data...)
		x.arg.Names = strs(append([]string(nil), m.Names...))
		x.r, x.err = repoCall(cl, x.arg)
		mu.Lock()
		all = append(all, x)
		mu.Unlock()
	}
	if !within(opTimeout, func() { one(calls[0]) }) {
		c.Hangf("CallTversion")
	}
	par := p.Par
	if par < 1 {
		par = 1
	}
	var wg sync.WaitGroup
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 1 + k; i < len(calls); i += par {
				one(calls[i])
			}
		}(k)
	}
	if !within(opTimeout+time.Duration(len(calls))*100*time.Millisecond, wg.Wait) {
		c.Hangf("calls do not return")
	}
	for _, x := range all {
		if !x.arg.equal(x.m) {
			c.Failf("the arguments of %v were changed to %v", x.m, x.arg)
		}
		want := resFor(p.Salt, x.m)
		want.Tag = 0
		if want.T == tRerror {
			if x.err == nil {
				c.Failf("call %v returned %v, want error %s", x.m, x.r, short(want.S1))
			}
			got := x.err.Error()
			if got != want.S1 && !(len(want.S1) > 65535 && len(got) > 0 && strings.HasPrefix(want.S1, got)) {
				c.Failf("call %v returned error %s, want %s", x.m, short(got), short(want.S1))
			}
			c.Label("error")
			if len(want.S1) > 65535 {
				c.Label("error too long")
			}
			continue
		}
		if x.err != nil {
			c.Failf("call %v returned error %v, want %v", x.m, x.err, want)
		}
		if !x.r.equal(want) {
			c.Failf("call %v returned %v, want %v", x.m, x.r, want)
		}
		c.Label("%s", tname(x.m.T))
		if x.m.T != tTversion {
			c.NonTrivial()
		}
	}
	sv := f.served()
	if len(sv) != 1 {
		c.Failf("%d file servers were called for one connection", len(sv))
	}
	got := sv[0].taken()
	if par == 1 {
		sameCalls(c, "calls", got, calls)
	} else {
		key := func(m M) string { m.Tag = 0; return string(encode(m)) }
		n := map[string]int{}
		for _, m := range calls {
			n[key(m)]++
		}
		for _, m := range got {
			if n[key(m)]--; n[key(m)] < 0 {
				c.Failf("the file server was called with %v more often than the client", m)
			}
		}
		if len(got) != len(calls) {
			c.Failf("%d calls were made and %d arrived", len(calls), len(got))
		}
		c.Label("concurrent")
	}
}

// ---- C06

type rawReq struct {
	T    uint8 // type on the wire
	M    Msg
	Len  []lenMut
	Muts []mut
	Body Str  `json:",omitempty"`
	Raw  bool `json:",omitempty"` // Body instead of M
}

// bytes returns the framed request.
func (r rawReq) bytes() []byte {
	var body []byte
	if r.Raw {
		body = []byte(r.Body)
	} else if _, ok := layouts[r.M.T]; ok {
		cf := countFields(r.M.M())
		body = mutate(mutateLens(encode(r.M.M())[5:], cf, r.Len)[2:], r.Muts)
	}
	b := make([]byte, 7, 7+len(body))
	b[4] = r.T
	le.PutUint16(b[5:], r.M.Tag)
	b = append(b, body...)
	le.PutUint32(b, uint32(len(b)))
	return b
}

// parse tells what the request is, if it is well-formed.
func (r rawReq) parse() (M, bool) {
	if r.T%2 != 0 {
		return M{}, false
	}
	return decode(r.bytes())
}

func (g *G) rawReq() rawReq {
	m := g.Msg(tTypes[g.N(len(tTypes))], g.P(5))
	r := rawReq{T: m.T, M: m}
	switch g.W(25, 40, 15, 12, 8) {
	case 0: // valid
	case 1:
		if r.Len = g.lens(); r.Len == nil || g.P(30) {
			r.Muts = g.muts(len(encode(m.M())) - 7)
		}
	case 2: // a type that is no supported request
		r.T = pick(g, tTauth, tRauth, tTerror, tRerror, tRversion, tRattach, tRflush, tRread, tRstat, 0, 1, 99, 128, 129, 130, 200, 255, uint8(g.N(256)))
		if g.P(50) {
			if _, ok := layouts[r.T]; ok {
				r.M = g.Msg(r.T, false)
			}
		}
	case 3:
		r.T = tTypes[g.N(len(tTypes))]
	case 4:
		r.Raw = true
		r.Body = Str(g.Bytes(g.N(40)))
	}
	return r
}

type planC06 struct {
	Salt uint32
	Reqs []rawReq
	Cuts []int
	Pipe bool // pipelined
	End  int  // 0: nothing, 1: undersized message, 2: huge message cut off, 3: close
	Size uint32
	Junk Blob
	Wit  []int // requests after which the witness connection is tried
}

func genC06(g *G) interface{} {
	p := &planC06{Salt: g.r.Uint32(), Cuts: g.Cuts(), Pipe: g.P(50), End: g.W(20, 40, 20, 20), Size: uint32(g.N(7)), Junk: g.Blob(60)}
	for n := g.R(1, 14); n > 0; n-- {
		p.Reqs = append(p.Reqs, g.rawReq())
	}
	if p.End == 2 {
		p.Size = pick(g, 0x7FFFFFFF, 0xFFFFFFFF, 0x80000000, 1<<20, uint32(p.Junk.Len()+8), 1<<24)
	}
	if g.P(40) {
		p.Wit = append(p.Wit, g.N(len(p.Reqs)))
	}
	return p
}

func runC06(c *Ctx, pl interface{}) {
	p := pl.(*planC06)
	f := newFarm(c, p.Salt)
	ver := func(a *mconn, pr *peer, n uint32) {
		m := M{T: tTversion, Tag: 65535, N: n, S1: "9P2000"}
		a.Write(encode(m))
		if r := checkReply(c, "version", recvReply(c, pr, "version", m), m); r.T != tRversion {
			c.Failf("version request was answered with %v", r)
		}
	}
	wa := f.dial(c)
	wp := newPeer(wa)
	ver(wa, wp, 1001)
	nw := 0
	witness := func(a *mconn, pr *peer, what string) {
		nw++
		m := M{T: tTstat, Tag: uint16(nw), Fid: uint32(nw)}
		a.Write(encode(m))
		got := checkReply(c, what, recvReply(c, pr, what, m), m)
		want := onWire(resFor(p.Salt, m))
		want.Tag = m.Tag
		if !got.equal(want) {
			c.Failf("%s: %v is answered with %v, want %v", what, m, got, want)
		}
	}
	a := f.dial(c)
	pr := newPeer(a)
	ver(a, pr, 1002)
	type exp struct {
		raw []byte
		m   M
		ok  bool
	}
	var es []exp
	var stream []byte
	want := []M{{T: tTversion, N: 1002, S1: "9P2000"}}
	for _, r := range p.Reqs {
		e := exp{raw: r.bytes()}
		e.m, e.ok = r.parse()
		if e.ok {
			want = append(want, e.m)
		}
		es = append(es, e)
		stream = append(stream, e.raw...)
	}
	k := 0
	if p.Pipe {
		writeCut(a, stream, p.Cuts, &k)
	}
	for i, e := range es {
		if !p.Pipe {
			writeCut(a, e.raw, p.Cuts, &k)
		}
		what := fmt.Sprintf("request %d, % x", i, tailB(e.raw))
		b, err := pr.recv(opTimeout)
		if err == errTimeout {
			c.Hangf("%s", what)
		}
		if err != nil {
			c.Failf("%s is not answered: %v", what, err)
		}
		got, ok := decode(b)
		if !ok {
			c.Failf("%s: malformed reply % x", what, tailB(b))
		}
		if tag := le.Uint16(e.raw[5:]); got.Tag != tag {
			c.Failf("%s, tag %d: reply has tag %d", what, tag, got.Tag)
		}
		if e.ok {
			x := onWire(resFor(p.Salt, e.m))
			if got.T != x.T {
				c.Failf("%s is a well-formed %v and was answered with %v, want %v", what, e.m, got, x)
			}
			c.Label("well-formed")
		} else {
			if got.T != tRerror {
				c.Failf("%s is malformed and was answered with %v", what, got)
			}
			if _, sup := layouts[e.raw[4]]; sup && e.raw[4]%2 == 0 {
				c.Label("refused %s", tname(e.raw[4]))
			} else {
				c.Label("refused type that is no request")
			}
			c.NonTrivial()
		}
		for _, w := range p.Wit {
			if w == i {
				witness(wa, wp, "witness")
			}
		}
	}
	// "In step": a request after all of that.
	switch p.End {
	case 0:
		m := M{T: tTclunk, Tag: 77, Fid: 0xdead}
		a.Write(encode(m))
		checkReply(c, "in step", recvReply(c, pr, "in step", m), m)
		want = append(want, m)
	case 1, 2:
		h := make([]byte, 4)
		le.PutUint32(h, p.Size)
		j := p.Junk.Expand()
		if p.End == 1 {
			if p.Size >= 7 {
				return
			}
			h = append(h, tTclunk, 9, 0)
			h = append(h, j...)
			h = append(h, encode(M{T: tTclunk, Tag: 8, Fid: 0xbad})...)
		} else {
			h = append(h, tTclunk, 9, 0)
			if int(p.Size) > 7+len(j) {
				h = append(h, j...)
			}
			if int64(p.Size) <= int64(len(h)) {
				return
			}
		}
		writeCut(a, h, p.Cuts, &k)
		if p.End == 2 {
			a.w.end(io.EOF)
		}
		b, err := pr.recv(opTimeout)
		if err == nil {
			c.Failf("a message of declared size %d (%d bytes sent) was answered with % x", p.Size, len(h), tailB(b))
		}
		if err == errTimeout && p.End == 1 {
			c.Hangf("a message of declared size %d does not end the connection", p.Size)
		}
		c.Label("end %d", p.End)
		c.NonTrivial()
	case 3:
		a.Close()
	}
	witness(wa, wp, "witness at the end")
	na := f.dial(c)
	np := newPeer(na)
	ver(na, np, 1003)
	witness(na, np, "new connection at the end")
	if p.End == 3 {
		return
	}
	sameCalls(c, "calls", f.owner(c, 1002).taken(), want)
}

// ---- C07

type stepC07 struct {
	Conn int
	R    rawReq
	Ver  bool `json:",omitempty"` // a version request instead
	VTag uint16
	VStr Str `json:",omitempty"`
}

type planC07 struct {
	Salt  uint32
	Conns int
	Steps []stepC07
	Cuts  []int
}

func genC07(g *G) interface{} {
	p := &planC07{Salt: g.r.Uint32(), Conns: g.R(1, 4), Cuts: g.Cuts()}
	ver := make([]bool, p.Conns)
	for n := g.R(2, 24); n > 0; n-- {
		s := stepC07{Conn: g.N(p.Conns)}
		if g.P(18) {
			s.Ver = true
			ver[s.Conn] = true
			s.VTag, s.VStr = 65535, "9P2000"
			if g.P(40) {
				s.VTag, s.VStr = g.U16(), pick(g, Str("9P2000.u"), "unknown", "", "9P", g.Str(300))
			}
		} else if g.P(60) {
			m := g.Msg(tTypes[1+g.N(len(tTypes)-1)], g.P(3))
			s.R = rawReq{T: m.T, M: m}
		} else {
			s.R = g.rawReq()
		}
		if s.R.T == tTversion {
			s.R.T = tTattach
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

func runC07(c *Ctx, pl interface{}) {
	p := pl.(*planC07)
	if p.Conns < 1 || p.Conns > 8 {
		return
	}
	f := newFarm(c, p.Salt)
	as := make([]*mconn, p.Conns)
	ps := make([]*peer, p.Conns)
	ver := make([]bool, p.Conns)
	want := make([][]M, p.Conns)
	for i := range as {
		as[i] = f.dial(c)
		ps[i] = newPeer(as[i])
	}
	k := 0
	for i, s := range p.Steps {
		if s.Conn >= p.Conns || s.Conn < 0 || s.R.T == tTversion {
			return
		}
		var raw []byte
		var m M
		ok := true
		if s.Ver {
			m = M{T: tTversion, Tag: s.VTag, N: 2000 + uint32(s.Conn), S1: string(s.VStr)}
			raw = encode(m)
		} else {
			raw = s.R.bytes()
			m, ok = s.R.parse()
		}
		writeCut(as[s.Conn], raw, p.Cuts, &k)
		what := fmt.Sprintf("step %d on connection %d, %s", i, s.Conn, tname(raw[4]))
		b, err := ps[s.Conn].recv(opTimeout)
		if err == errTimeout {
			c.Hangf("%s", what)
		}
		if err != nil {
			c.Failf("%s is not answered: %v", what, err)
		}
		got, gok := decode(b)
		if !gok {
			c.Failf("%s: malformed reply % x", what, tailB(b))
		}
		if tag := le.Uint16(raw[5:]); got.Tag != tag {
			c.Failf("%s, tag %d: reply has tag %d", what, tag, got.Tag)
		}
		switch {
		case s.Ver:
			if got.T != tRversion {
				c.Failf("%s: answered with %v", what, got)
			}
			ver[s.Conn] = true
			want[s.Conn] = append(want[s.Conn], m)
		case !ver[s.Conn]:
			if got.T != tRerror {
				c.Failf("%s: not negotiated yet, but answered with %v", what, got)
			}
			for _, v := range ver {
				if v {
					c.Label("refused while another connection has negotiated")
				}
			}
			c.Label("refused before version")
			c.NonTrivial()
		case ok:
			x := onWire(resFor(p.Salt, m))
			if got.T != x.T {
				c.Failf("%s: negotiated, answered with %v, want %v", what, got, x)
			}
			want[s.Conn] = append(want[s.Conn], m)
			c.Label("executed")
		default:
			if got.T != tRerror {
				c.Failf("%s: malformed but answered with %v", what, got)
			}
		}
		// Nothing else may have reached any file server.
		n, w := 0, 0
		for _, ns := range f.all() {
			n += len(ns.taken())
		}
		for _, x := range want {
			w += len(x)
		}
		if n > w {
			c.Failf("%s: %d calls have reached the file servers, want %d", what, n, w)
		}
	}
	for i, w := range want {
		if len(w) > 0 {
			sameCalls(c, fmt.Sprintf("connection %d", i), f.owner(c, 2000+uint32(i)).taken(), w)
		}
	}
}

// ---- C09

type accErr struct {
	msg  string
	temp bool
	tmo  bool
}

func (e *accErr) Error() string   { return e.msg }
func (e *accErr) Temporary() bool { return e.temp }
func (e *accErr) Timeout() bool   { return e.tmo }

type accItem struct {
	conn net.Conn
	err  error
}

// fakeLn is a socket under the control of the plan.
type fakeLn struct {
	mu      sync.Mutex
	cond    *sync.Cond
	q       []accItem
	closed  bool
	waiting int // Accept calls made
	cerr    error
	nclose  int
}

func newFakeLn(cerr error) *fakeLn {
	l := &fakeLn{cerr: cerr}
	l.cond = sync.NewCond(&l.mu)
	return l
}
func (l *fakeLn) push(it accItem) {
	l.mu.Lock()
	l.q = append(l.q, it)
	l.cond.Broadcast()
	l.mu.Unlock()
}

var errClosedLn = errors.New("accept on closed socket")

func (l *fakeLn) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.waiting++
	l.cond.Broadcast()
	for len(l.q) == 0 && !l.closed {
		l.cond.Wait()
	}
	if l.closed {
		return nil, errClosedLn
	}
	it := l.q[0]
	l.q = l.q[1:]
	return it.conn, it.err
}
func (l *fakeLn) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.closed = true
	l.nclose++
	l.cond.Broadcast()
	return l.cerr
}
func (l *fakeLn) Addr() net.Addr { return maddr("fake") }
func (l *fakeLn) isClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

// countLn counts the calls of Accept.
type countLn struct {
	net.Listener
	n atomic.Int32
}

func (l *countLn) Accept() (net.Conn, error) {
	l.n.Add(1)
	return l.Listener.Accept()
}

// waitFor waits until f holds.
func waitFor(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for w := 20 * time.Microsecond; ; w *= 2 {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if w > 20*time.Millisecond {
			w = 20 * time.Millisecond
		}
		time.Sleep(w)
	}
}

type stepC09 struct {
	K  string // conn, temp, perm, use, drop, shut
	Ln int
	N  int
}

type planC09 struct {
	Salt  uint32
	Lns   int
	Cerr  []bool // Close of this socket returns an error
	Tcp   bool
	Steps []stepC09
}

func genC09(g *G) interface{} {
	p := &planC09{Salt: g.r.Uint32(), Lns: g.R(1, 4), Tcp: g.P(10)}
	for i := 0; i < p.Lns; i++ {
		p.Cerr = append(p.Cerr, g.P(15))
	}
	temps := 0
	for n := g.R(3, 20); n > 0; n-- {
		s := stepC09{Ln: g.N(p.Lns), N: g.N(10)}
		s.K = pick(g, "conn", "conn", "conn", "use", "use", "drop", "temp", "perm", "shut")
		if s.K == "shut" && g.P(60) || s.K == "perm" && g.P(50) {
			s.K = "use"
		}
		if s.K == "temp" {
			if temps++; temps > 5 || p.Tcp {
				s.K = "conn"
			}
		}
		if p.Tcp && s.K == "perm" {
			s.K = "conn"
		}
		p.Steps = append(p.Steps, s)
	}
	if g.Idx == 7 { // an accept trouble that lasts
		p.Tcp = false
		p.Steps = []stepC09{{K: "conn"}}
		for k := 0; k < 14; k++ {
			p.Steps = append(p.Steps, stepC09{K: "temp", N: k})
		}
		p.Steps = append(p.Steps, stepC09{K: "conn"}, stepC09{K: "use", N: 1})
	}
	if g.P(70) {
		p.Steps = append(p.Steps, stepC09{K: "shut"}, stepC09{K: "use", N: g.N(10)}, stepC09{K: "use", N: g.N(10)})
	}
	return p
}

func runC09(c *Ctx, pl interface{}) {
	p := pl.(*planC09)
	if p.Lns < 1 || p.Lns > 8 {
		return
	}
	f := newFarm(c, p.Salt)
	type lnSt struct {
		fake *fakeLn
		tcp  net.Listener
		acc  *atomic.Int32
		ret  chan error
		dead bool
		temp bool // a temporary error was delivered since the last connection
	}
	lns := make([]*lnSt, p.Lns)
	for i := range lns {
		s := &lnSt{ret: make(chan error, 1)}
		lns[i] = s
		var ln net.Listener
		if p.Tcp {
			t, err := net.Listen("tcp4", "127.0.0.1:0")
			c.Must(err)
			w := &countLn{Listener: t}
			s.tcp, ln = t, w
			s.acc = &w.n
			c.Cleanup(func() { t.Close() })
		} else {
			var ce error
			if i < len(p.Cerr) && p.Cerr[i] {
				ce = errors.New("close trouble")
			}
			s.fake = newFakeLn(ce)
			ln = s.fake
			c.Cleanup(func() { s.fake.Close() })
		}
		go func() { s.ret <- f.l.Serve(ln) }()
		// Shutdown is about sockets being served: be sure this one is.
		if !waitFor(opTimeout, func() bool {
			if s.fake == nil {
				return s.acc.Load() > 0
			}
			s.fake.mu.Lock()
			defer s.fake.mu.Unlock()
			return s.fake.waiting > 0
		}) {
			c.Hangf("Serve does not accept")
		}
	}
	type cn struct {
		a  net.Conn
		pr *peer
		n  uint16
	}
	var conns []*cn
	req := func(x *cn, m M, what string) {
		m.Tag = x.n
		x.n++
		if _, err := x.a.Write(encode(m)); err != nil {
			c.Failf("%s: %v", what, err)
		}
		got := checkReply(c, what, recvReply(c, x.pr, what, m), m)
		if m.T == tTversion && got.T != tRversion {
			c.Failf("%s: %v", what, got)
		}
	}
	shut := false
	for i, s := range p.Steps {
		if s.Ln < 0 || s.Ln >= p.Lns || s.N < 0 {
			return
		}
		l := lns[s.Ln]
		what := fmt.Sprintf("step %d", i)
		switch s.K {
		case "conn":
			if l.dead {
				continue
			}
			x := &cn{n: 1}
			if l.tcp != nil {
				a, err := net.Dial("tcp4", l.tcp.Addr().String())
				c.Must(err)
				x.a = a
				c.Cleanup(func() { a.Close() })
			} else {
				a, b := memPair()
				l.fake.push(accItem{conn: b})
				x.a = a
				c.Cleanup(func() { a.Close() })
			}
			x.pr = newPeer(x.a)
			req(x, M{T: tTversion, N: 5000 + uint32(i), S1: "9P2000"}, what+": new connection")
			f.owner(c, 5000+uint32(i))
			conns = append(conns, x)
			if l.temp {
				c.Label("connection after temporary errors")
				c.NonTrivial()
			}
			if len(conns) > 1 {
				c.NonTrivial()
			}
		case "use", "drop":
			if len(conns) == 0 {
				continue
			}
			k := s.N % len(conns)
			if s.K == "drop" {
				conns[k].a.Close()
				conns = append(conns[:k:k], conns[k+1:]...)
				continue
			}
			req(conns[k], M{T: tTclunk, Fid: uint32(i)}, what+": established connection")
			if shut {
				c.Label("used after shutdown")
				c.NonTrivial()
			}
		case "temp":
			if l.fake == nil || l.dead {
				continue
			}
			l.fake.push(accItem{err: &accErr{msg: "temporary trouble", temp: true, tmo: s.N%2 == 0}})
			l.temp = true
			c.Label("temporary error")
		case "perm":
			if l.fake == nil || l.dead {
				continue
			}
			var e error = errors.New("permanent trouble")
			if s.N%2 == 0 {
				e = &accErr{msg: "permanent net trouble", tmo: s.N%4 == 0}
			}
			l.fake.push(accItem{err: e})
			select {
			case err := <-l.ret:
				if !errors.Is(err, e) {
					c.Failf("%s: Serve returned %v, want %v", what, err, e)
				}
			case <-time.After(opTimeout):
				c.Hangf("%s: Serve does not return on %v", what, e)
			}
			l.dead = true
			c.Label("permanent error")
		case "shut":
			if !within(opTimeout, func() { f.l.Shutdown() }) {
				c.Hangf("%s: Shutdown", what)
			}
			for k, l := range lns {
				if l.dead {
					continue
				}
				if l.fake != nil && !l.fake.isClosed() {
					c.Failf("%s: Shutdown returned but socket %d is open", what, k)
				}
				select {
				case err := <-l.ret:
					if err == nil {
						c.Failf("%s: Serve returned no error", what)
					}
				case <-time.After(opTimeout):
					c.Hangf("%s: Serve on socket %d does not return after Shutdown", what, k)
				}
				l.dead = true
			}
			shut = true
			c.Label("shutdown")
		}
		// Whatever happened to others, a socket that is neither shut down nor
		// permanently broken is still being served.
		for k, l := range lns {
			if l.dead {
				continue
			}
			select {
			case err := <-l.ret:
				c.Failf("%s: Serve on socket %d returned %v", what, k, err)
			default:
			}
			if l.fake != nil && l.fake.isClosed() {
				c.Failf("%s: socket %d was closed", what, k)
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C04", Rule: "at least two requests after the version request, delivered in pieces", Quick: 12000, Thorough: 400000,
		Assume: []string{"replies are compared with those of the same server to the same requests in whole pieces"},
		New:    func() interface{} { return &planC04{} }, Gen: genC04, Run: runC04})
	register(&Prop{ID: "C05", Rule: "at least one call other than version succeeds", Quick: 6000, Thorough: 250000,
		New: func() interface{} { return &planC05{} }, Gen: genC05, Run: runC05})
	register(&Prop{ID: "C06", Rule: "at least one malformed or unsupported request, or an impossible size", Quick: 15000, Thorough: 500000,
		New: func() interface{} { return &planC06{} }, Gen: genC06, Run: runC06})
	register(&Prop{ID: "C07", Rule: "at least one request before version", Quick: 10000, Thorough: 400000,
		New: func() interface{} { return &planC07{} }, Gen: genC07, Run: runC07})
	register(&Prop{ID: "C09", Rule: "several connections, or use after shutdown or temporary errors", Quick: 4000, Thorough: 100000,
		New: func() interface{} { return &planC09{} }, Gen: genC09, Run: runC09})
}
