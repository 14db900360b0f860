package main

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"sync"

	"github.com/Harvey-OS/ninep/pkg/debugfs"
	"github.com/Harvey-OS/ninep/protocol"
)

// C23: the debug wrapper, called directly and behind a listener.

type planC23 struct {
	Salt  uint32
	Calls []callC23
	Par   bool `json:",omitempty"`
	Net   bool `json:",omitempty"`
	Flags int  `json:",omitempty"`
}

type callC23 struct {
	M   Msg
	Dir *DirMsg `json:",omitempty"` // the data of a wstat, or of the result of a stat
	Cut int     `json:",omitempty"` // cut off this much of it
}

func genC23(g *G) interface{} {
	p := &planC23{Salt: g.r.Uint32(), Par: g.P(15), Net: g.P(35), Flags: g.N(4)}
	for n := g.R(1, 20); n > 0; n-- {
		x := callC23{M: g.reqMsg()}
		if x.M.T == tTwstat || x.M.T == tTstat {
			if g.P(60) {
				d := g.Dir(g.P(10))
				x.Dir = &d
				if g.P(40) {
					x.Cut = g.R(1, 60)
				}
			}
		}
		if g.P(10) {
			x.M.S1 = pick(g, Str("%s%d%!"), "%v", "\n", "%n")
		}
		p.Calls = append(p.Calls, x)
	}
	return p
}

// directCall calls a file server as the dispatcher does.
func directCall(s protocol.NineServer, m M) (r M, err error) {
	r.T = m.T + 1
	fid := protocol.FID(m.Fid)
	var q protocol.QID
	var n protocol.MaxSize
	switch m.T {
	case tTversion:
		n, r.S1, err = s.Rversion(protocol.MaxSize(m.N), m.S1)
	case tTattach:
		q, err = s.Rattach(fid, protocol.FID(m.Fid2), m.S1, m.S2)
	case tTflush:
		err = s.Rflush(protocol.Tag(m.OTag))
	case tTwalk:
		var qs []protocol.QID
		qs, err = s.Rwalk(fid, protocol.FID(m.Fid2), m.Names)
		r.Qids = fromQids(qs)
	case tTopen:
		q, n, err = s.Ropen(fid, protocol.Mode(m.Mode))
	case tTcreate:
		q, n, err = s.Rcreate(fid, m.S1, protocol.Perm(m.Perm), protocol.Mode(m.Mode))
	case tTread:
		r.Data, err = s.Rread(fid, protocol.Offset(m.Off), protocol.Count(m.N))
	case tTwrite:
		var k protocol.Count
		k, err = s.Rwrite(fid, protocol.Offset(m.Off), m.Data)
		n = protocol.MaxSize(k)
	case tTclunk:
		err = s.Rclunk(fid)
	case tTremove:
		err = s.Rremove(fid)
	case tTstat:
		r.Data, err = s.Rstat(fid)
	case tTwstat:
		err = s.Rwstat(fid, m.Data)
	}
	r.Qid, r.N = fromQID(q), uint32(n)
	return
}

type errC23 struct{ s string }

func (e *errC23) Error() string { return e.s }

func runC23(c *Ctx, pl interface{}) {
	p := pl.(*planC23)
	// The results, by request.
	var mu sync.Mutex
	stats := map[uint32][]byte{}
	res := func(salt uint32, m M) M {
		r := resFor(salt, m)
		if m.T == tTversion && m.S1 != "9P2000" && m.N%4 == 1 {
			return M{T: tRerror, S1: "version " + m.S1}
		}
		if r.T == tRstat {
			mu.Lock()
			defer mu.Unlock()
			if b, ok := stats[m.Fid]; ok {
				r.Data = b
			}
		}
		return r
	}
	var ms []M
	for _, x := range p.Calls {
		if _, ok := layouts[x.M.T]; !ok || x.M.T%2 != 0 {
			continue
		}
		m := x.M.M()
		m.Tag = 0
		if x.Dir != nil {
			b := encodeDir(*x.Dir)
			if x.Cut > 0 && x.Cut <= len(b) {
				b = b[:len(b)-x.Cut]
			}
			if len(b) > 65535 {
				b = b[:65535]
			}
			if m.T == tTwstat {
				m.Data = b
			} else if m.T == tTstat {
				mu.Lock()
				if _, ok := stats[m.Fid]; !ok {
					stats[m.Fid] = b
				}
				mu.Unlock()
			}
		}
		ms = append(ms, m)
	}
	var lb limited
	if p.Flags > 0 {
		log.SetOutput(&lb)
		defer log.SetOutput(devNull{})
	}
	if p.Net {
		c23Net(c, p, ms, res)
		return
	}
	ns := &modelNS{salt: p.Salt, res: res}
	var want []M
	one := func(m M) {
		w := res(p.Salt, m)
		arg := m
		arg.Data = append([]byte(nil), m.Data...)
		arg.Names = append([]string{}, m.Names...)
		// Data whose spare room belongs to someone else.
		if len(arg.Data) > 0 {
			back := append(append([]byte(nil), arg.Data...), 0x5a, 0x5a, 0x5a)
			arg.Data = back[:len(arg.Data)]
			defer func() {
				if !bytes.Equal(back[len(arg.Data):], []byte{0x5a, 0x5a, 0x5a}) {
					c.Failf("%v: the wrapper wrote behind the data it was given", m)
				}
			}()
		}
		r, err := directCall(&debugfs.DebugFileServer{FileServer: ns}, arg)
		if !bytes.Equal(arg.Data, m.Data) || fmt.Sprint(arg.Names) != fmt.Sprint(append([]string{}, m.Names...)) {
			c.Failf("%v: the arguments were modified: %v", m, arg)
		}
		if w.T == tRerror {
			if err == nil {
				c.Failf("%v: file server returned error %s, the wrapper none", m, short(w.S1))
			}
			if err.Error() != w.S1 {
				c.Failf("%v: file server returned error %s, the wrapper %s", m, short(w.S1), short(err.Error()))
			}
			c.Label("error")
			return
		}
		if err != nil {
			c.Failf("%v: file server returned %v, the wrapper error %v", m, w, err)
		}
		if !r.equal(w) {
			c.Failf("%v: file server returned %v, the wrapper %v", m, w, r)
		}
		c.Label("%s", tname(m.T))
	}
	if p.Par {
		var wg sync.WaitGroup
		vs := make([]*violation, len(ms))
		cs := make([]*Ctx, len(ms))
		for i, m := range ms {
			wg.Add(1)
			go func(i int, m M) {
				defer wg.Done()
				sub := &Ctx{Dir: c.Dir, Prop: c.Prop, labels: map[string]int{}}
				cs[i] = sub
				defer func() {
					switch x := recover().(type) {
					case nil:
					case *violation:
						vs[i] = x
					default:
						panic(x)
					}
				}()
				w := res(p.Salt, m)
				r, err := directCall(&debugfs.DebugFileServer{FileServer: ns}, m)
				if (w.T == tRerror) != (err != nil) || err != nil && err.Error() != w.S1 || err == nil && !r.equal(w) {
					sub.Failf("%v: file server returned %v, the wrapper %v, %v", m, w, r, err)
				}
			}(i, m)
		}
		wg.Wait()
		for _, v := range vs {
			if v != nil {
				panic(v)
			}
		}
		c.Label("parallel calls")
		if n := len(ns.taken()); n != len(ms) {
			c.Failf("%d calls became %d calls of the file server", len(ms), n)
		}
	} else {
		for _, m := range ms {
			one(m)
			want = append(want, m.norm())
			sameCalls(c, "through the wrapper", ns.taken(), want)
		}
		// An error is passed on as it is.
		e := &errC23{"x"}
		_, err := directCall(&debugfs.DebugFileServer{FileServer: &errNS{modelNS{}, e}}, M{T: tTclunk})
		if !errors.Is(err, e) && err.Error() != "x" {
			c.Failf("the file server's error %v became %v", e, err)
		}
	}
	if len(ms) > 1 {
		c.NonTrivial()
	}
}

type errNS struct {
	modelNS
	e error
}

func (s *errNS) Rclunk(protocol.FID) error { return s.e }

type devNull struct{}

func (devNull) Write(b []byte) (int, error) { return len(b), nil }

// c23Net sends the same requests to a server with and to one without the
// wrapper and compares the bytes that come back.
func c23Net(c *Ctx, p *planC23, ms []M, res func(uint32, M) M) {
	var out [2][][]byte
	var calls [2][]M
	for k := 0; k < 2; k++ {
		ns := &modelNS{salt: p.Salt, res: res}
		k := k
		l, err := protocol.NewListener(func() protocol.NineServer {
			if k == 1 {
				return &debugfs.DebugFileServer{FileServer: ns}
			}
			return ns
		})
		if err != nil {
			c.Failf("NewListener: %v", err)
		}
		a, b := memPair()
		if err := l.Accept(b); err != nil {
			c.Failf("Accept: %v", err)
		}
		c.Cleanup(func() { a.Close() })
		pr := newPeer(a)
		for i, m := range append([]M{{T: tTversion, N: 8192, S1: "9P2000"}}, ms...) {
			m.Tag = uint16(i)
			a.Write(encode(m))
			out[k] = append(out[k], recvReply(c, pr, fmt.Sprintf("wrapper=%v", k == 1), m))
		}
		calls[k] = ns.taken()
	}
	sameCalls(c, "with the wrapper (want: without)", calls[1], calls[0])
	for i := range out[0] {
		if !bytes.Equal(out[0][i], out[1][i]) {
			c.Failf("reply %d differs with the wrapper: %s (with / without)", i, diffAt(out[1][i], out[0][i]))
		}
	}
	c.Label("behind a listener")
	if len(ms) > 1 {
		c.NonTrivial()
	}
}

func init() {
	register(&Prop{ID: "C23", Rule: "at least two calls were made through the wrapper", Quick: 20000, Thorough: 300000,
		Assume: []string{"the wrapped file server is a stand-in that answers by formula and records its calls"},
		New:    func() interface{} { return new(planC23) }, Gen: genC23, Run: runC23})
}
