package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

// pipe is one direction of an in-memory connection. It never blocks the
// writer, keeps the boundaries of writes (a read returns at most one piece) and
// can deliver the end of the stream together with the last bytes.
type pipe struct {
	mu      sync.Mutex
	cond    *sync.Cond
	pieces  [][]byte
	closed  bool // by the writer
	rclosed bool // by the reader
	err     error
	eofLast bool
	total   int
	limit   int // writes fail once this many bytes are through; <0: never
	werr    error
}

func newPipe() *pipe {
	p := &pipe{limit: -1}
	p.cond = sync.NewCond(&p.mu)
	return p
}

var errReset = errors.New("connection reset (injected)")

func (p *pipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return 0, io.ErrClosedPipe
	}
	if p.rclosed {
		return 0, errReset
	}
	n := len(b)
	if p.limit >= 0 && p.total+n > p.limit {
		n = p.limit - p.total
		if n < 0 {
			n = 0
		}
		if n > 0 {
			p.pieces = append(p.pieces, append([]byte(nil), b[:n]...))
			p.total += n
			p.cond.Broadcast()
		}
		return n, p.werr
	}
	if n > 0 {
		p.pieces = append(p.pieces, append([]byte(nil), b...))
		p.total += n
		p.cond.Broadcast()
	}
	return n, nil
}

// end closes the pipe at the writer's side; the reader gets err at the end.
func (p *pipe) end(err error) {
	p.mu.Lock()
	if !p.closed {
		p.closed, p.err = true, err
	}
	p.cond.Broadcast()
	p.mu.Unlock()
}

// rend closes the pipe at the reader's side.
func (p *pipe) rend() {
	p.mu.Lock()
	p.rclosed = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *pipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rclosed {
			return 0, io.ErrClosedPipe
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.pieces) > 0 {
			n := copy(b, p.pieces[0])
			if p.pieces[0] = p.pieces[0][n:]; len(p.pieces[0]) == 0 {
				p.pieces = p.pieces[1:]
			}
			// Only the end of the stream: no connection returns data along
			// with a failure, and what comes of it differs between the
			// ways to read all of a message in the standard library.
			if p.eofLast && p.closed && len(p.pieces) == 0 && p.err == io.EOF {
				return n, p.err
			}
			return n, nil
		}
		if p.closed {
			return 0, p.err
		}
		p.cond.Wait()
	}
}

// mconn is an end of an in-memory connection.
type mconn struct {
	r, w *pipe
	name string
}

type maddr string

func (a maddr) Network() string { return "mem" }
func (a maddr) String() string  { return string(a) }

func (c *mconn) Read(b []byte) (int, error)       { return c.r.Read(b) }
func (c *mconn) Write(b []byte) (int, error)      { return c.w.Write(b) }
func (c *mconn) Close() error                     { c.w.end(io.EOF); c.r.rend(); return nil }
func (c *mconn) LocalAddr() net.Addr              { return maddr(c.name) }
func (c *mconn) RemoteAddr() net.Addr             { return maddr("peer of " + c.name) }
func (c *mconn) SetDeadline(time.Time) error      { return nil }
func (c *mconn) SetReadDeadline(time.Time) error  { return nil }
func (c *mconn) SetWriteDeadline(time.Time) error { return nil }

func memPair() (*mconn, *mconn) {
	a, b := newPipe(), newPipe()
	return &mconn{r: a, w: b, name: "a"}, &mconn{r: b, w: a, name: "b"}
}

// within runs f and reports whether it returned in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// peer is a raw 9P endpoint of the harness: it reads whole messages from a
// connection in the background.
type peer struct {
	conn io.ReadWriteCloser
	in   chan []byte // framed messages; closed at the end of the stream
	end  string      // why the stream ended, once in is closed
}

func newPeer(conn io.ReadWriteCloser) *peer {
	p := &peer{conn: conn, in: make(chan []byte, 1024)}
	go func() {
		defer close(p.in)
		for {
			h := make([]byte, 4)
			if n, err := io.ReadFull(conn, h); err != nil {
				p.end = fmt.Sprintf("%v", err)
				if n > 0 {
					p.end = fmt.Sprintf("%d stray bytes % x, then %v", n, h[:n], err)
				}
				return
			}
			sz := le.Uint32(h)
			if sz < 7 || sz > 1<<28 {
				p.end = fmt.Sprintf("a message of size %d", sz)
				return
			}
			b := make([]byte, sz)
			copy(b, h)
			if n, err := io.ReadFull(conn, b[4:]); err != nil {
				p.end = fmt.Sprintf("%v after %d of %d bytes of a message", err, 4+n, sz)
				return
			}
			p.in <- b
		}
	}()
	return p
}

var errTimeout = errors.New("timeout")

// recv returns the next message, io.EOF at the clean end of the stream,
// errTimeout, or another error.
func (p *peer) recv(d time.Duration) ([]byte, error) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case b, ok := <-p.in:
		if ok {
			return b, nil
		}
		if p.end == "EOF" {
			return nil, io.EOF
		}
		return nil, errors.New(p.end)
	case <-t.C:
		return nil, errTimeout
	}
}

// writeCut writes b in pieces of the given sizes, in turn; none means whole.
func writeCut(w io.Writer, b []byte, cuts []int, k *int) error {
	if len(cuts) == 0 {
		_, err := w.Write(b)
		return err
	}
	for len(b) > 0 {
		n := cuts[*k%len(cuts)]
		*k++
		if n <= 0 || n > len(b) {
			n = len(b)
		}
		if _, err := w.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func (g *G) Cuts() []int {
	switch g.W(20, 20, 60) {
	case 0:
		return nil
	case 1:
		return []int{1}
	}
	var c []int
	for n := g.R(1, 8); n > 0; n-- {
		c = append(c, pick(g, 1, 2, 3, 4, 5, 6, 7, 8, 11, g.R(1, 40), g.R(1, 5000), g.R(1, 70000)))
	}
	return c
}

// ---- a file server that answers by formula and records its calls

// resFor is the reply to a request: a function of its contents only.
func resFor(salt uint32, m M) M {
	h := uint64(salt) * 0x9e3779b97f4a7c15
	m.Tag = 0
	for _, x := range encode(m) {
		h = (h ^ uint64(x)) * 0x100000001b3
	}
	g := newG(h, "res", 0, false)
	if m.T != tTversion && g.P(25) {
		n := g.Len(400)
		switch g.N(40) {
		case 0:
			n = g.Len(65535)
		case 1:
			n = 65535 + g.N(3)
		case 2:
			n = 65535 + g.N(200000)
		}
		if g.P(40) {
			return M{T: tRerror, S1: pick(g, knownErrs...).Error()}
		}
		return M{T: tRerror, S1: string(Blob{N: n, S: uint32(h)}.Expand())}
	}
	r := g.Msg(m.T+1, g.P(10)).M()
	r.Tag = 0
	return r
}

// onWire is what a client is to see of a result.
func onWire(r M) M {
	if r.T == tRerror && len(r.S1) > 65535 {
		r.S1 = r.S1[:65535]
	}
	return r
}

type modelNS struct {
	salt  uint32
	res   func(salt uint32, m M) M
	mu    sync.Mutex
	calls []M
	hook  func(m M) // called before the result is returned
	keep  bool      // check that arguments are not touched during the call
}

func (s *modelNS) do(m M) (M, error) {
	m.Data = append([]byte(nil), m.Data...)
	m.Names = append([]string(nil), m.Names...)
	s.mu.Lock()
	s.calls = append(s.calls, m.norm())
	s.mu.Unlock()
	if s.hook != nil {
		s.hook(m)
	}
	f := s.res
	if f == nil {
		f = resFor
	}
	r := f(s.salt, m)
	if r.T == tRerror {
		for _, e := range knownErrs {
			if r.S1 == e.Error() {
				return junkFor(m), e
			}
		}
		return junkFor(m), errors.New(r.S1)
	}
	return r, nil
}

// errors that code may be tempted to treat specially
var knownErrs = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrNoProgress, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrClosed, os.ErrInvalid,
	os.ErrDeadlineExceeded, net.ErrClosed, syscall.ENOENT, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, context.Canceled, context.DeadlineExceeded,
	&os.PathError{Op: "open", Path: "/x", Err: syscall.EACCES}, fmt.Errorf("wrapped: %w", io.EOF), errors.New(""), tempErr{}}

type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

// junkFor is what is returned beside an error; nobody may look at it.
func junkFor(m M) M {
	return M{T: m.T + 1, N: 77, S1: "junk", Qid: QID{1, 2, 3}, Qids: []QID{{4, 5, 6}}, Data: []byte("junk")}
}

func (s *modelNS) taken() []M {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]M(nil), s.calls...)
}

func (s *modelNS) Rversion(n protocol.MaxSize, v string) (protocol.MaxSize, string, error) {
	r, err := s.do(M{T: tTversion, N: uint32(n), S1: v})
	return protocol.MaxSize(r.N), r.S1, err
}
func (s *modelNS) Rattach(f, a protocol.FID, u, n string) (protocol.QID, error) {
	r, err := s.do(M{T: tTattach, Fid: uint32(f), Fid2: uint32(a), S1: u, S2: n})
	return r.Qid.repo(), err
}
func (s *modelNS) Rwalk(f, n protocol.FID, p []string) ([]protocol.QID, error) {
	r, err := s.do(M{T: tTwalk, Fid: uint32(f), Fid2: uint32(n), Names: p})
	return repoQids(r.Qids), err
}
func (s *modelNS) Ropen(f protocol.FID, m protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
	r, err := s.do(M{T: tTopen, Fid: uint32(f), Mode: uint8(m)})
	return r.Qid.repo(), protocol.MaxSize(r.N), err
}
func (s *modelNS) Rcreate(f protocol.FID, n string, p protocol.Perm, m protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
	r, err := s.do(M{T: tTcreate, Fid: uint32(f), S1: n, Perm: uint32(p), Mode: uint8(m)})
	return r.Qid.repo(), protocol.MaxSize(r.N), err
}
func (s *modelNS) Rstat(f protocol.FID) ([]byte, error) {
	r, err := s.do(M{T: tTstat, Fid: uint32(f)})
	return r.Data, err
}
func (s *modelNS) Rwstat(f protocol.FID, b []byte) error {
	_, err := s.do(M{T: tTwstat, Fid: uint32(f), Data: b})
	return err
}
func (s *modelNS) Rclunk(f protocol.FID) error {
	_, err := s.do(M{T: tTclunk, Fid: uint32(f)})
	return err
}
func (s *modelNS) Rremove(f protocol.FID) error {
	_, err := s.do(M{T: tTremove, Fid: uint32(f)})
	return err
}
func (s *modelNS) Rread(f protocol.FID, o protocol.Offset, n protocol.Count) ([]byte, error) {
	r, err := s.do(M{T: tTread, Fid: uint32(f), Off: uint64(o), N: uint32(n)})
	return r.Data, err
}
func (s *modelNS) Rwrite(f protocol.FID, o protocol.Offset, b []byte) (protocol.Count, error) {
	r, err := s.do(M{T: tTwrite, Fid: uint32(f), Off: uint64(o), Data: b})
	return protocol.Count(r.N), err
}
func (s *modelNS) Rflush(t protocol.Tag) error {
	_, err := s.do(M{T: tTflush, OTag: uint16(t)})
	return err
}

// farm is a listener whose connections are served by modelNS.
type farm struct {
	l    *protocol.Listener
	mu   sync.Mutex
	nss  []*modelNS
	mkNS func(k int) *modelNS
}

func newFarm(c *Ctx, salt uint32, opts ...protocol.ListenerOpt) *farm {
	f := &farm{mkNS: func(int) *modelNS { return &modelNS{salt: salt} }}
	l, err := protocol.NewListener(func() protocol.NineServer {
		f.mu.Lock()
		defer f.mu.Unlock()
		ns := f.mkNS(len(f.nss))
		f.nss = append(f.nss, ns)
		return ns
	}, opts...)
	if err != nil {
		c.Failf("NewListener: %v", err)
	}
	f.l = l
	return f
}

// dial makes a connection and returns its client side.
func (f *farm) dial(c *Ctx) *mconn {
	a, b := memPair()
	if err := f.l.Accept(b); err != nil {
		c.Failf("Accept: %v", err)
	}
	c.Cleanup(func() { a.Close() })
	return a
}

func (f *farm) all() []*modelNS {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]*modelNS(nil), f.nss...)
}

// served returns the file servers that were called at all.
func (f *farm) served() (r []*modelNS) {
	for _, n := range f.all() {
		if len(n.taken()) > 0 {
			r = append(r, n)
		}
	}
	return
}

// owner returns the file server whose first call was a version request with
// this msize; connections are told apart by that.
func (f *farm) owner(c *Ctx, n uint32) *modelNS {
	var r []*modelNS
	for _, x := range f.served() {
		for _, m := range x.taken() {
			if m.T == tTversion && m.N == n {
				r = append(r, x)
				break
			}
		}
	}
	if len(r) != 1 {
		c.Failf("the version request with msize %d reached %d file servers", n, len(r))
	}
	return r[0]
}
