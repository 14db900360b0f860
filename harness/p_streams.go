package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync/atomic"
	"time"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	"github.com/Harvey-OS/ninep/protocol"
)

// C37: a client with a stream for each direction, and options.

type phaseC37 struct {
	Calls []Msg
	Order []int // which of the outstanding calls is answered next
}

type planC37 struct {
	Kind  int // of pipe
	Trace bool
	Ph    []phaseC37
	Last  []Msg // outstanding at the end
	Got   int   // how many of their requests are taken off the stream
	End   int
	Extra Msg // a call after the end
	Cuts  []int
	Salt  uint32
	Opts  int // number of options
	Fail  int // which of them fails, if there are as many
	What  int // they are for
	Errs  int // what the failing one returns
}

const endsC37 = 9

func genC37(g *G) interface{} {
	p := &planC37{Kind: g.N(3), Trace: g.P(20), End: g.N(endsC37), Salt: g.r.Uint32() >> 8, Cuts: g.Cuts(), Opts: g.N(7), Fail: g.N(9), What: g.N(3), Errs: g.N(3)}
	msgs := func(n int) (l []Msg) {
		for ; n > 0; n-- {
			l = append(l, g.reqMsg())
		}
		return
	}
	for n := g.N(4); n > 0; n-- {
		ph := phaseC37{Calls: msgs(g.R(1, 6))}
		for range ph.Calls {
			ph.Order = append(ph.Order, g.N(6))
		}
		p.Ph = append(p.Ph, ph)
	}
	p.Last = msgs(g.N(6))
	p.Got = g.N(7)
	p.Extra = g.reqMsg()
	return p
}

// counted is a stream that counts what is done with it.
type counted struct {
	r      io.Reader
	w      io.Writer
	c      io.Closer
	used   int32
	closed int32
}

func (s *counted) Read(b []byte) (int, error)  { atomic.AddInt32(&s.used, 1); return s.r.Read(b) }
func (s *counted) Write(b []byte) (int, error) { atomic.AddInt32(&s.used, 1); return s.w.Write(b) }
func (s *counted) Close() error {
	atomic.StoreInt32(&s.closed, 1)
	return s.c.Close()
}

type half struct {
	io.Reader
	io.Writer
	end func() error
}

func (h half) Close() error { return h.end() }

// onePipe returns the ends of a stream in one direction.
func onePipe(c *Ctx, kind int) (r, w half) {
	switch kind % 3 {
	case 1:
		a, b := io.Pipe()
		return half{Reader: a, end: a.Close}, half{Writer: b, end: b.Close}
	case 2:
		a, b, err := os.Pipe()
		c.Must(err)
		c.Cleanup(func() { a.Close(); b.Close() })
		return half{Reader: a, end: a.Close}, half{Writer: b, end: b.Close}
	}
	q := newPipe()
	return half{Reader: q, end: func() error { q.rend(); return nil }}, half{Writer: q, end: func() error { q.end(io.EOF); return nil }}
}

func clientStacks() (l []string) {
	for _, s := range ours() {
		if strings.Contains(s, "ninep/protocol.(*Client)") {
			l = append(l, s)
		}
	}
	return
}

// gone waits until no goroutine of a client is left.
func gone(c *Ctx, what string) {
	end := time.Now().Add(opTimeout)
	for {
		l := clientStacks()
		if len(l) == 0 {
			return
		}
		if time.Now().After(end) {
			c.Hangf("%s: a goroutine of the client is still there:\n%s", what, l[0])
		}
		time.Sleep(time.Millisecond)
	}
}

func optionsC37(c *Ctx, p *planC37) {
	fails := []error{errors.New("option fails"), io.EOF, os.ErrPermission}
	bad := fails[uint(p.Errs)%3]
	var log []string
	n := p.Opts
	if n < 0 || n > 20 {
		return
	}
	fr, _ := onePipe(c, 0)
	_, tw := onePipe(c, 0)
	from, to := &counted{r: fr, c: fr}, &counted{w: tw, c: tw}
	var seen []interface{}
	note := func(i int, x interface{}) error {
		log = append(log, fmt.Sprint(i))
		seen = append(seen, x)
		if cl, ok := x.(*protocol.Client); ok {
			cl.FromNet, cl.ToNet = from, to
		}
		if i == p.Fail {
			return bad
		}
		return nil
	}
	var got interface{}
	var err error
	var what string
	if p.What%3 == 0 {
		what = "NewClient"
		var opts []protocol.ClientOpt
		for i := 0; i < n; i++ {
			i := i
			opts = append(opts, func(x *protocol.Client) error { return note(i, x) })
		}
		var cl *protocol.Client
		cl, err = protocol.NewClient(opts...)
		got = cl
	} else {
		what = "NewListener"
		var opts []protocol.ListenerOpt
		for i := 0; i < n; i++ {
			i := i
			opts = append(opts, func(x *protocol.Listener) error { return note(i, x) })
		}
		var l *protocol.Listener
		if p.What%3 == 1 {
			l, err = protocol.NewListener(func() protocol.NineServer { return &modelNS{} }, opts...)
		} else {
			what = "NewUFS"
			l, err = ufs.NewUFS(opts...)
		}
		got = l
	}
	want := []string{}
	failed := false
	for i := 0; i < n && !failed; i++ {
		want = append(want, fmt.Sprint(i))
		failed = i == p.Fail
	}
	if strings.Join(log, " ") != strings.Join(want, " ") {
		c.Failf("%s with %d options, of which number %d fails, applies %v", what, n, p.Fail, log)
	}
	if failed {
		if !errors.Is(err, bad) {
			c.Failf("%s returns error %v, but option %d failed with %v", what, err, p.Fail, bad)
		}
		for i := 0; i < 3; i++ {
			if l := clientStacks(); len(l) > 0 {
				c.Failf("%s failed but goroutines run:\n%s", what, l[0])
			}
			time.Sleep(100 * time.Microsecond)
		}
		if from.used != 0 || to.used != 0 {
			c.Failf("%s failed but used the streams", what)
		}
		c.Label("%s: an option fails", what)
		return
	}
	if err != nil {
		c.Failf("%s: %v, though no option failed", what, err)
	}
	for i, x := range seen {
		if x != got {
			c.Failf("%s: option %d was applied to another object than the one returned", what, i)
		}
	}
	c.Label("%s: %d options", what, n)
	fr.Close()
	tw.Close()
	if what == "NewClient" {
		gone(c, "options")
	}
}

func runC37(c *Ctx, pl interface{}) {
	p := pl.(*planC37)
	optionsC37(c, p)

	reqR, reqW := onePipe(c, p.Kind)
	repR, repW := onePipe(c, p.Kind)
	from, to := &counted{r: repR, c: repR}, &counted{w: reqW, c: reqW}
	c.Cleanup(func() { reqR.Close(); reqW.Close(); repR.Close(); repW.Close() })
	end := int(uint(p.End) % endsC37)
	lackTo, lackFrom := end == 6 || end == 8, end == 7 || end == 8
	cl, err := protocol.NewClient(func(x *protocol.Client) error {
		if !lackFrom {
			x.FromNet = from
		}
		return nil
	}, func(x *protocol.Client) error {
		if !lackTo {
			x.ToNet = to
		}
		if p.Trace {
			x.Trace = sink
		}
		return nil
	})
	if err != nil {
		c.Failf("NewClient: %v", err)
	}
	k, cut := 0, 0
	good := func(ms []Msg) bool {
		for _, m := range ms {
			if _, ok := layouts[m.T]; !ok || m.T%2 != 0 {
				return false
			}
		}
		return true
	}
	start := func(ms []Msg) (xs []*callRes) {
		for _, pm := range ms {
			k++
			m := uniq(pm.M(), k)
			m.Tag = 0
			xs = append(xs, startCall(cl, m, k))
		}
		return
	}
	// request takes a request off the stream; it belongs to one of xs.
	request := func(xs []*callRes) (int, uint16) {
		var raw []byte
		var err error
		if !within(opTimeout, func() { raw, err = readFrame(reqR) }) {
			c.Hangf("the request of a call does not arrive")
		}
		if err != nil {
			c.Failf("the stream of requests ended though nothing has happened to it: %v", err)
		}
		m, ok := decode(raw)
		if !ok {
			c.Failf("malformed request % x", tailB(raw))
		}
		for i, x := range xs {
			if x.k == uniqOf(m) {
				return i, m.Tag
			}
		}
		c.Failf("request %v was never made", m)
		return 0, 0
	}
	if !good(p.Last) || !good([]Msg{p.Extra}) {
		return
	}
	var last []*callRes
	if !lackTo && !lackFrom {
		for _, ph := range p.Ph {
			if !good(ph.Calls) {
				return
			}
			xs := start(ph.Calls)
			tags := make([]uint16, len(xs))
			var out []int
			for range xs {
				i, t := request(xs)
				tags[i] = t
				out = append(out, i)
			}
			for n := 0; len(out) > 0; n++ {
				j := 0
				if n < len(ph.Order) {
					j = int(uint(ph.Order[n]) % uint(len(out)))
				}
				i := out[j]
				out = append(out[:j], out[j+1:]...)
				r := onWire(resFor(p.Salt, xs[i].m))
				r.Tag = tags[i]
				if !within(opTimeout, func() { writeCut(repW, encode(r), p.Cuts, &cut) }) {
					c.Hangf("a reply is not read")
				}
				xs[i].wait(c, "a call that was answered")
				xs[i].agrees(c, "two streams", r)
				c.Label("call answered")
			}
		}
		last = start(p.Last)
		for i := 0; i < len(last) && i < p.Got; i++ {
			request(last)
		}
	} else {
		last = start(p.Last)
	}
	what := [...]string{"the stream of replies ends", "a reply of an impossible size", "the stream of replies ends within a message", "nobody reads the requests any more", "the user closes the streams", "the user closes the stream of replies", "there is no stream for requests", "there is no stream for replies", "there are no streams"}[end]
	within(opTimeout, func() {
		switch end {
		case 0:
			repW.Close()
		case 1:
			repW.Write([]byte{6, 0, 0, 0, 107, 1, 0})
		case 2:
			repW.Write([]byte{30, 0, 0, 0, 107, 1, 0, 5, 0})
			repW.Close()
		case 3:
			reqR.Close()
		case 4:
			from.Close()
			to.Close()
		case 5:
			from.Close()
		}
	})
	if end == 3 {
		// Requests that were written before may still be waiting; the
		// failure shows with the next one.
		last = append(last, start([]Msg{p.Extra})...)
	}
	for _, x := range last {
		x.wait(c, what+": a call")
		if x.err == nil {
			c.Failf("%s: call %v returned %v though it was never answered", what, x.m, x.r)
		}
	}
	x := start([]Msg{p.Extra})[0]
	x.wait(c, what+": a later call")
	if x.err == nil {
		c.Failf("%s: the later call %v returned %v", what, x.m, x.r)
	}
	if end == 6 || end == 7 || end == 8 || len(p.Ph)+len(p.Last) > 0 {
		c.NonTrivial()
	}
	gone(c, what)
	if !lackFrom && atomic.LoadInt32(&from.closed) == 0 {
		c.Failf("%s: the stream of replies was not closed", what)
	}
	if !lackTo && atomic.LoadInt32(&to.closed) == 0 {
		c.Failf("%s: the stream of requests was not closed", what)
	}
	c.Label("%s", what)
}

func init() {
	register(&Prop{ID: "C37", Rule: "a client with two streams made at least one call, or lacked a stream, and was followed to its end", Quick: 8000, Thorough: 200000,
		New: func() interface{} { return &planC37{} }, Gen: genC37, Run: runC37})
}
