package main

import (
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

// uniq gives a request a number by which it is recognised on the wire.
func uniq(m M, k int) M {
	switch m.T {
	case tTversion:
		m.N = uint32(k)
	case tTflush:
		m.OTag = uint16(k)
	default:
		m.Fid = uint32(k)
	}
	return m
}
func uniqOf(m M) int {
	switch m.T {
	case tTversion:
		return int(m.N)
	case tTflush:
		return int(m.OTag)
	}
	return int(m.Fid)
}

func newClient(c *Ctx, conn io.ReadWriteCloser, trace bool) *protocol.Client {
	if trace {
		return newTraced(c, conn, sink)
	}
	return newTraced(c, conn, nil)
}

func newTraced(c *Ctx, conn io.ReadWriteCloser, trace protocol.Tracer) *protocol.Client {
	cl, err := protocol.NewClient(func(x *protocol.Client) error {
		x.FromNet, x.ToNet, x.Trace = conn, conn, trace
		return nil
	})
	if err != nil {
		c.Failf("NewClient: %v", err)
	}
	return cl
}

// outcome of a call
type callRes struct {
	k    int
	m, r M
	err  error
	done chan struct{}
}

func startCall(cl *protocol.Client, m M, k int) *callRes {
	x := &callRes{k: k, m: m, done: make(chan struct{})}
	arg := m
	arg.Names = strs(m.Names)
	go func() {
		x.r, x.err = repoCall(cl, arg)
		close(x.done)
	}()
	return x
}

func (x *callRes) wait(c *Ctx, what string) {
	t := time.NewTimer(opTimeout)
	defer t.Stop()
	select {
	case <-x.done:
	case <-t.C:
		c.Hangf("%s: call %v does not return", what, x.m)
	}
}

// agrees checks the outcome of a call against the reply that was sent.
func (x *callRes) agrees(c *Ctx, what string, r M) {
	if r.T == tRerror {
		if x.err == nil {
			c.Failf("%s: call %v was answered with %v and returned %v", what, x.m, r, x.r)
		}
		if x.err.Error() != r.S1 {
			c.Failf("%s: call %v was answered with %v and returned error %s", what, x.m, r, short(x.err.Error()))
		}
		return
	}
	if x.err != nil {
		c.Failf("%s: call %v was answered with %v and returned error %v", what, x.m, r, x.err)
	}
	r.Tag = 0
	if !x.r.equal(r) {
		c.Failf("%s: call %v was answered with %v and returned %v", what, x.m, r, x.r)
	}
}

// ---- C10

type batchC10 struct {
	Calls []Msg
	Many  int // instead of Calls: this many clunks
	Par   int // of Many at a time
	Hold  int // requests outstanding before replies begin
	Sched []int
	Join  int // replies sent in one piece
}

type planC10 struct {
	Salt  uint32
	B     []batchC10
	Cuts  []int
	Pipe  bool
	Trace bool
}

func genC10(g *G) interface{} {
	p := &planC10{Salt: g.r.Uint32(), Cuts: g.Cuts(), Pipe: g.P(20), Trace: g.P(20)}
	for n := g.R(1, 4); n > 0; n-- {
		b := batchC10{Join: g.R(1, 4)}
		k := g.R(1, 8)
		if g.P(10) {
			k = g.R(10, 60)
		}
		for i := 0; i < k; i++ {
			b.Calls = append(b.Calls, g.Msg(tTypes[g.N(len(tTypes))], g.P(4)))
		}
		b.Hold = g.R(1, k)
		for i := 0; i < 8; i++ {
			b.Sched = append(b.Sched, g.N(100))
		}
		p.B = append(p.B, b)
	}
	switch g.Idx {
	case 4: // more calls than there are tags
		p.B = []batchC10{{Many: 66500, Par: 24, Hold: 8, Join: 2, Sched: []int{3, 0, 7}}}
		p.Cuts, p.Trace = nil, false
	case 5: // more outstanding calls than there are tags
		p.B = []batchC10{{Many: 65534 + 40, Par: 65534 + 40, Hold: 65534, Join: 1, Sched: []int{70, 0, 1000, 5}}}
		p.Cuts, p.Trace, p.Pipe = nil, false, false
	}
	return p
}

func runC10(c *Ctx, pl interface{}) {
	p := pl.(*planC10)
	var a, b net.Conn
	if p.Pipe {
		a, b = net.Pipe()
	} else {
		a, b = memPair()
	}
	c.Cleanup(func() { a.Close(); b.Close() })
	cl := newClient(c, a, p.Trace)
	pr := newPeer(b)
	k, cut := 0, 0
	outstanding := map[uint16]bool{}
	type held struct {
		m M
	}
	for bi, bt := range p.B {
		var calls []M
		if bt.Many > 0 {
			for i := 0; i < bt.Many; i++ {
				k++
				calls = append(calls, M{T: tTclunk, Fid: uint32(k)})
			}
		} else {
			for _, pm := range bt.Calls {
				if _, ok := layouts[pm.T]; !ok || pm.T%2 != 0 {
					return
				}
				k++
				calls = append(calls, uniq(pm.M(), k))
			}
		}
		byID := map[int]M{}
		results := make([]*callRes, len(calls))
		for _, m := range calls {
			byID[uniqOf(m)] = m
		}
		par := bt.Par
		if par <= 0 || par > len(calls) {
			par = len(calls)
		}
		hold := bt.Hold
		if hold < 1 || hold > par {
			hold = par
		}
		var wg sync.WaitGroup
		queue := make(chan int, len(calls))
		for i := range calls {
			queue <- i
		}
		close(queue)
		for w := 0; w < par; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range queue {
					x := &callRes{m: calls[i]}
					arg := x.m
					arg.Tag = 0
					arg.Names = strs(arg.Names)
					x.r, x.err = repoCall(cl, arg)
					results[i] = x
				}
			}()
		}
		var hs []M
		remaining := len(calls)
		step := 0
		var buf []byte
		joined := 0
		flush := func() {
			if len(buf) > 0 {
				x := buf
				if p.Pipe {
					if !within(opTimeout, func() { writeCut(b, x, p.Cuts, &cut) }) {
						c.Hangf("the client does not read")
					}
				} else {
					writeCut(b, x, p.Cuts, &cut)
				}
				buf, joined = nil, 0
			}
		}
		for remaining > 0 {
			for len(hs) < hold && len(hs) < remaining {
				// Replies kept back for joining must go out before waiting.
				raw, err := pr.recv(time.Millisecond)
				if err == errTimeout {
					flush()
					raw, err = pr.recv(opTimeout)
				}
				if err == errTimeout {
					c.Hangf("batch %d: %d requests of %d arrived, %d are outstanding", bi, len(calls)-remaining+len(hs), len(calls), len(hs))
				}
				if err != nil {
					c.Failf("batch %d: the client's stream ended: %v", bi, err)
				}
				m, ok := decode(raw)
				if !ok {
					c.Failf("batch %d: malformed request % x", bi, tailB(raw))
				}
				want, known := byID[uniqOf(m)]
				w := m
				w.Tag = 0
				want.Tag = 0
				if !known || !w.equal(want) {
					c.Failf("batch %d: request %v was never made (or sent twice)", bi, m)
				}
				delete(byID, uniqOf(m))
				if m.Tag == 0 || m.Tag == 65535 {
					c.Failf("batch %d: request %v uses a reserved tag", bi, m)
				}
				if outstanding[m.Tag] {
					c.Failf("batch %d: request %v uses a tag that is outstanding", bi, m)
				}
				outstanding[m.Tag] = true
				hs = append(hs, m)
			}
			i := 0
			if len(bt.Sched) > 0 {
				i = bt.Sched[step%len(bt.Sched)] % len(hs)
				if i < 0 {
					i = 0
				}
			}
			step++
			m := hs[i]
			if i > 0 {
				c.NonTrivial()
				c.Label("reordered")
			}
			hs[i] = hs[len(hs)-1]
			hs = hs[:len(hs)-1]
			delete(outstanding, m.Tag)
			r := onWire(resFor(p.Salt, m))
			r.Tag = m.Tag
			buf = append(buf, encode(r)...)
			if joined++; joined >= bt.Join {
				flush()
			}
			remaining--
		}
		flush()
		if !within(opTimeout, wg.Wait) {
			c.Hangf("batch %d: all requests are answered but calls do not return", bi)
		}
		for _, x := range results {
			m := x.m
			m.Tag = 0
			x.agrees(c, fmt.Sprintf("batch %d", bi), onWire(resFor(p.Salt, m)))
		}
		if len(calls) > 60000 {
			c.Label("more calls than tags")
		}
		if hold > 1 {
			c.Label("several outstanding")
		}
	}
}

// ---- C11

type actC11 struct {
	I     int // which outstanding call
	Stray bool
	Tag   uint16
	OK    bool   // the right reply
	R     rawReq // otherwise, this
}

type phaseC11 struct {
	Calls []Msg
	Acts  []actC11
}

type planC11 struct {
	Salt    uint32
	Ph      []phaseC11
	Cuts    []int
	Last    []Msg // outstanding when the connection fails
	Answer  int   // how many of those are answered just before
	Fail    int
	N       int // detail of the failure
	EOFLast bool
	Racing  int // calls made while the failure happens
	After   []Msg
	Trace   bool
}

const nFail = 7

func (g *G) repMsg() rawReq {
	m := g.Msg(rTypes[g.N(len(rTypes))], g.P(3))
	r := rawReq{T: m.T, M: m}
	if g.P(15) {
		r.T = g.U8()
	}
	if g.P(10) {
		r.Raw, r.Body = true, Str(g.Bytes(g.N(30)))
	}
	return r
}

func genC11(g *G) interface{} {
	p := &planC11{Salt: g.r.Uint32(), Cuts: g.Cuts(), Fail: g.N(nFail), N: g.N(40), EOFLast: g.P(40), Trace: g.P(15)}
	call := func() Msg { return g.Msg(tTypes[g.N(len(tTypes))], g.P(2)) }
	for n := g.N(4); n > 0; n-- {
		ph := phaseC11{}
		for k := g.R(1, 5); k > 0; k-- {
			ph.Calls = append(ph.Calls, call())
		}
		for k := g.N(6); k > 0; k-- {
			a := actC11{I: g.N(5)}
			switch g.W(20, 30, 30, 20) {
			case 0:
				a.OK = true
			case 1: // a wrong type, or nonsense
				a.R = g.repMsg()
			case 2: // the right type, damaged
				t := ph.Calls[a.I%len(ph.Calls)].T + 1
				if g.P(20) {
					t = tRerror
				}
				m := g.Msg(t, false)
				a.R = rawReq{T: t, M: m, Len: g.lens()}
				if a.R.Len == nil {
					a.R.Muts = g.muts(len(encode(m.M())) - 7)
				}
			case 3:
				a.Stray = true
				a.Tag = pick(g, 0, 65535, 65534, 1, 2, 3, g.U16())
				a.R = g.repMsg()
				a.OK = g.P(50)
			}
			ph.Acts = append(ph.Acts, a)
		}
		p.Ph = append(p.Ph, ph)
	}
	for k := g.N(5); k > 0; k-- {
		p.Last = append(p.Last, call())
	}
	p.Answer = g.N(len(p.Last) + 1)
	p.Racing = g.N(4)
	for k := g.R(1, 3); k > 0; k-- {
		p.After = append(p.After, call())
	}
	return p
}

func runC11(c *Ctx, pl interface{}) {
	p := pl.(*planC11)
	a, b := memPair()
	c.Cleanup(func() { a.Close(); b.Close() })
	b.w.eofLast = p.EOFLast
	cl := newClient(c, a, p.Trace)
	pr := newPeer(b)
	k, cut := 0, 0
	good := func(ms []Msg) bool {
		for _, m := range ms {
			if _, ok := layouts[m.T]; !ok || m.T%2 != 0 {
				return false
			}
		}
		return true
	}
	// start makes calls and receives their requests.
	start := func(ms []Msg, what string) (xs []*callRes, tags []uint16) {
		byID := map[int]int{}
		for _, pm := range ms {
			k++
			m := uniq(pm.M(), k)
			m.Tag = 0
			byID[k] = len(xs)
			xs = append(xs, startCall(cl, m, k))
		}
		tags = make([]uint16, len(xs))
		for range xs {
			raw, err := pr.recv(opTimeout)
			if err == errTimeout {
				c.Hangf("%s: the request of a call does not arrive", what)
			}
			if err != nil {
				c.Failf("%s: the client's stream ended though the connection is up: %v", what, err)
			}
			m, ok := decode(raw)
			if !ok {
				c.Failf("%s: malformed request % x", what, tailB(raw))
			}
			i, ok := byID[uniqOf(m)]
			if !ok {
				c.Failf("%s: request %v was never made", what, m)
			}
			tags[i] = m.Tag
		}
		return
	}
	send := func(b2 []byte) { writeCut(b, b2, p.Cuts, &cut) }
	right := func(x *callRes, tag uint16) []byte {
		r := onWire(resFor(p.Salt, x.m))
		r.Tag = tag
		return encode(r)
	}
	for pi, ph := range p.Ph {
		if len(ph.Calls) == 0 || !good(ph.Calls) {
			return
		}
		what := fmt.Sprintf("phase %d", pi)
		xs, tags := start(ph.Calls, what)
		state := make([]int, len(xs)) // 0 outstanding
		finish := func(i int, raw []byte) {
			state[i] = 1
			send(raw)
			xs[i].wait(c, what)
			r, ok := decode(raw)
			switch {
			case ok && r.T == xs[i].m.T+1, ok && r.T == tRerror:
				xs[i].agrees(c, what, r)
				c.Label("good reply")
			default:
				if xs[i].err == nil {
					c.Failf("%s: call %v was answered with % x and returned %v without error", what, xs[i].m, tailB(raw), xs[i].r)
				}
				c.Label("bad reply")
				c.NonTrivial()
			}
		}
		for _, act := range ph.Acts {
			// One call stays outstanding to the end of the phase: its reply
			// then shows that all that was sent before has been dealt with.
			var out []int
			for i := range xs[:len(xs)-1] {
				if state[i] == 0 {
					out = append(out, i)
				}
			}
			if act.Stray {
				t := act.Tag
				for used := true; used; {
					used = false
					for i := range xs {
						if state[i] == 0 && tags[i] == t {
							used = true
							t++
						}
					}
				}
				r := act.R
				r.M.Tag = t
				raw := r.bytes()
				if act.OK { // a copy of a reply
					raw = right(xs[0], t)
				}
				send(raw)
				c.Label("stray reply")
				c.NonTrivial()
				continue
			}
			if len(out) == 0 {
				continue
			}
			i := out[((act.I%len(out))+len(out))%len(out)]
			if act.OK {
				finish(i, right(xs[i], tags[i]))
			} else {
				r := act.R
				r.M.Tag = tags[i]
				raw := r.bytes()
				finish(i, raw)
			}
		}
		for i := range xs {
			if state[i] == 0 {
				finish(i, right(xs[i], tags[i]))
			}
		}
	}
	// The end.
	if !good(p.Last) || !good(p.After) {
		return
	}
	xs, tags := start(p.Last, "end")
	ans := p.Answer
	if ans > len(xs) {
		ans = len(xs)
	}
	racing := p.Racing
	if racing > 16 {
		racing = 16
	}
	var rs []*callRes
	race := func() {
		for i := 0; i < racing; i++ {
			k++
			rs = append(rs, startCall(cl, M{T: tTclunk, Fid: uint32(k)}, k))
		}
	}
	fail := p.Fail % nFail
	if fail >= 5 && ans > 0 {
		// The client may stop reading as soon as a write fails, so the
		// replies must have been taken before.
		for i := 0; i < ans; i++ {
			send(right(xs[i], tags[i]))
			xs[i].wait(c, "end")
		}
	}
	var pre []byte
	if fail < 5 {
		for i := 0; i < ans; i++ {
			pre = append(pre, right(xs[i], tags[i])...)
		}
	}
	var lastReply []byte
	if ans < len(xs) {
		lastReply = right(xs[ans], tags[ans])
	} else {
		lastReply = encode(M{T: tRclunk, Tag: 1})
	}
	c.Label("failure %d", fail)
	c.NonTrivial()
	if p.N%2 == 0 {
		race()
	}
	n := p.N
	if n < 0 {
		n = 0
	}
	switch fail {
	case 0: // the end of the stream
		send(pre)
		b.w.end(io.EOF)
	case 1:
		send(pre)
		b.w.end(errReset)
	case 2: // in the middle of a message
		send(append(pre, lastReply[:n%len(lastReply)]...))
		b.w.end(io.EOF)
	case 3: // an impossible size
		h := append([]byte(nil), lastReply...)
		le.PutUint32(h, uint32(n%7))
		send(append(pre, h...))
	case 4: // a huge size
		h := append([]byte(nil), lastReply...)
		le.PutUint32(h, pick(newG(uint64(n), "x", 0, false), 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, uint32(len(h)+1)))
		send(append(pre, h...))
		b.w.end(io.EOF)
	case 5: // writing fails
		a.w.mu.Lock()
		a.w.limit, a.w.werr = a.w.total+n%30, errReset
		a.w.mu.Unlock()
		// Requests are at least 9 bytes, so the limit is hit soon.
		for i := 0; i < 5; i++ {
			k++
			rs = append(rs, startCall(cl, M{T: tTclunk, Fid: uint32(k)}, k))
		}
	case 6: // both ways
		send(pre)
		b.w.end(errReset)
		b.r.rend()
	}
	if p.N%2 == 1 {
		race()
	}
	for i, x := range xs {
		x.wait(c, "end")
		if i < ans {
			r, _ := decode(right(x, tags[i]))
			x.agrees(c, "answered just before the connection failed", r)
		} else if x.err == nil {
			c.Failf("end (failure %d): call %v got no complete reply and returned %v without error", fail, x.m, x.r)
		}
		if i >= ans {
			c.lookDead(cl)
		}
	}
	for _, x := range rs {
		x.wait(c, "end, racing")
		if x.err == nil {
			c.Failf("end (failure %d): call %v got no reply and returned without error", fail, x.m)
		}
	}
	for _, pm := range p.After {
		k++
		x := startCall(cl, uniq(pm.M(), k), k)
		x.wait(c, "after the connection has failed")
		if x.err == nil {
			c.Failf("after the connection has failed (%d): call %v returned %v without error", fail, x.m, x.r)
		}
		c.lookDead(cl)
	}
}

// ---- C12

type planC12 struct {
	Workers []workC12
	Drain   int // tags to take at once first
	Hold    int
	GC      bool // collect garbage now and then
	Leave   int  // tags that are left at the end, if nearly all are taken
	Fids    int  `json:",omitempty"` // as many fids are taken at first
}

type workC12 struct{ Ops []int } // 0: GetFID, 1: GetTag, 2: call

func genC12(g *G) interface{} {
	p := &planC12{Hold: g.R(1, 4)}
	for n := g.R(1, 8); n > 0; n-- {
		w := workC12{}
		for k := g.R(1, 60); k > 0; k-- {
			w.Ops = append(w.Ops, g.W(50, 25, 25))
		}
		p.Workers = append(p.Workers, w)
	}
	if g.P(10) {
		p.Drain = g.N(3000)
	}
	p.GC = g.P(5)
	if g.Idx%200 == 7 {
		p.Fids = pick(g, 66000, 70000, 140000)
		if g.Idx%2000 == 7 {
			p.Fids = 1<<20 + 70000
		}
	}
	if g.Idx%400 == 5 {
		p.Drain = 65534 - 600
		p.Leave = g.N(4)
		p.GC = true
	}
	return p
}

func runC12(c *Ctx, pl interface{}) {
	p := pl.(*planC12)
	a, b := memPair()
	c.Cleanup(func() { a.Close(); b.Close() })
	cl := newClient(c, a, false)
	pr := newPeer(b)
	var mu sync.Mutex
	handed := map[uint16]bool{}
	fids := map[uint32]bool{}
	out := map[uint16]bool{}
	bad := ""
	say := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	ntags := p.Drain
	for _, w := range p.Workers {
		for _, o := range w.Ops {
			if o == 1 {
				ntags++
			}
		}
	}
	if ntags > 65530 || p.Drain < 0 {
		return
	}
	tag := func() {
		t := uint16(cl.GetTag())
		mu.Lock()
		defer mu.Unlock()
		if t == 0 || t == 65535 {
			say("GetTag returned %d", t)
		}
		if handed[t] {
			say("GetTag returned %d twice", t)
		}
		if out[t] {
			say("GetTag returned %d, which an outstanding call uses", t)
		}
		handed[t] = true
	}
	go func() {
		var held []M
		for {
			raw, err := pr.recv(2 * time.Millisecond)
			if err == nil {
				m, ok := decode(raw)
				mu.Lock()
				if !ok {
					say("malformed request % x", raw)
				} else if handed[m.Tag] {
					say("a call uses tag %d, which GetTag handed out", m.Tag)
				}
				out[m.Tag] = true
				mu.Unlock()
				held = append(held, m)
			} else if err != errTimeout {
				return
			}
			for len(held) > 0 && (len(held) >= p.Hold || err == errTimeout) {
				m := held[len(held)-1]
				held = held[:len(held)-1]
				mu.Lock()
				delete(out, m.Tag)
				mu.Unlock()
				b.Write(encode(M{T: tRclunk, Tag: m.Tag}))
			}
		}
	}()
	gc := func() {
		if p.GC {
			runtime.GC()
			time.Sleep(2 * time.Millisecond)
			runtime.GC()
			c.Label("garbage collected")
		}
	}
	var wg sync.WaitGroup
	if p.Fids > 0 && p.Fids < 1<<22 {
		got := make([][]uint32, 4)
		for i := range got {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := 0; k < p.Fids/len(got); k++ {
					got[i] = append(got[i], uint32(cl.GetFID()))
				}
			}(i)
		}
		wg.Wait()
		for _, s := range got {
			for _, f := range s {
				if fids[f] {
					c.Failf("GetFID returned %d twice, in %d calls", f, p.Fids)
				}
				fids[f] = true
			}
		}
		c.Label("very many fids")
	}
	if !within(opTimeout, func() {
		for i := 0; i < p.Drain; i++ {
			tag()
			if i%20000 == 1000 {
				gc()
			}
		}
	}) {
		c.Hangf("GetTag after %d of %d tags", len(handed), p.Drain)
	}
	for _, w := range p.Workers {
		wg.Add(1)
		go func(w workC12) {
			defer wg.Done()
			for k, o := range w.Ops {
				switch o {
				case 0:
					f := uint32(cl.GetFID())
					mu.Lock()
					if fids[f] {
						say("GetFID returned %d twice", f)
					}
					fids[f] = true
					mu.Unlock()
				case 1:
					tag()
					if k == len(w.Ops)/2 && p.GC {
						runtime.GC()
					}
				case 2:
					cl.CallTclunk(7)
				}
			}
		}(w)
	}
	if !within(opTimeout, wg.Wait) {
		c.Hangf("GetTag, GetFID or a call")
	}
	gc()
	// Take what is left, except for one tag for a last call. The calls are
	// over, but their tags become available only after they have returned.
	left := 0
	if p.Drain > 60000 && p.Leave >= 0 && p.Leave < 10 {
		for ntags < 65533-p.Leave {
			if !within(opTimeout, tag) {
				c.Hangf("GetTag after %d tags", ntags)
			}
			ntags++
			left++
		}
		gc()
		for k := 0; k < 60; k++ {
			if !within(opTimeout, func() { cl.CallTclunk(7) }) {
				c.Hangf("a call after %d tags were handed out", ntags)
			}
		}
		gc()
	}
	mu.Lock()
	defer mu.Unlock()
	if bad != "" {
		c.Failf("%s", bad)
	}
	if p.Drain > 60000 {
		c.Label("nearly all tags taken")
	}
	if len(p.Workers) > 1 && ntags > 0 {
		c.NonTrivial()
		c.Label("concurrent")
	}
}

func init() {
	register(&Prop{ID: "C10", Rule: "some reply is sent out of request order", Quick: 5000, Thorough: 200000,
		New: func() interface{} { return &planC10{} }, Gen: genC10, Run: runC10})
	register(&Prop{ID: "C11", Rule: "every case injects a connection failure; most also bad or stray replies", Quick: 5000, Thorough: 200000,
		New: func() interface{} { return &planC11{} }, Gen: genC11, Run: runC11})
	register(&Prop{ID: "C12", Rule: "tags are taken by several goroutines", Quick: 4000, Thorough: 200000,
		New: func() interface{} { return &planC12{} }, Gen: genC12, Run: runC12})
}
