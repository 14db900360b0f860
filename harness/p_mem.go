package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
)

// C33: what is announced costs nothing until it arrives, and work that is done
// leaves nothing behind.

type opC33 struct {
	Kind  string // decode, frame, count, read, reply, cycle, calls
	T     uint8
	N     uint32 // what is announced
	K     int    // bytes that do arrive
	Cuts  []int
	Ufs   bool
	Quiet bool   // no version request before
	Msize uint32 // read
	Size  uint64
	Dir   bool
	Reqs  []Msg // cycle, calls: one round
	Stray []rawReq
	Vary  bool // fids, tags and names that are different in each round
}

type planC33 struct {
	Ops    []opC33
	Rounds int
}

func (g *G) announce() uint32 {
	return pick(g, 1<<25, 1<<26, 1<<27, 1<<28, 1<<29, 1<<30, 1<<31-1, 1<<31, 3<<30, 1<<32-1, 1<<25+uint32(g.r.Int64N(1<<31-1<<25+1)))
}

func genC33(g *G) interface{} {
	p := &planC33{Rounds: 1200}
	if g.Thorough {
		p.Rounds = 3000
	}
	if g.Idx%12 == 5 {
		op := opC33{Kind: "cycle", Ufs: true, Vary: g.P(50)}
		if g.Idx%36 == 5 {
			op.Kind = "calls"
			for n := g.R(1, 6); n > 0; n-- {
				m := g.reqMsg()
				m.Data.N = min(m.Data.N, 2000)
				op.Reqs = append(op.Reqs, m)
				if g.P(40) {
					op.Stray = append(op.Stray, g.repMsg())
				}
			}
			p.Ops = append(p.Ops, op)
			return p
		}
		// A round is any sequence of requests: repeating it can not need
		// more fids, files or directory entries than it has names for.
		for n := g.R(2, 8); n > 0; n-- {
			f := uint32(g.N(4))
			nm := pick(g, Str("a"), "b", "f", "f", "d", "new")
			m := Msg{Fid: f, Tag: uint16(g.N(65536))}
			switch g.N(13) {
			case 0:
				m.T, m.Fid, m.S1, m.N, m.Tag = tTversion, 0, pick(g, Str("9P2000"), "9P2000", "x"), 8192, 65535
			case 1, 2:
				m.T, m.Fid2 = tTattach, noFid
			case 3, 4:
				m.T, m.Fid2 = tTwalk, uint32(g.N(4))
				for k := g.N(3); k > 0; k-- {
					m.Names = append(m.Names, nm)
				}
			case 5:
				m.T, m.Mode = tTopen, pick(g, uint8(0), 0, 1, 2, 0x10)
			case 6, 7:
				m.T, m.N, m.Off = tTread, pick(g, uint32(0), 10, 100, 5000), pick(g, uint64(0), 0, 10)
			case 8:
				m.T, m.Data = tTwrite, Blob{N: g.N(3000)}
			case 9, 10:
				m.T = tTclunk
			case 11:
				m.T, m.S1, m.Perm, m.Mode = tTcreate, "new", pick(g, uint32(0644), 0x800001ed), pick(g, uint8(0), 1, 2)
			case 12:
				m.T = pick(g, uint8(tTremove), tTstat)
			}
			op.Reqs = append(op.Reqs, m)
			if g.P(15) {
				op.Stray = append(op.Stray, g.rawReq())
			}
		}
		// Mostly it begins with something that works.
		if g.P(80) {
			op.Reqs = append([]Msg{{T: tTattach, Fid: 0, Fid2: noFid}, {T: tTwalk, Fid: 0, Fid2: 1, Names: []Str{pick(g, Str("f"), "f", "d")}}, {T: tTopen, Fid: 1}}, op.Reqs...)
			if g.P(80) {
				op.Reqs = append(op.Reqs, Msg{T: tTclunk, Fid: 1}, Msg{T: tTclunk, Fid: 0})
			}
		}
		p.Ops = append(p.Ops, op)
		return p
	}
	for n := g.R(1, 12); n > 0; n-- {
		op := opC33{N: g.announce(), K: pick(g, 0, 0, 1, 2, 4, 16, g.N(100), g.N(5000)), Ufs: g.P(30), Cuts: g.Cuts()}
		switch g.W(25, 25, 15, 20, 20) {
		case 0:
			op.Kind, op.T = "decode", pick(g, uint8(tTwrite), tRread, tTwalk, tRwalk, tTwstat, tRstat, tTversion, tRerror)
		case 1:
			op.Kind, op.T, op.Quiet = "frame", pick(g, uint8(tTwrite), tTwrite, tTread, tTwalk, tTversion, tTwstat, g.U8()), g.P(30)
		case 2:
			op.Kind, op.T = "count", pick(g, uint8(tTwrite), tTwrite, tTwalk, tTwstat)
		case 3:
			op.Kind, op.Dir = "read", g.P(25)
			op.Msize = pick(g, uint32(256), 1000, 8192, 8192, 65536, 1<<20, 1<<21, 1<<26, 1<<31, 1<<32-1)
			op.Size = pick(g, uint64(0), 10, 5000, 1<<20, 1<<26, 1<<32, 1<<40)
			op.N = min(op.N, 1<<31-1)
		case 4:
			op.Kind, op.T, op.Quiet = "reply", pick(g, uint8(tRread), tRwalk, tRstat, tRerror), g.P(60)
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

// lying is a body of type t (with its tag) that announces n of something and
// has k bytes after that.
func lying(t uint8, n uint32, k int) []byte {
	b := encode(M{T: t, Tag: 3})
	// The count is what comes last in an empty message.
	switch t {
	case tTwrite, tRread:
		le.PutUint32(b[len(b)-4:], n)
	default:
		le.PutUint16(b[len(b)-2:], 65535)
	}
	b = append(b, make([]byte, k)...)
	le.PutUint32(b, uint32(len(b)))
	return b
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runC33(c *Ctx, pl interface{}) {
	p := pl.(*planC33)
	root := ""
	needRoot := func() string {
		if root == "" {
			root = newRoot(c)
			c.Must(os.WriteFile(filepath.Join(root, "f"), Blob{N: 5000, S: 7}.Expand(), 0644))
			c.Must(os.Mkdir(filepath.Join(root, "d"), 0755))
			for _, n := range []string{"a", "b", "d/f"} {
				c.Must(os.WriteFile(filepath.Join(root, n), nil, 0644))
			}
		}
		return root
	}
	dial := func(isUfs bool) *mconn {
		a, b := memPair()
		if isUfs {
			if err := ufsListener(c, needRoot(), "harvey", false).Accept(b); err != nil {
				c.Failf("Accept: %v", err)
			}
			c.Cleanup(func() { a.Close() })
			return a
		}
		return newFarm(c, 1).dial(c)
	}
	rpc := func(a *mconn, pr *peer, b []byte) []byte {
		a.Write(b)
		r, err := pr.recv(opTimeout)
		if err == errTimeout {
			c.Hangf("a request of %d bytes and type %s is not answered", len(b), tname(b[4]))
		}
		return r
	}
	version := func(n uint32) []byte { return encode(M{T: tTversion, Tag: 65535, N: n, S1: "9P2000"}) }
	for i, op := range p.Ops {
		arrived, allow := 0, uint64(0)
		before := allocated()
		what := fmt.Sprintf("operation %d (%s)", i, op.Kind)
		switch op.Kind {
		case "decode":
			if _, ok := layouts[op.T]; !ok {
				continue
			}
			b := lying(op.T, op.N, op.K)
			arrived = len(b)
			what += fmt.Sprintf(": decoding a %s of %d bytes that announces %d", tname(op.T), len(b), op.N)
			repoUnmarshal(op.T, bytes.NewBuffer(b[5:]))
		case "frame":
			a := dial(op.Ufs)
			pr := newPeer(a)
			if !op.Quiet {
				rpc(a, pr, version(8192))
			}
			b := make([]byte, 7+op.K)
			le.PutUint32(b, op.N)
			b[4] = op.T
			arrived = len(b) + 20
			what += fmt.Sprintf(": a connection that announces a %s of %d bytes and ends after %d", tname(op.T), op.N, len(b))
			k := 0
			writeCut(a, b, op.Cuts, &k)
			a.w.end(io.EOF)
			for {
				_, err := pr.recv(opTimeout)
				if err == errTimeout {
					c.Hangf("%s: the server goes on", what)
				}
				if err != nil {
					break
				}
			}
		case "count":
			if op.T != tTwrite && op.T != tTwalk && op.T != tTwstat {
				continue
			}
			a := dial(op.Ufs)
			pr := newPeer(a)
			rpc(a, pr, version(8192))
			b := lying(op.T, op.N, op.K)
			arrived = len(b) + 20
			what += fmt.Sprintf(": a %s of %d bytes that announces %d", tname(op.T), len(b), op.N)
			rpc(a, pr, b)
		case "read":
			a := dial(true)
			pr := newPeer(a)
			v, ok := decode(rpc(a, pr, version(op.Msize)))
			if !ok || v.T != tRversion {
				continue
			}
			f := filepath.Join(needRoot(), "big")
			c.Must(os.WriteFile(f, []byte("x"), 0644))
			if os.Truncate(f, int64(op.Size)) != nil {
				op.Size = 1 // the file system of the host can not do it
			}
			names := []string{"big"}
			if op.Dir {
				names = nil
			}
			rpc(a, pr, encode(M{T: tTattach, Fid: 0, Fid2: noFid}))
			rpc(a, pr, encode(M{T: tTwalk, Fid: 0, Fid2: 1, Names: names}))
			rpc(a, pr, encode(M{T: tTopen, Fid: 1}))
			what += fmt.Sprintf(": a read of %d bytes in a session with messages of %d", op.N, v.N)
			r := rpc(a, pr, encode(M{T: tTread, Fid: 1, N: op.N}))
			if m, ok := decode(r); !ok || m.T != tRread {
				c.Label("read refused")
			}
			arrived, allow = 200, 16*uint64(v.N)
		case "reply":
			if op.T != tRread && op.T != tRwalk && op.T != tRstat && op.T != tRerror {
				continue
			}
			a, b := memPair()
			cl := newClient(c, b, false)
			c.Cleanup(func() { a.Close() })
			m := M{T: op.T - 1, Fid: 1}
			if op.T == tRerror {
				m.T = tTclunk
			}
			x := startCall(cl, m, 0)
			pr := newPeer(a)
			q, err := pr.recv(opTimeout)
			if err != nil {
				c.Hangf("the client does not send its request: %v", err)
			}
			r := lying(op.T, op.N, op.K)
			le.PutUint16(r[5:], le.Uint16(q[5:]))
			if op.Quiet {
				// It never comes to an end.
				r = r[:7]
				r = append(r, make([]byte, op.K)...)
				le.PutUint32(r, op.N)
			}
			arrived = len(r)
			what += fmt.Sprintf(": a client gets %d bytes of a %s that announces %d", len(r), tname(op.T), op.N)
			k := 0
			writeCut(a, r, op.Cuts, &k)
			if op.Quiet {
				a.Close()
			}
			x.wait(c, what)
		case "cycle", "calls":
			cycleC33(c, p.Rounds, op, dial)
			continue
		default:
			continue
		}
		d := allocated() - before
		if lim := uint64(8<<20) + 64*uint64(arrived) + allow; d > lim {
			c.Failf("%s: %d bytes of memory were taken, for %d that arrived", what, d, arrived)
		}
		c.Label("%s", op.Kind)
		c.NonTrivial()
	}
}

// cycleC33 repeats a round and compares the memory that is in use.
func cycleC33(c *Ctx, rounds int, op opC33, dial func(bool) *mconn) {
	var round func()
	rn := 0
	if op.Kind == "calls" {
		a, b := memPair()
		cl := newClient(c, b, false)
		c.Cleanup(func() { a.Close() })
		var ms []M
		for _, m := range op.Reqs {
			if isReq(m.T) {
				x := m.M()
				x.Names = strs(x.Names)
				ms = append(ms, x)
			}
		}
		var stray [][]byte
		for _, s := range op.Stray {
			if b := s.bytes(); len(b) >= 7 && int(le.Uint32(b)) == len(b) {
				// To nobody: these tags are never used.
				le.PutUint16(b[5:], uint16(len(stray)%2)*65535)
				stray = append(stray, b)
			}
		}
		go func() {
			n := 0
			for {
				q, err := readFrame(a)
				if err != nil {
					return
				}
				if len(stray) > 0 {
					a.Write(stray[n%len(stray)])
				}
				n++
				m, ok := decode(q)
				if !ok {
					return
				}
				r := resFor(3, m)
				r.Tag = m.Tag
				a.Write(encode(r))
			}
		}()
		round = func() {
			rn++
			for _, m := range ms {
				if op.Vary {
					m = vary(m, rn)
				}
				if !within(opTimeout, func() { repoCall(cl, m); cl.GetFID() }) {
					c.Hangf("%v does not return", m)
				}
			}
		}
	} else {
		a := dial(true)
		a.Write(encode(M{T: tTversion, Tag: 65535, N: 8192, S1: "9P2000"}))
		if _, err := readFrame(a); err != nil {
			c.Failf("version: %v", err)
		}
		var bs [][]byte
		var ms []M
		for _, m := range op.Reqs {
			if isReq(m.T) && op.Vary {
				ms = append(ms, m.M())
			} else if isReq(m.T) {
				bs = append(bs, encode(m.M()))
			}
		}
		if op.Vary {
			// No fid is left.
			for f := uint32(0); f < 4; f++ {
				ms = append(ms, M{T: tTclunk, Fid: f})
			}
		}
		for _, s := range op.Stray {
			if b := s.bytes(); len(b) >= 7 && int(le.Uint32(b)) == len(b) {
				bs = append(bs, b)
			}
		}
		round = func() {
			rn++
			all := bs
			for _, m := range ms {
				all = append(all[:len(all):len(all)], encode(vary(m, rn)))
			}
			for _, b := range all {
				a.Write(b)
				var err error
				if !within(opTimeout, func() { _, err = readFrame(a) }) {
					c.Hangf("a %s is not answered", tname(b[4]))
				}
				if err != nil {
					c.Failf("a %s is not answered: %v", tname(b[4]), err)
				}
			}
		}
	}
	times := func(n int) (int64, int) {
		for ; n > 0; n-- {
			round()
		}
		return heap(), runtime.NumGoroutine()
	}
	if rounds < 300 {
		rounds = 300
	}
	lim, glim := int64(rounds)*5+8000, rounds/4
	// What grows by chance does not grow again and again.
	said := ""
	h, g := times(rounds)
	n := rounds
	for k := 0; ; k++ {
		said += fmt.Sprintf("%d bytes and %d goroutines after %d rounds, ", h, g, n)
		if k == 4 {
			c.Failf("the memory in use grows with the number of rounds: %sof %v (varied: %v) and %d messages that are no requests", said, op.Reqs, op.Vary, len(op.Stray))
		}
		more := rounds
		if k > 0 {
			more = 2 * rounds
		}
		h2, g2 := times(more)
		n += more
		if h2-h <= lim && g2-g <= glim {
			break
		}
		c.Label("grew %d times", k+1)
		h, g = h2, g2
	}
	c.Label("%s (varied: %v)", op.Kind, op.Vary)
	c.NonTrivial()
}

// vary makes of a message that of round n.
func vary(m M, n int) M {
	m.Tag += uint16(n)
	if m.T != tTversion && m.T != tTflush {
		m.Fid = m.Fid%4 + uint32(4*n)
	}
	if m.T == tTwalk {
		m.Fid2 = m.Fid2%4 + uint32(4*n)
		// At times, a name that is not there.
		if k := len(m.Names); k > 0 && n%2 == 0 {
			m.Names = append(append([]string{}, m.Names[:k-1]...), fmt.Sprintf("%.20s%d", m.Names[k-1], n))
		}
	}
	if m.T == tTattach {
		m.S1 = fmt.Sprintf("%.20s%d", m.S1, n)
	}
	return m
}

func readFrame(r io.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	n := le.Uint32(h[:])
	if n < 7 || n > 1<<26 {
		return nil, fmt.Errorf("a message of size %d", n)
	}
	b := make([]byte, n)
	copy(b, h[:])
	_, err := io.ReadFull(r, b[4:])
	return b, err
}

func init() {
	register(&Prop{ID: "C33", Rule: "an announcement of 32 MiB or more was made, or rounds of requests or calls repeated", Unpriv: true, Quick: 3000, Thorough: 40000,
		Assume: []string{"all that is allocated in the process counts; the limit per message is 8 MiB plus 64 times what arrived plus, for a read, 16 times the agreed message size", "rounds are compared by the heap in use after garbage collection"},
		New:    func() interface{} { return new(planC33) }, Gen: genC33, Run: runC33})
}
