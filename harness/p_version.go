package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
)

// C28: version negotiation, on connections that use the file server before and
// after it.

type opC28 struct {
	C   int    // connection
	K   string // version, bind, open, create, read, stat, clunk
	S   Str    `json:",omitempty"`
	N   uint32 `json:",omitempty"`
	F   int    `json:",omitempty"` // which fid
	W   int    `json:",omitempty"` // which file
	Off uint32 `json:",omitempty"`
}

type planC28 struct {
	Conns int
	Big   bool `json:",omitempty"`
	Debug bool `json:",omitempty"`
	Ops   []opC28
}

func (g *G) verName() Str {
	switch g.W(55, 35, 10) {
	case 0:
		return "9P2000"
	case 1:
		return pick(g, Str("9P2000.u"), "9P2000.L", "9P2000.", "9P2000x", "9P20001", "9P200", "9P", "", "unknown", "9p2000", "9P2000\x00", " 9P2000", "9P2000 ", "9P1000", "9P2010", "9P3000", "8P2000", "9P2000\n", "9P2000.u.L", "09P2000")
	}
	return g.Str(30)
}

func (g *G) verSize(big bool) uint32 {
	switch g.W(30, 20, 20, 10, 10, 10) {
	case 0:
		return pick(g, uint32(8192), 8216, 1024, 4096, 65536, 65560)
	case 1:
		return uint32(g.R(256, 9000))
	case 2:
		return pick(g, uint32(1<<20), 1<<21, 1<<21+24, 1<<21+25, 1<<22, 1<<31-1, 1<<31, 1<<31+1, ^uint32(0), ^uint32(0)-1)
	case 3:
		return uint32(g.N(256))
	case 4:
		return g.U32()
	}
	return uint32(g.R(256, 600))
}

func genC28(g *G) interface{} {
	p := &planC28{Conns: g.R(1, 3), Debug: g.P(10), Big: g.P(10)}
	for k := 0; k < p.Conns; k++ {
		p.Ops = append(p.Ops, opC28{C: k, K: "version", S: "9P2000", N: g.verSize(p.Big) | 256}, opC28{C: k, K: "bind", F: 0})
	}
	for n := g.R(5, 40); n > 0; n-- {
		op := opC28{C: g.N(p.Conns), F: g.N(4), W: g.N(4)}
		switch g.W(22, 18, 18, 26, 8, 8, 6) {
		case 0:
			op.K, op.S, op.N = "version", g.verName(), g.verSize(p.Big)
		case 1:
			op.K = "bind"
		case 2:
			op.K = "open"
		case 3:
			op.K = "read"
			op.N = pick(g, uint32(100), 1000, 8192, 8168, 65536, 70000, 1<<20, 1<<22, 1<<31-1, uint32(g.N(9000)), uint32(g.N(1000)))
			if g.P(50) {
				op.Off = uint32(g.N(72000))
			}
		case 4:
			op.K = "stat"
		case 5:
			op.K = "clunk"
		case 6:
			op.K, op.N = "create", pick(g, uint32(0644), 0x800001ed)
		}
		p.Ops = append(p.Ops, op)
		if op.K == "bind" && g.P(80) {
			p.Ops = append(p.Ops, opC28{C: op.C, K: "open", F: op.F})
		}
	}
	return p
}

type fidC28 struct {
	w    int
	open bool
}

type connC28 struct {
	x      *fsx
	agreed uint32 // 0: none yet
	fids   map[int]*fidC28
}

func runC28(c *Ctx, pl interface{}) {
	p := pl.(*planC28)
	if p.Conns < 1 {
		return
	}
	root := newRoot(c)
	sizes := []int{10, 70000, 300, 5000}
	if p.Big {
		sizes[1] = 1<<21 + 50000
	}
	var data [][]byte
	for k, n := range sizes {
		data = append(data, Blob{N: n, S: uint32(k + 1)}.Expand())
		c.Must(os.WriteFile(fmt.Sprintf("%s/f%d", root, k), data[k], 0644))
	}
	l := ufsListener(c, root, "harvey", p.Debug)
	var cs []*connC28
	for k := 0; k < p.Conns; k++ {
		x := newFsx(c, root, "", "harvey")
		x.connect(l)
		cs = append(cs, &connC28{x: x, fids: map[int]*fidC28{}})
	}
	var hist []string
	fail := func(f string, a ...interface{}) {
		h := hist
		if len(h) > 40 {
			h = h[len(h)-40:]
		}
		c.Failf("%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(h, "\n  "))
	}
	rpc := func(k int, m M) M {
		cs[k].x.hist = hist
		r := cs[k].x.rpc(m)
		hist = append(hist, fmt.Sprintf("connection %d: %v -> %v", k, m, r))
		return r
	}
	// probe finds out whether a fid is as it should be.
	probe := func(k, f int) {
		cn := cs[k]
		r := rpc(k, M{T: tTstat, Fid: uint32(f)})
		if fd := cn.fids[f]; fd == nil {
			if r.T != tRerror {
				fail("fid %d on connection %d is not valid in this session but can be used", f, k)
			}
		} else if r.T == tRerror {
			fail("fid %d on connection %d is valid but can not be used", f, k)
		}
	}
	read := func(k, f int, off, n uint32) {
		cn := cs[k]
		r := rpc(k, M{T: tTread, Fid: uint32(f), Off: uint64(off), N: n})
		fd := cn.fids[f]
		if r.T == tRerror {
			if fd != nil && fd.open && int32(n) >= 0 {
				fail("a read of an open fid failed")
			}
			return
		}
		if fd == nil || !fd.open {
			fail("a read of a fid that is not valid and open succeeded")
		}
		if uint32(len(r.Data)) > n || uint64(len(r.Data))+11 > uint64(cn.agreed) {
			fail("a read of %d with an agreed message size of %d returned %d bytes", n, cn.agreed, len(r.Data))
		}
		d := data[fd.w]
		if int(off) >= len(d) {
			d = nil
		} else {
			d = d[off:]
		}
		if len(r.Data) > len(d) || !bytes.Equal(r.Data, d[:len(r.Data)]) {
			fail("a read returned the wrong data")
		}
		if want := min(len(d), int(n)); int64(n)+24 <= int64(cn.agreed) && len(r.Data) != want {
			fail("a read of %d with an agreed message size of %d returned %d bytes of %d", n, cn.agreed, len(r.Data), want)
		} else if want > 0 && len(r.Data) == 0 {
			fail("a read of %d with an agreed message size of %d returned nothing", n, cn.agreed)
		}
		if len(r.Data) < min(len(d), int(n)) {
			c.Label("read cut by the message size")
		}
	}
	// unit checks what an open or create says about the size of reads and
	// writes.
	unit := func(k int, r M) {
		if a := cs[k].agreed; r.N > 0 && uint64(r.N)+24 > uint64(a) {
			fail("the I/O unit is %d, which does not fit into messages of the agreed size %d", r.N, a)
		}
	}
	accepted, refused, kept, made := 0, 0, 0, 0
	for _, op := range p.Ops {
		k := op.C % p.Conns
		if k < 0 || op.F < 0 || op.F > 20 || op.W < 0 || op.W > 3 {
			return
		}
		cn := cs[k]
		if cn.agreed == 0 && op.K != "version" {
			continue
		}
		switch op.K {
		case "version":
			r := rpc(k, M{T: tTversion, N: op.N, S1: string(op.S)})
			ok := r.T == tRversion && r.S1 == "9P2000"
			if r.T == tRversion && r.S1 != "9P2000" && r.S1 != "unknown" {
				fail("the server agrees to version %q", r.S1)
			}
			if ok && !strings.HasPrefix(string(op.S), "9P2000") {
				fail("version %q was asked for", op.S)
			}
			if ok && r.N > op.N {
				fail("asked for a message size of %d, the server answers %d", op.N, r.N)
			}
			if ok && r.N < 24 {
				fail("asked for a message size of %d, the server answers %d", op.N, r.N)
			}
			if !ok && op.S == "9P2000" && op.N >= 256 {
				fail("a proper version request is refused")
			}
			if r.T == tRversion && !ok {
				// Then there is no session; start one.
				c.Label("answered unknown")
				r = rpc(k, M{T: tTversion, N: 8192, S1: "9P2000"})
				if r.T != tRversion || r.S1 != "9P2000" || r.N > 8192 {
					fail("a proper version request is refused")
				}
				ok = true
			}
			if ok {
				if len(cn.fids) > 0 {
					c.Label("accepted with fids")
				}
				cn.agreed, cn.fids = r.N, map[int]*fidC28{}
				accepted++
			} else {
				c.Label("refused")
				refused++
				if len(cn.fids) > 0 {
					kept++
					c.Label("refused with fids")
				}
				if cn.agreed == 0 {
					continue
				}
			}
			for i := range cs {
				if cs[i].agreed == 0 {
					continue
				}
				for f := 0; f < 4; f++ {
					probe(i, f)
					if fd := cs[i].fids[f]; fd != nil && fd.open {
						read(i, f, 0, 1<<20)
					}
				}
			}
		case "bind":
			if cn.fids[op.F] != nil {
				continue
			}
			r := rpc(k, M{T: tTattach, Fid: uint32(op.F), Fid2: noFid, S1: "u"})
			if r.T == tRerror {
				fail("attach failed")
			}
			r = rpc(k, M{T: tTwalk, Fid: uint32(op.F), Fid2: uint32(op.F), Names: []string{fmt.Sprintf("f%d", op.W)}})
			if r.T == tRerror {
				fail("walk failed")
			}
			cn.fids[op.F] = &fidC28{w: op.W}
		case "open":
			fd := cn.fids[op.F]
			if fd == nil || fd.open {
				continue
			}
			r := rpc(k, M{T: tTopen, Fid: uint32(op.F)})
			if r.T == tRerror {
				fail("open failed")
			}
			unit(k, r)
			fd.open = true
		case "create":
			made++
			name := fmt.Sprintf("new%d", made)
			rpc(k, M{T: tTattach, Fid: 99, Fid2: noFid, S1: "u"})
			r := rpc(k, M{T: tTcreate, Fid: 99, S1: name, Perm: op.N})
			if r.T == tRerror {
				fail("create failed")
			}
			unit(k, r)
			if r := rpc(k, M{T: tTremove, Fid: 99}); r.T == tRerror {
				fail("remove failed")
			}
		case "read":
			read(k, op.F, op.Off, op.N)
		case "stat":
			probe(k, op.F)
		case "clunk":
			r := rpc(k, M{T: tTclunk, Fid: uint32(op.F)})
			if (r.T == tRerror) != (cn.fids[op.F] == nil) {
				fail("fid %d is valid: %v", op.F, cn.fids[op.F] != nil)
			}
			delete(cn.fids, op.F)
		}
	}
	if accepted > p.Conns || kept > 0 {
		c.NonTrivial()
	}
}

func init() {
	register(&Prop{ID: "C28", Rule: "a version request was accepted in a running session, or refused while fids were in use", Unpriv: true, Quick: 8000, Thorough: 150000,
		Assume: []string{"a version other than 9P2000 may be refused with an error or, as the protocol has it, with version unknown", "message sizes below 256 may be refused"},
		New:    func() interface{} { return new(planC28) }, Gen: genC28, Run: runC28})
}
