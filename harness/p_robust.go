package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// C22: any sequence of well-formed requests is answered, request by request.

type opC22 struct {
	M    Msg
	Dir  *DirMsg // for wstat: the entry
	Host string  // instead: something happens on the host
	H    int
	Rep  int `json:",omitempty"` // for walk: repeat the names up to this many
}

type planC22 struct {
	Debug bool
	Small bool // an exported tree whose directories have long names
	Batch int  // requests sent at once
	Ops   []opC22
	Pre   bool // begin with a version and an attach
}

var c22Names = []Str{"a", "b", "d", "f", "d/x", "g", "", ".", "/", "a/b", "d\x00", "lnk", "ro", "fifo?"}

func (g *G) c22Name() Str {
	switch g.W(70, 15, 15) {
	case 1:
		return g.Str(300)
	case 2:
		return Str(strings.Repeat("n", pick(g, 255, 256, 4000, 5000, 65535)))
	}
	return pick(g, c22Names...)
}

func genC22(g *G) interface{} {
	p := &planC22{Debug: g.P(20), Batch: 1, Pre: !g.P(5), Small: g.P(30)}
	if g.P(30) {
		p.Batch = g.R(2, 12)
	}
	n := g.R(3, 40)
	if g.Thorough && g.P(20) {
		n = g.R(40, 150)
	}
	fid := func() uint32 {
		if g.P(5) {
			return g.U32()
		}
		return uint32(g.N(5))
	}
	for ; n > 0; n-- {
		if g.P(12) {
			// A session of its own: agree, attach, open and read.
			f := uint32(g.N(5))
			v := Msg{T: tTversion, Tag: 65535, S1: "9P2000", N: pick(g, uint32(g.R(20, 300)), 8192, 25, 35, 64, 1000, uint32(g.R(1000, 70000)), 1<<31, 1<<32-1)}
			if !g.P(40) {
				p.Ops = append(p.Ops, opC22{M: Msg{T: tTclunk, Fid: f}})
			} else {
				p.Ops = append(p.Ops, opC22{M: v})
			}
			at := Msg{T: tTattach, Fid: f, Fid2: noFid, S2: pick(g, Str("f"), "f", "", "d", "ro", "a")}
			p.Ops = append(p.Ops, opC22{M: at}, opC22{M: Msg{T: tTopen, Fid: f}})
			for k := g.R(1, 5); k > 0; k-- {
				p.Ops = append(p.Ops, opC22{M: Msg{T: tTread, Fid: f, Off: pick(g, uint64(0), uint64(g.N(100))), N: pick(g, uint32(g.N(300)), 8192, 10000, 70000, 1<<31-1, v.N, v.N-11, v.N-24)}})
			}
		}
		t := []uint8{tTversion, tTattach, tTflush, tTwalk, tTopen, tTcreate, tTread, tTwrite, tTclunk, tTremove, tTstat, tTwstat}[g.W(5, 8, 2, 22, 18, 12, 24, 10, 6, 5, 5, 10)]
		m := g.Msg(t, false)
		var op opC22
		m.Fid = fid()
		m.Tag = uint16(g.N(65536))
		switch t {
		case tTversion:
			m.Fid = 0
			m.S1 = pick(g, Str("9P2000"), "9P2000", "9P2000", "9P2000", "9P2000.u", "9P", "", "unknown", m.S1)
			m.N = pick(g, uint32(8192), 8192, 0, 1, 6, 7, 8, 10, 11, 12, 18, 23, 24, 25, 26, 30, 64, 100, 128, 256, 1000, 1<<31-1, 1<<31, 1<<31+100, 1<<32-1, m.N)
		case tTattach:
			m.Fid2 = pick(g, uint32(noFid), noFid, noFid, 0, m.Fid2)
			m.S2 = pick(g, Str(""), "", "", g.c22Name())
		case tTwalk:
			m.Fid2 = fid()
			m.Names = nil
			for k := g.W(20, 50, 20, 10) + g.W(95, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5)*5; k > 0; k-- {
				m.Names = append(m.Names, g.c22Name())
			}
			if g.P(20) {
				for k := range m.Names {
					if g.P(50) {
						m.Names[k] = ".."
					}
				}
			}
			if g.P(6) {
				m.Names = [][]Str{{"."}, {"d", ".."}, {".."}, {"d", "x", "..", ".."}, {""}, {"x"}, {"d", "x", "nosuch"}, {"lnk"}}[g.N(8)]
				op.Rep = pick(g, 15, 16, 17, 18, 64, 100, 127, 128, 129, 255, 256, 257, 300, 624, 630, 631, 1000, 5000, 32768, 65535)
			}
		case tTopen:
			if g.P(70) {
				m.Mode = pick(g, uint8(0), 0, 0, 1, 2, 3, 0x10, 0x11, 0x12, 0x13)
			}
		case tTcreate:
			m.S1 = g.c22Name()
			if g.P(50) {
				m.Perm = pick(g, uint32(0644), 0x800001ED, 0x80000000, 0)
			}
			if g.P(60) {
				m.Mode = pick(g, uint8(0), 1, 2)
			}
		case tTread:
			if g.P(60) {
				m.Off = pick(g, uint64(0), 0, 0, 1, 100, 1<<31, 1<<32, 1<<62, 1<<63, ^uint64(0))
			}
			if g.P(60) {
				m.N = pick(g, uint32(0), 1, 10, 100, 8168, 8192, 65536, 1<<20, 1<<31-1, 1<<31, 1<<32-1)
			}
		case tTwrite:
			if g.P(60) {
				m.Off = pick(g, uint64(0), 0, 10, 1<<20, 1<<40, 1<<62, 1<<63-1, 1<<63, ^uint64(0))
			}
		case tTwstat:
			if g.P(70) {
				d := g.Dir(false)
				d.Name = ""
				if g.P(40) {
					d.Name = g.c22Name()
				}
				if g.P(70) {
					d.User, d.Group = "", ""
				}
				if g.P(50) {
					d.Mode = pick(g, uint32(0xFFFFFFFF), 0777, 0, 0x80000000)
				}
				if g.P(50) {
					d.Length = pick(g, ^uint64(0), 0, 100, 1<<40, 1<<62, 1<<63-1, 1<<63)
				}
				m.Data = Blob{}
				op.Dir = &d
			}
		}
		op.M = m
		p.Ops = append(p.Ops, op)
		if g.P(6) {
			p.Ops = append(p.Ops, opC22{Host: pick(g, "rm", "chmod", "swap", "mk"), H: g.N(8)})
		}
	}
	return p
}

// tame keeps names from climbing: containment is another property's business,
// and this one's histories are not to depend on it.
func tame(s string) string {
	var r []string
	for _, e := range strings.Split(s, "/") {
		if e == ".." {
			e = "d"
		}
		r = append(r, e)
	}
	return strings.Join(r, "/")
}

func runC22(c *Ctx, pl interface{}) {
	p := pl.(*planC22)
	root := newRoot(c)
	c.Must(os.MkdirAll(filepath.Join(root, "d", "x"), 0755))
	c.Must(os.WriteFile(filepath.Join(root, "f"), Blob{N: 20000, S: 7}.Expand(), 0644))
	c.Must(os.WriteFile(filepath.Join(root, "d", "g"), []byte("gg"), 0644))
	c.Must(os.WriteFile(filepath.Join(root, "ro"), []byte("ro"), 0444))
	c.Must(os.Symlink("f", filepath.Join(root, "lnk")))
	c.Must(os.Symlink("nowhere", filepath.Join(root, "d", "bad")))
	if p.Small {
		for i := 0; i < 5; i++ {
			c.Must(os.WriteFile(filepath.Join(root, fmt.Sprintf("%s%d", strings.Repeat("long", 50), i)), nil, 0644))
		}
	}
	l := ufsListener(c, root, "harvey", p.Debug)
	// A second connection that must go on working.
	y := newFsx(c, root, "", "harvey")
	y.connect(l)
	y.rpc(M{T: tTversion, N: 8192, S1: "9P2000"})
	if r := y.rpc(M{T: tTattach, Fid: 1, Fid2: noFid, S2: "/"}); !isOK(r) {
		c.Failf("attach: %v", r)
	}
	a, b := memPair()
	if err := l.Accept(b); err != nil {
		c.Failf("Accept: %v", err)
	}
	c.Cleanup(func() { a.Close() })
	pr := newPeer(a)
	msize := uint32(1<<32 - 1)
	agreed := false
	var hist []string
	var pend []M
	okReads, okOther := 0, 0
	flush := func() {
		for _, m := range pend {
			rb, err := pr.recv(opTimeout)
			if err == errTimeout {
				c.Hangf("%v\nhistory:\n  %s", m, strings.Join(hist, "\n  "))
			}
			if err != nil {
				c.Failf("%v is not answered: %v\nhistory:\n  %s", m, err, strings.Join(hist, "\n  "))
			}
			r := checkReply(c, "file server", rb, m)
			hist = append(hist, fmt.Sprintf("%v -> %v", m, r))
			switch r.T {
			case tRerror:
			case tRversion:
				if r.N > m.N {
					c.Failf("%v is answered with a larger msize: %v", m, r)
				}
				msize = r.N
				agreed = true
			case tRread:
				if uint64(len(r.Data)) > uint64(m.N) {
					c.Failf("%v returned %d bytes\nhistory:\n  %s", m, len(r.Data), strings.Join(hist, "\n  "))
				}
				if agreed && uint32(len(rb)) > msize {
					c.Failf("the reply to %v is %d bytes long, msize is %d\nhistory:\n  %s", m, len(rb), msize, strings.Join(hist, "\n  "))
				}
				okReads++
			default:
				okOther++
			}
		}
		pend = nil
	}
	send := func(m M) {
		a.Write(encode(m))
		pend = append(pend, m)
		if len(pend) >= p.Batch {
			flush()
		}
	}
	if p.Pre {
		send(M{T: tTversion, Tag: 65535, N: 8192, S1: "9P2000"})
		for i := uint32(0); i < 4; i++ {
			send(M{T: tTattach, Tag: uint16(i), Fid: i, Fid2: noFid, S2: []string{"", "f", "d", "ro"}[i]})
		}
	}
	for _, op := range p.Ops {
		if op.Host != "" {
			// behind the server's back
			flush()
			q := filepath.Join(root, []string{"f", "d/g", "d/x", "a", "b", "ro", "d", "d/a"}[(op.H%8+8)%8])
			switch op.Host {
			case "rm":
				os.Remove(q)
			case "chmod":
				os.Chmod(q, 0)
			case "swap":
				if fi, err := os.Lstat(q); err == nil && os.Remove(q) == nil {
					if fi.IsDir() {
						os.WriteFile(q, []byte("x"), 0644)
					} else {
						os.Mkdir(q, 0755)
					}
				}
			case "mk":
				os.WriteFile(q, []byte("made"), 0644)
			}
			continue
		}
		if _, ok := layouts[op.M.T]; !ok || op.M.T%2 != 0 {
			continue
		}
		m := op.M.M()
		if op.Dir != nil {
			d := *op.Dir
			d.Name = Str(tame(string(d.Name)))
			m.Data = encodeDir(d)
		}
		if len(m.Data) > 60000 {
			m.Data = m.Data[:60000]
		}
		if m.T == tTwstat && op.Dir == nil && len(m.Data) > 0 {
			// raw bytes: make sure that no name in them climbs
			m.Data = []byte(strings.ReplaceAll(string(m.Data), "..", "xx"))
		}
		m.S1, m.S2 = tame(m.S1), tame(m.S2)
		for i := range m.Names {
			if m.Names[i] != ".." {
				m.Names[i] = tame(m.Names[i])
			}
		}
		if k := len(m.Names); k > 0 && op.Rep > k && op.Rep <= 65535 && k < 5 {
			for i := k; i < op.Rep; i++ {
				m.Names = append(m.Names, m.Names[i-k])
			}
			c.Label("walk of many names")
		}
		c.Label("%s", tname(m.T))
		send(m)
	}
	flush()
	// The other connection, and a new one.
	if r := y.rpc(M{T: tTstat, Fid: 1}); !isOK(r) {
		c.Failf("another connection no longer works: %v\nhistory:\n  %s", r, strings.Join(hist, "\n  "))
	}
	z := newFsx(c, root, "", "harvey")
	z.connect(l)
	z.rpc(M{T: tTversion, N: 8192, S1: "9P2000"})
	if r := z.rpc(M{T: tTattach, Fid: 1, Fid2: noFid, S2: "/"}); !isOK(r) {
		c.Failf("a new connection does not work: %v\nhistory:\n  %s", r, strings.Join(hist, "\n  "))
	}
	if okOther >= 3 {
		c.NonTrivial()
	}
	if okReads > 0 {
		c.Label("successful reads")
	}
}

func init() {
	register(&Prop{ID: "C22", Rule: "at least three requests other than version and read succeeded", Unpriv: true, Quick: 15000, Thorough: 250000,
		Assume: []string{"'..' occurs here as a whole walk element only (C13 has the rest); the tree has no devices or fifos, on which host calls block"},
		New:    func() interface{} { return new(planC22) }, Gen: genC22, Run: runC22})
}
