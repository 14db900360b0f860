package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/Harvey-OS/ninep/protocol"
)

var burstNames = []string{"f0", "f1", "f2", "f3", "new", "n2"}

const burstDir = 9 // the fid that is used for listing the directory

// burstTree makes the subtree of session i.
func burstTree(c *Ctx, root string, i int) {
	d := filepath.Join(root, fmt.Sprintf("s%d", i))
	c.Must(os.Mkdir(d, 0755))
	for k := 0; k < 4; k++ {
		b := make([]byte, 3000*k*k+100)
		for o := range b {
			b[o] = byte(i<<4 | (o*7+k)&15)
		}
		c.Must(os.WriteFile(filepath.Join(d, burstNames[k]), b, 0644))
	}
}

// burstReqs returns the requests of session i.
func burstReqs(b *burstC08, i int) []M {
	g := newG(uint64(b.Seed), "burst", i, false)
	out := []M{{T: tTversion, Tag: 65535, N: 8192, S1: "9P2000"}, {T: tTattach, Fid: 0, Fid2: noFid, S1: "u", S2: fmt.Sprintf("/s%d", i)}}
	fid := func() uint32 { return uint32(1 + g.N(5)) }
	for len(out) < b.Len {
		f := fid()
		switch g.W(20, 16, 30, 14, 8, 8, 5, 2, 5, 3) {
		case 0:
			out = append(out, M{T: tTwalk, Fid: 0, Fid2: f, Names: []string{pick(g, burstNames...)}})
			if g.P(70) {
				out = append(out, M{T: tTopen, Fid: f, Mode: pick(g, uint8(0), 0, 2, 2, 1, 0x12)})
			}
		case 1:
			out = append(out, M{T: tTopen, Fid: f, Mode: uint8(g.N(4))})
		case 2:
			out = append(out, M{T: tTread, Fid: f, Off: uint64(g.N(3000)), N: uint32(pick(g, 1, 100, 4000, 8000))})
		case 3:
			d := bytes.Repeat([]byte{byte(i<<4 | g.N(16))}, pick(g, 1, 50, 3000))
			out = append(out, M{T: tTwrite, Fid: f, Off: uint64(g.N(4000)), Data: d})
		case 4:
			out = append(out, M{T: tTclunk, Fid: f})
		case 5:
			out = append(out, M{T: tTstat, Fid: f})
		case 6:
			out = append(out, M{T: tTwalk, Fid: 0, Fid2: f}, M{T: tTcreate, Fid: f, S1: pick(g, "new", "n2"), Perm: 0644, Mode: 2})
		case 7:
			out = append(out, M{T: tTremove, Fid: f})
		case 8:
			out = append(out, M{T: tTwalk, Fid: 0, Fid2: burstDir}, M{T: tTopen, Fid: burstDir}, M{T: tTread, Fid: burstDir, N: 8000},
				M{T: tTclunk, Fid: burstDir})
		case 9:
			out = append(out, M{T: tTflush, OTag: uint16(g.N(100))})
		}
	}
	for k := range out {
		if k > 0 {
			out[k].Tag = uint16(1 + (k*37+i)%500)
		}
		out[k] = out[k].norm()
	}
	return out
}

// burstNorm is the part of a reply that the session's history determines.
func burstNorm(c *Ctx, root string, q M, raw []byte) string {
	r := checkReply(c, "file server", raw, q)
	dir := func(d DirMsg) string {
		return fmt.Sprintf("%q mode %o len %d %q", string(d.Name), d.Mode, d.Length, string(d.User))
	}
	switch r.T {
	case tRerror:
		return "error " + strings.ReplaceAll(string(r.S1), root, "ROOT")
	case tRstat:
		if len(r.Data) >= 2 {
			if d, _, _, ok := decodeDir(r.Data); ok {
				if d.Mode&(1<<31) != 0 {
					d.Length = 0
				}
				return "stat " + dir(d)
			}
		}
		return fmt.Sprintf("stat % x", r.Data)
	case tRread:
		if q.Fid == burstDir {
			var es []string
			for b := r.Data; len(b) > 0; {
				d, n, _, ok := decodeDir(b)
				if !ok {
					es = append(es, fmt.Sprintf("junk % x", b))
					break
				}
				es = append(es, dir(d))
				b = b[n:]
			}
			sort.Strings(es)
			return "entries " + strings.Join(es, ", ")
		}
		return "data " + string(r.Data)
	}
	r.Qid.V, r.Qid.P = 0, 0
	for k := range r.Qids {
		r.Qids[k].V, r.Qids[k].P = 0, 0
	}
	return r.String()
}

// burstRun executes session i and returns its normalised replies.
func burstRun(c *Ctx, l *protocol.Listener, addr, root string, reqs []M, pipe int) []string {
	var conn net.Conn
	if addr != "" {
		a, err := net.Dial("tcp", addr)
		if err != nil {
			c.Broken("dial: %v", err)
		}
		conn = a
	} else {
		a, b := memPair()
		if err := l.Accept(b); err != nil {
			c.Failf("Accept: %v", err)
		}
		conn = a
	}
	defer conn.Close()
	pr := newPeer(conn)
	var out []string
	if pipe < 1 {
		pipe = 1
	}
	sent := 0
	for k := range reqs {
		for sent < len(reqs) && sent < k+pipe {
			conn.Write(encode(reqs[sent]))
			sent++
		}
		raw, err := pr.recv(opTimeout)
		if err == errTimeout {
			c.Hangf("request %d of %d: %v", k, len(reqs), reqs[k])
		}
		if err != nil {
			c.Failf("request %d of %d, %v, is not answered: %v", k, len(reqs), reqs[k], err)
		}
		out = append(out, burstNorm(c, root, reqs[k], raw))
	}
	return out
}

func burstDiff(reqs []M, alone, together []string) string {
	for k := range reqs {
		if alone[k] != together[k] {
			a, b := alone[k], together[k]
			at := 0
			for at < len(a) && at < len(b) && a[at] == b[at] {
				at++
			}
			from := at - 10
			if from < 0 {
				from = 0
			}
			cut := func(s string) string {
				if from > len(s) {
					return ""
				}
				return short(s[from:])
			}
			return fmt.Sprintf("request %d, %v, is answered differently (%d and %d bytes, from %d on) alone: %q and with other connections: %q", k, reqs[k], len(a), len(b), at, cut(a), cut(b))
		}
	}
	return ""
}

func runBurst(c *Ctx, p *planC08) {
	b := p.Burst
	if b.N < 1 || b.N > 15 {
		return
	}
	alone := func(i int) []string {
		root := newRoot(c)
		for k := 0; k < b.N; k++ {
			burstTree(c, root, k)
		}
		return burstRun(c, ufsListener(c, root, string(p.User), p.Debug), "", root, burstReqs(b, i), b.Pipe)
	}
	want := make([][]string, b.N)
	reqs := make([][]M, b.N)
	for i := range want {
		reqs[i] = burstReqs(b, i)
		v, h, _ := guard(func() { want[i] = alone(i) })
		if h != nil {
			panic(h)
		}
		if v != nil {
			c.Label("given up: fails without other connections")
			return
		}
	}
	root := newRoot(c)
	for k := 0; k < b.N; k++ {
		burstTree(c, root, k)
	}
	l := ufsListener(c, root, string(p.User), p.Debug)
	addr := ""
	if p.TCP {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		c.Must(err)
		addr = ln.Addr().String()
		go l.Serve(ln)
		defer ln.Close()
	}
	got := make([][]string, b.N)
	vs := make([]*violation, b.N)
	hs := make([]*harnessError, b.N)
	var wg sync.WaitGroup
	for i := range got {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			vs[i], hs[i], _ = guard(func() { got[i] = burstRun(c, l, addr, root, reqs[i], b.Pipe) })
		}()
	}
	for k := 0; k < b.Churn; k++ {
		a, z := memPair()
		l.Accept(z)
		n := 2 + k%3*20
		for _, q := range burstReqs(b, k%b.N) {
			switch q.T {
			case tTversion, tTattach, tTwalk, tTread, tTstat, tTclunk:
				a.Write(encode(q))
			case tTopen:
				q.Mode = 0
				a.Write(encode(q))
			}
			if n--; n == 0 {
				break
			}
		}
		a.Write([]byte{23, 0, 0, 0, 116, 1}[:k%7])
		a.Close()
	}
	wg.Wait()
	for i := range got {
		if hs[i] != nil {
			panic(hs[i])
		}
		if vs[i] != nil {
			vs[i].Msg = "with several connections at once (alone, each works): " + vs[i].Msg
			panic(vs[i])
		}
		if d := burstDiff(reqs[i], want[i], got[i]); d != "" {
			if again := alone(i); burstDiff(reqs[i], want[i], again) != "" {
				c.Label("given up: not deterministic alone")
				return
			}
			c.Failf("session %d: %s", i, d)
		}
	}
	c.Label("burst")
	c.NonTrivial()
}
