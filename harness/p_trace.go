package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

// C25: with a tracer set, listeners and clients do what they do without.

type planC25 struct {
	Items []itC03 // of kinds 2 and 3
	How   int     // what the tracer does: nothing, formats, formats and yields, formats and sleeps now and then
	Many  int     `json:",omitempty"` // instead: so many calls in a row
}

func genC25(g *G) interface{} {
	p := &planC25{How: g.W(10, 60, 20, 10)}
	for len(p.Items) < 1 || g.P(60) {
		for _, it := range genC03(g).(*planC03).Items {
			if it.K != 2 && it.K != 3 {
				continue
			}
			if g.P(40) {
				it.End = g.R(1, 2)
				it.Junk = Blob{Lit: Str(g.Bytes(g.N(30)))}
				if g.P(50) {
					b := encode(g.reqMsg().M())
					it.Junk.Lit = Str(b[:g.N(len(b))])
				}
				if g.P(30) { // a size that is none
					it.Junk.Lit = Str([]byte{byte(g.N(7)), 0, 0, 0, byte(100 + g.N(28)), 1, 0})
				}
			}
			p.Items = append(p.Items, it)
		}
	}
	if g.Idx == 3 || g.Idx == 11 {
		p.Many, p.How = 66000, g.N(2)
		if g.Idx == 11 {
			p.Many = 2000
		}
	}
	return p
}

func (c *Ctx) listenerOpts() []protocol.ListenerOpt {
	if c.trace == nil {
		return nil
	}
	return []protocol.ListenerOpt{func(l *protocol.Listener) error {
		l.Trace = c.trace
		return nil
	}}
}

func runC25(c *Ctx, pl interface{}) {
	p := pl.(*planC25)
	var calls atomic.Int64
	tr := func(f string, a ...interface{}) {
		n := calls.Add(1)
		if p.How > 0 {
			sink(f, a...)
		}
		if p.How == 2 {
			runtime.Gosched()
		}
		if p.How == 3 && n%16 == 0 {
			time.Sleep(100 * time.Microsecond)
		}
	}
	if p.Many > 0 {
		f := newFarm(c, 1, func(l *protocol.Listener) error { l.Trace = tr; return nil })
		f.mkNS = func(int) *modelNS { return &modelNS{res: func(_ uint32, m M) M { return M{T: m.T + 1, N: m.N} }} }
		conn := f.dial(c)
		cl, err := protocol.NewClient(func(x *protocol.Client) error {
			x.FromNet, x.ToNet, x.Trace = conn, conn, tr
			return nil
		})
		if err != nil {
			c.Failf("NewClient: %v", err)
		}
		for k := 0; k < p.Many; k++ {
			m := M{T: tTclunk, Fid: uint32(k)}
			if k == 0 {
				m = M{T: tTversion, N: 8192, S1: "9P2000"}
			}
			cr := startCall(cl, m, k)
			cr.wait(c, fmt.Sprintf("call %d with tracing", k))
			if cr.err != nil {
				c.Failf("call %d with tracing: %v", k, cr.err)
			}
		}
		c.Label("many calls")
		c.NonTrivial()
		return
	}
	for i, it := range p.Items {
		if it.K != 2 && it.K != 3 {
			continue
		}
		off := &Ctx{Dir: c.Dir, Prop: c.Prop, labels: map[string]int{}}
		on := &Ctx{Dir: c.Dir, Prop: c.Prop, labels: map[string]int{}, trace: tr}
		a := behave(off, it)
		b := behave(on, it)
		for _, x := range []*Ctx{off, on} {
			for _, f := range x.cleanup {
				f()
			}
		}
		if a != b {
			if strings.Contains(a, "timeout") != strings.Contains(b, "timeout") || strings.Contains(a, "does not return") != strings.Contains(b, "does not return") {
				c.Hangf("item %d: without tracing: %s; with: %s", i, tail(a, 3000), tail(b, 3000))
			}
			c.Failf("item %d: without tracing: %s; with: %s", i, tail(a, 3000), tail(b, 3000))
		}
		c.Label("%s", [...]string{"server", "client"}[it.K-2])
		if it.End > 0 {
			c.Label("%s ends", [...]string{"server", "client"}[it.K-2])
		}
	}
	c.Label("tracer %d", p.How)
	c.NonTrivial()
}

func init() {
	register(&Prop{ID: "C25", Rule: "a server session or client history was executed with and without a tracer and compared", Quick: 8000, Thorough: 300000,
		Assume: []string{"the tracer does not itself change what it is given"},
		New:    func() interface{} { return &planC25{} }, Gen: genC25, Run: runC25})
}
