package main

import (
	"encoding/json"
	"fmt"
	"strconv"
)

// C35: builds for systems of 32 bits behave like those for 64. check.sh builds
// this program for such a system; the cases, and the oracles, are those of
// other properties.

type planC35 struct {
	id string // whose case it is
	P  interface{}
}

func (p *planC35) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]interface{}{"Of": p.id, "Case": p.P})
}

func (p *planC35) UnmarshalJSON(b []byte) error {
	var r struct {
		Of   string
		Case json.RawMessage
	}
	if err := json.Unmarshal(b, &r); err != nil {
		return err
	}
	o := props[r.Of]
	if o == nil {
		return fmt.Errorf("no property %q", r.Of)
	}
	p.id, p.P = r.Of, o.New()
	return json.Unmarshal(r.Case, p.P)
}

var ofC35 = []struct {
	id string
	w  int
}{
	{"C01", 10}, {"C02", 8}, {"C04", 6}, {"C05", 6}, {"C06", 6}, {"C07", 2}, {"C08", 3}, {"C09", 2}, {"C10", 4}, {"C11", 4},
	{"C12", 4}, {"C13", 3}, {"C14", 14}, {"C15", 4}, {"C16", 3}, {"C17", 4}, {"C18", 8}, {"C19", 6}, {"C20", 8}, {"C21", 4}, {"C22", 3},
	{"C23", 4}, {"C26", 4}, {"C28", 4}, {"C29", 2}, {"C31", 3}, {"C34", 3},
}

func genC35(g *G) interface{} {
	var w []int
	for _, o := range ofC35 {
		w = append(w, o.w)
	}
	p := &planC35{id: ofC35[g.W(w...)].id}
	p.P = props[p.id].Gen(g)
	return p
}

func runC35(c *Ctx, pl interface{}) {
	p := pl.(*planC35)
	o := props[p.id]
	prop, labels := c.Prop, c.labels
	c.Prop, c.labels = p.id, map[string]int{}
	defer func() {
		labelMu.Lock()
		c.Prop, c.labels = prop, labels
		labelMu.Unlock()
		c.Label("case of %s", p.id)
		c.Label("words of %d bits", strconv.IntSize)
	}()
	o.Run(c, p.P)
}

func init() {
	register(&Prop{ID: "C35", Rule: "the case is non-trivial for the property whose case it is", Unpriv: true, Quick: 24000, Thorough: 400000,
		Assume: []string{"GOARCH=386 stands for the systems of 32 bits; what it runs on keeps file times in 32 bits, so none later than 2038 are asked for"},
		New:    func() interface{} { return new(planC35) }, Gen: genC35, Run: runC35})
}
