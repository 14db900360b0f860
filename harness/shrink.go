package main

import (
	"encoding/json"
	"reflect"
	"sync"
	"time"
)

// shrink looks for a smaller plan that still fails. It works on the structure
// of the plan by reflection: drop parts of slices and strings, replace numbers
// by smaller ones and structs by their zero value.
func shrink(p *Prop, pj []byte, what string, optimeout float64, limit time.Duration) ([]byte, string) {
	end := time.Now().Add(limit)
	for time.Now().Before(end) {
		progress := false
		cur := p.New()
		if json.Unmarshal(pj, cur) != nil {
			return pj, what
		}
		cands := candidates(cur)
		seen := map[string]bool{string(pj): true}
		for i := 0; i < len(cands) && time.Now().Before(end) && !progress; {
			var batch [][]byte
			for ; i < len(cands) && len(batch) < 8; i++ {
				b := cands[i]()
				if b == nil || seen[string(b)] {
					continue
				}
				seen[string(b)] = true
				batch = append(batch, b)
			}
			type res struct {
				o outcome
				m string
			}
			rs := make([]res, len(batch))
			var wg sync.WaitGroup
			for k := range batch {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					rs[k].o, rs[k].m = try(p, batch[k], optimeout)
				}(k)
			}
			wg.Wait()
			for k := range batch {
				if rs[k].o == violated || rs[k].o == hung {
					pj, what = batch[k], rs[k].m
					progress = true
					break
				}
			}
		}
		if !progress {
			break
		}
	}
	return pj, what
}

// candidates returns functions that make the simplifications of v, largest
// steps first.
func candidates(v interface{}) []func() []byte {
	var big, mid, small []func() []byte
	root := reflect.ValueOf(v)
	snap := func() []byte {
		b, err := json.Marshal(v)
		if err != nil {
			return nil
		}
		return b
	}
	var visit func(x reflect.Value)
	with := func(x reflect.Value, nv func() reflect.Value) func() []byte {
		return func() []byte {
			old := reflect.New(x.Type()).Elem()
			old.Set(x)
			x.Set(nv())
			b := snap()
			x.Set(old)
			return b
		}
	}
	visit = func(x reflect.Value) {
		switch x.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !x.IsNil() {
				visit(x.Elem())
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				if x.Field(i).CanSet() {
					visit(x.Field(i))
				}
			}
			if x.CanSet() && !x.IsZero() {
				mid = append(mid, with(x, func() reflect.Value { return reflect.Zero(x.Type()) }))
			}
		case reflect.Slice, reflect.String:
			n := x.Len()
			if n == 0 || !x.CanSet() {
				return
			}
			cut := func(a, b int) func() reflect.Value {
				return func() reflect.Value {
					if x.Kind() == reflect.String {
						s := x.String()
						r := reflect.New(x.Type()).Elem()
						r.SetString(s[:a] + s[b:])
						return r
					}
					r := reflect.MakeSlice(x.Type(), 0, n-(b-a))
					r = reflect.AppendSlice(r, x.Slice(0, a))
					return reflect.AppendSlice(r, x.Slice(b, n))
				}
			}
			for sz := n; sz >= 1; sz /= 2 {
				lim := 0
				for a := n - sz; a > -sz && lim < 40; a -= sz {
					lo := a
					if lo < 0 {
						lo = 0
					}
					f := with(x, cut(lo, a+sz))
					switch {
					case x.Kind() == reflect.Slice && x.Type().Elem().Kind() == reflect.Struct:
						big = append(big, f)
					default:
						mid = append(mid, f)
					}
					lim++
				}
			}
			if x.Kind() == reflect.Slice {
				for i := 0; i < n; i++ {
					visit(x.Index(i))
				}
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			k := x.Int()
			for _, c := range []int64{0, 1, k / 2, k - 1} {
				if c != k && (k > 0 && c < k && c >= 0 || k < 0 && c > k) {
					c := c
					small = append(small, with(x, func() reflect.Value { r := reflect.New(x.Type()).Elem(); r.SetInt(c); return r }))
				}
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			k := x.Uint()
			for _, c := range []uint64{0, 1, k / 2, k - 1} {
				if c < k {
					c := c
					small = append(small, with(x, func() reflect.Value { r := reflect.New(x.Type()).Elem(); r.SetUint(c); return r }))
				}
			}
		case reflect.Bool:
			if x.Bool() {
				small = append(small, with(x, func() reflect.Value { return reflect.Zero(x.Type()) }))
			}
		}
	}
	visit(root)
	return append(append(big, mid...), small...)
}
