//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"time"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
)

// minimise shrinks the plan and the decision trace of a failing case in place.
func minimise(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return 4
	}
	var cs Case
	if err := json.Unmarshal(b, &cs); err != nil {
		return 4
	}
	c := checks[cs.Prop]
	if c == nil || cs.Class == "crash" {
		return 0
	}
	end := time.Now().Add(20 * time.Second)
	same := func(o *Outcome) bool {
		return o.Class == cs.Class && o.Own && (o.Class != "panic" || o.Sig == cs.Signature)
	}
	take := func(t *Case, o *Outcome) {
		cs = *t
		cs.BySeed = false
		cs.Decisions = o.R.Decisions
		cs.Class, cs.Signature, cs.Message = o.Class, o.Sig, o.Msg
		cs.Minimised = true
	}
	tries := 0
	// try a plan under the current decisions, under none, then under fresh schedules
	tryPlan := func(p any, fresh int) bool {
		pb, err := json.Marshal(p)
		if err != nil || string(pb) == string(cs.Plan) {
			return false
		}
		for k := 0; k < 2+fresh; k++ {
			if time.Now().After(end) {
				return false
			}
			t := cs
			t.Plan = pb
			switch {
			case k == 0:
				t.BySeed = false
			case k == 1:
				t.BySeed = false
				t.Decisions = nil
			default:
				t.BySeed = true
				r := simrt.NewRand(simrt.Mix(cs.Seed, uint64(k)))
				t.Seed = r.U64()
				t.Policy = r.Intn(4)
				t.P = []float64{0.01, 0.05, 0.2, 0.5}[r.Intn(4)]
				t.Depth = 1 + r.Intn(6)
				t.Len = []int{200, 600, 2000, 6000}[r.Intn(4)]
				t.HotFrac = []float64{0.01, 0.03}[r.Intn(2)]
			}
			tries++
			o := c.exec(&t, nil)
			if same(o) {
				take(&t, o)
				return true
			}
		}
		return false
	}
	decode := func() any {
		var p any
		json.Unmarshal(cs.Plan, &p)
		return p
	}
	shrinkPlan := func(fresh int) bool {
		any1 := false
		for {
			progress := false
			for i := 0; ; i++ {
				if time.Now().After(end) {
					return any1
				}
				p := decode()
				n := 0
				done := false
				mutate(&p, &n, i, &done)
				if !done {
					break
				}
				if tryPlan(p, fresh) {
					progress, any1 = true, true
					i--
				}
			}
			if !progress {
				return any1
			}
		}
	}
	shrinkDec := func() {
		for chunk := (len(cs.Decisions) + 1) / 2; chunk >= 1; {
			ok := false
			for i := 0; i < len(cs.Decisions); {
				if time.Now().After(end) {
					return
				}
				j := i + chunk
				if j > len(cs.Decisions) {
					j = len(cs.Decisions)
				}
				t := cs
				t.BySeed = false
				t.Decisions = append(append([]simrt.Decision{}, cs.Decisions[:i]...), cs.Decisions[j:]...)
				tries++
				o := c.exec(&t, nil)
				if same(o) && len(o.R.Decisions) < len(cs.Decisions) {
					take(&t, o)
					ok = true
				} else {
					i = j
				}
			}
			if !ok || chunk == 1 {
				if chunk == 1 {
					break
				}
				chunk /= 2
			}
		}
	}
	shrinkPlan(12)
	shrinkDec()
	if shrinkPlan(4) {
		shrinkDec()
	}
	cs.Note = fmt.Sprintf("minimised with %d runs", tries)
	if err := writeCase(path, &cs); err != nil {
		return 4
	}
	return 0
}

// mutate applies the k-th simplification of a JSON value.
func mutate(p *any, n *int, k int, done *bool) {
	hit := func() bool {
		*n++
		if !*done && *n-1 == k {
			*done = true
			return true
		}
		return false
	}
	switch v := (*p).(type) {
	case []any:
		for sz := len(v); sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(v); i += sz {
				if hit() {
					*p = append(append([]any{}, v[:i]...), v[i+sz:]...)
					return
				}
			}
		}
		for i := range v {
			mutate(&v[i], n, k, done)
			if *done {
				return
			}
		}
	case map[string]any:
		var ks []string
		for x := range v {
			ks = append(ks, x)
		}
		sort.Strings(ks)
		for _, x := range ks {
			e := v[x]
			mutate(&e, n, k, done)
			if *done {
				v[x] = e
				return
			}
		}
	case float64:
		if v != 0 {
			if hit() {
				*p = float64(0)
				return
			}
			if v < 0 || v > 1 {
				if hit() {
					*p = float64(int64(v) / 2)
					return
				}
			}
			if v == float64(int64(v)) && v > 2 {
				if hit() {
					*p = v - 1
					return
				}
			}
		}
	case bool:
		if v {
			if hit() {
				*p = false
			}
		}
	}
}
