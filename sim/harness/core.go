//go:build go1.22

// Command harness is the deterministic simulation of nanobus/iota: workloads, oracles, seeded search, minimisation and
// replay. It is compiled together with the instrumented sources through a build overlay.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
)

// Family is one workload generator plus the simulated program that runs its plans.
type Family struct {
	Name string
	Gen  func(r *simrt.Rand, prof string, thorough bool) any
	New  func() any
	Run  func(plan any)
	Tidy func(plan any) // makes a mutated plan legal again
}

// Variant of a check: a family under a profile, with a weight.
type Variant struct {
	F      *Family
	Prof   string
	Weight int
	Steps  uint64
}

// Check decides one property.
type Check struct {
	ID       string
	Variants []Variant
	Accept   []string // violation classes that break this property (prefixes)
	Rule     string
	Real     string
	Stubs    string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Case is one simulated run, fully described.
type Case struct {
	Prop      string           `json:"property"`
	Variant   string           `json:"variant"`
	Seed      uint64           `json:"seed"`
	Index     uint64           `json:"run_index"`
	Policy    int              `json:"policy"`
	P         float64          `json:"switch_probability"`
	Depth     int              `json:"pct_depth"`
	Len       int              `json:"pct_length"`
	HotFrac   float64          `json:"hot_fraction"`
	Plan      json.RawMessage  `json:"plan"`
	BySeed    bool             `json:"schedule_from_seed"`
	Slow      int              `json:"slow,omitempty"` // how many milliseconds a millisecond of the applications lasts
	Decisions []simrt.Decision `json:"decisions"`
	Class     string           `json:"class"`
	Signature string           `json:"signature"`
	Message   string           `json:"message"`
	Minimised bool             `json:"minimised"`
	Note      string           `json:"note,omitempty"`
}

// Outcome of one executed case.
type Outcome struct {
	R     *simrt.Result
	Class string // "" when the run held
	Sig   string
	Msg   string
	Own   bool // the violation is of this check's property
	Env   *Env
}

// Env is what the running case reports about itself.
type Env struct {
	c       *Check
	Nontriv bool
	Desc    []string
	trace   bool
	Hash    uint64
}

var env *Env

// fail reports a violation; class is "<group>.<what>".
func fail(class, f string, a ...any) {
	simrt.Fail(class + ": " + fmt.Sprintf(f, a...))
}

// harness stops the check: the harness itself is wrong.
func harness(f string, a ...any) { panic(simrt.HarnessError{Msg: fmt.Sprintf(f, a...)}) }

func nontrivial() { env.Nontriv = true }

func note(k string) { simrt.Stat(k) }

func (c *Check) variant(name string) *Variant {
	for i := range c.Variants {
		v := &c.Variants[i]
		if v.F.Name+"/"+v.Prof == name {
			return v
		}
	}
	return nil
}

// scale is how many milliseconds a millisecond of the applications lasts in this run.
var scale = 1

func ms(n int) time.Duration { return time.Duration(n*scale) * time.Millisecond }

func hashStr(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// makeCase derives run number i of a check.
func (c *Check) makeCase(base, i uint64, thorough bool) *Case {
	seed := simrt.Mix(simrt.Mix(base, hashStr(c.ID)), i)
	r := simrt.NewRand(seed)
	tot := 0
	for _, v := range c.Variants {
		tot += v.Weight
	}
	k := r.Intn(tot)
	var v *Variant
	for j := range c.Variants {
		if k < c.Variants[j].Weight {
			v = &c.Variants[j]
			break
		}
		k -= c.Variants[j].Weight
	}
	cs := &Case{Prop: c.ID, Variant: v.F.Name + "/" + v.Prof, Seed: seed, Index: i, BySeed: true}
	switch r.Pick(45, 27, 20, 8) {
	case 0:
		cs.Policy = 0
		cs.P = []float64{0.002, 0.01, 0.03, 0.1, 0.3, 0.6}[r.Intn(6)]
	case 1:
		cs.Policy = 1
		cs.Depth = 1 + r.Intn(7)
		cs.Len = []int{150, 400, 1000, 2500, 6000, 15000}[r.Intn(6)]
	case 2:
		cs.Policy = 2
		cs.HotFrac = []float64{0.003, 0.01, 0.03, 0.1}[r.Intn(4)]
		cs.P = []float64{0.3, 0.7, 1}[r.Intn(3)]
	default:
		cs.Policy = 3
	}
	plan := v.F.Gen(r, v.Prof, thorough)
	if r.Bool(0.06) {
		cs.Slow = pick(r, 1000, 60000)
	}
	b, err := json.Marshal(plan)
	if err != nil {
		panic(err)
	}
	cs.Plan = b
	return cs
}

func (cs *Case) config(v *Variant, trace func(string)) simrt.Config {
	steps := v.Steps
	if steps == 0 {
		steps = 300000
	}
	if os.Getenv("BIGSTEPS") != "" {
		steps *= 50
	}
	return simrt.Config{Seed: simrt.Mix(cs.Seed, 7), Policy: cs.Policy, P: cs.P, Depth: cs.Depth, Len: cs.Len, HotFrac: cs.HotFrac,
		MaxSteps: steps, Replay: cs.Decisions, IsReplay: !cs.BySeed, Trace: trace}
}

// exec runs a case.
func (c *Check) exec(cs *Case, trace func(string)) *Outcome {
	v := c.variant(cs.Variant)
	if v == nil {
		panic("unknown variant " + cs.Variant)
	}
	plan := v.F.New()
	if err := json.Unmarshal(cs.Plan, plan); err != nil {
		panic(err)
	}
	if v.F.Tidy != nil {
		v.F.Tidy(plan)
	}
	env = &Env{c: c, trace: trace != nil}
	scale = max(cs.Slow, 1)
	res := simrt.Run(cs.config(v, trace), func() { v.F.Run(plan) })
	o := &Outcome{R: res, Env: env}
	switch res.Kind {
	case simrt.OutDone:
	case simrt.OutPanic:
		o.Class = "panic"
		o.Msg = res.Msg + "\n   " + strings.ReplaceAll(res.Stack, " < ", "\n   ")
		o.Sig = "panic: " + panicText(res.Msg) + " in " + stackSig(res.Stack)
	case simrt.OutStuck:
		o.Class = "stuck"
		o.Msg = "the system cannot make progress: " + strings.Join(res.Blocked, "; ")
		o.Sig = "stuck"
	case simrt.OutSteps:
		o.Class = "livelock"
		o.Msg = res.Msg + ": " + strings.Join(res.Blocked, "; ")
		o.Sig = "livelock"
	case simrt.OutFail:
		o.Class, _, _ = strings.Cut(res.Msg, ":")
		o.Msg = res.Msg
		o.Sig = sigOf(res.Msg)
	default:
		o.Class = "harness"
		o.Msg = res.Msg
	}
	if o.Class != "" && o.Class != "harness" {
		for _, a := range c.Accept {
			if strings.HasPrefix(o.Class, a) {
				o.Own = true
			}
		}
		if o.Class == "panic" || o.Class == "setup" || o.Class == "stuck" || o.Class == "livelock" {
			o.Own = true
		}
	}
	return o
}

// panicText drops addresses and numbers, so that the same crash has the same signature.
func panicText(m string) string {
	if i := strings.Index(m, ": "); i >= 0 { // "panic in task X: text"
		m = m[i+2:]
	}
	return squash(m)
}

func squash(m string) string {
	var b strings.Builder
	dig := false
	for _, r := range m {
		if r >= '0' && r <= '9' {
			if !dig {
				b.WriteByte('#')
			}
			dig = true
			continue
		}
		dig = false
		b.WriteRune(r)
	}
	return b.String()
}

func stackSig(st string) string {
	var out []string
	for _, f := range strings.Split(st, " < ") {
		if strings.Contains(f, "verifsim/harness") || strings.HasPrefix(f, "main.") || strings.Contains(f, "simrt.") || f == "" {
			continue
		}
		if i := strings.Index(f, ".func"); i > 0 {
			f = f[:i]
		}
		out = append(out, f)
		if len(out) == 3 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// sigOf is the class plus the part of the message before " | " with numbers squashed.
func sigOf(m string) string {
	if i := strings.Index(m, " | "); i >= 0 {
		m = m[:i]
	}
	return squash(m)
}
