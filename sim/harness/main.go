//go:build go1.22

package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
)

// wstats is what a worker reports when it is done.
type wstats struct {
	Runs     int64
	Steps    int64
	Switches int64
	SimNS    int64
	Nontriv  int64
	Foreign  int64
	ForeignK map[string]int64
	Known    map[string]int64
	Stats    map[string]int64
	Variants map[string]int64
	Hashes   []uint64
	Pairs    []uint64
	Samples  []any
	Policies [4]int64
	Tasks    int64
	Goros    int64
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Match    string `json:"match"`  // exact signature
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var f finding
		if err := json.Unmarshal([]byte(l), &f); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(4)
		}
		out = append(out, f)
	}
	return out
}

func knownFor(fs []finding, prop, sig string) *finding {
	for i := range fs {
		if fs[i].Status == "known" && fs[i].Property == prop && fs[i].Match == sig {
			return &fs[i]
		}
	}
	return nil
}

var (
	fProp     = flag.String("prop", "", "property id")
	fSeed     = flag.Uint64("seed", 1, "base seed")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fDur      = flag.Duration("dur", 0, "search time")
	fWorkers  = flag.Int("workers", 0, "worker processes")
	fEvid     = flag.String("evidence", "", "evidence directory")
	fReplays  = flag.String("replays", "", "replay directory")
	fKnown    = flag.String("known", "", "known findings file")
	fWorker   = flag.Int("worker", -1, "")
	fAnnounce = flag.String("announce", "", "")
	fReplay   = flag.String("replay", "", "replay a file")
	fMin      = flag.String("minimise", "", "minimise a file in place")
	fOne      = flag.Int64("one", -1, "run one index and print its trace")
	fHashes   = flag.Int("hashes", 0, "print the schedule hashes of the first N runs (determinism check)")
	fMaxRuns  = flag.Int64("maxruns", 0, "stop after this many runs per worker")
	fStart    = flag.Uint64("start", 0, "first index")
	fList     = flag.Bool("list", false, "list checks")
	fKeep     = flag.Bool("keepgoing", false, "report the distinct violations found, do not stop at the first")
)

func main() {
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	if *fList {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	if *fMin != "" {
		os.Exit(minimise(*fMin))
	}
	c := checks[*fProp]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(4)
	}
	thorough := *fTier == "thorough"
	if *fOne >= 0 {
		cs := c.makeCase(*fSeed, uint64(*fOne), thorough)
		fmt.Printf("variant %s policy %d plan %s\n", cs.Variant, cs.Policy, cs.Plan)
		o := c.exec(cs, func(s string) { fmt.Println(s) })
		fmt.Printf("=> %s own=%v sig=%q\n%s\nsteps %d switches %d decisions %d blocked %v\n", o.R.Kind, o.Own, o.Sig, o.Msg, o.R.Steps, o.R.Switches, len(o.R.Decisions), o.R.Blocked)
		return
	}
	if *fHashes > 0 {
		for i := 0; i < *fHashes; i++ {
			cs := c.makeCase(*fSeed, uint64(i)+*fStart, thorough)
			o := c.exec(cs, nil)
			fmt.Printf("%d %s %x %d %d %d %s\n", cs.Index, o.R.Kind, o.R.SchedHash, o.R.Steps, o.R.Now, len(o.R.Decisions), o.Sig)
		}
		return
	}
	if *fWorker >= 0 {
		worker(c, thorough)
		return
	}
	os.Exit(drive(c, thorough))
}

func worker(c *Check, thorough bool) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	kf := loadFindings(*fKnown)
	var ann *os.File
	if *fAnnounce != "" {
		ann, _ = os.OpenFile(*fAnnounce, os.O_RDWR|os.O_CREATE, 0o644)
	}
	st := &wstats{Stats: map[string]int64{}, Variants: map[string]int64{}, ForeignK: map[string]int64{}, Known: map[string]int64{}}
	hashes := map[uint64]struct{}{}
	end := time.Now().Add(*fDur)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var b8 [8]byte
	for i := uint64(*fWorker) + *fStart; time.Now().Before(end); i += uint64(*fWorkers) {
		if *fMaxRuns > 0 && st.Runs >= *fMaxRuns {
			break
		}
		if ann != nil {
			binary.LittleEndian.PutUint64(b8[:], i+1)
			ann.WriteAt(b8[:], 0)
		}
		cs := c.makeCase(*fSeed, i, thorough)
		o := c.exec(cs, nil)
		st.Runs++
		st.Steps += int64(o.R.Steps)
		st.Switches += int64(o.R.Switches)
		st.SimNS += o.R.Now
		st.Tasks += int64(o.R.Tasks)
		st.Variants[cs.Variant]++
		st.Policies[cs.Policy]++
		for k, v := range o.R.Stats {
			st.Stats[k] += v
		}
		if o.Env.Nontriv && o.R.Switches > 0 {
			h := o.R.SchedHash ^ hashStr(string(cs.Plan))
			if _, ok := hashes[h]; !ok {
				hashes[h] = struct{}{}
				st.Nontriv++
			}
		}
		if len(st.Samples) < 2 && o.Env.Nontriv {
			st.Samples = append(st.Samples, map[string]any{"run_index": i, "variant": cs.Variant, "policy": cs.Policy, "plan": cs.Plan,
				"steps": o.R.Steps, "switches": o.R.Switches, "simulated_ms": o.R.Now / 1e6, "tasks": o.R.Tasks, "outcome": o.R.Kind})
		}
		if o.Class == "" {
			continue
		}
		if o.Class == "harness" {
			enc.Encode(map[string]any{"harness": o.Msg, "index": i})
			break
		}
		if !o.Own {
			st.Foreign++
			st.ForeignK[o.Sig]++
			if *fKeep && st.ForeignK[o.Sig] == 1 {
				fmt.Fprintf(os.Stderr, "foreign: run %d %s\n", i, o.Msg)
			}
			continue
		}
		if f := knownFor(kf, c.ID, o.Sig); f != nil {
			st.Known[f.Match]++
			continue
		}
		if *fKeep {
			if st.Known["!"+o.Sig]++; st.Known["!"+o.Sig] == 1 {
				fmt.Fprintf(os.Stderr, "VIOL run %d sig %q\n   %s\n", i, o.Sig, o.Msg)
			}
			continue
		}
		cs.Class, cs.Signature, cs.Message, cs.Decisions, cs.BySeed = o.Class, o.Sig, o.Msg, o.R.Decisions, false
		enc.Encode(map[string]any{"violation": cs})
		out.Flush()
		break
	}
	for h := range hashes {
		st.Hashes = append(st.Hashes, h)
	}
	for p := range simrt.PairSeen {
		st.Pairs = append(st.Pairs, p)
	}
	enc.Encode(map[string]any{"stats": st})
	out.Flush()
}

type wres struct {
	stats    *wstats
	viol     *Case
	harness  string
	crashed  bool
	crashMsg string
	lastIdx  uint64
	timeout  bool
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

func runWorker(w, n int, dur time.Duration, start uint64, dir string, stop chan struct{}) *wres {
	ann := filepath.Join(dir, fmt.Sprintf("w%d", w))
	args := []string{"-prop", *fProp, "-seed", fmt.Sprint(*fSeed), "-tier", *fTier, "-dur", dur.String(), "-workers", fmt.Sprint(n), "-worker", fmt.Sprint(w), "-announce", ann, "-known", *fKnown, "-start", fmt.Sprint(start)}
	if *fKeep {
		args = append(args, "-keepgoing")
	}
	if *fMaxRuns > 0 {
		args = append(args, "-maxruns", fmt.Sprint(*fMaxRuns))
	}
	cmd := exec.Command(self(), args...)
	var eb strings.Builder
	cmd.Stderr = &limited{b: &eb, max: 1 << 20}
	if *fKeep {
		cmd.Stderr = os.Stderr
	}
	op, err := cmd.StdoutPipe()
	if err != nil {
		return &wres{harness: err.Error()}
	}
	if err := cmd.Start(); err != nil {
		return &wres{harness: err.Error()}
	}
	r := &wres{}
	kill := time.AfterFunc(dur+25*time.Second, func() { r.timeout = true; cmd.Process.Kill() })
	go func() {
		<-stop
		// another worker found something: give this one no more time
		cmd.Process.Kill()
	}()
	dec := json.NewDecoder(bufio.NewReaderSize(op, 1<<20))
	for {
		var m struct {
			Violation *Case   `json:"violation"`
			Stats     *wstats `json:"stats"`
			Harness   string  `json:"harness"`
		}
		if err := dec.Decode(&m); err != nil {
			break
		}
		if m.Violation != nil {
			r.viol = m.Violation
		}
		if m.Stats != nil {
			r.stats = m.Stats
		}
		if m.Harness != "" {
			r.harness = m.Harness
		}
	}
	err = cmd.Wait()
	kill.Stop()
	if b, e := os.ReadFile(ann); e == nil && len(b) == 8 {
		r.lastIdx = binary.LittleEndian.Uint64(b)
	}
	if err != nil && r.stats == nil {
		r.crashed = true
		r.crashMsg = eb.String()
	}
	return r
}

type limited struct {
	b   *strings.Builder
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func drive(c *Check, thorough bool) int {
	t0 := time.Now()
	n := *fWorkers
	if n <= 0 {
		n = runtime.NumCPU()
	}
	dur := *fDur
	if dur == 0 {
		dur = 24 * time.Second
		if thorough {
			dur = 10 * time.Minute
		}
	}
	dir, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	defer os.RemoveAll(dir)
	stop := make(chan struct{})
	var once sync.Once
	res := make([]*wres, n)
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := runWorker(w, n, dur, *fStart, dir, stop)
			res[w] = r
			if r.viol != nil || r.harness != "" || (r.crashed && !r.timeout) {
				// let the others finish the run they are in; statistics of a failing search matter less
				once.Do(func() { time.Sleep(300 * time.Millisecond); close(stop) })
			}
		}(w)
	}
	wg.Wait()
	once.Do(func() { close(stop) })
	searchS := time.Since(t0).Seconds()

	var viol *Case
	for _, r := range res {
		if r.viol != nil && (viol == nil || r.viol.Index < viol.Index) {
			viol = r.viol
		}
	}
	if viol == nil {
		for w, r := range res {
			if r.harness != "" {
				fmt.Fprintf(os.Stderr, "harness error: %s\n", r.harness)
				return 4
			}
			if r.timeout {
				fmt.Fprintf(os.Stderr, "worker %d did not finish run %d in time\n", w, r.lastIdx-1)
				return 5
			}
			if r.crashed && r.lastIdx > 0 && r.crashMsg != "" {
				if cs := confirmCrash(c, r, thorough); cs != nil {
					viol = cs
					break
				}
				fmt.Fprintf(os.Stderr, "worker crash that does not repeat:\n%s\n", tail(r.crashMsg, 3000))
				return 5
			}
		}
	}
	evid := merge(c, res)
	nviol := 0
	code := 0
	kf := loadFindings(*fKnown)
	if viol != nil {
		nviol = 1
		code = report(c, viol)
		if code == 1 {
			evid["violation"] = map[string]any{"signature": viol.Signature, "run_index": viol.Index}
		}
	}
	if code == 0 || code == 1 {
		known := evid["known_findings_hit"].(map[string]int64)
		for _, f := range kf {
			if f.Status == "known" && f.Property == c.ID {
				fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs of this search)\n", c.ID, f.What, known[f.Match])
			}
		}
		runs := evid["evaluations"].(int64)
		evid["seconds_searching"] = searchS
		evid["runs_per_hour"] = int64(float64(runs) / searchS * 3600)
		writeEvidence(c, evid, time.Since(t0).Seconds(), nviol)
		fmt.Printf("%s: %d runs, %d distinct interleavings, %d steps, %d switches, %.1f s\n", c.ID, runs, evid["distinct_nontrivial"], evid["steps"], evid["context_switches"], searchS)
		if *fKeep {
			for k, v := range evid["known_findings_hit"].(map[string]int64) {
				fmt.Printf("  %6d %s\n", v, k)
			}
			for k, v := range evid["foreign_kinds"].(map[string]int64) {
				fmt.Printf("  %6d foreign %s\n", v, k)
			}
			ks := []string{}
			for k := range evid["events"].(map[string]int64) {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Printf("  %s=%d", k, evid["events"].(map[string]int64)[k])
			}
			fmt.Println()
		}
		if runs == 0 && code == 0 {
			fmt.Fprintln(os.Stderr, "no run finished")
			return 5
		}
	}
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// confirmCrash re-runs a run that killed its worker.
func confirmCrash(c *Check, r *wres, thorough bool) *Case {
	idx := r.lastIdx - 1
	cs := c.makeCase(*fSeed, idx, thorough)
	cs.Class, cs.Signature = "crash", "process crash: "+firstLine(r.crashMsg)
	cs.Message = tail(r.crashMsg, 1500)
	sig, _ := childOutcome(cs)
	if sig != cs.Signature {
		return nil
	}
	return cs
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "SIG") {
			return squash(l)
		}
	}
	return "unknown"
}

// childOutcome runs a case in a fresh process and returns its signature ("" when it held).
func childOutcome(cs *Case) (string, string) {
	f, err := os.CreateTemp("", "verifcase*.json")
	if err != nil {
		return "harness", err.Error()
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(cs)
	f.Write(b)
	f.Close()
	cmd := exec.Command(self(), "-replay", f.Name())
	var ob, eb strings.Builder
	cmd.Stdout = &limited{b: &ob, max: 1 << 20}
	cmd.Stderr = &limited{b: &eb, max: 1 << 20}
	t := time.AfterFunc(40*time.Second, func() { cmd.Process.Kill() })
	if err := cmd.Start(); err != nil {
		return "harness", err.Error()
	}
	cmd.Wait()
	t.Stop()
	for _, l := range strings.Split(ob.String(), "\n") {
		if s, ok := strings.CutPrefix(l, "SIGNATURE "); ok {
			return s, ob.String()
		}
	}
	if strings.Contains(ob.String(), "HELD") {
		return "", ob.String()
	}
	return "process crash: " + firstLine(eb.String()), eb.String()
}

func writeCase(path string, cs *Case) error {
	b, err := json.MarshalIndent(cs, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func report(c *Check, cs *Case) int {
	os.MkdirAll(*fReplays, 0o755)
	path := filepath.Join(*fReplays, fmt.Sprintf("%s-%d.json", c.ID, cs.Index))
	if err := writeCase(path, cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	raw := *cs
	if sig, txt := childOutcome(cs); sig != cs.Signature {
		fmt.Fprintf(os.Stderr, "the failing run does not replay: %q instead of %q\n%s\n", sig, cs.Signature, tail(txt, 2000))
		return 4
	}
	// minimise in a child, so that a crash while shrinking harms nothing
	cmd := exec.Command(self(), "-minimise", path)
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	cmd.Stderr = os.Stderr
	_ = cmd.Run()
	t.Stop()
	if b, err := os.ReadFile(path); err == nil {
		var m Case
		if json.Unmarshal(b, &m) == nil {
			if sig, _ := childOutcome(&m); sig == m.Signature && sig != "" {
				*cs = m
			} else {
				writeCase(path, &raw)
			}
		}
	}
	fmt.Printf("violation of %s, found in run %d (seed %d, %s):\n  %s\n", c.ID, cs.Index, *fSeed, cs.Variant, strings.ReplaceAll(cs.Message, "\n", "\n  "))
	fmt.Printf("  minimised plan: %s\n  scheduling and fault decisions: %d\n", cs.Plan, len(cs.Decisions))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	return 1
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	var cs Case
	if err := json.Unmarshal(b, &cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	c := checks[cs.Prop]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", cs.Prop)
		return 4
	}
	var tr func(string)
	if os.Getenv("VERIF_TRACE") != "" {
		tr = func(s string) { fmt.Println(s) }
	}
	o := c.exec(&cs, tr)
	if o.Class == "" {
		fmt.Println("HELD")
		return 0
	}
	fmt.Printf("SIGNATURE %s\n%s\n", o.Sig, o.Msg)
	if o.Class == "harness" {
		return 4
	}
	if !o.Own {
		fmt.Println("(not a violation of " + cs.Prop + ")")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", cs.Prop, path)
	return 1
}

func merge(c *Check, res []*wres) map[string]any {
	hs := map[uint64]struct{}{}
	ps := map[uint64]struct{}{}
	ev := map[string]int64{}
	vs := map[string]int64{}
	known := map[string]int64{}
	fk := map[string]int64{}
	var t wstats
	var samples []any
	for _, r := range res {
		s := r.stats
		if s == nil {
			continue
		}
		t.Runs += s.Runs
		t.Steps += s.Steps
		t.Switches += s.Switches
		t.SimNS += s.SimNS
		t.Foreign += s.Foreign
		t.Tasks += s.Tasks
		for i := range s.Policies {
			t.Policies[i] += s.Policies[i]
		}
		for _, h := range s.Hashes {
			hs[h] = struct{}{}
		}
		for _, p := range s.Pairs {
			ps[p] = struct{}{}
		}
		for k, v := range s.Stats {
			ev[k] += v
		}
		for k, v := range s.Variants {
			vs[k] += v
		}
		for k, v := range s.Known {
			known[k] += v
		}
		for k, v := range s.ForeignK {
			fk[k] += v
		}
		if len(samples) < 3 {
			for _, x := range s.Samples {
				if len(samples) < 3 {
					samples = append(samples, x)
				}
			}
		}
	}
	faults := map[string]int64{}
	for k, v := range ev {
		if strings.HasPrefix(k, "fault_") {
			faults[strings.TrimPrefix(k, "fault_")] = v
		}
	}
	return map[string]any{
		"evaluations":                t.Runs,
		"distinct_nontrivial":        int64(len(hs)),
		"rule":                       c.Rule + " One evaluation is one simulated run. A run is counted in distinct_nontrivial when its workload exercised the property (the oracle had something to judge), at least one context switch happened, and no other run of this search had the same plan together with the same sequence of context switches (task, source site, target task).",
		"samples":                    samples,
		"steps":                      t.Steps,
		"context_switches":           t.Switches,
		"tasks":                      t.Tasks,
		"simulated_seconds":          float64(t.SimNS) / 1e9,
		"faults_injected":            faults,
		"events":                     ev,
		"runs_by_variant":            vs,
		"runs_by_scheduler":          map[string]int64{"random_walk": t.Policies[0], "pct": t.Policies[1], "hot_sites": t.Policies[2], "run_to_block": t.Policies[3]},
		"distinct_switch_site_pairs": len(ps),
		"known_findings_hit":         known,
		"foreign":                    t.Foreign,
		"foreign_kinds":              fk,
		"real_components":            c.Real,
		"stub_components":            c.Stubs,
	}
}

func writeEvidence(c *Check, cov map[string]any, wall float64, nviol int) {
	if *fEvid == "" {
		return
	}
	os.MkdirAll(*fEvid, 0o755)
	e := map[string]any{"property": c.ID, "tier": *fTier, "seed": int64(*fSeed), "level": "exploration", "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"interleavings are explored at the granularity of the scheduling points the instrumenter inserts (every statement, every load-store split of shared state), under sequential consistency",
			"a clean search is evidence over the sampled seeds, not a proof",
		}}
	b, _ := json.MarshalIndent(e, "", " ")
	if err := os.WriteFile(filepath.Join(*fEvid, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
