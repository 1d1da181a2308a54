// pbt decides the properties of /verif/properties.jsonl by generated-input search against explicit oracles.
//
//	pbt check <id> <tier> <evidence file> <replay dir>   runs the check in several worker processes
//	pbt replay <file>                                     re-runs one recorded case
//	pbt worker ...                                        internal
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Stats is what running a case reports about it
type Stats struct {
	nontrivial bool
	labels     map[string]int
	known      map[string]bool
}

func (s *Stats) NonTrivial(cond bool) {
	if cond {
		s.nontrivial = true
	}
}
func (s *Stats) Label(l string) { s.labels[l]++ }
func (s *Stats) LabelN(l string, n int) {
	if n != 0 {
		s.labels[l] += n
	}
}

// Known reports that the case met a listed known finding
func (s *Stats) Known(id string) { s.known[id] = true }

type checkDef struct {
	id     string
	level  string
	rule   string
	assume []string
	quick  int
	thor   int
	fixed  int
	// gen returns the case as JSON-able value
	gen     func(*Src) interface{}
	fixedAt func(int) interface{}
	run     func(interface{}, *Stats) error
	decode  func([]byte) (interface{}, error)
}

var checks = map[string]*checkDef{}

type checkOpt struct {
	Level       string
	Rule        string
	Assume      []string
	Quick, Thor int
}

func register[C any](id string, o checkOpt, gen func(*Src) C, run func(*C, *Stats) error, fixed ...C) {
	lv := o.Level
	if lv == "" {
		lv = "exploration"
	}
	checks[id] = &checkDef{
		id: id, level: lv, rule: o.Rule, assume: o.Assume, quick: o.Quick, thor: o.Thor,
		fixed:   len(fixed),
		gen:     func(s *Src) interface{} { c := gen(s); return &c },
		fixedAt: func(i int) interface{} { c := fixed[i]; return &c },
		run:     func(c interface{}, st *Stats) error { return run(c.(*C), st) },
		decode: func(b []byte) (interface{}, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return &c, err
		},
	}
}

func (d *checkDef) exec(c interface{}) (st *Stats, err error) {
	st = &Stats{labels: map[string]int{}, known: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, shortStack())
		}
	}()
	err = d.run(c, st)
	return
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "panic(") {
			out = nil
			_ = i
			continue
		}
		out = append(out, l)
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

// caseSrc gives the source of case number idx (independent of the number of workers)
func caseSrc(id string, seed int64, idx int) *Src {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, idx)
	return newSrc(h.Sum64())
}

type failure struct {
	Index int             `json:"index"`
	Case  json.RawMessage `json:"case"`
	Err   string          `json:"error"`
}

type workerResult struct {
	Evals   int               `json:"evals"`
	Hashes  []uint64          `json:"hashes"`
	Labels  map[string]int    `json:"labels"`
	Known   map[string]int    `json:"known"`
	Samples []json.RawMessage `json:"samples"`
	Fail    *failure          `json:"fail"`
	Cut     bool              `json:"cut"`
	Slowest float64           `json:"slowest"`
}

type replayFile struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Seed     int64           `json:"seed"`
	Index    int             `json:"index"`
	Case     json.RawMessage `json:"case"`
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: pbt check|replay|list ...")
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "check":
		os.Exit(orchestrate(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "replay1":
		os.Exit(replay1(os.Args[2]))
	case "gen": // prints a case: gen <id> <seed> <idx>
		d := checks[os.Args[2]]
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		idx, _ := strconv.Atoi(os.Args[4])
		fmt.Println(string(mustJSON(d.gen(caseSrc(d.id, seed, idx)))))
	default:
		fatal("unknown command")
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "pbt: "+f+"\n", a...)
	os.Exit(2)
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("marshal: %v", err)
	}
	return b
}

const hangExit = 97

// ------------------------------------------------------------------ worker

// worker <id> <seed> <total> <shard> <of> <deadline sec> <case timeout sec> <result file> <progress file>
func worker(a []string) {
	d := checks[a[0]]
	atoi := func(s string) int { n, err := strconv.Atoi(s); must(err); return n }
	seed, err := strconv.ParseInt(a[1], 10, 64)
	must(err)
	total, shard, of := atoi(a[2]), atoi(a[3]), atoi(a[4])
	deadline := time.Now().Add(time.Duration(atoi(a[5])) * time.Second)
	caseTimeout := time.Duration(atoi(a[6])) * time.Second
	outFile, progFile := a[7], a[8]

	if p := os.Getenv("PBT_PROF"); p != "" && shard == 0 {
		f, err := os.Create(p)
		must(err)
		must(pprof.StartCPUProfile(f))
		defer pprof.StopCPUProfile()
	}
	prog, err := os.Create(progFile)
	must(err)
	note := func(b []byte) {
		_ = prog.Truncate(0)
		_, _ = prog.WriteAt(b, 0)
	}
	var mu sync.Mutex
	var started time.Time
	go func() { // a case that does not end is reported as such
		for {
			time.Sleep(500 * time.Millisecond)
			mu.Lock()
			s := started
			mu.Unlock()
			if !s.IsZero() && time.Since(s) > caseTimeout {
				os.Exit(hangExit)
			}
		}
	}()
	// what is run is what a replay file would hold
	exec1 := func(js []byte) (*Stats, error) {
		c, err := d.decode(js)
		must(err)
		mu.Lock()
		started = time.Now()
		mu.Unlock()
		st, err := d.exec(c)
		mu.Lock()
		started = time.Time{}
		mu.Unlock()
		return st, err
	}

	res := workerResult{Labels: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	write := func() { must(os.WriteFile(outFile, mustJSON(res), 0o644)) }
	for idx := shard; idx < total+d.fixed; idx += of {
		if time.Now().After(deadline) {
			res.Cut = true
			break
		}
		var c interface{}
		var src *Src
		if idx < d.fixed {
			c = d.fixedAt(idx)
		} else {
			src = caseSrc(d.id, seed, idx)
			c = d.gen(src)
		}
		js := mustJSON(c)
		note(js)
		t0 := time.Now()
		st, err := exec1(js)
		if el := time.Since(t0).Seconds(); el > res.Slowest {
			res.Slowest = el
		}
		res.Evals++
		for l, n := range st.labels {
			res.Labels[l] += n
		}
		for k := range st.known {
			res.Known[k]++
		}
		if st.nontrivial {
			h := fnv.New64a()
			h.Write(js)
			v := h.Sum64()
			if !seen[v] {
				seen[v] = true
				res.Hashes = append(res.Hashes, v)
				if len(res.Samples) < 2 && (len(js) < 3000) {
					res.Samples = append(res.Samples, js)
				}
			}
		}
		if err == nil {
			continue
		}
		best := &failure{Index: idx, Case: js, Err: err.Error()}
		if src != nil {
			steps := 0
			stop := time.Now().Add(25 * time.Second)
			shrink(src.choices, func() bool { return steps < 3000 && time.Now().Before(stop) },
				func(script []uint32) ([]uint32, bool) {
					steps++
					s := scriptSrc(script)
					c := d.gen(s)
					js := mustJSON(c)
					note(js)
					_, err := exec1(js)
					if err == nil {
						return s.choices, false
					}
					if len(js) <= len(best.Case) {
						best = &failure{Index: idx, Case: js, Err: err.Error()}
					}
					return s.choices, true
				})
		}
		res.Fail = best
		break
	}
	write()
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

// ------------------------------------------------------------------ orchestrator

func orchestrate(id, tier, evidence, replayDir string) int {
	t0 := time.Now()
	d, ok := checks[id]
	if !ok {
		fatal("no check %s", id)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	total, limit := d.quick, 420
	if tier == "thorough" {
		total, limit = d.thor, 3300
	}
	if v := os.Getenv("PBT_CASES"); v != "" {
		total, _ = strconv.Atoi(v)
	}
	caseTimeout := 120
	if v := os.Getenv("PBT_CASE_TIMEOUT"); v != "" {
		caseTimeout, _ = strconv.Atoi(v)
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw < 2 {
		nw = 2
	}
	if v := os.Getenv("PBT_WORKERS"); v != "" {
		nw, _ = strconv.Atoi(v)
	}
	dir, err := os.MkdirTemp("", "pbt-")
	must(err)
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	must(err)

	type wres struct {
		shard int
		res   workerResult
		err   error
		code  int
		last  []byte
		out   string
	}
	ch := make(chan wres, nw)
	var procs []*exec.Cmd
	for i := 0; i < nw; i++ {
		rf := filepath.Join(dir, fmt.Sprintf("r%d", i))
		pf := filepath.Join(dir, fmt.Sprintf("p%d", i))
		cmd := exec.Command(self, "worker", id, strconv.FormatInt(seed, 10), strconv.Itoa(total), strconv.Itoa(i), strconv.Itoa(nw),
			strconv.Itoa(limit), strconv.Itoa(caseTimeout), rf, pf)
		var sb strings.Builder
		cmd.Stdout, cmd.Stderr = &limitedWriter{b: &sb}, &limitedWriter{b: &sb}
		cmd.Env = append(os.Environ(), "GOMAXPROCS="+gomaxprocs(id), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 history_size=3", "TMPDIR="+dir)
		must(cmd.Start())
		procs = append(procs, cmd)
		go func(i int) {
			err := cmd.Wait()
			w := wres{shard: i, err: err, out: sb.String()}
			if err != nil {
				w.code = cmd.ProcessState.ExitCode()
			}
			if b, e := os.ReadFile(rf); e == nil {
				if e := json.Unmarshal(b, &w.res); e != nil && w.err == nil {
					w.err = e
				}
			} else if w.err == nil {
				w.err = e
			}
			w.last, _ = os.ReadFile(pf)
			ch <- w
		}(i)
	}
	agg := workerResult{Labels: map[string]int{}, Known: map[string]int{}}
	hashes := map[uint64]bool{}
	var fails []*failure
	broken := ""
	stopped := false
	for i := 0; i < nw; i++ {
		w := <-ch
		if w.err != nil && !stopped {
			// the worker died: was it the code under test?
			msg := fmt.Sprintf("worker died (%v)", w.err)
			if w.code == hangExit {
				msg = fmt.Sprintf("the case did not end within %d s", caseTimeout)
			}
			if len(w.last) > 0 {
				again, out := rerun(self, id, w.last, dir, caseTimeout)
				switch {
				case again || w.code == 66:
					if out == "" {
						out = w.out
					}
					fails = append(fails, &failure{Index: -1, Case: append([]byte{}, w.last...), Err: msg + "\n" + clip(w.out+"\n"+out, 6000)})
				default:
					broken = msg + ", not reproduced on the last case\n" + clip(w.out, 4000)
				}
			} else {
				broken = msg + "\n" + clip(w.out, 4000)
			}
		}
		agg.Evals += w.res.Evals
		for _, h := range w.res.Hashes {
			hashes[h] = true
		}
		for l, n := range w.res.Labels {
			agg.Labels[l] += n
		}
		for l, n := range w.res.Known {
			agg.Known[l] += n
		}
		agg.Cut = agg.Cut || w.res.Cut
		if w.res.Slowest > agg.Slowest {
			agg.Slowest = w.res.Slowest
		}
		if len(agg.Samples) < 4 {
			agg.Samples = append(agg.Samples, w.res.Samples...)
		}
		if w.res.Fail != nil {
			fails = append(fails, w.res.Fail)
		}
		if len(fails) > 0 && !stopped {
			stopped = true
			for _, p := range procs {
				_ = p.Process.Kill()
			}
		}
	}
	status := 0
	violations := 0
	if len(fails) > 0 {
		sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
		f := fails[0]
		must(os.MkdirAll(replayDir, 0o755))
		rp := filepath.Join(replayDir, id+".replay.json")
		b, _ := json.MarshalIndent(replayFile{Property: id, Error: f.Err, Seed: seed, Index: f.Index, Case: f.Case}, "", " ")
		must(os.WriteFile(rp, b, 0o644))
		fmt.Printf("%s violated:\n%s\ncase: %s\n", id, clip(f.Err, 3000), clip(string(f.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		status = 1
		violations = len(fails)
	} else if broken != "" {
		fmt.Fprintln(os.Stderr, broken)
		status = 2
	}
	var listed []string
	for k, kf := range knownFindings {
		if kf.Property == id {
			listed = append(listed, k)
		}
	}
	sort.Strings(listed)
	for _, k := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met by %d cases of this run)\n", id, knownFindings[k].What, agg.Known[k])
	}
	samples := []interface{}{}
	for _, s := range agg.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, d.gen(caseSrc(id, seed, d.fixed)))
	}
	cov := map[string]interface{}{
		"evaluations":         agg.Evals,
		"distinct_nontrivial": len(hashes),
		"rule":                d.rule,
		"samples":             samples,
		"labels":              agg.Labels,
		"fixed_cases":         d.fixed,
		"slowest_case_s":      agg.Slowest,
		"cut_by_time_limit":   agg.Cut,
		"known_findings_met":  agg.Known,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": d.level,
		"coverage": cov, "assumptions": append([]string{}, d.assume...),
		"wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.MkdirAll(filepath.Dir(evidence), 0o755))
	must(os.WriteFile(evidence, append(b, '\n'), 0o644))
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %.1f s, exit %d\n", id, tier, agg.Evals, len(hashes), time.Since(t0).Seconds(), status)
	return status
}

func gomaxprocs(id string) string {
	if id == "C26" {
		return "4"
	}
	return "2"
}

// rerun runs one case alone in a fresh process; true if it fails there in any way
func rerun(self, id string, js []byte, dir string, caseTimeout int) (bool, string) {
	f := filepath.Join(dir, "again.json")
	must(os.WriteFile(f, mustJSON(replayFile{Property: id, Case: js}), 0o644))
	cmd := exec.Command(self, "replay1", f)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+dir)
	var sb strings.Builder
	cmd.Stdout, cmd.Stderr = &limitedWriter{b: &sb}, &limitedWriter{b: &sb}
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return err != nil, sb.String()
	case <-time.After(time.Duration(caseTimeout+60) * time.Second):
		_ = cmd.Process.Kill()
		return true, "does not end"
	}
}

type limitedWriter struct {
	mu sync.Mutex
	b  *strings.Builder
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len() < 1<<16 {
		w.b.Write(p)
	}
	return len(p), nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func readReplay(fn string) (*replayFile, *checkDef, interface{}) {
	b, err := os.ReadFile(fn)
	must(err)
	var rf replayFile
	must(json.Unmarshal(b, &rf))
	d, ok := checks[rf.Property]
	if !ok {
		fatal("no check %s", rf.Property)
	}
	c, err := d.decode(rf.Case)
	must(err)
	return &rf, d, c
}

func replay1(fn string) int {
	_, d, _ := readReplay(fn)
	for i := 0; i < 20; i++ { // maps are iterated in random order: try a few times
		_, _, c := readReplay(fn)
		if _, err := d.exec(c); err != nil {
			fmt.Println(err)
			return 1
		}
	}
	return 0
}

func replay(fn string) int {
	rf, _, _ := readReplay(fn)
	self, err := os.Executable()
	must(err)
	dir, err := os.MkdirTemp("", "pbt-")
	must(err)
	defer os.RemoveAll(dir)
	bad, out := rerun(self, rf.Property, rf.Case, dir, 120)
	if bad {
		fmt.Println(clip(out, 8000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fn)
		return 1
	}
	fmt.Printf("%s: the recorded case passes\n", rf.Property)
	return 0
}
