// Command harness decides the properties of /verif/properties.jsonl by
// exhaustive exploration of the real goav code within stated bounds.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.ID] = p }

var (
	verifDir  = envOr("VERIF_DIR", "/verif")
	thorough  = os.Getenv("VERIF_TIER") == "thorough"
	knownKeys = map[string]string{} // "ID KEY" -> text
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// pick returns q in the quick tier and t in the thorough one.
func pick(q, t int) int {
	if thorough {
		return t
	}
	return q
}

func loadKnown() {
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// finding: property=<id> key=<KEY> <text>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(fs) < 3 {
			continue
		}
		id := strings.TrimPrefix(fs[0], "property=")
		key := strings.TrimPrefix(fs[1], "key=")
		knownKeys[id+" "+key] = fs[2]
	}
}

func knownListed(id, key string) bool { _, ok := knownKeys[id+" "+key]; return ok }

type childReport struct {
	Scens     []scenResult
	Outcomes  int64
	States    int64
	Known     map[string]int64
	Samples   []string
	Extra     map[string]interface{}
	Fail      *failureJSON
	Truncated bool
}

type failureJSON struct {
	Scenario string
	Vector   []int
	Message  string
	Stack    string
	Log      []string
	Repro    string
}

func main() {
	loadKnown()
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness check|child|one|replay ID|FILE ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(parent(os.Args[2]))
	case "child":
		child(os.Args[2], os.Args[3])
	case "one":
		oneMain(os.Args[2], os.Args[3], os.Args[4])
	case "replay":
		replayMain(os.Args[2])
	case "race":
		raceMain()
	case "solo":
		soloMain(os.Args[2], os.Args[3])
	default:
		os.Exit(2)
	}
}

func findProp(id string) *Prop {
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		os.Exit(2)
	}
	return p
}

func budget() time.Duration {
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if thorough {
		return 700 * time.Second
	}
	return 300 * time.Second
}

// child explores all scenarios of a property and writes its report.
func child(id, dir string) {
	p := findProp(id)
	debug.SetGCPercent(400)
	lim := syscall.Rlimit{Cur: 26 << 30, Max: 26 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	nw := nworkers()
	shm, err := mapShm(filepath.Join(dir, "shm"), segSize*(nw+1))
	if err != nil {
		fmt.Fprintln(os.Stderr, "shm:", err)
		os.Exit(3)
	}
	rep := childReport{Known: map[string]int64{}}
	outcomes, states := &sharded{}, &sharded{}
	deadline := time.Now().Add(budget())
	scens := p.Build(thorough)
	for i, s := range scens {
		s.prop = p
		binary.LittleEndian.PutUint32(shm[segSize*nw:], uint32(i+1))
		e, r := explore(p, s, nw, deadline, outcomes, states, shm)
		rep.Scens = append(rep.Scens, r)
		for k, n := range e.known {
			rep.Known[k] += n
		}
		ns := 8
		if len(scens) > 10 {
			ns = 4
		}
		sort.Strings(e.samples)
		for k := 0; k < len(e.samples) && k < ns; k++ {
			rep.Samples = append(rep.Samples, e.samples[k*len(e.samples)/min(ns, len(e.samples))])
		}
		if e.truncated != 0 {
			rep.Truncated = true
		}
		if e.fail != nil {
			rep.Fail = confirm(s, e.fail)
			break
		}
	}
	binary.LittleEndian.PutUint32(shm[segSize*nw:], 0)
	rep.Outcomes, rep.States = outcomes.n, states.n
	if rep.Fail == nil && p.Extra != nil {
		x, err := p.Extra(thorough)
		rep.Extra = x
		if err != nil {
			rep.Fail = &failureJSON{Scenario: "extra", Message: err.Error()}
		}
	}
	b, _ := json.Marshal(rep)
	if err := os.WriteFile(filepath.Join(dir, "report.json"), b, 0o600); err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// confirm re-executes a failing vector; Go map iteration order inside the code
// under test is the only nondeterminism the explorer does not choose.
func confirm(s *Scenario, f *failure) *failureJSON {
	fails, runs := 0, 0
	var log []string
	msg, stack := f.msg, f.stack
	for runs < 200 && fails < 3 {
		runs++
		c := &Ctx{}
		_ = c
		cc, g := runOneLogged(s, f.vec)
		if g != nil {
			fails++
			log = cc
			msg, stack = g.msg, g.stack
		} else if log == nil {
			log = cc
		}
	}
	return &failureJSON{Scenario: s.Name, Vector: f.vec, Message: msg, Stack: clip(stack, 3000), Log: log,
		Repro: fmt.Sprintf("%d of %d re-executions of the same vector failed", fails, runs)}
}

func runOneLogged(s *Scenario, vec []int) (log []string, f *failure) {
	c := &Ctx{scen: s, prefix: vec, logging: true}
	defer func() {
		log = c.log
		if r := recover(); r != nil {
			f = &failure{scen: s.Name, vec: vec}
			if v, ok := r.(violation); ok {
				f.msg = v.msg
			} else {
				f.msg = fmt.Sprintf("panic: %v", r)
				f.stack = string(debug.Stack())
			}
		}
	}()
	s.Run(c)
	return
}

// oneMain runs one vector in this process (used to confirm crashes and hangs).
func oneMain(id, scen, vec string) {
	p := findProp(id)
	lim := syscall.Rlimit{Cur: 26 << 30, Max: 26 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	for _, s := range p.Build(thorough) {
		if s.Name != scen {
			continue
		}
		s.prop = p
		log, f := runOneLogged(s, parseVec(vec))
		for _, l := range log {
			fmt.Println("  ", l)
		}
		if f != nil {
			fmt.Println("FAIL", f.msg)
			if f.stack != "" {
				fmt.Println(f.stack)
			}
			os.Exit(1)
		}
		fmt.Println("PASS")
		os.Exit(0)
	}
	fmt.Println("no scenario", scen)
	os.Exit(2)
}

func parseVec(s string) []int {
	var v []int
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' }) {
		n, _ := strconv.Atoi(f)
		v = append(v, n)
	}
	return v
}

func fmtVec(v []int) string {
	var s []string
	for _, x := range v {
		s = append(s, strconv.Itoa(x))
	}
	return strings.Join(s, ",")
}

func replayMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r struct {
		Property, Tier string
		Failure        failureJSON
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	thorough = r.Tier == "thorough"
	if p := findProp(r.Property); r.Failure.Scenario == "extra" && p.Extra != nil {
		x, err := p.Extra(thorough)
		if err != nil {
			fmt.Println("FAIL", err)
			os.Exit(1)
		}
		fmt.Println("PASS", x)
		os.Exit(0)
	}
	oneMain(r.Property, r.Failure.Scenario, fmtVec(r.Failure.Vector))
}

const (
	stallLimit   = 40 * time.Second
	confirmLimit = 60 * time.Second
)

// parent runs the child, watches for crashes and hangs, and reports.
func parent(id string) int {
	p := findProp(id)
	t0 := time.Now()
	var rep *childReport
	for attempt := 0; attempt < 2 && rep == nil; attempt++ {
		if attempt == 1 {
			// perhaps memory ran out because of several workers together
			_ = os.Setenv("VERIF_WORKERS", "1")
		}
		rep = runChild(p)
	}
	if rep == nil {
		fmt.Fprintln(os.Stderr, "harness: the exploration process died twice and no execution reproduces it")
		return 2
	}
	return report(p, rep, time.Since(t0))
}

func runChild(p *Prop) *childReport {
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	nw := nworkers()
	shm, err := mapShm(filepath.Join(dir, "shm"), segSize*(nw+1))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	errf, _ := os.Create(filepath.Join(dir, "stderr"))
	defer errf.Close()
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "child", p.ID, dir)
	cmd.Stderr = errf
	cmd.Stdout = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last := make([]uint64, nw)
	seen := make([]time.Time, nw)
	for i := range seen {
		seen[i] = time.Now()
	}
	scens := p.Build(thorough)
	current := func(i int) (*Scenario, []int, bool) {
		si := int(binary.LittleEndian.Uint32(shm[segSize*nw:]))
		if si < 1 || si > len(scens) {
			return nil, nil, false
		}
		seg := shm[i*segSize : (i+1)*segSize]
		if binary.LittleEndian.Uint32(seg[12:]) != 1 {
			return nil, nil, false
		}
		n := int(binary.LittleEndian.Uint32(seg[8:]))
		v := make([]int, n)
		for k := range v {
			v[k] = int(binary.LittleEndian.Uint32(seg[64+4*k:]))
		}
		return scens[si-1], v, true
	}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			if b, e := os.ReadFile(filepath.Join(dir, "report.json")); e == nil && err == nil {
				rep := &childReport{}
				if json.Unmarshal(b, rep) == nil {
					return rep
				}
			}
			tail := tailOf(filepath.Join(dir, "stderr"))
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				fmt.Fprintln(os.Stderr, tail)
				os.Exit(2)
			}
			// fatal death (stack overflow, out of memory, os.Exit in the code under
			// test): find the execution that causes it
			for i := 0; i < nw; i++ {
				s, v, ok := current(i)
				if !ok {
					continue
				}
				if out, bad := confirmProc(p, s, v, confirmLimit); bad {
					return &childReport{Known: map[string]int64{}, Fail: &failureJSON{Scenario: s.Name, Vector: v,
						Message: "the process dies or does not finish on this execution", Stack: clip(out, 3000), Repro: "reproduced in a fresh process"}}
				}
			}
			fmt.Fprintln(os.Stderr, "harness: child died:", err, tail)
			return nil
		case <-tick.C:
			for i := 0; i < nw; i++ {
				b := binary.LittleEndian.Uint64(shm[i*segSize:])
				if b != last[i] {
					last[i], seen[i] = b, time.Now()
					continue
				}
				s, v, ok := current(i)
				if !ok {
					seen[i] = time.Now()
					continue
				}
				if time.Since(seen[i]) > stallLimit {
					out, bad := confirmProc(p, s, v, confirmLimit)
					if bad {
						_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
						<-done
						return &childReport{Known: map[string]int64{}, Fail: &failureJSON{Scenario: s.Name, Vector: v,
							Message: "this execution does not terminate", Stack: clip(out, 3000),
							Repro: fmt.Sprintf("no progress for %v, then again none within %v in a fresh process", stallLimit, confirmLimit)}}
					}
					seen[i] = time.Now()
				}
			}
		}
	}
}

func tailOf(path string) string {
	b, _ := os.ReadFile(path)
	if len(b) > 4000 {
		b = append(b[:2000:2000], b[len(b)-2000:]...)
	}
	return string(b)
}

// confirmProc runs one vector in a fresh process; bad means it failed, died or
// did not finish.
func confirmProc(p *Prop, s *Scenario, v []int, limit time.Duration) (string, bool) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "one", p.ID, s.Name, fmtVec(v)+",")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var sb strings.Builder
	cmd.Stdout, cmd.Stderr = &limited{b: &sb}, &limited{b: &sb}
	if err := cmd.Start(); err != nil {
		return err.Error(), false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return sb.String(), err != nil
	case <-time.After(limit):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return sb.String() + "\n(killed after " + limit.String() + ")", true
	}
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 4000 {
		l.b.WriteString(clip(string(p), 4000))
	}
	return len(p), nil
}

func report(p *Prop, rep *childReport, wall time.Duration) int {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	var leaves, edges, evals, steps int64
	var scens []map[string]interface{}
	exhaustive := !rep.Truncated && rep.Fail == nil
	for _, s := range rep.Scens {
		leaves += s.Leaves
		edges += s.Edges
		evals += s.Evals
		steps += s.Steps
		scens = append(scens, map[string]interface{}{"scenario": s.Name, "bounds": s.Note, "executions": s.Leaves, "exhausted": s.Exhausted, "seconds": float64(int(s.Secs*100)) / 100})
	}
	viol := 0
	if rep.Fail != nil {
		viol = 1
	}
	cov := map[string]interface{}{"scenarios": scens, "exhaustive": exhaustive, "distinct_outcomes": rep.Outcomes}
	if len(rep.Samples) > 24 {
		var s []string
		for i := 0; i < 24; i++ {
			s = append(s, rep.Samples[i*len(rep.Samples)/24])
		}
		rep.Samples = s
	}
	if rep.Samples == nil {
		rep.Samples = []string{}
	}
	cov["samples"] = rep.Samples
	cov["rule"] = p.Rule
	switch p.Level {
	case "model_checking":
		states := rep.States
		if states == 0 {
			states = edges + 1
		}
		tr := steps
		if tr == 0 {
			tr = edges
		}
		cov["states"] = states
		cov["transitions"] = tr
		cov["traces_validated_against_impl"] = leaves
		if evals > 0 {
			cov["oracle_evaluations"] = evals
		}
	default:
		if evals == 0 {
			evals = leaves
		}
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = rep.Outcomes
		cov["executions"] = leaves
	}
	for k, v := range rep.Extra {
		cov[k] = v
	}
	if len(rep.Known) > 0 {
		cov["known_findings_hit"] = rep.Known
	}
	ev := map[string]interface{}{"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov, "wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": viol}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("property=%s tier=%s executions=%d distinct_outcomes=%d exhaustive=%v wall=%.1fs\n", p.ID, tier, leaves, rep.Outcomes, exhaustive, wall.Seconds())
	for _, k := range sortedKeys(rep.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s\n", p.ID, k, knownKeys[p.ID+" "+k])
	}
	if rep.Fail == nil {
		return 0
	}
	rdir := filepath.Join(verifDir, "replay")
	_ = os.MkdirAll(rdir, 0o755)
	rf := filepath.Join(rdir, p.ID+".json")
	rb, _ := json.MarshalIndent(map[string]interface{}{"Property": p.ID, "Tier": tier, "Failure": rep.Fail,
		"HowTo": "cd /verif && ./check.sh replay " + rf}, "", " ")
	_ = os.WriteFile(rf, append(rb, '\n'), 0o644)
	fmt.Printf("scenario %s vector [%s]: %s\n", rep.Fail.Scenario, fmtVec(rep.Fail.Vector), clip(rep.Fail.Message, 1500))
	for _, l := range rep.Fail.Log {
		fmt.Println("   ", clip(l, 600))
	}
	if rep.Fail.Stack != "" {
		fmt.Println(rep.Fail.Stack)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rf)
	return 1
}
