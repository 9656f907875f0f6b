// Exhaustive explorer: depth-first enumeration of every choice vector of a
// scenario, sharing subtrees between worker goroutines. A scenario is a
// deterministic function of the values c.Choose returns; every leaf is one
// complete execution of the real code under test.
package main

import (
	"github.com/moggle-mog/goav/container/flv"

	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type choice struct{ n, v int }

// violation is the panic value of a failed oracle.
type violation struct{ msg string }

// Ctx is the explorer's handle for one execution.
type Ctx struct {
	scen    *Scenario
	prefix  []int
	trace   []choice
	w       *worker
	log     []string
	logging bool
	giveUp  bool         // the scenario cannot be explored any further (reported as cut short)
	demuxer *flv.Demuxer // one demuxer serves a whole execution, like a whole stream

	evals int64 // property evaluations in this execution
	steps int64 // implementation steps compared against the model
}

// Choose returns every value 0..n-1 on some execution.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness: Choose(%d)", n))
	}
	if n == 1 {
		return 0
	}
	i := len(c.trace)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("harness: nondeterministic scenario: choice %d wants %d of %d", i, v, n))
		}
	}
	c.trace = append(c.trace, choice{n, v})
	if c.w != nil {
		c.w.publish(c)
	}
	return v
}

// Bool is a two-way choice.
func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

// Eval counts n evaluations of the property's oracle.
func (c *Ctx) Eval(n int) { c.evals += int64(n); c.beat() }

// Step counts implementation steps compared against the reference model.
func (c *Ctx) Step(n int) { c.steps += int64(n) }

func (c *Ctx) beat() {
	if c.w != nil {
		c.w.beat()
	}
}

// Outcome records a canonical observation of this execution; the number of
// distinct ones is reported.
func (c *Ctx) Outcome(parts ...interface{}) {
	if c.w == nil {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0xfe})
	}
	c.w.ex.outcome(h.Sum64())
}

// State records a canonical state fingerprint reached by this execution.
func (c *Ctx) State(parts ...interface{}) {
	if c.w == nil {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0xfe})
	}
	c.w.ex.state(h.Sum64())
}

// Logf describes the concrete case; formatted only when replaying or sampling.
func (c *Ctx) Logf(f string, a ...interface{}) {
	if c.logging {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
}

// Fail stops this execution with a violation.
func (c *Ctx) Fail(f string, a ...interface{}) {
	panic(violation{fmt.Sprintf(f, a...)})
}

// Check fails unless ok.
func (c *Ctx) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		c.Fail(f, a...)
	}
}

// Known handles a listed finding: the caller has verified that this execution
// shows exactly the documented defect `key`. If the finding is not listed, it
// is a violation.
func (c *Ctx) Known(key, f string, a ...interface{}) {
	if !knownListed(c.scen.prop.ID, key) {
		c.Fail("[%s] "+f, append([]interface{}{key}, a...)...)
	}
	if c.w != nil {
		c.w.ex.knownHit(key)
	}
}

// Scenario is one exhaustively explored family of executions.
type Scenario struct {
	Name string
	Note string // bounds, for the evidence file
	Run  func(c *Ctx)
	Solo bool // must run in one worker (measures process-global things)
	prop *Prop
}

// Prop is one checked property.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Build       func(thorough bool) []*Scenario
	Findings    map[string]string // known-finding keys this check can confirm
	Extra       func(thorough bool) (map[string]interface{}, error)
}

type sharded struct {
	mu [64]sync.Mutex
	m  [64]map[uint64]struct{}
	n  int64
}

const maxSet = 6_000_000

func (s *sharded) add(h uint64) {
	i := h & 63
	if atomic.LoadInt64(&s.n) >= maxSet {
		return
	}
	s.mu[i].Lock()
	if s.m[i] == nil {
		s.m[i] = map[uint64]struct{}{}
	}
	if _, ok := s.m[i][h]; !ok {
		s.m[i][h] = struct{}{}
		atomic.AddInt64(&s.n, 1)
	}
	s.mu[i].Unlock()
}

type failure struct {
	scen  string
	vec   []int
	msg   string
	stack string
}

type explorer struct {
	prop     *Prop
	scen     *Scenario
	deadline time.Time

	mu    sync.Mutex
	cond  *sync.Cond
	queue [][]int
	idle  int
	nw    int
	stop  int32
	fail  *failure

	leaves, edges, evals, steps int64
	truncated                   int32

	outcomes, states *sharded
	known            map[string]int64
	samples          []string
	nsamples         int32
	shm              []byte
}

func (e *explorer) outcome(h uint64) { e.outcomes.add(h) }
func (e *explorer) state(h uint64)   { e.states.add(h) }
func (e *explorer) knownHit(k string) {
	e.mu.Lock()
	e.known[k]++
	e.mu.Unlock()
}

type worker struct {
	ex  *explorer
	id  int
	seg []byte // shared-memory segment: beat(8) len(4) vec(4 each)
	n   uint64
}

const segSize = 4096
const maxVec = (segSize - 64) / 4

func (w *worker) publish(c *Ctx) {
	if w.seg == nil {
		return
	}
	i := len(c.trace) - 1
	if i < maxVec {
		binary.LittleEndian.PutUint32(w.seg[64+4*i:], uint32(c.trace[i].v))
		binary.LittleEndian.PutUint32(w.seg[8:], uint32(i+1))
	}
}

func (w *worker) start() {
	if w.seg != nil {
		binary.LittleEndian.PutUint32(w.seg[8:], 0)
		binary.LittleEndian.PutUint32(w.seg[12:], 1)
		w.beat()
	}
}

func (w *worker) beat() {
	w.n++
	if w.seg != nil {
		binary.LittleEndian.PutUint64(w.seg[0:], w.n)
	}
}

func (w *worker) end() {
	if w.seg != nil {
		binary.LittleEndian.PutUint32(w.seg[12:], 0)
	}
}

// runOne executes the scenario along a choice prefix (then always choice 0).
func runOne(s *Scenario, prefix []int, w *worker, logging bool) (c *Ctx, f *failure) {
	c = &Ctx{scen: s, prefix: prefix, w: w, logging: logging}
	defer func() {
		if r := recover(); r != nil {
			f = &failure{scen: s.Name}
			for _, t := range c.trace {
				f.vec = append(f.vec, t.v)
			}
			if v, ok := r.(violation); ok {
				f.msg = v.msg
			} else if re, ok := r.(string); ok && strings.HasPrefix(re, "harness:") {
				fmt.Fprintln(os.Stderr, re, "scenario", s.Name, f.vec)
				os.Exit(3)
			} else {
				f.msg = fmt.Sprintf("panic: %v", r)
				f.stack = string(debug.Stack())
			}
		}
	}()
	s.Run(c)
	return c, nil
}

func (e *explorer) work(id int) {
	w := &worker{ex: e, id: id}
	if e.shm != nil {
		w.seg = e.shm[id*segSize : (id+1)*segSize]
	}
	var leaves, edges, evals, steps int64
	flush := func() {
		atomic.AddInt64(&e.leaves, leaves)
		atomic.AddInt64(&e.edges, edges)
		atomic.AddInt64(&e.evals, evals)
		atomic.AddInt64(&e.steps, steps)
		leaves, edges, evals, steps = 0, 0, 0, 0
	}
	defer flush()
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && atomic.LoadInt32(&e.stop) == 0 {
			e.idle++
			if e.idle == e.nw {
				atomic.StoreInt32(&e.stop, 1)
				e.cond.Broadcast()
				break
			}
			e.cond.Wait()
			e.idle--
		}
		if atomic.LoadInt32(&e.stop) != 0 {
			e.mu.Unlock()
			return
		}
		prefix := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.mu.Unlock()

		base := len(prefix)
		first := true
		// limit[i]: exclusive upper bound for choice i within this job
		limit := map[int]int{}
		for {
			if atomic.LoadInt32(&e.stop) != 0 {
				return
			}
			if leaves&15 == 0 && time.Now().After(e.deadline) {
				atomic.StoreInt32(&e.truncated, 1)
				atomic.StoreInt32(&e.stop, 1)
				e.mu.Lock()
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
			w.start()
			total := atomic.LoadInt64(&e.leaves) + leaves
			sample := total < 3 || (total&(total-1)) == 0
			c, f := runOne(e.scen, prefix, w, sample && atomic.LoadInt32(&e.nsamples) < 40)
			w.end()
			if f != nil {
				e.mu.Lock()
				if e.fail == nil {
					e.fail = f
				}
				atomic.StoreInt32(&e.stop, 1)
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
			if c.giveUp {
				atomic.StoreInt32(&e.truncated, 1)
				atomic.StoreInt32(&e.stop, 1)
				e.mu.Lock()
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
			if len(c.trace) < len(prefix) {
				fmt.Fprintln(os.Stderr, "harness: scenario", e.scen.Name, "ended before its prefix", prefix)
				os.Exit(3)
			}
			if c.logging && len(c.log) > 0 {
				e.mu.Lock()
				if len(e.samples) < 40 {
					atomic.AddInt32(&e.nsamples, 1)
					e.samples = append(e.samples, e.scen.Name+": "+clip(strings.Join(c.log, "; "), 400))
				}
				e.mu.Unlock()
			}
			leaves++
			evals += c.evals
			steps += c.steps
			if first {
				edges += int64(len(c.trace))
				first = false
			}
			t := c.trace
			if leaves >= 64 {
				flush()
			}
			// share: hand out the shallowest untried alternatives when someone is idle
			e.mu.Lock()
			hungry := e.idle > 0 && len(e.queue) < e.nw*4
			e.mu.Unlock()
			if hungry {
				for i := base; i < len(t); i++ {
					lim := t[i].n
					if l, ok := limit[i]; ok {
						lim = l
					}
					if t[i].v+1 < lim {
						e.mu.Lock()
						// give away a block at the top of the remaining alternatives
						k := (lim - t[i].v) / 2
						if k > e.nw*2 {
							k = e.nw * 2
						}
						for v := lim - k; v < lim; v++ {
							np := make([]int, i+1)
							for j := 0; j < i; j++ {
								np[j] = t[j].v
							}
							np[i] = v
							e.queue = append(e.queue, np)
						}
						limit[i] = lim - k
						e.cond.Broadcast()
						e.mu.Unlock()
						break
					}
				}
			}
			// odometer
			i := len(t) - 1
			for ; i >= base; i-- {
				lim := t[i].n
				if l, ok := limit[i]; ok {
					lim = l
				}
				if t[i].v+1 < lim {
					break
				}
				delete(limit, i)
			}
			if i < base {
				break
			}
			for k := range limit {
				if k > i {
					delete(limit, k)
				}
			}
			np := make([]int, i+1)
			for k := 0; k < i; k++ {
				np[k] = t[k].v
			}
			np[i] = t[i].v + 1
			prefix = np
			edges += int64(1)
			first = false
		}
	}
}

type scenResult struct {
	Name      string
	Note      string
	Leaves    int64
	Edges     int64
	Evals     int64
	Steps     int64
	Exhausted bool
	Secs      float64
}

func explore(p *Prop, s *Scenario, nw int, deadline time.Time, outcomes, states *sharded, shm []byte) (*explorer, scenResult) {
	if s.Solo {
		nw = 1
	}
	e := &explorer{prop: p, scen: s, deadline: deadline, nw: nw, queue: [][]int{{}}, outcomes: outcomes, states: states, known: map[string]int64{}, shm: shm}
	e.cond = sync.NewCond(&e.mu)
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); e.work(i) }(i)
	}
	wg.Wait()
	return e, scenResult{s.Name, s.Note, e.leaves, e.edges, e.evals, e.steps, e.truncated == 0 && e.fail == nil, time.Since(t0).Seconds()}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func mapShm(path string, size int) ([]byte, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(int64(size)); err != nil {
		return nil, err
	}
	return syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
}

func nworkers() int {
	if os.Getenv("VERIF_WORKERS") == "1" {
		return 1
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
