// Package engine is a stateless, exhaustive explorer: it enumerates every
// path of a finite choice tree that a harness body unfolds by calling
// Choose/Dev, on the real implementation, in parallel, and reports what it
// covered. Nothing is sampled: a space is either enumerated completely within
// its stated bounds, or the run says that it was cut off.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID  string
	Run func(r *Runner)
}

var checks = map[string]*Check{}

// Register adds a check.
func Register(id string, run func(r *Runner)) { checks[id] = &Check{ID: id, Run: run} }

// IDs returns the registered ids.
func IDs() []string {
	var out []string
	for id := range checks {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// Failure is a property violation found on one path.
type Failure struct {
	Property string   `json:"property"`
	Space    string   `json:"space"`
	Sig      string   `json:"sig"`
	Detail   string   `json:"detail"`
	Choices  []int    `json:"choices"`
	Labels   []string `json:"labels"`
	Trace    []string `json:"trace"`
	Devs     int      `json:"deviations"`
	Repro    int      `json:"reproduced_of_5"`
	Kind     string   `json:"kind"`
	Tier     string   `json:"tier"`
	// the case that ran in between, and the one that ran before
	Between []int `json:"between,omitempty"`
	Before  []int `json:"before,omitempty"`
}

// SpaceStat describes one explored space.
type SpaceStat struct {
	Name       string `json:"name"`
	Bound      string `json:"bound"`
	Executions int64  `json:"executions"`
	Edges      int64  `json:"edges"`
	States     int64  `json:"states"`
	Outcomes   int64  `json:"distinct_outcomes"`
	Exhaustive bool   `json:"exhaustive"`
	DevBound   int    `json:"deviation_bound"`
	WallMS     int64  `json:"wall_ms"`
}

// Runner runs the spaces of one check.
type Runner struct {
	Property string
	Tier     string
	Deadline time.Time
	Workers  int

	mu        sync.Mutex
	failures  map[string]*Failure
	nfail     int64
	spaces    []SpaceStat
	samples   []any
	states    *set
	validated int64
	diverged  int64
	firstFail time.Time

	slots *slots

	// replay mode
	replaySpace   string
	replayChoices []int
	replayBetween []int
	replayBefore  []int
	replayed      *Failure
	replayRan     bool
	replayVerbose bool
	Assumptions   []string
}

// Thorough says whether the thorough tier is running.
func (r *Runner) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (r *Runner) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Assume records an assumption of the check for the evidence file.
func (r *Runner) Assume(s string) { r.Assumptions = append(r.Assumptions, s) }

type choice struct {
	n, pick int
	dev     bool
	label   string
}

// Ctx is one execution of a harness body.
type Ctx struct {
	r         *Runner
	space     string
	prefix    []int
	choices   []choice
	trace     []string
	devs      int
	bound     int
	verbose   bool
	failed    *Failure
	w         *worker
	outcome   uint64
	newEdges  int64
	validated int64

	between []int      // the case to run in between
	body    func(*Ctx) // set if there is one

	Tag interface{} // for the use of a space
}

// Between marks a point at which a body holds something the code under test has
// handed out. In a space explored with ExploreBetween another case runs here from
// its beginning to its end, so that what two cases share becomes visible.
func (c *Ctx) Between() {
	if c.body == nil {
		return
	}
	body := c.body
	c.body = nil // not within itself
	n := &Ctx{r: c.r, space: c.space, prefix: c.between, bound: c.bound, verbose: c.verbose}
	n.run(body)
	c.body = body
	if c.verbose {
		c.trace = append(c.trace, "  in between:")
		c.trace = append(c.trace, n.trace...)
	}
	c.validated += n.validated
	if n.failed != nil {
		c.failed = n.failed
		c.failed.Detail = "run within another case: " + c.failed.Detail
		panic(stopExec{})
	}
}

type stopExec struct{}

// Choose is a free branch with n alternatives.
func (c *Ctx) Choose(n int, label string) int { return c.pick(n, false, label) }

// Bool is a free two-way branch.
func (c *Ctx) Bool(label string) bool { return c.pick(2, false, label) == 1 }

// Dev is a branch whose alternative 0 is the default environment answer and
// every other one costs one deviation.
func (c *Ctx) Dev(n int, label string) int { return c.pick(n, true, label) }

// Of chooses one of the given values.
func Of[T any](c *Ctx, label string, vals ...T) T { return vals[c.Choose(len(vals), label)] }

// Devs returns the number of deviations taken so far.
func (c *Ctx) Devs() int { return c.devs }

func (c *Ctx) pick(n int, dev bool, label string) int {
	if n <= 0 {
		panic(fmt.Sprintf("engine: empty choice %q", label))
	}
	if dev && c.devs >= c.bound {
		n = 1
	}
	if n == 1 {
		return 0
	}
	i := len(c.choices)
	p := 0
	if i < len(c.prefix) {
		p = c.prefix[i]
		if p >= n {
			// the implementation behaved differently on the same prefix
			panic(divergence{})
		}
	}
	if i >= len(c.prefix)-1 {
		c.newEdges++ // an edge of the choice tree no earlier path took
	}
	c.choices = append(c.choices, choice{n, p, dev, label})
	if c.w != nil {
		c.w.publish(i, p)
	}
	if dev && p != 0 {
		c.devs++
	}
	return p
}

type divergence struct{}

// Logf records a trace line (only kept for samples, failures and replays).
func (c *Ctx) Logf(format string, args ...any) {
	if c.verbose {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

// Verbose says whether trace lines are being kept.
func (c *Ctx) Verbose() bool { return c.verbose }

// State records a visited state by its canonical key.
func (c *Ctx) State(key string) {
	h := fnv.New64a()
	h.Write([]byte(c.space))
	h.Write([]byte{0})
	h.Write([]byte(key))
	s := h.Sum64()
	if c.w != nil {
		c.w.addState(s)
	}
	c.outcome = c.outcome*1099511628211 ^ s
}

// StateBytes is State for a byte key.
func (c *Ctx) StateBytes(parts ...[]byte) {
	h := fnv.New64a()
	h.Write([]byte(c.space))
	for _, p := range parts {
		h.Write([]byte{0, 1})
		h.Write(p)
	}
	s := h.Sum64()
	if c.w != nil {
		c.w.addState(s)
	}
	c.outcome = c.outcome*1099511628211 ^ s
}

// Validated counts one comparison of a reference-model trace against the
// implementation.
func (c *Ctx) Validated() { c.validated++ }

// Fail records a violation and ends this execution. sig identifies the
// specific input, call site or history class that fails.
func (c *Ctx) Fail(sig, format string, args ...any) {
	c.FailSoft(sig, format, args...)
	panic(stopExec{})
}

// FailSoft records a violation without ending the execution (first one wins).
func (c *Ctx) FailSoft(sig, format string, args ...any) {
	if c.failed == nil {
		c.failed = &Failure{Property: c.r.Property, Space: c.space, Sig: sig, Detail: fmt.Sprintf(format, args...), Kind: "violation"}
	}
}

// Stop ends this execution without a violation.
func (c *Ctx) Stop() { panic(stopExec{}) }

// Guard runs fn on the implementation and turns a panic into a description.
// It returns the panic text ("" when fn returned normally).
func Guard(fn func()) (p string) {
	defer func() {
		if v := recover(); v != nil {
			switch v.(type) {
			case stopExec, divergence:
				panic(v)
			}
			p = fmt.Sprintf("%v", v)
			if p == "" {
				p = "panic"
			}
			p += " @ " + implFrame()
		}
	}()
	fn()
	return ""
}

func implFrame() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	for {
		f, more := frames.Next()
		if strings.Contains(f.Function, "mitch000001/go-hbci/") && !strings.Contains(f.Function, "/verifmc/engine") {
			return f.Function
		}
		if !more {
			break
		}
	}
	return "?"
}

type set struct {
	shards [256]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
}

func newSet() *set {
	s := &set{}
	for i := range s.shards {
		s.shards[i].m = map[uint64]struct{}{}
	}
	return s
}

const stateCap = 200000 // per shard, 51 million in all

func (s *set) add(h uint64) bool {
	sh := &s.shards[(h>>32)&255]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if _, ok := sh.m[h]; ok {
		return false
	}
	if len(sh.m) >= stateCap {
		return false
	}
	sh.m[h] = struct{}{}
	return true
}

func (s *set) size() int64 {
	var n int64
	for i := range s.shards {
		n += int64(len(s.shards[i].m))
	}
	return n
}

type worker struct {
	id     int
	slot   *slot
	states *set
	recent map[uint64]struct{}
}

func (w *worker) addState(h uint64) {
	if _, ok := w.recent[h]; ok {
		return
	}
	if len(w.recent) > 1<<16 {
		w.recent = map[uint64]struct{}{}
	}
	w.recent[h] = struct{}{}
	w.states.add(h)
}

func (w *worker) publish(i, p int) {
	if w.slot != nil {
		w.slot.set(i, p)
	}
}

type task struct {
	prefix []int
	frozen int // choices below this index are fixed
}

// Explore enumerates every path of body's choice tree with at most devBound
// deviations.
func (r *Runner) Explore(space, bound string, devBound int, body func(c *Ctx)) {
	r.explore(space, bound, devBound, body, false)
}

// ExploreBetween is Explore with the case of the same worker before run once more
// at each Between of a case.
func (r *Runner) ExploreBetween(space, bound string, devBound int, body func(c *Ctx)) {
	r.explore(space, bound+"; at every point at which a case holds a result, the case before is run as well", devBound, body, true)
}

func (r *Runner) explore(space, bound string, devBound int, body func(c *Ctx), between bool) {
	if r.replaySpace != "" {
		if r.replaySpace == space && !r.replayRan {
			r.replayRan = true
			r.replayOne(space, devBound, body)
		}
		return
	}
	if only := os.Getenv("MC_SPACE"); only != "" && only != space {
		return // for work on a space
	}
	start := time.Now()
	var (
		mu     sync.Mutex
		cond   = sync.NewCond(&mu)
		queue  = []task{{}}
		idle   int32
		done   bool
		cut    atomic.Bool
		execs  int64
		edges  int64
		outs   = newSet()
		states = newSet()
		wg     sync.WaitGroup
	)
	nw := r.Workers
	var hungry atomic.Int32
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := &worker{id: id, states: states, recent: map[uint64]struct{}{}}
			if r.slots != nil {
				w.slot = r.slots.at(id)
			}
			var last []int // the case before
			for {
				mu.Lock()
				idle++
				hungry.Add(1)
				for len(queue) == 0 && !done {
					if int(idle) == nw {
						done = true
						cond.Broadcast()
						break
					}
					cond.Wait()
				}
				if done {
					mu.Unlock()
					return
				}
				t := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				idle--
				hungry.Add(-1)
				mu.Unlock()

				prefix := t.prefix
				frozen := t.frozen
				for {
					if r.over() {
						cut.Store(true)
						break
					}
					var meanwhile []int
					if between {
						meanwhile = last
					}
					c := r.exec(space, devBound, body, prefix, meanwhile, w, false)
					atomic.AddInt64(&execs, 1)
					atomic.AddInt64(&edges, c.newEdges)
					atomic.AddInt64(&r.validated, c.validated)
					outs.add(c.outcome)
					if c.failed != nil {
						r.fail(c, devBound, body, last)
					}
					last = picks(c)
					// next path in depth-first order
					next := c.choices
					// give away work at the shallowest open level
					if hungry.Load() > 0 && len(next) > frozen {
						for lvl := frozen; lvl < len(next); lvl++ {
							ch := next[lvl]
							if ch.pick+1 < ch.n {
								mu.Lock()
								for a := ch.n - 1; a > ch.pick; a-- {
									np := make([]int, lvl+1)
									for k := 0; k < lvl; k++ {
										np[k] = next[k].pick
									}
									np[lvl] = a
									queue = append(queue, task{np, lvl + 1})
								}
								cond.Broadcast()
								mu.Unlock()
								frozen = lvl + 1
								break
							}
						}
					}
					k := len(next) - 1
					for k >= frozen && next[k].pick+1 >= next[k].n {
						k--
					}
					if k < frozen {
						break
					}
					np := make([]int, k+1)
					for j := 0; j <= k; j++ {
						np[j] = next[j].pick
					}
					np[k]++
					prefix = np
				}
				if cut.Load() {
					mu.Lock()
					done = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
			}
		}(i)
	}
	wg.Wait()
	r.mu.Lock()
	st := SpaceStat{Name: space, Bound: bound, Executions: execs, Edges: edges, States: states.size(),
		Outcomes: outs.size(), Exhaustive: !cut.Load() && atomic.LoadInt64(&r.diverged) == 0, DevBound: devBound, WallMS: time.Since(start).Milliseconds()}
	r.spaces = append(r.spaces, st)
	r.mu.Unlock()
	// keep a sample: the first path of the space, verbosely
	c := r.exec(space, devBound, body, nil, nil, nil, true)
	r.mu.Lock()
	if len(r.samples) < 24 {
		tr := c.trace
		if len(tr) > 30 {
			tr = append(append([]string{}, tr[:29]...), "...")
		}
		r.samples = append(r.samples, map[string]any{"space": space, "path": c.describe(), "trace": tr})
	}
	r.mu.Unlock()
	r.writeStats(false)
}

func (r *Runner) over() bool {
	if time.Now().After(r.Deadline) {
		return true
	}
	if atomic.LoadInt64(&r.nfail) > 0 {
		r.mu.Lock()
		defer r.mu.Unlock()
		unlisted := 0
		for sig := range r.failures {
			if !Known(r.Property, sig) {
				unlisted++
			}
		}
		if unlisted > 0 && (unlisted >= 12 || time.Since(r.firstFail) > 15*time.Second) {
			return true
		}
	}
	return false
}

func (c *Ctx) describe() []string {
	var out []string
	for _, ch := range c.choices {
		out = append(out, fmt.Sprintf("%s=%d/%d", ch.label, ch.pick, ch.n))
	}
	return out
}

func (r *Runner) exec(space string, bound int, body func(*Ctx), prefix, between []int, w *worker, verbose bool) (c *Ctx) {
	c = &Ctx{r: r, space: space, prefix: prefix, bound: bound, w: w, verbose: verbose}
	if w != nil && w.slot != nil {
		w.slot.begin(space)
		defer w.slot.end()
	}
	if between != nil {
		c.between, c.body = between, body
	}
	c.run(body)
	return c
}

func (c *Ctx) run(body func(*Ctx)) {
	defer func() {
		if v := recover(); v != nil {
			switch v.(type) {
			case stopExec:
				return
			case divergence:
				atomic.AddInt64(&c.r.diverged, 1)
				return
			}
			fr := implFrame()
			c.failed = &Failure{Property: c.r.Property, Space: c.space, Sig: c.space + ":panic:" + shortFn(fr), Detail: fmt.Sprintf("panic: %v in %s", v, fr), Kind: "violation"}
			if c.verbose {
				c.trace = append(c.trace, string(debug.Stack()))
			}
		}
	}()
	body(c)
}

func shortFn(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return f
}

func picks(c *Ctx) []int {
	out := make([]int, len(c.choices))
	for i, ch := range c.choices {
		out[i] = ch.pick
	}
	return out
}

func better(a, b *Failure) bool {
	if a.Devs != b.Devs {
		return a.Devs < b.Devs
	}
	if len(a.Choices) != len(b.Choices) {
		return len(a.Choices) < len(b.Choices)
	}
	for i := range a.Choices {
		if a.Choices[i] != b.Choices[i] {
			return a.Choices[i] < b.Choices[i]
		}
	}
	return false
}

func (r *Runner) fail(c *Ctx, bound int, body func(*Ctx), before []int) {
	f := c.failed
	f.Between = c.between
	f.Choices = picks(c)
	f.Devs = c.devs
	f.Labels = c.describe()
	f.Tier = r.Tier
	r.mu.Lock()
	old := r.failures[f.Sig]
	if old != nil && !better(f, old) {
		r.mu.Unlock()
		return
	}
	r.mu.Unlock()
	// re-run the same path five times
	rep := 0
	var last *Ctx
	again := func() {
		for i := 0; i < 5; i++ {
			if f.Before != nil {
				r.exec(c.space, bound, body, f.Before, nil, nil, false)
			}
			c2 := r.exec(c.space, bound, body, f.Choices, f.Between, nil, true)
			if c2.failed != nil && c2.failed.Sig == f.Sig {
				rep++
				last = c2
			}
		}
	}
	again()
	if rep == 0 && before != nil {
		// it may depend on what ran before
		f.Before = before
		again()
	}
	f.Repro = rep
	if last != nil {
		f.Trace = last.trace
	} else {
		return // did not reproduce even once: not reported
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if old := r.failures[f.Sig]; old == nil || better(f, old) {
		if len(r.failures) < 200 || old != nil {
			r.failures[f.Sig] = f
		}
	}
	if !Known(r.Property, f.Sig) {
		if r.nfail == 0 {
			r.firstFail = time.Now()
		}
		atomic.AddInt64(&r.nfail, 1)
	}
}

func (r *Runner) replayOne(space string, bound int, body func(*Ctx)) {
	if r.replayBefore != nil {
		r.exec(space, bound, body, r.replayBefore, nil, nil, false)
	}
	c := r.exec(space, bound, body, r.replayChoices, r.replayBetween, nil, true)
	if c.failed != nil {
		c.failed.Choices = picks(c)
		c.failed.Labels = c.describe()
		c.failed.Trace = c.trace
		r.replayed = c.failed
	}
	if r.replayVerbose {
		fmt.Fprintln(os.Stderr, "path:", strings.Join(c.describe(), " "))
		for _, t := range c.trace {
			fmt.Fprintln(os.Stderr, "  ", t)
		}
		if c.failed != nil {
			fmt.Fprintf(os.Stderr, "FAILED sig=%s: %s\n", c.failed.Sig, c.failed.Detail)
		} else {
			fmt.Fprintln(os.Stderr, "no violation on this path")
		}
	}
}

// childResult is what the exploring process hands to its supervisor.
type childResult struct {
	Done        bool        `json:"done"`
	Failures    []*Failure  `json:"failures"`
	Spaces      []SpaceStat `json:"spaces"`
	Samples     []any       `json:"samples"`
	Validated   int64       `json:"validated"`
	Diverged    int64       `json:"diverged"`
	Assumptions []string    `json:"assumptions"`
}

func (r *Runner) writeStats(done bool) {
	path := os.Getenv("MC_RESULT")
	if path == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	res := childResult{Done: done, Spaces: r.spaces, Samples: r.samples, Validated: atomic.LoadInt64(&r.validated), Diverged: atomic.LoadInt64(&r.diverged), Assumptions: r.Assumptions}
	for _, f := range r.failures {
		res.Failures = append(res.Failures, f)
	}
	sort.Slice(res.Failures, func(i, j int) bool { return res.Failures[i].Sig < res.Failures[j].Sig })
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "stats:", err)
		return
	}
	_ = os.WriteFile(path+".tmp", b, 0o644)
	_ = os.Rename(path+".tmp", path)
}
