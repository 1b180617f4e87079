package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Root is /verif.
var Root = "/verif"

// ---- known findings -------------------------------------------------------

type finding struct{ prop, sig, what string }

var (
	knownOnce sync.Once
	known     []finding
)

func loadKnown() {
	knownOnce.Do(func() {
		f, err := os.Open(filepath.Join(Root, "known-findings.txt"))
		if err != nil {
			return
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			l := strings.TrimSpace(sc.Text())
			if !strings.HasPrefix(l, "finding: ") {
				continue
			}
			parts := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
			if len(parts) < 3 || !strings.HasPrefix(parts[0], "property=") || !strings.HasPrefix(parts[1], "sig=") {
				continue
			}
			known = append(known, finding{strings.TrimPrefix(parts[0], "property="), strings.TrimPrefix(parts[1], "sig="), parts[2]})
		}
	})
}

// Known says whether the failure is a listed finding.
func Known(prop, sig string) bool {
	loadKnown()
	for _, k := range known {
		if k.prop == prop && k.sig == sig {
			return true
		}
	}
	return false
}

func knownWhat(prop, sig string) string {
	for _, k := range known {
		if k.prop == prop && k.sig == sig {
			return k.what
		}
	}
	return ""
}

// ---- crash-safe record of the running case ---------------------------------

const slotSize = 8192

type slots struct{ mem []byte }

type slot struct{ b []byte }

func openSlots(path string, n int) (*slots, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(int64(n * slotSize)); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, n*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &slots{m}, nil
}

func (s *slots) at(i int) *slot { return &slot{s.mem[i*slotSize : (i+1)*slotSize]} }

// layout: [0]=active [1..4]=sequence [5]=len(space) [6..70]=space [72..75]=nchoices, then 2 bytes per choice
func (s *slot) begin(space string) {
	if len(space) > 64 {
		space = space[:64]
	}
	s.b[5] = byte(len(space))
	copy(s.b[6:], space)
	s.b[72], s.b[73] = 0, 0
	seq := uint32(s.b[1]) | uint32(s.b[2])<<8 | uint32(s.b[3])<<16 | uint32(s.b[4])<<24
	seq++
	s.b[1], s.b[2], s.b[3], s.b[4] = byte(seq), byte(seq>>8), byte(seq>>16), byte(seq>>24)
	s.b[0] = 1
}
func (s *slot) end() { s.b[0] = 0 }
func (s *slot) set(i, p int) {
	o := 76 + 2*i
	if o+1 >= slotSize {
		return
	}
	s.b[o], s.b[o+1] = byte(p), byte(p>>8)
	s.b[72], s.b[73] = byte(i+1), byte((i+1)>>8)
}
func (s *slot) read() (active bool, seq uint32, space string, choices []int) {
	active = s.b[0] == 1
	seq = uint32(s.b[1]) | uint32(s.b[2])<<8 | uint32(s.b[3])<<16 | uint32(s.b[4])<<24
	space = string(s.b[6 : 6+int(s.b[5])])
	n := int(s.b[72]) | int(s.b[73])<<8
	for i := 0; i < n && 76+2*i+1 < slotSize; i++ {
		choices = append(choices, int(s.b[76+2*i])|int(s.b[76+2*i+1])<<8)
	}
	return
}

// ---- child -----------------------------------------------------------------

const workers = 8

// Silence is set by the embedding binary to quiet the library under test.
var Silence = func() {}

func quietStdout() {
	log.SetOutput(io.Discard)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	Silence()
}

// Child explores; it is run by Supervise in a separate process.
func Child(id, tier string) {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(5 << 30)
	debug.SetGCPercent(1500)
	quietStdout()
	secs, _ := strconv.Atoi(os.Getenv("MC_BUDGET"))
	r := &Runner{Property: id, Tier: tier, Workers: workers, Deadline: time.Now().Add(time.Duration(secs) * time.Second), failures: map[string]*Failure{}}
	if p := os.Getenv("MC_SLOTS"); p != "" {
		s, err := openSlots(p, workers)
		if err == nil {
			r.slots = s
			go r.watch()
		}
	}
	if p := os.Getenv("MC_PROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
		}
	}
	checks[id].Run(r)
	pprof.StopCPUProfile()
	r.writeStats(true)
	os.Exit(0)
}

const hangAfter = 25 * time.Second

// watch ends the process when one execution spins for very long, or memory
// runs away; the supervisor then re-confirms the suspected case alone.
func (r *Runner) watch() {
	type last struct {
		seq   uint32
		since time.Time
	}
	seen := make([]last, workers)
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now()
		for i := 0; i < workers; i++ {
			act, seq, _, _ := r.slots.at(i).read()
			if !act || seq != seen[i].seq || seen[i].since.IsZero() {
				seen[i] = last{seq, now}
				continue
			}
			if now.Sub(seen[i].since) > hangAfter {
				r.writeStats(false)
				os.Exit(97)
			}
		}
		if rss() > 14<<30 {
			r.writeStats(false)
			os.Exit(98)
		}
	}
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// Replay runs one recorded path. Exit code 0: no violation, 10: violation.
func Replay(path string, verbose bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	debug.SetMaxStack(256 << 20)
	ck := checks[f.Property]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		return 2
	}
	tier := f.Tier
	if tier == "" {
		tier = "quick"
	}
	so := os.Stdout
	quietStdout()
	r := &Runner{Property: f.Property, Tier: tier, Workers: 1, Deadline: time.Now().Add(time.Hour), failures: map[string]*Failure{},
		replaySpace: f.Space, replayChoices: f.Choices, replayBetween: f.Between, replayBefore: f.Before, replayVerbose: verbose}
	ck.Run(r)
	os.Stdout = so
	if r.replayed != nil {
		return 10
	}
	return 0
}

// ---- supervisor --------------------------------------------------------------

// Supervise runs the check in a child, confirms crashes and hangs, writes the
// evidence, and prints the verdict.
func Supervise(id, tier string) int {
	start := time.Now()
	loadKnown()
	if checks[id] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	budget := 240
	if tier == "thorough" {
		budget = 780
	}
	if v, err := strconv.Atoi(os.Getenv("MC_BUDGET")); err == nil && v > 0 {
		budget = v
	}
	work, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	self, _ := os.Executable()
	result := filepath.Join(work, "result.json")
	slotf := filepath.Join(work, "slots")
	cmd := exec.Command(self, "child", id, tier)
	cmd.Env = append(os.Environ(), "MC_RESULT="+result, "MC_SLOTS="+slotf, fmt.Sprintf("MC_BUDGET=%d", budget), "GOTRACEBACK=single")
	errf, _ := os.Create(filepath.Join(work, "stderr"))
	cmd.Stdout, cmd.Stderr = nil, errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runErr := cmd.Run()
	errf.Close()

	var res childResult
	if b, err := os.ReadFile(result); err == nil {
		_ = json.Unmarshal(b, &res)
	}
	if runErr != nil || !res.Done {
		code := -1
		if cmd.ProcessState != nil {
			code = cmd.ProcessState.ExitCode()
		}
		tail, _ := os.ReadFile(filepath.Join(work, "stderr"))
		if len(tail) > 3000 {
			tail = append(append([]byte{}, tail[:1500]...), tail[len(tail)-1500:]...)
		}
		fmt.Fprintf(os.Stderr, "exploration of %s ended early (exit %d): %s\n", id, code, tail)
		// every case that was running when it ended is tried again alone
		if s, err := openSlots(slotf, workers); err == nil {
			for i := 0; i < workers; i++ {
				act, _, space, choices := s.at(i).read()
				if !act {
					continue
				}
				f := &Failure{Property: id, Space: space, Choices: choices, Kind: "crash", Tier: tier}
				kind, times := confirm(self, work, f)
				if kind == "" {
					continue
				}
				f.Kind = kind
				f.Repro = times
				f.Sig = fmt.Sprintf("%s:%s", space, kind)
				f.Detail = kind + " of the process while running this path"
				res.Failures = append(res.Failures, f)
			}
		}
	}

	var unlisted, listed []*Failure
	for _, f := range res.Failures {
		if Known(id, f.Sig) {
			listed = append(listed, f)
		} else {
			unlisted = append(unlisted, f)
		}
	}
	seed := 1
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = v
	}
	var states, edges, execs, outs int64
	exhaustive := res.Done
	for _, s := range res.Spaces {
		states += s.States
		edges += s.Edges
		execs += s.Executions
		outs += s.Outcomes
		exhaustive = exhaustive && s.Exhaustive
	}
	if res.Samples == nil {
		res.Samples = []any{}
	}
	cov := map[string]any{
		"states": states, "transitions": edges, "executions": execs, "distinct_outcomes": outs,
		"traces_validated_against_impl": res.Validated,
		"samples":                       res.Samples,
		"spaces":                        res.Spaces,
		"exhaustive":                    exhaustive,
		"diverged_paths":                res.Diverged,
		"known_findings_seen":           len(listed),
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": res.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(unlisted)}
	if res.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	evb, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Root, "evidence", id+".json"), append(evb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d states, %d distinct outcomes, %d traces compared, exhaustive=%v, %.1fs\n",
		id, tier, execs, edges, states, outs, res.Validated, exhaustive, time.Since(start).Seconds())
	for _, s := range res.Spaces {
		fmt.Printf("  space %-34s exec=%-9d states=%-8d outcomes=%-8d exhaustive=%v %dms  [%s]\n", s.Name, s.Executions, s.States, s.Outcomes, s.Exhaustive, s.WallMS, s.Bound)
	}
	for _, f := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s sig=%s %s\n", id, f.Sig, knownWhat(id, f.Sig))
	}
	if len(unlisted) == 0 {
		if !res.Done {
			fmt.Printf("note: the exploring process ended early and no case reproduced alone\n")
		}
		return 0
	}
	sort.Slice(unlisted, func(i, j int) bool { return better(unlisted[i], unlisted[j]) })
	dir := filepath.Join(Root, "replays")
	_ = os.MkdirAll(dir, 0o755)
	for i, f := range unlisted {
		if i >= 12 {
			break
		}
		name := fmt.Sprintf("%s-%02d.json", id, i)
		b, _ := json.MarshalIndent(f, "", " ")
		p := filepath.Join(dir, name)
		_ = os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		d := f.Detail
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		fmt.Printf("    sig=%s  (%d/5 re-runs)\n    %s\n", f.Sig, f.Repro, d)
	}
	return 1
}

// confirm re-runs one case alone, twice, with a CPU-time limit, and says how it ends.
func confirm(self, work string, f *Failure) (string, int) {
	p := filepath.Join(work, "suspect.json")
	b, _ := json.Marshal(f)
	_ = os.WriteFile(p, b, 0o644)
	n := 0
	kind := ""
	for i := 0; i < 2; i++ {
		// 20 s of CPU time, 10 GB of address space beyond what Go maps at start
		cmd := exec.Command("bash", "-c", fmt.Sprintf("ulimit -t 20; ulimit -v %d; exec %q replay1 %q", 16<<20, self, p))
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var killed atomic.Bool
		if err := cmd.Start(); err != nil {
			return "", 0
		}
		t := time.AfterFunc(90*time.Second, func() { killed.Store(true); _ = cmd.Process.Kill() })
		_ = cmd.Wait()
		t.Stop()
		ws, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
		switch {
		case ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL):
			kind = "hang"
			n++
		case killed.Load():
			kind = "hang"
			n++
		case ws.Signaled():
			kind = "crash"
			n++
		case ws.ExitStatus() == 2:
			kind = "crash"
			n++
		}
	}
	if n < 2 {
		return "", n
	}
	return kind, n
}
