package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/internal"
	"github.com/mitch000001/go-hbci/verifmc/bank"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/wire"
)

// C23: clients do not influence each other.

// party is one client with its bank and the operation it runs.
type party struct {
	name    string
	w       *cworld
	op      *cop
	version int
	fault   int
	out     []string
	err     error
	panics  string
	log     []string
}

var secondsOf = regexp.MustCompile(`\+1:[0-9]{8}:[0-9]{6}`)

// what is sent, without the time of day
func timeless(raw string) string { return secondsOf.ReplaceAllString(raw, "+1:DATE:TIME") }

// How the clients are related to each other.
var relations23 = []string{"own banks", "one bank", "one user"}

func namesOf23(relations []int) string {
	var names []string
	for _, x := range relations {
		names = append(names, relations23[x])
	}
	return "with " + strings.Join(names, " or ")
}

// newParty makes client i running operation k of cops.
func newParty(c *engine.Ctx, i, k, fault, relation int) *party {
	op := cops()[k]
	version := []int{300, 220, 300}[i]
	p := &party{name: string(rune('A' + i)), op: op, version: op.impl[i%len(op.impl)], fault: fault}
	conf := client.Config{
		BankID: []string{wBank, "20000000", "30000000"}[i], AccountID: []string{wUser, "67890", "55555"}[i], PIN: []string{"43210", "11111", "99999"}[i],
		URL: "https://bank" + p.name + ".example/", HBCIVersion: version, ProductName: "prod" + p.name, ProductVersion: "1"}
	if relation > 0 {
		conf.BankID, conf.URL = wBank, "https://bank.example/"
	}
	if relation > 1 {
		conf.AccountID = wUser
	}
	p.w = newClientWorldOf(c, conf, []string{bank.Param(op.param, p.version)})
	n := 10 * (i + 1)
	p.w.onOrder = func(m *wire.Message, k int) ([]string, *bank.Reply) {
		switch {
		case fault == 1:
			return nil, &bank.Reply{Err: errors.New("line of " + p.name + " is down")}
		case fault == 2:
			return []string{bank.RMG(bank.Ack(9050, "Fehler von "+p.name))}, nil
		}
		rms := []wire.G{bank.Ack(20, "ok")}
		if op.pages && k == 0 {
			rms = append(rms, bank.Ack(3040, more, "M"+p.name))
		}
		return append([]string{bank.OK(), bank.RMS(4, rms...)}, op.render(4, p.version, []int{n + k*2 + 1, n + k*2 + 2})...), nil
	}
	if fault == 3 {
		p.w.greet = []string{bank.RMS(3, bank.Ack(9340, "PIN von "+p.name+" falsch"))}
	}
	return p
}

func (p *party) run() {
	p.panics = engine.Guard(func() { p.out, p.err = p.op.run(p.w, usualArgs()) })
}

// seen is everything a client sent and reported.
func (p *party) seen() string {
	var b strings.Builder
	for _, x := range p.w.bank.Log {
		fmt.Fprintf(&b, "%s %s\n", x.URL, timeless(x.Raw))
	}
	fmt.Fprintf(&b, "= %q %v %s", p.out, p.err, p.panics)
	return b.String()
}

// solos remembers what each client does alone.
var solos sync.Map

// Alone23 prints what a client does in a process of its own.
func Alone23(i, k, fault, relation int) {
	p := newParty(&engine.Ctx{}, i, k, fault, relation)
	p.run()
	fmt.Print(p.seen())
}

// solo is what client i does alone, found out in a process in which there has
// never been another client.
func solo(i, k, fault, relation int) string {
	key := fmt.Sprint(i, k, fault, relation)
	if v, ok := solos.Load(key); ok {
		return v.(string)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	out, err := exec.Command(exe, "alone23", fmt.Sprint(i), fmt.Sprint(k), fmt.Sprint(fault), fmt.Sprint(relation)).Output()
	if err != nil {
		panic(fmt.Sprintf("a client alone: %v", err))
	}
	v, _ := solos.LoadOrStore(key, string(out))
	return v.(string)
}

// Race23 runs two clients at the same time, without any order between them.
func Race23(k, l, fault, other, relation int, made bool) {
	if made {
		// without the locks of the loggers, which order accesses by chance
		internal.Debug.SetOutput(io.Discard)
		internal.Info.SetOutput(io.Discard)
	}
	for round := 0; round < 3; round++ {
		var ps [2]*party
		start := make(chan bool)
		var wg sync.WaitGroup
		for i, x := range [][2]int{{k, fault}, {l, other}} {
			i, x := i, x
			if made {
				ps[i] = newParty(&engine.Ctx{}, i, x[0], x[1], relation)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if ps[i] == nil {
					ps[i] = newParty(&engine.Ctx{}, i, x[0], x[1], relation)
				}
				ps[i].run()
			}()
		}
		close(start)
		wg.Wait()
	}
}

func c23(r *engine.Runner) {
	space := func(name string, parties int, which, relations []int, devs, faults int) {
		limit := fmt.Sprintf("at most %d deviations from running them one after the other", devs)
		if devs < 0 {
			limit = "without bound"
		}
		r.Explore(name, fmt.Sprintf("every interleaving of the exchanges of %d clients, %s, with their own protocols and PINs, each running one of %d operations, in one of %d ways of succeeding and failing; %s", parties, namesOf23(relations), len(which), faults+1, limit), devs, func(c *engine.Ctx) {
			var ps []*party
			relation := engine.Of(c, "relation", relations...)
			desc := fmt.Sprint(relation, ": ")
			for i := 0; i < parties; i++ {
				k := which[c.Choose(len(which), "operation")]
				f := 0
				if faults > 0 {
					f = c.Dev(faults+1, "fault")
				}
				p := newParty(c, i, k, f, relation)
				ps = append(ps, p)
				desc += fmt.Sprint(k, f, " ")
				p.log = []string{solo(i, k, f, relation)}
			}
			// the schedule: a client runs until its next exchange
			type event struct {
				i    int
				done bool
			}
			events := make(chan event)
			gates := make([]chan bool, parties)
			for i, p := range ps {
				i, p := i, p
				gates[i] = make(chan bool)
				p.w.bank.Gate = func(*bank.Exchange) {
					events <- event{i, false}
					<-gates[i]
				}
				go func() {
					<-gates[i]
					p.run()
					events <- event{i, true}
				}()
			}
			live := make([]int, parties)
			for i := range live {
				live[i] = i
			}
			order := ""
			last := 0
			for len(live) > 0 {
				// first the one that ran last, as long as it can
				for k, i := range live {
					if i == last {
						copy(live[1:k+1], live[:k])
						live[0] = i
					}
				}
				k := 0
				if len(live) > 1 {
					if devs < 0 {
						k = c.Choose(len(live), "next")
					} else {
						k = c.Dev(len(live), "next")
					}
				}
				last = live[k]
				order += ps[last].name
				gates[last] <- true
				if e := <-events; e.done {
					live = append(live[:k:k], live[k+1:]...)
				}
				c.State(desc + order)
			}
			c.Validated()
			for _, p := range ps {
				if p.panics != "" {
					c.Fail("panic", "order %s: %s", order, p.panics)
				}
				if got := p.seen(); got != p.log[0] {
					c.Fail("influence", "run in the order %s, client %s (%s) does\n%s\nalone it does\n%s", order, p.name, p.op.name, got, p.log[0])
				}
			}
		})
	}
	all := []int{0, 1, 2}
	space("two clients", 2, []int{0, 1, 2, 3, 4}, all, r.Pick(2, 4), 3)
	space("three clients", 3, []int{1, 3, 4}[:r.Pick(2, 3)], all[1:r.Pick(2, 3)], 2, 0)
	space("two clients, all schedules", 2, []int{4}, all, -1, 0)
	relations := all
	if !r.Thorough() {
		relations = []int{0, 2}
	}
	races23(r, relations)
}

// races23 looks for accesses to the same memory that no synchronisation puts in
// an order. Where there are none, what clients do between two exchanges cannot
// interleave in any way the spaces above do not have.
func races23(r *engine.Runner, relations []int) {
	var exe string
	if text := engine.Guard(func() { exe = tool23() }); text != "" {
		r.Assume("no program with the race detector can be made here: " + text)
		return
	}
	if out, err := exec.Command(exe, "race23", "0", "0", "0", "0", "0", "true").CombinedOutput(); err != nil && !bytes.Contains(out, []byte("DATA RACE")) {
		r.Assume(fmt.Sprintf("the race detector does not run here: %v %.300s", err, out))
		return
	}
	devs := r.Pick(1, 2)
	r.Explore("unordered accesses", fmt.Sprintf("every pair of %d operations of two clients that run at the same time, %s, made before or meanwhile, at most %d of them failing in one of 3 ways: the race detector decides whether their accesses to memory are ordered or disjoint", len(cops()), namesOf23(relations), devs), devs, func(c *engine.Ctx) {
		args := []string{"race23", fmt.Sprint(c.Choose(len(cops()), "operation")), fmt.Sprint(c.Choose(len(cops()), "operation")),
			fmt.Sprint(c.Dev(4, "fault")), fmt.Sprint(c.Dev(4, "fault")), fmt.Sprint(engine.Of(c, "relation", relations...)), fmt.Sprint(c.Bool("made before"))}
		c.State(fmt.Sprint(args))
		cmd := exec.Command(exe, args...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 atexit_sleep_ms=0")
		out, _ := cmd.CombinedOutput()
		c.Validated()
		for _, text := range strings.Split(string(out), "==================") {
			if !strings.Contains(text, "WARNING: DATA RACE") {
				continue
			}
			// the two accesses, by the innermost functions of the repository
			var at []string
			for _, part := range strings.Split(text, "\n\n") {
				if !accessOf.MatchString(part) {
					continue
				}
				for _, line := range strings.Split(part, "\n") {
					if m := repoFunc.FindStringSubmatch(line); m != nil && !strings.HasPrefix(m[1], "verifmc") {
						at = append(at, m[1])
						break
					}
				}
			}
			if len(at) < 2 {
				continue
			}
			sort.Strings(at)
			c.Fail("race:"+strings.Join(at, "/"), "two clients access the same memory without order:%s", text)
		}
	})
}

var (
	accessOf = regexp.MustCompile(`(?i)(read|write) at 0x`)
	repoFunc = regexp.MustCompile(`^\s+github\.com/mitch000001/go-hbci/(\S+)\(`)
)

// tool23 builds this explorer with the race detector.
func tool23() string {
	out := filepath.Join(toolDir(), "mcrace")
	if _, err := os.Stat(out); err == nil {
		return out
	}
	dir := os.Getenv("MC_SOURCE")
	if dir == "" {
		dir = filepath.Join(engine.Root, "mc")
	}
	mod := filepath.Join(toolDir(), "race.mod")
	for from, to := range map[string]string{"go.mod": "race.mod", "go.sum": "race.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, from))
		if err == nil {
			err = os.WriteFile(filepath.Join(toolDir(), to), b, 0o644)
		}
		if err != nil {
			panic(err)
		}
	}
	cmd := exec.Command("go", "build", "-race", "-modfile="+mod, "-o", out, ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1")
	if text, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("%v %.500s", err, text))
	}
	return out
}

func init() { engine.Register("C23", c23) }
