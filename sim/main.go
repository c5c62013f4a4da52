package main

// Driver: the supervisor (check), the workers that carry out simulated runs, replay and shrinking.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"github.com/williamflynt/topolith/pkg/world"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type propDef struct {
	id              string
	gen             func(prop string, seed uint64) *Plan
	newChecker      func() Checker
	quick, thorough int // runs
	rule            string
	race            int // of so many runs one more is made with the race detector; 0: none
}

var props = map[string]*propDef{}

func reg(id string, gen func(string, uint64) *Plan, chk func(string) Checker, quick, thorough int, rule string) {
	props[id] = &propDef{id: id, gen: gen, newChecker: func() Checker { return chk(id) }, quick: quick, thorough: thorough, rule: rule}
}

func init() {
	store := func(p string) Checker { return newStoreChk(p) }
	state := func(p string) Checker { return newStateChk(p) }
	const sg = "one run per seed: 1-4 simulated processes with random save/load/list operations over random names, contents and directories, a random schedule of their system calls and a random fault profile (swarm); non-trivial: "
	const tg = "one run per seed: one simulated process driving a random command history (random identifiers, attributes, quoting, command mix, map iteration order; swarm weights) with restarts; non-trivial: "
	const dist = "; distinct: different hash of the whole event history"
	reg("C01", storePlan, store, 60000, 700000, sg+"at least one save was killed or failed in the middle"+dist)
	reg("C02", storePlan, store, 24000, 300000, sg+"a save was acknowledged and power was cut after it (really or on a copy of the disk)"+dist)
	reg("C03", storePlan, store, 60000, 800000, sg+"a fault fired and at least one operation completed"+dist)
	reg("C05", storePlan, store, 40000, 450000, sg+"more than one save acknowledged and at least one load, from at least two processes"+dist)
	reg("C06", storePlan, store, 30000, 350000, sg+"whole-disk footprint compared after more than two operations"+dist)
	reg("C07", storePlan, store, 30000, 350000, sg+"a save was acknowledged and a listing made"+dist)
	reg("C08", storePlan, store, 25000, 300000, sg+"faults fired, then fault-free operations were judged"+dist)
	reg("C09", storePlan, store, 60000, 800000, sg+"a damaged file was loaded"+dist)
	reg("C04", statePlan, state, 40000, 600000, tg+"a world was saved, reloaded in a fresh instance and driven further in parallel with the original"+dist)
	reg("C10", statePlan, state, 50000, 800000, tg+"more than three commands and more than two distinct world states"+dist)
	reg("C11", statePlan, state, 50000, 800000, tg+"more than three commands and more than two distinct world states"+dist)
	reg("C12", statePlan, state, 50000, 800000, tg+"more than two queries"+dist)
	reg("C13", statePlan, state, 50000, 800000, tg+"more than three commands and more than two distinct world states"+dist)
	reg("C14", statePlan, state, 50000, 700000, tg+"at least one command was answered with an error"+dist)
	reg("C15", statePlan, state, 50000, 800000, tg+"at least one command was undone"+dist)
	reg("C16", statePlan, state, 70000, 1000000, tg+"at least one effective undo and one effective redo"+dist)
	reg("C17", statePlan, state, 30000, 400000, tg+"more than three commands compared between replicas"+dist)
	reg("C18", statePlan, state, 50000, 700000, tg+"more than two lines that are not plain commands"+dist)
	reg("C19", statePlan, state, 30000, 400000, tg+"more than three untouched worlds compared"+dist)
	reg("C20", statePlan, state, 30000, 400000, tg+"more than ten texts read by another simulated process"+dist)
	reg("C23", statePlan, state, 50000, 800000, tg+"more than five direct calls and a query among them"+dist)
	reg("C24", treePlan, state, 30000, 500000, "one run per seed: one simulated process with one to three hierarchies, read from texts (empty, without and with an item at the root), and random additions, moves and removals at random places of them, under a random map iteration order; non-trivial: more than four calls, one of them a move"+dist)
	reg("C25", threadPlan, func(p string) Checker { return &threadChk{cnt: map[string]int{}} }, 30000, 400000, "one run per seed: 2-4 threads of one simulated process, each with one or two worlds of its own, random commands, lines, texts read and printed, saves and loads under names of their own; preempted at statements of the code under test drawn from the seed; non-trivial: more than four operations compared with the thread alone and more than one preemption"+dist)
	props["C25"].race = 10
	reg("C26", errPlan, func(p string) Checker { return &errChk{cnt: map[string]int{}, threads: map[int]bool{}} }, 100000, 2000000, "one run per seed: 1-3 threads of one simulated process making errors out of the errors made so far (code, description, data, causes, joined, or one the library made), preempted at statements of the code under test drawn from the seed; non-trivial: more than five errors, three of them made by adding data or causes"+dist)
	front := func(p string) Checker { return &frontChk{prop: p, cnt: map[string]int{}} }
	reg("C21", frontPlan, front, 40000, 600000, "one run per seed: 1-3 simulated pages, each running the bridge program inside a small JavaScript host, called with random lines in a random order, page reloads, a failing console output; non-trivial: more than two successful commands and an invalid line"+dist)
	reg("C22", frontPlan, front, 40000, 600000, "one run per seed: 1-3 simulated consoles, each running the console program at a simulated terminal, random lines typed, sessions left and started again, standard output failing, short or interrupted; non-trivial: more than two successful commands and an invalid line"+dist)
}

func planFor(prop string, base uint64, idx int) *Plan {
	p := props[prop].gen(prop, mix(base, uint64(idx), strHash(prop)))
	p.Race = idx >= raceBase && p.Threads
	return p
}

// runs from this number on are carried out by the build with the race detector
const raceBase = 10_000_000

func explicit(p *Plan) *Plan {
	q := *p
	q.Replay = true
	return &q
}

// runOut is what a worker reports about one run.
type runOut struct {
	I     int            `json:"i"`
	H     uint64         `json:"h"`
	IH    uint64         `json:"ih"`
	Steps int            `json:"steps"`
	SimNs int64          `json:"ns"`
	NT    bool           `json:"nt"`
	Ops   int            `json:"ops"`
	Stats map[string]int `json:"s,omitempty"`
	Class string         `json:"class,omitempty"`
	Msg   string         `json:"msg,omitempty"`
	Plan  *Plan          `json:"plan,omitempty"`
	Herr  string         `json:"herr,omitempty"`
}

func simSetup() {
	os.Setenv("HOME", "/home/u")
	os.Unsetenv("TMPDIR")
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "XDG_") || strings.HasPrefix(e, "TOPOLITH") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	// fill the package's caches: making an entry walks maps
	json.Marshal(map[string]any{"a": struct{ B map[string]string }{}})
	for _, v := range []any{world.Item{}, world.Rel{}, world.ItemParams{}, world.RelParams{}, []string{}} {
		json.Marshal(v)
	}
	syscall.SimHook = hook
	time.SimNow = func() int64 {
		if theSim != nil {
			return theSim.clock
		}
		return 0
	}
	time.SimSleep = func(ns int64) {
		k, inc := theSim, currentInc()
		if k == nil || inc == nil || inc.dead {
			runtime.Goexit()
		}
		if inc.probe {
			return
		}
		if g := k.post(&request{inc: inc, kind: 'w', a1: uintptr(ns)}); g.die {
			runtime.Goexit()
		}
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2500 << 20)
	grow(32)
}

var sinceGC int

func maybeGC() {
	sinceGC++
	if sinceGC%64 == 0 {
		runtime.GC()
	}
}

func runPlan(p *Plan, tracing bool) *RunResult {
	r := execute(p, tracing)
	maybeGC()
	return r
}

func outOf(i int, p *Plan, r *RunResult) *runOut {
	o := &runOut{I: i, H: r.Hash, IH: r.IHash, Steps: r.Steps, SimNs: r.SimNs, NT: r.Nontrivial, Ops: len(r.Evs), Stats: r.Stats, Herr: r.Herr}
	if r.Viol != nil {
		o.Class, o.Msg = r.Viol.Class, r.Viol.Msg
		o.Plan = explicit(p)
	}
	return o
}

func worker(a []string) {
	prop := a[0]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	from, _ := strconv.Atoi(a[2])
	stride, _ := strconv.Atoi(a[3])
	count, _ := strconv.Atoi(a[4])
	simSetup()
	w := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(w)
	for i := from; i < count; i += stride {
		fmt.Fprintf(w, "B %d\n", i)
		w.Flush()
		p := planFor(prop, seed, i)
		r := runPlan(p, false)
		enc.Encode(outOf(i, p, r))
		if r.Viol != nil {
			w.Flush()
		}
	}
	w.Flush()
}

// ---- shrinking -------------------------------------------------------------------------

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

type shrinker struct {
	best  *Plan
	class string
	until time.Time
	n     int
	max   int
	save  func(*Plan)
}

func (s *shrinker) over() bool { return s.n >= s.max || time.Now().After(s.until) }

func (s *shrinker) try(mod func(p *Plan) bool) bool {
	if s.over() {
		return false
	}
	p := clonePlan(s.best)
	if !mod(p) {
		return false
	}
	s.n++
	r := runPlan(p, false)
	if r.Viol != nil && r.Viol.Class == s.class {
		s.best = p
		if s.save != nil {
			s.save(p)
		}
		return true
	}
	return false
}

func (s *shrinker) lists(get func(p *Plan) int, cut func(p *Plan, i, n int)) bool {
	any := false
	for sz := get(s.best) / 2; sz >= 1; sz /= 2 {
		for i := get(s.best) - sz; i >= 0; i -= sz {
			if i+sz > get(s.best) {
				continue
			}
			if s.try(func(p *Plan) bool { cut(p, i, sz); return true }) {
				any = true
			}
			if s.over() {
				return any
			}
		}
	}
	return any
}

func (s *shrinker) run() {
	// operations after the violation play no part
	r := runPlan(clonePlan(s.best), false)
	if r.Viol == nil || r.Viol.Class != s.class {
		return
	}
	s.try(func(p *Plan) bool {
		seen := map[int]bool{}
		for _, e := range r.Evs {
			seen[e.Op.U] = true
		}
		for i, ops := range p.Procs {
			for j, o := range ops {
				if !seen[o.U] {
					p.Procs[i] = ops[:j]
					break
				}
			}
		}
		return true
	})
	for round := 0; round < 4 && !s.over(); round++ {
		any := false
		any = s.lists(func(p *Plan) int { return len(p.Faults) }, func(p *Plan, i, n int) {
			p.Faults = append(p.Faults[:i:i], p.Faults[i+n:]...)
		}) || any
		any = s.lists(func(p *Plan) int { return len(p.Preempt) }, func(p *Plan, i, n int) {
			p.Preempt = append(p.Preempt[:i:i], p.Preempt[i+n:]...)
		}) || any
		for pi := range s.best.Procs {
			any = s.lists(func(p *Plan) int { return len(p.Procs[pi]) }, func(p *Plan, i, n int) {
				p.Procs[pi] = append(p.Procs[pi][:i:i], p.Procs[pi][i+n:]...)
			}) || any
		}
		// schedule: shorter, then calmer
		for n := len(s.best.Sched); n > 0; n /= 2 {
			c := len(s.best.Sched) - n
			if c >= 0 && s.try(func(p *Plan) bool { p.Sched = p.Sched[:c]; return true }) {
				any = true
				n = len(s.best.Sched) * 2
				if n == 0 {
					break
				}
			}
		}
		for i := 0; i < len(s.best.Sched) && i < 400; i++ {
			if s.best.Sched[i] != 0 && s.try(func(p *Plan) bool { p.Sched[i] = 0; return true }) {
				any = true
			}
		}
		for _, f := range []func(p *Plan) bool{
			func(p *Plan) bool { ch := p.Cap != 0; p.Cap = 0; return ch },
			func(p *Plan) bool { ch := p.DirBatch != 0; p.DirBatch = 0; return ch },
			func(p *Plan) bool { ch := p.OwnDir; p.OwnDir = false; return ch },
			func(p *Plan) bool { ch := p.MinSync && !p.OwnDir; p.MinSync = false; return ch },
			func(p *Plan) bool { ch := p.DtUnknown; p.DtUnknown = false; return ch },
			func(p *Plan) bool {
				ch := p.Setup != nil && (p.Setup.Clutter || p.Setup.NoDir || p.Setup.Many > 0)
				p.Setup = &Setup{}
				return ch
			},
		} {
			s.try(f)
		}
		// simpler operations
		for pi := range s.best.Procs {
			for oi := 0; oi < len(s.best.Procs[pi]); oi++ {
				o := s.best.Procs[pi][oi]
				for _, f := range []func(o *Op) bool{
					func(o *Op) bool { ch := o.K == "save" && o.X > 0; o.X = 0; return ch },
					func(o *Op) bool { ch := o.K == "bulk" && o.T > 2; o.T = (o.T + 1) / 2; return ch },
					func(o *Op) bool { ch := o.K == "bulk" && o.T > 2; o.T -= o.T/4 + 1; return ch },
					func(o *Op) bool { ch := o.K == "bulk" && o.T > 2; o.T--; return ch },
					func(o *Op) bool {
						ch := o.C != nil && o.C.Style != 0
						if ch {
							o.C.Style = 0
						}
						return ch
					},
					func(o *Op) bool {
						ch := o.C != nil && len(o.C.Par) > 0
						if ch {
							o.C.Par = nil
						}
						return ch
					},
					func(o *Op) bool {
						ch := o.C != nil && len(o.C.Par) > 1
						if ch {
							o.C.Par = o.C.Par[:1]
						}
						return ch
					},
					func(o *Op) bool {
						ch := o.C != nil && len(o.C.Par) > 1
						if ch {
							o.C.Par = o.C.Par[1:]
						}
						return ch
					},
					func(o *Op) bool {
						ch := o.C != nil && len(o.C.Ids) > 1
						if ch {
							o.C.Ids = o.C.Ids[:1]
						}
						return ch
					},
					func(o *Op) bool {
						ch := o.C != nil && len(o.C.Ids) > 1
						if ch {
							o.C.Ids = o.C.Ids[1:]
						}
						return ch
					},
				} {
					_ = o
					if s.try(func(p *Plan) bool { return f(p.Procs[pi][oi]) }) {
						any = true
					}
				}
			}
		}
		// rename identifiers everywhere
		for _, c := range idsOf(s.best) {
			if len(c) > 1 {
				for _, short := range []string{"a", "b", "c", "d", "e", "f"} {
					if s.try(func(p *Plan) bool { return rename(p, c, short) }) {
						any = true
						break
					}
				}
			}
		}
		if !any {
			break
		}
	}
}

func idsOf(p *Plan) []string {
	m := map[string]int{}
	for _, ops := range p.Procs {
		for _, o := range ops {
			if o.C != nil {
				m[o.C.A]++
				m[o.C.B]++
				for _, i := range o.C.Ids {
					m[i]++
				}
			}
		}
	}
	return sortedKeys(m)
}

func rename(p *Plan, from, to string) bool {
	for _, i := range idsOf(p) {
		if i == to {
			return false
		}
	}
	f := func(s *string) {
		if *s == from {
			*s = to
		}
	}
	for _, ops := range p.Procs {
		for _, o := range ops {
			if o.C != nil {
				f(&o.C.A)
				f(&o.C.B)
				for i := range o.C.Ids {
					f(&o.C.Ids[i])
				}
			}
		}
	}
	return true
}

func shrinkCmd(in, out, class string, secs int) {
	simSetup()
	b, err := os.ReadFile(in)
	if err != nil {
		os.Exit(2)
	}
	var p Plan
	if json.Unmarshal(b, &p) != nil {
		os.Exit(2)
	}
	s := &shrinker{best: &p, class: class, until: time.Now().Add(time.Duration(secs) * time.Second), max: 4000}
	last := time.Now()
	write := func(p *Plan) {
		b, _ := json.MarshalIndent(p, "", " ")
		os.WriteFile(out+".tmp", b, 0644)
		os.Rename(out+".tmp", out)
	}
	s.save = func(p *Plan) {
		if time.Since(last) > time.Second {
			last = time.Now()
			write(p)
		}
	}
	s.run()
	r := runPlan(clonePlan(s.best), true)
	s.best.Trace = r.Trace
	if len(s.best.Trace) > 400 {
		s.best.Trace = s.best.Trace[len(s.best.Trace)-400:]
	}
	if r.Viol != nil {
		s.best.Note = r.Viol.Class + ": " + r.Viol.Msg
	}
	write(s.best)
}

// ---- supervisor ------------------------------------------------------------------------

func selfCmd(args ...string) *exec.Cmd { return simCmd(raceBuild, args...) }

func raceBin() string { return os.Getenv("VERIF_RACE_BIN") }

func simCmd(race bool, args ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	if race {
		exe = raceBin()
		os.Setenv("GORACE", "log_path="+os.Getenv("VERIF_RACE_LOG")+" exitcode=0 atexit_sleep_ms=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0")
	}
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=gcshrinkstackoff=1,asyncpreemptoff=1", "GOTRACEBACK=single")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c
}

func cpuOf(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	y, _ := strconv.ParseFloat(f[12], 64)
	return (u + y) / 100
}

type trouble struct {
	idx  int
	kind string // "crash", "hang"
	text string
}

type super struct {
	prop     string
	seed     uint64
	tier     string
	mu       sync.Mutex
	outs     []*runOut
	troubles []trouble
	stop     bool
	deadline time.Time
	race     bool
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<17 {
		// keep the head of a crash report: it comes last but is short
		t.b = append([]byte{}, t.b[len(t.b)-1<<16:]...)
	}
	return len(p), nil
}

func (t *tailBuf) crash() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	for _, m := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds"} {
		if i := strings.LastIndex(s, m); i >= 0 {
			s = s[i:]
			if j := strings.IndexByte(s, '\n'); j > 0 {
				return s[:j]
			}
			return s
		}
	}
	return ""
}

// fatal says whether a dead worker died of something the code under test did (not of our own panic).
func selfMade(text string) bool { return strings.HasPrefix(text, "panic: ") }

func (s *super) runWorker(first, stride, count int) {
	next := first
	for next < count {
		s.mu.Lock()
		stop := s.stop
		s.mu.Unlock()
		if stop || time.Now().After(s.deadline) {
			return
		}
		c := simCmd(s.race, "worker", s.prop, fmt.Sprint(s.seed), fmt.Sprint(next), fmt.Sprint(stride), fmt.Sprint(count))
		tb := &tailBuf{}
		c.Stderr = tb
		rd, err := c.StdoutPipe()
		if err != nil {
			return
		}
		if err := c.Start(); err != nil {
			s.mu.Lock()
			s.troubles = append(s.troubles, trouble{-1, "harness", "cannot start worker: " + err.Error()})
			s.mu.Unlock()
			return
		}
		var mu sync.Mutex
		cur, curCPU, fin := -1, 0.0, false
		killed := ""
		done := make(chan bool)
		go func() { // watchdog
			t := time.NewTicker(300 * time.Millisecond)
			defer t.Stop()
			for {
				select {
				case <-done:
					return
				case <-t.C:
				}
				s.mu.Lock()
				stop := s.stop
				s.mu.Unlock()
				if stop || time.Now().After(s.deadline) {
					mu.Lock()
					killed = "stop"
					mu.Unlock()
					c.Process.Kill()
					return
				}
				cpu := cpuOf(c.Process.Pid)
				mu.Lock()
				hang := cur >= 0 && cpu-curCPU > 20
				if hang {
					killed = "hang"
				}
				mu.Unlock()
				if hang {
					c.Process.Kill()
					return
				}
			}
		}()
		br := bufio.NewReaderSize(rd, 1<<20)
		for {
			line, err := br.ReadString('\n')
			if err != nil {
				break
			}
			if strings.HasPrefix(line, "B ") {
				n, _ := strconv.Atoi(strings.TrimSpace(line[2:]))
				cpu := cpuOf(c.Process.Pid)
				mu.Lock()
				cur, curCPU = n, cpu
				mu.Unlock()
				continue
			}
			var o runOut
			if json.Unmarshal([]byte(line), &o) != nil {
				continue
			}
			s.mu.Lock()
			s.outs = append(s.outs, &o)
			if (o.Class != "" || o.Herr != "") && os.Getenv("VERIF_SURVEY") == "" {
				s.stop = true
			}
			s.mu.Unlock()
			mu.Lock()
			if o.I == cur {
				cur = -1
				next = o.I + stride
			}
			fin = next >= count
			mu.Unlock()
		}
		err = c.Wait()
		close(done)
		mu.Lock()
		k, at, f := killed, cur, fin
		mu.Unlock()
		if k == "stop" {
			return
		}
		if f && err == nil {
			return
		}
		if at < 0 {
			if err != nil {
				s.mu.Lock()
				s.troubles = append(s.troubles, trouble{-1, "harness", "worker ended between runs: " + err.Error() + " " + tb.crash()})
				s.stop = true
				s.mu.Unlock()
			}
			return
		}
		kind := "crash"
		if k == "hang" {
			kind = "hang"
		}
		s.mu.Lock()
		s.troubles = append(s.troubles, trouble{at, kind, tb.crash()})
		s.stop = true
		s.mu.Unlock()
		return
	}
}

func isRace(file string) bool {
	p, err := readPlan(file)
	return err == nil && p.Race
}

// single runs one plan file in a fresh process; kind is "" (finished), "hang" or "crash".
func single(file string) (o *runOut, kind, text string) {
	c := simCmd(isRace(file), "one", file)
	tb := &tailBuf{}
	c.Stderr = tb
	rd, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		return nil, "harness", err.Error()
	}
	done := make(chan bool)
	hang := false
	var mu sync.Mutex
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				if cpuOf(c.Process.Pid) > 20 {
					mu.Lock()
					hang = true
					mu.Unlock()
					c.Process.Kill()
					return
				}
			}
		}
	}()
	b, _ := io.ReadAll(rd)
	err := c.Wait()
	close(done)
	mu.Lock()
	defer mu.Unlock()
	if hang {
		return nil, "hang", "uses more than 20 s of processor time"
	}
	var r runOut
	for _, l := range strings.Split(string(b), "\n") {
		if json.Unmarshal([]byte(l), &r) == nil && strings.HasPrefix(l, "{") {
			return &r, "", ""
		}
	}
	if err != nil {
		return nil, "crash", tb.crash()
	}
	return nil, "harness", "no result"
}

func writePlan(file string, p *Plan) {
	b, _ := json.MarshalIndent(p, "", " ")
	os.WriteFile(file, b, 0644)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ prop, class, match, text string }

// knownFindings reads "finding: property=Cxx class=<class> match=<substring of the message> :: <description>".
func knownFindings() (l []known) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, s := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(s, "finding: ") {
			continue
		}
		k := known{}
		for _, f := range strings.Fields(strings.SplitN(s, "::", 2)[0]) {
			if strings.HasPrefix(f, "property=") {
				k.prop = f[9:]
			}
			if strings.HasPrefix(f, "class=") {
				k.class = f[6:]
			}
		}
		if i := strings.Index(s, " match="); i >= 0 {
			k.match = strings.TrimSpace(strings.SplitN(s[i+7:], "::", 2)[0])
		}
		if p := strings.SplitN(s, "::", 2); len(p) == 2 {
			k.text = strings.TrimSpace(p[1])
		}
		l = append(l, k)
	}
	return
}

func check(prop string) int {
	pd := props[prop]
	if pd == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	start := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(v)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	count, limit := pd.quick, 110*time.Second
	if tier == "thorough" {
		count, limit = pd.thorough, 780*time.Second
	}
	if v := os.Getenv("VERIF_RUNS"); v != "" {
		count, _ = strconv.Atoi(v)
	}
	if v := os.Getenv("VERIF_LIMIT"); v != "" {
		n, _ := strconv.Atoi(v)
		limit = time.Duration(n) * time.Second
	}
	fmt.Printf("check %s tier=%s VERIF_SEED=%d runs=%d\n", prop, tier, seed, count)
	s := &super{prop: prop, seed: seed, tier: tier, deadline: start.Add(limit)}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if v := os.Getenv("VERIF_WORKERS"); v != "" {
		nw, _ = strconv.Atoi(v)
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); s.runWorker(i, nw, count) }(i)
	}
	wg.Wait()
	searchWall := time.Since(start).Seconds()
	rs := &super{prop: prop, seed: seed, tier: tier, deadline: start.Add(limit + limit/5), race: true}
	if pd.race > 0 && !s.stop {
		if raceBin() == "" {
			fmt.Println("NOTE: there is no build with the race detector; the runs with it are left out")
		} else {
			n := count / pd.race
			for i := 0; i < nw; i++ {
				wg.Add(1)
				go func(i int) { defer wg.Done(); rs.runWorker(raceBase+i, nw, raceBase+n) }(i)
			}
			wg.Wait()
			sort.Slice(rs.outs, func(a, b int) bool { return rs.outs[a].I < rs.outs[b].I })
			s.troubles = append(s.troubles, rs.troubles...)
			fmt.Printf("with the race detector: %d runs, %.1f s\n", len(rs.outs), time.Since(start).Seconds()-searchWall)
		}
	}
	sort.Slice(s.outs, func(a, b int) bool { return s.outs[a].I < s.outs[b].I })
	if os.Getenv("VERIF_SURVEY") != "" { // development aid: which classes of violation occur, how often
		n, ex := map[string]int{}, map[string]*runOut{}
		for _, o := range append(s.outs, rs.outs...) {
			c := o.Class
			if o.Herr != "" {
				c = "harness"
				o.Msg = o.Herr
			}
			n[c]++
			if e := ex[c]; e == nil || len(o.Msg) < len(e.Msg) {
				ex[c] = o
			}
		}
		for _, c := range sortedKeys(n) {
			fmt.Printf("%6d %-18s run %d: %s\n", n[c], c, ex[c].I, ex[c].Msg)
		}
		for _, t := range s.troubles {
			fmt.Println("trouble", t.idx, t.kind, t.text)
		}
		return 0
	}
	rdir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(rdir, 0755)
	viols := 0
	code := 0
	var doubts []string // what was seen and did not happen again
	report := func(class, msg string, p *Plan, idx int) {
		base := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", prop, seed, idx))
		p.Note = class + ": " + msg
		writePlan(base, p)
		final := base
		if class != "hang" && class != "crash" {
			small := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d-min.json", prop, seed, idx))
			os.Remove(small)
			c := simCmd(p.Race, "shrink", base, small, class, "25")
			c.Start()
			t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
			c.Wait()
			t.Stop()
			if _, err := os.Stat(small); err == nil {
				if o, kind, _ := single(small); kind == "" && o.Class == class {
					final, msg = small, o.Msg
				}
			}
			if final == base {
				if o, kind, text := single(base); kind != "" || o.Class != class {
					got := kind + " " + text
					if o != nil {
						got = o.Class + " " + o.Msg
					}
					doubts = append(doubts, fmt.Sprintf("run %d violates %s (%s: %s) but its replay gives: %s", idx, prop, class, msg, got))
					return
				}
			}
		}
		viols++
		fmt.Printf("%s run %d (seed %d): %s: %s\n", prop, idx, seed, class, msg)
		fmt.Printf("replay with: /verif/check.sh replay %s\n", final)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, final)
		code = 1
	}
	seenKnown := map[string]bool{}
	kf := knownFindings()
	for _, o := range append(append([]*runOut{}, s.outs...), rs.outs...) {
		if o.Class == "" || code != 0 || len(doubts) >= 8 {
			continue
		}
		isKnown := false
		for _, k := range kf {
			if k.prop == prop && k.class == o.Class && k.match != "" && strings.Contains(o.Msg, k.match) {
				isKnown = true
				if !seenKnown[k.text] {
					seenKnown[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
			}
		}
		if !isKnown {
			report(o.Class, o.Msg, o.Plan, o.I)
		}
	}
	if code == 0 {
		for _, t := range s.troubles {
			if t.idx < 0 || t.kind == "harness" || t.kind == "crash" && selfMade(t.text) && false {
				fmt.Printf("HARNESS ERROR: %s\n", t.text)
				code = 2
				break
			}
			// reproduce in fresh processes; the plan is the seed itself
			f := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", prop, seed, t.idx))
			p := planFor(prop, seed, t.idx)
			p.Note = t.kind + ": " + t.text
			writePlanProf(f, p)
			o1, k1, x1 := single(f)
			_, k2, x2 := single(f)
			if k1 == t.kind && k2 == t.kind {
				msg := "the process is brought down: " + x1
				if t.kind == "hang" {
					msg = "an operation does not finish: " + x1
				}
				viols++
				fmt.Printf("%s run %d (seed %d): %s: %s\n", prop, t.idx, seed, t.kind, msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
				code = 1
				break
			}
			if k1 == "" && o1.Class != "" {
				report(o1.Class, o1.Msg, p, t.idx)
				break
			}
			if k1 == "" && k2 == "" {
				fmt.Printf("NOTE: run %d ended with %s (%s), which did not happen again in two more processes\n", t.idx, t.kind, t.text)
				continue
			}
			fmt.Printf("HARNESS ERROR: run %d ended with %s (%s), not reproduced: %s %s / %s %s\n", t.idx, t.kind, t.text, k1, x1, k2, x2)
			code = 2
			break
		}
	}
	if code == 0 {
		for _, o := range append(append([]*runOut{}, s.outs...), rs.outs...) {
			if o.Herr != "" {
				fmt.Printf("HARNESS ERROR: run %d: %s\n", o.I, o.Herr)
				code = 2
				break
			}
		}
	}
	if code == 0 && len(doubts) > 0 {
		fmt.Printf("HARNESS ERROR: %s\n", doubts[0])
		code = 2
	}
	// determinism: some runs again, in one other process, in another order of company
	redo, diff := 0, 0
	if code == 0 {
		redo, diff = determinism(prop, seed, s.outs)
		if diff > 0 {
			fmt.Printf("NOTE: %d of %d runs differ when executed again: the code has nondeterminism of its own\n", diff, redo)
		}
	}
	writeEvidence(pd, s, rs, tier, seed, count, searchWall, time.Since(start).Seconds(), viols, redo, diff, nw)
	if code == 0 {
		nt := 0
		for _, o := range s.outs {
			if o.NT {
				nt++
			}
		}
		if len(s.outs) == 0 || nt == 0 {
			fmt.Println("HARNESS ERROR: nothing was explored")
			return 2
		}
		fmt.Printf("ok %s: %d runs, %d non-trivial, %.1f s\n", prop, len(s.outs), nt, time.Since(start).Seconds())
	}
	return code
}

// plans with a fault profile need the profile in the file
type planFile struct {
	*Plan
	Profile *Profile `json:"profile,omitempty"`
}

func writePlanProf(file string, p *Plan) {
	b, _ := json.MarshalIndent(planFile{p, p.Prof}, "", " ")
	os.WriteFile(file, b, 0644)
}

func readPlan(file string) (*Plan, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	pf := planFile{Plan: &Plan{}}
	if err := json.Unmarshal(b, &pf); err != nil {
		return nil, err
	}
	pf.Plan.Prof = pf.Profile
	if props[pf.Plan.Prop] == nil {
		return nil, fmt.Errorf("unknown property %q in plan", pf.Plan.Prop)
	}
	return pf.Plan, nil
}

func determinism(prop string, seed uint64, outs []*runOut) (n, diff int) {
	want := map[int]uint64{}
	var ids []string
	step := len(outs)/40 + 1
	for i := step / 2; i < len(outs); i += step {
		want[outs[i].I] = outs[i].H
		ids = append(ids, fmt.Sprint(outs[i].I))
	}
	c := selfCmd("again", prop, fmt.Sprint(seed), strings.Join(ids, ","))
	b, err := c.Output()
	if err != nil {
		return len(ids), len(ids)
	}
	for _, l := range strings.Split(string(b), "\n") {
		var o runOut
		if json.Unmarshal([]byte(l), &o) == nil && strings.HasPrefix(l, "{") {
			n++
			if want[o.I] != o.H {
				diff++
			}
		}
	}
	if n < len(ids) {
		diff += len(ids) - n
	}
	return
}

func again(prop string, seedS, list string) {
	simSetup()
	seed, _ := strconv.ParseUint(seedS, 10, 64)
	enc := json.NewEncoder(os.Stdout)
	ids := strings.Split(list, ",")
	for i := len(ids) - 1; i >= 0; i-- {
		n, err := strconv.Atoi(ids[i])
		if err != nil {
			continue
		}
		p := planFor(prop, seed, n)
		r := runPlan(p, os.Getenv("VERIF_TRACE") == ids[i])
		for _, l := range r.Trace {
			fmt.Fprintln(os.Stderr, l)
		}
		enc.Encode(outOf(n, p, r))
	}
}

func writeEvidence(pd *propDef, s, rs *super, tier string, seed uint64, planned int, searchWall, wall float64, viols, redo, diff, nw int) {
	faults, probes, other := map[string]int{}, map[string]int{}, map[string]int{}
	seen, ils := map[uint64]bool{}, map[uint64]bool{}
	var simNs int64
	steps, ops, dn := 0, 0, 0
	var samples []any
	for _, o := range s.outs {
		simNs += o.SimNs
		steps += o.Steps
		ops += o.Ops
		for k, n := range o.Stats {
			switch {
			case strings.HasPrefix(k, "fault:"):
				faults[k[6:]] += n
			case strings.HasPrefix(k, "check:"):
				probes[k[6:]] += n
			default:
				other[k] += n
			}
		}
		ils[o.IH] = true
		if o.NT && !seen[o.H] {
			seen[o.H] = true
			dn++
			if len(samples) < 3 && o.I%7 == 3 {
				p := planFor(s.prop, seed, o.I)
				samples = append(samples, map[string]any{"run": o.I, "seed": fmt.Sprint(p.Seed), "operations": abbrev(describe(p.Procs), 1500), "steps": o.Steps, "faults_fired": pick(o.Stats, "fault:"), "event_hash": fmt.Sprintf("%016x", o.H)})
			}
		}
	}
	hours := math.Max(searchWall, 0.001) / 3600
	cov := map[string]any{
		"evaluations":            len(s.outs),
		"distinct_nontrivial":    dn,
		"rule":                   pd.rule,
		"samples":                samples,
		"runs_planned":           planned,
		"operations_executed":    ops,
		"scheduling_steps":       steps,
		"seeds_per_hour":         int(float64(len(s.outs)) / hours),
		"simulated_seconds":      float64(simNs) / 1e9,
		"faults_injected":        faults,
		"oracle_evaluations":     probes,
		"other_counters":         other,
		"distinct_interleavings": map[string]any{"count": len(ils), "measure": "distinct hashes of the sequence (process, system call, result) of a run"},
		"determinism":            map[string]any{"runs_executed_again_in_another_process": redo, "different": diff},
		"workers":                nw,
		"real_components":        append(realExtra(s.prop), "pkg/app", "pkg/world", "pkg/grammar", "pkg/errors", "pkg/persistence (all of the repository's library code, unmodified)", "Go standard library os, io, fmt (patched only at its system-call, clock, randomness and map-order seams)", "Go runtime, single-threaded"),
		"simulated_components":   []string{"kernel: files, directories, page cache, durability and directory journal, locks, standard output", "process scheduling, crashes, power", "clock", "map iteration order and random numbers"},
		"stubbed_components":     stubbed(s.prop),
		"not_run":                notRun(s.prop),
	}
	if pd.race > 0 {
		r := map[string]int{"runs": len(rs.outs)}
		for _, o := range rs.outs {
			r["operations"] += o.Ops
			r["preemptions"] += o.Stats["preemptions"]
		}
		cov["runs_under_the_race_detector"] = r
	}
	ev := map[string]any{
		"property": s.prop, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viols,
		"assumptions": []string{
			"the simulated disk follows POSIX visibility and a journalled-file-system durability model: un-synced data may be lost, torn, reordered or zero-filled per file, directory changes persist in order as a prefix; fsync of a file makes its data durable (and, unless the run chose the minimal model, its directory entry), fsync of a directory makes its entries durable",
			"simulated processes share one address space; package-level variables of the code under test are saved and restored per simulated process (see globals in coverage)",
		},
	}
	if len(samples) == 0 && len(s.outs) > 0 {
		p := planFor(s.prop, seed, s.outs[0].I)
		cov["samples"] = []any{map[string]any{"run": s.outs[0].I, "operations": abbrev(describe(p.Procs), 1500)}}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, s.prop+".json"), append(b, '\n'), 0644)
}

func pick(m map[string]int, pre string) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		if strings.HasPrefix(k, pre) {
			o[k[len(pre):]] = v
		}
	}
	return o
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: sim check Cxx | replay FILE | run Cxx SEED IDX")
		os.Exit(2)
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "check":
		os.Exit(check(a[0]))
	case "worker":
		worker(a)
	case "again":
		again(a[0], a[1], a[2])
	case "one":
		p, err := readPlan(a[0])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		simSetup()
		json.NewEncoder(os.Stdout).Encode(outOf(0, p, runPlan(p, false)))
	case "shrink":
		n, _ := strconv.Atoi(a[3])
		shrinkCmd(a[0], a[1], a[2], n)
	case "replay", "inner-replay":
		p, err := readPlan(a[0])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if os.Args[1] == "replay" { // in a process with the worker's settings
			c := simCmd(p.Race, "inner-replay", a[0])
			c.Stdout = os.Stdout
			c.Stderr = os.Stderr
			err := c.Run()
			if c.ProcessState != nil && c.ProcessState.ExitCode() >= 0 {
				os.Exit(c.ProcessState.ExitCode())
			}
			fmt.Println(err)
			os.Exit(1)
		}
		simSetup()
		r := runPlan(p, true)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		if r.Herr != "" {
			fmt.Println("HARNESS ERROR:", r.Herr)
			os.Exit(2)
		}
		if r.Viol != nil {
			fmt.Printf("%s: %s\nevent hash %016x\nVIOLATION property=%s replay=%s\n", r.Viol.Class, r.Viol.Msg, r.Hash, p.Prop, a[0])
			os.Exit(1)
		}
		fmt.Printf("no violation; event hash %016x\n", r.Hash)
	case "run":
		seed, _ := strconv.ParseUint(a[1], 10, 64)
		idx, _ := strconv.Atoi(a[2])
		p := planFor(a[0], seed, idx)
		f, _ := os.CreateTemp("", "plan*.json")
		f.Close()
		writePlanProf(f.Name(), p)
		c := simCmd(p.Race, "inner-replay", f.Name())
		c.Stdout, c.Stderr = os.Stdout, nil
		c.Run()
		os.Remove(f.Name())
	default:
		fmt.Println("unknown command", os.Args[1])
		os.Exit(2)
	}
}

func realExtra(prop string) []string {
	switch prop {
	case "C21":
		return []string{"cmd/wasm (its select{} replaced by a wait that ends with the page)"}
	case "C22":
		return []string{"cmd/cli", "documents, suggestions and filters of github.com/c-bata/go-prompt"}
	}
	return nil
}

func stubbed(prop string) []string {
	switch prop {
	case "C21":
		return []string{"syscall/js: JavaScript values, functions and calls (tools/jsstub)"}
	case "C22":
		return []string{"terminal and line editor of github.com/c-bata/go-prompt (sim/prompt)"}
	}
	return []string{}
}

func notRun(prop string) []string {
	l := []string{"pkg/render (empty)", "web (static page)"}
	if prop != "C21" {
		l = append(l, "cmd/wasm (C21 runs it)")
	}
	if prop != "C22" {
		l = append(l, "cmd/cli (C22 runs it)")
	}
	return l
}
