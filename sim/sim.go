package main

// The simulator: simulated processes are goroutines that hand control back at every system call and at
// every operation boundary; one of them is released at a time, chosen by the plan's schedule.

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/williamflynt/topolith/pkg/persistence"
)

// Rand is a splitmix64 generator; every random choice of a run comes from one.
type Rand struct{ s uint64 }

func newRand(seed uint64) *Rand { return &Rand{seed} }
func (r *Rand) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}
func (r *Rand) P(num, den int) bool { return r.Intn(den) < num }
func (r *Rand) Pick(l []string) string {
	return l[r.Intn(len(l))]
}

func mix(a ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range a {
		h ^= x
		h *= 0x9e3779b97f4a7c15
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 32
	}
	return h
}

// Fault is one injected fault, addressed by operation and index of the system call inside it.
type Fault struct {
	U int    `json:"op"`             // operation uid
	I int    `json:"call"`           // index of the system call in that operation; -1: before the operation starts
	K string `json:"kind"`           // errno, errafter, short, eintr, crash-, crash+, power-, power+, stall, clock, full, unfull
	A int64  `json:"arg,omitempty"`  // errno, byte count, seed, steps, nanoseconds
	B int    `json:"mode,omitempty"` // power loss mode
	N string `json:"at,omitempty"`   // name of the system call hit (information only)
}

// Plan is a complete, replayable description of one run.
type Plan struct {
	Prop      string   `json:"property"`
	Seed      uint64   `json:"seed"`
	MapSeed   uint64   `json:"map_seed"`
	Replay    bool     `json:"replay"` // faults and schedule below are explicit; otherwise they are drawn from Seed
	Procs     [][]*Op  `json:"procs"`
	Faults    []Fault  `json:"faults"`
	Sched     []int    `json:"sched"`
	MinSync   bool     `json:"min_sync,omitempty"`
	OwnDir    bool     `json:"own_dir,omitempty"` // fsync of a directory makes its own entries durable and nothing else
	DirBatch  int      `json:"dir_batch,omitempty"`
	DtUnknown bool     `json:"dt_unknown,omitempty"`
	Cap       int64    `json:"disk_capacity,omitempty"`
	Tick      int64    `json:"file_time_granularity,omitempty"`
	Prof      *Profile `json:"-"`
	Setup     *Setup   `json:"setup,omitempty"`
	Threads   bool     `json:"threads,omitempty"`       // the processes are threads of one process: common package-level variables, descriptors, pid and death
	Shared    bool     `json:"shared_handle,omitempty"` // threads: they use one persistence handle
	Race      bool     `json:"race,omitempty"`          // carried out by the build with the race detector, which judges it alone
	Preempt   []Pre    `json:"preemptions,omitempty"`   // where a thread lost the turn in the middle of the code under test
	Wild      bool     `json:"wild,omitempty"`          // identifiers and values that have no text form
	Note      string   `json:"note,omitempty"`
	alone     bool     // one thread of a larger plan
	Trace     []string `json:"trace,omitempty"` // readable trace of the minimised run; ignored by replay
}

// Pre is one preemption: at the I-th statement that operation U executes the turn goes to thread To.
type Pre struct {
	U  int `json:"op"`
	I  int `json:"statement"`
	To int `json:"to"`
}

// Setup is the initial content of the simulated disk.
type Setup struct {
	Clutter bool `json:"clutter,omitempty"` // foreign files and directories inside and beside the storage directory
	NoDir   bool `json:"no_dir,omitempty"`  // storage directory does not exist yet
	Many    int  `json:"many,omitempty"`    // so many worlds are stored in the default directory from the start
}

// Profile holds fault probabilities (per million system calls) of a generated run.
type Profile struct {
	Errno, Short, Eintr, Crash, Power, Stall, Clock, Full int
	Max                                                   int // most faults in one run
	Sticky                                                int // chance (percent) that the process stays scheduled
	NoFaultFrom                                           int // operations with uid >= this are fault free
	Stdout                                                int // per million writes to stdout
	Quantum                                               int // threads: mean number of statements between two preemptions, 0: none
	Hot                                                   int // threads: one of so many statements is one where a thread is often preempted, 0: none
	MaxPre                                                int // most preemptions in one run
}

type request struct {
	inc                        *Inc
	nr, a1, a2, a3, a4, a5, a6 uintptr
	kind                       byte // 's' system call, 'o' operation start, 'w' sleep, 'y' preempted
	to                         int  // 'y': the thread that goes on instead, -1: any other
	pre                        int  // 'y': its entry in the plan's list
	op                         *Op
	ch                         chan grant
	stall                      int
	seq                        int
	old                        bool
}

type grant struct {
	die   bool
	fault *Fault
}

// Inc is one incarnation of a simulated process.
type Inc struct {
	p     *Proc
	gen   int
	dead  bool
	probe bool
	g     *gset // its package-level variables
}

type Proc struct {
	sim    *Sim
	id     int
	gen    int
	ops    []*Op
	pc     int
	inc    *Inc
	fds    map[int]*ofd
	nextFD int
	cwd    *inode
	st     *procState // memory of the process: lost when it dies
	done   bool
	cur    *Op
	curIdx int
	curEv  *Ev
	busy   bool   // main goroutine running
	out    []byte // standard output of the current operation
	yi     int    // statements executed in the current operation
	left   int    // statements until the next preemption
}

// Ev is one executed operation of the history.
type Ev struct {
	Op        *Op
	P, Gen    int
	Call, Ret int
	Killed    bool // the process died inside it
	Panic     string
	Err       string // error reported by the system
	Failed    bool   // system reported an error
	Sys       int    // system calls made
	Faulted   []Fault
	Out       any
	done      bool
}

type Sim struct {
	plan   *Plan
	budget uint64 // map walks in one operation
	fs     *FS
	procs  []*Proc
	clock  int64
	step   int
	seq    int
	rng    *Rand // schedule
	frng   *Rand // faults
	drng   *Rand // clock increments
	reqs   []*request
	last   *Proc
	spos   int
	faults map[[2]int][]Fault
	fired  []Fault
	nfault int

	nextOfd int
	evs     []*Ev
	posts   int
	viol    *Violation
	herr    string
	stats   map[string]int
	h       uint64
	ih      uint64 // interleaving hash
	trace   []string
	tracing bool
	chk     Checker
	maxStep int
	outBuf  []byte
	inProbe int
	power   int
	pend    *Fault
	healed  bool // faults have stopped for good
	fronts  []*frontend
	prng    *Rand // preemption
	npre    int
	pre     map[[2]int]int // replay: where threads are preempted, in favour of whom
	threadG *gset          // threads: the variables of their process
	tgen    int
	tpers   persistence.Persistence
	fds     map[int]*ofd
	errs    []*eslot       // C26: the errors made so far
	solo    map[int]string // what each operation gives when its thread is alone
}

type Violation struct {
	Class string // stable class used while shrinking
	Msg   string
	Op    int
}

// Checker is the oracle of one property.
type Checker interface {
	Start(k *Sim)
	Finish(k *Sim, ev *Ev) // after an operation returned or its process died in it
	PowerLoss(k *Sim)      // right after a power failure
	End(k *Sim)            // after the last operation
	Nontrivial(k *Sim) bool
}

type NopChecker struct{}

func (NopChecker) Start(*Sim)           {}
func (NopChecker) Finish(*Sim, *Ev)     {}
func (NopChecker) PowerLoss(*Sim)       {}
func (NopChecker) End(*Sim)             {}
func (NopChecker) Nontrivial(*Sim) bool { return true }

func (k *Sim) stat(s string) {
	defer raceLeave(raceEnter())
	k.stats[s]++
}

func (k *Sim) fail(class, format string, a ...any) {
	if k.viol == nil {
		u := 0
		if len(k.evs) > 0 {
			u = k.evs[len(k.evs)-1].Op.U
		}
		k.viol = &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Op: u}
		k.tracef("VIOLATION %s: %s", class, k.viol.Msg)
	}
}

func (k *Sim) harnessError(s string) {
	if k.herr == "" {
		k.herr = s
	}
}

func (k *Sim) tracef(f string, a ...any) {
	if k.tracing {
		k.trace = append(k.trace, fmt.Sprintf(f, a...))
	}
}

func (k *Sim) hash(vals ...uint64) {
	for _, v := range vals {
		k.h = mix(k.h, v)
	}
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (k *Sim) stdout(p *Proc, b []byte) {
	k.stat("stdout_write")
	if p != nil && len(p.out) < 1<<22 {
		p.out = append(p.out, b...)
	}
	if len(k.outBuf) < 1<<16 {
		k.outBuf = append(k.outBuf, b...)
	}
}

// ---- process side ------------------------------------------------------------------

var theSim *Sim

func currentInc() *Inc { return (*Inc)(runtime.SimLabel()) }

func hook(nr, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, e syscall.Errno) {
	defer raceLeave(raceEnter())
	inc := (*Inc)(runtime.SimLabel())
	k := theSim
	if inc.dead || k == nil || inc.p.sim != k {
		runtime.Goexit()
	}
	if inc.probe {
		if nr == 1 && (a1 == 1 || a1 == 2) {
			return a3, 0, 0
		}
		r, e := inc.p.sys(nr, a1, a2, a3, a4, a5, a6, -1)
		return ret(r, e)
	}
	p := inc.p
	g := k.post(&request{inc: inc, nr: nr, a1: a1, a2: a2, a3: a3, a4: a4, a5: a5, a6: a6, kind: 's'})
	if g.die {
		k.dieNow(inc)
	}
	f := g.fault
	short := -1
	if f != nil {
		switch f.K {
		case "errno":
			p.failed(nr, a1, f)
			k.logSys(p, nr, 0, Errno(f.A))
			return ret(0, Errno(f.A))
		case "eintr":
			k.logSys(p, nr, 0, syscall.EINTR)
			return ret(0, syscall.EINTR)
		case "short":
			short = int(f.A)
		case "crash-":
			k.dieNow(inc)
		}
	}
	r, er := p.sys(nr, a1, a2, a3, a4, a5, a6, short)
	k.logSys(p, nr, r, er)
	if f != nil {
		switch f.K {
		case "crash+":
			k.dieNow(inc)
		case "power+", "power-":
			k.pend = f
			k.dieNow(inc)
		case "errafter":
			if er == 0 {
				return ret(0, Errno(f.A))
			}
		}
	}
	return ret(r, er)
}

func ret(r uintptr, e Errno) (uintptr, uintptr, Errno) {
	if e != 0 {
		return ^uintptr(0), 0, e
	}
	return r, 0, 0
}

// failed applies the side effects a failing call has on a real system.
func (p *Proc) failed(nr, a1 uintptr, f *Fault) {
	o := p.fds[int(a1)]
	switch nr {
	case 3:
		p.closeFD(int(a1)) // the descriptor is gone whatever close reports
		if o != nil {
			o.n.pend = nil
		}
	case 74, 75:
		if o != nil && !o.n.dir {
			o.n.pend = nil // the kernel marks the pages clean: this data never reaches the disk
		}
	}
}

func (k *Sim) logSys(p *Proc, nr, r uintptr, e Errno) {
	rv := uint64(r)
	if nr == 257 || nr == 2 || nr == 32 || nr == 72 {
		rv = 0
	}
	k.hash(uint64(p.id), uint64(nr), rv, uint64(e))
	k.ih = mix(k.ih, uint64(p.id), uint64(nr), uint64(e))
	if k.tracing {
		u := 0
		if p.cur != nil {
			u = p.cur.U
		}
		es := ""
		if e != 0 {
			es = " " + e.Error()
		}
		k.tracef("%5d p%d op%d %s=%d%s", k.step, p.id, u, sysName(nr), rv, es)
	}
}

func (k *Sim) post(r *request) grant {
	r.ch = make(chan grant, 1)
	k.posts++
	r.seq = k.posts
	k.reqs = append(k.reqs, r)
	return <-r.ch
}

// dieNow ends the calling goroutine's process.
func (k *Sim) dieNow(inc *Inc) {
	k.killProc(inc.p)
	runtime.Goexit()
}

// killProc makes a process disappear, with all its threads: open files are closed by the kernel, memory is lost.
func (k *Sim) killProc(p *Proc) {
	k.killThread(p)
	if k.plan.Threads {
		for _, p := range k.procs {
			k.killThread(p)
		}
	}
}

func (k *Sim) killThread(p *Proc) {
	if p.inc == nil || p.inc.dead {
		return
	}
	p.inc.dead = true
	k.stat("crash")
	k.tracef("%5d p%d DIES", k.step, p.id)
	if p.curEv != nil && !p.curEv.done {
		p.curEv.Killed = true
		p.curEv.done = true
		k.seq++
		p.curEv.Ret = k.seq
	}
	for _, o := range p.fds {
		o.refs--
		if o.refs == 0 {
			k.unlock(o)
		}
	}
	clear(p.fds)
	p.fds = map[int]*ofd{}
	p.st = nil
	var keep []*request
	died := false
	install(p.inc.g) // deferred functions may still use its variables
	for _, r := range k.reqs {
		if r.inc == p.inc {
			r.ch <- grant{die: true}
			died = true
			continue
		}
		keep = append(keep, r)
	}
	k.reqs = keep
	k.posts++
	for i := 0; died && i < 4; i++ {
		runtime.Gosched()
	}
}

func grow(n int) int {
	var b [8192]byte
	if n > 0 {
		b[n%8192] = byte(grow(n - 1))
	}
	return int(b[(n*7)%8192])
}

func (k *Sim) start(p *Proc) {
	p.gen++
	if p.gen > 1 {
		raceJoin() // after a crash: what the dead threads did is past
	}
	p.fds = map[int]*ofd{}
	inc := &Inc{p: p, gen: p.gen}
	if k.plan.Threads {
		if k.threadG == nil {
			k.threadG, k.fds, k.tpers = freshGlobals(), map[int]*ofd{}, nil
			k.tgen++
		}
		inc.g, p.fds = k.threadG, k.fds
	} else {
		inc.g = freshGlobals()
	}
	install(inc.g)
	p.inc = inc
	p.cwd = k.fs.mkdirAll("/home/u/work")
	p.busy = true
	go func() {
		defer raceEnd()
		runtime.SimSetLabel(unsafe.Pointer(inc))
		grow(32)
		own := raceEnter()
		defer raceLeave(own)
		k.main(p, inc, own)
	}()
}

func (k *Sim) main(p *Proc, inc *Inc, own uintptr) {
	raceLeave(own)
	p.st = newProcState(k, p)
	raceEnter()
	for p.pc < len(p.ops) {
		op := p.ops[p.pc]
		g := k.post(&request{inc: inc, kind: 'o', op: op})
		if g.die || inc.dead {
			runtime.Goexit()
		}
		p.pc++
		ev := &Ev{Op: op, P: p.id, Gen: p.gen}
		k.seq++
		ev.Call = k.seq
		p.cur, p.curIdx, p.curEv = op, 0, ev
		p.yi = 0
		k.evs = append(k.evs, ev)
		k.tracef("%5d p%d.%d op%d %s", k.step, p.id, p.gen, op.U, op)
		seedMaps(k.plan, op.U, 0)
		raceLeave(own)
		k.runOp(p, ev)
		raceEnter()
		if inc.dead {
			runtime.Goexit()
		}
		k.seq++
		ev.Ret = k.seq
		ev.done = true
		p.cur, p.curEv = nil, nil
		k.hash(uint64(op.U), strHash(ev.Err), strHash(ev.Panic), strHash(fmt.Sprint(outString(ev.Out))))
		if k.tracing {
			res := "ok"
			if ev.Failed {
				res = "error: " + ev.Err
			}
			if ev.Panic != "" {
				res = "PANIC: " + ev.Panic
			}
			k.tracef("%5d p%d op%d -> %s %s", k.step, p.id, op.U, res, abbrev(outString(ev.Out), 300))
		}
		k.finished(ev)
	}
	p.done = true
	k.posts++
}

func abbrev(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func outString(o any) string {
	switch v := o.(type) {
	case nil:
		return ""
	case string:
		return v
	case fmt.Stringer:
		return v.String()
	}
	return fmt.Sprint(o)
}

// finished runs the oracle for one operation.  It runs on the process goroutine (which holds the only
// turn), as a probe so that nothing it does is scheduled or faulted.
func (k *Sim) finished(ev *Ev) {
	if ev.Panic != "" {
		if strings.HasPrefix(ev.Panic, "budget:") {
			k.fail("hang", "op%d %s does not finish: %s", ev.Op.U, ev.Op, ev.Panic)
		} else {
			k.fail("panic", "op%d %s panics: %s", ev.Op.U, ev.Op, ev.Panic)
		}
		return
	}
	if k.viol == nil && k.chk != nil {
		if k.plan.Threads { // the other threads are in the middle of something
			k.mainProbe(func() { k.chk.Finish(k, ev) })
		} else {
			k.asProbe(func() { k.chk.Finish(k, ev) })
		}
	}
}

// yield is called before each statement of the code under test while threads are simulated.
func yield(site int) {
	defer raceLeave(raceEnter())
	k, inc := theSim, currentInc()
	if k == nil || inc.dead || inc.probe || inc.p.sim != k || inc.p.curEv == nil {
		return
	}
	p := inc.p
	p.yi++
	to, at := -1, -1
	if k.plan.Replay {
		t, ok := k.pre[[2]int{p.cur.U, p.yi}]
		if !ok {
			return
		}
		to = t
	} else {
		pr := k.plan.Prof
		if k.npre >= pr.MaxPre {
			return
		}
		hot := pr.Hot > 0 && mix(uint64(site), k.plan.Seed)%uint64(pr.Hot) == 0 && k.prng.P(1, 2)
		left := p.left - 1
		if left <= 0 { // also at the very first statement
			p.left = 1 << 30
			if pr.Quantum > 0 {
				p.left = 1 + k.prng.Intn(2*pr.Quantum)
			}
		} else {
			p.left = left
		}
		if left != 0 && !hot {
			return
		}
		at = len(k.plan.Preempt)
		k.plan.Preempt = append(k.plan.Preempt, Pre{p.cur.U, p.yi, -1})
	}
	k.npre++
	k.stat("preemptions")
	if k.tracing {
		k.tracef("%5d p%d op%d is preempted at its statement %d", k.step, p.id, p.cur.U, p.yi)
	}
	g := k.post(&request{inc: inc, kind: 'y', to: to, pre: at})
	if g.die || inc.dead {
		runtime.Goexit()
	}
}

// asProbe runs fn as a privileged process: its system calls take effect at once.
func (k *Sim) asProbe(fn func()) {
	old := runtime.SimLabel()
	pp := &Proc{sim: k, id: 90, fds: map[int]*ofd{}}
	pp.cwd = k.fs.mkdirAll("/home/u/work")
	inc := &Inc{p: pp, probe: true}
	pp.inc = inc
	om := k.fs.onMutate
	k.fs.onMutate = nil
	k.inProbe++
	runtime.SimSetLabel(unsafe.Pointer(inc))
	defer func() {
		runtime.SimSetLabel(old)
		k.inProbe--
		k.fs.onMutate = om
		if r := recover(); r != nil {
			if b, ok := r.(budgetOver); ok {
				k.fail("hang", "reading the world does not finish: %s", string(b))
				return
			}
			k.fail("panic", "panic while reading the world or disk: %v\n%s", r, shortStack())
		}
	}()
	runtime.SimBudget(k.budget, overBudget)
	fn()
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "topolith") && strings.HasPrefix(l, "\t") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) > 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

type budgetOver string

const mapBudget = 3_000_000
const sysBudget = 20_000

func overBudget() {
	runtime.SimBudget(0, nil)
	panic(budgetOver("budget: far more map walks than any operation needs"))
}

func seedMaps(p *Plan, u, salt int) {
	runtime.SimSeed(mix(p.MapSeed, uint64(u), uint64(salt)), mix(p.Seed, uint64(u), 77, uint64(salt)))
}

func (k *Sim) runOp(p *Proc, ev *Ev) {
	completed := false
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetOver); ok {
				ev.Panic = string(b)
			} else {
				ev.Panic = fmt.Sprintf("%v [%s]", r, shortStack())
			}
			return
		}
		_ = completed
	}()
	runtime.SimBudget(k.budget, overBudget)
	doOp(k, p, ev)
	completed = true
}

// ---- scheduler side ------------------------------------------------------------------

// settle lets the simulated processes run until all their goroutines wait, and reports whether there is a new request.
// (There is only one OS thread for Go code: the goroutines that are not in the run queue wait for something.)
func (k *Sim) settle(after int) bool {
	seen := k.posts
	for i := 0; i < 20000; i++ {
		runtime.Gosched()
		if runtime.SimQuiet() && i > 1 {
			break
		}
		if k.posts != seen { // it goes on: code that never waits must not hold up the others
			seen = k.posts
			if i < 16000 {
				i = 16000
			}
		}
	}
	return k.posts != after
}

func (k *Sim) run() {
	k.step = 0
	for _, p := range k.procs {
		b := k.posts
		k.start(p)
		k.settle(b)
	}
	idle := 0
	for k.viol == nil && k.herr == "" {
		if k.pend != nil {
			f := k.pend
			k.pend = nil
			k.doPower(f)
			continue
		}
		// restart dead processes that still have work
		restarted := false
		for _, p := range k.procs {
			if p.inc.dead && !p.done {
				if p.curEv != nil {
					ev := p.curEv
					p.curEv, p.cur = nil, nil
					k.hash(uint64(ev.Op.U), 0xdead)
					if k.chk != nil && k.viol == nil {
						k.mainProbe(func() { k.chk.Finish(k, ev) })
					}
				}
				if p.pc >= len(p.ops) {
					p.done = true
					continue
				}
				if k.plan.Threads && !restarted {
					k.threadG = nil
				}
				b := k.posts
				k.start(p)
				k.settle(b)
				restarted = true
			}
		}
		if restarted || k.viol != nil {
			continue
		}
		var cand []*request
		stalled := 0
		for _, r := range k.reqs {
			if r.stall > 0 {
				r.stall--
				stalled++
				continue
			}
			if r.kind == 's' && r.inc.p.wouldBlock(r.nr, r.a1, r.a2, r.a3) {
				continue
			}
			cand = append(cand, r)
		}
		if len(cand) == 0 {
			if stalled > 0 {
				continue
			}
			all := true
			for _, p := range k.procs {
				if !p.done {
					all = false
				}
			}
			if all {
				break
			}
			b := k.posts
			if k.settle(b) {
				idle = 0
				continue
			}
			idle++
			if idle > 40 {
				k.fail("deadlock", "no process can make progress: %s", k.whereBlocked())
				break
			}
			time.Sleep(20 * time.Millisecond)
			continue
		}
		idle = 0
		r := k.choose(cand)
		k.release(r)
		if k.step > k.maxStep {
			k.fail("livelock", "run exceeds %d scheduling steps", k.maxStep)
		}
	}
	if k.viol == nil && k.herr == "" && k.chk != nil {
		k.mainProbe(func() { k.chk.End(k) })
	}
	for _, p := range k.procs {
		if p.inc != nil {
			p.inc.dead = true
		}
	}
	for _, r := range k.reqs {
		r.ch <- grant{die: true}
	}
	k.reqs = nil
	for _, f := range k.fronts {
		f.close()
	}
	for i := 0; i < 4; i++ {
		runtime.Gosched()
	}
}

// mainProbe is asProbe in a process of its own.
func (k *Sim) mainProbe(fn func()) { k.asProbe(func() { freshGlobals().with(fn) }) }

func (k *Sim) whereBlocked() string {
	s := ""
	for _, p := range k.procs {
		if !p.done && p.cur != nil {
			s += fmt.Sprintf(" p%d in op%d %s", p.id, p.cur.U, p.cur)
		}
	}
	return s
}

func (k *Sim) choose(cand []*request) *request {
	// order: the process that ran last first, then by process and age, so that choice 0 means "carry on"
	ord := make([]*request, 0, len(cand))
	for _, r := range cand {
		if r.inc.p == k.last {
			ord = append(ord, r)
		}
	}
	for _, p := range k.procs {
		for _, r := range cand {
			if r.inc.p == p && p != k.last {
				ord = append(ord, r)
			}
		}
	}
	if len(ord) == 1 {
		return ord[0]
	}
	for _, y := range ord { // a thread that was just preempted
		if y.kind != 'y' || y.old || y.inc.p != k.last {
			continue
		}
		y.old = true
		if !k.plan.Replay {
			var l []int
			for _, r := range ord {
				if r.inc.p != y.inc.p {
					l = append(l, r.inc.p.id)
				}
			}
			if len(l) > 0 {
				y.to = l[k.prng.Intn(len(l))]
			}
			k.plan.Preempt[y.pre].To = y.to
		}
		for _, r := range ord {
			if r.inc.p.id == y.to {
				return r
			}
		}
	}
	c := 0
	if k.plan.Replay {
		if k.spos < len(k.plan.Sched) {
			c = k.plan.Sched[k.spos] % len(ord)
		}
	} else {
		if !(ord[0].inc.p == k.last && k.rng.Intn(100) < k.plan.Prof.Sticky) {
			c = k.rng.Intn(len(ord))
		}
		k.plan.Sched = append(k.plan.Sched, c)
	}
	k.spos++
	return ord[c]
}

func (k *Sim) release(r *request) {
	p := r.inc.p
	k.last = p
	k.step++
	k.clock += 1000 + int64(k.drng.Intn(1000))*int64(1+k.drng.Intn(3000))
	for i, x := range k.reqs {
		if x == r {
			k.reqs = append(k.reqs[:i:i], k.reqs[i+1:]...)
			break
		}
	}
	if r.kind == 'w' || r.kind == 'y' {
		k.clock += int64(r.a1)
		k.hash(uint64(r.kind), uint64(p.id))
		k.ih = mix(k.ih, uint64(r.kind), uint64(p.id), uint64(p.yi))
		install(r.inc.g)
		b := k.posts
		r.ch <- grant{}
		k.settle(b)
		return
	}
	u, idx := 0, -1
	if r.kind == 'o' {
		u = r.op.U
	} else if p.cur != nil {
		u, idx = p.cur.U, p.curIdx
		p.curIdx++
		if p.curEv != nil {
			p.curEv.Sys++
			if p.curEv.Sys > sysBudget {
				k.fail("hang", "op%d %s makes more than %d system calls", u, p.cur, sysBudget)
			}
		}
	}
	k.hash(uint64(k.step), uint64(p.id), uint64(u), uint64(idx))
	f := k.decide(r, u, idx)
	if f != nil {
		k.nfault++
		k.stat("fault:" + f.K)
		if f.K == "errno" || f.K == "errafter" {
			k.stat("fault:" + f.K + ":" + f.N)
		}
		k.fired = append(k.fired, *f)
		if p.curEv != nil {
			p.curEv.Faulted = append(p.curEv.Faulted, *f)
		}
		k.tracef("%5d p%d op%d FAULT %s %s arg=%d", k.step, p.id, u, f.K, f.N, f.A)
		switch f.K {
		case "stall":
			r.stall = int(f.A)
			k.clock += f.A * 1e9
			k.reqs = append(k.reqs, r)
			if idx >= 0 {
				p.curIdx-- // the call is retried later under the same address; the fault is consumed
			}
			return
		case "clock":
			k.clock += f.A
			f = nil
		case "full":
			k.fs.cap = k.fs.used + f.A
			f = nil
		case "unfull":
			k.fs.cap = 0
			f = nil
		case "power-":
			k.reqs = append(k.reqs, r)
			k.doPower(f)
			return
		}
		if r.kind == 'o' && f != nil {
			switch f.K {
			case "crash-", "crash+":
				k.reqs = append(k.reqs, r)
				k.killProc(p)
				return
			case "power+":
				k.reqs = append(k.reqs, r)
				k.doPower(f)
				return
			}
			f = nil
		}
	}
	b := k.posts
	install(r.inc.g)
	r.ch <- grant{fault: f}
	k.settle(b)
}

func (k *Sim) doPower(f *Fault) {
	k.tracef("%5d POWER FAILURE mode=%d", k.step, f.B)
	k.stat("power_loss")
	k.power++
	for _, p := range k.procs {
		if !p.done || p.pc < len(p.ops) {
			k.killProc(p)
		} else {
			p.st = nil
		}
	}
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	k.fs.powerLoss(newRand(uint64(f.A)), f.B)
	// operations killed by the failure are reported to the oracle before the power-loss check
	for _, p := range k.procs {
		if p.curEv != nil && p.curEv.Killed {
			ev := p.curEv
			p.curEv, p.cur = nil, nil
			if k.chk != nil && k.viol == nil {
				k.mainProbe(func() { k.chk.Finish(k, ev) })
			}
		}
	}
	if k.chk != nil && k.viol == nil {
		k.mainProbe(func() { k.chk.PowerLoss(k) })
	}
}

var eintrOK = map[uintptr]bool{0: true, 1: true, 17: true, 18: true, 2: true, 257: true, 74: true, 75: true, 77: true, 217: true, 258: true, 263: true, 264: true, 316: true, 262: true, 5: true}

var errnoFor = map[string][]Errno{
	"openat":    {syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.ENOSPC},
	"write":     {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG},
	"pwrite":    {syscall.EIO, syscall.ENOSPC},
	"read":      {syscall.EIO},
	"pread":     {syscall.EIO},
	"close":     {syscall.EIO, syscall.ENOSPC},
	"fsync":     {syscall.EIO, syscall.ENOSPC},
	"fdatasync": {syscall.EIO},
	"renameat":  {syscall.EIO, syscall.ENOSPC, syscall.EACCES},
	"renameat2": {syscall.EIO, syscall.ENOSPC, syscall.EACCES},
	"mkdirat":   {syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS},
	"unlinkat":  {syscall.EIO, syscall.EACCES},
	"fstatat":   {syscall.EIO, syscall.EACCES},
	"lstat":     {syscall.EIO, syscall.EACCES},
	"stat":      {syscall.EIO, syscall.EACCES},
	"fstat":     {syscall.EIO},
	"getdents":  {syscall.EIO},
	"ftruncate": {syscall.EIO, syscall.ENOSPC},
	"linkat":    {syscall.EIO, syscall.ENOSPC, syscall.EACCES},
	"fchmod":    {syscall.EIO, syscall.EPERM},
	"fchmodat":  {syscall.EIO, syscall.EPERM},
	"flock":     {syscall.EIO},
}

// decide returns the fault to inject at this system call (or operation start), if any.
func (k *Sim) decide(r *request, u, idx int) *Fault {
	key := [2]int{u, idx}
	if k.plan.Replay {
		fs := k.faults[key]
		if len(fs) == 0 {
			return nil
		}
		f := fs[0]
		k.faults[key] = fs[1:]
		if r.kind == 's' {
			f.N = sysName(r.nr)
		}
		return &f
	}
	pr := k.plan.Prof
	if pr == nil || k.healed || k.nfault >= pr.Max || (pr.NoFaultFrom > 0 && u >= pr.NoFaultFrom) {
		return nil
	}
	if r.stall < 0 {
		return nil
	}
	roll := func(ppm int) bool { return ppm > 0 && k.frng.Intn(1000000) < ppm }
	rec := func(kind string, arg int64, mode int) *Fault {
		f := Fault{U: u, I: idx, K: kind, A: arg, B: mode}
		if r.kind == 's' {
			f.N = sysName(r.nr)
		}
		k.plan.Faults = append(k.plan.Faults, f)
		return &f
	}
	if r.kind == 'o' {
		if roll(pr.Power / 2) {
			return rec("power-", int64(k.frng.next()>>1), k.frng.Intn(4)%3)
		}
		if roll(pr.Crash / 4) {
			return rec("crash-", 0, 0)
		}
		if roll(pr.Clock) {
			return rec("clock", (int64(k.frng.Intn(2000000))-1000000)*int64(time.Second), 0)
		}
		if roll(pr.Full) {
			if k.fs.cap > 0 {
				return rec("unfull", 0, 0)
			}
			return rec("full", int64(k.frng.Intn(3)*k.frng.Intn(2000)), 0)
		}
		return nil
	}
	nr := r.nr
	name := sysName(nr)
	if nr == 1 && r.a1 <= 2 { // standard output
		if roll(pr.Stdout) {
			switch k.frng.Intn(4) {
			case 0:
				return rec("short", int64(1+k.frng.Intn(3)), 0)
			case 1:
				return rec("eintr", 0, 0)
			default:
				return rec("errno", int64([]Errno{syscall.EIO, syscall.ENOSPC, syscall.EBADF}[k.frng.Intn(3)]), 0)
			}
		}
		return nil
	}
	if roll(pr.Crash) {
		return rec([]string{"crash-", "crash+"}[k.frng.Intn(2)], 0, 0)
	}
	if roll(pr.Power) {
		return rec([]string{"power-", "power+"}[k.frng.Intn(2)], int64(k.frng.next()>>1), k.frng.Intn(4)%3)
	}
	if roll(pr.Errno) {
		if es := errnoFor[name]; len(es) > 0 {
			e := es[k.frng.Intn(len(es))]
			if k.fs.ownDir && name == "openat" && e == syscall.EACCES && r.a3&(syscall.O_CREAT|syscall.O_ACCMODE) == 0 {
				e = syscall.EIO // a directory that was made by the process can be read by it
			}
			if name == "openat" && e == syscall.ENOSPC && r.a3&syscall.O_CREAT == 0 {
				e = syscall.EIO
			}
			if k.frng.Intn(6) == 0 && (name == "renameat" || name == "renameat2" || name == "mkdirat" || name == "unlinkat" || name == "fsync" || name == "linkat") {
				return rec("errafter", int64(e), 0)
			}
			return rec("errno", int64(e), 0)
		}
	}
	if roll(pr.Short) && (nr == 0 || nr == 1 || nr == 17 || nr == 18) {
		return rec("short", int64(1+k.frng.Intn(1+k.frng.Intn(600))), 0)
	}
	if roll(pr.Eintr) && eintrOK[nr] {
		return rec("eintr", 0, 0)
	}
	if roll(pr.Stall) && len(k.procs) > 1 {
		f := rec("stall", int64(1+k.frng.Intn(60)), 0)
		return f
	}
	return nil
}

// RunResult is what one run reports.
type RunResult struct {
	Viol       *Violation
	Herr       string
	Hash       uint64
	IHash      uint64
	Stats      map[string]int
	Steps      int
	SimNs      int64
	Nontrivial bool
	Evs        []*Ev
	Trace      []string
	Fired      []Fault
}

func execute(plan *Plan, tracing bool) *RunResult {
	if plan.Race {
		if !raceBuild {
			return &RunResult{Herr: "this plan is for the build with the race detector"}
		}
		raceStart()
	} else if plan.Prop == "C25" && !plan.alone {
		solo := soloRuns(plan)
		return execute1(plan, tracing, solo)
	}
	return execute1(plan, tracing, nil)
}

func execute1(plan *Plan, tracing bool, solo map[int]string) *RunResult {
	pd := props[plan.Prop]
	k := &Sim{solo: solo, prng: newRand(mix(plan.Seed, 4)), plan: plan, budget: walkBudget(plan), stats: map[string]int{}, rng: newRand(mix(plan.Seed, 1)), frng: newRand(mix(plan.Seed, 2)), drng: newRand(mix(plan.Seed, 3)), tracing: tracing, maxStep: 400000}
	if plan.Prof == nil {
		plan.Prof = &Profile{}
	}
	k.clock = 1_700_000_000_000_000_000
	k.fs = newFS(func() int64 { return k.clock })
	k.fs.tick = plan.Tick
	k.fs.minSync, k.fs.ownDir = plan.MinSync, plan.OwnDir
	k.faults = map[[2]int][]Fault{}
	for _, f := range plan.Faults {
		k.faults[[2]int{f.U, f.I}] = append(k.faults[[2]int{f.U, f.I}], f)
	}
	if plan.Replay {
	} else {
		plan.Faults, plan.Sched, plan.Preempt = nil, nil, nil
	}
	k.pre = map[[2]int]int{}
	for _, x := range plan.Preempt {
		k.pre[[2]int{x.U, x.I}] = x.To
	}
	runtime.SimYieldHook = nil
	if plan.Threads {
		runtime.SimYieldHook = yield
	}
	theSim = k
	runtime.SimForget()
	seedMaps(plan, 0, 99)
	gcur = nil
	install(freshGlobals())
	setupDisk(k)
	for i, ops := range plan.Procs {
		k.procs = append(k.procs, &Proc{sim: k, id: i, ops: ops, fds: map[int]*ofd{}})
	}
	k.fs.cap = plan.Cap
	t0 := k.clock
	if !plan.Race {
		k.chk = pd.newChecker()
		k.mainProbe(func() { k.chk.Start(k) })
	}
	if k.viol == nil {
		k.run()
	}
	theSim = nil
	runtime.SimYieldHook = nil
	res := &RunResult{Viol: k.viol, Herr: k.herr, Hash: mix(k.h, k.fsHash()), IHash: k.ih, Stats: k.stats, Steps: k.step, SimNs: k.clock - t0, Evs: k.evs, Trace: k.trace, Fired: k.fired}
	if k.viol == nil && k.herr == "" {
		if k.chk != nil {
			res.Nontrivial = k.chk.Nontrivial(k)
		}
	}
	if plan.Race {
		raceVerdict(res)
	}
	return res
}

func (k *Sim) fsHash() uint64 {
	h := uint64(1)
	t := k.fs.tree()
	for _, p := range sortedKeys(t) {
		h = mix(h, strHash(p), strHash(t[p]))
	}
	return h
}

func init() {
	runtime.SimSeed(1, 1)
}
