package main

// The two programs of the repository, each run as a simulated process: the browser bridge inside a small
// JavaScript host (C21), the interactive console at a simulated terminal (C22).

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"
	"syscall/js"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

var pageMain, consoleMain func() // nil if the programs cannot be built for the simulator

// frontend is one running program.
type frontend struct {
	inc     *Inc
	started bool
	ready   chan bool   // main waits for its host, or is over
	lines   chan string // what is typed
	done    chan any    // the executor returned (nil) or panicked
	ended   chan bool
	closed  bool
	exited  bool
	page    *js.SimWorld
	typed   int
	crash   any
}

func newFrontend(inc *Inc) *frontend {
	return &frontend{inc: inc, ready: make(chan bool, 8), lines: make(chan string), done: make(chan any, 4), ended: make(chan bool), page: js.SimNew()}
}

// launch runs the program's main until it waits.
func (f *frontend) launch(main func()) {
	if f.started {
		return
	}
	f.started = true
	go func() {
		defer func() {
			if r := recover(); r != nil {
				f.crash = r
			}
			f.exited = true
			f.page.Exited = true
			f.signal()
			close(f.ended)
		}()
		main()
	}()
	f.wait(f.ready)
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	f.rethrow()
}

func (f *frontend) signal() {
	select {
	case f.ready <- true:
	default:
	}
}

// wait blocks the host until the program has an answer; if the process dies meanwhile the host goes with it.
func (f *frontend) wait(c chan bool) {
	<-c
	if f.inc.dead {
		runtime.Goexit()
	}
}

func (f *frontend) rethrow() {
	if r := f.crash; r != nil {
		f.crash = nil
		panic(r)
	}
}

func (f *frontend) next() (string, bool) {
	f.signal()
	l, ok := <-f.lines
	return l, ok && !f.inc.dead
}

func (f *frontend) exec(fn func()) {
	var res any = "died"
	defer func() { f.done <- res }()
	defer func() {
		if r := recover(); r != nil {
			res = r
		}
	}()
	fn()
	res = nil
}

// typeLine sends a line to the console and waits until it has been dealt with; ok is false if nobody reads.
func (f *frontend) typeLine(l string) (ok bool) {
	select {
	case f.lines <- l:
	case <-f.ended:
		return false
	}
	select {
	case r := <-f.done:
		if f.inc.dead {
			runtime.Goexit()
		}
		if r != nil {
			panic(r)
		}
	case <-f.ended:
		f.rethrow()
		if f.inc.dead {
			runtime.Goexit()
		}
	}
	return true
}

func (f *frontend) close() {
	if !f.closed {
		f.closed = true
		close(f.lines)
		for i := 0; f.started && i < 4; i++ {
			runtime.Gosched()
		}
	}
}

type exitStatus int

func init() {
	js.SimCurrent = func() *js.SimWorld {
		if gcur == nil || gcur.front == nil {
			return js.SimNew()
		}
		return gcur.front.page
	}
	js.SimRegistered = func(name string) {
		if gcur != nil && gcur.front != nil {
			gcur.front.signal()
		}
	}
	js.SimPark = func() {
		f := gcur.front
		f.signal()
		<-f.lines // until the page is closed
		runtime.Goexit()
	}
	os.SimExit = func(code int) {
		panic(fmt.Sprintf("the process exits with status %d", code))
	}
}

// ---- operations ----------------------------------------------------------------------

type frontOut struct {
	text    string // what was printed, or what the call returned
	isText  bool
	missing bool // nobody answered
	faulted bool
}

func (o *frontOut) String() string { return o.text }

// frontOp carries out an operation of a page or a console.
func frontOp(k *Sim, p *Proc, ev *Ev) {
	op := ev.Op
	g := p.inc.g
	if op.K == "again" { // the page is loaded anew, the console is left and started again
		if g.front != nil {
			g.front.close()
		}
		p.st.front = nil
		p.inc.g = freshGlobals()
		install(p.inc.g)
		return
	}
	if g.front == nil {
		g.front = newFrontend(p.inc)
		k.fronts = append(k.fronts, g.front)
	}
	f := g.front
	out := &frontOut{}
	ev.Out = out
	switch op.K {
	case "call":
		f.launch(pageMain)
		var args []any
		switch op.X {
		case 0:
			args = []any{op.line()}
		case 1: // no argument
		case 2:
			args = []any{js.Undefined()}
		case 3:
			args = []any{float64(op.U)}
		}
		if f.exited {
			out.missing = true
			return
		}
		v, ok := f.page.SimCall("topolithSend", args...)
		out.missing = !ok
		out.isText = v.Type() == js.TypeString
		out.text = v.String()
	case "type":
		p.out = nil
		f.launch(consoleMain)
		p.out = nil // the greeting
		out.missing = f.exited || !f.typeLine(op.line())
		out.text = string(p.out)
	}
}

func (o *Op) line() string {
	if o.C != nil {
		return o.C.Line()
	}
	return strings.ToValidUTF8(o.L, "\uFFFD")
}

// ---- oracle -------------------------------------------------------------------------

// frontRef is the application itself, driven with the lines that were sent to one program.
type frontRef struct {
	g     *gset
	app   app.App
	lines int
}

type frontChk struct {
	prop string
	cnt  map[string]int
}

func (c *frontChk) Start(k *Sim) {
	if pageMain == nil {
		k.harnessError("the programs under cmd cannot be built for the simulator")
	}
}
func (c *frontChk) PowerLoss(k *Sim)       {}
func (c *frontChk) End(k *Sim)             {}
func (c *frontChk) Nontrivial(k *Sim) bool { return c.cnt["valid"] > 2 && c.cnt["invalid"] > 0 }
func (c *frontChk) hit(k *Sim, s string)   { c.cnt[s]++; k.stat("front_" + s) }

func (c *frontChk) Finish(k *Sim, ev *Ev) {
	p := k.procs[ev.P]
	out, _ := ev.Out.(*frontOut)
	if ev.Killed || p.st == nil || out == nil {
		return
	}
	op := ev.Op
	ref := p.st.front
	seedMaps(k.plan, op.U, 500)
	if ref == nil {
		ref = &frontRef{g: freshGlobals()}
		ref.g.with(func() { ref.app = mustApp(world.CreateWorld("default-world")) })
		p.st.front = ref
	}
	faulted := len(ev.Faulted) > 0
	if faulted {
		c.hit(k, "with_output_fault")
	}
	if out.missing {
		k.fail("no-answer", "%s: nobody answers: the program has ended or never offered its entry point", describeFront(op))
		return
	}
	if op.X != 0 { // not a line
		c.hit(k, "not_a_line")
		return
	}
	line := op.line()
	if op.K == "type" {
		line = strings.TrimSpace(line)
		if line == "" {
			c.hit(k, "blank")
			if out.text != "" && !faulted {
				k.fail("blank", "a blank line is answered with %q", abbrev(out.text, 200))
			}
			return
		}
	}
	want := ""
	seedMaps(k.plan, op.U, 0)
	ref.g.with(func() { want = ref.app.Exec(line) })
	rep, err := parseReply(want)
	if err != nil {
		return // the application's own fault: C18
	}
	ok := rep.Code == 200
	switch {
	case ok:
		c.hit(k, "valid")
	case rep.Code == 400:
		c.hit(k, "invalid")
	default:
		c.hit(k, "error")
	}
	if op.K == "call" {
		c.page(k, op, out, want, rep)
		return
	}
	// console
	if hard(ev) {
		return // what reached the terminal is incomplete
	}
	got := strings.TrimSuffix(out.text, "\n")
	switch {
	case rep.Code == 400: // not a command: some message
		if strings.TrimSpace(got) == "" {
			k.fail("silent", "line %q is not a command and nothing is printed", abbrev(line, 200))
		}
		if rep2, err := parseReply(got); err == nil && rep2.Code == 200 {
			k.fail("invalid-ok", "line %q is not a command but the console prints %q", abbrev(line, 200), abbrev(got, 200))
		}
	case !sameReply(got, want, lineCmd(op, line)):
		k.fail("echo", "line %q: the console prints %q, the application's reply is %q", abbrev(line, 200), abbrev(out.text, 400), abbrev(want, 300))
	}
}

func describeFront(op *Op) string { return op.String() }

func hard(ev *Ev) bool {
	for _, f := range ev.Faulted {
		if f.K != "short" && f.K != "eintr" {
			return true
		}
	}
	return false
}

// sameReply: two replies that say the same (the order of lists is free).
func sameReply(got, want string, c *Cmd) bool {
	if got == want {
		return true
	}
	if strings.Count(got, delim+"200 ok") != strings.Count(want, delim+"200 ok") {
		return false
	}
	a, b := canonReply(got, c), canonReply(want, c)
	if a == "unreadable" {
		return false
	}
	if strings.HasPrefix(b, "error") {
		return strings.TrimSpace(got) == strings.TrimSpace(want)
	}
	return a == b
}

// page judges what the bridge returned for a line.
func (c *frontChk) page(k *Sim, op *Op, out *frontOut, want string, rep *Reply) {
	line := op.line()
	fail := func(class, f string, a ...any) {
		k.fail(class, "topolithSend(%q): %s", abbrev(line, 200), fmt.Sprintf(f, a...))
	}
	if !out.isText {
		fail("json", "returns %s, not a string", out.text)
		return
	}
	var v struct {
		Status *int
		Error  map[string]any
		Raw    *string
		Data   *struct {
			Status *struct {
				Code    int
				Message string
			}
			Object *struct{ Type, Repr string }
		}
	}
	d := json.NewDecoder(strings.NewReader(out.text))
	if err := d.Decode(&v); err != nil {
		fail("json", "the reply is not one JSON object: %v in %q", err, abbrev(out.text, 200))
		return
	}
	if d.More() {
		fail("json", "the reply is more than one JSON value: %q", abbrev(out.text, 300))
		return
	}
	if v.Status == nil {
		fail("json", "the reply has no status: %q", abbrev(out.text, 300))
		return
	}
	if *v.Status != rep.Code {
		fail("status", "reports status %d, the application's is %d (%q)", *v.Status, rep.Code, abbrev(want, 200))
		return
	}
	msg := statusMessage(want)
	if rep.Code == 200 {
		if len(v.Error) != 0 {
			fail("message", "reports an error %v for a successful command", v.Error)
		}
	} else {
		if got := fmt.Sprint(v.Error["message"]); got != msg {
			fail("message", "reports the message %q, the application's is %q (%q)", got, msg, abbrev(want, 300))
		}
		if got := fmt.Sprint(v.Error["code"]); got != fmt.Sprint(rep.Code) {
			fail("message", "reports the error code %q, the application's is %d", got, rep.Code)
		}
	}
	if v.Data != nil && v.Data.Status != nil {
		if v.Data.Status.Code != rep.Code || v.Data.Status.Message != msg {
			fail("message", "carries the status %+v, the application's is %d %q", *v.Data.Status, rep.Code, msg)
		}
	}
	if v.Raw == nil {
		v.Raw = &want // the order of lists and trees is then not known
	} else if !sameReply(*v.Raw, strings.ToValidUTF8(want, "\uFFFD"), lineCmd(op, line)) {
		fail("raw", "carries the reply %q, the application's is %q", abbrev(*v.Raw, 300), abbrev(want, 300))
		return
	}
	if v.Data != nil && v.Data.Object != nil && rep.Code == 200 {
		c.object(k, fail, v.Data.Object.Type, v.Data.Object.Repr, strings.ToValidUTF8(*v.Raw, "\uFFFD"), v.Raw != &want, rep)
	}
}

// lineCmd is the command of a line as far as its limit matters.
func lineCmd(op *Op, line string) *Cmd {
	if op.C != nil {
		return op.C
	}
	if m := limited.FindStringSubmatch(line); m != nil {
		return &Cmd{Limit: 1}
	}
	return nil
}

var limited = regexp.MustCompile(`\blist\b.*\d`)

// object judges the object the bridge shows for a reply that is a single object.
func (c *frontChk) object(k *Sim, fail func(string, string, ...any), typ, repr, want string, ordered bool, rep *Reply) {
	i := strings.LastIndex(want, delim)
	if i < 0 {
		return
	}
	body := strings.TrimSpace(want[:i])
	switch {
	case rep.World != nil:
		c.hit(k, "object_world")
		if typ != "world" {
			fail("object", "shows an object of type %q for a world", typ)
		}
		for _, l := range strings.Split(body, "\n") {
			if !ordered && strings.HasPrefix(l, "tree{") {
				continue
			}
			if (strings.HasPrefix(l, "tree{") || strings.HasPrefix(l, "rel ")) && !strings.Contains(repr, strings.TrimSpace(l)) {
				fail("object", "shows %q, which lacks %q", abbrev(repr, 300), abbrev(l, 200))
			}
		}
	case len(rep.Items)+len(rep.Rels) == 1:
		c.hit(k, "object_single")
		kind := "item"
		if len(rep.Rels) == 1 {
			kind = "rel"
		}
		if typ != kind || strings.TrimSpace(repr) != body {
			fail("object", "shows %s %q, the application's reply is the %s %q", typ, abbrev(repr, 300), kind, abbrev(body, 300))
		}
	}
}

// statusMessage is the message of a reply: the quoted text (or the words) after the status word.
func statusMessage(s string) string {
	if i := strings.LastIndex(s, delim); i >= 0 {
		s = s[i+len(delim):]
	}
	s = strings.TrimLeft(s, "0123456789")
	s = strings.TrimSpace(s)
	s = strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(s, "ok"), "error"))
	if strings.HasPrefix(s, "\"") {
		if i := strings.IndexByte(s[1:], '"'); i >= 0 {
			return s[1 : 1+i]
		}
	}
	return s
}

// ---- workload -----------------------------------------------------------------------

func frontPlan(prop string, seed uint64) *Plan {
	g := newGen(seed)
	r := newRand(mix(seed, 41))
	p := &Plan{Prop: prop, Seed: seed, MapSeed: mix(seed, 42), Prof: &Profile{}}
	g.weights(merge(mutWeights, queryWeights))
	kind := map[string]string{"C21": "call", "C22": "type"}[prop]
	nproc := 1
	if r.P(1, 3) {
		nproc = 2 + r.Intn(2)
	}
	odd := []string{"", " ", "\t", "\u00a0", "item create \"\u00e9\"", "\u2028", "<script>&amp;</script>", "item create a\u0000b", "\U0001F600", strings.Repeat("item ", 400), "\\", "\"", "item \"a\" name=\"<b>&\"", ".save", ".load w", "undo", "redo", "tree{nil::[]}", "200 ok x", "404 error \"x\""}
	for i := 0; i < nproc; i++ {
		var ops []*Op
		n := 6 + r.Intn(20)
		big := -1
		if r.P(1, 100) { // a large world
			big = r.Intn(n)
		}
		for j := 0; j < n; j++ {
			if j == big {
				b := g.addBulk(i, prop)
				for _, c := range bulkCmds(b) {
					o := g.op(kind)
					o.S, o.C = i, c
					ops = append(ops, o)
				}
				w := g.op(kind)
				w.S, w.L = i, "world"
				ops = append(ops, w)
			}
			o := g.op(kind)
			o.S = i
			switch x := r.Intn(100); {
			case x < 62:
				o.C = g.cmd(g.draw(), i)
			case x < 72:
				o.L = g.garbage()
			case x < 82:
				o.L = g.mutateLine(g.cmd(g.draw(), i).Line())
			case x < 86:
				o.L = odd[r.Intn(len(odd))]
			case x < 88: // a command with something around it that is not part of the language
				l := g.cmd(g.draw(), i).Line()
				o.L = []string{"#", "//", "> ", "topolith> ", "$ ", ":", "/", "!", "?", ""}[r.Intn(10)] + l + []string{"", "", ";", " # x", " // x", " \\", ".", ",", " &", " -- x"}[r.Intn(10)]
				if r.P(1, 4) {
					o.L = []string{"!!", "!1", "#", "# x", "help", "exit", "quit", "?", "clear", "version", "history", "--help", "\u0004", "\u001b[A"}[r.Intn(14)]
				}
			case x < 91:
				o.L = []string{" ", "\t ", "  "}[r.Intn(3)] + g.cmd(g.draw(), i).Line() + []string{"", " ", "\n", "\r"}[r.Intn(4)]
			case x < 94 && kind == "call":
				o.X = 1 + r.Intn(3)
			case x < 96:
				w := g.op(kind)
				w.S, w.L = i, "world"
				ops = append(ops, w)
				o.K = "again"
				g.m[i] = newMWorld("")
			default:
				o.L = "world"
			}
			ops = append(ops, o)
		}
		w := g.op(kind)
		w.S, w.L = i, "world"
		p.Procs = append(p.Procs, append(ops, w))
	}
	p.Prof.Stdout, p.Prof.Max = []int{0, 0, 60000, 250000}[r.Intn(4)], 60
	p.Prof.Sticky = []int{0, 50, 90}[r.Intn(3)]
	p.Setup = &Setup{}
	return p
}
