package main

// Operations of simulated processes: how each step of a plan is carried out on the real code.

import (
	"fmt"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// Op is one step of a process.
type Op struct {
	U int    `json:"u"`
	K string `json:"k"`
	S int    `json:"s,omitempty"` // slot (world held in memory)
	T int    `json:"t,omitempty"` // second slot / history index
	N string `json:"n,omitempty"` // world name
	D int    `json:"d,omitempty"` // storage directory index
	X int    `json:"x,omitempty"`
	C *Cmd   `json:"c,omitempty"`
	L string `json:"l,omitempty"` // raw line
	B string `json:"b,omitempty"`
	H int    `json:"h,omitempty"` // which of the process's persistence handles
}

func (o *Op) String() string {
	switch o.K {
	case "cmd", "cundo", "seq":
		return fmt.Sprintf("%s[%d] %s", o.K, o.S, o.C.Line())
	case "raw":
		return fmt.Sprintf("raw[%d] %q", o.S, abbrev(o.L, 120))
	case "tnew":
		return fmt.Sprintf("tnew[%d] shape=%d seed=%d %q", o.S, o.T, o.X, o.C.Ids)
	case "tree":
		return fmt.Sprintf("tree[%d] %s %q at %q", o.S, o.C.V, o.C.B, o.C.A)
	case "bulk":
		if o.C != nil {
			return fmt.Sprintf("bulk[%d] all queries about %q", o.S, o.C.Ids)
		}
		return fmt.Sprintf("bulk[%d] size=%d pattern=%d", o.S, o.T, o.X)
	case "err":
		return fmt.Sprintf("err %s base=%d causes from %d t=%d %q %q", o.C.V, o.X, o.S, o.T, abbrev(o.C.A, 60), o.C.Ids)
	case "api":
		return fmt.Sprintf("api[%d] %s x=%d t=%d l=%q", o.S, o.C.call(), o.X, o.T, o.L)
	case "save":
		again := ""
		if o.T != 0 {
			again = fmt.Sprintf(" content of op%d", o.T)
		}
		return fmt.Sprintf("%s %q in %s x=%d%s%s%s", o.K, o.N, dirs[o.D], o.X, again, []string{"", ", the world held", ", the world held, unchanged", ", the world held, renamed"}[o.S&3], o.handle())
	case "load", "damage", "damload":
		return fmt.Sprintf("%s %q in %s x=%d%s", o.K, o.N, dirs[o.D], o.X, o.handle())
	case "list":
		return fmt.Sprintf("list %s%s", dirs[o.D], o.handle())
	case "call", "type":
		return fmt.Sprintf("%s %q x=%d", o.K, abbrev(o.line(), 120), o.X)
	}
	return fmt.Sprintf("%s[%d] t=%d n=%q x=%d", o.K, o.S, o.T, o.N, o.X)
}

const defaultDir = "/home/u/.local/share/topolith"

func (o *Op) handle() string {
	if o.H == 0 {
		return ""
	}
	return fmt.Sprintf(" (handle %d)", o.H)
}

// storage locations; 0 is the default one of the program
var dirs = []string{defaultDir, "/data/worlds", "/data/worlds/nested", "/srv/a.world", "work/rel", "/data/my [worlds]*?"}

func absDir(d int) string {
	if strings.HasPrefix(dirs[d], "/") {
		return dirs[d]
	}
	return filepath.Join("/home/u/work", dirs[d])
}

type slot struct {
	w     world.World
	app   app.App
	model *MWorld
	// "": every command also goes to the twin; "ok": only commands that succeeded do
	twinMode string
	lines    []string // every command line sent to this world since it was created
	replies  []string
	lineCmd  []*Cmd
	solo     bool // all of its history is in lines
	nerr     int
	// history cursor (C16)
	hist      []string // lines of the recorded history, including undone ones
	state     []*MWorld
	cur       int
	heldHist  []app.Command // a history list that the application reported (C16)
	heldLines []string
	held      []heldList // lists that direct calls returned (C23)
	// command objects executed directly (C15)
	cmds []app.Command
	pre  []*MWorld
	line []string
	// the world as it was before the last reload, driven in parallel (C04)
	twin  app.App
	twinW world.World
	twinG *gset // the process of the twin
	name  string
}

type procState struct {
	pers  persistence.Persistence
	dir   int
	slots map[int]*slot
	prop  string
	front *frontRef
	other world.World // C23: a world that is used between a call and its outcome
	trees map[int]*tslot
	hands map[int]*handle
	live  map[string]world.World // worlds that are held in memory between saves, by name
}

// handle is a further persistence handle of a process.
type handle struct {
	pers persistence.Persistence
	dir  int
}

func newProcState(k *Sim, p *Proc) *procState {
	if k.plan.Threads && k.plan.Shared {
		if k.tpers == nil {
			k.tpers = persistence.NewFilePersistence()
		}
		return &procState{pers: k.tpers, slots: map[int]*slot{}, prop: k.plan.Prop}
	}
	return &procState{pers: persistence.NewFilePersistence(), slots: map[int]*slot{}, prop: k.plan.Prop}
}

func mustApp(w world.World) app.App {
	a, err := app.NewApp(w)
	if err != nil {
		panic("NewApp: " + err.Error())
	}
	return a
}

func (st *procState) slot(i int, name string) *slot {
	s := st.slots[i]
	if s == nil {
		if name == "" {
			name = fmt.Sprintf("w%d", i)
		}
		s = &slot{w: world.CreateWorld(name), model: newMWorld(name), name: name}
		s.app = mustApp(s.w)
		s.state = []*MWorld{s.model.clone()}
		s.solo = true
		if st.prop == "C17" || st.prop == "C14" {
			s.twinG = freshGlobals()
			s.twinG.with(func() {
				s.twinW = world.CreateWorld(name)
				s.twin = mustApp(s.twinW)
			})
			if st.prop == "C14" {
				s.twinMode = "ok"
			}
		}
		st.slots[i] = s
	}
	return s
}

func (st *procState) setDir(d int) {
	if st.dir != d {
		st.pers.SetSourcePath(dirs[d])
		st.dir = d
	}
}

// store is the handle that an operation uses, turned to its location.
func (st *procState) store(op *Op) persistence.Persistence {
	if op.H == 0 {
		st.setDir(op.D)
		return st.pers
	}
	h := st.hands[op.H]
	if h == nil || op.H == 3 {
		h = &handle{}
		if op.H == 2 {
			h.pers = persistence.NewFilePersistence()
		} else { // the one of an application; 3: of a new application for every operation
			h.pers = mustApp(world.CreateWorld("w")).Persistence()
		}
		if st.hands == nil {
			st.hands = map[int]*handle{}
		}
		st.hands[op.H] = h
	}
	if h.dir != op.D {
		h.pers.SetSourcePath(dirs[op.D])
		h.dir = op.D
	}
	return h.pers
}

// held is the world that a save operation stores: a new one, or one that the process holds, changed or not.
func (st *procState) held(plan *Plan, op *Op) world.World {
	if st.live == nil {
		st.live = map[string]world.World{}
	}
	from := op.N
	if op.S == 3 && op.L != "" {
		from = op.L
	}
	w := st.live[from]
	if op.S == 0 || w == nil {
		w = buildWorld(plan, op)
		st.live[op.N] = w
		return w
	}
	if op.S == 2 {
		return w
	}
	if op.S == 3 {
		delete(st.live, from)
		w.SetName(op.N)
		st.live[op.N] = w
	}
	r := newRand(mix(uint64(op.U), 0xfedc, uint64(op.X)))
	u := fmt.Sprintf("u%d", op.U)
	for i := 0; i < 1+op.X%4; i++ {
		id := fmt.Sprintf("i%d", r.Intn(4))
		switch r.Intn(5) {
		case 0:
			w.ItemCreate(id, world.ItemParams{})
		case 1:
			w.ItemDelete(id)
		case 2:
			w.Nest(id, "tag")
		case 3:
			w.RelCreate(id, "tag", world.RelParams{Verb: &u})
		case 4:
			w.RelDelete(id, "tag")
		}
	}
	// Only one thing tells this version from all others, and it is not always the same one.
	switch r.Intn(3) {
	case 0:
		w.SetExpanded("v" + u)
	case 1:
		w.ItemSet("tag", world.ItemParams{Name: &u})
	case 2:
		w.ItemCreate("tag", world.ItemParams{})
		w.RelCreate("tag", "tag", world.RelParams{})
		w.RelSet("tag", "tag", world.RelParams{Mechanism: &u})
	}
	return w
}

// contentOf is what the world says, which in half of the cases a copy is asked instead: the world itself is left in peace.
func contentOf(op *Op, w world.World) string {
	if op.S != 0 && op.U%2 == 0 {
		text, canon := w.String(), ""
		freshGlobals().with(func() {
			if c, err := world.FromString(text); err == nil {
				canon = observe(c, false).W.canon()
			}
		})
		if canon != "" {
			return canon
		}
	}
	return observe(w, false).W.canon()
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// outputs of operations

type loadOut struct {
	w     world.World
	isNil bool
	canon string
	bad   string
	name  string
	oldG  *gset // process that the world was saved by
}

func (o *loadOut) String() string {
	if o == nil {
		return ""
	}
	return o.name + " " + fmt.Sprintf("%x", strHash(o.canon))
}

type listOut struct {
	names []string
	there bool // the directory existed when the listing began
}

func (o *listOut) String() string { return fmt.Sprintf("%q", o.names) }

type saveOut struct {
	canon string
	w     world.World
	text  string
}

func (o *saveOut) String() string { return fmt.Sprintf("%x", strHash(o.canon)) }

type cmdOut struct {
	reply   string
	twin    string
	n       int // remaining count reported by undo/redo
	err     error
	pre     *MWorld
	found   bool
	seq     []string
	twinRan bool
}

func (o *cmdOut) String() string { return o.reply + o.twin + strings.Join(o.seq, "|") }

func nilWorld(w world.World) bool { return w == nil }

// buildWorld makes the world a save operation stores: self-contained and unique per operation.
func buildWorld(plan *Plan, op *Op) world.World {
	w := world.CreateWorld(op.N)
	u := op.U
	if op.T != 0 { // the content of an earlier save again
		u = op.T
	}
	r := newRand(mix(uint64(u), 0xabcdef, uint64(op.X)))
	w.SetExpanded(fmt.Sprintf("v%d", u))
	w.SetVersion(1 + u%3)
	var ids []string
	add := func(id string, it MItem) {
		w.ItemCreate(id, world.ItemParams{})
		p := world.ItemParams{Name: &it.Name, Expanded: &it.Exp, Mechanism: &it.Mech}
		if it.Ext {
			t := true
			p.External = &t
		}
		if it.Type != "" {
			p.Type = &it.Type
		}
		w.ItemSet(id, p)
		ids = append(ids, id)
	}
	n := op.X
	fat := ""
	if n >= 1000 { // one big world: bulk in a few long values
		fat = strings.Repeat("long text; ", (n-1000)*90)
		n = 3
	}
	add("tag", MItem{Name: fmt.Sprintf("u%d", u)})
	for i := 0; i < n; i++ {
		it := MItem{Name: r.Pick(valuePool), Mech: r.Pick(valuePool), Exp: r.Pick(valuePool), Ext: r.P(1, 3)}
		if r.P(1, 2) {
			it.Type = r.Pick(typePool)
		}
		if fat != "" {
			it.Exp = fat
		}
		add(fmt.Sprintf("i%d", i), it)
		if i > 0 && r.P(1, 2) {
			w.Nest(ids[len(ids)-1], ids[r.Intn(len(ids)-1)])
		}
	}
	for i := 0; i < n && i < 2; i++ {
		v := r.Pick(valuePool)
		w.RelCreate(ids[r.Intn(len(ids))], ids[r.Intn(len(ids))], world.RelParams{})
		_ = v
	}
	return w
}

func doOp(k *Sim, p *Proc, ev *Ev) {
	op, st := ev.Op, p.st
	switch op.K {
	case "save":
		pers := st.store(op)
		if op.T != 0 {
			runtime.SimSeed(mix(k.plan.MapSeed, uint64(op.T), 0), mix(k.plan.Seed, uint64(op.U), 77, 0))
		}
		w := st.held(k.plan, op)
		ev.Out = &saveOut{canon: contentOf(op, w), w: w}
		err := pers.Save(w)
		ev.Failed, ev.Err = err != nil, errText(err)
	case "load":
		name := op.N
		if op.X == 1 {
			name = filepath.Join(dirs[op.D], op.N+".world")
		}
		w, err := st.store(op).Load(name)
		ev.Failed, ev.Err = err != nil, errText(err)
		ev.Out = &loadOut{w: w, isNil: nilWorld(w)}
		if err == nil && w != nil {
			lo := ev.Out.(*loadOut)
			lo.canon, lo.bad = consistent(w)
			lo.name = w.Name()
			if op.S == 1 { // to be worked on and saved again
				if st.live == nil {
					st.live = map[string]world.World{}
				}
				st.live[lo.name] = w
			}
		}
	case "list":
		pers := st.store(op)
		_, _, d, _ := k.fs.walk(absDir(op.D), nil)
		l, err := pers.ListWorlds()
		ev.Failed, ev.Err = err != nil, errText(err)
		ev.Out = &listOut{names: append([]string{}, l...), there: d != nil}
	case "setdir":
		st.store(op)
	case "heal":
		k.fs.cap = 0
		k.healed = true
	case "call", "type", "again":
		frontOp(k, p, ev)
	case "powertest":
	case "damage":
		ev.Out = damage(k, op)
	case "damload":
		w, err := st.store(op).Load(op.N)
		ev.Failed, ev.Err = err != nil, errText(err)
		ev.Out = &loadOut{w: w, isNil: nilWorld(w)}
		if w != nil {
			lo := ev.Out.(*loadOut)
			lo.canon, lo.bad = consistent(w)
			lo.name = w.Name()
		}
	case "new":
		delete(st.slots, op.S)
		st.slot(op.S, op.N)
	case "meta":
		s := st.slot(op.S, "")
		s.setMeta(op)
	case "cmd":
		s := st.slot(op.S, op.N)
		out := &cmdOut{pre: s.model.clone()}
		ev.Out = out
		line := op.C.Line()
		out.reply = s.app.Exec(line)
		s.lines = append(s.lines, line)
		s.lineCmd = append(s.lineCmd, op.C)
		s.cmds, s.pre, s.line = nil, nil, nil
		s.replies = append(s.replies, canonReply(out.reply, op.C))
		if s.twin != nil && (s.twinMode == "" || strings.Contains(out.reply, delim+"200 ok")) {
			seedMaps(k.plan, op.U, 5)
			s.twinG.with(func() { out.twin = s.twin.Exec(line) })
			out.twinRan = true
		}
	case "raw":
		s := st.slot(op.S, op.N)
		out := &cmdOut{pre: s.model.clone()}
		ev.Out = out
		out.reply = s.app.Exec(op.L)
		s.solo = false
	case "undo", "redo":
		s := st.slot(op.S, op.N)
		out := &cmdOut{pre: s.model.clone()}
		ev.Out = out
		if op.K == "undo" {
			out.err, out.n = app.VerifUndo(s.app)
		} else {
			out.err, out.n = app.VerifRedo(s.app)
		}
		ev.Failed, ev.Err = out.err != nil, errText(out.err)
		s.lines, s.lineCmd = append(s.lines, "\x01"+op.K), append(s.lineCmd, nil)
		s.replies = append(s.replies, fmt.Sprintf("%v %d", out.err != nil, out.n))
	case "cundo": // execute one command and undo it at once
		s := st.slot(op.S, op.N)
		out := &cmdOut{pre: s.model.clone()}
		ev.Out = out
		if c := command(op.C.Line()); c != nil {
			out.found = true
			_, err := c.Execute(s.w)
			ev.Err = errText(err)
			out.err = c.Undo(s.w)
		}
	case "seq": // execute one command directly and remember it
		s := st.slot(op.S, op.N)
		out := &cmdOut{pre: observe(s.w, false).W}
		ev.Out = out
		if c := command(op.C.Line()); c != nil {
			out.found = true
			_, err := c.Execute(s.w)
			ev.Err = errText(err)
			s.cmds = append(s.cmds, c)
			s.pre = append(s.pre, out.pre)
			s.line = append(s.line, op.C.Line())
		}
	case "unwind": // undo the remembered commands, newest first
		s := st.slot(op.S, op.N)
		out := &cmdOut{}
		ev.Out = out
		for i := 0; i < op.X && len(s.cmds) > 0; i++ {
			n := len(s.cmds) - 1
			c, pre, line := s.cmds[n], s.pre[n], s.line[n]
			s.cmds, s.pre, s.line = s.cmds[:n], s.pre[:n], s.line[:n]
			err := c.Undo(s.w)
			now := observe(s.w, false).W
			if err != nil {
				out.seq = append(out.seq, fmt.Sprintf("undoing %q reports %v", line, err))
			}
			if now.canon() != pre.canon() {
				out.seq = append(out.seq, fmt.Sprintf("undoing %q does not restore the state before it: %s", line, firstDiff(now.canon(), pre.canon())))
			}
			if len(out.seq) > 0 {
				break
			}
		}
	case "reload": // save, restart, load
		s := st.slot(op.S, op.N)
		st.setDir(op.D)
		err := st.pers.Save(s.w)
		if err != nil {
			ev.Failed, ev.Err = true, "save: "+err.Error()
			return
		}
		seedMaps(k.plan, op.U, 9)
		name, g, old := s.w.Name(), freshGlobals(), p.inc.g
		restart := len(st.slots) == 1 // else the other worlds would be lost
		if restart {
			install(g)
			p.inc.g = g
		}
		fresh := persistence.NewFilePersistence()
		if op.D != 0 {
			fresh.SetSourcePath(dirs[op.D])
		}
		w, err := fresh.Load(name)
		if err != nil || w == nil {
			ev.Failed, ev.Err = true, "load: no world and no error"
			if err != nil {
				ev.Err = "load: " + err.Error()
			}
			p.inc.g = old
			install(old)
			return
		}
		st.pers, st.dir = fresh, op.D
		ev.Out = &loadOut{w: w, oldG: old}
	case "fork": // load the stored file of slot S into slot T
		s := st.slot(op.S, op.N)
		st.setDir(op.D)
		if err := st.pers.Save(s.w); err != nil {
			ev.Failed, ev.Err = true, "save: "+err.Error()
			return
		}
		w, err := st.pers.Load(s.w.Name())
		if err != nil || w == nil {
			ev.Failed, ev.Err = true, "load: "+errText(err)
			return
		}
		ev.Out = &loadOut{w: w}
	default:
		if f := moreOps[op.K]; f != nil {
			f(k, p, ev)
			return
		}
		k.harnessError("unknown operation " + op.K)
	}
}

var moreOps = map[string]func(k *Sim, p *Proc, ev *Ev){}

func command(line string) app.Command {
	g, err := grammar.Parse(line)
	if err != nil || g.StmtType != "Command" {
		return nil
	}
	c, err := app.InputToCommand(g.InputAttributes)
	if err != nil {
		return nil
	}
	return c
}

func (s *slot) setMeta(op *Op) {
	set := func(w world.World) {
		switch op.X % 4 {
		case 0:
			w.SetExpanded(op.L)
		case 1:
			w.SetVersion(op.T)
		case 2:
			w.SetId(op.L)
		case 3:
			w.SetName(op.N)
		}
	}
	set(s.w)
	if s.twinW != nil {
		s.twinG.with(func() { set(s.twinW) })
	}
	setModel := func(m *MWorld) {
		switch op.X % 4 {
		case 0:
			m.Exp = op.L
		case 1:
			m.Ver = op.T
		case 2:
			m.ID = op.L
		case 3:
			m.Name = op.N
		}
	}
	setModel(s.model)
	for _, m := range s.state { // not part of the history: undo does not bring it back
		setModel(m)
	}
}

func manyName(i int) string { return fmt.Sprintf("many-%d", i) }

// setupDisk puts the initial content on the simulated disk.
func setupDisk(k *Sim) {
	fs := k.fs
	fs.mkdirAll("/home/u/work")
	fs.mkdirAll("/tmp")
	fs.mkdirAll("/srv")
	su := k.plan.Setup
	if su == nil {
		su = &Setup{}
	}
	if !su.NoDir {
		fs.mkdirAll(defaultDir)
	}
	for i := 0; i < su.Many; i++ {
		n := manyName(i)
		fs.put(defaultDir+"/"+n+".world", []byte(fmt.Sprintf("$$world\nversion=1\nid=%q\nname=%q\nexpanded=\"\"\ntree{nil::[]}\n\nendworld$$", n, n)))
	}
	if su.Clutter {
		d := defaultDir
		fs.put(d+"/notes.txt", []byte("remember the milk"))
		fs.put(d+"/old.world.bak", []byte("$$world\nversion=1\nid=old\nname=old\nexpanded=\ntree{nil::[]}\n\nendworld$$"))
		fs.put(d+"/world", []byte("not a world"))
		fs.put(d+"/sub/inner.world", []byte("$$world\nversion=1\nid=inner\nname=inner\nexpanded=\ntree{nil::[]}\n\nendworld$$"))
		fs.mkdirAll(d + "/folder.world")
		fs.put("/home/u/work/here.world", []byte("$$world\nversion=1\nid=here\nname=here\nexpanded=\ntree{nil::[]}\n\nendworld$$"))
		fs.put("/home/u/.local/share/other/app.cfg", []byte("x=1"))
		fs.put("/home/u/.local/share/evil.world", []byte("precious"))
		fs.put("/etc/passwd", []byte("root:x:0:0"))
	}
	fs.syncAll()
}
