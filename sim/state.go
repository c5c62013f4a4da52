package main

// Oracles and workloads of the properties about the world in memory: C04, C10 - C19.

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

// classes of violations each property answers for
var owns = map[string][]string{
	"C04": {"reload", "text"},
	"C10": {"forest", "state.nesting"},
	"C11": {"state.items", "state.nesting", "state.rels", "state.meta", "reply"},
	"C12": {"query", "query-changed"},
	"C13": {"rel", "state.rels"},
	"C14": {"error-changed", "should-error", "error-later"},
	"C15": {"undo"},
	"C16": {"cursor"},
	"C17": {"replay", "equal"},
	"C18": {"wellformed", "valid-rejected", "invalid-changed"},
	"C19": {"isolation"},
	"C20": {"roundtrip"},
	"C23": {"api"},
	"C24": {"tree"},
}

type stateChk struct {
	NopChecker
	prop string
	own  map[string]bool
	cnt  map[string]int
	seen map[uint64]bool
}

func newStateChk(prop string) *stateChk {
	c := &stateChk{prop: prop, own: map[string]bool{}, cnt: map[string]int{}, seen: map[uint64]bool{}}
	for _, o := range owns[prop] {
		c.own[o] = true
	}
	return c
}

func (c *stateChk) bad(k *Sim, class, f string, a ...any) {
	if c.own[class] {
		k.fail(class, f, a...)
		return
	}
	k.stat("foreign:" + class)
}

// canonReply brings a reply to a form that is equal for any two correct answers.
func canonReply(s string, c *Cmd) string {
	r, err := parseReply(s)
	if err != nil {
		return "unreadable"
	}
	if r.Code != 200 {
		return fmt.Sprintf("error %d", r.Code)
	}
	var l []string
	switch r.Obj {
	case "items":
		if c != nil && c.Limit > 0 {
			return fmt.Sprintf("%d items", len(r.Items))
		}
		for i, id := range r.Items {
			l = append(l, fmt.Sprintf("item %q %+v", id, r.IAttr[i]))
		}
	case "rels":
		if c != nil && c.Limit > 0 {
			return fmt.Sprintf("%d rels", len(r.Rels))
		}
		for i, id := range r.Rels {
			l = append(l, fmt.Sprintf("rel %q %+v", id, r.RAttr[i]))
		}
	case "world":
		return r.World.canon()
	case "bool":
		return fmt.Sprint(r.Bool)
	case "words":
		l = append(l, r.Words...)
	}
	sort.Strings(l)
	return r.Obj + " " + strings.Join(l, "; ")
}

func (c *stateChk) st(k *Sim, ev *Ev) *procState { return k.procs[ev.P].st }

// diffState compares the observed world with the model, part by part.
func (c *stateChk) diffState(k *Sim, what string, o *Obs, m *MWorld) bool {
	same := true
	for _, p := range []struct{ class, got, want string }{
		{"state.items", o.W.itemsText(), m.itemsText()},
		{"state.nesting", o.W.nestText(), m.nestText()},
		{"state.rels", o.W.relsText(), m.relsText()},
		{"state.meta", o.W.meta(), m.meta()},
	} {
		if p.got != p.want {
			same = false
			c.bad(k, p.class, "%s: %s", what, firstDiff(p.got, p.want))
		}
	}
	return same
}

func (c *stateChk) errs(k *Sim, what string, o *Obs) {
	for _, e := range o.Errs {
		c.bad(k, e.class, "%s: %s", what, e.msg)
	}
}

func (c *stateChk) Finish(k *Sim, ev *Ev) {
	if ev.Killed {
		return
	}
	st := c.st(k, ev)
	op := ev.Op
	s := st.slots[op.S]
	what := fmt.Sprintf("after op%d %s", op.U, op)
	if op.K == "tree" || op.K == "tnew" {
		c.treeOp(k, ev, what)
		return
	}
	if s == nil {
		return
	}
	if len(ev.Faulted) > 0 {
		c.cnt["faulted_ops"]++
	}
	switch op.K {
	case "cmd":
		c.command(k, ev, s, what)
	case "bulk":
		c.bulk(k, ev, s, what)
	case "raw":
		c.raw(k, ev, s, what)
	case "api":
		c.api(k, ev, s, what)
	case "undo", "redo":
		c.walk(k, ev, s, what)
	case "cundo":
		out := ev.Out.(*cmdOut)
		if !out.found {
			break
		}
		c.cnt["undone"]++
		o := observe(s.w, true)
		pre := s.model
		if o.W.canon() != pre.canon() {
			c.bad(k, "undo", "%s: executing and undoing does not restore the state before it: %s", what, firstDiff(o.W.canon(), pre.canon()))
		} else if len(o.Errs) > 0 {
			c.bad(k, "undo", "%s: executing and undoing leaves a contradiction: %s", what, o.Errs[0].msg)
		} else if out.err != nil && ev.Err == "" {
			c.bad(k, "undo", "%s: undoing a command that succeeded reports %v", what, out.err)
		}
		s.model = o.W
	case "seq":
		s.model = observe(s.w, false).W
		c.cnt["executed"]++
	case "unwind":
		out := ev.Out.(*cmdOut)
		if len(out.seq) > 0 {
			c.bad(k, "undo", "%s: %s", what, strings.Join(out.seq, "; "))
		}
		o := observe(s.w, true)
		if len(o.Errs) > 0 {
			c.bad(k, "undo", "%s: undoing leaves a contradiction: %s", what, o.Errs[0].msg)
		}
		s.model = o.W
		c.cnt["unwound"]++
	case "reload":
		c.reload(k, ev, s, what)
	case "fork":
		if ev.Failed {
			c.bad(k, "reload", "%s: %s", what, ev.Err)
			break
		}
		w := ev.Out.(*loadOut).w
		o := observe(w, true)
		if o.W.canon() != s.model.canon() {
			c.bad(k, "reload", "%s: %s", what, firstDiff(o.W.canon(), s.model.canon()))
		}
		st.slots[op.T] = &slot{w: w, app: mustApp(w), model: o.W, name: w.Name(), state: []*MWorld{o.W.clone()}}
		c.cnt["forks"]++
	case "meta":
		o := observe(s.w, true)
		c.errs(k, what, o)
		c.diffState(k, what, o, s.model)
		s.model = o.W
	case "equal", "replay":
		out := ev.Out.(*cmdOut)
		class := op.K
		if c.prop == "C19" {
			class = "isolation"
		}
		if len(out.seq) > 0 {
			c.bad(k, class, "%s: %s", what, out.seq[0])
		}
		c.cnt[op.K]++
	}
	if k.viol != nil {
		return
	}
	if len(st.slots) > 1 {
		touched := map[int]bool{op.S: true}
		if op.K == "fork" {
			touched[op.T] = true
		}
		for _, i := range slotIDs(st) {
			if touched[i] {
				continue
			}
			x := st.slots[i]
			o := observe(x.w, true)
			c.cnt["bystanders"]++
			if o.W.canon() != x.model.canon() {
				c.bad(k, "isolation", "%s: world %d, which was not touched, has changed: %s", what, i, firstDiff(o.W.canon(), x.model.canon()))
				x.model = o.W
			} else if len(o.Errs) > 0 && c.prop == "C19" && c.newErr(x, o) {
				c.bad(k, "isolation", "%s: world %d, which was not touched, contradicts itself: %s", what, i, o.Errs[0].msg)
			}
		}
	}
	if c.prop == "C20" && s.w != nil && (op.K != "cmd" || !op.C.query()) && (len(s.model.Items) < 20 || op.K != "cmd" || op.U%4 == 0) {
		c.texts(k, s, op, what)
	}
	if s != nil && s.w != nil {
		c.seen[strHash(s.model.canon())] = true
	}
}

// newErr: the contradiction was not there right after the world's own last operation.
func (c *stateChk) newErr(x *slot, o *Obs) bool { return x.nerr < len(o.Errs) }

func slotIDs(st *procState) (l []int) {
	for i := range st.slots {
		l = append(l, i)
	}
	sort.Ints(l)
	return
}

func wellformed(reply string) string {
	if _, err := parseReply(reply); err != nil {
		return err.Error()
	}
	p, err := grammar.Parse(reply)
	if err != nil {
		return fmt.Sprintf("the reply grammar does not accept it: %q", abbrev(reply, 200))
	}
	if p.StmtType != "Response" && p.StmtType != "Status" {
		return fmt.Sprintf("it is not a reply but a %s: %q", p.StmtType, abbrev(reply, 200))
	}
	return ""
}

func (c *stateChk) command(k *Sim, ev *Ev, s *slot, what string) {
	op := ev.Op
	out := ev.Out.(*cmdOut)
	cmd := op.C
	c.cnt["commands"]++
	if m := wellformed(out.reply); m != "" {
		c.bad(k, "wellformed", "%s: %s", what, m)
	}
	pre := s.model.clone()
	exp := s.model.Apply(cmd)
	o := observe(s.w, true)
	s.nerr = len(o.Errs)
	rep, err := parseReply(out.reply)
	if err != nil {
		c.bad(k, "reply", "%s: %v", what, err)
		if cmd.query() {
			c.bad(k, "query", "%s: %v", what, err)
		}
	} else {
		if rep.Code != 200 {
			c.cnt["error_replies"]++
			if o.W.canon() != pre.canon() {
				c.bad(k, "error-changed", "%s answered with an error (%s): %s", what, abbrev(out.reply, 120), firstDiff(o.W.canon(), pre.canon()))
			}
		}
		if rep.Code == 400 {
			c.bad(k, "valid-rejected", "%s: the command is in the command language and is answered %s", what, abbrev(out.reply, 120))
		}
		ref := s.model
		if cmd.query() {
			ref = o.W // a reply is compared with the current state itself
			exp = o.W.clone().Apply(cmd)
		}
		if m := exp.match(rep, ref); m != "" {
			if exp.Status == "error" && rep.Code == 200 {
				c.bad(k, "should-error", "%s: %s", what, m)
			}
			if cmd.query() {
				c.bad(k, "query", "%s: the answer %s; reply %q", what, m, abbrev(out.reply, 200))
			} else {
				c.bad(k, "reply", "%s: the answer %s; reply %q", what, m, abbrev(out.reply, 200))
			}
		}
	}
	if cmd.query() {
		c.cnt["queries"]++
		if o.W.canon() != pre.canon() {
			c.bad(k, "query-changed", "%s: the query changed the world: %s", what, firstDiff(o.W.canon(), pre.canon()))
		}
	}
	c.errs(k, what, o)
	ok := c.diffState(k, what, o, s.model)
	if !ok && c.prop == "C19" && s.solo && k.viol == nil {
		// is it this world alone that goes wrong, or do the others matter?
		var so *MWorld
		freshGlobals().with(func() {
			w := world.CreateWorld(s.name)
			a := mustApp(w)
			for i, l := range s.lines {
				lineAgain(a, l, s.lineCmd[i])
			}
			so = observe(w, false).W
		})
		if so.canon() != o.W.canon() {
			c.bad(k, "isolation", "%s: the same commands give another world when it is the only one: %s", what, firstDiff(o.W.canon(), so.canon()))
		}
	}
	s.model = o.W
	if out.twinRan && k.viol == nil {
		class, who := "reload", "the original it was loaded from"
		switch c.prop {
		case "C17":
			class, who = "replay", "another replica with the same history"
		case "C14":
			class, who = "error-later", "a world that never received the failed commands"
		}
		c.cnt["twin_commands"]++
		a, b := canonReply(out.reply, cmd), canonReply(out.twin, cmd)
		if a != b {
			c.bad(k, class, "%s: the answer differs from that of %s: %s", what, who, firstDiff(a, b))
		}
		var to *Obs
		s.twinG.with(func() { to = observe(s.twinW, false) })
		if to.W.canon() != o.W.canon() {
			c.bad(k, class, "%s: the world differs from %s: %s", what, who, firstDiff(o.W.canon(), to.W.canon()))
		}
		if c.prop == "C17" && k.viol == nil {
			for i := 0; i < 2; i++ {
				if !world.WorldEqual(s.w, s.twinW) || !world.WorldEqual(s.twinW, s.w) {
					c.bad(k, "equal", "%s: two worlds with the same parts are reported as different", what)
				}
			}
		}
	}
	c.history(k, ev, s, what, rep, exp)
}

func histLines(a app.App) (l []string) {
	for _, c := range a.History() {
		l = append(l, c.String())
	}
	return
}

// history follows the command history of the application (C16).
func (c *stateChk) history(k *Sim, ev *Ev, s *slot, what string, rep *Reply, exp Expect) {
	line := ev.Op.C.Line()
	h := s.app.History()
	ok := rep != nil && rep.Code == 200
	recorded := len(h) == s.cur+1
	if !ok && !recorded && len(h) == s.cur {
		if !s.app.CanRedo() {
			s.hist, s.state = s.hist[:s.cur], s.state[:s.cur+1]
		}
		c.checkCursor(k, s, what)
		return
	}
	s.hist = append(append([]string{}, s.hist[:s.cur]...), line)
	s.state = append(append([]*MWorld{}, s.state[:s.cur+1]...), s.model.clone())
	s.cur++
	c.checkCursor(k, s, what)
}

func (c *stateChk) checkCursor(k *Sim, s *slot, what string) {
	h := histLines(s.app)
	want := s.hist[:s.cur]
	if strings.Join(h, "\n") != strings.Join(want, "\n") {
		c.bad(k, "cursor", "%s: the reported history is %q, executed are %q", what, h, want)
		c.resetHist(s)
		return
	}
	if s.app.CanUndo() != (s.cur > 0) {
		c.bad(k, "cursor", "%s: can-undo is %v with %d commands executed", what, s.app.CanUndo(), s.cur)
	}
	if s.app.CanRedo() != (s.cur < len(s.hist)) {
		c.bad(k, "cursor", "%s: can-redo is %v with %d commands undone", what, s.app.CanRedo(), len(s.hist)-s.cur)
	}
	if c.prop == "C16" {
		// What a caller does with the list it was given changes nothing, and nothing changes the list.
		if s.heldHist != nil {
			c.cnt["kept_history_lists"]++
			var now []string
			for _, x := range s.heldHist {
				now = append(now, x.String())
			}
			if !slices.Equal(now, s.heldLines) {
				c.bad(k, "kept", "%s: the history list reported earlier, %q, has become %q", what, s.heldLines, now)
			}
		}
		if l := s.app.History(); s.cur%2 == 0 {
			s.heldHist, s.heldLines = l, h
		} else if len(l) > 0 {
			x := append(l, l[0], l[0])
			for i := range x {
				x[i] = l[0]
			}
			slices.Reverse(l)
		}
	}
}

func (c *stateChk) resetHist(s *slot) {
	s.app = mustApp(s.w)
	s.hist, s.cur, s.state = nil, 0, []*MWorld{s.model.clone()}
}

func (c *stateChk) walk(k *Sim, ev *Ev, s *slot, what string) {
	c.cnt[ev.Op.K]++
	if ev.Err == "verif: no such method" { // see tools/hooks
		c.cnt["history_walk_not_reached"]++
		return
	}
	to := s.cur
	if ev.Op.K == "undo" && to > 0 {
		to--
		c.cnt["effective_"+ev.Op.K]++
	} else if ev.Op.K == "redo" && to < len(s.hist) {
		to++
		c.cnt["effective_"+ev.Op.K]++
	}
	o := observe(s.w, true)
	c.errs(k, what, o)
	if ev.Failed {
		c.bad(k, "cursor", "%s: reports %s", what, ev.Err)
	}
	if to < len(s.state) && o.W.canon() != s.state[to].canon() {
		c.bad(k, "cursor", "%s: the world is not the one at point %d of the history: %s", what, to, firstDiff(o.W.canon(), s.state[to].canon()))
	}
	s.model = o.W
	s.nerr = len(o.Errs)
	if k.viol != nil {
		return
	}
	if o.W.canon() != s.state[to].canon() {
		c.resetHist(s)
		return
	}
	s.cur = to
	c.checkCursor(k, s, what)
}

func (c *stateChk) raw(k *Sim, ev *Ev, s *slot, what string) {
	out := ev.Out.(*cmdOut)
	c.cnt["raw_lines"]++
	if m := wellformed(out.reply); m != "" {
		c.bad(k, "wellformed", "%s: %s", what, m)
	}
	o := observe(s.w, true)
	same := o.W.canon() == s.model.canon()
	h := s.app.History()
	rep, err := parseReply(out.reply)
	invalid := ev.Op.B == "invalid" || err == nil && rep.Code == 400
	if invalid {
		c.cnt["invalid_lines"]++
		if !same {
			c.bad(k, "invalid-changed", "%s: an invalid line changed the world: %s", what, firstDiff(o.W.canon(), s.model.canon()))
		}
		if len(h) != s.cur {
			c.bad(k, "invalid-changed", "%s: an invalid line changed the history from %d to %d entries", what, s.cur, len(h))
		}
		if err == nil && rep.Code == 200 {
			c.bad(k, "invalid-changed", "%s: an invalid line is answered with success: %q", what, abbrev(out.reply, 200))
		}
	}
	if err == nil && rep.Code != 200 && !same {
		c.bad(k, "error-changed", "%s answered with an error: %s", what, firstDiff(o.W.canon(), s.model.canon()))
	}
	c.errs(k, what, o)
	s.model = o.W
	if len(h) != s.cur || !invalid {
		s.hist = histLines(s.app)
		s.cur = len(s.hist)
		s.state = make([]*MWorld, s.cur+1)
		for i := range s.state {
			s.state[i] = s.model.clone()
		}
	}
}

func (c *stateChk) reload(k *Sim, ev *Ev, s *slot, what string) {
	c.cnt["reloads"]++
	if ev.Failed {
		if len(ev.Faulted) == 0 {
			c.bad(k, "reload", "%s: %s; the world was %s", what, ev.Err, abbrev(s.w.String(), 600))
		}
		return
	}
	lo := ev.Out.(*loadOut)
	w := lo.w
	var before *Obs
	lo.oldG.with(func() { before = observe(s.w, false) })
	o := observe(w, true)
	if o.W.canon() != before.W.canon() {
		c.bad(k, "reload", "%s: the loaded world differs: %s", what, firstDiff(o.W.canon(), before.W.canon()))
	} else if !world.WorldEqual(s.w, w) || !world.WorldEqual(w, s.w) {
		c.bad(k, "reload", "%s: the loaded world has the same parts, but the library calls it different", what)
	}
	if len(o.Errs) > 0 {
		c.bad(k, "reload", "%s: the loaded world contradicts itself: %s", what, o.Errs[0].msg)
		c.errs(k, what, o)
	}
	if k.viol != nil {
		return
	}
	if c.prop == "C04" {
		s.twin, s.twinW, s.twinMode, s.twinG = s.app, s.w, "", lo.oldG
	}
	s.w = w
	s.model = o.W
	s.solo = false
	s.nerr = len(o.Errs)
	c.resetHist(s)
}

func (c *stateChk) End(k *Sim) {}

func (c *stateChk) Nontrivial(k *Sim) bool {
	for s, n := range c.cnt {
		k.stats["check:"+s] += n
	}
	k.stats["check:world_states"] += len(c.seen)
	n := c.cnt
	switch c.prop {
	case "C04":
		return n["reloads"] > 0 && n["twin_commands"] > 0
	case "C12":
		return n["queries"] > 2
	case "C14":
		return n["error_replies"] > 0
	case "C15":
		return n["undone"]+n["unwound"] > 0
	case "C16":
		return n["effective_undo"] > 0 && n["effective_redo"] > 0
	case "C17":
		return n["twin_commands"] > 3
	case "C18":
		return n["raw_lines"] > 2
	case "C19":
		return n["bystanders"] > 3
	case "C20":
		return n["texts_read"] > 10
	case "C24":
		return n["tree_moves"] > 0 && n["tree_calls"] > 4
	case "C23":
		return n["api_calls"] > 5 && n["api_queries"] > 0
	}
	return n["commands"] > 3 && len(c.seen) > 2
}

// ---- equality (C17) ----------------------------------------------------------------

func init() {
	moreOps["equal"] = opEqual
	moreOps["replay"] = opReplay
}

func opReplay(k *Sim, p *Proc, ev *Ev) {
	op := ev.Op
	s := p.st.slot(op.S, op.N)
	out := &cmdOut{}
	ev.Out = out
	if k.plan.Prop == "C19" && !s.solo {
		return // its commands are not all of its history
	}
	here := install(freshGlobals()) // in another process
	defer install(here)
	w := world.CreateWorld(s.name)
	a := mustApp(w)
	for i, l := range s.lines {
		seedMaps(k.plan, op.U, 100+i)
		r := lineAgain(a, l, s.lineCmd[i])
		if r != s.replies[i] {
			out.seq = append(out.seq, fmt.Sprintf("replaying line %d %q in a fresh world gives another answer: %s", i, l, firstDiff(r, s.replies[i])))
			return
		}
	}
	got := observe(w, false).W.canon()
	install(here)
	want := observe(s.w, false).W.canon()
	if got != want {
		out.seq = append(out.seq, "replaying the whole history in a fresh world gives another world: "+firstDiff(got, want))
	} else if !world.WorldEqual(w, s.w) || !world.WorldEqual(s.w, w) {
		out.seq = append(out.seq, "the replayed world has the same parts, but is reported as different")
	}
}

// lineAgain carries out a recorded line, undo or redo.
func lineAgain(a app.App, l string, c *Cmd) string {
	var err error
	n := 0
	switch l {
	case "\x01undo":
		err, n = app.VerifUndo(a)
	case "\x01redo":
		err, n = app.VerifRedo(a)
	default:
		return canonReply(a.Exec(l), c)
	}
	return fmt.Sprintf("%v %d", err != nil, n)
}

func sp(s string) *string { return &s }
func bp(b bool) *bool     { return &b }

// worldOf builds a real world from a model, in an order drawn from r.
func worldOf(m *MWorld, r *Rand) world.World {
	w := world.CreateWorld(m.Name)
	w.SetId(m.ID)
	w.SetExpanded(m.Exp)
	w.SetVersion(m.Ver)
	ids := m.ids()
	shuffle(r, len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	for _, id := range ids {
		it := m.Items[id]
		w.ItemCreate(id, world.ItemParams{})
		p := world.ItemParams{Name: sp(it.Name), Mechanism: sp(it.Mech), Expanded: sp(it.Exp), External: bp(it.Ext)}
		if it.Type != "" {
			p.Type = sp(it.Type)
		}
		w.ItemSet(id, p)
	}
	shuffle(r, len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	for _, id := range ids {
		if m.Parent[id] != "" {
			w.Nest(id, m.Parent[id])
		}
	}
	ks := m.relKeys()
	shuffle(r, len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, key := range ks {
		x := m.Rels[key]
		w.RelCreate(key[0], key[1], world.RelParams{Verb: sp(x.Verb), Mechanism: sp(x.Mech), Expanded: sp(x.Exp), Async: bp(x.Async)})
	}
	return w
}

func shuffle(r *Rand, n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

// near is another text that differs from s in little.
func near(r *Rand, s string) string {
	b := []byte(s)
	for try := 0; try < 6; try++ {
		t := s
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		switch r.Intn(9) {
		case 0:
			t = s + "x"
		case 1:
			t = " " + s
		case 2:
			t = s + " "
		case 3: // the other case
			c := append([]byte{}, b...)
			for j := range c {
				k := (i + j) % len(c)
				if l := c[k] | 32; l >= 'a' && l <= 'z' {
					c[k] ^= 32
					break
				}
			}
			t = string(c)
		case 4:
			if len(b) > 0 {
				t = s[:len(b)-1]
			}
		case 5:
			if len(b) > 0 {
				t = s[1:]
			}
		case 6: // one character twice
			if len(b) > 0 {
				t = s[:i] + string(b[i]) + s[i:]
			}
		case 7:
			if i > 0 {
				c := append([]byte{}, b...)
				c[i-1], c[i] = c[i], c[i-1]
				t = string(c)
			}
		case 8:
			if len(b) > 0 {
				c := append([]byte{}, b...)
				c[i] = valueChars[r.Intn(len(valueChars))]
				t = string(c)
			}
		}
		if t != s {
			return t
		}
	}
	return s + "x"
}

// variant changes one observable part of a model.
func variant(m *MWorld, r *Rand) (*MWorld, string) {
	v := m.clone()
	ids, ks := m.ids(), m.relKeys()
	for try := 0; try < 20; try++ {
		switch r.Intn(10) {
		case 9:
			v.Name = near(r, v.Name)
			return v, "name"
		case 0:
			v.Exp = near(r, v.Exp)
			return v, "description"
		case 1:
			v.Ver++
			return v, "version"
		case 2:
			v.ID = near(r, v.ID)
			return v, "id"
		case 3:
			if len(ids) > 0 {
				id := ids[r.Intn(len(ids))]
				it := v.Items[id]
				switch r.Intn(5) {
				case 0:
					it.Name = near(r, it.Name)
				case 1:
					it.Mech = near(r, it.Mech)
				case 2:
					it.Exp = near(r, it.Exp)
				case 3:
					it.Ext = !it.Ext
				case 4:
					if it.Type == "queue" {
						it.Type = "code"
					} else {
						it.Type = "queue"
					}
				}
				v.Items[id] = it
				return v, fmt.Sprintf("attribute of item %q", id)
			}
		case 4:
			if len(ids) > 1 {
				a, b := ids[r.Intn(len(ids))], ids[r.Intn(len(ids))]
				if a != b && m.Parent[a] != b && !m.inside(b, a) {
					v.Parent[a] = b
					return v, fmt.Sprintf("parent of item %q", a)
				}
				if m.Parent[a] != "" {
					v.Parent[a] = ""
					return v, fmt.Sprintf("parent of item %q", a)
				}
			}
		case 5:
			if len(ks) > 0 {
				key := ks[r.Intn(len(ks))]
				x := v.Rels[key]
				switch r.Intn(4) {
				case 0:
					x.Verb = near(r, x.Verb)
				case 1:
					x.Mech = near(r, x.Mech)
				case 2:
					x.Exp = near(r, x.Exp)
				case 3:
					x.Async = !x.Async
				}
				v.Rels[key] = x
				return v, fmt.Sprintf("attribute of relationship %q", key)
			}
		case 6:
			if len(ks) > 0 { // same number of relationships, one with another end
				key := ks[r.Intn(len(ks))]
				nk := [2]string{key[0], ids[r.Intn(len(ids))]}
				if r.P(1, 2) {
					nk = [2]string{ids[r.Intn(len(ids))], key[1]}
				}
				if _, dup := v.Rels[nk]; !dup {
					v.Rels[nk] = v.Rels[key]
					delete(v.Rels, key)
					return v, fmt.Sprintf("end of relationship %q", key)
				}
			}
		case 7:
			if len(ids) > 1 {
				a, b := ids[r.Intn(len(ids))], ids[r.Intn(len(ids))]
				key := [2]string{a, b}
				if _, dup := v.Rels[key]; dup {
					delete(v.Rels, key)
				} else {
					v.Rels[key] = MRel{}
				}
				return v, fmt.Sprintf("existence of relationship %q", key)
			}
		case 8:
			v.put(fmt.Sprintf("extra%d", r.Intn(3)), MItem{})
			return v, "existence of an item"
		}
	}
	v.Exp += "x"
	return v, "description"
}

// treeText renders a hierarchy with children in an order drawn from r.
func treeText(m *MWorld, parent string, r *Rand) string {
	var l []string
	ch := m.children(parent)
	shuffle(r, len(ch), func(i, j int) { ch[i], ch[j] = ch[j], ch[i] })
	for _, id := range ch {
		it := m.Items[id]
		s := fmt.Sprintf("item \"%s\"", id)
		if it.Type != "" {
			s += " type=" + it.Type
		}
		for _, p := range [][2]string{{"name", it.Name}, {"mechanism", it.Mech}, {"expanded", it.Exp}} {
			if p[1] != "" {
				s += fmt.Sprintf(" %s=\"%s\"", p[0], p[1])
			}
		}
		if it.Ext {
			s += " external=true"
		}
		l = append(l, "tree{"+s+"::["+treeText(m, id, r)+"]}")
	}
	return strings.Join(l, " ")
}

func opEqual(k *Sim, p *Proc, ev *Ev) {
	op := ev.Op
	s := p.st.slot(op.S, op.N)
	out := &cmdOut{}
	ev.Out = out
	r := newRand(mix(k.plan.Seed, uint64(op.U), uint64(op.X)))
	base := s.w
	m := observe(base, false).W
	if r.P(1, 2) { // with a description, which no command sets, and another identity
		m.Exp, m.Ver = r.Pick(valuePool)+r.Pick([]string{"", "", " Of The World", "x"}), 1+r.Intn(3)
		if r.P(1, 2) {
			m.ID = r.Pick([]string{"w-1", "The World", "7"})
		}
		base = worldOf(m, r)
		m = observe(base, false).W
	}
	bad := func(f string, a ...any) { out.seq = append(out.seq, fmt.Sprintf(f, a...)) }
	same := worldOf(m, r)
	if observe(same, false).W.canon() != m.canon() {
		return // the world cannot be rebuilt: another property's business
	}
	for i := 0; i < 3; i++ {
		seedMaps(k.plan, op.U, 40+i)
		if !world.WorldEqual(base, same) || !world.WorldEqual(same, base) {
			bad("two worlds with equal parts are reported as different")
			return
		}
	}
	for j := 0; j < 6; j++ {
		v, part := variant(m, r)
		other := worldOf(v, r)
		if c := observe(other, false).W.canon(); c != v.canon() {
			continue
		}
		for i := 0; i < 2; i++ {
			seedMaps(k.plan, op.U, 60+10*j+i)
			if world.WorldEqual(base, other) || world.WorldEqual(other, base) {
				bad("two worlds that differ in the %s are reported as equal", part)
				return
			}
		}
		if strings.Contains(part, "item") {
			t1, t2, t3 := treeText(m, "", r), treeText(m, "", r), treeText(v, "", r)
			a, _, e1 := world.TreeFromString("tree{nil::[" + t1 + "]}")
			b, _, e2 := world.TreeFromString("tree{nil::[" + t2 + "]}")
			c, _, e3 := world.TreeFromString("tree{nil::[" + t3 + "]}")
			if e1 != nil || e2 != nil || e3 != nil {
				continue
			}
			for i := 0; i < 2; i++ {
				seedMaps(k.plan, op.U, 200+10*j+i)
				if !world.TreeEqual(a, b) || !world.TreeEqual(b, a) {
					bad("two hierarchies with equal parts are reported as different: %s / %s", abbrev(t1, 200), abbrev(t2, 200))
					return
				}
				if m.nestText() != v.nestText() || m.itemsText() != v.itemsText() {
					if world.TreeEqual(a, c) || world.TreeEqual(c, a) {
						bad("two hierarchies that differ in the %s are reported as equal: %s / %s", part, abbrev(t1, 200), abbrev(t3, 200))
						return
					}
				}
			}
		}
	}
}

// ---- workloads -----------------------------------------------------------------------

func statePlan(prop string, seed uint64) *Plan {
	g := newGen(seed)
	r := newRand(mix(seed, 31))
	p := &Plan{Prop: prop, Seed: seed, MapSeed: mix(seed, 32), Prof: &Profile{}}
	if r.P(1, 10) {
		for i := 0; i < 10; i++ {
			g.ids = append(g.ids, fmt.Sprintf("n%d", i))
		}
	}
	w := merge(mutWeights, queryWeights)
	switch prop {
	case "C04":
		w = merge(scale(mutWeights, 4), queryWeights)
	case "C10":
		w = merge(mutWeights, map[string]int{"nest": 20, "free": 10, "idelete": 8, "icreate": 10, "inq": 3, "iin": 3})
	case "C11":
		w = merge(scale(mutWeights, 3), queryWeights)
	case "C12":
		w = merge(mutWeights, scale(queryWeights, 4))
	case "C13":
		w = merge(mutWeights, map[string]int{"rcreate": 15, "rcos": 8, "rset": 6, "idelete": 6, "iset": 8, "rdelete": 5, "rfetch": 3, "rlist": 2})
	case "C14":
		w = merge(mutWeights, map[string]int{"nest": 10, "free": 8, "iset": 4, "rset": 6, "rclear": 4, "rcreate": 6, "ifetch": 4, "rfetch": 4, "iin": 3})
	case "C15", "C16":
		w = merge(scale(mutWeights, 3), queryWeights)
	case "C19":
		if r.P(1, 2) { // asked a lot, also across levels
			w = merge(mutWeights, queryWeights, map[string]int{"rfetch": 15, "to": 10, "from": 10, "inq": 6, "iin": 6, "nest": 8, "rset": 6, "iset": 6})
		}
	case "C23":
		w = apiWeights
		if p.Wild = r.P(1, 3); p.Wild {
			for i := 0; i < 4; i++ {
				g.ids = append(g.ids, r.Pick(wildPool))
			}
		}
	}
	g.weights(w)
	n := 6 + r.Intn(26)
	long := r.P(1, 40) || prop == "C16" && r.P(1, 20) // a few long sessions
	if long {
		n = 80 + r.Intn(320)
		if prop == "C15" {
			n = 40
		}
		if r.P(1, 2) {
			for i := 0; i < 60; i++ {
				g.ids = append(g.ids, fmt.Sprintf("m%d", i))
			}
		}
	}
	burst := 0
	slots := 1
	if prop == "C19" {
		slots = 2 + r.Intn(3)
	}
	var ops []*Op
	twins := prop == "C19" && r.P(1, 3) // worlds that have much in common
	name := func() string {
		if twins || r.P(1, 2) {
			return "w"
		}
		return g.worldName()
	}
	for i := 0; i < slots; i++ {
		o := g.op("new")
		o.S, o.N = i, name()
		ops = append(ops, o)
	}
	cmdOp := func(kind string, s int) *Op {
		o := g.op(kind)
		o.S = s
		o.C = g.cmd(g.draw(), s)
		return o
	}
	// a first few commands build something
	for i := 0; i < 3+r.Intn(5) && prop != "C23"; i++ {
		for s := 0; s < slots; s++ {
			o := g.op("cmd")
			o.S = s
			switch r.Intn(4) {
			case 0:
				o.C = g.cmd("nest", s)
			case 1:
				o.C = g.cmd("rcreate", s)
			default:
				o.C = g.cmd("icreate", s)
			}
			if last := len(ops) - 1; twins && s > 0 && r.P(5, 6) {
				c := *ops[last].C
				o.C = &c
				if len(c.Ids) > 0 && r.P(1, 3) {
					o.C.Ids = []string{g.existing(g.model(s), 95)}
				}
				g.model(s).Apply(o.C)
			}
			ops = append(ops, o)
		}
	}
	big := !p.Wild && g.r.P(1, 150) // a few large worlds
	if big && n > 24 {
		n = 24
	}
	sweeps := (prop == "C12" || prop == "C19" || prop == "C04") && r.P(1, 6) || twins && r.P(1, 2) // everything is asked now and then
	if twins {                                                                                     // each command is given several times
		n = 3 + n/3
	}
	for i := 0; i < n; i++ {
		s := r.Intn(slots)
		x := r.Intn(100)
		var o *Op
		if big && (i == 1 || i == n/2) {
			ops = append(ops, g.addBulk(s, prop))
		}
		if sweeps && r.P(1, 6) {
			q := g.addSweep(s)
			ops = append(ops, q)
			for t := 0; t < slots && prop == "C19"; t++ { // of all worlds alike
				if t != s {
					o := g.op("bulk")
					o.S, o.C = t, &Cmd{V: "sweep", Ids: append([]string{}, q.C.Ids...)}
					ops = append(ops, o)
				}
			}
		}
		switch prop {
		case "C04":
			switch {
			case x < 16:
				o = g.op("reload")
				o.S = s
			case x < 26:
				o = g.op("meta")
				o.S, o.X, o.T, o.L, o.N = s, r.Intn(4), r.Intn(12), g.value(), g.worldName()
			}
		case "C10", "C13", "C20":
			switch {
			case x < 4:
				o = g.op("reload")
			case x < 12:
				o = g.op("undo")
			case x < 15:
				o = g.op("redo")
			}
		case "C11", "C12":
			switch {
			case x < 4:
				o = g.op("reload")
			}
		case "C15":
			if x < 55 {
				o = cmdOp("cundo", s)
			} else if x < 75 {
				m := 2 + r.Intn(8)
				if long && r.P(1, 6) {
					m *= 12
				}
				for j := 0; j < m; j++ {
					ops = append(ops, cmdOp("seq", s))
				}
				o = g.op("unwind")
				o.X = 1000
				if r.P(1, 4) {
					o.X = 1 + r.Intn(3)
				}
			}
		case "C16":
			kind := ""
			switch {
			case long && i < n/3: // a long history first, then long stretches of undo and redo
			case long && burst == 0 && r.P(1, 8):
				burst = []int{-1, 1}[r.Intn(2)] * (1 + r.Intn(n/2))
			case long && burst == 0:
			case x < 30 && burst == 0:
				kind = "undo"
			case x < 55 && burst == 0:
				kind = "redo"
			}
			if burst < 0 {
				kind, burst = "undo", burst+1
			} else if burst > 0 {
				kind, burst = "redo", burst-1
			}
			if kind != "" {
				o = g.op(kind)
			}
		case "C17":
			if x < 10 {
				o = g.op("equal")
				o.X = r.Intn(1 << 20)
			} else if x < 13 {
				o = g.op("replay")
			}
		case "C23":
			if !p.Wild && x < 10 {
				o = g.op("cmd")
				o.S, o.C = s, g.cmd([]string{"icreate", "nest", "rcos", "iset", "free", "idelete", "rset", "world"}[r.Intn(8)], s)
				break
			}
			c, q := g.apiCmd(s, p.Wild)
			o = g.op("api")
			o.S, o.C, o.X, o.T, o.L = s, c, q.X, q.T, q.L
		case "C18":
			switch {
			case x < 30:
				o = g.op("raw")
				o.L, o.B = g.garbage(), ""
				if invalidLine(o.L) {
					o.B = "invalid"
				}
			case x < 60:
				o = g.op("raw")
				o.L = g.mutateLine(g.cmd(g.draw(), s).Line())
			case x < 65:
				o = g.op("undo")
			}
		case "C19":
			if x < 6 {
				o = g.op("fork")
				o.S, o.T = s, r.Intn(slots+1)
				if o.T == s {
					o.T = slots
				}
				g.m[o.T] = g.model(s).clone()
				ops = append(ops, o)
				for j := r.Intn(5); j > 0; j-- { // both are asked and changed in turn
					ops = append(ops, cmdOp("cmd", []int{s, o.T}[r.Intn(2)]))
				}
				o = cmdOp("cmd", s)
			} else if x < 8 {
				o = g.op("new")
				o.S, o.N = s, name()
				g.m[s] = newMWorld("")
			} else if x < 10 {
				o = g.op("reload")
				o.S = s
			} else if x < 14 {
				o = g.op("undo")
				o.S = s
			} else if x < 16 {
				o = g.op("redo")
				o.S = s
			}
			if o == nil && r.P(1, 5) {
				s = slots
			}
		}
		if o == nil {
			o = cmdOp("cmd", s)
		}
		ops = append(ops, o)
		for t := 0; t < slots && twins && o.K == "cmd"; t++ { // the others are told much the same
			if t != o.S && r.P(3, 4) {
				q := g.op("cmd")
				c := *o.C
				c.Ids = append([]string{}, c.Ids...)
				if len(c.Ids) > 0 && r.P(1, 3) {
					c.Ids[0] = g.existing(g.model(t), 95)
				}
				q.S, q.C = t, &c
				g.model(t).Apply(q.C)
				ops = append(ops, q)
			}
		}
	}
	switch prop {
	case "C04":
		ops = append(ops, g.op("reload"))
	case "C19":
		for t := 0; t < slots; t++ {
			o := g.op("replay")
			o.S = t
			ops = append(ops, o)
		}
	case "C17":
		o := g.op("equal")
		o.X = r.Intn(1 << 20)
		ops = append(ops, o, g.op("replay"))
	case "C15":
		for j := 0; j < 4+r.Intn(8); j++ {
			ops = append(ops, cmdOp("seq", 0))
		}
		o := g.op("unwind")
		o.X = 1000
		ops = append(ops, o)
	}
	p.Procs = [][]*Op{ops}
	if prop == "C18" {
		p.Prof.Stdout, p.Prof.Max = []int{0, 100000, 400000}[r.Intn(3)], 50
	}
	p.Setup = &Setup{Clutter: r.P(1, 5)}
	return p
}
