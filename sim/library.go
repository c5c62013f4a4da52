package main

// C23: the world as a library object, called directly.

import (
	stderrors "errors"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/world"
)

func init() { moreOps["api"] = opAPI }

// Texts a caller can pass although no command line can carry them.
var wildPool = []string{"é", "日本語", "a\"b", "\"", "\"\"", "a\nb", "\t", "a\"::\"b", "b\"::\"c", "\\\"::\\\"", "\\xff", "\ufffd", "\x00", "a\x00", "/", "<b>", "'", "{}", "a|b", "null", "\u2028", "a\rb", "::\"", "\"::"}

// apiOut is what one direct call returned and what was to be seen right after it.
type apiOut struct {
	panicked string
	err      error // Err()
	item     world.Item
	itemErr  error
	rel      world.Rel
	relErr   error
	items    []world.Item
	rels     []world.Rel
	ids      []string
	id       string
	ok       bool
	other    bool   // the returned handle is another world
	kept     string // a list returned earlier has changed
}

// heldList is a list that a call returned, and what was in it then.
type heldList struct {
	call          string
	items, items0 []world.Item
	rels, rels0   []world.Rel
	ids, ids0     []string
}

func (o *apiOut) String() string {
	return fmt.Sprintf("%v %q %v %q %v %v %v", o.err != nil, o.item.Id, o.itemErr != nil, o.rel.From.Id+">"+o.rel.To.Id, len(o.items)+len(o.rels)+len(o.ids), o.id, o.ok)
}

func itemParams(par [][2]string) (p world.ItemParams, scribble func()) {
	for _, x := range par {
		v := x[1]
		b := v == "true"
		switch x[0] {
		case "name":
			p.Name = &v
		case "mechanism":
			p.Mechanism = &v
		case "expanded":
			p.Expanded = &v
		case "type":
			p.Type = &v
		case "external":
			p.External = &b
		}
	}
	return p, func() {
		for _, s := range []*string{p.Name, p.Mechanism, p.Expanded, p.Type} {
			if s != nil {
				*s = "scribble"
			}
		}
		if p.External != nil {
			*p.External = !*p.External
		}
	}
}

func relParams(par [][2]string) (p world.RelParams, scribble func()) {
	for _, x := range par {
		v := x[1]
		b := v == "true"
		switch x[0] {
		case "verb":
			p.Verb = &v
		case "mechanism":
			p.Mechanism = &v
		case "expanded":
			p.Expanded = &v
		case "async":
			p.Async = &b
		}
	}
	return p, func() {
		for _, s := range []*string{p.Verb, p.Mechanism, p.Expanded} {
			if s != nil {
				*s = "scribble"
			}
		}
		if p.Async != nil {
			*p.Async = !*p.Async
		}
	}
}

func opAPI(k *Sim, p *Proc, ev *Ev) {
	op := ev.Op
	s := p.st.slot(op.S, op.N)
	out := &apiOut{}
	ev.Out = out
	w := s.w
	c := op.C
	limit := c.Limit
	if limit < 0 {
		limit = 0
	}
	// A call that fails and changes nothing, right before: nothing of it may show in what follows.
	const none = "no such item"
	switch c.Style >> 2 & 7 {
	case 1:
		w.ItemSet(none, world.ItemParams{})
	case 2:
		w.RelCreate(none, none, world.RelParams{})
	case 3:
		w.RelSet(none, none, world.RelParams{})
	case 4:
		w.Nest(none, none)
	case 5:
		w.ItemCreate("", world.ItemParams{})
	}
	// A call on another world, before the outcome of this one is asked for.
	elsewhere := func() {
		how := c.Style >> 5 & 15
		if how > 5 {
			return
		}
		if p.st.other == nil || how == 0 {
			p.st.other = world.CreateWorld("other").ItemCreate("o1", world.ItemParams{}).ItemCreate("o2", world.ItemParams{})
			p.st.other.RelCreate("o1", "o2", world.RelParams{})
		}
		switch o := p.st.other; how {
		case 1:
			o.ItemSet("o1", world.ItemParams{Name: sp(fmt.Sprint("other ", op.U))})
		case 2:
			o.RelSet("o1", "o2", world.RelParams{Verb: sp(fmt.Sprint("other ", op.U))})
		case 3:
			o.RelSet("o1", none, world.RelParams{})
		case 4:
			o.Nest("o1", "o2")
		case 5:
			o.ItemDelete("o2")
			p.st.other = nil
		}
	}
	var ret world.World
	switch c.V {
	case "icreate", "iset":
		par, scribble := itemParams(c.Par)
		var wi world.WorldWithItem
		if c.V == "icreate" {
			wi = w.ItemCreate(c.A, par)
		} else {
			wi = w.ItemSet(c.A, par)
		}
		elsewhere()
		out.item, out.itemErr = wi.Item()
		scribble()
		ret = wi
	case "nest", "free":
		var wi world.WorldWithItem
		if c.V == "nest" {
			wi = w.Nest(c.B, c.A)
		} else {
			wi = w.Free(c.A)
		}
		elsewhere()
		out.item, out.itemErr = wi.Item()
		ret = wi
	case "idelete":
		ret = w.ItemDelete(c.A)
	case "rcreate", "rset":
		par, scribble := relParams(c.Par)
		var wr world.WorldWithRel
		if c.V == "rcreate" {
			wr = w.RelCreate(c.A, c.B, par)
		} else {
			wr = w.RelSet(c.A, c.B, par)
		}
		elsewhere()
		out.rel, out.relErr = wr.Rel()
		scribble()
		ret = wr
	case "rdelete":
		ret = w.RelDelete(c.A, c.B)
	case "meta":
		switch op.X % 4 {
		case 0:
			ret = w.SetVersion(op.T)
		case 1:
			ret = w.SetId(op.L)
		case 2:
			ret = w.SetName(op.L)
		case 3:
			ret = w.SetExpanded(op.L)
		}
	case "ifetch":
		out.item, out.ok = w.ItemFetch(c.A)
	case "ilist":
		out.items = w.ItemList(limit)
	case "iin":
		out.items, out.ok = w.ItemComponents(c.A)
	case "comp":
		out.ids, out.ok = w.Components(c.A)
	case "parent":
		out.id, out.ok = w.Parent(c.A)
	case "iparent":
		out.item, out.ok = w.ItemParent(c.A)
	case "inq":
		out.ok = w.In(c.A, c.B, c.Strict)
	case "rfetch":
		out.rels = w.RelFetch(c.A, c.B, c.Strict)
	case "to":
		out.rels = w.RelTo(c.A, c.Strict)
	case "from":
		out.rels = w.RelFrom(c.A, c.Strict)
	case "rlist":
		out.rels = w.RelList(limit)
	default:
		panic("api: " + c.V)
	}
	if ret != nil {
		out.err = ret.Err()
		if out.err == nil {
			out.err = w.Err()
		}
		if c.Style&1 == 1 {
			s.w = ret // go on with the handle that the call returned
		}
	}
	// What a caller does with the lists it was given is its own business, and so is what it keeps.
	items, rels, ids := out.items, out.rels, out.ids
	for _, h := range s.held {
		if !slices.Equal(h.items, h.items0) || !slices.Equal(h.rels, h.rels0) || !slices.Equal(h.ids, h.ids0) {
			out.kept = fmt.Sprintf("the list that %s returned earlier, %q, has become %q", h.call, fmt.Sprint(h.items0, h.rels0, h.ids0), fmt.Sprint(h.items, h.rels, h.ids))
		}
	}
	if len(items)+len(rels)+len(ids) > 0 && c.Style&2 == 0 {
		if len(s.held) == 4 {
			s.held = s.held[1:]
		}
		s.held = append(s.held, heldList{c.call(), items, slices.Clone(items), rels, slices.Clone(rels), ids, slices.Clone(ids)})
	}
	out.items, out.rels, out.ids = append([]world.Item{}, items...), append([]world.Rel{}, rels...), append([]string{}, ids...)
	if c.Style&2 == 2 {
		for i := range items {
			items[i] = world.Item{Id: "scribble", Name: "scribble"}
		}
		for i := range rels {
			rels[i] = world.Rel{Verb: "scribble"}
		}
		for i := range ids {
			ids[i] = "scribble"
		}
		_ = append(items[:0], world.Item{Id: "more"})
	}
}

func badType(par [][2]string) bool {
	for _, x := range par {
		if x[0] == "type" && x[1] != "" {
			ok := false
			for _, t := range typePool {
				ok = ok || t == x[1]
			}
			return !ok
		}
	}
	return false
}

// api judges one direct call.
func (c *stateChk) api(k *Sim, ev *Ev, s *slot, what string) {
	op := ev.Op
	out := ev.Out.(*apiOut)
	cmd := op.C
	c.cnt["api_calls"]++
	pre := s.model.clone()
	o := observe2(s.w, true, k.plan.Wild)
	bad := func(f string, a ...any) { c.bad(k, "api", "%s: %s", what, fmt.Sprintf(f, a...)) }
	mis := false // an existing thing is created again with other attributes
	loose := false
	var exp Expect
	switch cmd.V {
	case "icreate":
		if it, ok := s.model.Items[cmd.A]; ok {
			mis = setItem(it, cmd.Par) != it
			exp = Expect{Status: "ok", Obj: "item", Item: cmd.A}
		} else {
			loose = badType(cmd.Par) && cmd.A != ""
			exp = s.model.Apply(&Cmd{V: "icreate", A: cmd.A, Par: cmd.Par})
		}
	case "iset":
		loose = badType(cmd.Par) && s.model.has(cmd.A)
		exp = s.model.Apply(&Cmd{V: "iset", A: cmd.A, Par: cmd.Par})
	case "nest":
		exp = s.model.Apply(&Cmd{V: "nest", A: cmd.A, Ids: []string{cmd.B}})
		if exp.Status == "ok" {
			exp.Obj, exp.Item = "item", cmd.B
		}
	case "free":
		exp = s.model.Apply(&Cmd{V: "free", Ids: []string{cmd.A}})
		if exp.Status == "ok" {
			exp.Obj, exp.Item = "item", cmd.A
		}
	case "rcreate":
		if r, ok := s.model.Rels[[2]string{cmd.A, cmd.B}]; ok {
			mis = setRel(r, cmd.Par) != r
			exp = Expect{Status: "ok", Obj: "rel", Rel: [2]string{cmd.A, cmd.B}}
		} else {
			exp = s.model.Apply(&Cmd{V: "rcreate", A: cmd.A, B: cmd.B, Par: cmd.Par})
		}
	case "rset", "rdelete", "idelete":
		exp = s.model.Apply(&Cmd{V: cmd.V, A: cmd.A, B: cmd.B, Par: cmd.Par})
	case "meta":
		exp = Expect{Status: "any"}
		switch op.X % 4 {
		case 0:
			s.model.Ver = op.T
		case 1:
			s.model.ID = op.L
		case 2:
			s.model.Name = op.L
		case 3:
			s.model.Exp = op.L
		}
	}
	m := s.model
	if out.kept != "" {
		bad("%s", out.kept)
	}
	asked := false
	wantItems := func(ids []string, limit int) {
		asked = true
		var got []string
		for _, it := range out.items {
			got = append(got, it.Id)
			if x, ok := m.Items[it.Id]; !ok || x != mItem(it) {
				bad("shows item %q %+v, it is %+v (exists %v)", it.Id, mItem(it), x, ok)
			}
		}
		wantList(bad, got, ids, limit)
	}
	wantRels := func(ks [][2]string, limit int) {
		asked = true
		var got, want []string
		for _, r := range out.rels {
			key := [2]string{r.From.Id, r.To.Id}
			got = append(got, fmt.Sprintf("%q", key))
			x, ok := m.Rels[key]
			if !ok || x != mRel(r) || mItem(r.From) != m.Items[key[0]] || mItem(r.To) != m.Items[key[1]] {
				bad("shows relationship %+v, it is %+v (exists %v)", r, x, ok)
			}
		}
		for _, key := range ks {
			want = append(want, fmt.Sprintf("%q", key))
		}
		wantList(bad, got, want, limit)
	}
	query := func(v string) Expect {
		return m.clone().Apply(&Cmd{V: v, A: cmd.A, B: cmd.B, Strict: cmd.Strict})
	}
	kids := m.children(cmd.A)
	if !m.has(cmd.A) {
		kids = nil
	}
	switch cmd.V {
	case "ifetch":
		asked = true
		if out.ok != m.has(cmd.A) || out.ok && (out.item.Id != cmd.A || mItem(out.item) != m.Items[cmd.A]) {
			bad("gives %+v, %v; the item is %+v (exists %v)", out.item, out.ok, m.Items[cmd.A], m.has(cmd.A))
		}
	case "ilist":
		wantItems(m.ids(), cmd.Limit)
	case "iin":
		wantItems(kids, 0)
		if out.ok != m.has(cmd.A) {
			bad("answers ok=%v, the item exists: %v", out.ok, m.has(cmd.A))
		}
	case "comp":
		asked = true
		wantList(bad, out.ids, kids, 0)
		if out.ok != m.has(cmd.A) {
			bad("answers ok=%v, the item exists: %v", out.ok, m.has(cmd.A))
		}
	case "parent", "iparent":
		asked = true
		id := out.id
		if cmd.V == "iparent" {
			id = out.item.Id
			if id != "" && mItem(out.item) != m.Items[id] {
				bad("shows %+v, the parent is %+v", out.item, m.Items[id])
			}
		}
		if out.ok != m.has(cmd.A) || id != m.Parent[cmd.A] {
			bad("answers %q, %v; the parent is %q, the item exists: %v", id, out.ok, m.Parent[cmd.A], m.has(cmd.A))
		}
	case "inq":
		if e := query("inq"); !e.Free {
			asked = true
			if out.ok != e.Bool {
				bad("answers %v", out.ok)
			}
		}
	case "rfetch":
		e := query("rfetch")
		l := e.Rels
		if e.Obj == "rel" {
			l = [][2]string{e.Rel}
		}
		wantRels(l, 0)
	case "to", "from":
		wantRels(query(cmd.V).Rels, 0)
	case "rlist":
		wantRels(m.relKeys(), cmd.Limit)
	}
	if asked {
		c.cnt["api_queries"]++
	}

	// the outcome of a change is reported for this change and no other
	wantErr := exp.Status == "error" || mis || loose
	switch {
	case exp.Status == "" || exp.Status == "any":
	case wantErr && out.err == nil:
		bad("fails, but no error is reported")
	case !wantErr && out.err != nil:
		bad("succeeds, but Err reports %v", out.err)
	}
	if wantErr {
		c.cnt["api_errors"]++
		var missing []string
		switch cmd.V {
		case "rcreate", "rset", "nest", "iset", "free":
			for _, id := range []string{cmd.A, cmd.B} {
				if !pre.has(id) && (cmd.V != "iset" && cmd.V != "free" || id == cmd.A) {
					missing = append(missing, id)
				}
			}
		}
		// What the error says about the call: of things that are absent it names one, not one that is there.
		var te errors.TopolithError
		if len(missing) > 0 && stderrors.As(out.err, &te) && len(te.Data) > 0 {
			c.cnt["api_errors_that_name"]++
			if !slices.ContainsFunc(te.Data, func(d errors.KvPair) bool { return slices.Contains(missing, d.Value) }) {
				bad("%q is missing, the error is about %q", missing, te.Data)
			}
		}
	}
	switch cmd.V {
	case "icreate", "iset", "nest", "free":
		if (out.itemErr == nil) != (out.err == nil) {
			bad("Item reports error %v, Err reports %v", out.itemErr, out.err)
		}
		if exp.Status == "ok" && !loose && (out.item.Id != exp.Item || mItem(out.item) != m.Items[exp.Item]) {
			bad("Item is %+v, the item is %q %+v", out.item, exp.Item, m.Items[exp.Item])
		}
	case "rcreate", "rset":
		if (out.relErr == nil) != (out.err == nil) {
			bad("Rel reports error %v, Err reports %v", out.relErr, out.err)
		}
		if exp.Status == "ok" {
			if out.rel.From.Id != cmd.A || out.rel.To.Id != cmd.B || mRel(out.rel) != m.Rels[exp.Rel] || mItem(out.rel.From) != m.Items[cmd.A] || mItem(out.rel.To) != m.Items[cmd.B] {
				bad("Rel is %+v, the relationship is %+v", out.rel, m.Rels[exp.Rel])
			}
		} else if cmd.V == "rcreate" && out.rel != (world.Rel{}) {
			bad("Rel is %+v although an item is missing", out.rel)
		}
	}
	if loose {
		// Which of the other attributes arrive is not specified; the type must not change.
		m = pre.clone()
		if got, ok := o.W.Items[cmd.A]; ok {
			old := pre.Items[cmd.A]
			var valid [][2]string
			for _, x := range cmd.Par {
				if x[0] != "type" {
					valid = append(valid, x)
				}
			}
			full := setItem(old, valid)
			mix := got.Type == old.Type && (got.Name == old.Name || got.Name == full.Name) && (got.Mech == old.Mech || got.Mech == full.Mech) &&
				(got.Exp == old.Exp || got.Exp == full.Exp) && (got.Ext == old.Ext || got.Ext == full.Ext)
			if mix {
				m.put(cmd.A, got)
			}
		}
	}
	c.errs(k, what, o)
	if o.W.canon() != m.canon() {
		bad("the world is not what the calls so far make it: %s", firstDiff(o.W.canon(), m.canon()))
	}
	for _, e := range o.Errs {
		bad("%s", e.msg)
		break
	}
	s.model = o.W
	s.nerr = len(o.Errs)
}

func wantList(bad func(string, ...any), got, want []string, limit int) {
	if limit > 0 {
		n := len(want)
		if limit < n {
			n = limit
		}
		seen := map[string]bool{}
		for _, g := range got {
			if seen[g] {
				bad("lists %q twice", g)
			}
			seen[g] = true
		}
		if len(got) != n {
			bad("lists %d things, %d were asked for and %d exist", len(got), limit, len(want))
		}
		return
	}
	if !sameSet(got, want) {
		sort.Strings(got)
		sort.Strings(want)
		bad("lists %q, the model has %q", got, want)
	}
}

// apiCmd draws one direct call.
func (g *Gen) apiCmd(s int, wild bool) (*Cmd, *Op) {
	r := g.r
	v := g.draw()
	if len(g.model(s).Items) < 3 && r.P(2, 3) {
		v = "icreate"
	}
	o := &Op{}
	m := g.model(s)
	text := func() string {
		if wild && r.P(1, 3) {
			return r.Pick(wildPool)
		}
		return g.value()
	}
	c := &Cmd{V: v, Limit: -1}
	switch v {
	case "comp", "parent", "iparent":
		c.A = g.existing(m, 80)
	case "meta":
		o.X, o.T, o.L = r.Intn(4), r.Intn(1000), text()
	case "nest":
		c = g.cmd("nest", s)
		c.B, c.Ids = c.Ids[0], nil
	case "free":
		c = g.cmd("free", s)
		c.A, c.Ids = c.Ids[0], nil
	default:
		// The rough model may go astray a little: it only biases what is drawn.
		c = g.cmd(v, s)
	}
	if strings.HasPrefix(v, "r") {
		if wild {
			for i := range c.Par {
				if c.Par[i][0] != "async" && r.P(1, 3) {
					c.Par[i][1] = r.Pick(wildPool)
				}
			}
		}
	} else {
		for i := range c.Par {
			switch x := &c.Par[i]; x[0] {
			case "type":
				if r.P(1, 6) {
					x[1] = r.Pick([]string{"alien", "", "persons", "99", "-3", "item"})
				}
			case "external":
			default:
				if wild && r.P(1, 3) {
					x[1] = r.Pick(wildPool)
				}
			}
		}
	}
	if r.P(1, 60) && v != "meta" {
		c.A = ""
	}
	if v == "icreate" && m.has(c.A) && r.P(1, 2) {
		// again, with some of the attributes it has
		c.Par = nil
		it := m.Items[c.A]
		for _, x := range [][2]string{{"name", it.Name}, {"mechanism", it.Mech}, {"expanded", it.Exp}, {"external", fmt.Sprint(it.Ext)}} {
			if r.P(1, 2) {
				c.Par = append(c.Par, x)
			}
		}
	}
	c.Style = r.Intn(4)
	if r.P(1, 4) {
		c.Style |= r.Intn(6) << 2
	}
	return c, o
}

var apiWeights = map[string]int{"icreate": 16, "iset": 9, "idelete": 5, "nest": 18, "free": 6, "rcreate": 14, "rset": 6, "rdelete": 4, "meta": 2,
	"ifetch": 3, "ilist": 2, "iin": 2, "comp": 2, "parent": 2, "iparent": 2, "inq": 4, "rfetch": 4, "to": 3, "from": 3, "rlist": 2}

// call renders a direct call.
func (c *Cmd) call() string {
	return fmt.Sprintf("%s %q %q %q limit=%d strict=%v style=%d", c.V, c.A, c.B, c.Par, c.Limit, c.Strict, c.Style)
}
