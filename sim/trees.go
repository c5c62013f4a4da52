package main

// C24: a containment hierarchy (world.Tree) as a library object, called directly.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
)

func init() {
	moreOps["tnew"] = opTree
	moreOps["tree"] = opTree
}

// tslot is one hierarchy; the model's root item, if there is one, is root.
type tslot struct {
	t     world.Tree
	root  string
	model *MWorld
}

type treeOut struct {
	err    error
	noNode string
}

func (o *treeOut) String() string { return fmt.Sprint(o.err != nil, o.noNode) }

// treeItem is the item of an identifier: here the attributes depend on the identifier alone.
func treeItem(id string) world.Item {
	h := strHash("attr:" + id)
	it := world.Item{Id: id}
	if h&1 == 1 {
		it.Name = valuePool[h>>8%uint64(len(valuePool))]
	}
	if h&2 == 2 {
		it.Type = world.ItemType(1 + h>>16%9)
	}
	it.External = h&4 == 4
	if h&8 == 8 {
		it.Expanded = valuePool[h>>24%uint64(len(valuePool))]
	}
	return it
}

func opTree(k *Sim, p *Proc, ev *Ev) {
	op, st := ev.Op, p.st
	out := &treeOut{}
	ev.Out = out
	if st.trees == nil {
		st.trees = map[int]*tslot{}
	}
	if op.K == "tnew" {
		r := newRand(mix(k.plan.Seed, uint64(op.X), 5))
		s := &tslot{model: newMWorld("")}
		text := ""
		if op.T > 0 {
			var placed []string
			ids := append([]string{}, op.C.Ids...)
			if op.T == 2 && len(ids) > 0 {
				s.root, ids = ids[0], ids[1:]
				placed = append(placed, s.root)
				s.model.put(s.root, mItem(treeItem(s.root)))
			}
			for _, id := range ids {
				s.model.put(id, mItem(treeItem(id)))
				s.model.Parent[id] = s.root
				if len(placed) > 0 && r.P(3, 5) {
					s.model.Parent[id] = placed[r.Intn(len(placed))]
				}
				placed = append(placed, id)
			}
			text = "tree{nil::[" + treeText(s.model, "", r) + "]}"
			if s.root != "" {
				text = treeText(s.model, "", r)
			}
		}
		s.t, _, out.err = world.TreeFromString(text)
		st.trees[op.S] = s
		return
	}
	s := st.trees[op.S]
	c := op.C
	node := s.t
	if c.A != "" && s.model.has(c.A) {
		n, ok := s.t.Find(c.A)
		if !ok || n == nil {
			out.noNode = c.A
			return
		}
		node = n
	}
	switch c.V {
	case "add":
		it := treeItem(c.B)
		out.err = node.AddOrMove(&it)
	case "addnil":
		out.err = node.AddOrMove(nil)
	case "addup": // to what the root calls its parent
		it := treeItem(c.B)
		out.err = s.t.Root().Parent().AddOrMove(&it)
	case "delup":
		s.t.Root().Parent().Delete(c.B)
	case "del":
		node.Delete(c.B)
	default:
		panic("tree: " + c.V)
	}
}

func (c *stateChk) treeOp(k *Sim, ev *Ev, what string) {
	st := c.st(k, ev)
	op, out := ev.Op, ev.Out.(*treeOut)
	bad := func(f string, a ...any) { c.bad(k, "tree", "%s: %s", what, fmt.Sprintf(f, a...)) }
	s := st.trees[op.S]
	if op.K == "tnew" {
		if out.err != nil || s.t == nil {
			bad("the text of a hierarchy is refused: %v", out.err)
			delete(st.trees, op.S)
			return
		}
	} else {
		m, cmd := s.model, op.C
		at := s.root
		if m.has(cmd.A) {
			at = cmd.A
		}
		if out.noNode != "" {
			bad("%q cannot be found", out.noNode)
			return
		}
		c.cnt["tree_calls"]++
		fails := false
		switch cmd.V {
		case "addnil":
			fails = true
		case "addup", "delup": // nowhere: whether it is an error is left open
			fails = out.err != nil
		case "add":
			switch {
			case cmd.B == at && at != "":
			case !m.has(cmd.B):
				m.put(cmd.B, mItem(treeItem(cmd.B)))
				m.Parent[cmd.B] = at
			case cmd.B == s.root || m.inside(at, cmd.B):
				fails = true
			default:
				m.Parent[cmd.B] = at
				c.cnt["tree_moves"]++
			}
		case "del":
			below := at == "" || cmd.B == at || m.inside(cmd.B, at)
			if m.has(cmd.B) && below {
				c.cnt["tree_deletes"]++
				up := m.Parent[cmd.B]
				for _, ch := range m.children(cmd.B) {
					m.Parent[ch] = up
				}
				delete(m.Items, cmd.B)
				delete(m.Parent, cmd.B)
				if cmd.B == s.root {
					s.root = ""
				}
			}
		}
		if fails != (out.err != nil) {
			bad("reports %v; it has to fail: %v", out.err, fails)
		}
		if fails {
			c.cnt["tree_errors"]++
		}
	}
	var l []int
	for i := range st.trees {
		l = append(l, i)
	}
	sort.Ints(l)
	for _, i := range l {
		if e := st.trees[i].check(); e != "" {
			bad("hierarchy %d: %s", i, e)
			return
		}
		c.seen[strHash(st.trees[i].model.nestText())] = true
		if i != op.S {
			c.cnt["tree_bystanders"]++
		}
	}
}

// check compares everything a hierarchy says about itself with the model.
func (s *tslot) check() string {
	m := s.model
	type node struct {
		t      world.Tree
		parent string
	}
	nodes := map[string]node{}
	problem := ""
	bad := func(f string, a ...any) {
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
	}
	n := 0
	var walk func(t world.Tree, id, parent string)
	walk = func(t world.Tree, id, parent string) {
		if n++; n > 5000 {
			bad("it has no end")
			return
		}
		if id != "" {
			if _, dup := nodes[id]; dup {
				bad("%q is in it twice", id)
				return
			}
			nodes[id] = node{t, parent}
		}
		if t.Components() == nil {
			bad("%q has no components, not even an empty set", id)
			return
		}
		for _, c := range t.Components().ToSlice() {
			cid := c.Item().Id
			if cid == "" {
				bad("a part of %q has no item", id)
				return
			}
			walk(c, cid, id)
			if problem != "" {
				return
			}
		}
	}
	walk(s.t, s.t.Item().Id, "")
	if problem != "" {
		return problem
	}
	if got := s.t.Item().Id; got != s.root {
		return fmt.Sprintf("the item at the root is %q, it is to be %q", got, s.root)
	}
	got := newMWorld("")
	ids := sortedKeys(nodes)
	for _, id := range ids {
		got.put(id, mItem(nodes[id].t.Item()))
		got.Parent[id] = nodes[id].parent
	}
	if a, b := got.itemsText()+got.nestText(), m.itemsText()+m.nestText(); a != b {
		return "it is not what the calls so far make it: " + firstDiff(a, b)
	}
	if s.t.Empty() != (len(ids) == 0) {
		bad("Empty is %v with %d items", s.t.Empty(), len(ids))
	}
	if p := s.t.Parent(); p == nil || !p.Empty() || p.Item().Id != "" {
		bad("the parent of the root is not an empty hierarchy")
	}
	all := append([]string{"", "absent"}, ids...)
	for j, id := range append([]string{""}, ids...) {
		t := s.t
		if id != "" {
			t = nodes[id].t
		}
		if id != "" && id != s.root {
			if p := t.Parent(); p.Item().Id != m.Parent[id] {
				bad("the parent of %q is %q", id, p.Item().Id)
			} else if f, ok := p.Find(id); !ok || f.Item().Id != id {
				bad("the parent of %q does not contain it", id)
			}
			if t.Empty() {
				bad("%q is called empty", id)
			}
		}
		if r := t.Root(); r.Item().Id != s.root || j < 4 && walkTree(r).nestText() != walkTree(s.t).nestText() {
			bad("the root of %q is another hierarchy, %q", id, r.Item().Id)
		}
		if len(ids) > 10 && j > 6 {
			continue
		}
		for _, x := range all {
			in := m.has(x) && (id == "" || x == id || m.inside(x, id))
			if t.Has(x, false) != in {
				bad("Has(%q) of %q is %v", x, id, !in)
			}
			self := x != "" && (x == id || id == "" && x == s.root)
			if t.Has(x, true) != self {
				bad("Has(%q, strict) of %q is %v", x, id, !self)
			}
			f, ok := t.Find(x)
			if ok != in || in && (f == nil || f.Item().Id != x || f.Components().Cardinality() != len(m.children(x))) {
				bad("Find(%q) in %q gives %v", x, id, ok)
			}
			var want []string
			if in {
				for _, y := range ids {
					if m.inside(y, x) {
						want = append(want, y)
					}
				}
			}
			if l := t.GetDescendantIds(x); !sameSet(l, want) {
				bad("GetDescendantIds(%q) in %q is %q, it contains %q", x, id, l, want)
			}
			if problem != "" {
				return problem
			}
		}
	}
	if problem != "" {
		return problem
	}
	text := s.t.String()
	t2, _, err := world.TreeFromString(text)
	if err != nil {
		return fmt.Sprintf("its text %q cannot be read: %v", abbrev(text, 300), err)
	}
	if !world.TreeEqual(s.t, t2) || !world.TreeEqual(t2, s.t) {
		return fmt.Sprintf("its text %q is read as another one", abbrev(text, 300))
	}
	return ""
}

func treePlan(prop string, seed uint64) *Plan {
	g := newGen(seed)
	r := newRand(mix(seed, 33))
	p := &Plan{Prop: prop, Seed: seed, MapSeed: mix(seed, 34), Prof: &Profile{}}
	if r.P(1, 6) {
		for i := 0; i < 8+r.Intn(12); i++ {
			g.ids = append(g.ids, fmt.Sprintf("n%d", i))
		}
	}
	slots := 1 + r.Intn(3)
	var ops []*Op
	fresh := func(s int) {
		o := g.op("tnew")
		o.S, o.X, o.T = s, g.u, r.Intn(3)
		o.C = &Cmd{V: "tnew"}
		for _, id := range g.ids {
			if r.P(1, 2) && !strings.Contains(strings.Join(o.C.Ids, "\x00")+"\x00", id+"\x00") {
				o.C.Ids = append(o.C.Ids, id)
			}
		}
		ops = append(ops, o)
	}
	for s := 0; s < slots; s++ {
		fresh(s)
	}
	n := 6 + r.Intn(30)
	if r.P(1, 40) {
		n = 200
	}
	dels := 5 + r.Intn(25)
	for i := 0; i < n; i++ {
		s := r.Intn(slots)
		if r.P(1, 30) {
			fresh(s)
			continue
		}
		o := g.op("tree")
		o.S = s
		o.C = &Cmd{V: "add", B: g.id()}
		if r.P(4, 5) {
			o.C.A = g.id()
		}
		switch x := r.Intn(100); {
		case x < dels:
			o.C.V = "del"
			if r.P(1, 2) {
				o.C.A = ""
			}
		case x < dels+2:
			o.C.V = "addnil"
		case x < dels+4:
			o.C.V = []string{"addup", "addup", "delup"}[r.Intn(3)]
			if r.P(1, 2) {
				o.C.B = fmt.Sprintf("up%d", r.Intn(3))
			}
		}
		ops = append(ops, o)
	}
	p.Procs = [][]*Op{ops}
	return p
}
