package main

// C20: what one simulated process prints, another one reads.

import (
	"fmt"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
)

// texts hands the text form of every part of a world to another process and compares what it reads.
func (c *stateChk) texts(k *Sim, s *slot, op *Op, what string) {
	w := s.w
	items, rels := w.ItemList(0), w.RelList(0)
	bad := func(kind, text string, f string, a ...any) {
		c.bad(k, "roundtrip", "%s: the text of %s, %q, %s", what, kind, abbrev(text, 300), fmt.Sprintf(f, a...))
	}
	type part[T any] struct {
		v    T
		text string
	}
	var it []part[world.Item]
	var rt []part[world.Rel]
	for _, i := range items {
		it = append(it, part[world.Item]{i, i.String()})
	}
	for _, r := range rels {
		rt = append(rt, part[world.Rel]{r, r.String()})
	}
	all := w.String()
	m := observe(w, false).W
	c.cnt["texts_read"] += len(it) + len(rt) + 2
	seedMaps(k.plan, op.U, 300)
	freshGlobals().with(func() {
		for _, p := range it {
			got, err := world.ItemFromString(p.text)
			switch {
			case err != nil:
				bad(fmt.Sprintf("item %q", p.v.Id), p.text, "cannot be read: %v", err)
			case got.Id != p.v.Id || mItem(got) != mItem(p.v):
				bad(fmt.Sprintf("item %+v", p.v), p.text, "is read as %+v", got)
			case !world.ItemEqual(got, p.v) || !world.ItemEqual(p.v, got):
				bad(fmt.Sprintf("item %+v", p.v), p.text, "is read as an item that is reported as different")
			case got.String() != p.text:
				bad(fmt.Sprintf("item %+v", p.v), p.text, "becomes %q when printed again", got.String())
			}
			if k.viol != nil {
				return
			}
		}
		w2, err := world.FromString(all)
		if err != nil {
			bad("the world", all, "cannot be read: %v", err)
			return
		}
		if o := observe(w2, true); o.W.canon() != m.canon() {
			bad("the world", all, "is read as another world: %s", firstDiff(o.W.canon(), m.canon()))
		} else if len(o.Errs) > 0 {
			bad("the world", all, "is read as a world that contradicts itself: %s", o.Errs[0].msg)
		}
		for _, p := range rt {
			got, err := world.RelFromString(w2, p.text)
			what := fmt.Sprintf("relationship %q-%q", p.v.From.Id, p.v.To.Id)
			switch {
			case err != nil:
				bad(what, p.text, "cannot be read: %v", err)
			case got.From.Id != p.v.From.Id || got.To.Id != p.v.To.Id || mRel(got) != mRel(p.v):
				bad(what+fmt.Sprintf(" %+v", mRel(p.v)), p.text, "is read as %q-%q %+v", got.From.Id, got.To.Id, mRel(got))
			case !world.RelEqual(got, p.v) || !world.RelEqual(p.v, got):
				bad(what, p.text, "is read as a relationship that is reported as different")
			case got.String() != p.text:
				bad(what, p.text, "becomes %q when printed again", got.String())
			}
			if k.viol != nil {
				return
			}
		}
		i := strings.Index(all, "\ntree{")
		if i < 0 {
			return
		}
		tree := all[i+1:]
		if j := strings.IndexByte(tree, '\n'); j >= 0 {
			tree = tree[:j]
		}
		t, listed, err := world.TreeFromString(tree)
		if err != nil {
			bad("the hierarchy", tree, "cannot be read: %v", err)
			return
		}
		if len(listed) != len(m.Items) {
			bad("the hierarchy", tree, "is read as naming %d items, it names %d", len(listed), len(m.Items))
		}
		for id, i := range listed {
			if want, ok := m.Items[id]; !ok || i.Id != id || mItem(i) != want {
				bad("the hierarchy", tree, "is read as naming %q %+v", id, i)
			}
		}
		if got := walkTree(t); got.nestText() != m.nestText() || got.itemsText() != m.itemsText() {
			bad("the hierarchy", tree, "is read as another one: %s", firstDiff(got.nestText()+got.itemsText(), m.nestText()+m.itemsText()))
		}
		if k.viol != nil {
			return
		}
		// Every part of a hierarchy is a hierarchy, with an item at its root.
		for id := range m.Items {
			if id == "" {
				continue // Has no text that can be told from a root without item.
			}
			sub, ok := t.Find(id)
			if !ok {
				bad("the hierarchy", tree, "is read as one in which %q cannot be found", id)
				return
			}
			st := sub.String()
			sub2, _, err := world.TreeFromString(st)
			if err != nil {
				bad("the hierarchy of "+id, st, "cannot be read: %v", err)
				return
			}
			c.cnt["texts_read"]++
			a, b := walkTree(sub), walkTree(sub2)
			if sub2.Item().Id != id || mItem(sub2.Item()) != mItem(sub.Item()) || a.canon() != b.canon() {
				bad("the hierarchy of "+id, st, "is read as the one of %q: %s", sub2.Item().Id, firstDiff(b.canon(), a.canon()))
			} else if !world.TreeEqual(sub, sub2) || !world.TreeEqual(sub2, sub) {
				bad("the hierarchy of "+id, st, "is read as one that is reported as different")
			}
			if k.viol != nil {
				return
			}
		}
	})
}

// walkTree notes the items below t and where they are; those directly below it have no parent.
func walkTree(t world.Tree) *MWorld {
	got := newMWorld("")
	n := 0
	var walk func(t world.Tree, parent string)
	walk = func(t world.Tree, parent string) {
		if n++; n > 10000 {
			return
		}
		for c := range t.Components().Iter() {
			id := c.Item().Id
			got.put(id, mItem(c.Item()))
			got.Parent[id] = parent
			walk(c, id)
		}
	}
	walk(t, "")
	return got
}
