package main

import (
	"fmt"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
)

// obsErr is a contradiction between the answers a world gives about itself.
type obsErr struct{ class, msg string }

type Obs struct {
	W    *MWorld
	Errs []obsErr
}

func (o *Obs) bad(class, f string, a ...any) {
	o.Errs = append(o.Errs, obsErr{class, fmt.Sprintf(f, a...)})
}

func mItem(it world.Item) MItem {
	return MItem{Name: it.Name, Mech: it.Mechanism, Exp: it.Expanded, Ext: it.External, Type: world.StringFromItemType(it.Type)}
}

func mRel(r world.Rel) MRel {
	return MRel{Verb: r.Verb, Mech: r.Mechanism, Exp: r.Expanded, Async: r.Async}
}

// observe reads a world through its public interface.  full adds the cross-checks between all answers.
func observe(w world.World, full bool) *Obs { return observe2(w, full, false) }

// observe2 leaves out the text form if noText is set.
func observe2(w world.World, full, noText bool) *Obs {
	o := &Obs{W: newMWorld(w.Name())}
	m := o.W
	m.Ver, m.ID, m.Exp = w.Version(), w.Id(), w.Expanded()
	for _, it := range w.ItemList(0) {
		if m.has(it.Id) {
			o.bad("forest", "item %q is listed twice", it.Id)
		}
		if int(it.Type) < 0 || int(it.Type) > 9 {
			o.bad("state.items", "item %q has impossible type %d", it.Id, it.Type)
		}
		m.put(it.Id, mItem(it))
	}
	ids := m.ids()
	for _, id := range ids {
		p, ok := w.Parent(id)
		if !ok {
			o.bad("forest", "item %q exists but has no place in the hierarchy", id)
			continue
		}
		if p != "" && !m.has(p) {
			o.bad("forest", "parent %q of item %q does not exist", p, id)
		}
		m.Parent[id] = p
	}
	for _, r := range w.RelList(0) {
		k := [2]string{r.From.Id, r.To.Id}
		if _, dup := m.Rels[k]; dup {
			o.bad("rel", "two relationships from %q to %q", k[0], k[1])
		}
		m.Rels[k] = mRel(r)
	}
	// acyclic
	for _, id := range ids {
		c := id
		for i := 0; c != ""; i++ {
			if i > len(ids) {
				o.bad("forest", "item %q contains itself", id)
				break
			}
			c = m.Parent[c]
		}
	}
	if full {
		o.cross(w)
		if !noText {
			o.crossText(w)
		}
	}
	return o
}

func (o *Obs) cross(w world.World) {
	m := o.W
	ids := m.ids()
	for _, id := range ids {
		it, ok := w.ItemFetch(id)
		if !ok || mItem(it) != m.Items[id] || it.Id != id {
			o.bad("state.items", "fetching item %q disagrees with the list: %+v ok=%v", id, it, ok)
		}
		want := m.children(id)
		got, ok := w.Components(id)
		if !ok || !sameSet(got, want) {
			o.bad("forest", "components of %q are %q, but the items whose parent it is are %q", id, got, want)
		}
		ci, ok := w.ItemComponents(id)
		var cid []string
		for _, c := range ci {
			cid = append(cid, c.Id)
			if x, ok := m.Items[c.Id]; ok && x != mItem(c) {
				o.bad("state.items", "component %q of %q is shown as %+v, it is %+v", c.Id, id, mItem(c), x)
			}
		}
		if !ok || !sameSet(cid, want) {
			o.bad("forest", "component items of %q are %q, but the items whose parent it is are %q", id, cid, want)
		}
		pi, ok := w.ItemParent(id)
		if !ok || pi.Id != m.Parent[id] {
			o.bad("forest", "ItemParent of %q is %q, Parent is %q", id, pi.Id, m.Parent[id])
		} else if pi.Id != "" && mItem(pi) != m.Items[pi.Id] {
			o.bad("state.items", "parent of %q is shown as %+v, it is %+v", id, mItem(pi), m.Items[pi.Id])
		}
	}
	if len(ids) <= 14 {
		for _, a := range ids {
			for _, b := range ids {
				if a == b {
					if !w.In(a, a, true) {
						o.bad("forest", "item %q is not in itself when strict", a)
					}
					continue
				}
				if got, want := w.In(a, b, false), m.inside(a, b); got != want {
					o.bad("forest", "%q in %q is answered %v, following parents says %v", a, b, got, want)
				}
				if w.In(a, b, true) {
					o.bad("forest", "%q in %q strictly is answered true", a, b)
				}
			}
		}
	}
	for _, r := range w.RelList(0) {
		for _, it := range []world.Item{r.From, r.To} {
			cur, ok := w.ItemFetch(it.Id)
			if !ok {
				o.bad("rel", "relationship %q-%q shows item %q which does not exist", r.From.Id, r.To.Id, it.Id)
			} else if cur != it {
				o.bad("rel", "relationship %q-%q shows item %+v, its current attributes are %+v", r.From.Id, r.To.Id, it, cur)
			}
		}
		l := w.RelFetch(r.From.Id, r.To.Id, true)
		if len(l) != 1 || l[0] != r {
			o.bad("rel", "relationship %q-%q is listed but fetching it gives %+v", r.From.Id, r.To.Id, l)
		}
	}
}

func (o *Obs) crossText(w world.World) {
	m := o.W
	s := w.String()
	t, err := parseWorldText(s)
	if err != nil {
		o.bad("text", "the world's text cannot be read: %v in %q", err, abbrev(s, 400))
		return
	}
	if t.nestText() != m.nestText() {
		o.bad("forest", "hierarchy text disagrees with Parent/ItemList: %s", firstDiff(t.nestText(), m.nestText()))
	}
	if t.itemsText() != m.itemsText() {
		o.bad("text", "items in the world's text are not the items of the world: %s", firstDiff(t.itemsText(), m.itemsText()))
	}
	if t.relsText() != m.relsText() {
		o.bad("text", "relationships in the world's text are not those of the world: %s", firstDiff(t.relsText(), m.relsText()))
	}
	if t.meta() != m.meta() {
		o.bad("text", "the world's text has %s, the world has %s", t.meta(), m.meta())
	}
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
		if n[x] < 0 {
			return false
		}
	}
	return true
}

// consistent returns the first contradiction of a freshly read world, or "".
func consistent(w world.World) (canon string, bad string) {
	o := observe(w, true)
	if len(o.Errs) > 0 {
		var l []string
		for _, e := range o.Errs {
			l = append(l, e.msg)
		}
		return "", strings.Join(l, "; ")
	}
	return o.W.canon(), ""
}
