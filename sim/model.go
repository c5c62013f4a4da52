package main

// The reference model of a world, written from the documented behaviour alone, and the commands as
// structured values (rendered to text for the system, applied directly to the model).

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type MItem struct {
	Name, Mech, Exp, Type string
	Ext                   bool
}

type MRel struct {
	Verb, Mech, Exp string
	Async           bool
}

type MWorld struct {
	Name, ID, Exp string
	Ver           int
	Items         map[string]MItem
	Parent        map[string]string // "" at the root
	Rels          map[[2]string]MRel
}

func newMWorld(name string) *MWorld {
	return &MWorld{Name: name, ID: name, Ver: 1, Items: map[string]MItem{}, Parent: map[string]string{}, Rels: map[[2]string]MRel{}}
}

func (w *MWorld) clone() *MWorld {
	c := *w
	c.Items, c.Parent, c.Rels = map[string]MItem{}, map[string]string{}, map[[2]string]MRel{}
	for k, v := range w.Items {
		c.Items[k] = v
	}
	for k, v := range w.Parent {
		c.Parent[k] = v
	}
	for k, v := range w.Rels {
		c.Rels[k] = v
	}
	return &c
}

func (w *MWorld) ids() []string { return sortedKeys(w.Items) }

func (w *MWorld) relKeys() [][2]string {
	l := make([][2]string, 0, len(w.Rels))
	for k := range w.Rels {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] || l[i][0] == l[j][0] && l[i][1] < l[j][1] })
	return l
}

func (w *MWorld) meta() string {
	return fmt.Sprintf("v%d id=%q name=%q exp=%q", w.Ver, w.ID, w.Name, w.Exp)
}

func (w *MWorld) itemsText() string {
	var b strings.Builder
	for _, id := range w.ids() {
		fmt.Fprintf(&b, "item %q %+v\n", id, w.Items[id])
	}
	return b.String()
}

func (w *MWorld) nestText() string {
	var b strings.Builder
	for _, id := range w.ids() {
		fmt.Fprintf(&b, "%q in %q\n", id, w.Parent[id])
	}
	return b.String()
}

func (w *MWorld) relsText() string {
	var b strings.Builder
	for _, k := range w.relKeys() {
		fmt.Fprintf(&b, "rel %q %q %+v\n", k[0], k[1], w.Rels[k])
	}
	return b.String()
}

// canon is a canonical text of everything observable.
func (w *MWorld) canon() string {
	return w.meta() + "\n" + w.itemsText() + w.nestText() + w.relsText()
}

func (w *MWorld) children(id string) []string {
	var l []string
	for _, c := range w.ids() {
		if w.Parent[c] == id {
			l = append(l, c)
		}
	}
	return l
}

func (w *MWorld) inside(child, anc string) bool {
	for i := 0; child != "" && i <= len(w.Items); i++ {
		child = w.Parent[child]
		if child == anc {
			return child != ""
		}
	}
	return false
}

func (w *MWorld) family(id string) map[string]bool {
	m := map[string]bool{id: true}
	for _, c := range w.ids() {
		if w.inside(c, id) {
			m[c] = true
		}
	}
	return m
}

// ---- commands -------------------------------------------------------------------------

type Cmd struct {
	V      string      `json:"v"`
	A      string      `json:"a,omitempty"`
	B      string      `json:"b,omitempty"`
	Ids    []string    `json:"ids,omitempty"`
	Par    [][2]string `json:"par,omitempty"`
	Keys   []string    `json:"keys,omitempty"`
	Limit  int         `json:"limit,omitempty"` // -1: no limit given
	Strict bool        `json:"strict,omitempty"`
	Style  int         `json:"style,omitempty"`
}

var keywords = []string{"world", "endworld", "error", "ok", "item", "rel", "from?", "to?", "in", "create", "delete", "set", "clear", "fetch", "list", "exists", "free", "nest", "-", "$$"}

// needsQuote: the command language cannot take this identifier as a bare word.
func needsQuote(s string) bool {
	if s == "" {
		return true
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			return true
		}
	}
	for _, k := range keywords {
		if strings.HasPrefix(s, k) {
			return true
		}
	}
	return false
}

func (c *Cmd) q(s string, bit int) string {
	if needsQuote(s) || c.Style>>bit&1 == 1 {
		return `"` + s + `"`
	}
	return s
}

func (c *Cmd) kind() string { return c.V }

// Line renders the command in the documented syntax.
func (c *Cmd) Line() string {
	sp := " "
	if c.Style>>8&3 == 3 {
		sp = "  "
	}
	item, rel := "item", "rel"
	if c.Style>>10&3 == 3 {
		item, rel = "items", "rels"
	}
	var w []string
	add := func(s ...string) { w = append(w, s...) }
	par := func() {
		for i, p := range c.Par {
			v := p[1]
			switch p[0] {
			case "external", "async", "type":
			default:
				v = c.q(v, i&3+2)
			}
			add(p[0] + "=" + v)
		}
	}
	switch c.V {
	case "icreate", "iset":
		add(item, c.V[1:], c.q(c.A, 0))
		par()
	case "iclear":
		add(item, "clear", c.q(c.A, 0))
		add(c.Keys...)
	case "idelete":
		add(item, "delete", c.q(c.A, 0))
	case "ifetch":
		add(item, "fetch", c.q(c.A, 0))
	case "ilist":
		add(item, "list")
		if c.Limit >= 0 {
			add(strconv.Itoa(c.Limit))
		}
	case "iin":
		add(item, "in", c.q(c.A, 0))
	case "iexists":
		if c.Style>>6&1 == 1 {
			add("item?", c.q(c.A, 0))
		} else {
			add(item, "exists", c.q(c.A, 0))
		}
	case "icof", "icos":
		add(item, c.q(c.A, 0))
		par()
	case "nest":
		add("nest")
		for i, id := range c.Ids {
			add(c.q(id, i&3+1))
		}
		add("in", c.q(c.A, 0))
	case "free":
		add("free")
		for i, id := range c.Ids {
			add(c.q(id, i&3+1))
		}
	case "inq":
		add("in?", c.q(c.A, 0), c.q(c.B, 1))
	case "rcreate", "rset":
		add(rel, c.V[1:], c.q(c.A, 0), c.q(c.B, 1))
		par()
	case "rclear":
		add(rel, "clear", c.q(c.A, 0), c.q(c.B, 1))
		add(c.Keys...)
	case "rdelete", "rfetch":
		add(rel, c.V[1:], c.q(c.A, 0), c.q(c.B, 1))
	case "rlist":
		add(rel, "list")
		if c.Limit >= 0 {
			add(strconv.Itoa(c.Limit))
		}
	case "rexists":
		if c.Style>>6&1 == 1 {
			add("rel?", c.q(c.A, 0), c.q(c.B, 1))
		} else {
			add(rel, "exists", c.q(c.A, 0), c.q(c.B, 1))
		}
	case "rcof", "rcos":
		add(rel, c.q(c.A, 0), c.q(c.B, 1))
		par()
	case "to", "from":
		add(c.V+"?", c.q(c.A, 0))
	case "world":
		add("world")
	}
	if c.Strict {
		add([]string{"--strict", "-strict"}[c.Style>>7&1])
	}
	return strings.Join(w, sp)
}

func (c *Cmd) query() bool {
	switch c.V {
	case "ifetch", "ilist", "iin", "iexists", "inq", "rfetch", "rlist", "rexists", "to", "from", "world":
		return true
	}
	return false
}

// Expect is what the documentation says about the reply.
type Expect struct {
	Status string // "ok", "error", "any"
	Obj    string // "", "item", "rel", "bool", "items", "rels", "world", "anyrel"
	Item   string
	Rel    [2]string
	Bool   bool
	Items  []string
	Rels   [][2]string
	Limit  int
	Free   bool // reply object not specified
}

func setItem(it MItem, par [][2]string) MItem {
	for _, p := range par {
		switch p[0] {
		case "name":
			it.Name = p[1]
		case "mechanism":
			it.Mech = p[1]
		case "expanded":
			it.Exp = p[1]
		case "type":
			it.Type = p[1]
		case "external":
			it.Ext = p[1] == "true"
		}
	}
	return it
}

func setRel(r MRel, par [][2]string) MRel {
	for _, p := range par {
		switch p[0] {
		case "verb":
			r.Verb = p[1]
		case "mechanism":
			r.Mech = p[1]
		case "expanded":
			r.Exp = p[1]
		case "async":
			r.Async = p[1] == "true"
		}
	}
	return r
}

func keysAsParams(keys []string) (l [][2]string) {
	for _, k := range keys {
		l = append(l, [2]string{k, ""})
	}
	return
}

func (w *MWorld) put(id string, it MItem) {
	if _, ok := w.Items[id]; !ok {
		w.Parent[id] = ""
	}
	w.Items[id] = it
}

func (w *MWorld) has(id string) bool { _, ok := w.Items[id]; return ok }

// Apply performs the command on the model (in place) and says what the reply must show.
func (w *MWorld) Apply(c *Cmd) Expect {
	fail := Expect{Status: "error"}
	item := func(id string) Expect { return Expect{Status: "ok", Obj: "item", Item: id} }
	rel := func(a, b string) Expect { return Expect{Status: "ok", Obj: "rel", Rel: [2]string{a, b}} }
	rk := [2]string{c.A, c.B}
	_, rok := w.Rels[rk]
	switch c.V {
	case "icreate", "icof", "icos":
		if c.A == "" {
			return fail
		}
		if !w.has(c.A) {
			w.put(c.A, setItem(MItem{}, c.Par))
		} else if c.V == "icos" {
			w.put(c.A, setItem(w.Items[c.A], c.Par))
		}
		return item(c.A)
	case "iset", "iclear":
		if !w.has(c.A) {
			return fail
		}
		par := c.Par
		if c.V == "iclear" {
			par = keysAsParams(c.Keys)
		}
		w.put(c.A, setItem(w.Items[c.A], par))
		return item(c.A)
	case "idelete":
		if !w.has(c.A) {
			return Expect{Status: "any", Free: true}
		}
		up := w.Parent[c.A]
		for _, ch := range w.children(c.A) {
			w.Parent[ch] = up
		}
		delete(w.Items, c.A)
		delete(w.Parent, c.A)
		for _, k := range w.relKeys() {
			if k[0] == c.A || k[1] == c.A {
				delete(w.Rels, k)
			}
		}
		return Expect{Status: "ok", Free: true}
	case "ifetch":
		if !w.has(c.A) {
			return fail
		}
		return item(c.A)
	case "ilist":
		e := Expect{Status: "ok", Obj: "items", Items: w.ids()}
		if c.Limit > 0 {
			e.Limit = c.Limit
		}
		return e
	case "iin":
		if !w.has(c.A) {
			return fail
		}
		return Expect{Status: "ok", Obj: "items", Items: w.children(c.A)}
	case "iexists":
		return Expect{Status: "ok", Obj: "bool", Bool: w.has(c.A)}
	case "nest":
		if !w.has(c.A) {
			return fail
		}
		self := false
		n := w.clone()
		for _, id := range c.Ids {
			if !w.has(id) {
				return fail
			}
			if id == c.A {
				self = true
			}
			if n.inside(c.A, id) {
				return fail
			}
			if id != c.A {
				n.Parent[id] = c.A
			}
		}
		if self {
			// nesting an item into itself is a cycle: refused
			return fail
		}
		w.Parent = n.Parent
		return Expect{Status: "ok", Free: true}
	case "free":
		for _, id := range c.Ids {
			if !w.has(id) {
				return fail
			}
		}
		for _, id := range c.Ids {
			w.Parent[id] = ""
		}
		return Expect{Status: "ok", Free: true}
	case "inq":
		if c.A == c.B && !c.Strict {
			return Expect{Status: "any", Free: true} // not specified
		}
		if !w.has(c.A) || !w.has(c.B) {
			return Expect{Status: "any", Obj: "bool", Bool: false}
		}
		if c.Strict {
			return Expect{Status: "ok", Obj: "bool", Bool: c.A == c.B}
		}
		return Expect{Status: "ok", Obj: "bool", Bool: w.inside(c.A, c.B)}
	case "rcreate", "rcof", "rcos":
		if !w.has(c.A) || !w.has(c.B) {
			return fail
		}
		if !rok {
			w.Rels[rk] = setRel(MRel{}, c.Par)
		} else if c.V == "rcos" {
			w.Rels[rk] = setRel(w.Rels[rk], c.Par)
		}
		return rel(c.A, c.B)
	case "rset", "rclear":
		if !rok {
			return fail
		}
		par := c.Par
		if c.V == "rclear" {
			par = keysAsParams(c.Keys)
		}
		w.Rels[rk] = setRel(w.Rels[rk], par)
		return rel(c.A, c.B)
	case "rdelete":
		if !rok {
			return Expect{Status: "any", Free: true}
		}
		delete(w.Rels, rk)
		return Expect{Status: "ok", Free: true}
	case "rexists":
		return Expect{Status: "ok", Obj: "bool", Bool: rok}
	case "rfetch":
		if c.Strict {
			if !rok {
				return fail
			}
			return rel(c.A, c.B)
		}
		f, t := w.family(c.A), w.family(c.B)
		var l [][2]string
		for _, k := range w.relKeys() {
			if f[k[0]] && t[k[1]] {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			return fail
		}
		return Expect{Status: "ok", Obj: "anyrel", Rels: l}
	case "rlist":
		e := Expect{Status: "ok", Obj: "rels", Rels: w.relKeys()}
		if c.Limit > 0 {
			e.Limit = c.Limit
		}
		return e
	case "to", "from":
		i := 0
		if c.V == "to" {
			i = 1
		}
		f := map[string]bool{c.A: true}
		if !c.Strict {
			f = w.family(c.A)
		}
		var l [][2]string
		for _, k := range w.relKeys() {
			if f[k[i]] {
				l = append(l, k)
			}
		}
		st := "ok"
		if !w.has(c.A) {
			st = "any"
		}
		return Expect{Status: st, Obj: "rels", Rels: l}
	case "world":
		return Expect{Status: "ok", Obj: "world"}
	}
	panic("model: unknown command " + c.V)
}
