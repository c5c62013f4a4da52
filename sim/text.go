package main

// An independent reader of the text the system produces (replies, item/rel text, world text).

import (
	"fmt"
	"strconv"
	"strings"
)

type lex struct {
	s string
	i int
}

func (l *lex) ws() {
	for l.i < len(l.s) && strings.IndexByte(" \t\r\n", l.s[l.i]) >= 0 {
		l.i++
	}
}

func (l *lex) eat(t string) bool {
	if strings.HasPrefix(l.s[l.i:], t) {
		l.i += len(t)
		return true
	}
	return false
}

func (l *lex) end() bool { l.ws(); return l.i >= len(l.s) }

func plain(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_'
}

// word reads a bare or quoted word.
func (l *lex) word() (string, bool) {
	if l.i < len(l.s) && l.s[l.i] == '"' {
		j := strings.IndexByte(l.s[l.i+1:], '"')
		if j < 0 {
			return "", false
		}
		w := l.s[l.i+1 : l.i+1+j]
		l.i += j + 2
		return w, true
	}
	j := l.i
	for j < len(l.s) && plain(l.s[j]) {
		j++
	}
	if j == l.i {
		return "", false
	}
	w := l.s[l.i:j]
	l.i = j
	return w, true
}

func (l *lex) params() [][2]string {
	var out [][2]string
	for {
		save := l.i
		l.ws()
		j := l.i
		for j < len(l.s) && plain(l.s[j]) {
			j++
		}
		if j == l.i || j >= len(l.s) || l.s[j] != '=' {
			l.i = save
			return out
		}
		key := l.s[l.i:j]
		l.i = j + 1
		v, ok := l.word()
		if !ok {
			l.i = save
			return out
		}
		out = append(out, [2]string{key, v})
	}
}

func (l *lex) item() (id string, it MItem, ok bool) {
	l.ws()
	if !l.eat("item") {
		return
	}
	l.ws()
	if id, ok = l.word(); !ok {
		return
	}
	return id, setItem(MItem{}, l.params()), true
}

func (l *lex) rel() (k [2]string, r MRel, ok bool) {
	l.ws()
	if !l.eat("rel") {
		return
	}
	l.ws()
	if k[0], ok = l.word(); !ok {
		return
	}
	l.ws()
	if k[1], ok = l.word(); !ok {
		return
	}
	return k, setRel(MRel{}, l.params()), true
}

// parseWorldText reads a whole world.
func parseWorldText(s string) (*MWorld, error) {
	l := &lex{s: s}
	w := newMWorld("")
	bad := func(what string) (*MWorld, error) {
		return nil, fmt.Errorf("world text: %s at byte %d of %d", what, l.i, len(s))
	}
	l.ws()
	if !l.eat("$$world") {
		return bad("no start marker")
	}
	for _, key := range []string{"version", "id", "name", "expanded"} {
		l.ws()
		if !l.eat(key + "=") {
			return bad("no " + key)
		}
		v, ok := "", true
		if l.i < len(l.s) && l.s[l.i] != '\n' {
			v, ok = l.word()
		}
		if !ok {
			return bad("bad value of " + key)
		}
		switch key {
		case "version":
			n, err := strconv.Atoi(v)
			if err != nil {
				return bad("bad version")
			}
			w.Ver = n
		case "id":
			w.ID = v
		case "name":
			w.Name = v
		case "expanded":
			w.Exp = v
		}
		if l.i < len(l.s) && l.s[l.i] != '\n' && l.s[l.i] != ' ' && l.s[l.i] != '\r' && l.s[l.i] != '\t' {
			return bad("text after value of " + key)
		}
	}
	var tree func(parent string, root bool) error
	tree = func(parent string, root bool) error {
		l.ws()
		if !l.eat("tree{") {
			return fmt.Errorf("world text: no tree at byte %d", l.i)
		}
		id := ""
		if root && strings.HasPrefix(l.s[l.i:], "nil::[") {
			l.i += 3
		} else {
			var it MItem
			var ok bool
			if id, it, ok = l.item(); !ok {
				return fmt.Errorf("world text: no item at byte %d", l.i)
			}
			if w.has(id) {
				return fmt.Errorf("world text: item %q appears twice in the hierarchy", id)
			}
			w.put(id, it)
			w.Parent[id] = parent
		}
		l.ws()
		if !l.eat("::[") {
			return fmt.Errorf("world text: no ::[ at byte %d", l.i)
		}
		for {
			l.ws()
			if l.eat("]}") {
				return nil
			}
			if err := tree(id, false); err != nil {
				return err
			}
		}
	}
	if err := tree("", true); err != nil {
		return nil, err
	}
	for {
		l.ws()
		if l.eat("endworld$$") {
			break
		}
		k, r, ok := l.rel()
		if !ok {
			return bad("no relationship or end marker")
		}
		if _, dup := w.Rels[k]; dup {
			return nil, fmt.Errorf("world text: relationship %q appears twice", k)
		}
		w.Rels[k] = r
	}
	return w, nil
}

// Reply is a parsed answer of App.Exec.
type Reply struct {
	Code  int
	Obj   string
	Items []string
	IAttr []MItem
	Rels  [][2]string
	RAttr []MRel
	Bool  bool
	World *MWorld
	Words []string
	Raw   string
}

const delim = "\n$$$$\n"

func parseReply(s string) (*Reply, error) {
	r := &Reply{Raw: s}
	obj, status := "", s
	i := strings.LastIndex(s, delim)
	if i >= 0 {
		obj, status = s[:i], s[i+len(delim):]
	}
	j := 0
	for j < len(status) && status[j] >= '0' && status[j] <= '9' {
		j++
	}
	if j == 0 || j > 9 {
		return nil, fmt.Errorf("reply has no status code: %q", abbrev(s, 200))
	}
	r.Code, _ = strconv.Atoi(status[:j])
	rest := strings.TrimLeft(status[j:], " ")
	switch {
	case strings.HasPrefix(rest, "ok"):
		if r.Code != 200 {
			return nil, fmt.Errorf("ok reply with code %d", r.Code)
		}
		if i < 0 {
			return nil, fmt.Errorf("ok reply without delimiter: %q", abbrev(s, 200))
		}
	case strings.HasPrefix(rest, "error"):
		if r.Code == 200 {
			return nil, fmt.Errorf("error reply with code 200")
		}
		if i >= 0 && strings.TrimSpace(obj) != "" && !strings.Contains(status, "\n") && r.Code != 0 {
			// an error status after an object: allowed by the grammar
			_ = obj
		}
		r.Obj = "error"
		return r, nil
	default:
		return nil, fmt.Errorf("reply status is neither ok nor error: %q", abbrev(status, 100))
	}
	l := &lex{s: obj}
	l.ws()
	switch {
	case l.i >= len(obj):
		r.Obj = "empty"
	case strings.HasPrefix(obj[l.i:], "$$world"):
		w, err := parseWorldText(obj)
		if err != nil {
			return nil, err
		}
		r.Obj, r.World = "world", w
	case strings.HasPrefix(obj[l.i:], "item ") || strings.HasPrefix(obj[l.i:], "item\""):
		r.Obj = "items"
		for !l.end() {
			id, it, ok := l.item()
			if !ok {
				return nil, fmt.Errorf("bad item list at byte %d: %q", l.i, abbrev(obj, 300))
			}
			r.Items = append(r.Items, id)
			r.IAttr = append(r.IAttr, it)
		}
	case strings.HasPrefix(obj[l.i:], "rel ") || strings.HasPrefix(obj[l.i:], "rel\""):
		r.Obj = "rels"
		for !l.end() {
			k, a, ok := l.rel()
			if !ok {
				return nil, fmt.Errorf("bad relationship list at byte %d: %q", l.i, abbrev(obj, 300))
			}
			r.Rels = append(r.Rels, k)
			r.RAttr = append(r.RAttr, a)
		}
	default:
		r.Obj = "words"
		for !l.end() {
			w, ok := l.word()
			if !ok {
				return nil, fmt.Errorf("bad reply object at byte %d: %q", l.i, abbrev(obj, 300))
			}
			r.Words = append(r.Words, w)
		}
		if len(r.Words) == 1 && (r.Words[0] == "true" || r.Words[0] == "false") {
			r.Obj, r.Bool = "bool", r.Words[0] == "true"
		}
	}
	return r, nil
}

// match compares a reply with what the model expects; "" if it agrees.
func (e Expect) match(r *Reply, w *MWorld) string {
	switch e.Status {
	case "error":
		if r.Code == 200 {
			return "answered 200 although the command could not do what it was asked"
		}
		return ""
	case "ok":
		if r.Code != 200 {
			return "answered with an error although the command is valid in this state"
		}
	case "any":
		if r.Code != 200 {
			return ""
		}
	}
	if e.Free {
		return ""
	}
	chkItem := func(i int) string {
		id := r.Items[i]
		it, ok := w.Items[id]
		if !ok {
			return fmt.Sprintf("shows item %q which does not exist", id)
		}
		if it != r.IAttr[i] {
			return fmt.Sprintf("shows item %q as %+v, it is %+v", id, r.IAttr[i], it)
		}
		return ""
	}
	chkRel := func(i int) string {
		k := r.Rels[i]
		a, ok := w.Rels[k]
		if !ok {
			return fmt.Sprintf("shows relationship %q which does not exist", k)
		}
		if a != r.RAttr[i] {
			return fmt.Sprintf("shows relationship %q as %+v, it is %+v", k, r.RAttr[i], a)
		}
		return ""
	}
	switch e.Obj {
	case "item":
		if r.Obj != "items" || len(r.Items) != 1 || r.Items[0] != e.Item {
			return fmt.Sprintf("does not show item %q", e.Item)
		}
		return chkItem(0)
	case "rel":
		if r.Obj != "rels" || len(r.Rels) != 1 || r.Rels[0] != e.Rel {
			return fmt.Sprintf("does not show relationship %q", e.Rel)
		}
		return chkRel(0)
	case "anyrel":
		if r.Obj != "rels" || len(r.Rels) != 1 {
			return "does not show one relationship"
		}
		for _, k := range e.Rels {
			if k == r.Rels[0] {
				return chkRel(0)
			}
		}
		return fmt.Sprintf("shows relationship %q which does not match", r.Rels[0])
	case "bool":
		if r.Obj != "bool" || r.Bool != e.Bool {
			return fmt.Sprintf("does not answer %v", e.Bool)
		}
	case "items":
		if len(e.Items) == 0 {
			if r.Obj != "empty" {
				return "lists something although nothing matches"
			}
			return ""
		}
		if r.Obj != "items" {
			return fmt.Sprintf("lists nothing, %d expected", len(e.Items))
		}
		want := map[string]bool{}
		for _, id := range e.Items {
			want[id] = true
		}
		seen := map[string]bool{}
		for i, id := range r.Items {
			if seen[id] {
				return fmt.Sprintf("lists item %q twice", id)
			}
			seen[id] = true
			if !want[id] {
				return fmt.Sprintf("lists item %q which does not belong there", id)
			}
			if s := chkItem(i); s != "" {
				return s
			}
		}
		n := len(e.Items)
		if e.Limit > 0 && e.Limit < n {
			n = e.Limit
		}
		if len(seen) != n {
			return fmt.Sprintf("lists %d items, %d expected", len(seen), n)
		}
	case "rels":
		if len(e.Rels) == 0 {
			if r.Obj != "empty" {
				return "lists something although nothing matches"
			}
			return ""
		}
		if r.Obj != "rels" {
			return fmt.Sprintf("lists nothing, %d expected", len(e.Rels))
		}
		want := map[[2]string]bool{}
		for _, k := range e.Rels {
			want[k] = true
		}
		seen := map[[2]string]bool{}
		for i, k := range r.Rels {
			if seen[k] {
				return fmt.Sprintf("lists relationship %q twice", k)
			}
			seen[k] = true
			if !want[k] {
				return fmt.Sprintf("lists relationship %q which does not belong there", k)
			}
			if s := chkRel(i); s != "" {
				return s
			}
		}
		n := len(e.Rels)
		if e.Limit > 0 && e.Limit < n {
			n = e.Limit
		}
		if len(seen) != n {
			return fmt.Sprintf("lists %d relationships, %d expected", len(seen), n)
		}
	case "world":
		if r.Obj != "world" {
			return "does not show the world"
		}
		if r.World.canon() != w.canon() {
			return "shows a different world: " + firstDiff(r.World.canon(), w.canon())
		}
	}
	return ""
}

func firstDiff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			return fmt.Sprintf("got %s, expected %s", abbrev(a, 200), abbrev(b, 200))
		}
	}
	return "no difference"
}
