package main

// Generation of workloads.  Everything is drawn from the run's seed.

import (
	"fmt"
	"math"
	"strings"
)

var typePool = []string{"person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}

var valuePool = []string{"", "John", "two words", "a=b;c", "$$ x", "::[ ]", "true", "name=x", "item x", "nil", "100%", "200 ok", " lead", "trail ", "%s %d",
	"rel a b", "endworld$$", "x", "HTTPS", "v1.2, beta!", "tree", "[]", "$$$$", "200 error", "type=person", "~@#^&*()+", "-", "strict", "  ", "0", "reads from", "world", strings.Repeat("long ", 40)}

var idSimple = []string{"a", "b", "c", "d", "e", "svc", "Db_2", "x-y", "A", "7", "web", "q9"}
var idOdd = []string{"my item", "item-1", "item 1", "index", "in", "nil", "world", "a::b", "b::c", "::", "a::", "::b", "list", "okay", "$$", "$$world", "endworld$$", "100%", "a=b", "[x]", "free", "nested", "relish",
	" a", "a ", "  ", "my  item", "true", "false", "create", "--strict", "-x", "name=n", "a b c", "::[", "item", "rel", "%d", "setup", "from", "to", "a,b", strings.Repeat("longid", 20), "0", "-"}

var worldNames = []string{"w", "default-world", "My World", "x.world", "a.b", "nil", "world", "in", "-dash", ".hidden", "v1.2", "data", "item", "x", "A", "a", "$$world", "100%", "tmp", "x.tmp", "save", "a b.world", "~", "x~", "endworld$$", ".world", "x.world.world", "*", "[a]", "&", "list", "w.bak", " lead", "trail ", "A long name, " + strings.Repeat("very ", 10) + "long", strings.Repeat("n", 70) + "1", strings.Repeat("n", 70) + "2", strings.Repeat("m", 140) + "1", strings.Repeat("m", 140) + "2"}

// dangerous names: they must never make a save leave the directory
var evilNames = []string{"../evil", "../../x", "/etc/passwd", "sub/inner", "a/b", "..", ".", "", "/", "../share/topolith/w", "sub/../w", "./w", "/data/worlds/w", "../topolith/../evil", "w/", "/w", "folder", "a\x00b", "folder.world/x"}

// Gen keeps the state of one generator.
type Gen struct {
	r      *Rand
	u      int
	ids    []string
	m      map[int]*MWorld // rough model per slot, to bias commands towards ones that do something
	odd    bool
	long   bool // some values are very long
	weight map[string]int
	order  []string
	hub    string // an item that most others are put into
}

func newGen(seed uint64) *Gen {
	g := &Gen{r: newRand(mix(seed, 7)), m: map[int]*MWorld{}}
	n := 2 + g.r.Intn(7)
	g.odd = g.r.P(1, 2)
	for len(g.ids) < n {
		id := g.r.Pick(idSimple)
		if g.odd && g.r.P(1, 2) {
			id = g.r.Pick(idOdd)
			if g.r.P(1, 4) {
				id = g.random(1, 8)
			}
		}
		dup := false
		for _, x := range g.ids {
			dup = dup || x == id
		}
		if !dup {
			g.ids = append(g.ids, id)
		}
	}
	if g.long = g.r.P(1, 60); g.long {
		g.ids = append(g.ids, strings.Repeat("longid", 40)+g.random(1, 30), strings.Repeat("id-", []int{85, 86, 171, 342}[g.r.Intn(4)])+"x")
	}
	if g.r.P(1, 5) {
		g.hub = g.id()
	}
	if g.r.P(1, 8) { // pairs of identifiers whose naive concatenation collides
		g.ids = append(g.ids, "a", "a::b", "b", "b::a", "a::b::a")
	}
	return g
}

// weights sets how often each kind of command is drawn; a random subset is damped per run (swarm).
func (g *Gen) weights(w map[string]int) {
	g.weight = map[string]int{}
	for _, k := range sortedKeys(w) {
		v := w[k]
		if v > 1 && g.r.P(1, 4) {
			v = v/4 + 1
		} else if g.r.P(1, 6) {
			v *= 3
		}
		g.weight[k] = v
		g.order = append(g.order, k)
	}
}

func (g *Gen) draw() string {
	t := 0
	for _, k := range g.order {
		t += g.weight[k]
	}
	x := g.r.Intn(t)
	for _, k := range g.order {
		if x < g.weight[k] {
			return k
		}
		x -= g.weight[k]
	}
	return g.order[0]
}

func (g *Gen) op(k string) *Op { g.u++; return &Op{U: g.u, K: k} }

func (g *Gen) model(s int) *MWorld {
	if g.m[s] == nil {
		g.m[s] = newMWorld("")
	}
	return g.m[s]
}

func (g *Gen) id() string { return g.ids[g.r.Intn(len(g.ids))] }

func (g *Gen) existing(m *MWorld, pct int) string {
	if g.r.Intn(100) < pct {
		if l := m.ids(); len(l) > 0 {
			return l[g.r.Intn(len(l))]
		}
	}
	return g.id()
}

const valueChars = "abcxyzABZ0129-_.,!@#$%^&*()[]+=~;: "

func (g *Gen) random(min, max int) string {
	b := make([]byte, min+g.r.Intn(max-min+1))
	for i := range b {
		b[i] = valueChars[g.r.Intn(len(valueChars))]
	}
	return string(b)
}

// value is a text for a field: often from the pool, sometimes an identifier, sometimes anything the syntax can carry.
func (g *Gen) value() string {
	switch g.r.Intn(16) {
	case 0, 1:
		return g.id()
	case 2, 3:
		return g.random(0, 14)
	case 4:
		return g.r.Pick(worldNames)
	case 5:
		return g.random(1, 2) + g.random(0, 60)
	case 6:
		if g.long {
			if g.r.P(1, 30) {
				return strings.Repeat("very long ", 6600)
			}
			n := []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000}[g.r.Intn(18)]
			s := g.random(4, 20)
			return strings.Repeat(s, n/len(s)) + s[:n%len(s)]
		}
	}
	return g.r.Pick(valuePool)
}

// worldName is a name a world can be stored under.
func (g *Gen) worldName() string {
	if g.r.P(1, 6) {
		if s := g.random(1, 10); s != "." && s != ".." {
			return s
		}
	}
	return g.r.Pick(worldNames)
}

func (g *Gen) itemPar(min int) (l [][2]string) {
	n := g.r.Intn(4)
	if n < min {
		n = min
	}
	for i := 0; i < n; i++ {
		switch g.r.Intn(5) {
		case 0:
			l = append(l, [2]string{"name", g.value()})
		case 1:
			l = append(l, [2]string{"mechanism", g.value()})
		case 2:
			l = append(l, [2]string{"expanded", g.value()})
		case 3:
			l = append(l, [2]string{"type", g.r.Pick(typePool)})
		case 4:
			l = append(l, [2]string{"external", g.r.Pick([]string{"true", "false"})})
		}
	}
	return uniqPar(l)
}

func (g *Gen) relPar(min int) (l [][2]string) {
	n := g.r.Intn(4)
	if n < min {
		n = min
	}
	for i := 0; i < n; i++ {
		switch g.r.Intn(4) {
		case 0:
			l = append(l, [2]string{"verb", g.value()})
		case 1:
			l = append(l, [2]string{"mechanism", g.value()})
		case 2:
			l = append(l, [2]string{"expanded", g.value()})
		case 3:
			l = append(l, [2]string{"async", g.r.Pick([]string{"true", "false"})})
		}
	}
	return uniqPar(l)
}

func uniqPar(l [][2]string) (o [][2]string) {
	seen := map[string]bool{}
	for _, p := range l {
		if !seen[p[0]] {
			seen[p[0]] = true
			o = append(o, p)
		}
	}
	return
}

func (g *Gen) cmd(v string, s int) *Cmd {
	m := g.model(s)
	r := g.r
	c := &Cmd{V: v, Limit: -1, Style: r.Intn(1 << 12)}
	subset := func(keys []string) (l []string) {
		for _, k := range keys {
			if r.P(1, 3) {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			l = []string{keys[r.Intn(len(keys))]}
		}
		return
	}
	pair := func(pct int) {
		if ks := m.relKeys(); len(ks) > 0 && r.Intn(100) < pct {
			k := ks[r.Intn(len(ks))]
			c.A, c.B = k[0], k[1]
			if r.P(1, 8) {
				c.A, c.B = c.B, c.A
			}
			return
		}
		c.A, c.B = g.existing(m, 85), g.existing(m, 85)
	}
	switch v {
	case "icreate":
		c.A, c.Par = g.id(), g.itemPar(0)
	case "icof":
		c.A = g.id()
	case "icos":
		c.A, c.Par = g.existing(m, 40), g.itemPar(1)
	case "iset":
		c.A, c.Par = g.existing(m, 85), g.itemPar(r.Intn(2))
	case "iclear":
		c.A, c.Keys = g.existing(m, 85), subset([]string{"name", "mechanism", "expanded", "type", "external"})
	case "idelete", "ifetch", "iexists", "iin", "to", "from":
		c.A = g.existing(m, 80)
		if v == "to" || v == "from" {
			if ks := m.relKeys(); len(ks) > 0 && r.P(2, 3) {
				k := ks[r.Intn(len(ks))]
				c.A = k[r.Intn(2)]
				if p := m.Parent[c.A]; p != "" && r.P(1, 2) {
					c.A = p
				}
			}
			c.Strict = r.P(1, 3)
		}
		if v == "iin" {
			if l := m.ids(); len(l) > 0 && r.P(2, 3) {
				if p := m.Parent[l[r.Intn(len(l))]]; p != "" {
					c.A = p
				}
			}
		}
	case "ilist", "rlist":
		if r.P(1, 2) {
			c.Limit = r.Intn(5)
			if r.P(1, 6) {
				// a limit larger than any list; between 2^10 and 2^46 a
				// program that reserves room for it could merely fill the
				// memory, beyond it the reservation itself fails
				c.Limit = []int{99, 1000, 1 << 46, 1 << 55, 1 << 60, 1 << 62, math.MaxInt - 1, math.MaxInt}[r.Intn(8)]
			}
		}
	case "nest":
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			c.Ids = append(c.Ids, g.existing(m, 92))
		}
		c.A = g.existing(m, 92)
		if g.hub != "" && m.has(g.hub) && r.P(2, 3) {
			c.A = g.hub
		}
		if r.P(1, 12) {
			c.Ids = append(c.Ids, c.Ids[0])
		}
		// most nests should be possible: avoid cycles often
		if r.P(2, 3) {
			for try := 0; try < 6; try++ {
				bad := false
				for _, id := range c.Ids {
					if id == c.A || m.inside(c.A, id) {
						bad = true
					}
				}
				if !bad {
					break
				}
				c.A = g.existing(m, 95)
				c.Ids = []string{g.existing(m, 95)}
			}
		}
	case "free":
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			c.Ids = append(c.Ids, g.existing(m, 92))
		}
		if r.P(1, 12) {
			c.Ids = append(c.Ids, c.Ids[0])
		}
	case "inq":
		c.A, c.B = g.existing(m, 85), g.existing(m, 85)
		if r.P(1, 2) {
			for i := r.Intn(3); i >= 0 && m.Parent[c.A] != ""; i-- {
				c.B = m.Parent[c.A]
			}
		}
		c.Strict = r.P(1, 4)
	case "rcreate":
		pair(15)
		c.Par = g.relPar(0)
	case "rcof":
		pair(20)
	case "rcos":
		pair(50)
		c.Par = g.relPar(1)
	case "rset":
		pair(85)
		c.Par = g.relPar(r.Intn(2))
	case "rclear":
		pair(85)
		c.Keys = subset([]string{"verb", "mechanism", "expanded", "async"})
	case "rdelete", "rexists":
		pair(75)
	case "rfetch":
		pair(80)
		c.Strict = r.P(1, 3)
		if !c.Strict && r.P(1, 2) {
			if p := m.Parent[c.A]; p != "" {
				c.A = p
			}
			if p := m.Parent[c.B]; p != "" && r.P(1, 2) {
				c.B = p
			}
		}
	case "world":
	default:
		panic("gen: " + v)
	}
	m.Apply(c)
	return c
}

var mutWeights = map[string]int{"icreate": 14, "icof": 6, "icos": 8, "iset": 8, "iclear": 6, "idelete": 5, "nest": 16, "free": 6, "rcreate": 10, "rcof": 4, "rcos": 6, "rset": 6, "rclear": 5, "rdelete": 4}
var queryWeights = map[string]int{"ifetch": 3, "ilist": 3, "iin": 3, "iexists": 2, "inq": 3, "rfetch": 4, "rlist": 3, "rexists": 2, "to": 3, "from": 3, "world": 1}

func merge(ms ...map[string]int) map[string]int {
	o := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			o[k] += v
		}
	}
	return o
}

func scale(m map[string]int, n int) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		o[k] = v * n
	}
	return o
}

// garbage lines no reader of the documented syntax would accept
func (g *Gen) garbage() string {
	r := g.r
	pool := []string{"", " ", "\n", "foo", "item", "item create", "rel create a", "nest a", "nest in b", "free", "item list ten", "undo", "redo", ".save", ".load x", "item create \"unclosed", "item create a name=", "item create a name=\"x\" bogus=1",
		"item set a type=alien", "item set a external=maybe", "rel a", "rel a b c d", "items", "in? a", "to?", "from?", "world world", "world extra", "item clear a", "item clear a colour", "item create a/b", "item create 'a'", "{", "}", "\x00", "\xff\xfe", "é", "item create \"é\"",
		"tree{nil::[]}", "200 ok x", "$$world", "item \"a\"\n$$$$\n200 ok ", "$$$$", "item create a --bogus", "item create in", "rel create world b", "item fetch", "item a verb=x", "rel a b type=code", "item create \"a\"\"b\"", strings.Repeat("x", 3000) + "/", strings.Repeat("(", 2000), "item create a\tb c", "item create \"a\tb\"", "item set a name=\"x\ty\"", "nest a in b in c", "free a in b",
		"item exists", "item? ", "rel? a", "item list -1", "item list 1 2", "item create \"a\nb\"", "?", "item\x00create a", "ITEM create a", "Item create a", "create item a", "item create a, b", "404 error \"x\"", "$$world\nversion=1\nid=x\nname=\nexpanded=\ntree{nil::[]}\nendworld$$"}
	s := pool[r.Intn(len(pool))]
	if r.P(1, 4) {
		s = s + string(rune("/|\\?{}<>'`"[r.Intn(10)])) + s
	}
	return s
}

var extremes = []string{"0", "00", "007", "2147483648000000000", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999999999999999", "1e9", "0x10", "-0", strings.Repeat("7", 400), strings.Repeat("k", 5000)}

// mutateLine damages a valid line.
func (g *Gen) mutateLine(s string) string {
	r := g.r
	b := []byte(s)
	for i := 0; i <= r.Intn(3) && len(b) > 0; i++ {
		p := r.Intn(len(b))
		switch r.Intn(8) {
		case 0:
			b = append(b[:p:p], b[p+1:]...)
		case 1:
			b[p] = "/\"|{ x=-$:\n\t"[r.Intn(12)]
		case 2:
			b = append(b[:p:p], append([]byte{b[p], b[p]}, b[p+1:]...)...)
		case 3:
			b = b[:p]
		case 4:
			b = append(b[:p:p], append([]byte("\""), b[p:]...)...)
		case 5, 6, 7:
			// whole words: one more, one fewer, two exchanged, or an extreme number
			w := strings.Fields(string(b))
			if len(w) == 0 {
				break
			}
			i, j := r.Intn(len(w)), r.Intn(len(w))
			switch r.Intn(4) {
			case 0:
				w = append(w[:i:i], append([]string{w[j]}, w[i:]...)...)
			case 1:
				w = append(w[:i:i], w[i+1:]...)
			case 2:
				w[i], w[j] = w[j], w[i]
			case 3:
				w[i] = extremes[r.Intn(len(extremes))]
			}
			b = []byte(strings.Join(w, " "))
		}
	}
	return string(b)
}

func describe(ops [][]*Op) string {
	var l []string
	for i, p := range ops {
		for _, o := range p {
			l = append(l, fmt.Sprintf("p%d:%s", i, o))
		}
	}
	return strings.Join(l, "; ")
}

// surelyInvalid are lines that are not in the command language under any reading.
var surelyInvalid = map[string]bool{}

func init() {
	for _, l := range []string{"", " ", "\n", "foo", "item create \"unclosed", "item set a type=alien", "item set a external=maybe", "rel a b c d", "in? a", "item create 'a'", "{", "}", "\x00", "\xff\xfe", "é", "item create \"é\"",
		"tree{nil::[]}", "200 ok x", "$$world", "item \"a\"\n$$$$\n200 ok ", "$$$$", "item create a/b", "rel create a", "nest a", "free", "undo", "redo", ".save", ".load x", strings.Repeat("(", 2000),
		"item a verb=x", "rel a b type=code", "item\x00create a", "404 error \"x\"", "?", "item clear a colour", "item create a --bogus", "nest in b", "$$world\nversion=1\nid=x\nname=\nexpanded=\ntree{nil::[]}\nendworld$$"} {
		surelyInvalid[l] = true
	}
}

func invalidLine(l string) bool { return surelyInvalid[l] }
