package main

// Large worlds: many command lines at once, judged together.

import (
	"fmt"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
)

func init() { moreOps["bulk"] = opBulk }

func bulkID(i int) string { return fmt.Sprintf("k%d", i) }

const bulkPatterns = 10

// bigT are the largest sizes per pattern: reading a world walks its maps once per item, so that
// some patterns cost the cube of their size.
var bigT = [bulkPatterns]int{257, 257, 1025, 513, 257, 513, 128, 1025, 257, 513}

// bulkCmds are the commands of one bulk operation; they depend on the operation alone.
func bulkCmds(op *Op) (l []*Cmd) {
	if op.C != nil {
		return sweepCmds(op.C.Ids)
	}
	n := op.T
	r := newRand(mix(uint64(op.X), uint64(op.T), 0xb01c))
	add := func(c *Cmd) { c.Limit = -1; l = append(l, c) }
	create := func(id string) { add(&Cmd{V: "icof", A: id}) }
	all := func(m int) {
		for i := 0; i < m; i++ {
			create(bulkID(i))
		}
	}
	switch op.X % bulkPatterns {
	case 0: // a deep chain, built from above
		create(bulkID(0))
		for i := 1; i < n; i++ {
			create(bulkID(i))
			add(&Cmd{V: "nest", Ids: []string{bulkID(i)}, A: bulkID(i - 1)})
		}
	case 1: // a deep chain, built from below
		all(n)
		for i := n - 1; i > 0; i-- {
			add(&Cmd{V: "nest", Ids: []string{bulkID(i)}, A: bulkID(i - 1)})
		}
	case 2: // many components, placed by one command
		all(n)
		c := &Cmd{V: "nest", A: bulkID(0)}
		for i := 1; i < n; i++ {
			c.Ids = append(c.Ids, bulkID(i))
		}
		add(c)
		for i := 1; i < n; i += 3 {
			add(&Cmd{V: "rcof", A: bulkID(i), B: bulkID(0)})
		}
	case 3: // many relationships of one item, both ways
		all(n/2 + 1)
		for i := 1; i <= n/2; i++ {
			add(&Cmd{V: "rcos", A: bulkID(0), B: bulkID(i), Par: [][2]string{{"verb", fmt.Sprintf("v%d", i)}}})
			if i%3 == 0 {
				add(&Cmd{V: "rcof", A: bulkID(i), B: bulkID(0)})
			}
		}
	case 4: // a dense graph
		m := 2
		for m*m < n {
			m++
		}
		all(m)
		for i := 0; i < m; i++ {
			for j := 0; j < m; j++ {
				add(&Cmd{V: "rcof", A: bulkID(i), B: bulkID(j)})
			}
		}
	case 5: // many items with attributes
		for i := 0; i < n; i++ {
			add(&Cmd{V: "icos", A: bulkID(i), Par: [][2]string{{"name", fmt.Sprintf("name %d", i)}, {"type", typePool[i%len(typePool)]}, {"external", []string{"true", "false"}[i%2]}}})
		}
	case 6: // long identifiers and values
		for i := 0; i < 4; i++ {
			id := fmt.Sprintf("k%d-", i) + strings.Repeat("long-", n<<i/5)
			add(&Cmd{V: "icos", A: id, Par: [][2]string{{"name", strings.Repeat("n ", n<<i/2)}, {"expanded", strings.Repeat("e", n<<(2*i)/4)}}})
			if i > 0 {
				add(&Cmd{V: "rcos", A: l[len(l)-2].A, B: id, Par: [][2]string{{"mechanism", strings.Repeat("m", n<<i)}}})
				add(&Cmd{V: "nest", Ids: []string{id}, A: l[0].A})
			}
		}
	case 7: // one item, changed again and again
		create(bulkID(0))
		for i := 0; i < n; i++ {
			add(&Cmd{V: "iset", A: bulkID(0), Par: [][2]string{{[]string{"name", "expanded", "mechanism"}[r.Intn(3)], fmt.Sprintf("x%d", i)}}})
		}
	case 8: // a bushy hierarchy with a relationship per item
		for i := 0; i < n; i++ {
			create(bulkID(i))
			if i > 0 {
				add(&Cmd{V: "nest", Ids: []string{bulkID(i)}, A: bulkID(i / 3)})
				add(&Cmd{V: "rcof", A: bulkID(i), B: bulkID(r.Intn(i))})
			}
		}
	case 9: // created, related, nested and deleted again and again
		create(bulkID(0))
		for i := 0; i < n; i++ {
			id := bulkID(1 + i%7)
			add(&Cmd{V: "icof", A: id})
			add(&Cmd{V: "nest", Ids: []string{id}, A: bulkID(0)})
			add(&Cmd{V: "rcof", A: id, B: bulkID(0)})
			if r.P(1, 2) {
				add(&Cmd{V: "idelete", A: id})
			} else {
				add(&Cmd{V: "free", Ids: []string{id}})
			}
		}
	}
	return append(l, sweepCmds([]string{bulkID(0), bulkID(1), bulkID(n - 1)})...)
}

// sweepCmds ask everything about some items and all pairs of them.
func sweepCmds(ids []string) (l []*Cmd) {
	add := func(c *Cmd) { c.Limit = -1; l = append(l, c) }
	for _, a := range ids {
		add(&Cmd{V: "from", A: a})
		add(&Cmd{V: "to", A: a})
		for _, b := range ids {
			add(&Cmd{V: "rfetch", A: a, B: b})
			add(&Cmd{V: "inq", A: a, B: b})
		}
	}
	return
}

// addSweep asks everything about up to seven items.
func (g *Gen) addSweep(s int) *Op {
	o := g.op("bulk")
	o.S, o.C = s, &Cmd{V: "sweep"}
	l := g.model(s).ids()
	for i := 0; i < 7 && len(l) > 0; i++ {
		j := g.r.Intn(len(l))
		o.C.Ids = append(o.C.Ids, l[j])
		l = append(append([]string{}, l[:j]...), l[j+1:]...)
	}
	return o
}

// addBulk puts a bulk operation into a workload and says what it made.
func (g *Gen) addBulk(s int, prop string) *Op {
	o := g.op("bulk")
	o.S, o.X = s, g.r.Intn(bulkPatterns)
	o.T = []int{9, 17, 24, 33, 40, 65, 100, 129, 150}[g.r.Intn(9)]
	if g.r.P(1, 25) || prop == "C12" && o.X == 2 && g.r.P(1, 8) {
		o.T = bigT[o.X%bulkPatterns]
		switch prop {
		case "C04", "C10", "C11", "C12", "C13", "C14":
		case "C21", "C22": // each line takes its own call
			o.T = 257
		default:
			o.T = min(o.T, 513)
		}
		if prop == "C17" { // worlds are compared item by item
			o.T = 257
		}
	}
	if o.X%bulkPatterns == 6 {
		o.T = []int{30, 64, 100, 128}[g.r.Intn(4)]
	}
	m := g.model(s)
	for _, c := range bulkCmds(o) {
		m.Apply(c)
	}
	l := m.ids()
	for i := 0; i < 4; i++ {
		g.ids = append(g.ids, l[g.r.Intn(len(l))])
	}
	return o
}

type bulkOut struct {
	cmds    []*Cmd
	replies []string
	diff    string // first difference between this world and its twin
}

func (o *bulkOut) String() string { return fmt.Sprintf("%x", strHash(strings.Join(o.replies, "\n"))) }

func opBulk(k *Sim, p *Proc, ev *Ev) {
	op := ev.Op
	s := p.st.slot(op.S, op.N)
	out := &bulkOut{cmds: bulkCmds(op)}
	ev.Out = out
	s.cmds, s.pre, s.line = nil, nil, nil
	for _, c := range out.cmds {
		line := c.Line()
		reply := s.app.Exec(line)
		out.replies = append(out.replies, reply)
		s.lines = append(s.lines, line)
		s.lineCmd = append(s.lineCmd, c)
		s.replies = append(s.replies, canonReply(reply, c))
		if s.twin != nil && (s.twinMode == "" || strings.Contains(reply, delim+"200 ok")) {
			var twin string
			s.twinG.with(func() { twin = s.twin.Exec(line) })
			if a, b := canonReply(reply, c), canonReply(twin, c); a != b && out.diff == "" {
				out.diff = fmt.Sprintf("%q is answered differently: %s", line, firstDiff(a, b))
			}
		}
	}
}

func (c *stateChk) bulk(k *Sim, ev *Ev, s *slot, what string) {
	out := ev.Out.(*bulkOut)
	c.cnt["bulk_operations"]++
	c.cnt["bulk_commands"] += len(out.cmds)
	tail := len(out.cmds) // the queries at the end
	for tail > 0 && out.cmds[tail-1].query() {
		tail--
	}
	for i, cmd := range out.cmds {
		reply := out.replies[i]
		if m := wellformed(reply); m != "" {
			c.bad(k, "wellformed", "%s: %q: %s", what, abbrev(cmd.Line(), 120), m)
			c.bad(k, "reply", "%s: %q: %s", what, abbrev(cmd.Line(), 120), m)
			break
		}
		exp := s.model.Apply(cmd)
		rep, err := parseReply(reply)
		if err != nil {
			break
		}
		if rep.Code == 400 {
			c.bad(k, "valid-rejected", "%s: %q is in the command language and is answered %s", what, abbrev(cmd.Line(), 120), abbrev(reply, 120))
		}
		if m := exp.match(rep, s.model); m != "" && i < tail {
			c.bad(k, "reply", "%s: the answer to %q %s; reply %q", what, abbrev(cmd.Line(), 120), m, abbrev(reply, 200))
		}
		if rep.Code == 200 {
			s.hist = append(append([]string{}, s.hist[:s.cur]...), cmd.Line())
			s.state = append(append([]*MWorld{}, s.state[:s.cur+1]...), s.model.clone())
			s.cur++
		}
		if k.viol != nil {
			return
		}
	}
	o := observe(s.w, true)
	s.nerr = len(o.Errs)
	c.errs(k, what, o)
	c.diffState(k, what, o, s.model)
	if o.W.canon() != s.model.canon() { // the points in between are not known any more
		for i := range s.state {
			s.state[i] = o.W.clone()
		}
	}
	s.model = o.W
	for i, cmd := range out.cmds[tail:] {
		rep, err := parseReply(out.replies[tail+i])
		if err != nil || k.viol != nil {
			break
		}
		c.cnt["queries"]++
		if m := o.W.clone().Apply(cmd).match(rep, o.W); m != "" {
			c.bad(k, "query", "%s: the answer to %q %s; reply %q", what, abbrev(cmd.Line(), 120), m, abbrev(out.replies[tail+i], 200))
		}
	}
	if s.twin != nil && k.viol == nil {
		class := map[string]string{"C17": "replay", "C14": "error-later"}[c.prop]
		if class == "" {
			class = "reload"
		}
		var t *Obs
		s.twinG.with(func() { t = observe(s.twinW, false) })
		if out.diff != "" {
			c.bad(k, class, "%s: %s", what, out.diff)
		}
		if t.W.canon() != o.W.canon() {
			c.bad(k, class, "%s: the world differs from its twin: %s", what, firstDiff(o.W.canon(), t.W.canon()))
		}
		if c.prop == "C17" && k.viol == nil && !world.WorldEqual(s.w, s.twinW) {
			c.bad(k, "equal", "%s: two worlds with the same parts are reported as different", what)
		}
	}
	c.checkCursor(k, s, what)
}

// walkBudget is how many map walks one operation of a plan may take before it counts as hanging.
func walkBudget(p *Plan) uint64 {
	for _, l := range p.Procs {
		for _, o := range l {
			if o.K == "bulk" && o.T > 150 {
				return 40 * mapBudget
			}
		}
	}
	return mapBudget
}
