package main

// C25: several goroutines of one process, each with worlds of its own, preempted in the middle of the code under
// test.  Each thread's operations are carried out alone first, in a process of their own; together with the others
// they must give the same.

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

type threadChk struct {
	NopChecker
	cnt map[string]int
}

// transcript is what the caller sees of one operation, in a form that any two correct executions share.
func transcript(ev *Ev) string {
	if ev.Panic != "" {
		return "panic"
	}
	s := ""
	switch o := ev.Out.(type) {
	case *cmdOut:
		s = fmt.Sprintf("%s %d %v", threadReply(o.reply, ev.Op), o.n, o.seq)
	case *loadOut:
		s = fmt.Sprintf("%v %q %s %s", o.isNil, o.name, o.bad, o.canon)
	case string:
		s = o
	}
	return fmt.Sprintf("%v %s| %s", ev.Failed, words(ev.Err), s)
}

func words(s string) string {
	l := strings.Fields(s)
	sort.Strings(l)
	return strings.Join(l, " ")
}

func threadReply(s string, op *Op) string {
	r, err := parseReply(s)
	if err != nil {
		return "unreadable: " + words(s)
	}
	if r.Code != 200 {
		return "error: " + words(s)
	}
	if op.C == nil && strings.Contains(op.L, "list") {
		return fmt.Sprintf("%s %d %d", r.Obj, len(r.Items), len(r.Rels))
	}
	return canonReply(s, op.C)
}

// soloRuns executes the operations of each thread without the others, under two enumeration orders.  What differs
// between the two is left out.
func soloRuns(plan *Plan) map[int]string {
	got := map[int]string{}
	for i := range plan.Procs {
		var first map[int]string
		for v := 0; v < 2; v++ {
			q := *plan
			q.alone, q.Replay, q.Threads = true, true, false
			q.Faults, q.Sched, q.Preempt = nil, nil, nil
			q.MapSeed = mix(plan.MapSeed, uint64(v))
			q.Procs = make([][]*Op, len(plan.Procs))
			q.Procs[i] = plan.Procs[i]
			r := execute1(&q, false, nil)
			if r.Viol != nil || r.Herr != "" {
				return nil
			}
			m := map[int]string{}
			for _, ev := range r.Evs {
				m[ev.Op.U] = transcript(ev)
			}
			if v == 0 {
				first = m
				continue
			}
			for u, s := range m {
				if first[u] == s {
					got[u] = s
				}
			}
		}
	}
	return got
}

func (c *threadChk) Finish(k *Sim, ev *Ev) {
	if k.plan.alone {
		return
	}
	want, ok := k.solo[ev.Op.U]
	if !ok {
		k.stat("foreign:not_determined_alone")
		return
	}
	k.stat("check:threads")
	c.cnt[ev.Op.K]++
	if got := transcript(ev); got != want {
		k.fail("threads", "op%d %s of thread %d gives another result than without the other threads: %s", ev.Op.U, ev.Op, ev.P, firstDiff(got, want))
	}
}

func (c *threadChk) Nontrivial(k *Sim) bool {
	n := 0
	for _, x := range c.cnt {
		n += x
	}
	return n > 4 && k.stats["preemptions"] > 1
}

func init() {
	moreOps["dump"] = func(k *Sim, p *Proc, ev *Ev) { // everything the world says about itself
		s := p.st.slot(ev.Op.S, ev.Op.N)
		canon, bad := consistent(s.w)
		h := histLines(s.app)
		ev.Out = fmt.Sprintf("%s %s history=%q undo=%v redo=%v", canon, bad, h, s.app.CanUndo(), s.app.CanRedo())
	}
	moreOps["reparse"] = func(k *Sim, p *Proc, ev *Ev) { // the text form, read again
		s := p.st.slot(ev.Op.S, ev.Op.N)
		w, err := world.FromString(s.w.String())
		ev.Failed, ev.Err = err != nil, errText(err)
		if err == nil {
			canon, bad := consistent(w)
			ev.Out = fmt.Sprintf("%s %s equal=%v", canon, bad, world.WorldEqual(w, s.w))
			if ev.Op.T == 1 {
				s.w, s.app = w, mustApp(w)
			}
		}
	}
	moreOps["parse"] = func(k *Sim, p *Proc, ev *Ev) { // a line, parsed only
		g, err := grammar.Parse(ev.Op.L)
		ev.Failed, ev.Err = err != nil, words(errText(err))
		if err == nil {
			ev.Out = fmt.Sprintf("%s %q %+v", g.StmtType, g.InputAttributes, g.Response)
		}
	}
	moreOps["pieces"] = func(k *Sim, p *Proc, ev *Ev) { // the texts of the parts, read again
		s := p.st.slot(ev.Op.S, ev.Op.N)
		var l []string
		for _, it := range s.w.ItemList(0) {
			x, err := world.ItemFromString(it.String())
			l = append(l, fmt.Sprintf("%v %v %q", err, world.ItemEqual(it, x), x.Id))
		}
		for _, r := range s.w.RelList(0) {
			x, err := world.RelFromString(s.w, r.String())
			l = append(l, fmt.Sprintf("%v %v %q %q", err, world.RelEqual(r, x), x.From.Id, x.To.Id))
		}
		sort.Strings(l)
		ev.Out = strings.Join(l, "; ")
	}
	moreOps["tsave"] = func(k *Sim, p *Proc, ev *Ev) { // saved under a name no other thread uses, and loaded
		s := p.st.slot(ev.Op.S, ev.Op.N)
		p.st.setDir(ev.Op.D)
		s.w.SetName(ev.Op.N)
		if err := p.st.pers.Save(s.w); err != nil {
			ev.Failed, ev.Err = true, "save: "+err.Error()
			return
		}
		name := ev.Op.N
		if ev.Op.X == 1 {
			name = filepath.Join(dirs[ev.Op.D], name+".world")
		}
		w, err := p.st.pers.Load(name)
		if err != nil || w == nil {
			ev.Failed, ev.Err = true, "load: "+errText(err)
			return
		}
		lo := &loadOut{w: w, name: w.Name()}
		lo.canon, lo.bad = consistent(w)
		ev.Out = lo
		if ev.Op.T == 1 {
			s.w, s.app = w, mustApp(w)
		}
	}
}

func threadPlan(prop string, seed uint64) *Plan {
	r := newRand(mix(seed, 41))
	p := &Plan{Prop: prop, Seed: seed, MapSeed: mix(seed, 42), Threads: true, Setup: &Setup{}}
	n := 2 + r.Intn(2)
	if r.P(1, 8) {
		n = 4
	}
	focus := ""
	if r.P(1, 3) { // all threads do much of the same
		focus = []string{"cmd", "reparse", "parse", "pieces", "tsave", "raw", "dump", "undo"}[r.Intn(8)]
	}
	for i := 0; i < n; i++ {
		gs := mix(seed, 43)
		if r.P(2, 3) {
			gs = mix(seed, 44, uint64(i)) // else the same identifiers
		}
		g := newGen(gs)
		g.r = newRand(mix(seed, 45, uint64(i)))
		g.u = i * 1000
		g.weights(merge(scale(mutWeights, 2), queryWeights))
		var ops []*Op
		slots := 1 + r.Intn(2)
		for s := 0; s < slots; s++ {
			o := g.op("new")
			o.S, o.N = s, g.worldName()
			ops = append(ops, o)
		}
		cmd := func(s int) *Op {
			o := g.op("cmd")
			o.S, o.C = s, g.cmd(g.draw(), s)
			return o
		}
		for j := 0; j < 2+r.Intn(4); j++ {
			o := g.op("cmd")
			o.S = r.Intn(slots)
			o.C = g.cmd([]string{"icreate", "nest", "rcreate", "icreate"}[r.Intn(4)], o.S)
			ops = append(ops, o)
		}
		for j := 0; j < 3+r.Intn(10); j++ {
			s := r.Intn(slots)
			kind := []string{"cmd", "cmd", "cmd", "cmd", "cmd", "reparse", "parse", "pieces", "tsave", "raw", "dump", "undo", "redo"}[r.Intn(13)]
			if focus != "" && r.P(1, 2) {
				kind = focus
			}
			var o *Op
			switch kind {
			case "cmd":
				o = cmd(s)
			case "parse":
				o = g.op("parse")
				o.L = g.cmd(g.draw(), s).Line()
				if r.P(1, 3) {
					o.L = g.mutateLine(o.L)
				}
			case "raw":
				o = g.op("raw")
				o.L = g.garbage()
				if r.P(2, 3) {
					o.L = g.mutateLine(g.cmd(g.draw(), s).Line())
				}
			case "tsave":
				o = g.op("tsave")
				o.N = fmt.Sprintf("t%d %s", i, g.r.Pick([]string{"w", "x.y", "a b", "世"}))
				o.D, o.X, o.T = []int{0, 0, 1, 4}[r.Intn(4)], r.Intn(3), r.Intn(3)
			default:
				o = g.op(kind)
				o.T = r.Intn(3)
			}
			o.S = s
			if !utf8.ValidString(o.L) {
				o.L = "item list"
			}
			ops = append(ops, o)
		}
		for s := 0; s < slots; s++ {
			o := g.op("dump")
			o.S = s
			ops = append(ops, o)
		}
		p.Procs = append(p.Procs, ops)
	}
	p.Prof = &Profile{Sticky: []int{30, 60, 90}[r.Intn(3)]}
	p.preemption(r)
	return p
}

// preemption draws how often and where threads lose the turn.
func (p *Plan) preemption(r *Rand) {
	f := p.Prof
	f.MaxPre = []int{5, 40, 300}[r.Intn(3)]
	f.Quantum = []int{0, 1, 5, 30, 200, 1000, 5000}[r.Intn(7)]
	f.Hot = []int{0, 8, 30, 100, 300}[r.Intn(5)]
	if f.Quantum == 0 && f.Hot == 0 {
		f.Hot = 50
	}
}
