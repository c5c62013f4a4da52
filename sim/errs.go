package main

// C26: the library's errors as values.  Threads of one simulated process make errors out of errors they share,
// preempted in the middle of it; after every step every error made so far has to be what it was when it was made.

import (
	stderrors "errors"
	"fmt"
	"strings"

	"github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

// merr is the model of one error: plain values, shared with no other.
type merr struct {
	code   int
	desc   string
	msg    string
	data   []errors.KvPair
	causes []error
	texts  []string // of the causes
	opaque bool     // made inside the library: more about it may be unknown
}

func (m *merr) derive() *merr {
	n := *m
	n.data = append([]errors.KvPair{}, m.data...)
	n.causes = append([]error{}, m.causes...)
	n.texts = append([]string{}, m.texts...)
	return &n
}

func (m *merr) cause(e error) {
	if e != nil {
		m.causes, m.texts = append(m.causes, e), append(m.texts, e.Error())
	}
}

// eslot is one error that exists.
type eslot struct {
	u    int
	e    errors.TopolithError
	m    *merr
	text string
}

type errOut struct{ slot *eslot }

func (o *errOut) String() string {
	if o.slot == nil {
		return "none"
	}
	return o.slot.text
}

var errCodes = []errors.TopolithErrorCode{errors.TopolithErrorInvalid, errors.TopolithErrorNotFound, errors.TopolithErrorConflict,
	errors.TopolithErrorCommandErr, errors.TopolithErrorInternal, errors.TopolithErrorBadSyncState, errors.TopolithErrorMultiple}

// plainErr is a cause from outside the library.
type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

type errChk struct {
	NopChecker
	cnt     map[string]int
	threads map[int]bool
	descs   map[int]string
}

func init() { moreOps["err"] = opErr }

func opErr(k *Sim, p *Proc, ev *Ev) {
	op := ev.Op
	pick := func(i int) *eslot {
		if len(k.errs) == 0 {
			return nil
		}
		if e := k.errs[i%len(k.errs)]; len(e.text) < 20000 { // texts contain the texts of the causes
			return e
		}
		return nil
	}
	s := &eslot{u: op.U}
	base := pick(op.X)
	v := op.C.V
	if base == nil && v != "lib" {
		v = "new"
	}
	cause := func(id string, i int) error {
		switch {
		case id == "\x01nil":
			return nil
		case id == "\x01err":
			if b := pick(i); b != nil {
				return b.e
			}
		}
		return &plainErr{id}
	}
	var causes []error
	if v == "with" || v == "join" {
		for i, id := range op.C.Ids {
			causes = append(causes, cause(id, op.S+i))
		}
	}
	var pairs []errors.KvPair
	if v == "data" {
		for i, id := range op.C.Ids {
			pairs = append(pairs, errors.KvPair{Key: fmt.Sprintf("k%d", i%3), Value: id})
		}
	}
	switch v {
	case "new":
		s.e = errors.New(op.C.A)
		s.m = &merr{code: errors.TopolithErrorInternal, desc: "\x01", msg: op.C.A}
	case "code":
		c := errCodes[op.T%len(errCodes)]
		s.m = base.m.derive()
		s.e = base.e.UseCode(c)
		s.m.code, s.m.desc = int(c), "\x01"
	case "desc":
		s.m = base.m.derive()
		s.e = base.e.WithDescription(op.C.A)
		s.m.desc = op.C.A
	case "data":
		s.m = base.m.derive()
		s.e = base.e.WithData(pairs...)
		s.m.data = append(s.m.data, pairs...)
		for i := range pairs { // they are the caller's to use again
			pairs[i] = errors.KvPair{Key: "reused", Value: "reused"}
		}
	case "clear":
		s.m = base.m.derive()
		s.e = base.e.ClearData()
		s.m.data = nil
	case "with":
		s.m = base.m.derive()
		l := append([]error{}, causes...)
		s.e = base.e.WithError(l...)
		for i := range l {
			l[i] = &plainErr{"reused"}
		}
		for _, e := range causes {
			s.m.cause(e)
		}
	case "join":
		l := append([]error{}, causes...)
		s.e = errors.Join(l...)
		for i := range l {
			l[i] = &plainErr{"reused"}
		}
		s.m = &merr{code: errors.TopolithErrorMultiple, desc: "\x01", msg: "\x01"}
		for _, e := range causes {
			s.m.cause(e)
		}
	case "lib": // one that the library made
		var err error
		switch op.T % 5 {
		case 0:
			_, err = world.FromString(op.C.A + "(")
		case 1:
			_, err = world.ItemFromString(op.C.A + "(")
		case 2:
			err = world.CreateWorld("w").RelCreate(op.C.A, "nowhere", world.RelParams{}).Err()
		case 3:
			err = world.CreateWorld("w").Nest(op.C.A, "nowhere").Err()
		case 4:
			w := world.CreateWorld("w").ItemCreate(op.C.A, world.ItemParams{})
			err = w.ItemCreate(op.C.A, world.ItemParams{}).Nest("a", "b").Err()
		}
		te, ok := err.(errors.TopolithError)
		if !ok {
			ev.Out = &errOut{}
			return
		}
		s.e = te
		s.m = &merr{code: int(te.Code), desc: te.Description, msg: te.Message, data: append([]errors.KvPair{}, te.Data...), opaque: true}
		if c := te.Unwrap(); c != nil {
			s.m.causes = []error{c}
		}
	}
	if s.m.desc == "\x01" {
		s.m.desc = k.chk.(*errChk).descs[s.m.code]
	}
	if s.m.msg == "\x01" { // its words are its own
		s.m.msg = s.e.Message
	}
	s.text = s.e.Error()
	k.errs = append(k.errs, s)
	ev.Out = &errOut{s}
}

func (c *errChk) Start(k *Sim) {
	c.descs = map[int]string{}
	for _, x := range errCodes {
		c.descs[int(x)] = errors.New("").UseCode(x).Description
	}
}

func (c *errChk) Finish(k *Sim, ev *Ev) {
	out, ok := ev.Out.(*errOut)
	if !ok || out.slot == nil {
		return
	}
	k.stat("check:errors")
	c.cnt[ev.Op.C.V]++
	c.threads[ev.P] = true
	c.one(k, ev, out.slot)
	for _, s := range k.errs {
		if s != out.slot && k.viol == nil {
			c.still(k, ev, s)
		}
	}
}

// one checks an error right after it was made.
func (c *errChk) one(k *Sim, ev *Ev, s *eslot) {
	bad := func(f string, a ...any) {
		k.fail("errors", "op%d %s: %s", ev.Op.U, ev.Op, fmt.Sprintf(f, a...))
	}
	m := s.m
	if d := s.differs(); d != "" {
		bad("the new error %s", d)
		return
	}
	for _, part := range append([]string{fmt.Sprint(m.code), m.desc, m.msg}, m.texts...) {
		if !strings.Contains(s.text, part) {
			bad("the text of the new error, %q, lacks %q", abbrev(s.text, 300), abbrev(part, 200))
			return
		}
	}
	if m.opaque || strings.ContainsAny(m.desc+m.msg, "\"\\\n") {
		return
	}
	p, err := grammar.Parse(s.text)
	for _, t := range m.texts {
		if strings.ContainsAny(t, "\"\\\n") {
			return // how a text within the text is quoted is left open
		}
	}
	if err != nil {
		bad("the text of the new error, %q, is not read as a status: %v", abbrev(s.text, 300), err)
		return
	}
	if p.Response.Status.Code != m.code || p.Response.Status.Message != m.desc+": "+m.msg {
		bad("the text of the new error, %q, is read as %d %q", abbrev(s.text, 300), p.Response.Status.Code, p.Response.Status.Message)
	}
}

// still checks that an error made before is what it was.
func (c *errChk) still(k *Sim, ev *Ev, s *eslot) {
	d := s.differs()
	if d == "" && s.e.Error() != s.text {
		d = "has another text: " + firstDiff(s.e.Error(), s.text)
	}
	if d != "" {
		k.fail("errors", "after op%d %s the error of op%d %s", ev.Op.U, ev.Op, s.u, d)
	}
}

func (s *eslot) differs() string {
	e, m := s.e, s.m
	if int(e.Code) != m.code || e.Description != m.desc || e.Message != m.msg {
		return fmt.Sprintf("has code %d, description %q and message %q instead of %d, %q and %q", e.Code, e.Description, e.Message, m.code, m.desc, m.msg)
	}
	if fmt.Sprint(len(e.Data), e.Data) != fmt.Sprint(len(m.data), m.data) {
		return fmt.Sprintf("has the data %q instead of %q", e.Data, m.data)
	}
	if e.Error() != e.String() {
		return "has two texts"
	}
	if len(m.causes) > 0 {
		if _, ok := m.causes[0].(*plainErr); ok && !stderrors.Is(e, m.causes[0]) {
			return fmt.Sprintf("is no longer caused by %q but by %v", m.causes[0], stderrors.Unwrap(e))
		}
		if u := e.Unwrap(); u == nil || u.Error() != m.causes[0].Error() {
			return fmt.Sprintf("unwraps to %v instead of %q", u, m.causes[0])
		}
	} else if e.Unwrap() != nil {
		return fmt.Sprintf("unwraps to %q and has no cause", e.Unwrap())
	}
	return ""
}

func (c *errChk) Nontrivial(k *Sim) bool { return len(k.errs) > 5 && c.cnt["data"]+c.cnt["with"] > 2 }

func errPlan(prop string, seed uint64) *Plan {
	r := newRand(mix(seed, 51))
	p := &Plan{Prop: prop, Seed: seed, MapSeed: mix(seed, 52), Threads: true, Setup: &Setup{}}
	n := 1 + r.Intn(3)
	u := 0
	weights := []int{2, 1 + r.Intn(4), 1 + r.Intn(3), 2 + r.Intn(14), r.Intn(2), 2 + r.Intn(14), r.Intn(4), r.Intn(3)}
	total := 0
	for _, w := range weights {
		total += w
	}
	few := r.P(1, 2) // mostly the same few errors are started from
	span := 1 << 20
	if few {
		span = 1 + r.Intn(4)
	}
	for i := 0; i < n; i++ {
		var ops []*Op
		for j := 0; j < 4+r.Intn(24); j++ {
			u++
			x, v := r.Intn(total), 0
			for ; x >= weights[v]; v++ {
				x -= weights[v]
			}
			o := &Op{U: i*1000 + u, K: "err", X: r.Intn(span), S: r.Intn(1 << 20), T: r.Intn(100)}
			o.C = &Cmd{V: []string{"new", "code", "desc", "data", "clear", "with", "join", "lib"}[v], A: r.Pick(valuePool)}
			if r.P(1, 3) {
				o.X = r.Intn(1 << 20)
			}
			for l := []int{1, 1, 1, 2, 2, 3, 5, 9, 0}[r.Intn(9)]; l > 0; l-- {
				id := r.Pick(valuePool)
				if o.C.V != "data" {
					switch r.Intn(8) {
					case 0, 1, 2:
						id = "\x01err"
					case 3:
						id = "\x01nil"
					}
				}
				o.C.Ids = append(o.C.Ids, id)
			}
			ops = append(ops, o)
		}
		p.Procs = append(p.Procs, ops)
	}
	p.Prof = &Profile{Sticky: []int{30, 60, 90}[r.Intn(3)]}
	p.preemption(r)
	return p
}
