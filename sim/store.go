package main

// Oracles and workloads of the storage properties: C01, C02, C03, C05, C06, C07, C08, C09.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/anishathalye/porcupine"
	"github.com/williamflynt/topolith/pkg/persistence"
)

type skey struct {
	d int
	n string
}

func (s skey) String() string { return fmt.Sprintf("%q in %s", s.n, dirs[s.d]) }

const never = 1 << 60

type storeChk struct {
	prop    string
	prev    map[string]string // disk content after the last operation
	first   map[string]string
	clutter map[string]string
	damaged map[skey]*damageOut
	dirtied map[skey]bool // content put there by the harness: the register rules do not apply
	cnt     map[string]int
	lossy   bool
	conc    bool
}

func newStoreChk(prop string) *storeChk {
	return &storeChk{prop: prop, damaged: map[skey]*damageOut{}, dirtied: map[skey]bool{}, cnt: map[string]int{}}
}

func (c *storeChk) Start(k *Sim) {
	c.first = k.fs.tree()
	c.prev = k.fs.tree()
	c.conc = len(k.procs) > 1
}

func inflight(k *Sim, except *Ev) bool {
	for _, e := range k.evs {
		if !e.done && e != except {
			return true
		}
	}
	return false
}

// savesOf lists the saves of a key that have begun, in order of their call.
func savesOf(k *Sim, key skey) (l []*Ev) {
	for _, e := range k.evs {
		if e.Op.K == "save" && e.Op.D == key.d && e.Op.N == key.n && e.Out != nil {
			l = append(l, e)
		}
	}
	return
}

func acked(e *Ev) bool { return e.done && !e.Killed && !e.Failed && e.Panic == "" }

func end(e *Ev) int {
	if e.done {
		return e.Ret
	}
	return never
}

// allowed says which versions a read between call and ret may see, and whether it may see none.
func allowed(k *Sim, key skey, call, ret int) (vers map[string]bool, absent bool) {
	vers, absent = map[string]bool{}, true
	l := savesOf(k, key)
	for _, a := range l {
		if acked(a) && a.Ret < call {
			absent = false
		}
	}
	for _, s := range l {
		if s.Call > ret {
			continue
		}
		dead := false
		for _, a := range l {
			if acked(a) && a.Ret < call && end(s) < a.Call {
				dead = true
			}
		}
		if !dead {
			vers[s.Out.(*saveOut).canon] = true
		}
	}
	return
}

func hardFault(ev *Ev) bool {
	for _, f := range ev.Faulted {
		if f.K == "errno" || f.K == "errafter" {
			return true
		}
	}
	return false
}

func softFault(ev *Ev) bool {
	for _, f := range ev.Faulted {
		if f.K == "short" || f.K == "eintr" {
			return true
		}
	}
	return false
}

// probeLoad loads a name on the given disk, outside the simulation.
func probeLoad(k *Sim, fs *FS, key skey) (canon, name, bad string, isNil bool, err error) {
	old, here := k.fs, install(freshGlobals())
	k.fs = fs
	defer func() { k.fs = old; install(here) }()
	if fs != old { // the probe process was given a directory of the running disk
		runtimeCwd(k, fs)
	}
	p := persistence.NewFilePersistence()
	if key.d != 0 {
		p.SetSourcePath(absDir(key.d))
	}
	w, err := p.Load(key.n)
	if err != nil || w == nil {
		return "", "", "", w == nil, err
	}
	canon, bad = consistent(w)
	return canon, w.Name(), bad, false, nil
}

func versName(k *Sim, key skey, canon string) string {
	for _, s := range savesOf(k, key) {
		if s.Out.(*saveOut).canon == canon {
			return fmt.Sprintf("the version of op%d", s.Op.U)
		}
	}
	return "a world nobody saved"
}

func allowedNames(k *Sim, key skey, vers map[string]bool) string {
	var l []string
	for _, s := range savesOf(k, key) {
		if vers[s.Out.(*saveOut).canon] {
			l = append(l, fmt.Sprintf("op%d", s.Op.U))
		}
	}
	return strings.Join(l, ", ")
}

// readable checks that the stored version of a key is one of those allowed now.
func (c *storeChk) readable(k *Sim, fs *FS, key skey, call int, when, class string) bool {
	if c.dirtied[key] || c.path(k, key) {
		return true
	}
	vers, absent := allowed(k, key, call, never)
	canon, name, bad, isNil, err := probeLoad(k, fs, key)
	c.cnt["probe"]++
	if err != nil || isNil {
		if absent {
			return true
		}
		if err == nil {
			k.fail(class, "%s: loading %v returns no world and no error (allowed: the version of %s)", when, key, allowedNames(k, key, vers))
		} else {
			k.fail(class, "%s: loading %v fails: %v (allowed: the version of %s)", when, key, err, allowedNames(k, key, vers))
		}
		return false
	}
	if bad != "" {
		k.fail(class, "%s: loading %v gives an inconsistent world: %s", when, key, bad)
		return false
	}
	if !vers[canon] || name != key.n {
		k.fail(class, "%s: loading %v gives %s named %q (allowed: the version of %s)", when, key, versName(k, key, canon), name, allowedNames(k, key, vers))
		return false
	}
	return true
}

// path: the name is a path that was never saved as the name of a world; loading it is not specified.
func (c *storeChk) path(k *Sim, key skey) bool {
	if !strings.Contains(key.n, "/") {
		return false
	}
	for _, s := range savesOf(k, key) {
		if acked(s) {
			return false
		}
	}
	return true
}

func keysOf(k *Sim) (l []skey) {
	seen := map[skey]bool{}
	for _, e := range k.evs {
		if e.Op.K == "save" {
			key := skey{e.Op.D, e.Op.N}
			if !seen[key] {
				seen[key] = true
				l = append(l, key)
			}
		}
	}
	return
}

func (c *storeChk) Finish(k *Sim, ev *Ev) {
	op := ev.Op
	key := skey{op.D, op.N}
	if c.prop == "C06" {
		c.footprint(k, ev)
		if k.viol != nil {
			return
		}
	}
	switch op.K {
	case "save":
		if ev.Killed {
			c.cnt["killed_saves"]++
		} else if ev.Failed {
			c.cnt["failed_saves"]++
		} else {
			c.cnt["acked_saves"]++
			c.dirtied[key] = false
			delete(c.damaged, key)
		}
		if c.dirtied[key] {
			return
		}
		if !ev.Killed && ev.Failed && !hardFault(ev) && k.stats["disk_full"] == 0 && plainName(op.N) {
			k.fail("save.error", "op%d %s fails without any storage fault: %s", op.U, op, ev.Err)
			return
		}
		if !ev.Killed && !ev.Failed || c.prop == "C01" || c.prop == "C02" || c.prop == "C08" {
			what := "after the save succeeded"
			if ev.Killed {
				what = "after the process died while saving"
			} else if ev.Failed {
				what = "after the save reported failure"
			}
			call := k.seq + 1
			if !c.readable(k, k.fs, key, call, what, "stored") {
				return
			}
			if acked(ev) && (c.prop == "C02" || c.prop == "C03" || c.prop == "C08") {
				for mode := 0; mode < 3; mode++ { // try power failures right now on copies of the disk
					cl := k.fs.clone()
					m := 0
					if mode == 0 {
						m = 1
					}
					cl.powerLoss(newRand(mix(k.plan.Seed, uint64(op.U), uint64(mode))), m)
					c.cnt["power_cuts_tried"]++
					if !c.readable(k, cl, key, call, "if power fails right after the save succeeded", "durable") {
						return
					}
				}
			}
			if c.prop == "C02" && (ev.Failed || ev.Killed) {
				for mode := 0; mode < 2; mode++ {
					cl := k.fs.clone()
					cl.powerLoss(newRand(mix(k.plan.Seed, uint64(op.U), uint64(mode))), 1-mode)
					c.cnt["power_cuts_tried"]++
					if !c.readable(k, cl, key, call, "if power fails after an unsuccessful save", "durable") {
						return
					}
				}
			}
		}
		if c.prop == "C08" {
			c.recovered(k, ev)
		}
	case "load":
		if ev.Killed {
			return
		}
		c.load(k, ev, key)
		if c.prop == "C08" && k.viol == nil {
			c.recovered(k, ev)
		}
	case "list":
		if ev.Killed {
			return
		}
		c.list(k, ev)
		if c.prop == "C08" && k.viol == nil {
			c.recovered(k, ev)
		}
	case "damage":
		if d, ok := ev.Out.(*damageOut); ok && d != nil {
			c.damaged[key] = d
			c.dirtied[key] = true
			c.cnt["damage"]++
		}
	case "damload":
		if !ev.Killed {
			c.damload(k, ev, key)
		}
	case "powertest":
		for _, key := range keysOf(k) {
			for mode := 0; mode < 2; mode++ {
				cl := k.fs.clone()
				cl.powerLoss(newRand(mix(k.plan.Seed, uint64(op.U), uint64(mode))), mode)
				c.cnt["power_cuts_tried"]++
				if !c.readable(k, cl, key, k.seq+1, "if power fails now", "durable") {
					return
				}
			}
		}
	}
}

func (c *storeChk) load(k *Sim, ev *Ev, key skey) {
	if c.dirtied[key] || c.path(k, key) {
		return
	}
	c.cnt["loads"]++
	o, _ := ev.Out.(*loadOut)
	if o == nil {
		return
	}
	vers, absent := allowed(k, key, ev.Call, ev.Ret)
	if ev.Failed {
		if !o.isNil {
			k.fail("load.partial", "op%d %s reports %q and still returns a world", ev.Op.U, ev.Op, ev.Err)
			return
		}
		if !absent && !hardFault(ev) {
			k.fail("load.error", "op%d %s fails although no storage operation of it failed: %s (allowed: the version of %s)", ev.Op.U, ev.Op, ev.Err, allowedNames(k, key, vers))
		}
		return
	}
	if o.isNil {
		k.fail("load.nil", "op%d %s returns no world and no error", ev.Op.U, ev.Op)
		return
	}
	if o.bad != "" {
		k.fail("load.value", "op%d %s returns an inconsistent world: %s", ev.Op.U, ev.Op, o.bad)
		return
	}
	if !vers[o.canon] || o.name != key.n {
		k.fail("load.value", "op%d %s returns %s named %q (allowed: the version of %s)", ev.Op.U, ev.Op, versName(k, key, o.canon), o.name, allowedNames(k, key, vers))
	}
}

func (c *storeChk) list(k *Sim, ev *Ev) {
	c.cnt["lists"]++
	d := ev.Op.D
	lo, _ := ev.Out.(*listOut)
	if lo == nil {
		return
	}
	names := lo.names
	must, may := map[string]bool{}, map[string]bool{}
	for _, s := range k.evs {
		if s.Op.K != "save" || s.Op.D != d {
			continue
		}
		if acked(s) && s.Ret < ev.Call {
			must[s.Op.N] = true
		}
		if s.Call < ev.Ret {
			may[s.Op.N] = true
		}
	}
	stored := map[string]bool{}
	if k.plan.Setup != nil && k.plan.Setup.Many > 0 && d == 0 {
		c.cnt["lists_of_a_large_directory"]++
	}
	if d == 0 && k.plan.Setup != nil {
		for i := 0; i < k.plan.Setup.Many; i++ {
			n := manyName(i)
			must[n], may[n], stored[n] = true, true, true
		}
	}
	if ev.Failed {
		if len(names) > 0 {
			k.fail("list.partial", "op%d %s reports %q and still returns %q", ev.Op.U, ev.Op, ev.Err, names)
			return
		}
		if !hardFault(ev) && (len(must) > 0 || lo.there) {
			k.fail("list.error", "op%d %s fails although no storage operation of it failed: %s", ev.Op.U, ev.Op, ev.Err)
		}
		return
	}
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] {
			k.fail("list.twice", "op%d %s names %q twice: %q", ev.Op.U, ev.Op, n, names)
			return
		}
		seen[n] = true
		if !may[n] {
			k.fail("list.extra", "op%d %s names %q, which nobody saved there: %q", ev.Op.U, ev.Op, n, names)
			return
		}
	}
	for _, n := range sortedKeys(must) {
		if !seen[n] {
			k.fail("list.missing", "op%d %s does not name %q, whose save succeeded: %q", ev.Op.U, ev.Op, n, names)
			return
		}
	}
	for _, n := range names {
		key := skey{d, n}
		if c.dirtied[key] || stored[n] {
			continue
		}
		c.cnt["listed_names_loaded"]++
		vers, _ := allowed(k, key, ev.Call, never)
		canon, name, bad, isNil, err := probeLoad(k, k.fs, key)
		if err != nil || isNil || bad != "" || !vers[canon] || name != n {
			k.fail("list.unloadable", "op%d %s names %q, but loading it gives error %v, world named %q %s", ev.Op.U, ev.Op, n, err, name, bad)
			return
		}
	}
}

func (c *storeChk) damload(k *Sim, ev *Ev, key skey) {
	d := c.damaged[key]
	o, _ := ev.Out.(*loadOut)
	if d == nil || o == nil {
		return
	}
	c.cnt["damaged_loads"]++
	now, _ := k.fs.get(d.path)
	if string(now) != string(d.after) {
		k.fail("damage.changed", "op%d loading the damaged file %s (%s) changed it", ev.Op.U, d.path, d.what)
		return
	}
	if ev.Failed {
		c.cnt["damaged_loads_refused"]++
		if !o.isNil {
			k.fail("damage.both", "op%d loading the damaged file (%s) reports %q and still returns a world", ev.Op.U, d.what, ev.Err)
		}
		return
	}
	if o.isNil {
		k.fail("damage.nil", "op%d loading the damaged file (%s) returns no world and no error", ev.Op.U, d.what)
		return
	}
	if d.must && !hardFault(ev) {
		k.fail("damage.accepted", "op%d loading %s succeeds: the file is %s; bytes %q", ev.Op.U, ev.Op, d.what, abbrev(string(d.after), 300))
		return
	}
	if o.bad != "" {
		k.fail("damage.inconsistent", "op%d loading the damaged file (%s) gives an inconsistent world: %s; bytes %q", ev.Op.U, d.what, o.bad, abbrev(string(d.after), 600))
	}
}

// recovered: in the fault-free period every operation succeeds within a bounded number of system calls.
func (c *storeChk) recovered(k *Sim, ev *Ev) {
	if !k.healed || ev.Killed || len(ev.Faulted) > 0 || ev.Op.B != "clean" {
		return
	}
	c.cnt["clean_ops"]++
	if ev.Failed {
		_, absent := allowed(k, skey{ev.Op.D, ev.Op.N}, ev.Call, ev.Ret)
		if ev.Op.K == "load" && absent {
			return
		}
		k.fail("recover."+ev.Op.K, "op%d %s still fails after all faults stopped: %s", ev.Op.U, ev.Op, ev.Err)
		return
	}
	if ev.Sys > 600 {
		k.fail("recover.steps", "op%d %s needs %d system calls after all faults stopped", ev.Op.U, ev.Op, ev.Sys)
	}
}

// footprint compares the whole disk before and after an operation (C06).
func (c *storeChk) footprint(k *Sim, ev *Ev) {
	now := k.fs.tree()
	prev := c.prev
	c.prev = now
	op := ev.Op
	if op.K == "damage" || op.K == "heal" {
		return
	}
	var changed []string
	for p := range now {
		if o, ok := prev[p]; !ok || o != now[p] {
			changed = append(changed, p)
		}
	}
	for p := range prev {
		if _, ok := now[p]; !ok {
			changed = append(changed, p)
		}
	}
	sort.Strings(changed)
	c.cnt["footprints"]++
	dir := absDir(op.D) + "/"
	for _, p := range changed {
		was, had := prev[p]
		_, has := now[p]
		_ = was
		if c.conc {
			// other processes may be in the middle of their own operations: judge only what no save may do
			if _, orig := c.first[p]; orig && !strings.HasSuffix(p, "/") && !c.ownFile(k, p) {
				k.fail("footprint", "op%d %s: file %s, which belongs to no world saved in this run, has changed", op.U, op, p)
				return
			}
			if !has || had || c.ownFile(k, p) || c.inStore(k, p) {
				continue
			}
			k.fail("footprint", "op%d %s: %s was created outside every storage location in use", op.U, op, p)
			return
		}
		if op.K != "save" {
			k.fail("footprint", "op%d %s changed the disk: %s", op.U, op, p)
			return
		}
		if strings.HasSuffix(p, "/") {
			if has && !had && strings.HasPrefix(dir, p) {
				continue // the storage location itself was created
			}
			k.fail("footprint", "op%d %s created or removed directory %s", op.U, op, p)
			return
		}
		if filepath.Dir(p)+"/" != dir {
			k.fail("footprint", "op%d %s touched %s, which is not in the storage location", op.U, op, p)
			return
		}
		base := filepath.Base(p)
		if base == op.N+".world" {
			continue
		}
		if !had && (!strings.HasSuffix(base, ".world") || !plainName(op.N)) {
			continue // leftover of an unfinished save, or the file of an oddly named world
		}
		if had && !c.foreign(k, p) {
			continue // an earlier leftover
		}
		k.fail("footprint", "op%d %s touched %s, which is not the file of that world", op.U, op, p)
		return
	}
	if op.K == "save" && !ev.Failed && !ev.Killed {
		for _, key := range keysOf(k) { // every other world is what it was
			if !c.readable(k, k.fs, key, k.seq+1, fmt.Sprintf("after op%d %s", op.U, op), "others") {
				return
			}
		}
	}
}

// foreign: the file belongs to a saved world or was there from the start.
func (c *storeChk) foreign(k *Sim, p string) bool {
	if _, ok := c.first[p]; ok {
		return true
	}
	return c.ownFile(k, p) || strings.HasSuffix(p, ".world")
}

func (c *storeChk) ownFile(k *Sim, p string) bool {
	for _, key := range keysOf(k) {
		if p == absDir(key.d)+"/"+key.n+".world" && plainName(key.n) {
			return true
		}
	}
	return false
}

func (c *storeChk) inStore(k *Sim, p string) bool {
	for _, key := range keysOf(k) {
		d := absDir(key.d) + "/"
		if filepath.Dir(strings.TrimSuffix(p, "/"))+"/" == d || strings.HasPrefix(d, p) && strings.HasSuffix(p, "/") {
			return true
		}
	}
	return false
}

// plainName: a name that every version of the program can use as a file name.
func plainName(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.ContainsAny(n, "/\x00") && len(n) < 200 && n != "folder"
}

func (c *storeChk) PowerLoss(k *Sim) {
	c.lossy = true
	c.cnt["power_losses"]++
	if c.prop == "C06" {
		c.prev = k.fs.tree()
	}
	if c.prop != "C02" && c.prop != "C08" && c.prop != "C01" {
		return
	}
	for _, key := range keysOf(k) {
		if !c.readable(k, k.fs, key, k.seq+1, "after the power failure", "powerloss") {
			return
		}
	}
}

type regIn struct {
	write, maybe bool
	v            string
}

var regModel = (&porcupine.NondeterministicModel{
	Init: func() []interface{} { return []interface{}{""} },
	Step: func(st, in, out interface{}) []interface{} {
		s, i := st.(string), in.(regIn)
		if i.write {
			if i.maybe {
				return []interface{}{s, i.v}
			}
			return []interface{}{i.v}
		}
		if s == i.v {
			return []interface{}{s}
		}
		return nil
	},
}).ToModel()

func (c *storeChk) End(k *Sim) {
	if c.prop == "C05" && len(k.procs) > 0 {
		c.footEnd(k)
	}
	if k.viol != nil || c.lossy || c.prop == "C09" || (c.prop != "C05" && c.prop != "C01" && c.prop != "C03" && c.prop != "C07") {
		return
	}
	// the history of every world is that of one atomic register
	for _, key := range keysOf(k) {
		if c.dirtied[key] {
			continue
		}
		var ops []porcupine.Operation
		var desc []string
		for _, e := range k.evs {
			if e.Op.D != key.d || e.Op.N != key.n || !e.done {
				continue
			}
			switch e.Op.K {
			case "save":
				if e.Out == nil {
					continue
				}
				ops = append(ops, porcupine.Operation{ClientId: e.P*1000 + e.Gen, Input: regIn{true, !acked(e), e.Out.(*saveOut).canon}, Call: int64(e.Call), Return: int64(e.Ret)})
				desc = append(desc, fmt.Sprintf("op%d p%d save [%d,%d] acked=%v", e.Op.U, e.P, e.Call, e.Ret, acked(e)))
			case "load":
				o, _ := e.Out.(*loadOut)
				v := ""
				if o == nil || e.Killed || e.Failed && hardFault(e) {
					continue
				}
				if !e.Failed && o != nil {
					v = o.canon
				}
				ops = append(ops, porcupine.Operation{ClientId: e.P*1000 + e.Gen, Input: regIn{v: v}, Call: int64(e.Call), Return: int64(e.Ret)})
				desc = append(desc, fmt.Sprintf("op%d p%d load [%d,%d] -> %s", e.Op.U, e.P, e.Call, e.Ret, versName(k, key, v)))
			}
		}
		if len(ops) == 0 || len(ops) > 60 {
			continue
		}
		c.cnt["histories_checked"]++
		if !porcupine.CheckOperations(regModel, ops) {
			k.fail("order", "the saves and loads of %v are not explainable by any order: %s", key, strings.Join(desc, "; "))
			return
		}
	}
}

func (c *storeChk) footEnd(k *Sim) {
	for _, key := range keysOf(k) {
		if !c.readable(k, k.fs, key, k.seq+1, "at the end", "stored") {
			return
		}
	}
}

func (c *storeChk) Nontrivial(k *Sim) bool {
	for s, n := range c.cnt {
		k.stats["check:"+s] += n
	}
	n := c.cnt
	switch c.prop {
	case "C01":
		return n["killed_saves"]+n["failed_saves"] > 0
	case "C02":
		return n["acked_saves"] > 0 && (n["power_losses"] > 0 || n["power_cuts_tried"] > 0)
	case "C03":
		return len(k.fired) > 0 && n["acked_saves"]+n["loads"]+n["lists"] > 0
	case "C05":
		return n["acked_saves"] > 1 && n["loads"] > 0
	case "C06":
		return n["footprints"] > 2 && n["acked_saves"] > 0
	case "C07":
		return n["lists"] > 0 && n["acked_saves"] > 0
	case "C08":
		return n["clean_ops"] > 0 && len(k.fired) > 0
	case "C09":
		return n["damaged_loads"] > 0
	}
	return true
}

// ---- damage --------------------------------------------------------------------------

type damageOut struct {
	path  string
	after []byte
	must  bool // loading it must fail
	what  string
}

func (d *damageOut) String() string {
	if d == nil {
		return "nothing to damage"
	}
	return d.what
}

var otherTexts = []string{"", "\n", " ", "not a world at all", "item \"a\"", "item a name=x", "world", "200 ok", "item \"a\"\n$$$$\n200 ok ", "tree{nil::[]}", "tree{nil::[tree{item \"a\"::[]}]}", "nest a in b", "$$$$ 200 ok", "404 error \"x\"",
	"$$world", "$$world\nendworld$$", "rel \"a\" \"b\"", "true\n$$$$\n200 ok ", "\x00\x00\x00\x00", "{\"version\":1}", "\xef\xbb\xbf$$world", "item create a", "$$$$\n200 ok", "endworld$$", "$$world version=1 endworld$$", "items list", "in? a b", "free a"}

func damage(k *Sim, op *Op) *damageOut {
	path := absDir(op.D) + "/" + op.N + ".world"
	b, ok := k.fs.get(path)
	if !ok {
		return nil
	}
	r := newRand(mix(k.plan.Seed, uint64(op.U), uint64(op.T), 0xda))
	d := &damageOut{path: path}
	n := len(b)
	tail := strings.Index(string(b), "endworld$$") // a damaged file may hold several
	cp := append([]byte{}, b...)
	pos := func(m int) int {
		if m <= 0 {
			return 0
		}
		return r.Intn(m)
	}
	switch op.X {
	case 0: // cut off
		c := pos(n)
		d.after, d.what = cp[:c], fmt.Sprintf("cut off at byte %d of %d", c, n)
		d.must = tail >= 0 && c < tail+len("endworld$$")
	case 1:
		d.after, d.what, d.must = []byte{}, "empty", true
	case 2: // zeroed range
		a := pos(n)
		e := a + 1 + pos(n-a)
		for i := a; i < e && i < n; i++ {
			cp[i] = 0
		}
		d.after, d.what = cp, fmt.Sprintf("zeroed from byte %d to %d", a, e)
		d.must = tail >= 0 && a < tail+len("endworld$$")
	case 3: // overwritten bytes
		for i := 0; i <= pos(4) && n > 0; i++ {
			cp[pos(n)] = byte(r.next())
		}
		d.after, d.what = cp, "overwritten in a few bytes"
	case 4: // overwritten with characters the language knows
		al := "\"=:[]{}$ \nab0itemrelworldtree"
		for i := 0; i <= pos(6) && n > 0; i++ {
			cp[pos(n)] = al[r.Intn(len(al))]
		}
		d.after, d.what = cp, "overwritten with characters of the language"
	case 5: // not a world
		t := otherTexts[r.Intn(len(otherTexts))]
		d.after, d.what, d.must = []byte(t), "not a world but "+fmt.Sprintf("%q", t), true
	case 6: // mixed with itself or another file
		o := cp
		var ps []string
		for _, p := range sortedKeys(k.fs.tree()) {
			if strings.HasSuffix(p, ".world") {
				ps = append(ps, p)
			}
		}
		if len(ps) > 0 {
			if ob, ok := k.fs.get(ps[r.Intn(len(ps))]); ok {
				o = ob
			}
		}
		a, e := pos(n), pos(len(o))
		d.after, d.what = append(cp[:a:a], o[e:]...), fmt.Sprintf("first %d bytes followed by another file from byte %d", a, e)
	case 7: // lines moved, dropped or doubled
		ls := strings.Split(string(b), "\n")
		i := pos(len(ls))
		switch pos(3) {
		case 0:
			ls = append(ls[:i:i], ls[i+1:]...)
		case 1:
			ls = append(ls[:i+1:i+1], ls[i:]...)
		case 2:
			j := pos(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
		}
		d.after, d.what = []byte(strings.Join(ls, "\n")), "with lines moved, dropped or doubled"
	case 8: // a tree that names an item twice or contains itself, dangling relationships
		t := []string{`tree{nil::[tree{item "a"::[tree{item "b"::[tree{item "a"::[]}]}]}]}`, `tree{nil::[tree{item "a"::[]} tree{item "a" name="x"::[]}]}`, `tree{item "a"::[tree{item "a"::[]}]}`, `tree{nil::[tree{item "a"::[tree{nil::[tree{item "b"::[]}]}]}]}`,
			`tree{item "a"::[tree{item "b"::[]}]}`, `tree{nil::[tree{item "nil"::[tree{item "b"::[]}]}]}`, `tree{nil::[tree{item "b"::[tree{item "a"::[]}]} tree{item "a"::[tree{item "b"::[]}]}]}`, `tree{nil::[tree{item ""::[]}]}`, `tree{nil::[tree{nil::[]}]}`,
			`tree{nil::[tree{item "a"::[tree{item "b"::[]}]} tree{item "c"::[tree{item "b"::[]}]}]}`}[r.Intn(10)]
		rl := []string{"", "rel \"a\" \"b\"", "rel \"a\" \"zz\"", "rel \"a\" \"a\"\nrel \"a\" \"a\" verb=\"v\"", "rel \"\" \"\""}[r.Intn(5)]
		nm := []string{`name=x`, `name="x"`, `name=""`, `name=`}[r.Intn(4)]
		v := []string{"1", "0", "99999999999999999999", "007"}[r.Intn(4)]
		d.after = []byte(fmt.Sprintf("$$world\nversion=%s\nid=x\n%s\nexpanded=\n%s\n%s\nendworld$$", v, nm, t, rl))
		d.what = "a well-formed text of an impossible world"
	case 9: // very deep nesting
		depth := 30 + pos(40)
		s := "tree{nil::["
		for i := 0; i < depth; i++ {
			s += fmt.Sprintf("tree{item \"d%d\"::[", i)
		}
		s += strings.Repeat("]}", depth+pos(2)) + "]}"
		d.after, d.what = []byte("$$world\nversion=1\nid=x\nname=x\nexpanded=\n"+s+"\n\nendworld$$"), "a very deep tree"
	case 10: // inserted bytes
		i := pos(n)
		ins := []string{"\"", "\x00", "endworld$$", "]}", "::[", "tree{", "\n\n", " ", "$$", "item", "\xff", strings.Repeat("[", 40)}[r.Intn(12)]
		d.after, d.what = []byte(string(b[:i])+ins+string(b[i:])), fmt.Sprintf("with %q inserted at byte %d", ins, i)
	default: // one character dropped
		if n == 0 {
			return nil
		}
		i := pos(n)
		d.after, d.what = append(cp[:i:i], cp[i+1:]...), fmt.Sprintf("without byte %d", i)
	}
	if string(d.after) == string(b) {
		d.must = false
	}
	k.fs.put(path, d.after)
	return d
}

// ---- workloads -----------------------------------------------------------------------

func storePlan(prop string, seed uint64) *Plan {
	p := storePlan1(prop, seed)
	r := newRand(mix(seed, 23))
	if len(p.Procs) > 1 && (prop == "C05" && r.P(1, 3) || r.P(1, 8)) { // threads of one process instead
		p.Threads = true
		p.preemption(r)
		seen := map[int]bool{}
		for _, ops := range p.Procs {
			for _, o := range ops {
				switch o.K {
				case "save", "load", "list", "setdir", "damload":
					seen[o.D] = true
				}
			}
		}
		p.Shared = len(seen) == 1 && r.P(1, 2)
	}
	return p
}

func storePlan1(prop string, seed uint64) *Plan {
	g := newGen(seed)
	r := newRand(mix(seed, 21))
	p := &Plan{Prop: prop, Seed: seed, MapSeed: mix(seed, 22), Setup: &Setup{}}
	p.MinSync = r.P(1, 2)
	if r.P(1, 3) {
		p.DirBatch = 320 + r.Intn(400)
	}
	p.DtUnknown = r.P(1, 6)
	p.Setup.Clutter = r.P(1, 3)
	p.Tick = []int64{0, 4e6, 1e9, 1e10}[r.Intn(4)]
	p.Setup.NoDir = !p.Setup.Clutter && r.P(1, 4)
	if prop == "C06" || prop == "C07" {
		p.Setup.Clutter = r.P(2, 3)
		if g.r.P(1, 40) {
			p.Setup.Many = []int{20, 99, 130, 300, 600}[g.r.Intn(5)]
			p.Setup.NoDir = false
		}
	}
	nproc := 1
	switch prop {
	case "C05":
		nproc = 2 + r.Intn(3)
	case "C01", "C02", "C07", "C08":
		if r.P(1, 2) {
			nproc = 2 + r.Intn(2)
		}
	case "C03":
		if r.P(1, 5) {
			nproc = 2
		}
	case "C06":
		if r.P(1, 6) {
			nproc = 2
		}
	}
	var names []string
	nn := 1 + r.Intn(2)
	if prop == "C06" || prop == "C07" {
		nn = 2 + r.Intn(3)
	}
	for len(names) < nn {
		n := "w"
		if len(names) > 0 || r.P(1, 2) {
			n = g.worldName()
		}
		names = append(names, n)
	}
	if (prop == "C06" || prop == "C07") && r.P(1, 2) { // names that are close to each other
		names = append(names, []string{names[0] + ".world", names[0] + "x", "." + names[0], names[0] + ".tmp", names[0] + "~", strings.ToUpper(names[0]), names[0] + ".bak"}[r.Intn(7)])
	}
	evil := (prop == "C06" && r.P(1, 2)) || (prop == "C07" && r.P(1, 5))
	ds := []int{0}
	if r.P(1, 3) {
		ds = []int{r.Intn(len(dirs))}
	}
	if prop == "C06" {
		for len(ds) < 2+r.Intn(2) {
			ds = append(ds, r.Intn(len(dirs)))
		}
	}
	r2 := newRand(mix(seed, 24))
	p.OwnDir = p.MinSync && newRand(mix(seed, 25)).P(1, 2)
	hands, holds := 1, r2.P(1, 2)
	if (prop == "C06" || prop == "C07") && r2.P(1, 6) { // long names that differ at their ends only
		l := g.r.Pick([]string{"n", "the same long name ", "0"})
		l = strings.Repeat(l, 1+r2.Intn(180)/len(l))
		names[0] = l + "1"
		names = append(names, l+"2", "2"+l)
	}
	if r2.P(1, 3) || prop == "C06" && r2.P(1, 2) {
		hands = 2 + r2.Intn(3)
	}
	var saved []*Op
	mk := func(k string) *Op {
		o := g.op(k)
		o.N, o.D, o.H = names[r.Intn(len(names))], ds[r.Intn(len(ds))], r2.Intn(hands)
		if holds && k == "save" && r2.P(1, 2) {
			if o.S = 1 + r2.Intn(3); o.S == 3 {
				o.L = names[r2.Intn(len(names))]
			}
		}
		if holds && k == "load" && r2.P(1, 3) {
			o.S = 1
		}
		switch k {
		case "save":
			o.X = r.Intn(5)
			if r.P(1, 25) {
				o.X = 1000 + r.Intn(40)
			}
			if evil && r.P(1, 4) {
				o.N = r.Pick(evilNames)
			}
			if len(saved) > 0 && r.P(1, 5) && o.S == 0 { // the same content once more
				e := saved[r.Intn(len(saved))]
				o.N, o.D, o.X, o.T, o.S, o.L = e.N, e.D, e.X, e.U, 0, ""
				if e.T != 0 {
					o.T = e.T
				}
			}
			saved = append(saved, o)
		case "load":
			if r.P(1, 6) && !strings.HasSuffix(o.N, ".world") {
				o.X = 1
			}
		case "damage":
			o.X, o.T = r.Intn(12), r.Intn(1<<20)
			if r.P(1, 4) {
				o.X = 0
			}
		}
		return o
	}
	type wk struct {
		k string
		w int
	}
	mixes := map[string][]wk{
		"C01": {{"save", 6}, {"load", 3}, {"list", 1}},
		"C02": {{"save", 6}, {"load", 2}},
		"C03": {{"save", 4}, {"load", 4}, {"list", 3}},
		"C05": {{"save", 5}, {"load", 5}, {"list", 1}},
		"C06": {{"save", 6}, {"load", 2}, {"list", 2}, {"setdir", 1}},
		"C07": {{"save", 5}, {"list", 4}, {"load", 1}},
		"C08": {{"save", 6}, {"load", 2}, {"list", 1}},
		"C09": {{"save", 2}, {"damage", 5}, {"load", 1}, {"list", 1}},
	}
	draw := func() string {
		m := mixes[prop]
		t := 0
		for _, x := range m {
			t += x.w
		}
		i := r.Intn(t)
		for _, x := range m {
			if i < x.w {
				return x.k
			}
			i -= x.w
		}
		return "save"
	}
	nops := 2 + r.Intn(7)
	if prop == "C06" || prop == "C07" || prop == "C09" {
		nops = 5 + r.Intn(9)
	}
	p.Procs = make([][]*Op, nproc)
	for i := range p.Procs {
		if prop == "C09" {
			p.Procs[i] = append(p.Procs[i], mk("save"))
		}
		for j := 0; j < nops; j++ {
			k := draw()
			o := mk(k)
			p.Procs[i] = append(p.Procs[i], o)
			if k == "damage" {
				l := g.op("damload")
				l.N, l.D = o.N, o.D
				p.Procs[i] = append(p.Procs[i], l)
			}
		}
	}
	pr := &Profile{Sticky: []int{0, 30, 70, 90}[r.Intn(4)], Max: 1 + r.Intn(6)}
	p.Prof = pr
	lv := func(l ...int) int { return l[r.Intn(len(l))] }
	switch prop {
	case "C01":
		pr.Crash, pr.Errno = lv(0, 20000, 60000), lv(0, 20000, 60000)
		if pr.Crash+pr.Errno == 0 {
			pr.Crash = 40000
		}
		pr.Short, pr.Eintr, pr.Full = lv(0, 0, 60000), lv(0, 0, 20000), lv(0, 0, 60000)
		pr.Power = lv(0, 0, 0, 10000)
	case "C02":
		pr.Power = lv(0, 15000, 40000)
		pr.Errno, pr.Crash = lv(0, 0, 20000), lv(0, 0, 10000)
		pr.Short, pr.Eintr = lv(0, 0, 40000), lv(0, 0, 20000)
	case "C03":
		pr.Errno, pr.Short, pr.Eintr = lv(0, 30000, 80000, 150000), lv(0, 50000, 200000), lv(0, 20000, 80000)
		pr.Full, pr.Max = lv(0, 0, 80000), 1+r.Intn(12)
		if r.P(1, 4) { // one fault only, anywhere
			pr.Max, pr.Errno = 1, 60000
		}
	case "C05":
		pr.Short, pr.Eintr, pr.Stall = lv(0, 0, 60000), lv(0, 0, 20000), lv(0, 20000, 60000)
		pr.Crash, pr.Errno = lv(0, 0, 10000), lv(0, 0, 0, 10000)
	case "C06":
		pr.Errno, pr.Crash, pr.Short = lv(0, 0, 20000), lv(0, 0, 10000), lv(0, 0, 40000)
	case "C07":
		pr.Errno, pr.Crash, pr.Stall = lv(0, 0, 20000, 40000), lv(0, 0, 20000, 40000), lv(0, 20000)
		pr.Short, pr.Eintr = lv(0, 0, 40000), lv(0, 0, 20000)
	case "C08":
		pr.Errno, pr.Crash, pr.Power = lv(0, 30000, 60000), lv(20000, 60000, 100000), lv(0, 10000, 30000)
		pr.Full, pr.Clock, pr.Max = lv(0, 0, 60000), lv(0, 100000), 2+r.Intn(12)
		from := g.u + 1
		for i := range p.Procs {
			h := g.op("heal")
			p.Procs[i] = append(p.Procs[i], h)
			for _, k := range []string{"save", "load", "list", "save", "load"} {
				o := mk(k)
				o.B = "clean"
				if o.X >= 1000 {
					o.X = 3
				}
				if k == "load" && r.P(2, 3) {
					o.N, o.D = p.Procs[i][len(p.Procs[i])-1].N, p.Procs[i][len(p.Procs[i])-1].D
				}
				if k == "list" {
					o.N = ""
					o.D = p.Procs[i][len(p.Procs[i])-2].D
				}
				p.Procs[i] = append(p.Procs[i], o)
			}
		}
		pr.NoFaultFrom = from
	case "C09":
		pr.Errno, pr.Short, pr.Eintr, pr.Max = lv(0, 0, 20000), lv(0, 60000), lv(0, 20000), 4
	}
	return p
}

// runtimeCwd points the working directory of the current probe at the given disk.
func runtimeCwd(k *Sim, fs *FS) {
	if inc := currentInc(); inc != nil {
		inc.p.cwd = fs.mkdirAll("/home/u/work")
	}
}

var _ = os.Getenv
