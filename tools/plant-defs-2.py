P='pkg/persistence/main.go'; W='pkg/world/world.go'; T='pkg/world/tree.go'; C='pkg/app/command.go'; A='pkg/app/main.go'
PH='''
package persistence_test

import (
	"os"
	"path/filepath"
	"testing"
	%s

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

var _ = os.Stat
var _ = filepath.Join

func makeWorld(name string, ids ...string) world.World {
	w := world.CreateWorld(name)
	for _, id := range ids {
		w.ItemCreate(id, world.ItemParams{})
	}
	return w
}
'''
AH='''
package app_test

import (
	"strings"
	"testing"
	%s

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

var _ = strings.Contains

func newApp(t *testing.T, lines ...string) app.App {
	a, err := app.NewApp(world.CreateWorld("demo"))
	if err != nil {
		t.Fatal(err)
	}
	run(t, a, lines...)
	return a
}

func run(t *testing.T, a app.App, lines ...string) {
	for _, l := range lines {
		if r := a.Exec(l); !strings.Contains(r, "$$$$\\n200 ") {
			t.Fatalf("demo: %%q answered %%q", l, r)
		}
	}
}
'''
WH='''
package world_test

import (
	"sort"
	"testing"
	%s

	"github.com/williamflynt/topolith/pkg/world"
)

var _ = sort.Strings

func sp(s string) *string { return &s }
func bp(b bool) *bool     { return &b }
'''
OSDIR='''goroot=$(go env GOROOT)
sed -e 's/^func ReadDir(name string) (\\[\\]DirEntry, error) {/var DemoReadDir func(string, []DirEntry, error) ([]DirEntry, error)\\n\\nfunc ReadDir(name string) ([]DirEntry, error) {\\n\\tdirs, err := readDirReal(name)\\n\\tif DemoReadDir != nil {\\n\\t\\treturn DemoReadDir(name, dirs, err)\\n\\t}\\n\\treturn dirs, err\\n}\\n\\nfunc readDirReal(name string) ([]DirEntry, error) {/' "$goroot/src/os/dir.go" > "$tmp/dir.go"
extra=", \\"$goroot/src/os/dir.go\\": \\"$tmp/dir.go\\""
'''
OSSYNC='''goroot=$(go env GOROOT)
sed -e 's/^func (f \\*File) Sync() error {/var DemoSync func(name string) error\\n\\nfunc (f *File) Sync() error {\\n\\tif DemoSync != nil {\\n\\t\\tif err := DemoSync(f.Name()); err != nil {\\n\\t\\t\\treturn err\\n\\t\\t}\\n\\t}/' "$goroot/src/os/file_posix.go" > "$tmp/file_posix.go"
extra=", \\"$goroot/src/os/file_posix.go\\": \\"$tmp/file_posix.go\\""
'''

CLI='cmd/cli/main.go'; WASM='cmd/wasm/main.go'; I='pkg/world/item.go'; R='pkg/world/rel.go'
WASMDEMO="""#!/bin/bash
# Runs in /repo after the build: 0 if the property holds for this demonstration, else nonzero.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
GOOS=js GOARCH=wasm go build -o "$tmp/page.wasm" ./cmd/wasm || exit 2
cd "$tmp" && node "$here/demo.js" "$(go env GOROOT)/lib/wasm" "$tmp/page.wasm" 2>/dev/null
"""
WASMJS="""
"use strict";
globalThis.require = require;
globalThis.fs = require("fs");
globalThis.path = require("path");
globalThis.TextEncoder = require("util").TextEncoder;
globalThis.TextDecoder = require("util").TextDecoder;
globalThis.performance ??= require("performance");
globalThis.crypto ??= require("crypto");
require(process.argv[2] + "/wasm_exec");
const go = new Go();
const fail = (m) => { console.log("demo: " + m); process.exit(1); };
const send = (l) => JSON.parse(topolithSend(l));
const check = () => {
%s
};
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then((r) => {
  go.run(r.instance);
  try { check(); } catch (e) { fail(String(e)); }
  process.exit(0);
});
"""
BUGS=[
dict(id='c18-prealloc-limit', property='C18', pkg='pkg/app',
 needs='a list command with a very large limit',
 breaks='the result slice is allocated with the limit as its capacity: a huge limit panics instead of listing everything',
 edits=[(W,"""	items := make([]Item, 0)
	for _, item := range w.Items {""","""	items := make([]Item, 0, limit)
	for _, item := range w.Items {""")],
 test=AH%''+"""
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, "item a")
	run(t, a, "item list 4", "item list 9000000000000000000")
}
"""),
dict(id='c16-coalesce', property='C16', pkg='pkg/app',
 needs='the same command given twice in a row, and then the history',
 breaks='a command that repeats the one before is executed but not recorded',
 edits=[(A,"""	h.commands = append(h.commands, c)
	h.commandsIdx++
	return o, nil""","""	if h.commandsIdx >= 0 && h.commands[h.commandsIdx].String() == c.String() {
		return o, nil // Nothing new: undoing the one before undoes both.
	}
	h.commands = append(h.commands, c)
	h.commandsIdx++
	return o, nil""") if 0 else (A,"""	h.commands = append(h.commands, c)
	h.commandsIdx++
	return o, nil""","""	if last := h.commandsIdx; last < 0 || h.commands[last].String() != c.String() { // Undoing one of the same undoes all.
		h.commands, h.commandsIdx = append(h.commands, c), last+1
	}
	return o, nil""")],
 test=AH%''+"""
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, "item a", "item a name=x", "item a name=x")
	if n := len(a.History()); n != 3 {
		t.Fatalf("demo: %d commands in the history, executed 3", n)
	}
}
"""),
dict(id='c15-clear-keeps-false', property='C15', pkg='pkg/app',
 needs='create-or-set external=true on an existing item that is not external, then undo',
 breaks='the previous value of external is remembered only if it was true',
 edits=[(C,"""		c.noCreate = true
		c.oldParams.External = boolPtr(item.External)
		c.oldParams.Name = strPtr(item.Name)
""","""		c.noCreate = true
		if item.External {
			c.oldParams.External = boolPtr(item.External)
		}
		c.oldParams.Name = strPtr(item.Name)
""")],
 test=AH%''+"""
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, "item a", "item a external=true")
	h := a.History()
	if err := h[len(h)-1].Undo(a.World()); err != nil {
		t.Fatal(err)
	}
	if i, _ := a.World().ItemFetch("a"); i.External {
		t.Fatal("demo: undone, and still external")
	}
}
"""),
dict(id='c10-add-then-remove', property='C10', pkg='pkg/world',
 needs='an item freed that already is at the top, or nested directly where it already is',
 breaks='the item is added to its new place before it is removed from the old one; if they are the same it vanishes from the hierarchy',
 edits=[(T,"""	if t.Has(item.Id, true) {
		// Already in this specific Tree - noop.
		return nil
	}
	if node""","""	if t.Has(item.Id, true) {
		return nil // This is its Tree.
	}
	if node"""),(T,"""		node.Parent().Components().Remove(node)
		t.components.Add(node)
		setParent(node, t)
""","""		old := node.Parent()
		t.components.Add(node)
		setParent(node, t)
		old.Components().Remove(node)
""")],
 test=WH%''+"""
func TestPlantedDemo(t *testing.T) {
	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{})
	w.ItemCreate("b", world.ItemParams{})
	w.Nest("b", "a")
	w.Free("b")
	w.Free("b")
	if _, ok := w.Parent("b"); !ok {
		t.Fatal("demo: b is nowhere in the hierarchy")
	}
}
"""),
dict(id='c12-descendant-cache', property='C12', pkg='pkg/app',
 needs='a relationship query that rolls up, then free of an inner item, then the same query again',
 breaks='what is inside an item is remembered for rolled-up queries, and forgotten on create, nest and delete, but not on free',
 edits=[(W,"""	Tree  Tree            `json:"tree"`  // Tree is a tree representation of the World.
""","""	Tree  Tree            `json:"tree"`  // Tree is a tree representation of the World.

	inside map[string][]string // inside remembers Tree.GetDescendantIds.
"""),(W,"""		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
	}
""","""		rightIds = append(slices.Clone(w.descendantIds(toId)), toId)
	}
"""),(W,"""		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
	}
""","""		leftIds = append(slices.Clone(w.descendantIds(fromId)), fromId)
	}
"""),(W,"""func (w *world) RelTo(""","""// descendantIds is Tree.GetDescendantIds, which walks the whole Tree.
func (w *world) descendantIds(id string) []string {
	if w.inside == nil {
		w.inside = make(map[string][]string)
	}
	if ids, ok := w.inside[id]; ok {
		return ids
	}
	w.inside[id] = w.Tree.GetDescendantIds(id)
	return w.inside[id]
}

func (w *world) RelTo("""),(W,"""	delete(w.Items, id)
	w.Tree.Delete(id)
""","""	delete(w.Items, id)
	w.Tree.Delete(id)
	w.inside = nil
"""),(W,"""	item := Item{
		Id: id,
	}
	w.Items[id] = item
""","""	w.inside = nil
	item := Item{
		Id: id,
	}
	w.Items[id] = item
"""),(W,"""	w.latestErr = tree.AddOrMove(&item)
	return w
""","""	w.inside = nil
	w.latestErr = tree.AddOrMove(&item)
	return w
""")],
 test=AH%''+"""
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, "item a", "item b", "item c", "nest b in a", "rel b c", "from? a", "free b")
	if r := a.Exec("from? a"); strings.Contains(r, "rel ") {
		t.Fatalf("demo: nothing inside a has a relationship, but: %q", r)
	}
}
"""),
dict(id='c19-load-same-object', property='C19', pkg='pkg/persistence',
 needs='the same stored world loaded twice by one process, one of the two changed',
 breaks='Load returns the world it returned before if the file has not changed',
 edits=[(P,"""	directory string
}
""","""	directory string
	loaded    map[string]world.World // By file content.
}
"""),(P,"""	return world.FromString(string(data))
}
""","""	if w, ok := fp.loaded[name+string(data)]; ok {
		return w, nil
	}
	w, err := world.FromString(string(data))
	if err == nil {
		if fp.loaded == nil {
			fp.loaded = make(map[string]world.World)
		}
		fp.loaded[name+string(data)] = w
	}
	return w, err
}
""")],
 test=PH%''+"""
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(t.TempDir())
	if err := fp.Save(makeWorld("w", "a")); err != nil {
		t.Fatal(err)
	}
	w1, err1 := fp.Load("w")
	w2, err2 := fp.Load("w")
	if err1 != nil || err2 != nil {
		t.Fatal(err1, err2)
	}
	w1.ItemDelete("a")
	if _, ok := w2.ItemFetch("a"); !ok {
		t.Fatal("demo: deleting an item of one world deleted it in another")
	}
}
"""),
dict(id='c20-async-needs-verb', property='C20', pkg='pkg/world',
 needs='a relationship that is asynchronous and has no verb, printed and read back',
 breaks='the text of a relationship tells async only together with a verb',
 edits=[(R,"""	if r.Async {
		paramRepr""","""	if r.Async && r.Verb != "" {
		paramRepr""")],
 test=WH%''+"""
func TestPlantedDemo(t *testing.T) {
	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{})
	w.ItemCreate("b", world.ItemParams{})
	r, _ := w.RelCreate("a", "b", world.RelParams{Async: bp(true)}).Rel()
	r2, err := world.RelFromString(w, r.String())
	if err != nil || !r2.Async {
		t.Fatalf("demo: %v is read as %v %v", r, r2, err)
	}
}
"""),
dict(id='c04-trim-values', property='C04', pkg='pkg/persistence',
 needs='an attribute that begins or ends with a space, saved and loaded',
 breaks='an item that is read loses the spaces around its values',
 edits=[(I,"""	return itemSet(Item{Id: p.InputAttributes.ResourceId}, ItemParamsFromInput(p.InputAttributes))
""","""	params := ItemParamsFromInput(p.InputAttributes)
	for _, v := range []*string{params.Name, params.Mechanism, params.Expanded} {
		if v != nil {
			*v = strings.TrimSpace(*v)
		}
	}
	return itemSet(Item{Id: p.InputAttributes.ResourceId}, params)
""")],
 test=PH%''+"""
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(t.TempDir())
	w := makeWorld("w", "a")
	text := "an indented line: "
	w.ItemSet("a", world.ItemParams{Expanded: &text})
	if err := fp.Save(w); err != nil {
		t.Fatal(err)
	}
	w2, err := fp.Load("w")
	if err != nil {
		t.Fatal(err)
	}
	if i, _ := w2.ItemFetch("a"); i.Expanded != text {
		t.Fatalf("demo: %q came back as %q", text, i.Expanded)
	}
}
"""),
dict(id='c08-mkdir-once', property='C08', pkg='pkg/persistence',
 needs='the first save of a process failing before the storage directory was made, then another save',
 breaks='the storage directory is made at most once per location, even if that failed: all later saves fail',
 edits=[(P,"""	directory string
}
""","""	directory string
	prepared  bool // Whether the directory was made.
}
"""),(P,"""	if err := os.MkdirAll(fp.directory, 0755); err != nil {
		return err
	}

""","""	if !fp.prepared {
		fp.prepared = true
		if err := os.MkdirAll(fp.directory, 0755); err != nil {
			return err
		}
	}

"""),(P,"""	fp.directory = dir
}""","""	fp.directory = dir
	fp.prepared = false
}""")],
 test=PH%''+"""
func TestPlantedDemo(t *testing.T) {
	base := t.TempDir()
	blocker := filepath.Join(base, "x")
	if err := os.WriteFile(blocker, nil, 0644); err != nil {
		t.Fatal(err)
	}
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(filepath.Join(blocker, "store"))
	w := makeWorld("w", "a")
	if err := fp.Save(w); err == nil {
		t.Fatal("saved below a file")
	}
	if err := os.Remove(blocker); err != nil {
		t.Fatal(err)
	}
	if err := fp.Save(w); err != nil {
		t.Fatalf("demo: the obstacle is gone and saving still fails: %v", err)
	}
}
"""),
dict(id='c02-new-dir-unsynced', property='C02', pkg='pkg/persistence',
 needs='an acknowledged save over an existing world followed by a power failure before the directory reaches the disk',
 breaks='the directory is forced to disk only if the save made a new file; a replaced entry may be lost',
 edits=[(P,"""	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
	return writeFile(filePath, []byte(data))
""","""	data := world.String()
	filePath := filepath.Join(fp.directory, world.Name()+".world")
	_, err := os.Stat(filePath)
	return writeFile(filePath, []byte(data), err != nil)
"""),(P,"""func writeFile(filePath string, data []byte) error {""","""func writeFile(filePath string, data []byte, isNew bool) error {"""),(P,"""	return syncDirs(dir)
}
""","""	if !isNew {
		return nil // The directory has its entry already.
	}
	return syncDirs(dir)
}
""")],
 pre=OSSYNC,
 test=PH%''+"""
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(dir)
	if err := fp.Save(makeWorld("w", "a")); err != nil {
		t.Fatal(err)
	}
	synced := false
	os.DemoSync = func(name string) error {
		synced = synced || name == dir
		return nil
	}
	defer func() { os.DemoSync = nil }()
	if err := fp.Save(makeWorld("w", "a", "b")); err != nil {
		t.Fatal(err)
	}
	if !synced {
		t.Fatal("demo: the save was acknowledged before its directory entry was forced to disk")
	}
}
"""),
dict(id='c03-previous-version', property='C03', pkg='pkg/persistence',
 needs='a world saved twice, and an I/O error when the stored file is read',
 breaks='Save keeps the previous version, and Load answers with it when the current one cannot be read',
 edits=[(P,"""	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
""","""	data := world.String()
	filePath := filepath.Join(fp.directory, world.Name()+".world")
	_ = os.Remove(filePath + "~")
	_ = os.Link(filePath, filePath+"~") // The previous version.
"""),(P,"""	if err != nil {
		return nil, err
	}
	println""","""	if err != nil && !os.IsNotExist(err) {
		data, err = os.ReadFile(filepath.Join(fp.directory, name+".world~"))
	}
	if err != nil {
		return nil, err
	}
	println""")],
 pre="""goroot=$(go env GOROOT)
sed -e 's/^func ReadFile(name string) (\\[\\]byte, error) {/var DemoReadFile func(name string) error\\n\\nfunc ReadFile(name string) ([]byte, error) {\\n\\tif DemoReadFile != nil {\\n\\t\\tif err := DemoReadFile(name); err != nil {\\n\\t\\t\\treturn nil, err\\n\\t\\t}\\n\\t}/' "$goroot/src/os/file.go" > "$tmp/file.go"
extra=", \\"$goroot/src/os/file.go\\": \\"$tmp/file.go\\""
""",
 test=PH%'"strings"\n\t"syscall"'+"""
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(dir)
	for _, w := range []world.World{makeWorld("w", "a"), makeWorld("w", "a", "b")} {
		if err := fp.Save(w); err != nil {
			t.Fatal(err)
		}
	}
	os.DemoReadFile = func(name string) error {
		if strings.HasSuffix(name, "w.world") {
			return syscall.EIO
		}
		return nil
	}
	defer func() { os.DemoReadFile = nil }()
	w, err := fp.Load("w")
	if err == nil {
		if _, ok := w.ItemFetch("b"); !ok {
			t.Fatal("demo: the file cannot be read, and Load succeeds with an older version")
		}
	}
}
"""),
dict(id='c07-hidden-names', property='C07', pkg='pkg/persistence',
 needs='a world whose name begins with a dot',
 breaks='files that begin with a dot are taken for hidden files and not listed',
 edits=[(P,"""	for _, file := range files {
		if ""","""	for _, file := range files {
		if file.Name()[0] == '.' {
			continue
		}
		if """),(P,"""	var worlds []string
""","""	worlds := make([]string, 0, len(files))
""")],
 test=PH%'"slices"'+"""
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(t.TempDir())
	if err := fp.Save(makeWorld(".w", "a")); err != nil {
		t.Skip(err)
	}
	l, err := fp.ListWorlds()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := fp.Load(".w"); err == nil && !slices.Contains(l, ".w") {
		t.Fatalf("demo: .w is stored but not listed: %q", l)
	}
}
"""),
dict(id='c05-cleanup-temporary', property='C05', pkg='pkg/persistence',
 needs='two processes saving into the same directory at the same time',
 breaks='a save first removes the temporary files it finds, also those of saves that are running',
 edits=[(P,"""	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
""","""	data := world.String()
	if left, err := filepath.Glob(filepath.Join(fp.directory, "*.tmp")); err == nil {
		for _, f := range left { // What interrupted saves left behind.
			_ = os.Remove(f)
		}
	}
	filePath := filepath.Join(fp.directory, world.Name()+".world")
""")],
 test=PH%'"fmt"\n\t"sync"'+"""
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	var wg sync.WaitGroup
	errs := make(chan error, 1000)
	for p := 0; p < 8; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fp := persistence.NewFilePersistence()
			fp.SetSourcePath(dir)
			for i := 0; i < 100; i++ {
				if err := fp.Save(makeWorld(fmt.Sprintf("w%d", p), "a")); err != nil {
					errs <- err
				}
			}
		}()
	}
	wg.Wait()
	if len(errs) > 0 {
		t.Fatalf("demo: %d saves failed because others were saving: %v", len(errs), <-errs)
	}
}
"""),
dict(id='c01-in-place', property='C01', pkg='pkg/persistence',
 needs='a save of a version that is as long as the stored one, killed while it writes',
 breaks='a version of the same length is written over the old one in place',
 edits=[(P,"""	data := world.String()
	return writeFile(filePath, []byte(data))
""","""	data := []byte(world.String())
	if info, err := os.Stat(filePath); err == nil && info.Size() == int64(len(data)) {
		return overwrite(filePath, data)
	}
	return writeFile(filePath, data)
"""),(P,"""// syncDirs forces""","""// overwrite writes over a file that has the right length.
func overwrite(filePath string, data []byte) error {
	f, err := os.OpenFile(filePath, os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err == nil {
		err = f.Sync()
	}
	if closeErr := f.Close(); err == nil {
		err = closeErr
	}
	return err
}

// syncDirs forces""")],
 pre=OSSYNC,
 test=PH%'"bytes"\n\t"syscall"'+"""
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(dir)
	if err := fp.Save(makeWorld("w", "a")); err != nil {
		t.Fatal(err)
	}
	file := filepath.Join(dir, "w.world")
	old, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	os.DemoSync = func(name string) error { return syscall.EIO } // The disk fails before anything is on it.
	defer func() { os.DemoSync = nil }()
	err = fp.Save(makeWorld("w", "b"))
	now, _ := os.ReadFile(file)
	if st, serr := os.Stat(file); err != nil && serr == nil && !bytes.Equal(now, old) {
		// Only a file that was replaced as a whole may have new content.
		if info, _ := os.Stat(file); os.SameFile(st, info) {
			t.Fatalf("demo: the save failed (%v) after writing into the stored file", err)
		}
	}
}
"""),
dict(id='c06-lower-case', property='C06', pkg='pkg/persistence',
 needs='two worlds whose names differ in case only',
 breaks='file names are put in lower case, so such worlds share one file',
 edits=[(P,"""	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
""","""	data := world.String()
	filePath := filepath.Join(fp.directory, strings.ToLower(world.Name())+".world") // As some file systems would.
"""),(P,"""name+".world"))
	if""","""strings.ToLower(name)+".world"))
	if"""),(P,"""	"runtime"
)""","""	"runtime"
	"strings"
)""")],
 test=PH%''+"""
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(t.TempDir())
	if err := fp.Save(makeWorld("Orders", "a")); err != nil {
		t.Fatal(err)
	}
	if err := fp.Save(makeWorld("orders", "b")); err != nil {
		t.Fatal(err)
	}
	w, err := fp.Load("Orders")
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := w.ItemFetch("a"); !ok {
		t.Fatal("demo: saving one world replaced another")
	}
}
"""),
dict(id='c22-same-line', property='C22', pkg='cmd/cli', tags='cli',
 needs='the same line typed twice in a row',
 breaks='a line equal to the one before is taken for an accident and ignored',
 edits=[(CLI,"""	return func(input string) {
		input = strings.TrimSpace(input)
		if input == "" {
			return
		}
""","""	last := ""
	return func(input string) {
		input = strings.TrimSpace(input)
		if input == "" || input == last {
			return
		}
		last = input
""")],
 test="""
package main

import (
	"io"
	"os"
	"strings"
	"testing"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

func TestPlantedDemo(t *testing.T) {
	core, err := app.NewApp(world.CreateWorld("demo"))
	if err != nil {
		t.Fatal(err)
	}
	exec := executor(core)
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = w
	exec("item a")
	exec("item list")
	exec("item list")
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	if n := strings.Count(string(b), "200 ok"); n != 3 {
		t.Fatalf("demo: three commands, %d replies", n)
	}
}
"""),
dict(id='c21-query-cache', property='C21', pkg='cmd/wasm', tags='wasm',
 needs='a query sent, then a nest or free, then the same query',
 breaks='the bridge answers a repeated query with the earlier reply unless an item or rel line came in between',
 edits=[(WASM,"""		command := args[0].String()
		response := app.Exec(command)
		return jsReplyToJsValue(toReply(response))
""","""		command := args[0].String()
		return send(app.Exec, command)
"""),(WASM,"""func toReply(""","""// answers holds the replies to queries since the World last changed.
var answers = map[string]string{}

func send(exec func(string) string, command string) js.Value {
	word, _, _ := strings.Cut(strings.TrimSpace(command), " ")
	if word == "item" || word == "rel" {
		clear(answers)
	}
	response, ok := answers[command]
	if !ok {
		response = exec(command)
	}
	if word == "world" || word == "in?" {
		answers[command] = response
	}
	return jsReplyToJsValue(toReply(response))
}

func toReply("""),(WASM,"""	"strconv"
""","""	"strconv"
	"strings"
""")],
 demo=WASMDEMO, files={'demo.js': WASMJS%"""
  for (const l of ["item a", "item b", "nest b in a"]) if (send(l).status !== 200) fail(l);
  if (!send("in? b a").raw.startsWith("true")) fail("b is in a");
  if (send("free b").status !== 200) fail("free");
  if (send("in? b a").raw.startsWith("true")) fail("b was freed and is still in a");
"""}),
]
