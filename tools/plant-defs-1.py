P='pkg/persistence/main.go'; W='pkg/world/world.go'; T='pkg/world/tree.go'; C='pkg/app/command.go'; A='pkg/app/main.go'
PH='''
package persistence_test

import (
	"os"
	"path/filepath"
	"testing"
	%s

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

var _ = os.Stat
var _ = filepath.Join

func makeWorld(name string, ids ...string) world.World {
	w := world.CreateWorld(name)
	for _, id := range ids {
		w.ItemCreate(id, world.ItemParams{})
	}
	return w
}
'''
AH='''
package app_test

import (
	"strings"
	"testing"
	%s

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

var _ = strings.Contains

func newApp(t *testing.T, lines ...string) app.App {
	a, err := app.NewApp(world.CreateWorld("demo"))
	if err != nil {
		t.Fatal(err)
	}
	run(t, a, lines...)
	return a
}

func run(t *testing.T, a app.App, lines ...string) {
	for _, l := range lines {
		if r := a.Exec(l); !strings.Contains(r, "$$$$\\n200 ") {
			t.Fatalf("demo: %%q answered %%q", l, r)
		}
	}
}
'''
WH='''
package world_test

import (
	"sort"
	"testing"
	%s

	"github.com/williamflynt/topolith/pkg/world"
)

var _ = sort.Strings

func sp(s string) *string { return &s }
func bp(b bool) *bool     { return &b }
'''
OSDIR='''goroot=$(go env GOROOT)
sed -e 's/^func ReadDir(name string) (\\[\\]DirEntry, error) {/var DemoReadDir func(string, []DirEntry, error) ([]DirEntry, error)\\n\\nfunc ReadDir(name string) ([]DirEntry, error) {\\n\\tdirs, err := readDirReal(name)\\n\\tif DemoReadDir != nil {\\n\\t\\treturn DemoReadDir(name, dirs, err)\\n\\t}\\n\\treturn dirs, err\\n}\\n\\nfunc readDirReal(name string) ([]DirEntry, error) {/' "$goroot/src/os/dir.go" > "$tmp/dir.go"
extra=", \\"$goroot/src/os/dir.go\\": \\"$tmp/dir.go\\""
'''
OSSYNC='''goroot=$(go env GOROOT)
sed -e 's/^func (f \\*File) Sync() error {/var DemoSync func(name string) error\\n\\nfunc (f *File) Sync() error {\\n\\tif DemoSync != nil {\\n\\t\\tif err := DemoSync(f.Name()); err != nil {\\n\\t\\t\\treturn err\\n\\t\\t}\\n\\t}/' "$goroot/src/os/file_posix.go" > "$tmp/file_posix.go"
extra=", \\"$goroot/src/os/file_posix.go\\": \\"$tmp/file_posix.go\\""
'''
BUGS=[
dict(id='c01-remove-before-write', property='C01', pkg='pkg/persistence',
 needs='a save over an existing world that is killed, or meets an I/O error, after the old file was removed and before the new one is in place',
 breaks='Save removes the previous file first ("so that the rename works everywhere"), so an interrupted save leaves no world at all',
 edits=[(P,'''	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
''','''	data := world.String()
	filePath := filepath.Join(fp.directory, world.Name()+".world")
	if err := os.Remove(filePath); err != nil && !os.IsNotExist(err) { // The new version takes its place, on every OS.
		return err
	}
''')],
 test=PH%'"fmt"\n\t"os/signal"\n\t"syscall"'+'''
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(dir)
	v1 := makeWorld("w", "a")
	if err := fp.Save(v1); err != nil {
		t.Fatal(err)
	}
	v2 := makeWorld("w")
	for i := 0; i < 2000; i++ {
		v2.ItemCreate(fmt.Sprintf("item-%d", i), world.ItemParams{})
	}
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	_ = syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 4096, Max: old.Max})
	err := fp.Save(v2) // The file gets too big.
	_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Skip("no limit on file sizes here")
	}
	w, err := fp.Load("w")
	if err != nil {
		t.Fatalf("demo: the stored world is gone after a failed save: %v", err)
	}
	if !world.WorldEqual(w, v1) {
		t.Fatal("demo: another world")
	}
}
'''),
dict(id='c02-skip-unchanged', property='C02', pkg='pkg/persistence', pre=OSSYNC,
 needs='a save that fails (or is cut short) between the rename and the sync of the directory, the same content saved again and acknowledged, then a power failure',
 breaks='Save returns success without doing anything if the file already has the content, although that content may never have been made durable',
 edits=[(P,'''	data := world.String()
''','''	data := world.String()
	if stored, err := os.ReadFile(filePath); err == nil && string(stored) == data {
		return nil // Nothing new.
	}
''' ),(P,'''	if err := os.MkdirAll(fp.directory, 0755); err != nil {
		return err
	}

	filePath := filepath.Join(fp.directory, world.Name()+".world")
''','''	filePath := filepath.Join(fp.directory, world.Name()+".world")
	if err := os.MkdirAll(filepath.Dir(filePath), 0755); err != nil {
		return err
	}
''')],
 test=PH%'"errors"'+'''
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(dir)
	w := makeWorld("w", "a")
	os.DemoSync = func(name string) error {
		if filepath.Clean(name) == filepath.Clean(dir) {
			return errors.New("I/O error")
		}
		return nil
	}
	if fp.Save(w) == nil {
		t.Skip("saving does not sync the directory")
	}
	synced := map[string]bool{}
	os.DemoSync = func(name string) error { synced[filepath.Clean(name)] = true; return nil }
	if err := fp.Save(w); err != nil {
		t.Fatal(err)
	}
	if !synced[filepath.Clean(dir)] {
		t.Fatal("demo: success reported, but the directory entry was never forced to the disk")
	}
}
'''),
dict(id='c03-partial-listing', property='C03', pkg='pkg/persistence', pre=OSDIR,
 needs='reading the directory fails after some of its entries were returned',
 breaks='ListWorlds returns the entries it got, without an error',
 edits=[(P,'''	files, err := os.ReadDir(fp.directory)
	if err != nil {
''','''	files, err := os.ReadDir(fp.directory)
	if err != nil && len(files) == 0 {
''')],
 test=PH%'"errors"'+'''
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(dir)
	for _, n := range []string{"a", "b", "c"} {
		if err := fp.Save(makeWorld(n, "x")); err != nil {
			t.Fatal(err)
		}
	}
	os.DemoReadDir = func(name string, d []os.DirEntry, err error) ([]os.DirEntry, error) {
		return d[:len(d)-1], errors.New("I/O error")
	}
	l, err := fp.ListWorlds()
	if err == nil && len(l) != 3 {
		t.Fatalf("demo: listed %v without an error", l)
	}
}
'''),
dict(id='c04-name-equals-id', property='C04', pkg='pkg/persistence',
 needs='an item whose name is the same as its id, saved and loaded',
 breaks='the text form leaves the name out if it equals the id ("often the same"), so the loaded item has no name',
 edits=[('pkg/world/item.go','''	if i.Name != "" {
		paramRepr''','''	if i.Name != "" && i.Name != i.Id { // Often the same.
		paramRepr''')],
 test=PH%''+'''
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(t.TempDir())
	w := makeWorld("w", "a")
	name := "a"
	w.ItemSet("a", world.ItemParams{Name: &name})
	if err := fp.Save(w); err != nil {
		t.Fatal(err)
	}
	l, err := fp.Load("w")
	if err != nil {
		t.Fatal(err)
	}
	if i, _ := l.ItemFetch("a"); i.Name != "a" {
		t.Fatalf("demo: name %q after loading", i.Name)
	}
}
'''),
dict(id='c05-load-cache', property='C05', pkg='pkg/persistence',
 needs='two saves of one name, by different processes, with the same size and within one tick of the file clock, and a load between them',
 breaks='Load keeps the text of a file as long as its size and modification time stay the same, and may so return an older version',
 edits=[(P,'''	println(string(data))
	return world.FromString(string(data))
}
''','''	println(string(data))
	return world.FromString(string(data))
}

// readWorldFile is os.ReadFile for files that seldom change.
func (fp *filePersistence) readWorldFile(path string) ([]byte, error) {
	info, err := os.Stat(path)
	if err != nil {
		return nil, err
	}
	if c, ok := fp.read[path]; ok && c.info.Size() == info.Size() && c.info.ModTime().Equal(info.ModTime()) {
		return c.data, nil
	}
	data, err := os.ReadFile(path)
	if err == nil {
		if fp.read == nil {
			fp.read = make(map[string]fileContent)
		}
		fp.read[path] = fileContent{info: info, data: data}
	}
	return data, err
}

// fileContent is what a file held when it was last read.
type fileContent struct {
	info os.FileInfo
	data []byte
}
'''),(P,'''	directory string
}''','''	directory string
	read      map[string]fileContent
}'''),(P,'os.ReadFile(filepath.Join(fp.directory, name+".world"))','fp.readWorldFile(filepath.Join(fp.directory, name+".world"))'),
 (P,'	return &filePersistence{directory: dir}','	return &filePersistence{directory: dir, read: make(map[string]fileContent)}')],
 test=PH%'"time"'+'''
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	a, b := persistence.NewFilePersistence(), persistence.NewFilePersistence()
	a.SetSourcePath(dir)
	b.SetSourcePath(dir)
	ids := []string{"x", "y"}
	for i := 0; i < 4; i++ {
		id := ids[i%2]
		if err := a.Save(makeWorld("w", id)); err != nil {
			t.Fatal(err)
		}
		tick := time.Unix(1700000000, 0) // Both within one tick of the file system's clock.
		if err := os.Chtimes(filepath.Join(dir, "w.world"), tick, tick); err != nil {
			t.Skip("stored elsewhere")
		}
		w, err := b.Load("w")
		if err != nil {
			t.Fatal(err)
		}
		if _, ok := w.ItemFetch(id); !ok {
			t.Fatalf("demo: save %d is not what the next load returns", i)
		}
	}
}
'''),
dict(id='c06-suffix-collision', property='C06', pkg='pkg/persistence',
 needs='two worlds whose names differ only by a final ".world"',
 breaks='Save drops a ".world" that the name already has, so the worlds "a" and "a.world" share a file',
 edits=[(P,'''	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data''','''	filePath := filepath.Join(fp.directory, strings.TrimSuffix(world.Name(), ".world")+".world") // The name may be that of the file.
	data'''),(P,'''	"runtime"
''','''	"runtime"
	"strings"
''')],
 test=PH%''+'''
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(t.TempDir())
	a, b := makeWorld("a", "x"), makeWorld("a.world", "y")
	if err := fp.Save(a); err != nil {
		t.Fatal(err)
	}
	if err := fp.Save(b); err != nil {
		t.Skip("such a name is refused")
	}
	w, err := fp.Load("a")
	if err != nil || !world.WorldEqual(w, a) {
		t.Fatalf("demo: saving a.world replaced a (%v)", err)
	}
}
'''),
dict(id='c06-switch-to-new-dir', property='C06', pkg='pkg/persistence',
 needs='the storage location is switched to a directory that does not exist yet',
 breaks='SetSourcePath ignores a directory that does not exist, so later saves go to the old location',
 edits=[(P,'''	fp.directory = dir
}''','''	if info, err := os.Stat(dir); err == nil && info.IsDir() {
		fp.directory = dir
	}
}''')],
 test=PH%''+'''
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(dir)
	if err := fp.Save(makeWorld("w", "x")); err != nil {
		t.Fatal(err)
	}
	fp.SetSourcePath(filepath.Join(dir, "new"))
	v2 := makeWorld("w", "y")
	if err := fp.Save(v2); err != nil {
		t.Fatal(err)
	}
	fp.SetSourcePath(dir)
	w, err := fp.Load("w")
	if err != nil || world.WorldEqual(w, v2) {
		t.Fatalf("demo: the save went to the location used before (%v)", err)
	}
}
'''),
dict(id='c07-name-at-first-dot', property='C07', pkg='pkg/persistence',
 needs='a world whose name contains a dot',
 breaks='ListWorlds cuts the file name at its first dot',
 edits=[(P,'''file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])''','''file.Name()[:strings.IndexByte(file.Name(), '.')])'''),(P,'''	"runtime"
''','''	"runtime"
	"strings"
''')],
 test=PH%''+'''
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(t.TempDir())
	if err := fp.Save(makeWorld("v1.2", "x")); err != nil {
		t.Skip("such a name is refused")
	}
	l, err := fp.ListWorlds()
	if err != nil || len(l) != 1 || l[0] != "v1.2" {
		t.Fatalf("demo: listed %q (%v)", l, err)
	}
}
'''),
dict(id='c08-stale-lock', property='C08', pkg='pkg/persistence',
 needs='a save that is killed or fails while it holds the lock file, then any later save of the same world',
 breaks='Save takes a lock file that only a successful save removes, so after one interrupted save the world can never be saved again',
 edits=[(P,'''	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
	return writeFile(filePath, []byte(data))
''','''	data := world.String()
	filePath := filepath.Join(fp.directory, world.Name()+".world")
	lock, err := os.OpenFile(filePath+".lock", os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
	if err != nil {
		return err // Somebody else is saving this world.
	}
	_ = lock.Close()
	if err := writeFile(filePath, []byte(data)); err != nil {
		return err
	}
	return os.Remove(lock.Name())
''')],
 test=PH%'"fmt"\n\t"os/signal"\n\t"syscall"'+'''
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(dir)
	v := makeWorld("w")
	for i := 0; i < 2000; i++ {
		v.ItemCreate(fmt.Sprintf("item-%d", i), world.ItemParams{})
	}
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	_ = syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 4096, Max: old.Max})
	err := fp.Save(v) // The file gets too big.
	_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Skip("no limit on file sizes here")
	}
	if err := fp.Save(v); err != nil {
		t.Fatalf("demo: after a failed save the next one fails as well: %v", err)
	}
}
'''),
dict(id='c09-repair-truncated', property='C09', pkg='pkg/persistence',
 needs='a world file that was cut off at the end of a line, before its end marker',
 breaks='Load adds a missing end marker, so a cut-off file is read as a complete, smaller world',
 edits=[(P,'''	println(string(data))
	return world.FromString(string(data))
''','''	println(string(data))
	text := string(data)
	if !strings.HasSuffix(text, "endworld$$") {
		text = strings.TrimRight(text, "\\n") + "\\n\\nendworld$$" // Lost by an editor.
	}
	return world.FromString(text)
'''),(P,'''	"runtime"
''','''	"runtime"
	"strings"
''')],
 test=PH%''+'''
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(dir)
	w := makeWorld("w", "a", "b")
	w.RelCreate("a", "b", world.RelParams{})
	w.RelCreate("b", "a", world.RelParams{})
	if err := fp.Save(w); err != nil {
		t.Fatal(err)
	}
	file := filepath.Join(dir, "w.world")
	data, err := os.ReadFile(file)
	if err != nil {
		t.Skip("stored elsewhere")
	}
	for cut := len(data) - len("endworld$$"); cut > 0; cut-- {
		if err := os.WriteFile(file, data[:cut], 0644); err != nil {
			t.Fatal(err)
		}
		if l, err := fp.Load("w"); err == nil {
			t.Fatalf("demo: the file cut off at %d of %d loads as a world with %d relationships", cut, len(data), len(l.RelList(0)))
		}
	}
}
'''),
dict(id='c10-delete-to-root', property='C10', pkg='pkg/app',
 needs='deleting an item that has components and lies at least two levels deep',
 breaks='the components of a deleted item go to the root and not to its parent',
 edits=[(T,'''		found.Parent().Components().Add(c)
		if parent, ok := found.Parent().(*tree); ok {''','''		t.Components().Add(c)
		if parent, ok := t.Root().(*tree); ok {''')],
 test=AH%''+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, `item create "x"`, `item create "y"`, `item create "z"`, `nest "y" in "x"`, `nest "z" in "y"`, `item delete "y"`)
	if p, ok := a.World().Parent("z"); !ok || p != "x" {
		t.Fatalf("demo: the parent of z is %q", p)
	}
}
'''),
dict(id='c11-nest-under-ancestor', property='C11', pkg='pkg/app',
 needs='nesting an item directly under an item that already contains it at a deeper level',
 breaks='the item is taken to be there already, so the command is answered with success and does nothing',
 edits=[(T,'''	if t.Has(item.Id, true) {
''','''	if t.item != nil && t.Has(item.Id, false) {
''')],
 test=AH%''+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, `item create "x"`, `item create "y"`, `item create "z"`, `nest "y" in "x"`, `nest "z" in "y"`, `nest "z" in "x"`)
	if p, ok := a.World().Parent("z"); !ok || p != "x" {
		t.Fatalf("demo: the parent of z is %q", p)
	}
}
'''),
dict(id='c11-clear-async', property='C11', pkg='pkg/app',
 needs='clearing the async attribute of a relationship',
 breaks='a cleared async attribute is read as true',
 edits=[('pkg/world/rel.go','''		params.Async = boolPtr(v == "true")''','''		params.Async = boolPtr(v != "false")''')],
 test=AH%''+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, `item create "x"`, `item create "y"`, `rel create "x" "y" verb="uses"`, `rel clear "x" "y" async`)
	if r := a.World().RelFetch("x", "y", true); len(r) != 1 || r[0].Async {
		t.Fatalf("demo: %v", r)
	}
}
'''),
dict(id='c12-descendants-one-level', property='C12', pkg='pkg/app',
 needs='a rolled-up relationship query on an item with components that have components',
 breaks='the descendants of an item are collected with a loop that never sees what it appends, so only the direct components count',
 edits=[(T,'''	for _, c := range found.Components().ToSlice() {
		descendantIds = append(descendantIds, c.Item().Id)
		descendantIds = append(descendantIds, c.GetDescendantIds(c.Item().Id)...)
	}
''','''	queue := found.Components().ToSlice()
	for _, c := range queue {
		descendantIds = append(descendantIds, c.Item().Id)
		queue = append(queue, c.Components().ToSlice()...)
	}
''')],
 test=AH%''+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, `item create "x"`, `item create "y"`, `item create "z"`, `item create "o"`, `nest "y" in "x"`, `nest "z" in "y"`, `rel create "z" "o"`)
	if r := a.Exec(`from? "x"`); !strings.Contains(r, `rel "z" "o"`) {
		t.Fatalf("demo: from? x answered %q", r)
	}
}
'''),
dict(id='c12-limit-off-by-one', property='C12', pkg='pkg/app',
 needs='listing relationships with a limit smaller than their number',
 breaks='one more than the limit is listed',
 edits=[(W,'''	for _, rel := range w.Rels {
		if limit > 0 && len(rels) >= limit {
			break
		}
		rels = append(rels, rel)
	}
''','''	for _, rel := range w.Rels {
		rels = append(rels, rel)
		if limit > 0 && len(rels) > limit {
			break
		}
	}
''')],
 test=AH%''+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, `item create "x"`, `item create "y"`, `item create "z"`, `rel create "x" "y"`, `rel create "y" "x"`, `rel create "z" "x"`)
	if r := a.World().RelList(2); len(r) != 2 {
		t.Fatalf("demo: %d listed", len(r))
	}
}
'''),
dict(id='c13-delete-nested-rels', property='C13', pkg='pkg/app',
 needs='deleting an item whose components have relationships of their own',
 breaks='deleting an item removes the relationships rolled up over its components as well',
 edits=[(W,'''	delete(w.Items, id)
	w.Tree.Delete(id)
	for k, rel := range w.Rels {
		if rel.From.Id == id || rel.To.Id == id {
			delete(w.Rels, k)
		}
	}
''','''	for _, rel := range append(w.RelFrom(id, false), w.RelTo(id, false)...) {
		delete(w.Rels, rel.id())
	}
	delete(w.Items, id)
	w.Tree.Delete(id)
''')],
 test=AH%''+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, `item create "x"`, `item create "y"`, `item create "o"`, `nest "y" in "x"`, `rel create "y" "o"`, `item delete "x"`)
	if r := a.World().RelFetch("y", "o", true); len(r) != 1 {
		t.Fatal("demo: the relationship from y to o is gone")
	}
}
'''),
dict(id='c14-rel-creates-item', property='C14', pkg='pkg/app',
 needs='create-or-fetch rel between two items that both do not exist, or whose second does not',
 breaks='the first item is created on the way, and stays although the command is answered with an error',
 edits=[(C,'''	return w.RelCreate(c.Id, c.ToId, world.RelParams{}).Rel()
''','''	if _, ok := w.ItemFetch(c.Id); !ok {
		w.ItemCreate(c.Id, world.ItemParams{}) // Or fetch: make what it starts from.
	}
	rel, err := w.RelCreate(c.Id, c.ToId, world.RelParams{}).Rel()
	return rel, err
''')],
 test=AH%''+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, `item create "x"`)
	if r := a.Exec(`rel "y" "z"`); strings.Contains(r, "$$$$\\n200 ") {
		t.Skip("not an error")
	}
	if n := len(a.World().ItemList(0)); n != 1 {
		t.Fatalf("demo: %d items after a failed command", n)
	}
}
'''),
dict(id='c15-rel-async-lost', property='C15', pkg='pkg/app',
 needs='deleting an asynchronous relationship and undoing that',
 breaks='the undone relationship is not asynchronous any more',
 edits=[(C,'''	c.oldParams.Mechanism = strPtr(rel.Mechanism)
	c.oldParams.Async = boolPtr(rel.Async)
	c.oldParams.Expanded = strPtr(rel.Expanded)
	return world.Rel{}, w.RelDelete(c.Id, c.ToId).Err()
''','''	c.oldParams.Mechanism = strPtr(rel.Mechanism)
	c.oldParams.Expanded = strPtr(rel.Expanded)
	return world.Rel{}, w.RelDelete(c.Id, c.ToId).Err()
''')],
 test=AH%''+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, `item create "x"`, `item create "y"`, `rel create "x" "y" async=true`, `rel delete "x" "y"`)
	h := a.History()
	if err := h[len(h)-1].Undo(a.World()); err != nil {
		t.Fatal(err)
	}
	if r := a.World().RelFetch("x", "y", true); len(r) != 1 || !r[0].Async {
		t.Fatalf("demo: %v", r)
	}
}
'''),
dict(id='c15-command-reuse', property='C15', pkg='pkg/app',
 needs='the same command line executed twice in one history, with a different state before each, and both undone',
 breaks='commands are made once per line and reused, so the second execution overwrites what the first one recorded for its undo',
 edits=[(C,'''func InputToCommand(input grammar.InputAttributes) (Command, error) {
''','''func InputToCommand(input grammar.InputAttributes) (Command, error) {
	if c, ok := commands[input.Raw]; ok && input.Raw != "" {
		return c, nil
	}
	c, err := newCommand(input)
	if err == nil {
		commands[input.Raw] = c
	}
	return c, err
}

// commands holds the Command of every input seen so far.
var commands = make(map[string]Command)

func newCommand(input grammar.InputAttributes) (Command, error) {
'''),(C,'''		return &WorldFetchCommand{InputAttributes: input}, nil
	case''','''		return &WorldFetchCommand{input}, nil
	case''')],
 test=AH%''+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, `item create "x"`, `item set "x" name="one"`, `item set "x" name="two"`, `item set "x" name="one"`)
	h := a.History()
	for i := len(h) - 1; i > 0; i-- {
		if err := h[i].Undo(a.World()); err != nil {
			t.Fatal(err)
		}
	}
	if i, _ := a.World().ItemFetch("x"); i.Name != "" {
		t.Fatalf("demo: after undoing every set the name is %q", i.Name)
	}
}
'''),
dict(id='c16-history-limit', property='C16', pkg='pkg/app',
 needs='a history of more than 100 commands, then undo',
 breaks='the history keeps only the last 100 commands, but the position in it goes on counting',
 edits=[(A,'''	h.commands = append(h.commands, c)
	h.commandsIdx++
	return o, nil
''','''	h.commands = append(h.commands, c)
	if h.commandsIdx++; len(h.commands) > maxHistory {
		h.commands = h.commands[1:]
	}
	return o, nil
'''),(A,'''// app implements App.
''','''// maxHistory is the number of Command that can be undone.
const maxHistory = 100

// app implements App.
'''),(A,'''	return slices.Clone(h.commands[:h.commandsIdx+1]) // What the caller does with it is not our history.
''','''	return slices.Clone(h.commands[:min(h.commandsIdx+1, len(h.commands))]) // What the caller does with it is not our history.
''')],
 test=AH%'"fmt"'+'''
func TestPlantedDemo(t *testing.T) {
	a := newApp(t)
	for i := 0; i < 120; i++ {
		run(t, a, fmt.Sprintf(`item create "x%d"`, i))
	}
	if n := len(a.History()); n != 120 {
		t.Fatalf("demo: %d commands in the history after 120", n)
	}
}
'''),
dict(id='c17-tree-subset-equal', property='C17', pkg='pkg/world',
 needs='comparing a tree with one that has the same first components and more',
 breaks='TreeEqual accepts a tree with fewer components as equal, in one direction',
 edits=[(T,'''	if t1.Components().Cardinality() != t2.Components().Cardinality() {''','''	if t1.Components().Cardinality() > t2.Components().Cardinality() {''')],
 test=WH%''+'''
func TestPlantedDemo(t *testing.T) {
	t1, _, err1 := world.TreeFromString(`tree{nil::[tree{item "a"::[]}]}`)
	t2, _, err2 := world.TreeFromString(`tree{nil::[tree{item "a"::[]} tree{item "b"::[]}]}`)
	if err1 != nil || err2 != nil {
		t.Fatal(err1, err2)
	}
	if world.TreeEqual(t1, t2) || world.TreeEqual(t2, t1) {
		t.Fatal("demo: different trees are equal")
	}
}
'''),
dict(id='c17-rel-equal-expanded', property='C17', pkg='pkg/world',
 needs='comparing worlds that differ only in the expanded text of a relationship',
 breaks='RelEqual compares the expanded text only if both have one',
 edits=[('pkg/world/rel.go','''	if r1.Expanded != r2.Expanded {
		return false
	}
	return true''','''	if r1.Expanded != "" && r2.Expanded != "" {
		return r1.Expanded == r2.Expanded
	}
	return true''')],
 test=WH%''+'''
func TestPlantedDemo(t *testing.T) {
	mk := func(x string) world.World {
		w := world.CreateWorld("w")
		w.ItemCreate("a", world.ItemParams{})
		w.ItemCreate("b", world.ItemParams{})
		w.RelCreate("a", "b", world.RelParams{Expanded: &x})
		return w
	}
	if world.WorldEqual(mk(""), mk("text")) {
		t.Fatal("demo: different worlds are equal")
	}
}
'''),
dict(id='c19-parsed-cache', property='C19', pkg='pkg/world',
 needs='two worlds made from the same text in one process, one of them changed',
 breaks='FromString returns the world it made earlier from the same text',
 edits=[(W,'''func FromString(s string) (World, error) {
	p, err''','''func FromString(s string) (World, error) {
	if w, ok := parsed[s]; ok && w.String() == s {
		return w, nil
	}
	w, err := parseWorld(s)
	if err == nil {
		parsed[s] = w
	}
	return w, err
}

// parsed holds the worlds made by FromString, to save parsing again what has not changed.
var parsed = map[string]World{}

func parseWorld(s string) (World, error) {
	p, err'''),(W,'''	// The Parser leaves the quotes around the name and expanded.
	w := CreateWorld(''','''	// The Parser leaves the quotes around the name and expanded.
	var w World = CreateWorld(''') if 0 else (W,'''// ```
func FromString(s string)''','''// ```
//
// The same text is parsed once.
func FromString(s string)''') if 0 else (W,'''	return w, nil
}

func WorldEqual(''','''	return w, w.Err()
}

func WorldEqual(''')],
 test=WH%''+'''
func TestPlantedDemo(t *testing.T) {
	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{})
	s := w.String()
	w1, err1 := world.FromString(s)
	w2, err2 := world.FromString(s)
	if err1 != nil || err2 != nil {
		t.Fatal(err1, err2)
	}
	w1.ItemDelete("a")
	if _, ok := w2.ItemFetch("a"); !ok {
		t.Fatal("demo: deleting an item of one world deleted it in another")
	}
}
'''),
]
