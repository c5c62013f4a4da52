import os
_src = open(os.path.join('/verif/tools', 'plant-defs-2.py')).read()
exec(_src[:_src.index('\nBUGS')])
G='pkg/grammar/main.go'
CLITEST="""
package main

import (
	"io"
	"os"
	"strings"
	"testing"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

func say(t *testing.T, lines ...string) (app.App, string) {
	core, err := app.NewApp(world.CreateWorld("demo"))
	if err != nil {
		t.Fatal(err)
	}
	exec := executor(core)
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = w
	for _, l := range lines {
		exec(l)
	}
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	return core, string(b)
}

var _ = strings.Count
"""
BUGS=[
dict(id='c23-list-buffer', property='C23', pkg='pkg/world',
 needs='a list of items that is still used when the world has changed and was listed again',
 breaks='ItemList returns the same memory on every call',
 edits=[(W,"""	items := make([]Item, 0)
	for _, item := range w.Items {
""","""	items := w.listed[:0]
	defer func() { w.listed = items }()
	for _, item := range w.Items {
"""),(W,"""	Tree  Tree            `json:"tree"`  // Tree is a tree representation of the World.
""","""	Tree  Tree            `json:"tree"`  // Tree is a tree representation of the World.

	listed []Item // listed is kept to be filled again by ItemList.
""")],
 test=WH%''+"""
func TestPlantedDemo(t *testing.T) {
	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{})
	before := w.ItemList(0)
	w.ItemDelete("a")
	w.ItemCreate("b", world.ItemParams{})
	w.ItemList(0)
	if before[0].Id != "a" {
		t.Fatalf("demo: the list made before has become %v", before)
	}
}
"""),
dict(id='c23-mismatch-false', property='C23', pkg='pkg/world',
 needs='creating an item that exists and is external, with external=false',
 breaks='an attribute that is passed as false is not compared with the existing item',
 edits=[(W,"""		(params.External != nil && *params.External != existing.External) ||
""","""		(params.External != nil && *params.External && !existing.External) ||
""")],
 test=WH%''+"""
func TestPlantedDemo(t *testing.T) {
	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{External: bp(true)})
	if w.ItemCreate("a", world.ItemParams{External: bp(false)}).Err() == nil {
		t.Fatal("demo: no error although the attributes differ")
	}
}
"""),
dict(id='c23-stale-error', property='C23', pkg='pkg/world',
 needs='an operation that fails, then deleting a relationship',
 breaks='deleting a relationship reports the error of an earlier operation',
 edits=[(W,"""func (w *world) RelDelete(fromId, toId string) World {
	w.resetLatestTrackers()
	delete(""","""func (w *world) RelDelete(fromId, toId string) World {
	delete(""")],
 test=WH%''+"""
func TestPlantedDemo(t *testing.T) {
	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{})
	w.RelCreate("a", "a", world.RelParams{})
	w.RelCreate("a", "missing", world.RelParams{})
	if err := w.RelDelete("a", "a").Err(); err != nil {
		t.Fatalf("demo: %v", err)
	}
}
"""),
dict(id='c24-delete-anywhere', property='C24', pkg='pkg/world',
 needs='deleting an item through a part of the hierarchy that does not contain it',
 breaks='Delete removes the item wherever it is in the whole hierarchy',
 edits=[(T,"""	found, ok := t.Find(id)
	if !ok {
		// The item doesn't exist here.""","""	found, ok := t.Root().Find(id)
	if !ok {
		// The item doesn't exist here.""")],
 test=WH%''+"""
func TestPlantedDemo(t *testing.T) {
	root, _, err := world.TreeFromString(`tree{nil::[tree{item "a"::[]} tree{item "b"::[]}]}`)
	if err != nil {
		t.Fatal(err)
	}
	a, _ := root.Find("a")
	a.Delete("b")
	if !root.Has("b", false) {
		t.Fatal("demo: b was not in a, and has been deleted")
	}
}
"""),
dict(id='c24-parent-of-read', property='C24', pkg='pkg/world',
 needs='a hierarchy of three levels read from its text, and an item at the third level moved',
 breaks='items that were read from a text and have no components take the parent of their parent for their parent',
 edits=[(T,"""		t.components.Add(childTree)
	}
	return t, nil
""","""		t.attach(childTree)
	}
	return t, nil
}

// attach adds a Component that was read.
func (t *tree) attach(c *tree) {
	t.components.Add(c)
	if c.components.IsEmpty() && t.parent != nil {
		c.parent = t.parent
	}
""")],
 test=WH%''+"""
func TestPlantedDemo(t *testing.T) {
	root, _, err := world.TreeFromString(`tree{nil::[tree{item "a"::[tree{item "b"::[]}]}]}`)
	if err != nil {
		t.Fatal(err)
	}
	b, _ := root.Find("b")
	if b.Parent().Item().Id != "a" {
		t.Fatalf("demo: the parent of b is %q", b.Parent().Item().Id)
	}
}
"""),
dict(id='c09-empty-is-new', property='C09', pkg='pkg/persistence',
 needs='an empty world file, loaded',
 breaks='an empty file is loaded as a new world instead of being reported',
 edits=[(P,"""	println(string(data))
""","""	text := string(data)
	if text == "" {
		return world.CreateWorld(name), nil // Nothing stored yet.
	}
	println(text)
""")],
 test=PH%''+"""
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	dir := t.TempDir()
	fp.SetSourcePath(dir)
	os.WriteFile(filepath.Join(dir, "w.world"), nil, 0644)
	if w, err := fp.Load("w"); err == nil {
		t.Fatalf("demo: an empty file was loaded as %v", w)
	}
}
"""),
dict(id='c13-delete-reverse', property='C13', pkg='pkg/app',
 needs='two items with a relationship in each direction, one of the two deleted',
 breaks='deleting a relationship deletes the one in the other direction as well',
 edits=[(W,"""	delete(w.Rels, relIdFromIds(fromId, toId))
	return w
""","""	for k, rel := range w.Rels {
		if rel.From.Id == fromId && rel.To.Id == toId || rel.To.Id == fromId && rel.From.Id == toId {
			delete(w.Rels, k)
		}
	}
	return w
""")],
 test=AH%''+"""
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, "item a", "item b", "rel a b", "rel b a", "rel delete a b")
	if len(a.World().RelList(0)) != 1 {
		t.Fatal("demo: rel b a is gone as well")
	}
}
"""),
dict(id='c17-sort-from-only', property='C17', pkg='pkg/app',
 needs='worlds with two relationships from one item, enumerated in different orders',
 breaks='relationships are sorted by their source only before they are compared',
 edits=[(W,"""		if rels1[i].From.Id == rels1[j].From.Id {
			return rels1[i].To.Id < rels1[j].To.Id
		}
		return rels1[i].From.Id < rels1[j].From.Id
""","""		return rels1[i].From.String() < rels1[j].From.String()
"""),(W,"""		if rels2[i].From.Id == rels2[j].From.Id {
			return rels2[i].To.Id < rels2[j].To.Id
		}
		return rels2[i].From.Id < rels2[j].From.Id
""","""		return rels2[i].From.String() < rels2[j].From.String()
""")],
 test=AH%''+"""
func TestPlantedDemo(t *testing.T) {
	lines := []string{"item a", "item b", "item c", "item d", "rel a b", "rel a c", "rel a d"}
	a, b := newApp(t, lines...), newApp(t, lines...)
	for i := 0; i < 200; i++ {
		if !world.WorldEqual(a.World(), b.World()) {
			t.Fatal("demo: two worlds with the same history are called different")
		}
	}
}
"""),
dict(id='c11-rel-set-empty', property='C11', pkg='pkg/app',
 needs='setting the expanded text of a relationship that has one to the empty text',
 breaks='an empty expanded text is taken as not given for relationships',
 edits=[(W,"""	if params.Expanded != nil {
		rel.Expanded = *params.Expanded
	}
""","""	if params.Expanded != nil && *params.Expanded != "" {
		rel.Expanded = *params.Expanded
	}
""")],
 test=AH%''+"""
func TestPlantedDemo(t *testing.T) {
	a := newApp(t, "item a", "item b", "rel a b expanded=\\"x\\"", "rel set a b expanded=\\"\\"")
	if r := a.World().RelList(0)[0]; r.Expanded != "" {
		t.Fatalf("demo: expanded is still %q", r.Expanded)
	}
}
"""),
dict(id='c11-percent', property='C11', pkg='pkg/app',
 needs='a value that contains a percent sign',
 breaks='the text of the object is used as a format',
 edits=[(A,"""	return fmt.Sprintf("%s\\n$$$$\\n200 ok %s", o, errOrEmpty(err))
""","""	return fmt.Sprintf(o.String()+"\\n$$$$\\n200 ok %s", errOrEmpty(err))
""")],
 test=AH%''+"""
func TestPlantedDemo(t *testing.T) {
	a := newApp(t)
	if r := a.Exec("item a name=\\"100% sure\\""); !strings.Contains(r, "100% sure") {
		t.Fatalf("demo: answered %q", r)
	}
}
"""),
dict(id='c08-exclusive-temporary', property='C08', pkg='pkg/persistence',
 needs='a save that is killed before it renames its temporary file, then any later save of the same world',
 breaks='the temporary file has a fixed name and must not exist',
 edits=[(P,"""	data := world.String()
	return writeFile(filePath, []byte(data))
""","""	tmp, err := os.OpenFile(filePath+".tmp", os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		return err
	}
	_, err = tmp.WriteString(world.String())
	if err == nil {
		err = tmp.Sync()
	}
	if closeErr := tmp.Close(); err == nil {
		err = closeErr
	}
	if err == nil {
		err = os.Rename(tmp.Name(), filePath)
	}
	if err != nil {
		_ = os.Remove(tmp.Name())
		return err
	}
	return syncDirs(fp.directory)
"""),(P,"""// writeFile replaces the content of a file in one durable step.
// If it fails or is cut short, the file has either its old content or the new content.
func writeFile(filePath string, data []byte) error {
	dir := filepath.Dir(filePath)
	tmp, err := os.CreateTemp(dir, "save-*.tmp")
	if err != nil {
		return err
	}
	_, err = tmp.Write(data)
	if err == nil {
		err = tmp.Chmod(0644)
	}
	if err == nil {
		err = tmp.Sync()
	}
	if closeErr := tmp.Close(); err == nil {
		err = closeErr
	}
	if err == nil {
		err = os.Rename(tmp.Name(), filePath)
	}
	if err != nil {
		_ = os.Remove(tmp.Name())
		return err
	}
	return syncDirs(dir)
}

""","")],
 test=PH%''+"""
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	dir := t.TempDir()
	fp.SetSourcePath(dir)
	// What a process that was killed leaves behind: whatever a save makes beside the world, cut short.
	if err := fp.Save(makeWorld("w", "a")); err != nil {
		t.Fatal(err)
	}
	os.WriteFile(filepath.Join(dir, "w.world.tmp"), []byte("$$world"), 0644)
	if err := fp.Save(makeWorld("w", "b")); err != nil {
		t.Fatalf("demo: %v", err)
	}
}
"""),
dict(id='c02-first-save-direct', property='C02', pkg='pkg/persistence',
 needs='a power failure after the first save of a world was acknowledged',
 breaks='a world that is not stored yet is written directly, without forcing it to disk',
 edits=[(P,"""	data := world.String()
	return writeFile(filePath, []byte(data))
""","""	data := []byte(world.String())
	if _, err := os.Stat(filePath); os.IsNotExist(err) {
		return os.WriteFile(filePath, data, 0644) // Nothing to lose yet.
	}
	return writeFile(filePath, data)
""")],
 pre=OSSYNC,
 test=PH%''+"""
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	dir := t.TempDir()
	fp.SetSourcePath(dir)
	synced := map[string]bool{}
	os.DemoSync = func(name string) error { synced[name] = true; return nil }
	err := fp.Save(makeWorld("w", "a"))
	os.DemoSync = nil
	if err != nil {
		t.Fatal(err)
	}
	if len(synced) == 0 {
		t.Fatal("demo: the save was acknowledged and nothing was forced to disk")
	}
}
"""),
dict(id='c03-single-read', property='C03', pkg='pkg/persistence',
 needs='a read of the stored file that transfers fewer bytes than asked',
 breaks='the file is read with a single read call',
 edits=[(P,"""	println(string(data))
	return world.FromString(string(data))
""","""	text := string(data)
	println(text)
	return world.FromString(text)
"""),(P,"""	data, err := os.ReadFile(filepath.Join(fp.directory, name+".world"))
""","""	data, err := readFile(filepath.Join(fp.directory, name+".world"))
"""),(P,"""// Load loads a world""","""// readFile reads a file into a buffer of the right size.
func readFile(path string) ([]byte, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	info, err := f.Stat()
	if err != nil {
		return nil, err
	}
	data := make([]byte, info.Size())
	if len(data) == 0 {
		return data, nil
	}
	n, err := f.Read(data)
	return data[:n], err
}

// Load loads a world""")],
 pre='''goroot=$(go env GOROOT)
sed -e 's/^func (f \\*File) Read(b \\[\\]byte) (n int, err error) {/var DemoRead int\\n\\nfunc (f *File) Read(b []byte) (n int, err error) {\\n\\tif DemoRead > 0 \\&\\& len(b) > DemoRead {\\n\\t\\tb = b[:DemoRead]\\n\\t}/' "$goroot/src/os/file.go" > "$tmp/file.go"
extra=", \\"$goroot/src/os/file.go\\": \\"$tmp/file.go\\""
''',
 test=PH%''+"""
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(t.TempDir())
	if err := fp.Save(makeWorld("w", "a", "b")); err != nil {
		t.Fatal(err)
	}
	os.DemoRead = 16
	w, err := fp.Load("w")
	os.DemoRead = 0
	if err != nil || len(w.ItemList(0)) != 2 {
		t.Fatalf("demo: reading sixteen bytes at a time: %v", err)
	}
}
"""),
dict(id='c07-first-hundred', property='C07', pkg='pkg/persistence',
 needs='more than a hundred files in the storage directory',
 breaks='the listing reads one batch of directory entries only',
 edits=[(P,"""	files, err := os.ReadDir(fp.directory)
	if err != nil {
		return nil, err
	}
""","""	dir, err := os.Open(fp.directory)
	if err != nil {
		return nil, err
	}
	defer dir.Close()
	files, err := dir.ReadDir(100)
	if err != nil && err != io.EOF {
		return nil, err
	}
"""),(P,"""	"os"
""","""	"io"
	"os"
""")],
 test=PH%'"fmt"'+"""
func TestPlantedDemo(t *testing.T) {
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(t.TempDir())
	for i := 0; i < 110; i++ {
		if err := fp.Save(makeWorld(fmt.Sprintf("w%d", i))); err != nil {
			t.Fatal(err)
		}
	}
	l, err := fp.ListWorlds()
	if err != nil || len(l) != 110 {
		t.Fatalf("demo: 110 worlds saved, %d listed, %v", len(l), err)
	}
}
"""),
dict(id='c20-expanded-like-name', property='C20', pkg='pkg/world',
 needs='an item whose expanded text is the same as its name',
 breaks='an expanded text that repeats the name is left out of the text of an item',
 edits=[(I,"""	if i.Expanded != "" {
		paramRepr""","""	if i.Expanded != "" && i.Expanded != i.Name {
		paramRepr""")],
 test=WH%''+"""
func TestPlantedDemo(t *testing.T) {
	w := world.CreateWorld("w")
	i, _ := w.ItemCreate("a", world.ItemParams{Name: sp("x"), Expanded: sp("x")}).Item()
	i2, err := world.ItemFromString(i.String())
	if err != nil || i2 != i {
		t.Fatalf("demo: %v is read as %v %v", i, i2, err)
	}
}
"""),
dict(id='c21-reply-reused', property='C21', pkg='cmd/wasm', tags='wasm',
 needs='a successful command after one that was answered with an error',
 breaks='the reply object is used again and keeps the error of an earlier call',
 edits=[(WASM,"""	return JavaScriptReply{
		Status: p.Response.Status.Code,
		Data:   p.Response,
		Error:  map[string]string{},
		Raw:    response,
	}
}
""","""	reply.Status = p.Response.Status.Code
	reply.Data = p.Response
	reply.Raw = response
	return reply
}

// reply is the JavaScriptReply under construction.
var reply = JavaScriptReply{Error: map[string]string{}}
"""),(WASM,"""		return JavaScriptReply{
			Status: p.Response.Status.Code,
			Data:   p.Response,
			Error:  map[string]string{"code": strconv.Itoa(p.Response.Status.Code), "message": p.Response.Status.Message},
			Raw:    response,
		}
""","""		reply.Error["code"] = strconv.Itoa(p.Response.Status.Code)
		reply.Error["message"] = p.Response.Status.Message
		reply.Status = p.Response.Status.Code
		reply.Data = p.Response
		reply.Raw = response
		return reply
""")],
 demo=WASMDEMO, files={'demo.js': WASMJS%"""
  if (send("item fetch a").status === 200) fail("there is no item a");
  const r = send("item a");
  if (r.status !== 200 || Object.keys(r.error).length !== 0) fail("success with the error " + JSON.stringify(r.error));
"""}),
dict(id='c22-semicolon', property='C22', pkg='cmd/cli', tags='cli',
 needs='a line with a value that contains a semicolon',
 breaks='a line is split at semicolons, also inside quotes',
 edits=[(CLI,"""	return func(input string) {
		input = strings.TrimSpace(input)
		if input == "" {
			return
		}

""","""	var execute prompt.Executor
	execute = func(input string) {
		input = strings.TrimSpace(input)
		if input == "" {
			return
		}
		if first, rest, ok := strings.Cut(input, ";"); ok {
			execute(first)
			execute(rest)
			return
		}

"""),(CLI,"""		fmt.Println(resp)
	}
}
""","""		fmt.Println(resp)
	}
	return execute
}
""")],
 test=CLITEST+"""
func TestPlantedDemo(t *testing.T) {
	core, out := say(t, `item a name="x; y"`)
	if i, _ := core.World().ItemFetch("a"); i.Name != "x; y" {
		t.Fatalf("demo: name is %q; printed %q", i.Name, out)
	}
}
"""),
dict(id='c22-error-swallowed', property='C22', pkg='cmd/cli', tags='cli',
 needs='a command that is valid and fails, typed again after it failed',
 breaks='an answer equal to the one before is not printed again',
 edits=[(CLI,"""	return func(input string) {
		input""","""	shown := ""
	return func(input string) {
		input"""),(CLI,"""		resp := app.Exec(input)
		fmt.Println(resp)
	}
""","""		if resp := app.Exec(input); resp != shown || !strings.Contains(resp, "error") {
			shown = resp
			fmt.Println(resp)
		}
	}
""")],
 test=CLITEST+"""
func TestPlantedDemo(t *testing.T) {
	_, out := say(t, "item fetch a", "item fetch a")
	if strings.Count(out, "450 error") != 2 {
		t.Fatalf("demo: two errors, printed %q", out)
	}
}
"""),
]
