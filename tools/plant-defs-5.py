_src = open('/verif/tools/plant-defs-4.py').read()
exec(_src[:_src.index('\nBUGS')])
PMT = GH.replace('package grammar_test', 'package persistence_test').replace('"github.com/williamflynt/topolith/pkg/grammar"', '"github.com/williamflynt/topolith/pkg/persistence"\n\t"github.com/williamflynt/topolith/pkg/world"').replace('grammar.Parse','persistence.NewFilePersistence')
I = 'pkg/world/item.go'
C = 'pkg/app/command.go'
BUGS=[
dict(id='c06-singleton', property='C06', pkg='pkg/persistence',
 needs='two handles in one process that are given different directories',
 breaks='NewFilePersistence hands out the same handle again and again',
 edits=[(PM,"""	dir := getDefaultDirectory()
	return &filePersistence{directory: dir}
""","""	once.Do(func() { handle = &filePersistence{directory: getDefaultDirectory()} })
	return handle
"""),(PM,"""func NewFilePersistence() ""","""var (
	once   sync.Once
	handle *filePersistence
)

func NewFilePersistence() """),(PM,"""	"runtime"
""","""	"runtime"
	"sync"
""")],
 test=PMT+"""
func TestPlantedDemo(t *testing.T) {
	d1, d2 := t.TempDir(), t.TempDir()
	a, b := persistence.NewFilePersistence(), persistence.NewFilePersistence()
	a.SetSourcePath(d1)
	b.SetSourcePath(d2)
	if err := a.Save(world.CreateWorld("w")); err != nil {
		t.Fatal(err)
	}
	a.SetSourcePath(d1)
	if _, err := a.Load("w"); err != nil {
		t.Fatalf("demo: saved to another directory: %v", err)
	}
}
"""),
dict(id='c07-glob', property='C07', pkg='pkg/persistence',
 needs='a storage location whose path contains a character that is special in patterns, such as "["',
 breaks='ListWorlds looks for files by a pattern made of the path',
 edits=[(PM,"""	files, err := os.ReadDir(fp.directory)
""","""	if _, err := os.ReadDir(fp.directory); err != nil {
		return nil, err
	}
	files, err := filepath.Glob(filepath.Join(fp.directory, "*.world"))
"""),(PM,"""		if filepath.Ext(file.Name()) == ".world" && !file.IsDir() {
			worlds = append(worlds, file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])
""","""		if info, err := os.Lstat(file); err == nil && !info.IsDir() {
			name := filepath.Base(file)
			worlds = append(worlds, name[:len(name)-len(filepath.Ext(name))])
""")],
 test=PMT.replace('import (','import (\n\t"path/filepath"')+"""
func TestPlantedDemo(t *testing.T) {
	p := persistence.NewFilePersistence()
	p.SetSourcePath(filepath.Join(t.TempDir(), "my [worlds]"))
	if err := p.Save(world.CreateWorld("w")); err != nil {
		t.Fatal(err)
	}
	if l, err := p.ListWorlds(); err != nil || len(l) != 1 {
		t.Fatalf("demo: listed %v %v", l, err)
	}
}
"""),
dict(id='c17-eq-desc', property='C17', pkg='pkg/world',
 needs='two worlds that differ only by letter case in their descriptions',
 breaks='WorldEqual compares descriptions without regard to case',
 edits=[(W,"""	if w1.Expanded() != w2.Expanded() {
""","""	if !strings.EqualFold(w1.Expanded(), w2.Expanded()) {
""")],
 test=WHT+"""
func TestPlantedDemo(t *testing.T) {
	a, b := world.CreateWorld("w"), world.CreateWorld("w")
	a.SetExpanded("The shop")
	b.SetExpanded("the shop")
	if world.WorldEqual(a, b) {
		t.Fatal("demo: equal")
	}
}
"""),
dict(id='c17-eq-trim', property='C17', pkg='pkg/world',
 needs='two items that differ only by space around their long text',
 breaks='ItemEqual compares the long text without the space around it',
 edits=[(I,"""	if i1.Expanded != i2.Expanded {
""","""	if strings.TrimSpace(i1.Expanded) != strings.TrimSpace(i2.Expanded) {
""")],
 test=WHT+"""
func TestPlantedDemo(t *testing.T) {
	if world.ItemEqual(world.Item{Id: "a", Expanded: " x"}, world.Item{Id: "a", Expanded: "x"}) {
		t.Fatal("demo: equal")
	}
}
"""),
dict(id='c19-within-cache', property='C19', pkg='pkg/world',
 needs='two worlds of the same id and size whose hierarchies differ, both asked about relationships from inside an item',
 breaks='what is inside an item is remembered for all worlds of one id and size',
 edits=[(W,"""	leftIds := append(w.Tree.GetDescendantIds(fromId), fromId)
""","""	leftIds := append(w.descendants(fromId), fromId)
"""),(W,"""func (w *world) Parent(childId""","""type within struct{ world, id, size string }

var (
	insideLock sync.Mutex
	inside     = map[within][]string{}
)

// descendants remembers what is inside an Item for as long as the world stays what it is.
func (w *world) descendants(id string) []string {
	insideLock.Lock()
	defer insideLock.Unlock()
	key := within{w.Id_, id, fmt.Sprint(len(w.Items), len(w.Rels), w.Version_, len(w.Tree.GetDescendantIds(id)))}
	if l, ok := inside[key]; ok {
		return slices.Clone(l)
	}
	l := w.Tree.GetDescendantIds(id)
	inside[key] = slices.Clone(l)
	return l
}

func (w *world) Parent(childId"""),(W,"""	"strconv"
	"strings"
""","""	"strconv"
	"strings"
	"sync"
""")],
 test=WHT+"""
func TestPlantedDemo(t *testing.T) {
	for _, in := range []string{"b", "c"} {
		w := world.CreateWorld("w")
		for _, id := range []string{"a", "b", "c"} {
			w.ItemCreate(id, world.ItemParams{})
		}
		w.Nest(in, "a")
		w.RelCreate(in, in, world.RelParams{})
		if l := w.RelFetch("a", "a", false); len(l) != 1 {
			t.Fatalf("demo: relationships from inside a: %v", l)
		}
	}
}
"""),
dict(id='c20-rel-trunc', property='C20', pkg='pkg/world',
 needs='a relationship with a mechanism of more than 300 characters',
 breaks='the text of a relationship has the first 300 characters of the mechanism',
 edits=[(R,"""mechanism="%s"`, r.Mechanism""","""mechanism="%.300s"`, r.Mechanism""")],
 test=WHT.replace('import (','import (\n\t"strings"')+"""
func TestPlantedDemo(t *testing.T) {
	r := world.Rel{From: world.Item{Id: "a"}, To: world.Item{Id: "b"}, Mechanism: strings.Repeat("m", 301)}
	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{})
	w.ItemCreate("b", world.ItemParams{})
	x, err := world.RelFromString(w, r.String())
	if err == nil && x.Mechanism != r.Mechanism {
		t.Fatalf("demo: %d characters of %d", len(x.Mechanism), len(r.Mechanism))
	}
}
"""),
dict(id='c12-thousand', property='C12', pkg='pkg/world',
 needs='an item with more than 1000 items inside it',
 breaks='the list of what is inside an item ends after 1000',
 edits=[(T,"""	return descendantIds
""","""	return descendantIds[:min(len(descendantIds), 1000)]
""")],
 test=WHT+"""
func TestPlantedDemo(t *testing.T) {
	w := world.CreateWorld("w")
	w.ItemCreate("top", world.ItemParams{})
	for i := 0; i < 1010; i++ {
		id := fmt.Sprint("i", i)
		w.ItemCreate(id, world.ItemParams{})
		w.Nest(id, "top")
		w.RelCreate(id, "top", world.RelParams{})
	}
	if l := w.RelFrom("top", false); len(l) != 1010 {
		t.Fatalf("demo: %d relationships from inside top", len(l))
	}
}
"""),
dict(id='c22-fields', property='C22', pkg='cmd/cli',
 needs='a quoted value with two spaces in a row, typed at the prompt',
 breaks='the line is put together from its words',
 edits=[('cmd/cli/main.go',"""		input = strings.TrimSpace(input)
""","""		input = strings.Join(strings.Fields(input), " ")
""")],
 test=CLITEST+"""
func TestPlantedDemo(t *testing.T) {
	core, _ := say(t, `item create a name="x  y"`)
	if i, ok := core.World().ItemFetch("a"); !ok || i.Name != "x  y" {
		t.Fatalf("demo: %v", i)
	}
}
"""),
]
