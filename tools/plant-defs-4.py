_src = open('/verif/tools/plant-defs-3.py').read()
exec(_src[:_src.index('\nBUGS')])
PM = 'pkg/persistence/main.go'
GH = """
package grammar_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/williamflynt/topolith/pkg/grammar"
)

func together(n, rounds int, f func(i, round int) error) error {
	var wg sync.WaitGroup
	errs := make(chan error, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for r := 0; r < rounds; r++ {
				if err := f(i, r); err != nil {
					errs <- err
					return
				}
			}
		}(i)
	}
	wg.Wait()
	close(errs)
	return <-errs
}

var _ = fmt.Sprint
var _ = grammar.Parse
"""
WHT = GH.replace('package grammar_test', 'package world_test').replace('"github.com/williamflynt/topolith/pkg/grammar"', '"github.com/williamflynt/topolith/pkg/world"').replace('grammar.Parse', 'world.FromString')
BUGS=[
dict(id='c25-rel-text-buffer', property='C25', pkg='pkg/world',
 needs='two goroutines that print relationships of worlds of their own at the same time',
 breaks='the attributes of a relationship are collected in memory that all printers share',
 edits=[(R,"""	paramRepr := make([]string, 0)
""","""	paramRepr := relAttributes[:0]
	defer func() { relAttributes = paramRepr[:0] }()
"""),(R,"""const RelIdSeparator = "::"
""","""const RelIdSeparator = "::"

// relAttributes is kept to be filled again by the next Rel that is printed.
var relAttributes = make([]string, 0, 4)
""")],
 test=WHT+"""
func TestPlantedDemo(t *testing.T) {
	err := together(8, 4000, func(i, round int) error {
		verb := fmt.Sprintf("verb%d", i)
		mech := fmt.Sprintf("mech%d", i)
		r := world.Rel{From: world.Item{Id: "a"}, To: world.Item{Id: "b"}, Verb: verb, Mechanism: mech}
		if s, want := r.String(), fmt.Sprintf("rel \\"a\\" \\"b\\" verb=%q mechanism=%q", verb, mech); s != want {
			return fmt.Errorf("printed %s, want %s", s, want)
		}
		return nil
	})
	if err != nil {
		t.Fatalf("demo: %v", err)
	}
}
"""),
dict(id='c25-parse-memo', property='C25', pkg='pkg/grammar',
 needs='a goroutine that parses the line which another one has begun to parse',
 breaks='the last line is remembered before its result is',
 edits=[('pkg/grammar/main.go',"""func Parse(s string) (*Parser, error) {
	p := &Parser{
		Buffer: s,
""","""func Parse(s string) (*Parser, error) {
	if s == lastLine && lastParser != nil {
		return lastParser, nil
	}
	lastLine = s
	return parse(s)
}

func parse(s string) (*Parser, error) {
	p := &Parser{
		Buffer: s,
"""),('pkg/grammar/main.go',"""	if err := p.Init(); err != nil {
		return p, err
	}
	if err := p.Parse(); err != nil {
		return p, err
	}
	p.Execute()
	return p, nil
}

// --- INTERNAL ---
""","""	lastParser = nil
	err := p.Init()
	if err == nil {
		err = p.Parse()
	}
	if err != nil {
		return p, err
	}
	p.Execute()
	lastParser = p
	return p, nil
}

// --- INTERNAL ---

// lastLine and lastParser spare parsing a line again that is sent many times.
var lastLine string
var lastParser *Parser
""")],
 test=GH+"""
func TestPlantedDemo(t *testing.T) {
	err := together(8, 4000, func(i, round int) error {
		id := fmt.Sprintf("i%d", (i+round)%3)
		p, err := grammar.Parse("item create " + id)
		if err != nil {
			return err
		}
		if p.InputAttributes.ResourceId != id {
			return fmt.Errorf("parsed %q as %q", id, p.InputAttributes.ResourceId)
		}
		return nil
	})
	if err != nil {
		t.Fatalf("demo: %v", err)
	}
}
"""),
dict(id='c25-parse-slots', property='C25', pkg='pkg/world',
 needs='two goroutines that each have begun to read a world when neither has reached its hierarchy',
 breaks='readers wait for each other for ever: reading takes one of two slots, and then another one for the hierarchy',
 edits=[(W,"""func FromString(s string) (World, error) {
	p, err := grammar.Parse(s)
""","""func FromString(s string) (World, error) {
	readers <- struct{}{}
	defer func() { <-readers }()
	p, err := grammar.Parse(s)
"""),(W,"""		item, err := ItemFromString(itemStr)
		if err != nil {
			return nil, err
		}
		w.ItemCreate(""","""		item, err := readItem(itemStr)
		if err != nil {
			return nil, err
		}
		w.ItemCreate("""),(W,"""func strPtr(s string) *string {
""","""// readers bounds how many texts are read at the same time, since reading takes much memory.
var readers = make(chan struct{}, 2)

func readItem(s string) (Item, error) {
	readers <- struct{}{}
	defer func() { <-readers }()
	return ItemFromString(s)
}

func strPtr(s string) *string {
""")],
 test=WHT.replace('"testing"','"testing"\n\t"time"')+"""
func TestPlantedDemo(t *testing.T) {
	w := world.CreateWorld("w")
	for i := 0; i < 30; i++ {
		w.ItemCreate(fmt.Sprintf("i%d", i), world.ItemParams{})
	}
	text := w.String()
	done := make(chan error)
	go func() {
		done <- together(8, 100, func(i, round int) error {
			_, err := world.FromString(text)
			return err
		})
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatalf("demo: %v", err)
		}
	case <-time.After(60 * time.Second):
		t.Fatal("demo: the readers block each other")
	}
}
"""),
dict(id='c25-write-buffer', property='C25', pkg='pkg/persistence',
 needs='two goroutines saving worlds of their own, one preempted between making the text and writing it',
 breaks='the bytes of a save are kept in memory that all saves share',
 edits=[(PM,"""	data := world.String()
	return writeFile(filePath, []byte(data))
""","""	content = append(content[:0], world.String()...)
	return writeFile(filePath, content)
"""),(PM,"""// filePersistence is the unexported struct""","""// content is the text of the world that is saved.
var content []byte

// filePersistence is the unexported struct""")],
 test=GH.replace('package grammar_test', 'package persistence_test').replace('"github.com/williamflynt/topolith/pkg/grammar"', '"github.com/williamflynt/topolith/pkg/persistence"\n\t"github.com/williamflynt/topolith/pkg/world"').replace('grammar.Parse','persistence.NewFilePersistence')+"""
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	err := together(6, 60, func(i, round int) error {
		p := persistence.NewFilePersistence()
		p.SetSourcePath(dir)
		w := world.CreateWorld(fmt.Sprintf("w%d", i))
		for j := 0; j < 5*i; j++ {
			w.ItemCreate(fmt.Sprintf("i%d-%d", i, j), world.ItemParams{})
		}
		if err := p.Save(w); err != nil {
			return err
		}
		x, err := p.Load(w.Name())
		if err != nil {
			return err
		}
		if !world.WorldEqual(w, x) {
			return fmt.Errorf("%s was saved, and %s read back", w.Name(), x.Name())
		}
		return nil
	})
	if err != nil {
		t.Fatalf("demo: %v", err)
	}
}
"""),
]
PMT = GH.replace('package grammar_test', 'package persistence_test').replace('"github.com/williamflynt/topolith/pkg/grammar"', '"github.com/williamflynt/topolith/pkg/persistence"\n\t"github.com/williamflynt/topolith/pkg/world"').replace('grammar.Parse','persistence.NewFilePersistence')
BUGS += [
dict(id='c05-pid-temporary', property='C05', pkg='pkg/persistence',
 needs='two goroutines of one process saving the same world at the same time',
 breaks='the temporary file is named after the process, so two goroutines of it write one file',
 edits=[(PM,"""	dir := filepath.Dir(filePath)
	tmp, err := os.CreateTemp(dir, "save-*.tmp")
""","""	dir := filepath.Dir(filePath)
	tmp, err := os.Create(filepath.Join(dir, "save-"+strconv.Itoa(os.Getpid())+".tmp"))
"""),(PM,"""	"runtime"
""","""	"runtime"
	"strconv"
"""),(PM,"""	data := world.String()
	return writeFile(filePath, []byte(data))
""","""	return writeFile(filePath, []byte(world.String()))
""")],
 test=PMT+"""
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	err := together(6, 60, func(i, round int) error {
		p := persistence.NewFilePersistence()
		p.SetSourcePath(dir)
		w := world.CreateWorld("w")
		for j := 0; j < 5*i; j++ {
			w.ItemCreate(fmt.Sprintf("i%d-%d", i, j), world.ItemParams{})
		}
		if err := p.Save(w); err != nil {
			return err
		}
		_, err := p.Load("w")
		return err
	})
	if err != nil {
		t.Fatalf("demo: %v", err)
	}
}
"""),
dict(id='c05-handle-path', property='C05', pkg='pkg/persistence',
 needs='two goroutines that use one handle, one of them preempted between choosing the file and writing it',
 breaks='the file that is written is remembered in the handle',
 edits=[(PM,"""	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
	return writeFile(filePath, []byte(data))
""","""	fp.filePath = filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
	return writeFile(fp.filePath, []byte(data))
"""),(PM,"""	directory string
}
""","""	directory string
	filePath  string // filePath is the file of the World that was saved last.
}
""")],
 test=PMT+"""
func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	p := persistence.NewFilePersistence()
	p.SetSourcePath(dir)
	err := together(6, 60, func(i, round int) error {
		w := world.CreateWorld(fmt.Sprintf("w%d", i))
		for j := 0; j < 5*i; j++ {
			w.ItemCreate(fmt.Sprintf("i%d-%d", i, j), world.ItemParams{})
		}
		if err := p.Save(w); err != nil {
			return err
		}
		x, err := p.Load(w.Name())
		if err == nil && x.Name() != w.Name() {
			err = fmt.Errorf("%s loads as %s", w.Name(), x.Name())
		}
		return err
	})
	if err != nil {
		t.Fatalf("demo: %v", err)
	}
}
"""),
]
