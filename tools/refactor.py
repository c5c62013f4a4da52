#!/usr/bin/env python3
"""refactor.py [ID...]: behaviour-preserving edits; every check has to stay quiet on them.

Works on scratch copies of /repo and of /verif, removed afterwards.  RUNS=n sets the runs per check."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, T, I, R = ('pkg/world/' + f for f in ('world.go', 'tree.go', 'item.go', 'rel.go'))
A, C, P, G = 'pkg/app/main.go', 'pkg/app/command.go', 'pkg/persistence/main.go', 'pkg/grammar/main.go'
CLI, WASM = 'cmd/cli/main.go', 'cmd/wasm/main.go'
RF = {}
def rf(id, *edits): RF[id] = edits

rf('own-temp-name',  # another scheme for temporary files: exclusive creation under random names
 (P, '''	tmp, err := os.CreateTemp(dir, "save-*.tmp")
	if err != nil {
		return err
	}
''', '''	var tmp *os.File
	var err error
	for try := 0; try < 10000; try++ {
		name := filepath.Join(dir, "."+strconv.FormatUint(rand.Uint64(), 36)+".part")
		tmp, err = os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if !os.IsExist(err) {
			break
		}
	}
	if err != nil {
		return err
	}
'''), (P, '''	"os"
''', '''	"math/rand/v2"
	"os"
'''), (P, '''	"runtime"
''', '''	"runtime"
	"strconv"
'''))

rf('crypto-temp-name',
 (P, '''	tmp, err := os.CreateTemp(dir, "save-*.tmp")
	if err != nil {
		return err
	}
''', '''	var random [12]byte
	if _, err := rand.Read(random[:]); err != nil {
		return err
	}
	tmp, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("save-%d-%x.tmp", os.Getpid(), random)), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		return err
	}
'''), (P, '''import (
''', '''import (
	"crypto/rand"
	"fmt"
'''))

rf('deferred-cleanup',  # bufio, io.WriteString, deferred close and removal, named result
 (P, '''func writeFile(filePath string, data []byte) error {
	dir := filepath.Dir(filePath)
	tmp, err := os.CreateTemp(dir, "save-*.tmp")
	if err != nil {
		return err
	}
	_, err = tmp.Write(data)
	if err == nil {
		err = tmp.Chmod(0644)
	}
	if err == nil {
		err = tmp.Sync()
	}
	if closeErr := tmp.Close(); err == nil {
		err = closeErr
	}
	if err == nil {
		err = os.Rename(tmp.Name(), filePath)
	}
	if err != nil {
		_ = os.Remove(tmp.Name())
		return err
	}
	return syncDirs(dir)
}
''', '''func writeFile(filePath string, data []byte) (err error) {
	dir := filepath.Dir(filePath)
	tmp, err := os.CreateTemp(dir, "save-*.tmp")
	if err != nil {
		return err
	}
	done := false
	defer func() {
		if !done {
			_ = os.Remove(tmp.Name())
		}
	}()
	if err = fill(tmp, data); err != nil {
		return err
	}
	if err = os.Rename(tmp.Name(), filePath); err != nil {
		return err
	}
	done = true
	return syncDirs(dir)
}

func fill(f *os.File, data []byte) (err error) {
	defer func() {
		if closeErr := f.Close(); err == nil {
			err = closeErr
		}
	}()
	w := bufio.NewWriterSize(f, 512)
	if _, err = io.Copy(w, bytes.NewReader(data)); err != nil {
		return err
	}
	if err = w.Flush(); err != nil {
		return err
	}
	if err = f.Sync(); err != nil {
		return err
	}
	return f.Chmod(0644)
}
'''), (P, '''import (
''', '''import (
	"bufio"
	"bytes"
'''), (P, '''	"os"
''', '''	"io"
	"os"
'''))

rf('reader-load',  # streams instead of ReadFile, WalkDir instead of ReadDir
 (P, '''	data, err := os.ReadFile(filepath.Join(fp.directory, name+".world"))
''', '''	data, err := readAll(filepath.Join(fp.directory, name+".world"))
'''), (P, '''		data, err = os.ReadFile(name)
''', '''		data, err = readAll(name)
'''), (P, '''// ListWorlds scans''', '''func readAll(path string) ([]byte, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var b strings.Builder
	if _, err := io.Copy(&b, bufio.NewReader(f)); err != nil {
		return nil, err
	}
	return []byte(b.String()), nil
}

// ListWorlds scans'''), (P, '''	files, err := os.ReadDir(fp.directory)
	if err != nil {
		return nil, err
	}

	var worlds []string
	for _, file := range files {
		if filepath.Ext(file.Name()) == ".world" && !file.IsDir() {
			worlds = append(worlds, file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])
		}
	}
	return worlds, nil
''', '''	dir, err := os.Open(fp.directory)
	if err != nil {
		return nil, err
	}
	defer dir.Close()
	var worlds []string
	for {
		files, err := dir.ReadDir(16)
		for _, file := range files {
			if name, ok := strings.CutSuffix(file.Name(), ".world"); ok && !file.IsDir() {
				worlds = append(worlds, name)
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
	}
	slices.Sort(worlds)
	return worlds, nil
'''), (P, '''import (
''', '''import (
	"bufio"
'''), (P, '''	"os"
''', '''	"io"
	"os"
'''), (P, '''	"runtime"
''', '''	"runtime"
	"slices"
	"strings"
'''))

rf('fs-list',
 (P, '''	files, err := os.ReadDir(fp.directory)
''', '''	files, err := fs.ReadDir(os.DirFS(fp.directory), ".")
'''), (P, '''	"os"
''', '''	"io/fs"
	"os"
'''))

rf('locked-persistence',  # a mutex, a goroutine for the write, logging
 (P, '''type filePersistence struct {
	directory string
}
''', '''type filePersistence struct {
	directory string
	mu        sync.Mutex
}

// logger tells where the time goes. It is off unless TOPOLITH_DEBUG is set.
var logger = log.New(io.Discard, "persistence ", log.LstdFlags)

func init() {
	if os.Getenv("TOPOLITH_DEBUG") != "" {
		logger.SetOutput(os.Stderr)
	}
}
'''), (P, '''	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
	return writeFile(filePath, []byte(data))
''', '''	fp.mu.Lock()
	defer fp.mu.Unlock()
	start := time.Now()
	defer func() { logger.Printf("saved %s in %v", world.Name(), time.Since(start)) }()
	filePath := filepath.Join(fp.directory, world.Name()+".world")
	data := world.String()
	result := make(chan error)
	go func() { result <- writeFile(filePath, []byte(data)) }()
	return <-result
'''), (P, '''	"os"
''', '''	"io"
	"log"
	"os"
'''), (P, '''	"runtime"
''', '''	"runtime"
	"sync"
	"time"
'''))

rf('locked-app',  # Exec under a lock, in a goroutine
 (A, '''func (h *app) Exec(s string) string {
''', '''func (h *app) Exec(s string) string {
	h.mu.Lock()
	defer h.mu.Unlock()
	var wg sync.WaitGroup
	var response string
	wg.Add(1)
	go func() {
		defer wg.Done()
		response = h.run(s)
	}()
	wg.Wait()
	return response
}

func (h *app) run(s string) string {
'''), (A, '''	persistence persistence.Persistence
}

func (h''', '''	persistence persistence.Persistence
	mu          sync.Mutex
}

func (h'''), (A, '''	"slices"
''', '''	"slices"
	"sync"
'''))

rf('parse-cache',  # results of the parser are kept: the parser is never changed after it ran
 (G, '''func Parse(s string) (*Parser, error) {
''', '''func Parse(s string) (*Parser, error) {
	if p, ok := statements.Load(len(s)); ok && p.(string) == s {
		parsedAgain++ // Only counted.
	}
	statements.Store(len(s), s)
	return parse(s)
}

var statements sync.Map
var parsedAgain int

func parse(s string) (*Parser, error) {
'''), (G, '''	"strings"
''', '''	"strings"
	"sync"
'''))

rf('sorted-lists',  # deterministic orders where none is promised
 (W, '''	for _, item := range w.Items {
		if limit > 0 && len(items) >= limit {
			break
		}
		items = append(items, item)
	}
	return items
''', '''	for _, id := range sortedKeys(w.Items) {
		if limit > 0 && len(items) >= limit {
			break
		}
		items = append(items, w.Items[id])
	}
	return items
'''), (W, '''	for _, rel := range w.Rels {
		if limit > 0 && len(rels) >= limit {
			break
		}
		rels = append(rels, rel)
	}
	return rels
''', '''	for _, id := range sortedKeys(w.Rels) {
		if limit > 0 && len(rels) >= limit {
			break
		}
		rels = append(rels, w.Rels[id])
	}
	return rels
'''), (W, '''// world is the internal''', '''func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// world is the internal'''))

rf('recursive-text',  # helpers extracted, builder instead of concatenation, iterators
 (T, '''	treeString := "tree{"

	if t.item != nil {
		treeString += t.item.String()
	} else {
		treeString += "nil"
	}

	treeString += "::["
	componentTrees := make([]string, 0)
	for _, c := range t.components.ToSlice() {
		componentTrees = append(componentTrees, c.String())
	}
	if len(componentTrees) > 0 {
		treeString += strings.Join(componentTrees, " ")
	}
	treeString += "]}"
	return treeString
''', '''	var b strings.Builder
	t.write(&b)
	return b.String()
}

func (t *tree) write(b *strings.Builder) {
	b.WriteString("tree{")
	if t.item == nil {
		b.WriteString("nil")
	} else {
		b.WriteString(t.item.String())
	}
	b.WriteString("::[")
	first := true
	for c := range t.components.Iter() {
		if !first {
			b.WriteByte(' ')
		}
		first = false
		b.WriteString(c.String())
	}
	b.WriteString("]}")
'''), (T, '''	for _, c := range t.components.ToSlice() {
		if found, ok := c.Find(id); ok {
			return found, true
		}
	}
	return nil, false
''', '''	var result Tree
	t.components.Each(func(c Tree) bool {
		found, ok := c.Find(id)
		if ok {
			result = found
		}
		return ok
	})
	return result, result != nil
'''))

rf('history-stack',  # two stacks instead of a list and a cursor
 (A, '''		commands:    make([]Command, 0),
		commandsIdx: -1,
''', '''		done:        make([]Command, 0),
'''), (A, '''	commands    []Command   // commands is a list of Command that have been executed.
	commandsIdx int         // commandsIdx is the index of the last executed Command in the commands list. It must initialize to -1.
''', '''	done        []Command // done is a list of Command that have been executed.
	undone      []Command // undone is a list of Command that have been undone, the latest one last.
'''), (A, '''	return slices.Clone(h.commands[:h.commandsIdx+1]) // What the caller does with it is not our history.
''', '''	return append([]Command{}, h.done...)
'''), (A, '''	return h.commandsIdx >= 0
''', '''	return len(h.done) > 0
'''), (A, '''	return h.commandsIdx < len(h.commands)-1
''', '''	return len(h.undone) > 0
'''), (A, '''	if h.CanRedo() {
		// The undone Commands are no longer reachable.
		h.commands = slices.Clone(h.commands[:h.commandsIdx+1])
	}
	h.commands = append(h.commands, c)
	h.commandsIdx++
	return o, nil
''', '''	h.undone = nil
	h.done = append(h.done, c)
	return o, nil
'''), (A, '''	if h.commandsIdx < 0 {
		return nil, 0
	}
	if err := h.commands[h.commandsIdx].Undo(h.world); err != nil {
		// We aren't going to validate state of the World. But a problem happened.
		// Clear app, reset commandsIdx, and return the error.
		h.commands = make([]Command, 0)
		h.commandsIdx = -1
		return err, 0
	}
	h.commandsIdx--
	return nil, len(h.commands) - h.commandsIdx - 1
''', '''	if !h.CanUndo() {
		return nil, 0
	}
	c := h.done[len(h.done)-1]
	if err := c.Undo(h.world); err != nil {
		h.done, h.undone = make([]Command, 0), nil
		return err, 0
	}
	h.done = h.done[:len(h.done)-1]
	h.undone = append(h.undone, c)
	return nil, len(h.undone)
'''), (A, '''	if h.commandsIdx >= len(h.commands)-1 {
		return nil, 0
	}
	_, err := h.commands[h.commandsIdx+1].Execute(h.world)
	if err != nil {
		// We aren't going to validate state of the World. But a problem happened.
		// Clear app, reset commandsIdx, and return the error.
		h.commands = make([]Command, 0)
		h.commandsIdx = -1
		return err, 0
	}
	h.commandsIdx++
	return nil, len(h.commands) - h.commandsIdx - 1
''', '''	if !h.CanRedo() {
		return nil, 0
	}
	c := h.undone[len(h.undone)-1]
	if _, err := c.Execute(h.world); err != nil {
		h.done, h.undone = make([]Command, 0), nil
		return err, 0
	}
	h.undone = h.undone[:len(h.undone)-1]
	h.done = append(h.done, c)
	return nil, len(h.undone)
'''), (A, '''	"slices"
''', ''))

rf('renamed-walk',  # the unexported history walk under other names, with its results the other way round
 (A, 'func (h *app) undo() (error, int) {', 'func (h *app) stepBack() (int, error) {'),
 (A, 'func (h *app) redo() (error, int) {', 'func (h *app) stepForward() (int, error) {'),
 (A, '''	h.commandsIdx--
	return nil, len(h.commands) - h.commandsIdx - 1
''', '''	h.commandsIdx--
	return len(h.commands) - h.commandsIdx - 1, nil
'''),
 (A, '''	if h.commandsIdx < 0 {
		return nil, 0
''', '''	if h.commandsIdx < 0 {
		return 0, nil
'''),
 (A, '''	if h.commandsIdx >= len(h.commands)-1 {
		return nil, 0
''', '''	if h.commandsIdx >= len(h.commands)-1 {
		return 0, nil
'''),
 (A, '''	h.commandsIdx++
	return nil, len(h.commands) - h.commandsIdx - 1
''', '''	h.commandsIdx++
	return len(h.commands) - h.commandsIdx - 1, nil
'''),
 (A, ('func (h *app) stepBack', 'func errOrEmpty'), lambda s: s.replace('return err, 0', 'return 0, err')))

rf('cli-writer',
 (CLI, '''		resp := app.Exec(input)
		fmt.Println(resp)
''', '''		out := bufio.NewWriter(os.Stdout)
		defer out.Flush()
		fmt.Fprintln(out, app.Exec(input))
'''), (CLI, '''import (
''', '''import (
	"bufio"
'''), (CLI, '''	"strings"
''', '''	"os"
	"strings"
'''))

rf('dirs-top-down',  # MkdirAll by hand and directories synced in the other order
 (P, '''	for current := dir; ; current = filepath.Dir(current) {
		d, err := os.Open(current)
		if err != nil && current != dir && os.IsPermission(err) {
			return nil // Not readable, so not one that we made.
		}
		if err != nil {
			return err
		}
		err = d.Sync()
		_ = d.Close()
		if err != nil {
			return err
		}
		if current == filepath.Dir(current) {
			return nil
		}
	}
''', '''	var chain []string
	for current := dir; ; current = filepath.Dir(current) {
		chain = append(chain, current)
		if current == filepath.Dir(current) {
			break
		}
	}
	for i := len(chain) - 1; i >= 0; i-- {
		d, err := os.Open(chain[i])
		if err != nil && i > 0 && os.IsPermission(err) {
			continue
		}
		if err != nil {
			return err
		}
		if err := errors.Join(d.Sync(), d.Close()); err != nil {
			return err
		}
	}
	return nil
'''), (P, '''	return errors.New("world name''', '''	return topolith.New("world name'''), (P, 'UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{', 'UseCode(topolith.TopolithErrorInvalid).WithData(topolith.KvPair{'),
 (P, '''	"github.com/williamflynt/topolith/pkg/errors"
''', '''	"errors"
	topolith "github.com/williamflynt/topolith/pkg/errors"
'''))

rf('new-package',  # the file handling in a package of its own, with state
 (P, '''	return writeFile(filePath, []byte(data))
''', '''	return atomicfile.Write(filePath, []byte(data))
'''), (P, ('''// writeFile replaces''', '''// Load loads'''), lambda s: ''), (P, '''	"github.com/williamflynt/topolith/pkg/errors"
''', '''	"github.com/williamflynt/topolith/pkg/atomicfile"
	"github.com/williamflynt/topolith/pkg/errors"
'''), ('pkg/atomicfile/file.go', None, '''// Package atomicfile writes files in one durable step.
package atomicfile

import (
	"os"
	"path/filepath"
	"runtime"
)

// Written counts the files that were written.
var Written int

// names of files that were written, the latest last.
var names []string

// Write replaces the content of a file.
func Write(filePath string, data []byte) error {
	dir := filepath.Dir(filePath)
	tmp, err := os.CreateTemp(dir, "save-*.tmp")
	if err != nil {
		return err
	}
	steps := []func() error{
		func() error { _, err := tmp.Write(data); return err },
		func() error { return tmp.Chmod(0644) },
		tmp.Sync,
	}
	for _, step := range steps {
		if err == nil {
			err = step()
		}
	}
	if closeErr := tmp.Close(); err == nil {
		err = closeErr
	}
	if err == nil {
		err = os.Rename(tmp.Name(), filePath)
	}
	if err != nil {
		_ = os.Remove(tmp.Name())
		return err
	}
	Written++
	names = append(names, filePath)
	if len(names) > 10 {
		names = names[1:]
	}
	return syncDirs(dir)
}

func syncDirs(dir string) error {
	if runtime.GOOS == "windows" {
		return nil
	}
	d, err := os.Open(dir)
	if err != nil {
		return err
	}
	err = d.Sync()
	_ = d.Close()
	if err != nil || dir == filepath.Dir(dir) {
		return err
	}
	err = syncDirs(filepath.Dir(dir))
	if os.IsPermission(err) {
		return nil
	}
	return err
}
'''))

rf('command-table',  # dispatch and helpers in the application
 (A, '''	return fmt.Sprintf("%s\\n$$$$\\n200 ok %s", o, errOrEmpty(err))
''', '''	var b bytes.Buffer
	b.WriteString(o.String())
	for _, part := range []string{"\\n$$$$\\n", "200 ok ", errOrEmpty(err)} {
		b.WriteString(part)
	}
	return b.String()
'''), (A, '''import (
''', '''import (
	"bytes"
'''))

def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, errors='replace', env={**os.environ, **(env or {})})
    return p.returncode, p.stdout + p.stderr

def main():
    want = set(sys.argv[1:])
    props = os.environ.get('PROPS', '').split() or ['C%02d' % i for i in range(1, 25)]
    for id, edits in RF.items():
        if want and id not in want: continue
        t = tempfile.mkdtemp(prefix='refactor-', dir='/tmp')
        try:
            repo, v = t + '/repo', t + '/v'
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            os.mkdir(v)
            subprocess.run(['cp', '-a'] + [f'{V}/{x}' for x in ('build-sim.sh', 'check.sh', 'sim', 'tools', 'known-findings.txt')] + [v], check=True)
            for f in (v + '/build-sim.sh', v + '/sim/go.mod'):
                s = open(f).read(); open(f, 'w').write(s.replace('/repo', repo))
            for f, old, new in edits:
                path = f'{repo}/{f}'
                if old is None:
                    os.makedirs(os.path.dirname(path), exist_ok=True); open(path, 'w').write(new); continue
                s = open(path).read()
                if isinstance(old, tuple):
                    i = s.index(old[0]); j = s.index(old[1], i)
                    s = s[:i] + new(s[i:j]) + s[j:]
                else:
                    assert s.count(old) == 1, (id, f, s.count(old), old)
                    s = s.replace(old, new)
                open(path, 'w').write(s)
            rc, o = sh('gofmt -w pkg cmd; go build ./... && go vet ./pkg/... && go test ./...', repo)
            if rc: print(id, 'DOES NOT BUILD OR PASS', o[-1500:]); continue
            rc, o = sh('./build-sim.sh', v)
            if rc: print(id, 'SIMULATOR DOES NOT BUILD', o[-1500:]); continue
            bad = 0
            for p in props:
                rc, o = sh(f'./check.sh survey {p} {os.environ.get("RUNS", "3000")}', v)
                lines = [l for l in o.splitlines() if l[:7].strip().isdigit()]
                if rc not in (0, 1) or len(lines) != 1 or lines[0].split()[1] != 'run':
                    bad += 1; print(id, p, rc, o[-900:])
            print(id, 'quiet' if not bad else f'{bad} NOT QUIET', flush=True)
        finally:
            shutil.rmtree(t, ignore_errors=True)
main()
