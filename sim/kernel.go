package main

// A simulated kernel: every system call of a simulated process lands here.  The disk is kept twice, as
// running processes see it (page cache, namespace) and as a power failure would leave it (durable data
// plus a journal of namespace operations of which only a prefix is guaranteed).

import (
	"encoding/binary"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

type Errno = syscall.Errno

const fdBase = 1 << 20

// pend is one change of a file's content that is not yet durable.
type pend struct {
	trunc bool
	off   int64 // offset, or new size for trunc
	data  []byte
}

type inode struct {
	ino   int
	dir   bool
	mode  uint32
	mtime int64
	nlink int

	data    []byte // what processes read
	durable []byte // what survives power loss for sure
	pend    []pend
	wtag    int // op that wrote last (diagnostics)

	ents   map[string]int // directories: name -> ino
	order  []dirent       // stable listing order (cookie order)
	cookie int64
	parent int

	lockEx  int // flock owner ofd id, 0 if none
	lockSh  map[int]bool
	lastNs  int // last journal sequence touching this inode
	removed bool
}

type dirent struct {
	name   string
	ino    int
	cookie int64
}

type nsop struct {
	seq      int
	kind     byte // 'l' link name->ino in dir, 'u' unlink
	dir, ino int
	name     string
	dir2     int // rename: 'r' from dir/name to dir2/name2
	name2    string
}

type FS struct {
	inodes  map[int]*inode
	nextIno int
	journal []nsop // uncommitted suffix
	nsSeq   int
	durNS   map[int]map[string]int // committed directory contents
	minSync bool                   // fsync(file) persists data only, never namespace changes
	ownDir  bool                   // fsync(directory) persists its own entries only
	cap     int64                  // capacity in bytes, 0: unlimited
	used    int64
	now     func() int64
	tick    int64

	onMutate func(path string, kind string)
}

// stamp is the time a file is marked with: file systems keep it at the granularity of their timer.
func (fs *FS) stamp() int64 {
	t := fs.now()
	if fs.tick > 1 {
		t -= t % fs.tick
	}
	return t
}

func newFS(now func() int64) *FS {
	fs := &FS{inodes: map[int]*inode{}, durNS: map[int]map[string]int{}, nextIno: 2, now: now}
	fs.inodes[1] = &inode{ino: 1, dir: true, mode: 0755, nlink: 2, ents: map[string]int{}, parent: 1}
	fs.durNS[1] = map[string]int{}
	return fs
}

// ---- namespace primitives ----------------------------------------------------

func (fs *FS) addEnt(d *inode, name string, ino int) {
	if _, ok := d.ents[name]; ok {
		// replace in place: keeps the listing position, as rename over an existing name does
		d.ents[name] = ino
		for i := range d.order {
			if d.order[i].name == name {
				d.order[i].ino = ino
			}
		}
		return
	}
	d.ents[name] = ino
	d.cookie++
	d.order = append(d.order, dirent{name, ino, d.cookie})
}

func (fs *FS) delEnt(d *inode, name string) {
	delete(d.ents, name)
	for i := range d.order {
		if d.order[i].name == name {
			d.order = append(append([]dirent{}, d.order[:i]...), d.order[i+1:]...)
			break
		}
	}
}

func (fs *FS) log(op nsop) {
	fs.nsSeq++
	op.seq = fs.nsSeq
	fs.journal = append(fs.journal, op)
	for _, i := range []int{op.dir, op.ino, op.dir2} {
		if n := fs.inodes[i]; n != nil {
			n.lastNs = op.seq
		}
	}
}

func applyNS(ns map[int]map[string]int, op nsop) {
	get := func(i int) map[string]int {
		m := ns[i]
		if m == nil {
			m = map[string]int{}
			ns[i] = m
		}
		return m
	}
	switch op.kind {
	case 'l':
		get(op.dir)[op.name] = op.ino
	case 'u':
		delete(get(op.dir), op.name)
	case 'r':
		delete(get(op.dir), op.name)
		get(op.dir2)[op.name2] = op.ino
	}
}

func (fs *FS) commit(upto int) {
	i := 0
	for ; i < len(fs.journal) && fs.journal[i].seq <= upto; i++ {
		applyNS(fs.durNS, fs.journal[i])
	}
	fs.journal = append([]nsop{}, fs.journal[i:]...)
}

func applyPend(base []byte, p pend) []byte {
	if p.trunc {
		n := int(p.off)
		if n <= len(base) {
			return append([]byte{}, base[:n]...)
		}
		return append(append([]byte{}, base...), make([]byte, n-len(base))...)
	}
	end := int(p.off) + len(p.data)
	out := append([]byte{}, base...)
	if end > len(out) {
		out = append(out, make([]byte, end-len(out))...)
	}
	copy(out[p.off:], p.data)
	return out
}

func (fs *FS) fsync(n *inode) {
	if n.dir && fs.ownDir {
		var rest []nsop
		for _, op := range fs.journal {
			if op.dir == n.ino || op.kind == 'r' && op.dir2 == n.ino {
				applyNS(fs.durNS, op)
			} else {
				rest = append(rest, op)
			}
		}
		fs.journal = rest
		return
	}
	if n.dir {
		fs.commit(fs.nsSeq)
		return
	}
	for _, p := range n.pend {
		n.durable = applyPend(n.durable, p)
	}
	n.pend = nil
	if !fs.minSync {
		fs.commit(n.lastNs)
	}
}

func (fs *FS) syncAll() {
	for _, i := range fs.inos() {
		if n := fs.inodes[i]; !n.dir {
			fs.fsync(n)
		}
	}
	fs.commit(fs.nsSeq)
}

func (fs *FS) inos() []int {
	var l []int
	for i := range fs.inodes {
		l = append(l, i)
	}
	sort.Ints(l)
	return l
}

// powerLoss turns the disk into one possible durable image, chosen by rnd.
// mode 0: random; 1: nothing that is not guaranteed survives; 2: everything survives.
func (fs *FS) powerLoss(r *Rand, mode int) {
	k := len(fs.journal)
	switch mode {
	case 0:
		switch r.Intn(3) {
		case 0:
			k = 0
		case 1:
			k = r.Intn(len(fs.journal) + 1)
		}
	case 1:
		k = 0
	}
	if k > 0 {
		fs.commit(fs.journal[k-1].seq)
	}
	fs.journal = nil
	for _, i := range fs.inos() {
		n := fs.inodes[i]
		if n.dir {
			continue
		}
		style := r.Intn(6) // per file: all lost, all kept, in-order prefix, random subset, zeros, torn
		if mode == 1 {
			style = 0
		} else if mode == 2 {
			style = 1
		}
		img := n.durable
		cut := 0
		if style == 2 {
			cut = r.Intn(len(n.pend) + 1)
		}
		for j, p := range n.pend {
			switch style {
			case 0:
				continue
			case 1:
				img = applyPend(img, p)
			case 2:
				if j < cut {
					img = applyPend(img, p)
				}
			case 3:
				if r.Intn(2) == 0 {
					img = applyPend(img, p)
				}
			case 4:
				if p.trunc {
					img = applyPend(img, p)
				} else { // size reached the disk, data did not
					img = applyPend(img, pend{off: p.off, data: make([]byte, len(p.data))})
				}
			case 5:
				if p.trunc {
					if r.Intn(2) == 0 {
						img = applyPend(img, p)
					}
				} else if len(p.data) > 0 {
					c := r.Intn(len(p.data))
					if r.Intn(2) == 0 {
						c = c / 512 * 512
					}
					img = applyPend(img, pend{off: p.off, data: p.data[:c]})
				}
			}
		}
		n.data = append([]byte{}, img...)
		n.durable = append([]byte{}, img...)
		n.pend = nil
		n.lockEx, n.lockSh = 0, nil
	}
	// rebuild the visible namespace from the durable one
	for _, i := range fs.inos() {
		if n := fs.inodes[i]; n.dir {
			old := n.order
			n.ents = map[string]int{}
			n.order = nil
			have := fs.durNS[i]
			seen := map[string]bool{}
			add := func(name string) {
				if ino, ok := have[name]; ok && !seen[name] && fs.inodes[ino] != nil {
					seen[name] = true
					fs.addEnt(n, name, ino)
				}
			}
			for _, e := range old {
				add(e.name)
			}
			for _, name := range sortedKeys(have) {
				add(name)
			}
		}
	}
	fs.gc(nil)
}

// gc drops inodes that are neither linked nor open.
func (fs *FS) gc(open map[int]bool) {
	live := map[int]bool{1: true}
	var walk func(i int)
	walk = func(i int) {
		for _, e := range fs.inodes[i].order {
			if !live[e.ino] {
				live[e.ino] = true
				if fs.inodes[e.ino] != nil && fs.inodes[e.ino].dir {
					walk(e.ino)
				}
			}
		}
	}
	walk(1)
	for _, m := range fs.durNS {
		for _, i := range m {
			live[i] = true
		}
	}
	for _, op := range fs.journal {
		live[op.ino] = true
	}
	fs.used = 0
	for _, i := range fs.inos() {
		if !live[i] && !open[i] {
			delete(fs.inodes, i)
			delete(fs.durNS, i)
			continue
		}
		fs.used += int64(len(fs.inodes[i].data))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- paths ---------------------------------------------------------------------

// walk resolves p to (parent directory, last name, inode or nil).
func (fs *FS) walk(p string, at *inode) (dir *inode, name string, n *inode, e Errno) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(p) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	cur := at
	if p[0] == '/' || cur == nil {
		cur = fs.inodes[1]
	}
	trail := strings.HasSuffix(p, "/")
	var parts []string
	for _, s := range strings.Split(p, "/") {
		if s != "" && s != "." {
			parts = append(parts, s)
		}
	}
	if len(parts) == 0 {
		return cur, ".", cur, 0
	}
	for i, s := range parts {
		if !cur.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(s) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		last := i == len(parts)-1
		var nx *inode
		if s == ".." {
			nx = fs.inodes[cur.parent]
		} else if ino, ok := cur.ents[s]; ok {
			nx = fs.inodes[ino]
		}
		if last {
			if nx != nil && trail && !nx.dir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, s, nx, 0
		}
		if nx == nil {
			return nil, "", nil, syscall.ENOENT
		}
		cur = nx
	}
	return nil, "", nil, syscall.ENOENT
}

func (fs *FS) pathOf(n *inode, name string) string {
	var parts []string
	if name != "" && name != "." {
		parts = append(parts, name)
	}
	for cur := n; cur != nil && cur.ino != 1; {
		p := fs.inodes[cur.parent]
		if p == nil {
			break
		}
		found := "?"
		for _, e := range p.order {
			if e.ino == cur.ino {
				found = e.name
			}
		}
		parts = append([]string{found}, parts...)
		cur = p
	}
	return "/" + strings.Join(parts, "/")
}

// filePaths lists the current paths of an inode.
func (fs *FS) filePath(ino int) string {
	for _, i := range fs.inos() {
		if d := fs.inodes[i]; d.dir {
			for _, e := range d.order {
				if e.ino == ino {
					return fs.pathOf(d, e.name)
				}
			}
		}
	}
	return fmt.Sprintf("(unlinked %d)", ino)
}

func (fs *FS) mutated(p, kind string) {
	if fs.onMutate != nil {
		fs.onMutate(p, kind)
	}
}

func (fs *FS) create(d *inode, name string, dir bool, mode uint32) *inode {
	n := &inode{ino: fs.nextIno, dir: dir, mode: mode & 07777, nlink: 1, mtime: fs.stamp(), parent: d.ino}
	fs.nextIno++
	if dir {
		n.ents = map[string]int{}
		n.nlink = 2
		fs.durNS[n.ino] = map[string]int{}
	}
	fs.inodes[n.ino] = n
	fs.addEnt(d, name, n.ino)
	fs.log(nsop{kind: 'l', dir: d.ino, ino: n.ino, name: name})
	fs.mutated(fs.pathOf(d, name), "create")
	return n
}

// ---- harness-side access (no faults, no scheduling) ------------------------------

func (fs *FS) mkdirAll(p string) *inode {
	cur := fs.inodes[1]
	for _, s := range strings.Split(p, "/") {
		if s == "" {
			continue
		}
		if ino, ok := cur.ents[s]; ok {
			cur = fs.inodes[ino]
			continue
		}
		cur = fs.create(cur, s, true, 0755)
	}
	return cur
}

func (fs *FS) put(p string, b []byte) {
	d := fs.mkdirAll(path.Dir(p))
	var n *inode
	if ino, ok := d.ents[path.Base(p)]; ok {
		n = fs.inodes[ino]
	} else {
		n = fs.create(d, path.Base(p), false, 0644)
	}
	fs.used += int64(len(b)) - int64(len(n.data))
	n.data = append([]byte{}, b...)
	n.durable = append([]byte{}, b...)
	n.pend = nil
}

func (fs *FS) get(p string) ([]byte, bool) {
	_, _, n, e := fs.walk(p, nil)
	if e != 0 || n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// tree returns every path (files with content, directories with a trailing slash).
func (fs *FS) tree() map[string]string {
	out := map[string]string{}
	var walk func(n *inode, p string)
	walk = func(n *inode, p string) {
		for _, e := range n.order {
			c := fs.inodes[e.ino]
			if c == nil {
				continue
			}
			if c.dir {
				out[p+e.name+"/"] = ""
				walk(c, p+e.name+"/")
			} else {
				out[p+e.name] = string(c.data)
			}
		}
	}
	walk(fs.inodes[1], "/")
	return out
}

// clone copies the whole disk, so that a power failure can be tried without disturbing the run.
func (fs *FS) clone() *FS {
	c := &FS{inodes: map[int]*inode{}, nextIno: fs.nextIno, nsSeq: fs.nsSeq, durNS: map[int]map[string]int{}, minSync: fs.minSync, ownDir: fs.ownDir, cap: fs.cap, used: fs.used, now: fs.now}
	for i, n := range fs.inodes {
		m := *n
		m.ents = map[string]int{}
		for k, v := range n.ents {
			m.ents[k] = v
		}
		m.order = append([]dirent{}, n.order...)
		m.pend = append([]pend{}, n.pend...)
		m.data = append([]byte{}, n.data...)
		m.lockEx, m.lockSh = 0, nil
		c.inodes[i] = &m
	}
	for i, d := range fs.durNS {
		m := map[string]int{}
		for k, v := range d {
			m[k] = v
		}
		c.durNS[i] = m
	}
	c.journal = append([]nsop{}, fs.journal...)
	return c
}

// ---- open files --------------------------------------------------------------------

type ofd struct {
	id    int
	n     *inode
	off   int64
	flags int
	refs  int
	dirAt int64
	dot   int
	path  string
}

const (
	sysGetdents64 = 217
	sysStatx      = 332
)

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	var b []byte
	for i := 0; i < 1<<16; i++ {
		c := *(*byte)(unsafe.Add(unsafe.Pointer(nil), p+uintptr(i)))
		if c == 0 {
			break
		}
		b = append(b, c)
	}
	return string(b)
}

func mem(p uintptr, n int) []byte {
	if n <= 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Add(unsafe.Pointer(nil), p)), n)
}

var sysNames = map[uintptr]string{0: "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "lstat", 8: "lseek", 16: "ioctl",
	17: "pread", 18: "pwrite", 20: "writev", 32: "dup", 39: "getpid", 40: "sendfile", 72: "fcntl", 73: "flock", 74: "fsync", 75: "fdatasync", 76: "truncate",
	77: "ftruncate", 79: "getcwd", 82: "rename", 83: "mkdir", 84: "rmdir", 85: "creat", 86: "link", 87: "unlink", 90: "chmod", 91: "fchmod", 95: "umask", 162: "sync",
	217: "getdents", 257: "openat", 258: "mkdirat", 260: "fchownat", 262: "fstatat", 263: "unlinkat", 264: "renameat", 265: "linkat", 267: "readlinkat",
	268: "fchmodat", 269: "faccessat", 275: "splice", 277: "sync_file_range", 280: "utimensat", 285: "fallocate", 292: "dup3", 306: "syncfs", 316: "renameat2", 318: "getrandom", 326: "copy_file_range",
	332: "statx", 439: "faccessat2", 93: "fchown", 94: "lchown", 92: "chown", 21: "access", 35: "nanosleep", 24: "sched_yield", 230: "clock_nanosleep", 266: "symlinkat", 88: "symlink", 201: "time", 228: "clock_gettime", 13: "rt_sigaction", 14: "rt_sigprocmask", 102: "getuid", 104: "getgid", 107: "geteuid", 108: "getegid", 110: "getppid", 9: "mmap", 11: "munmap", 133: "mknod", 259: "mknodat", 137: "statfs", 138: "fstatfs", 19: "readv", 295: "preadv", 296: "pwritev", 452: "fchmodat2", 98: "getrusage", 97: "getrlimit", 302: "prlimit", 63: "uname", 203: "sched_setaffinity", 187: "readahead", 221: "fadvise"}

func sysName(nr uintptr) string {
	if s, ok := sysNames[nr]; ok {
		return s
	}
	return fmt.Sprintf("sys_%d", nr)
}

// sys executes one system call of process p.  Faults have already been decided by the caller;
// short >= 0 limits the bytes a read/write may transfer.
func (p *Proc) sys(nr, a1, a2, a3, a4, a5, a6 uintptr, short int) (r uintptr, e Errno) {
	k := p.sim
	fs := k.fs
	atDir := func(fd uintptr) (*inode, Errno) {
		if int32(fd) == -100 {
			return p.cwd, 0
		}
		o := p.fds[int(fd)]
		if o == nil {
			return nil, syscall.EBADF
		}
		if !o.n.dir {
			return nil, syscall.ENOTDIR
		}
		return o.n, 0
	}
	walkAt := func(fd uintptr, ps string) (d *inode, name string, n *inode, e Errno) {
		if ps == "" {
			return nil, "", nil, syscall.ENOENT
		}
		at := p.cwd
		if ps[0] != '/' {
			var e Errno
			if at, e = atDir(fd); e != 0 {
				return nil, "", nil, e
			}
		}
		return fs.walk(ps, at)
	}
	const cwdFD = ^uintptr(99)
	switch nr {
	case 2: // open
		return p.open(cwdFD, cstr(a1), int(a2), uint32(a3), walkAt)
	case 85: // creat
		return p.open(cwdFD, cstr(a1), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a2), walkAt)
	case 257:
		return p.open(a1, cstr(a2), int(a3), uint32(a4), walkAt)
	case 3:
		return 0, p.closeFD(int(a1))
	case 0, 17:
		o := p.fds[int(a1)]
		if o == nil {
			if a1 == 0 {
				return 0, 0
			}
			return 0, syscall.EBADF
		}
		if o.n.dir {
			return 0, syscall.EISDIR
		}
		if o.flags&3 == syscall.O_WRONLY {
			return 0, syscall.EBADF
		}
		off := o.off
		if nr == 17 {
			off = int64(a4)
		}
		n := int(a3)
		if short >= 0 && n > short {
			n = short
		}
		if off >= int64(len(o.n.data)) {
			return 0, 0
		}
		if int64(n) > int64(len(o.n.data))-off {
			n = int(int64(len(o.n.data)) - off)
		}
		copy(mem(a2, n), o.n.data[off:])
		if nr == 0 {
			o.off += int64(n)
		}
		return uintptr(n), 0
	case 1, 18:
		if (a1 == 1 || a1 == 2) && nr == 1 {
			n := int(a3)
			if short >= 0 && n > short {
				n = short
			}
			k.stdout(p, mem(a2, n))
			return uintptr(n), 0
		}
		o := p.fds[int(a1)]
		if o == nil {
			return 0, syscall.EBADF
		}
		if o.flags&3 == syscall.O_RDONLY {
			return 0, syscall.EBADF
		}
		off := o.off
		if nr == 18 {
			off = int64(a4)
		}
		if o.flags&syscall.O_APPEND != 0 {
			off = int64(len(o.n.data))
		}
		n := int(a3)
		if short >= 0 && n > short {
			n = short
		}
		if fs.cap > 0 {
			grow := off + int64(n) - int64(len(o.n.data))
			if grow > 0 && fs.used+grow > fs.cap {
				room := fs.cap - fs.used
				k.stat("disk_full")
				if room <= 0 {
					return 0, syscall.ENOSPC
				}
				n = int(int64(n) - (grow - room))
				if n <= 0 {
					return 0, syscall.ENOSPC
				}
			}
		}
		b := append([]byte{}, mem(a2, n)...)
		p.fileWrite(o, off, b)
		if nr == 1 {
			o.off = off + int64(n)
		}
		if o.flags&(syscall.O_SYNC|syscall.O_DSYNC) != 0 {
			fs.fsync(o.n)
		}
		return uintptr(n), 0
	case 20: // writev
		var tot uintptr
		for i := uintptr(0); i < a3; i++ {
			iov := mem(a2+16*i, 16)
			base := uintptr(binary.LittleEndian.Uint64(iov))
			l := uintptr(binary.LittleEndian.Uint64(iov[8:]))
			r, e := p.sys(1, a1, base, l, 0, 0, 0, -1)
			if e != 0 {
				if tot > 0 {
					return tot, 0
				}
				return 0, e
			}
			tot += r
			if r < l {
				break
			}
		}
		return tot, 0
	case 8:
		o := p.fds[int(a1)]
		if o == nil {
			return 0, syscall.EBADF
		}
		switch a3 {
		case 0:
			o.off = int64(a2)
			if o.n.dir {
				o.dirAt, o.dot = int64(a2), 0
			}
		case 1:
			o.off += int64(a2)
		case 2:
			o.off = int64(len(o.n.data)) + int64(a2)
		default:
			return 0, syscall.EINVAL
		}
		return uintptr(o.off), 0
	case 5:
		o := p.fds[int(a1)]
		if o == nil {
			if a1 <= 2 {
				p.fillStat(a2, nil)
				return 0, 0
			}
			return 0, syscall.EBADF
		}
		p.fillStat(a2, o.n)
		return 0, 0
	case 4, 6:
		_, _, n, e := walkAt(cwdFD, cstr(a1))
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		p.fillStat(a2, n)
		return 0, 0
	case 262:
		ps := cstr(a2)
		if ps == "" && a4&0x1000 != 0 {
			return p.sys(5, a1, a3, 0, 0, 0, 0, -1)
		}
		_, _, n, e := walkAt(a1, ps)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		p.fillStat(a3, n)
		return 0, 0
	case 332:
		return 0, syscall.ENOSYS
	case 21, 269, 439:
		ps, fd := cstr(a2), a1
		if nr == 21 {
			ps, fd = cstr(a1), cwdFD
		}
		_, _, n, e := walkAt(fd, ps)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		return 0, e
	case 83, 258:
		ps, fd, mode := cstr(a2), a1, a3
		if nr == 83 {
			ps, fd, mode = cstr(a1), cwdFD, a2
		}
		d, name, n, e := walkAt(fd, ps)
		if e != 0 {
			return 0, e
		}
		if n != nil {
			return 0, syscall.EEXIST
		}
		if !d.dir {
			return 0, syscall.ENOTDIR
		}
		fs.create(d, name, true, uint32(mode)&^022)
		return 0, 0
	case 87, 263, 84:
		ps, fd, rm := cstr(a2), a1, a3&0x200 != 0
		if nr != 263 {
			ps, fd, rm = cstr(a1), cwdFD, nr == 84
		}
		d, name, n, e := walkAt(fd, ps)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if rm {
			if !n.dir {
				return 0, syscall.ENOTDIR
			}
			if len(n.ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
			if n.ino == 1 {
				return 0, syscall.EBUSY
			}
		} else if n.dir {
			return 0, syscall.EISDIR
		}
		fs.mutated(fs.pathOf(d, name), "unlink")
		fs.delEnt(d, name)
		fs.log(nsop{kind: 'u', dir: d.ino, ino: n.ino, name: name})
		n.nlink--
		fs.maybeFree(n, k)
		return 0, 0
	case 82, 264, 316:
		ofd, op, nfd, np, fl := a1, cstr(a2), a3, cstr(a4), a5
		if nr == 82 {
			ofd, op, nfd, np = cwdFD, cstr(a1), cwdFD, cstr(a2)
		}
		if nr != 316 {
			fl = 0
		}
		d1, n1, i1, e := walkAt(ofd, op)
		if e != 0 {
			return 0, e
		}
		if i1 == nil {
			return 0, syscall.ENOENT
		}
		d2, n2, i2, e := walkAt(nfd, np)
		if e != 0 {
			return 0, e
		}
		if !d2.dir {
			return 0, syscall.ENOTDIR
		}
		if fl&1 != 0 && i2 != nil {
			return 0, syscall.EEXIST
		}
		if fl&^1 != 0 {
			return 0, syscall.EINVAL
		}
		if i1 == i2 {
			return 0, 0
		}
		if i2 != nil {
			if i2.dir && !i1.dir {
				return 0, syscall.EISDIR
			}
			if !i2.dir && i1.dir {
				return 0, syscall.ENOTDIR
			}
			if i2.dir && len(i2.ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		}
		fs.mutated(fs.pathOf(d1, n1), "rename-from")
		fs.mutated(fs.pathOf(d2, n2), "rename-to")
		fs.delEnt(d1, n1)
		fs.addEnt(d2, n2, i1.ino)
		i1.parent = d2.ino
		fs.log(nsop{kind: 'r', dir: d1.ino, ino: i1.ino, name: n1, dir2: d2.ino, name2: n2})
		if i2 != nil {
			i2.nlink--
			fs.maybeFree(i2, k)
		}
		return 0, 0
	case 86, 265:
		ofd, op, nfd, np := a1, cstr(a2), a3, cstr(a4)
		if nr == 86 {
			ofd, op, nfd, np = cwdFD, cstr(a1), cwdFD, cstr(a2)
		}
		_, _, i1, e := walkAt(ofd, op)
		if e != 0 {
			return 0, e
		}
		if i1 == nil {
			return 0, syscall.ENOENT
		}
		if i1.dir {
			return 0, syscall.EPERM
		}
		d2, n2, i2, e := walkAt(nfd, np)
		if e != 0 {
			return 0, e
		}
		if i2 != nil {
			return 0, syscall.EEXIST
		}
		fs.addEnt(d2, n2, i1.ino)
		i1.nlink++
		fs.log(nsop{kind: 'l', dir: d2.ino, ino: i1.ino, name: n2})
		fs.mutated(fs.pathOf(d2, n2), "link")
		return 0, 0
	case 88, 266:
		return 0, syscall.EPERM
	case 89, 267:
		ps, fd := cstr(a2), a1
		if nr == 89 {
			ps, fd = cstr(a1), cwdFD
		}
		_, _, n, e := walkAt(fd, ps)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		return 0, syscall.EINVAL
	case 74, 75:
		o := p.fds[int(a1)]
		if o == nil {
			if a1 <= 2 {
				return 0, syscall.EINVAL
			}
			return 0, syscall.EBADF
		}
		fs.fsync(o.n)
		return 0, 0
	case 162:
		fs.syncAll()
		return 0, 0
	case 306:
		fs.syncAll()
		return 0, 0
	case 277, 187, 221:
		return 0, 0
	case 285: // fallocate
		return 0, syscall.EOPNOTSUPP
	case 77:
		o := p.fds[int(a1)]
		if o == nil {
			return 0, syscall.EBADF
		}
		p.truncate(o.n, int64(a2), o.path)
		return 0, 0
	case 76:
		_, _, n, e := walkAt(cwdFD, cstr(a1))
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if n.dir {
			return 0, syscall.EISDIR
		}
		p.truncate(n, int64(a2), cstr(a1))
		return 0, 0
	case 217:
		return p.getdents(int(a1), a2, int(a3))
	case 72:
		o := p.fds[int(a1)]
		if o == nil {
			if a1 <= 2 {
				return 0, 0
			}
			return 0, syscall.EBADF
		}
		switch a2 {
		case 1, 2, 4: // F_GETFD F_SETFD F_SETFL
			return 0, 0
		case 3:
			return uintptr(o.flags), 0
		case 0, 1030: // F_DUPFD(_CLOEXEC)
			return uintptr(p.newFD(o)), 0
		case 6, 7, 37, 38: // F_SETLK(W), F_OFD_SETLK(W)
			typ := *(*int16)(unsafe.Add(unsafe.Pointer(nil), a3))
			switch typ {
			case 2:
				k.unlock(o)
				return 0, 0
			default:
				if !k.tryLock(o, typ == 1) {
					return 0, syscall.EAGAIN
				}
				return 0, 0
			}
		case 5, 36:
			*(*int16)(unsafe.Add(unsafe.Pointer(nil), a3)) = 2
			return 0, 0
		}
		return 0, syscall.EINVAL
	case 73:
		o := p.fds[int(a1)]
		if o == nil {
			return 0, syscall.EBADF
		}
		if a2&8 != 0 {
			k.unlock(o)
			return 0, 0
		}
		if !k.tryLock(o, a2&2 != 0) {
			return 0, syscall.EWOULDBLOCK
		}
		return 0, 0
	case 91, 93:
		if p.fds[int(a1)] == nil {
			return 0, syscall.EBADF
		}
		if nr == 91 {
			p.fds[int(a1)].n.mode = uint32(a2) & 07777
		}
		return 0, 0
	case 90, 268, 452, 92, 94, 260:
		ps, fd, mode := cstr(a2), a1, a3
		if nr == 90 || nr == 92 || nr == 94 {
			ps, fd, mode = cstr(a1), cwdFD, a2
		}
		_, _, n, e := walkAt(fd, ps)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if nr == 90 || nr == 268 || nr == 452 {
			n.mode = uint32(mode) & 07777
		}
		return 0, 0
	case 280:
		return 0, 0
	case 79:
		s := fs.pathOf(p.cwd, "") + "\x00"
		if int(a2) < len(s) {
			return 0, syscall.ERANGE
		}
		copy(mem(a1, len(s)), s)
		return uintptr(len(s)), 0
	case 32, 292:
		o := p.fds[int(a1)]
		if o == nil {
			return 0, syscall.EBADF
		}
		return uintptr(p.newFD(o)), 0
	case 16:
		return 0, syscall.ENOTTY
	case 39:
		if p.sim.plan.Threads && p.id < 90 {
			return uintptr(1000 + p.sim.tgen), 0
		}
		return uintptr(1000 + p.id*100 + p.gen), 0
	case 110:
		return 1, 0
	case 102, 104, 107, 108:
		return 0, 0
	case 95:
		return 022, 0
	case 9, 40, 275, 326:
		if nr == 9 {
			return 0, syscall.ENODEV
		}
		return 0, syscall.ENOSYS
	case 318:
		r := newRand(k.plan.Seed ^ uint64(k.step)*77)
		b := mem(a1, int(a2))
		for i := range b {
			b[i] = byte(r.next())
		}
		return a2, 0
	case 35, 230, 24:
		return 0, 0
	case 133, 259:
		return 0, syscall.EPERM
	case 137, 138, 98, 97, 302, 63:
		return 0, syscall.ENOSYS
	}
	k.harnessError(fmt.Sprintf("unmodelled system call %d (%s)", nr, sysName(nr)))
	return 0, syscall.ENOSYS
}

func (p *Proc) open(dirfd uintptr, ps string, flags int, mode uint32, walkAt func(uintptr, string) (*inode, string, *inode, Errno)) (uintptr, Errno) {
	fs := p.sim.fs
	if ps == "/dev/null" {
		_, _, n, _ := fs.walk("/dev/null", nil)
		if n == nil {
			fs.mkdirAll("/dev")
			fs.put("/dev/null", nil)
		}
	}
	if flags&0x410000 == 0x410000 { // O_TMPFILE
		return 0, syscall.EOPNOTSUPP
	}
	d, name, n, e := walkAt(dirfd, ps)
	if e != 0 {
		return 0, e
	}
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return 0, syscall.ENOENT
		}
		if strings.HasSuffix(ps, "/") {
			return 0, syscall.EISDIR
		}
		if fs.cap > 0 && fs.used >= fs.cap+4096 {
			p.sim.stat("disk_full")
			return 0, syscall.ENOSPC
		}
		n = fs.create(d, name, false, mode&^022)
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return 0, syscall.EEXIST
		}
		if n.dir && flags&3 != syscall.O_RDONLY {
			return 0, syscall.EISDIR
		}
		if !n.dir && flags&syscall.O_DIRECTORY != 0 {
			return 0, syscall.ENOTDIR
		}
		if !n.dir && flags&syscall.O_TRUNC != 0 && flags&3 != syscall.O_RDONLY {
			p.truncate(n, 0, fs.pathOf(d, name))
		}
	}
	p.sim.nextOfd++
	o := &ofd{id: p.sim.nextOfd, n: n, flags: flags, path: fs.pathOf(d, name)}
	return uintptr(p.newFD(o)), 0
}

func (p *Proc) newFD(o *ofd) int {
	o.refs++
	p.nextFD++
	fd := fdBase + p.id*10000 + p.nextFD
	p.fds[fd] = o
	return fd
}

func (p *Proc) closeFD(fd int) Errno {
	o := p.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	delete(p.fds, fd)
	o.refs--
	if o.refs == 0 {
		p.sim.unlock(o)
		p.sim.fs.maybeFree(o.n, p.sim)
	}
	return 0
}

func (fs *FS) maybeFree(n *inode, k *Sim) {
	if n.dir || n.nlink > 0 {
		return
	}
	for _, p := range k.procs {
		for _, o := range p.fds {
			if o.n == n {
				return
			}
		}
	}
	if !n.removed {
		n.removed = true
		fs.used -= int64(len(n.data))
	}
}

func (p *Proc) fileWrite(o *ofd, off int64, b []byte) {
	n := o.n
	end := int(off) + len(b)
	if end > len(n.data) {
		p.sim.fs.used += int64(end - len(n.data))
		n.data = append(n.data, make([]byte, end-len(n.data))...)
	}
	copy(n.data[off:], b)
	n.pend = append(n.pend, pend{off: off, data: b})
	n.mtime = p.sim.fs.stamp()
	p.sim.fs.mutated(o.path, "write")
}

func (p *Proc) truncate(n *inode, sz int64, path string) {
	fs := p.sim.fs
	fs.used += sz - int64(len(n.data))
	if sz <= int64(len(n.data)) {
		n.data = append([]byte{}, n.data[:sz]...)
	} else {
		n.data = append(n.data, make([]byte, sz-int64(len(n.data)))...)
	}
	n.pend = append(n.pend, pend{trunc: true, off: sz})
	n.mtime = fs.stamp()
	fs.mutated(path, "truncate")
}

func (p *Proc) fillStat(at uintptr, n *inode) {
	st := (*syscall.Stat_t)(unsafe.Add(unsafe.Pointer(nil), at))
	*st = syscall.Stat_t{}
	st.Dev, st.Blksize = 1, 4096
	if n == nil { // standard streams: a pipe
		st.Mode = syscall.S_IFIFO | 0600
		return
	}
	st.Ino, st.Nlink = uint64(n.ino), uint64(n.nlink)
	st.Mode = n.mode
	if n.dir {
		st.Mode |= syscall.S_IFDIR
	} else {
		st.Mode |= syscall.S_IFREG
		st.Size = int64(len(n.data))
		st.Blocks = (st.Size + 511) / 512
	}
	st.Mtim.Sec, st.Mtim.Nsec = n.mtime/1e9, n.mtime%1e9
}

func (p *Proc) getdents(fd int, buf uintptr, size int) (uintptr, Errno) {
	o := p.fds[fd]
	if o == nil {
		return 0, syscall.EBADF
	}
	if !o.n.dir {
		return 0, syscall.ENOTDIR
	}
	// A small batch per call, so that other processes can act between the batches of one listing.
	if p.sim.plan.DirBatch > 0 && size > p.sim.plan.DirBatch {
		size = p.sim.plan.DirBatch
	}
	out := mem(buf, size)
	w := 0
	put := func(ino int, name string, typ byte, cookie int64) bool {
		l := (19 + len(name) + 1 + 7) &^ 7
		if w+l > len(out) {
			return false
		}
		b := out[w : w+l]
		for i := range b {
			b[i] = 0
		}
		binary.LittleEndian.PutUint64(b, uint64(ino))
		binary.LittleEndian.PutUint64(b[8:], uint64(cookie))
		binary.LittleEndian.PutUint16(b[16:], uint16(l))
		b[18] = typ
		copy(b[19:], name)
		w += l
		return true
	}
	for o.dot < 2 && o.dirAt == 0 {
		if !put(o.n.ino, []string{".", ".."}[o.dot], 4, 0) {
			return uintptr(w), 0
		}
		o.dot++
	}
	for _, e := range o.n.order {
		if e.cookie <= o.dirAt {
			continue
		}
		c := p.sim.fs.inodes[e.ino]
		typ := byte(8)
		if c != nil && c.dir {
			typ = 4
		}
		if p.sim.plan.DtUnknown {
			typ = 0
		}
		if !put(e.ino, e.name, typ, e.cookie) {
			break
		}
		o.dirAt = e.cookie
	}
	return uintptr(w), 0
}

// ---- advisory locks --------------------------------------------------------------

func (k *Sim) tryLock(o *ofd, ex bool) bool {
	n := o.n
	if n.lockSh == nil {
		n.lockSh = map[int]bool{}
	}
	if n.lockEx != 0 && n.lockEx != o.id {
		return false
	}
	if ex {
		for id := range n.lockSh {
			if id != o.id {
				return false
			}
		}
		n.lockSh = map[int]bool{}
		n.lockEx = o.id
		return true
	}
	n.lockEx = 0
	n.lockSh[o.id] = true
	return true
}

func (k *Sim) unlock(o *ofd) {
	if o.n.lockEx == o.id {
		o.n.lockEx = 0
	}
	delete(o.n.lockSh, o.id)
}

// wouldBlock reports whether the pending call is a blocking lock that cannot be granted now.
func (p *Proc) wouldBlock(nr, a1, a2, a3 uintptr) bool {
	o := p.fds[int(a1)]
	if o == nil {
		return false
	}
	free := func(ex bool) bool {
		if o.n.lockEx != 0 && o.n.lockEx != o.id {
			return false
		}
		if ex {
			for id := range o.n.lockSh {
				if id != o.id {
					return false
				}
			}
		}
		return true
	}
	switch {
	case nr == 73 && a2&4 == 0 && a2&8 == 0:
		return !free(a2&2 != 0)
	case nr == 72 && (a2 == 7 || a2 == 38):
		typ := *(*int16)(unsafe.Add(unsafe.Pointer(nil), a3))
		return typ != 2 && !free(typ == 1)
	}
	return false
}
