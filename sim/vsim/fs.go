package vsim

import (
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Access is one recorded file system operation of the simulated process.
type Access struct {
	Op   string // open-r, open-w, read, write, close, stat, readdir, remove, rename, mkdir, truncate
	Path string
	Err  string
	Task int
	Step int
	N    int
}

type inode struct {
	data    []byte
	durable int // prefix known to be on stable storage
	synced  []byte
	dir     bool
	mtime   int64
	unlink  bool
}

// FS is a simulated disk. It outlives simulated processes.
type FS struct {
	Cwd      string
	Root     string // of the simulated process, "" for /
	Uid, Gid int    // of the simulated process
	nodes    map[string]*inode
	handles  map[int]string
	nextH    int
	Capacity int64 // -1: unlimited
	Acc      []Access
}

func NewFS() *FS {
	f := &FS{Cwd: "/work", nodes: map[string]*inode{}, handles: map[int]string{}, Capacity: -1}
	f.nodes["/"] = &inode{dir: true}
	f.nodes["/work"] = &inode{dir: true}
	f.nodes["/tmp"] = &inode{dir: true}
	return f
}

func (f *FS) Abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return path.Clean(p)
}

// at is the path of a name as the simulated process sees it.
func (f *FS) at(p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(f.Root + path.Clean(p))
	}
	if f.Root == "" {
		return f.Abs(p)
	}
	q := f.Cwd
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if q != f.Root {
				q = path.Dir(q)
			}
		default:
			q = path.Join(q, s)
		}
	}
	return q
}

// Put stores a file (creating parent directories), as if written and synced earlier.
func (f *FS) Put(p string, data []byte) {
	p = f.Abs(p)
	for d := path.Dir(p); ; d = path.Dir(d) {
		if f.nodes[d] == nil {
			f.nodes[d] = &inode{dir: true}
		}
		if d == "/" {
			break
		}
	}
	c := append([]byte(nil), data...)
	f.nodes[p] = &inode{data: c, durable: len(c), synced: c}
}

func (f *FS) Get(p string) ([]byte, bool) {
	n := f.nodes[f.Abs(p)]
	if n == nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

func (f *FS) Del(p string) { delete(f.nodes, f.Abs(p)) }

// List returns all file paths below the working directory and elsewhere.
func (f *FS) List() []string {
	var out []string
	for p, n := range f.nodes {
		if !n.dir {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (f *FS) Clone() *FS {
	g := NewFS()
	g.Cwd = f.Cwd
	for p, n := range f.nodes {
		g.nodes[p] = &inode{data: append([]byte(nil), n.data...), durable: len(n.data), dir: n.dir, mtime: n.mtime}
		g.nodes[p].synced = g.nodes[p].data
	}
	return g
}

func (f *FS) used() int64 {
	u := int64(0)
	for _, n := range f.nodes {
		u += int64(len(n.data))
	}
	return u
}

func (f *FS) handleNames() []string {
	var ids []int
	for id := range f.handles {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var out []string
	for _, id := range ids {
		out = append(out, f.handles[id])
	}
	return out
}

// PowerLoss discards, per file, a seed-chosen part of the data that was never synced.
func (f *FS) PowerLoss(seed uint64) {
	r := rng{seed}
	for _, p := range f.List() {
		n := f.nodes[p]
		if n.durable >= len(n.data) && len(n.synced) == n.durable {
			continue
		}
		switch r.intn(4) {
		case 0: // everything reached the disk
		case 1: // nothing after the last sync did
			n.data = append([]byte(nil), n.synced...)
		case 2: // a prefix did
			k := n.durable + r.intn(len(n.data)-n.durable+1)
			n.data = n.data[:k]
		case 3: // length reached the disk, a hole of zeros did not
			k := n.durable + r.intn(len(n.data)-n.durable+1)
			for i := k; i < len(n.data) && i < k+512; i++ {
				n.data[i] = 0
			}
		}
		n.durable = len(n.data)
		n.synced = append([]byte(nil), n.data...)
	}
}

func (k *Kernel) acc(t *task, op, p string, e syscall.Errno, n int) {
	es := ""
	if e != 0 {
		es = e.Error()
	}
	k.cfg.FS.Acc = append(k.cfg.FS.Acc, Access{op, p, es, t.id, k.step, n})
	if k.cfg.KeepLog {
		t.what = op + " " + p + " " + es
	}
}

// fault draws or replays a fault for this operation.
func (k *Kernel) fault(op, p string, kinds ...string) (string, int64) {
	key := op + "\x00" + p
	n := k.opCount[key]
	k.opCount[key] = n + 1
	for _, f := range k.faultIdx[key] {
		if f.N == n {
			k.res.Faults = append(k.res.Faults, f)
			return f.Kind, f.Arg
		}
	}
	if k.cfg.Fixed {
		return "", 0
	}
	pl := k.cfg.Plan
	if pl == nil || (pl.Prefix != "" && !strings.HasPrefix(p, pl.Prefix)) {
		return "", 0
	}
	for _, kind := range kinds {
		pr := pl.Kinds[kind]
		if pr == 0 {
			continue
		}
		if !benign(kind) && k.hardN >= pl.Max {
			continue
		}
		if k.rng.float() < pr {
			if !benign(kind) {
				k.hardN++
			}
			arg := int64(k.rng.next() >> 34)
			k.res.Faults = append(k.res.Faults, Fault{p, op, n, kind, arg})
			return kind, arg
		}
	}
	return "", 0
}

func errnoOf(kind string) syscall.Errno {
	switch {
	case strings.HasSuffix(kind, "-eio"):
		return syscall.EIO
	case strings.HasSuffix(kind, "-emfile"):
		return syscall.EMFILE
	case strings.HasSuffix(kind, "-eacces"):
		return syscall.EACCES
	case strings.HasSuffix(kind, "-enoent"):
		return syscall.ENOENT
	case strings.HasSuffix(kind, "-enospc"):
		return syscall.ENOSPC
	}
	return syscall.EIO
}

// File replaces os.File.
type File struct {
	name   string
	abs    string
	n      *inode
	off    int64
	flag   int
	h      int
	closed bool
	std    int
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
	Args   = []string{"nightlight"}
)

func perr(op, p string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return &os.PathError{Op: op, Path: p, Err: e}
}

func needSim() {
	if theK == nil {
		panic("vsim: file operation outside a simulation")
	}
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	needSim()
	if dead() {
		return nil, perr("open", name, syscall.EIO)
	}
	var e syscall.Errno
	f := &File{name: name, flag: flag}
	call(opFS, func(t *task) bool {
		k := theK
		d := k.cfg.FS
		f.abs = d.at(name)
		op := "open-r"
		if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
			op = "open-w"
		}
		var kind string
		if op == "open-r" {
			kind, _ = k.fault(op, f.abs, "crash", "open-eio", "open-emfile", "open-enoent", "open-eacces")
		} else {
			kind, _ = k.fault(op, f.abs, "crash", "create-eacces", "create-enospc", "create-emfile")
		}
		if kind == "crash" {
			k.crashNow = true
			return true
		}
		if kind != "" {
			e = errnoOf(kind)
			k.acc(t, op, f.abs, e, 0)
			return true
		}
		n := d.nodes[f.abs]
		if n == nil {
			if flag&os.O_CREATE == 0 {
				e = syscall.ENOENT
			} else if pd := d.nodes[path.Dir(f.abs)]; pd == nil {
				e = syscall.ENOENT
			} else if !pd.dir {
				e = syscall.ENOTDIR
			} else {
				n = &inode{mtime: k.now}
				d.nodes[f.abs] = n
			}
		} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			e = syscall.EEXIST
		} else if n.dir && op == "open-w" {
			e = syscall.EISDIR
		} else if flag&os.O_TRUNC != 0 {
			n.data, n.durable = nil, 0
		}
		k.acc(t, op, f.abs, e, flag)
		if e == 0 {
			f.n = n
			d.nextH++
			f.h = d.nextH
			d.handles[f.h] = f.abs
		}
		return true
	})
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return f, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.h) }

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if dead() || f.std != 0 {
		return 0, io.EOF
	}
	n, e := f.readAt(p, f.off, "read")
	f.off += int64(n)
	if e != nil {
		return n, e
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) readAt(p []byte, off int64, op string) (int, error) {
	var e syscall.Errno
	n := 0
	closed := false
	call(opFS, func(t *task) bool {
		k := theK
		if f.closed {
			closed = true
			return true
		}
		kind, arg := k.fault("read", f.abs, "crash", "read-eio", "read-short")
		switch {
		case kind == "crash":
			k.crashNow = true
			return true
		case kind == "read-eio":
			e = syscall.EIO
		case f.n.dir:
			e = syscall.EISDIR
		case f.flag&3 == os.O_WRONLY:
			e = syscall.EBADF
		default:
			if off < int64(len(f.n.data)) {
				q := p
				if kind == "read-short" && len(q) > 1 {
					q = q[:1+int(arg%int64(len(q)-1))]
				}
				n = copy(q, f.n.data[off:])
			}
		}
		if e != 0 {
			k.acc(t, "read", f.abs, e, n)
		}
		return true
	})
	if closed {
		return 0, &os.PathError{Op: "read", Path: f.name, Err: os.ErrClosed}
	}
	return n, perr("read", f.name, e)
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	tot := 0
	for tot < len(p) {
		n, e := f.readAt(p[tot:], off+int64(tot), "read")
		tot += n
		if e != nil {
			return tot, e
		}
		if n == 0 {
			return tot, io.EOF
		}
	}
	return tot, nil
}

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if dead() {
		return 0, os.ErrClosed
	}
	if f.std != 0 {
		if theK == nil {
			return len(p), nil
		}
		call(opLog, func(t *task) bool { theK.res.Stdout = append(theK.res.Stdout, p...); return true })
		return len(p), nil
	}
	var e syscall.Errno
	n := 0
	closed := false
	call(opFS, func(t *task) bool {
		k := theK
		if f.closed {
			closed = true
			return true
		}
		kind, arg := k.fault("write", f.abs, "crash", "write-eio", "write-enospc", "write-crash-torn")
		want := len(p)
		if f.flag&3 == os.O_RDONLY {
			e = syscall.EBADF
			return true
		}
		switch kind {
		case "crash":
			k.crashNow = true
			return true
		case "write-eio", "write-enospc":
			e = errnoOf(kind)
			want = int(arg % int64(len(p)+1))
			if want == len(p) {
				want = 0
			}
		case "write-crash-torn":
			want = int(arg % int64(len(p)+1))
		}
		if f.flag&os.O_APPEND != 0 {
			f.off = int64(len(f.n.data))
		}
		if d := k.cfg.FS; d.Capacity >= 0 {
			grow := f.off + int64(want) - int64(len(f.n.data))
			if free := d.Capacity - d.used(); grow > 0 && grow > free {
				e = syscall.ENOSPC
				cut := grow - free
				if free < 0 {
					cut = grow
				}
				want -= int(cut)
				if want < 0 {
					want = 0
				}
			}
		}
		end := f.off + int64(want)
		if end > int64(len(f.n.data)) {
			nd := f.n.data
			if int64(cap(nd)) < end {
				nd = make([]byte, len(f.n.data), end+end/2)
				copy(nd, f.n.data)
			}
			old := len(nd)
			nd = nd[:end]
			for i := old; i < int(f.off) && i < len(nd); i++ {
				nd[i] = 0
			}
			f.n.data = nd
		}
		copy(f.n.data[f.off:end], p[:want])
		if int(f.off) < f.n.durable {
			f.n.durable = int(f.off)
		}
		f.off = end
		n = want
		if kind == "write-crash-torn" {
			k.crashNow = true
			return true
		}
		k.acc(t, "write", f.abs, e, n)
		return true
	})
	if closed {
		return 0, &os.PathError{Op: "write", Path: f.name, Err: os.ErrClosed}
	}
	return n, perr("write", f.name, e)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	old := f.off
	f.off = off
	n, e := f.Write(p)
	f.off = old
	return n, e
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if dead() {
		return 0, nil
	}
	switch whence {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		call(opFS, func(t *task) bool { f.off = int64(len(f.n.data)) + off; return true })
	}
	return f.off, nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if dead() || f.std != 0 {
		return nil
	}
	var e syscall.Errno
	closed := false
	call(opFS, func(t *task) bool {
		k := theK
		if f.closed {
			closed = true
			return true
		}
		kind := ""
		if f.flag&3 != os.O_RDONLY {
			var arg int64
			kind, arg = k.fault("close", f.abs, "crash", "close-eio", "close-enospc")
			if kind != "" && kind != "crash" && len(f.n.data) > f.n.durable {
				// deferred write-back failed: part of the unsynced data never reached the disk
				keep := f.n.durable + int(arg%int64(len(f.n.data)-f.n.durable))
				f.n.data = f.n.data[:keep]
			}
		}
		if kind == "crash" {
			k.crashNow = true
			return true
		}
		f.closed = true
		delete(k.cfg.FS.handles, f.h)
		if kind != "" {
			e = errnoOf(kind)
		}
		if f.flag&3 != os.O_RDONLY || e != 0 {
			k.acc(t, "close", f.abs, e, 0)
		}
		return true
	})
	if closed {
		return &os.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	return perr("close", f.name, e)
}

func (f *File) Sync() error {
	if dead() {
		return nil
	}
	var e syscall.Errno
	call(opFS, func(t *task) bool {
		kind, _ := theK.fault("sync", f.abs, "crash", "sync-eio")
		if kind == "crash" {
			theK.crashNow = true
			return true
		}
		if kind != "" {
			e = syscall.EIO
			return true
		}
		f.n.durable = len(f.n.data)
		f.n.synced = append([]byte(nil), f.n.data...)
		return true
	})
	return perr("sync", f.name, e)
}

func (f *File) Truncate(size int64) error {
	if dead() {
		return nil
	}
	call(opFS, func(t *task) bool {
		for int64(len(f.n.data)) < size {
			f.n.data = append(f.n.data, 0)
		}
		f.n.data = f.n.data[:size]
		if f.n.durable > int(size) {
			f.n.durable = int(size)
		}
		theK.acc(t, "truncate", f.abs, 0, int(size))
		return true
	})
	return nil
}

type finfo struct {
	name string
	size int64
	dir  bool
	mt   int64
	n    *inode
}

// SameFile replaces os.SameFile.
func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*finfo)
	y, ok2 := b.(*finfo)
	return ok1 && ok2 && x.n != nil && x.n == y.n
}

func (i *finfo) Name() string       { return i.name }
func (i *finfo) Size() int64        { return i.size }
func (i *finfo) IsDir() bool        { return i.dir }
func (i *finfo) ModTime() time.Time { return time.Unix(0, i.mt) }
func (i *finfo) Sys() interface{}   { return nil }
func (i *finfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i *finfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i *finfo) Info() (fs.FileInfo, error) { return i, nil }

func (f *File) Stat() (os.FileInfo, error) {
	if dead() {
		return nil, perr("stat", f.name, syscall.EIO)
	}
	if f.n == nil || f.closed {
		if f.closed {
			return nil, perr("stat", f.name, syscall.EBADF)
		}
		return &finfo{name: path.Base(f.name)}, nil
	}
	var e syscall.Errno
	fi := &finfo{}
	call(opFS, func(t *task) bool {
		if kind, _ := theK.fault("stat", f.abs, "stat-eio"); kind != "" {
			e = syscall.EIO
		} else {
			fi.name, fi.size, fi.dir, fi.mt, fi.n = path.Base(f.name), int64(len(f.n.data)), f.n.dir, f.n.mtime, f.n
		}
		theK.acc(t, "stat", f.abs, e, 0)
		return true
	})
	if e != 0 {
		return nil, perr("stat", f.name, e)
	}
	return fi, nil
}

func (f *File) Chmod(m os.FileMode) error { return nil }

func (f *File) Readdir(n int) ([]os.FileInfo, error) { return ReadDirInfo(f.name) }

func Stat(name string) (os.FileInfo, error) {
	needSim()
	var e syscall.Errno
	fi := &finfo{}
	if dead() {
		return nil, perr("stat", name, syscall.EIO)
	}
	call(opFS, func(t *task) bool {
		k := theK
		p := k.cfg.FS.at(name)
		kind, _ := k.fault("stat", p, "stat-eio")
		if kind != "" {
			e = syscall.EIO
		} else if n := k.cfg.FS.nodes[p]; n == nil {
			e = syscall.ENOENT
		} else {
			fi.name, fi.size, fi.dir, fi.mt, fi.n = path.Base(p), int64(len(n.data)), n.dir, n.mtime, n
		}
		k.acc(t, "stat", p, e, 0)
		return true
	})
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return fi, nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]os.DirEntry, error) {
	needSim()
	var e syscall.Errno
	var out []*finfo
	if dead() {
		return nil, nil
	}
	call(opFS, func(t *task) bool {
		d := theK.cfg.FS
		p := d.at(name)
		n := d.nodes[p]
		if n == nil {
			e = syscall.ENOENT
		} else if !n.dir {
			e = syscall.ENOTDIR
		} else {
			for q, m := range d.nodes {
				if q != "/" && path.Dir(q) == p {
					out = append(out, &finfo{path.Base(q), int64(len(m.data)), m.dir, m.mtime, m})
				}
			}
		}
		theK.acc(t, "readdir", p, e, 0)
		return true
	})
	if e != 0 {
		return nil, perr("open", name, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	var des []os.DirEntry
	for _, o := range out {
		des = append(des, o)
	}
	return des, nil
}

func ReadDirInfo(name string) ([]os.FileInfo, error) {
	des, err := ReadDir(name)
	var out []os.FileInfo
	for _, d := range des {
		out = append(out, d.(*finfo))
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	des, err := ReadDir(f.name)
	var out []string
	for _, d := range des {
		out = append(out, d.Name())
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return ReadDir(f.name) }

func pathOp(op, name string, fn func(d *FS, p string) syscall.Errno) error {
	needSim()
	var e syscall.Errno
	if dead() {
		return nil
	}
	call(opFS, func(t *task) bool {
		k := theK
		p := k.cfg.FS.at(name)
		kind, _ := k.fault(op, p, "crash", op+"-eio")
		if kind == "crash" {
			k.crashNow = true
			return true
		}
		if kind != "" {
			e = syscall.EIO
		} else {
			e = fn(k.cfg.FS, p)
		}
		k.acc(t, op, p, e, 0)
		return true
	})
	return perr(op, name, e)
}

func Remove(name string) error {
	return pathOp("remove", name, func(d *FS, p string) syscall.Errno {
		if d.nodes[p] == nil {
			return syscall.ENOENT
		}
		for q := range d.nodes {
			if q != p && path.Dir(q) == p {
				return syscall.ENOTEMPTY
			}
		}
		delete(d.nodes, p)
		return 0
	})
}

func RemoveAll(name string) error {
	return pathOp("remove", name, func(d *FS, p string) syscall.Errno {
		for q := range d.nodes {
			if q == p || strings.HasPrefix(q, p+"/") {
				delete(d.nodes, q)
			}
		}
		return 0
	})
}

func Rename(from, to string) error {
	return pathOp("rename", from, func(d *FS, p string) syscall.Errno {
		n := d.nodes[p]
		if n == nil {
			return syscall.ENOENT
		}
		q := d.at(to)
		if pd := d.nodes[path.Dir(q)]; pd == nil || !pd.dir {
			return syscall.ENOENT
		}
		d.nodes[q] = n
		delete(d.nodes, p)
		return 0
	})
}

func Mkdir(name string, perm os.FileMode) error {
	return pathOp("mkdir", name, func(d *FS, p string) syscall.Errno {
		if d.nodes[p] != nil {
			return syscall.EEXIST
		}
		if pd := d.nodes[path.Dir(p)]; pd == nil || !pd.dir {
			return syscall.ENOENT
		}
		d.nodes[p] = &inode{dir: true}
		return 0
	})
}

func MkdirAll(name string, perm os.FileMode) error {
	return pathOp("mkdir", name, func(d *FS, p string) syscall.Errno {
		for q := p; q != "/"; q = path.Dir(q) {
			if n := d.nodes[q]; n != nil && !n.dir {
				return syscall.ENOTDIR
			} else if n == nil {
				d.nodes[q] = &inode{dir: true}
			}
		}
		return 0
	})
}

func Truncate(name string, size int64) error {
	return pathOp("truncate", name, func(d *FS, p string) syscall.Errno {
		n := d.nodes[p]
		if n == nil {
			return syscall.ENOENT
		}
		for int64(len(n.data)) < size {
			n.data = append(n.data, 0)
		}
		n.data = n.data[:size]
		return 0
	})
}

func Chmod(name string, m os.FileMode) error              { return nil }
func Chtimes(name string, a time.Time, m time.Time) error { return nil }

func Getwd() (string, error) {
	needSim()
	return theK.cfg.FS.cwd(), nil
}

// cwd is the working directory as the simulated process sees it.
func (f *FS) cwd() string {
	if f.Root == "" || f.Root == "/" {
		return f.Cwd
	}
	if f.Cwd == f.Root {
		return "/"
	}
	if strings.HasPrefix(f.Cwd, f.Root+"/") {
		return f.Cwd[len(f.Root):]
	}
	return "(unreachable)" + f.Cwd
}

func Chdir(p string) error {
	return pathOp("chdir", p, func(d *FS, q string) syscall.Errno {
		if n := d.nodes[q]; n == nil || !n.dir {
			return syscall.ENOENT
		}
		d.Cwd = q
		return 0
	})
}

func TempDir() string { return "/tmp" }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		theK.tmpN++
		f, err := OpenFile(path.Join(dir, pre+"t"+itoa(theK.tmpN)+suf), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		theK.tmpN++
		name := path.Join(dir, pre+"t"+itoa(theK.tmpN)+suf)
		err := Mkdir(name, 0700)
		if err != nil && os.IsExist(err) {
			continue
		}
		return name, err
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// Exit ends the simulated process.
func Exit(code int) {
	needSim()
	if dead() {
		return
	}
	call(opUser, func(t *task) bool {
		theK.exited = true
		theK.res.ExitCode = code
		return true
	})
}

// filepath functions that touch the disk

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join(theK.cfg.FS.cwd(), p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		if dir == pattern {
			return nil, filepath.ErrBadPattern
		}
		var err error
		dirs, err = Glob(dir)
		if err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		des, err := ReadDir(d)
		if err != nil {
			continue
		}
		for _, de := range des {
			ok, err := filepath.Match(file, de.Name())
			if err != nil {
				return out, err
			}
			if ok {
				out = append(out, filepath.Join(d, de.Name()))
			}
		}
	}
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fi.(*finfo), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d os.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	des, err := ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			return err
		}
	}
	for _, de := range des {
		if err := walkDir(filepath.Join(p, de.Name()), de, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var fi fs.FileInfo
		if d != nil {
			fi = d.(*finfo)
		}
		return fn(p, fi, err)
	})
}
