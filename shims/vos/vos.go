// Package vos is an in-memory file system standing in for package os. Every
// mutating operation is a numbered step at which the harness may crash the
// process (optionally tearing the write) or inject an I/O error.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"time"
)

const (
	O_RDONLY int = 0
	O_WRONLY int = 1
	O_RDWR   int = 2
	O_APPEND int = 0x400
	O_CREATE int = 0x40
	O_EXCL   int = 0x80
	O_SYNC   int = 0x101000
	O_TRUNC  int = 0x200

	PathSeparator = '/'
	ModePerm      = fs.ModePerm
)

type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
	Signal    interface {
		String() string
		Signal()
	}
)

var (
	ErrExist    error = &osError{"file already exists"}
	ErrNotExist error = &osError{"file does not exist"}
	ErrInvalid  error = &osError{"invalid argument"}
	ErrClosed   error = &osError{"file already closed"}
	ErrIO       error = &osError{"input/output error"}

	Stderr = &File{name: "/dev/stderr", null: true}
	Stdout = &File{name: "/dev/stdout", null: true}
	Args   = []string{"unitdb"}
)

type osError struct{ s string }

func (e *osError) Error() string { return e.s }

type node struct {
	name   string
	dir    bool
	data   []byte
	synced []byte // content as of the last Sync
	wasSyn bool
	mtime  int64
	lock   *File
}

var (
	nodes  = map[string]*node{}
	order  []string
	nextFd uintptr = 3
	fds            = map[uintptr]*File{}
	clock  int64

	// Steps counts mutating operations since Arm.
	Steps   int
	crashAt = -1
	failAt  = -1
	// MtimeFn supplies modification times (defaults to a counter).
	MtimeFn func() int64
	snap    *image
	// Trace records the mutating operations when on.
	TraceOn bool
	Trace   []string
	// BoundsErr counts writes or truncates that left the modelled size.
	MaxSize int64 = 1 << 26
	Syncs   int
)

// Reset clears the file system.
func Reset() {
	nodes = map[string]*node{}
	order = nil
	fds = map[uintptr]*File{}
	crashAt, failAt = -1, -1
	Steps = 0
	snap = nil
	Syncs = 0
}

// Arm makes the process die right before the k-th following mutating operation: what is on disk at
// that point is what Reboot brings back. The code runs on, but nothing it does from there on counts.
func Arm(k int) {
	Steps = 0
	crashAt = k
	failAt = -1
	snap = nil
}

// ArmFail makes the k-th following mutating operation return an error.
func ArmFail(k int) {
	Steps = 0
	failAt = k
	crashAt = -1
}

// Disarm stops fault injection.
func Disarm() { crashAt, failAt = -1, -1 }

// Crashed reports whether the armed crash happened.
func Crashed() bool { return snap != nil }

type image struct {
	nodes map[string]*node
	order []string
}

func takeImage() *image {
	im := &image{nodes: map[string]*node{}, order: append([]string(nil), order...)}
	for _, p := range order {
		n := nodes[p]
		c := *n
		c.lock = nil
		c.data = append([]byte(nil), n.data...)
		im.nodes[p] = &c
	}
	return im
}

// Reboot drops all process state (descriptors and locks) and keeps file contents as of the crash.
func Reboot() {
	if snap == nil {
		snap = takeImage()
	}
	nodes, order = snap.nodes, snap.order
	snap = nil
	fds = map[uintptr]*File{}
	crashAt, failAt = -1, -1
}

// PowerLoss is Reboot with every unsynced file content rolled back to its last synced state.
func PowerLoss() {
	Reboot()
	for _, n := range nodes {
		if !n.dir {
			n.data = append([]byte(nil), n.synced...)
		}
	}
}

// step is called before each mutating operation.
func step(op string, n int) (int, error) {
	i := Steps
	Steps++
	if TraceOn {
		Trace = append(Trace, op)
	}
	if i == failAt {
		return 0, ErrIO
	}
	if i == crashAt && snap == nil {
		snap = takeImage()
	}
	return n, nil
}

func clean(p string) string {
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	return p
}

func parent(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return ""
}

func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

func tick() int64 {
	if MtimeFn != nil {
		return MtimeFn()
	}
	clock++
	return clock
}

// File is an open file.
type File struct {
	name   string
	n      *node
	fd     uintptr
	closed bool
	null   bool
	pos    int64
}

func perr(op, p string, err error) error { return &PathError{Op: op, Path: p, Err: err} }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p := clean(name)
	n := nodes[p]
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, ErrNotExist)
		}
		if d := parent(p); d != "" && nodes[d] == nil {
			return nil, perr("open", name, ErrNotExist)
		}
		if _, err := step("create "+p, 0); err != nil {
			return nil, perr("open", name, err)
		}
		n = &node{name: p, mtime: tick()}
		nodes[p] = n
		order = append(order, p)
	} else if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, ErrExist)
	}
	if flag&O_TRUNC != 0 && !n.dir {
		n.data = nil
	}
	nextFd++
	f := &File{name: name, n: n, fd: nextFd}
	fds[nextFd] = f
	return f, nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

func (f *File) check() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return ErrClosed
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return f.fd }

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		f.pos = off
	case 1:
		f.pos += off
	case 2:
		f.pos = int64(len(f.n.data)) + off
	}
	return f.pos, nil
}

func (n *node) resize(sz int64) {
	if sz <= int64(len(n.data)) {
		n.data = n.data[:sz]
		return
	}
	if sz > int64(cap(n.data)) {
		nc := int64(cap(n.data)) * 2
		if nc < sz {
			nc = sz
		}
		d := make([]byte, sz, nc)
		copy(d, n.data)
		n.data = d
		return
	}
	old := len(n.data)
	n.data = n.data[:sz]
	tail := n.data[old:]
	for i := range tail {
		tail[i] = 0
	}
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if f.null {
		return len(b), nil
	}
	if off < 0 {
		return 0, perr("writeat", f.name, errors.New("negative offset"))
	}
	n, err := step("write "+f.name, len(b))
	if err != nil {
		return 0, perr("write", f.name, err)
	}
	if n > 0 {
		end := off + int64(n)
		if end > MaxSize {
			return 0, perr("write", f.name, errors.New("file too large"))
		}
		if end > int64(len(f.n.data)) {
			f.n.resize(end)
		}
		copy(f.n.data[off:end], b[:n])
		f.n.mtime = tick()
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f.null {
		return len(b), nil
	}
	n, err := f.WriteAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Truncate(size int64) error {
	if err := f.check(); err != nil {
		return err
	}
	if size < 0 || size > MaxSize {
		return perr("truncate", f.name, ErrInvalid)
	}
	n, err := step("truncate "+f.name, 1)
	if err != nil {
		return perr("truncate", f.name, err)
	}
	if n > 0 {
		f.n.resize(size)
		f.n.mtime = tick()
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check(); err != nil {
		return err
	}
	if f.null {
		return nil
	}
	_, err := step("sync "+f.name, 0)
	if err != nil {
		return perr("sync", f.name, err)
	}
	f.n.synced = append([]byte(nil), f.n.data...)
	f.n.wasSyn = true
	Syncs++
	return nil
}

func (f *File) Close() error {
	if err := f.check(); err != nil {
		return err
	}
	if f.n != nil && f.n.lock == f {
		f.n.lock = nil
	}
	f.closed = true
	delete(fds, f.fd)
	return nil
}

type info struct {
	name  string
	size  int64
	dir   bool
	mtime int64
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return i.size }
func (i *info) Mode() FileMode {
	if i.dir {
		return fs.ModeDir | 0777
	}
	return 0666
}
func (i *info) ModTime() time.Time { return time.Unix(1600000000+i.mtime, 0) }
func (i *info) IsDir() bool        { return i.dir }
func (i *info) Sys() interface{}   { return nil }

func (n *node) info() FileInfo {
	return &info{base(n.name), int64(len(n.data)), n.dir, n.mtime}
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check(); err != nil {
		return nil, err
	}
	return f.n.info(), nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) { return ReadDirInfo(f.name) }

// ReadDirInfo lists a directory sorted by name.
func ReadDirInfo(name string) ([]FileInfo, error) {
	p := clean(name)
	if d := nodes[p]; d == nil || !d.dir {
		return nil, perr("open", name, ErrNotExist)
	}
	var names []string
	for _, q := range order {
		if nodes[q] != nil && parent(q) == p {
			names = append(names, q)
		}
	}
	for i := 1; i < len(names); i++ {
		for j := i; j > 0 && names[j] < names[j-1]; j-- {
			names[j], names[j-1] = names[j-1], names[j]
		}
	}
	var out []FileInfo
	for _, q := range names {
		out = append(out, nodes[q].info())
	}
	return out, nil
}

func Stat(name string) (FileInfo, error) {
	n := nodes[clean(name)]
	if n == nil {
		return nil, perr("stat", name, ErrNotExist)
	}
	return n.info(), nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm FileMode) error {
	p := clean(name)
	if nodes[p] != nil {
		return perr("mkdir", name, ErrExist)
	}
	if d := parent(p); d != "" && nodes[d] == nil {
		return perr("mkdir", name, ErrNotExist)
	}
	_, err := step("mkdir "+p, 0)
	if err != nil {
		return perr("mkdir", name, err)
	}
	nodes[p] = &node{name: p, dir: true, mtime: tick()}
	order = append(order, p)
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := clean(name)
	if n := nodes[p]; n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, ErrExist)
	}
	if d := parent(p); d != "" {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	return Mkdir(p, perm)
}

func forget(p string) {
	delete(nodes, p)
	for i, q := range order {
		if q == p {
			order = append(order[:i:i], order[i+1:]...)
			break
		}
	}
}

func Remove(name string) error {
	p := clean(name)
	if nodes[p] == nil {
		return perr("remove", name, ErrNotExist)
	}
	_, err := step("remove "+p, 0)
	if err != nil {
		return perr("remove", name, err)
	}
	forget(p)
	return nil
}

func RemoveAll(name string) error {
	p := clean(name)
	var del []string
	for _, q := range order {
		if q == p || len(q) > len(p) && q[:len(p)+1] == p+"/" {
			del = append(del, q)
		}
	}
	for _, q := range del {
		_, err := step("remove "+q, 0)
		if err != nil {
			return perr("remove", q, err)
		}
		forget(q)
	}
	return nil
}

func Rename(from, to string) error {
	a, b := clean(from), clean(to)
	n := nodes[a]
	if n == nil {
		return perr("rename", from, ErrNotExist)
	}
	_, err := step("rename "+a, 0)
	if err != nil {
		return perr("rename", from, err)
	}
	if nodes[b] != nil {
		forget(b)
	}
	forget(a)
	n.name = b
	nodes[b] = n
	order = append(order, b)
	return nil
}

func Getwd() (string, error)    { return "/vdb", nil }
func Getenv(string) string      { return "" }
func IsExist(err error) bool    { return under(err) == ErrExist }
func IsNotExist(err error) bool { return under(err) == ErrNotExist }
func Exit(code int)             { panic("os.Exit") }
func Getpid() int               { return 1 }
func Hostname() (string, error) { return "localhost", nil }
func ReadFile(name string) ([]byte, error) {
	n := nodes[clean(name)]
	if n == nil {
		return nil, perr("open", name, ErrNotExist)
	}
	return append([]byte(nil), n.data...), nil
}
func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := Create(name)
	if err != nil {
		return err
	}
	if _, err := f.Write(b); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

func under(err error) error {
	if pe, ok := err.(*PathError); ok {
		return pe.Err
	}
	return err
}

// Flock implements advisory locks; it reports false when another descriptor holds the lock.
func Flock(fd int, unlock bool) bool {
	f := fds[uintptr(fd)]
	if f == nil || f.n == nil {
		return false
	}
	if unlock {
		if f.n.lock == f {
			f.n.lock = nil
		}
		return true
	}
	if f.n.lock != nil && f.n.lock != f {
		return false
	}
	f.n.lock = f
	return true
}

// OpenCount is the number of open descriptors.
func OpenCount() int { return len(fds) }

// Exists reports whether a path exists.
func Exists(name string) bool { return nodes[clean(name)] != nil }

// Data gives direct access to a file's content.
func Data(name string) []byte {
	if n := nodes[clean(name)]; n != nil {
		return n.data
	}
	return nil
}

// SetData replaces a file's content, creating it and its parents.
func SetData(name string, b []byte) {
	p := clean(name)
	if d := parent(p); d != "" {
		MkdirAll(d, 0777)
	}
	n := nodes[p]
	if n == nil {
		n = &node{name: p, mtime: tick()}
		nodes[p] = n
		order = append(order, p)
	}
	n.data = b
}

// List gives every file below dir.
func List(dir string) []string {
	var out []string
	for _, q := range order {
		if n := nodes[q]; n != nil && !n.dir && len(q) > len(dir) && q[:len(dir)] == dir {
			out = append(out, q)
		}
	}
	return out
}
