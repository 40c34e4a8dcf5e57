package sim

import (
	"archive/zip"
	"io"
	"io/fs"
	"os"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Fault is one injected fault: the N-th (from 1) operation Op on file File fails as Kind says.
// Kinds: read: eio, short (Arg bytes then error). write: eio, enospc, short (Arg bytes of it, then ENOSPC).
// close: eio, lose (Arg bytes of the tail vanish). create, open, remove, rename, mkdir, seek, stat, sync: eio,
// enospc, eacces, enoent.
type Fault struct {
	File string `json:"file"`
	Op   string `json:"op"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
}

type opCount struct {
	file, op string
	n        int
}

type inode struct {
	name string
	data []byte
	dir  bool
	gone bool
}

// FS is the simulated disk. What has been written to it survives a crash of the process.
type FS struct {
	files   []*inode
	counts  []opCount
	nops    int
	frozen  bool
	open    int
	written int64
	run     *Run
	temp    int
}

func NewFS() *FS { return &FS{} }

// Clone copies the disk.
func (f *FS) Clone() *FS {
	n := &FS{temp: f.temp}
	for _, i := range f.files {
		if !i.gone {
			n.files = append(n.files, &inode{name: i.name, data: append([]byte(nil), i.data...), dir: i.dir})
		}
	}
	return n
}

func (f *FS) begin(r *Run) {
	f.counts = nil
	f.nops = 0
	f.frozen = false
	f.open = 0
	f.written = 0
	f.run = r
}

// Put stores a file, Get reads one back, Names lists them in order of creation.
func (f *FS) Put(name string, data []byte) {
	i := f.find(name)
	if i == nil {
		i = &inode{name: clean(name)}
		f.files = append(f.files, i)
	}
	i.data = append([]byte(nil), data...)
}

func (f *FS) Get(name string) ([]byte, bool) {
	i := f.find(name)
	if i == nil || i.dir {
		return nil, false
	}
	return i.data, true
}

func (f *FS) Delete(name string) {
	if i := f.find(name); i != nil {
		i.gone = true
	}
}

func (f *FS) Names() []string {
	var s []string
	for _, i := range f.files {
		if !i.gone && !i.dir {
			s = append(s, i.name)
		}
	}
	return s
}

// Counts lists how often each operation was made on each file.
func (f *FS) Counts() []OpCount {
	var s []OpCount
	for _, c := range f.counts {
		s = append(s, OpCount{c.file, c.op, c.n})
	}
	return s
}

// OpCount is one entry of Counts.
type OpCount struct {
	File, Op string
	N        int
}

func (f *FS) OpenFiles() int { return f.open }

func clean(n string) string {
	n = path.Clean(n)
	return strings.TrimPrefix(n, "./")
}

func (f *FS) find(name string) *inode {
	name = clean(name)
	for _, i := range f.files {
		if !i.gone && i.name == name {
			return i
		}
	}
	return nil
}

func errFor(kind string) error {
	switch kind {
	case "enospc", "short":
		return syscall.ENOSPC
	case "eacces":
		return syscall.EACCES
	case "enoent":
		return syscall.ENOENT
	case "emfile":
		return syscall.EMFILE
	}
	return syscall.EIO
}

// op counts an operation, gives the scheduler its say and returns the fault planned for it.
func (f *FS) op(name, op string) *Fault {
	r := f.run
	if r == nil || R != r || f.frozen || r.aborted {
		return nil
	}
	r.syncPoint()
	f.nops++
	n := 0
	for i := range f.counts {
		c := &f.counts[i]
		if c.file == name && c.op == op {
			c.n++
			n = c.n
			break
		}
	}
	if n == 0 {
		f.counts = append(f.counts, opCount{name, op, 1})
		n = 1
	}
	r.hash = Mix(r.hash, HashString(op)^uint64(n)<<32^HashString(name)<<1)
	if OnFileOp != nil && r.atomic == 0 {
		OnFileOp(op, name)
	}
	if r.O.CrashAt > 0 && f.nops == r.O.CrashAt && op != "write" {
		r.fire("crash-at-" + op)
		r.crash()
	}
	for i := range r.O.Faults {
		x := &r.O.Faults[i]
		if x.N == n && x.Op == op && x.File == name {
			r.fire(op + "-" + x.Kind)
			return x
		}
	}
	return nil
}

// File stands in for os.File.
type File struct {
	fs     *FS
	ino    *inode
	name   string
	pos    int64
	r, w   bool
	app    bool
	closed bool
	broken bool // reads fail from now on
	std    int  // 1 stdout 2 stderr 3 stdin
}

// Stdin, Stdout and Stderr.
var (
	Stdin  = &File{name: "/dev/stdin", std: 3, r: true}
	Stdout = &File{name: "/dev/stdout", std: 1, w: true}
	Stderr = &File{name: "/dev/stderr", std: 2, w: true}
)

func curFS() *FS {
	if R == nil {
		return noFS
	}
	return R.fs
}

var noFS = NewFS()

func pathErr(op, name string, e error) error { return &fs.PathError{Op: op, Path: name, Err: e} }

func OsOpen(name string) (*File, error) { return OsOpenFile(name, os.O_RDONLY, 0) }
func OsCreate(name string) (*File, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OsOpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	f := curFS()
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	if flt := f.op(clean(name), op); flt != nil {
		return nil, pathErr("open", name, errFor(flt.Kind))
	}
	if name == "" {
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	if f.frozen {
		return nil, pathErr("open", name, syscall.EIO)
	}
	i := f.find(name)
	if i == nil {
		if flag&os.O_CREATE == 0 {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		i = &inode{name: clean(name)}
		f.files = append(f.files, i)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, pathErr("open", name, syscall.EEXIST)
	}
	if i.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, pathErr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 {
		i.data = nil
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	f.open++
	return &File{fs: f, ino: i, name: name, r: acc != os.O_WRONLY, w: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.std) }

func (f *File) check(op string, need bool) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return pathErr(op, f.name, os.ErrClosed)
	}
	if !need {
		return pathErr(op, f.name, syscall.EBADF)
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if f.std == 3 {
		return 0, io.EOF
	}
	if err := f.check("read", f != nil && f.r); err != nil {
		return 0, err
	}
	flt := f.fs.op(f.ino.name, "read")
	if f.broken {
		return 0, pathErr("read", f.name, errFor("eio"))
	}
	if f.ino.dir {
		return 0, pathErr("read", f.name, syscall.EISDIR)
	}
	if flt != nil {
		if flt.Kind != "short" || flt.Arg <= 0 || f.pos >= int64(len(f.ino.data)) {
			return 0, pathErr("read", f.name, errFor("eio"))
		}
		if len(p) > flt.Arg {
			p = p[:flt.Arg]
		}
		f.broken = true // the error comes with the next read
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n := len(p)
	if r := R; r != nil && r.O.Chunk > 0 {
		n = r.chunkLen(n)
	}
	n = copy(p[:n], f.ino.data[f.pos:])
	f.pos += int64(n)
	raceWriteBytes(p[:n])
	return n, nil
}

func (r *Run) chunkLen(n int) int {
	m := n
	switch r.O.Chunk {
	case 1:
		m = 1
	case 2:
		m = 1 + r.chunk.Intn(16)
	case 3:
		m = 1 + r.chunk.Intn(200)
	default:
		m = 1 + r.chunk.Intn(n)
	}
	if m > n {
		m = n
	}
	if m < n {
		r.nchunks++
	}
	return m
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check("read", f != nil && f.r); err != nil {
		return 0, err
	}
	if flt := f.fs.op(f.ino.name, "read"); flt != nil {
		return 0, pathErr("read", f.name, errFor("eio"))
	}
	if off < 0 {
		return 0, pathErr("readat", f.name, syscall.EINVAL)
	}
	if off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.ino.data[off:])
	raceWriteBytes(p[:n])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// store writes p at off within the space left on the disk.
func (f *File) store(p []byte, off int64) (int, error) {
	r := R
	n := len(p)
	var err error
	if r != nil && r.O.DiskCap > 0 && f.fs.written+int64(n) > r.O.DiskCap {
		n = int(r.O.DiskCap - f.fs.written)
		if n < 0 {
			n = 0
		}
		err = syscall.ENOSPC
		r.fire("disk-full")
	}
	f.fs.written += int64(n)
	d := f.ino.data
	for int64(len(d)) < off {
		d = append(d, 0)
	}
	k := copy(d[off:], p[:n])
	d = append(d, p[k:n]...)
	f.ino.data = d
	return n, err
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.check("write", f != nil && f.w); err != nil {
		return 0, err
	}
	raceReadBytes(p)
	if f.std != 0 {
		return stdWrite(f.std, p)
	}
	if f.fs.frozen {
		return len(p), nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.app {
		f.pos = int64(len(f.ino.data))
	}
	flt := f.fs.op(f.ino.name, "write")
	if f.fs.frozen {
		return len(p), nil
	}
	if r := R; r != nil && r.O.CrashAt > 0 && f.fs.nops == r.O.CrashAt {
		n := len(p) * r.O.CrashTorn / 1000
		f.store(p[:n], f.pos)
		if n > 0 && n < len(p) {
			r.fire("crash-torn-write")
		} else {
			r.fire("crash-at-write")
		}
		r.crash()
	}
	if flt != nil {
		n := 0
		if flt.Kind == "short" {
			n = flt.Arg
			if n >= len(p) {
				n = len(p) - 1
			}
		}
		n, _ = f.store(p[:n], f.pos)
		f.pos += int64(n)
		return n, pathErr("write", f.name, errFor(flt.Kind))
	}
	n, err := f.store(p, f.pos)
	f.pos += int64(n)
	if err != nil {
		return n, pathErr("write", f.name, err)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	old := f.pos
	f.pos = off
	n, err := f.Write(p)
	f.pos = old
	return n, err
}

func (f *File) ReadFrom(src io.Reader) (int64, error) {
	buf := make([]byte, 4096)
	var t int64
	for {
		n, err := src.Read(buf)
		if n > 0 {
			m, e := f.Write(buf[:n])
			t += int64(m)
			if e != nil {
				return t, e
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek", true); err != nil {
		return 0, err
	}
	if flt := f.fs.op(f.ino.name, "seek"); flt != nil {
		return 0, pathErr("seek", f.name, errFor(flt.Kind))
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, pathErr("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.check("truncate", f.w); err != nil {
		return err
	}
	if f.fs.frozen {
		return nil
	}
	for int64(len(f.ino.data)) < n {
		f.ino.data = append(f.ino.data, 0)
	}
	f.ino.data = f.ino.data[:n]
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync", true); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	if flt := f.fs.op(f.ino.name, "sync"); flt != nil {
		return pathErr("sync", f.name, errFor(flt.Kind))
	}
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return pathErr("close", f.name, os.ErrClosed)
	}
	if f.std != 0 {
		return nil
	}
	op := "close"
	if !f.w {
		op = "closer"
	}
	flt := f.fs.op(f.ino.name, op)
	f.closed = true
	f.fs.open--
	if flt != nil {
		if flt.Kind == "lose" {
			n := len(f.ino.data) - flt.Arg
			if n < 0 {
				n = 0
			}
			f.ino.data = f.ino.data[:n]
		}
		return pathErr("close", f.name, errFor(flt.Kind))
	}
	return nil
}

func (f *File) Chmod(m os.FileMode) error          { return nil }
func (f *File) SetDeadline(t time.Time) error      { return nil }
func (f *File) SetReadDeadline(t time.Time) error  { return nil }
func (f *File) SetWriteDeadline(t time.Time) error { return nil }

type fileInfo struct {
	name string
	size int64
	dir  bool
}

func (i fileInfo) Name() string { return path.Base(i.name) }
func (i fileInfo) Size() int64  { return i.size }
func (i fileInfo) Mode() os.FileMode {
	if i.dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (i fileInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i fileInfo) IsDir() bool        { return i.dir }
func (i fileInfo) Sys() any           { return nil }

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.check("stat", true); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return fileInfo{f.name, 0, false}, nil
	}
	if flt := f.fs.op(f.ino.name, "stat"); flt != nil {
		return nil, pathErr("stat", f.name, errFor(flt.Kind))
	}
	return fileInfo{f.name, int64(len(f.ino.data)), f.ino.dir}, nil
}

func OsStat(name string) (os.FileInfo, error) {
	f := curFS()
	if flt := f.op(clean(name), "stat"); flt != nil {
		return nil, pathErr("stat", name, errFor(flt.Kind))
	}
	i := f.find(name)
	if i == nil {
		if name == "." || name == "/" || name == "/tmp" {
			return fileInfo{name, 0, true}, nil
		}
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	return fileInfo{name, int64(len(i.data)), i.dir}, nil
}

func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(struct{ io.Reader }{f})
}

func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func OsRemove(name string) error {
	f := curFS()
	if flt := f.op(clean(name), "remove"); flt != nil {
		return pathErr("remove", name, errFor(flt.Kind))
	}
	i := f.find(name)
	if i == nil {
		return pathErr("remove", name, syscall.ENOENT)
	}
	if !f.frozen {
		i.gone = true
	}
	return nil
}

func OsRename(a, b string) error {
	f := curFS()
	if flt := f.op(clean(b), "rename"); flt != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: errFor(flt.Kind)}
	}
	i := f.find(a)
	if i == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if f.frozen {
		return nil
	}
	if j := f.find(b); j != nil {
		j.gone = true
	}
	i.name = clean(b)
	return nil
}

func OsMkdir(name string, perm os.FileMode) error {
	f := curFS()
	if flt := f.op(clean(name), "mkdir"); flt != nil {
		return pathErr("mkdir", name, errFor(flt.Kind))
	}
	if f.find(name) != nil {
		return pathErr("mkdir", name, syscall.EEXIST)
	}
	if !f.frozen {
		f.files = append(f.files, &inode{name: clean(name), dir: true})
	}
	return nil
}

func OsMkdirAll(name string, perm os.FileMode) error {
	f := curFS()
	if i := f.find(name); i != nil && i.dir {
		return nil
	}
	return OsMkdir(name, perm)
}

func OsCreateTemp(dir, pattern string) (*File, error) {
	f := curFS()
	if dir == "" {
		dir = "/tmp"
	}
	f.temp++
	id := strconv.Itoa(f.temp)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pattern = pattern[:i] + id + pattern[i+1:]
	} else {
		pattern += id
	}
	return OsOpenFile(path.Join(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func OsReadDir(name string) ([]os.DirEntry, error) {
	f := curFS()
	var s []os.DirEntry
	for _, i := range f.files {
		if !i.gone && path.Dir(i.name) == clean(name) {
			s = append(s, fs.FileInfoToDirEntry(fileInfo{i.name, int64(len(i.data)), i.dir}))
		}
	}
	return s, nil
}

func OsGetenv(string) string { return "" }
func OsGetpid() int          { return 4242 }
func OsHostname() (string, error) {
	return "simhost", nil
}

// OsArgs stands in for os.Args.
var OsArgs []string

// ReadCloser stands in for zip.ReadCloser.
type ReadCloser struct {
	*zip.Reader
	f *File
}

func (z *ReadCloser) Close() error { return z.f.Close() }

func ZipOpenReader(name string) (*ReadCloser, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	st, err := f.Stat()
	if err != nil {
		f.Close()
		return nil, err
	}
	zr, err := zip.NewReader(f, st.Size())
	if err != nil {
		f.Close()
		return nil, err
	}
	return &ReadCloser{Reader: zr, f: f}, nil
}

// Stream is a byte stream under the simulator's control, standing in for any io.Reader or io.Writer a library
// caller may pass. Reads are cut as the run's chunk mode says; after FailAt bytes Err is returned.
type Stream struct {
	Data    []byte
	Pos     int
	FailAt  int // -1: never
	Err     error
	WithEOF bool // deliver the last bytes together with io.EOF (or Err)
	Zero    bool // now and then return 0, nil
	Buf     []byte
	Cap     int  // writes fail after this many bytes (<0: never)
	Once    bool // the failure passes: later calls succeed
	Calls   int
}

// EIO is the error failing disks give.
const EIO = syscall.EIO

func NewStream(data []byte) *Stream { return &Stream{Data: data, FailAt: -1, Cap: -1} }

func (s *Stream) Read(p []byte) (int, error) {
	r := R
	s.Calls++
	if r != nil {
		r.syncPoint()
	}
	end := len(s.Data)
	var eerr error = io.EOF
	if s.FailAt >= 0 && s.FailAt <= end {
		end = s.FailAt
		eerr = s.Err
		if eerr == nil {
			eerr = syscall.EIO
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.Pos >= end {
		if r != nil && eerr != io.EOF {
			r.fire("stream-read-error")
		}
		if s.Once {
			s.FailAt = -1
		}
		return 0, eerr
	}
	if s.Zero && r != nil && r.chunk.Intn(4) == 0 {
		r.fire("stream-zero-read")
		return 0, nil
	}
	n := len(p)
	if r != nil && r.O.Chunk > 0 {
		n = r.chunkLen(n)
	}
	n = copy(p[:n], s.Data[s.Pos:end])
	s.Pos += n
	if r != nil {
		r.hash = Mix(r.hash, HashString(string(p[:n])))
	}
	if s.WithEOF && s.Pos >= end {
		if r != nil {
			if eerr == io.EOF {
				r.fire("stream-data-with-eof")
			} else {
				r.fire("stream-read-error")
			}
		}
		if s.Once {
			s.FailAt = -1
		}
		return n, eerr
	}
	return n, nil
}

func (s *Stream) Write(p []byte) (int, error) {
	r := R
	s.Calls++
	if r != nil {
		r.syncPoint()
	}
	raceReadBytes(p)
	n := len(p)
	var err error
	if s.Cap >= 0 && len(s.Buf)+n > s.Cap {
		n = s.Cap - len(s.Buf)
		err = syscall.ENOSPC
		if s.Err != nil {
			err = s.Err
		}
		if r != nil {
			r.fire("stream-write-error")
		}
		if s.Once {
			s.Cap = -1
		}
	}
	s.Buf = append(s.Buf, p[:n]...)
	return n, err
}
