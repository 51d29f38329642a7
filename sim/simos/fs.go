// Package simos stands in for package os inside the simulated command line
// tool: an in-memory file system with seeded delivery and injected faults, a
// simulated process (arguments, standard streams, exit status).
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/core"
	"verifsim/simio"
)

// Op is one file system operation of a run.
type Op struct {
	Kind string // open create mkdir read write seek close stat remove rename readdir truncate sync
	Path string
	N    int // bytes asked for
}

// Fault hits operation number Op.
type Fault struct {
	Op   int
	Mode int    // 0 nothing done, 1 part done; then an error
	Frac uint64 // how much is transferred before the error
	Keep bool   // every later operation of this kind on this path fails too
	Err  int    // which of the errors an operation of this kind can meet
}

type inode struct {
	id      int
	dir     bool
	link    string
	st      simio.Store
	Touched int // writes and truncations
	Lost    bool
	mode    fs.FileMode
}

// Sim is one simulated process with its file system.
type Sim struct {
	E      *core.Env
	nodes  map[string]*inode
	nextID int
	Cwd    string

	Args    []string
	Out     []byte // standard output
	ErrOut  []byte
	Exited  bool
	Code    int
	D       simio.Delivery
	sub     *core.Sub
	Order   *core.Sub // map iteration order
	Ops     []Op
	Faults  []Fault
	why     int // Err of the fault that struck last
	Fired   int
	Hit     []string // the operations that were hit
	Cap     int64    // >0: bytes all files together may take
	used    int64
	FullHit bool
	LoseOn  bool // a failing Close loses the data written since the file was opened
	StepCap int
	env     map[string]string
	tmp     int
	OutCap  int
	sticky  map[string]bool
	MapIter int
}

// Cur is the running simulated process.
var Cur *Sim

func New(e *core.Env) *Sim {
	s := &Sim{E: e, nodes: map[string]*inode{}, Cwd: "/work", sub: core.NewSub(0), Order: core.NewSub(0), env: map[string]string{"HOME": "/work", "PATH": "/bin", "TMPDIR": "/tmp"}, sticky: map[string]bool{}, OutCap: 1 << 27}
	for _, d := range []string{"/", "/work", "/tmp"} {
		s.nodes[d] = s.node(true)
	}
	return s
}

func (s *Sim) node(dir bool) *inode {
	s.nextID++
	n := &inode{id: s.nextID, dir: dir, mode: 0644}
	if dir {
		n.mode = 0755 | fs.ModeDir
	} else {
		n.st = &simio.Mem{}
	}
	return n
}

// Clone copies the file system (not the process state), so that the same
// situation can be run again; stores of files named in share are not copied.
func (s *Sim) Clone() *Sim {
	c := New(s.E)
	c.nextID = s.nextID
	m := map[*inode]*inode{}
	for p, n := range s.nodes {
		if m[n] == nil {
			k := *n
			if mem, ok := n.st.(*simio.Mem); ok {
				k.st = &simio.Mem{B: append([]byte(nil), mem.B...)}
			}
			m[n] = &k
		}
		c.nodes[p] = m[n]
	}
	c.D, c.Cwd = s.D, s.Cwd
	return c
}

// Put stores a file.
func (s *Sim) Put(p string, st simio.Store) {
	p = s.abs(p)
	s.mkdirs(path.Dir(p))
	n := s.node(false)
	n.st = st
	s.nodes[p] = n
}
func (s *Sim) PutDir(p string) { s.mkdirs(s.abs(p)) }
func (s *Sim) PutLink(p, dest string) {
	s.nodes[s.abs(p)] = &inode{link: dest, mode: 0777 | fs.ModeSymlink}
}
func (s *Sim) PutHard(p, old string) { s.nodes[s.abs(p)] = s.nodes[s.abs(old)] }

// Get returns the content of a file.
func (s *Sim) Get(p string) ([]byte, bool) {
	n := s.lookup(s.abs(p))
	if n == nil || n.dir {
		return nil, false
	}
	m, ok := n.st.(*simio.Mem)
	if !ok {
		return nil, true
	}
	return m.B, true
}

// Files lists the regular files below a directory.
func (s *Sim) Files(dir string) (r []string) {
	dir = s.abs(dir)
	for p, n := range s.nodes {
		if !n.dir && n.link == "" && strings.HasPrefix(p, dir+"/") {
			r = append(r, p[len(dir)+1:])
		}
	}
	sort.Strings(r)
	return
}

// Modified tells whether a file was written to or truncated.
func (s *Sim) Modified(p string) bool {
	n := s.lookup(s.abs(p))
	return n == nil || n.Touched > 0
}

func (s *Sim) mkdirs(p string) {
	for q := p; ; q = path.Dir(q) {
		if s.nodes[q] == nil {
			s.nodes[q] = s.node(true)
		}
		if q == "/" {
			return
		}
	}
}

func (s *Sim) abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = s.Cwd + "/" + p
	}
	return path.Clean(p)
}

func (s *Sim) lookup(p string) *inode {
	for i := 0; i < 10; i++ {
		n := s.nodes[p]
		if n == nil || n.link == "" {
			return n
		}
		p = s.resolve(p, n)
	}
	return nil
}

func (s *Sim) resolve(p string, n *inode) string {
	if strings.HasPrefix(n.link, "/") {
		return path.Clean(n.link)
	}
	return path.Clean(path.Dir(p) + "/" + n.link)
}

// follow gives the path behind links.
func (s *Sim) follow(p string) string {
	for i := 0; i < 10; i++ {
		n := s.nodes[p]
		if n == nil || n.link == "" {
			return p
		}
		p = s.resolve(p, n)
	}
	return p
}

func (s *Sim) histogram() (r string) {
	n := map[string]int{}
	var l []string
	for _, o := range s.Ops {
		k := o.Kind + " " + o.Path
		if n[k]++; n[k] == 1 {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	for _, k := range l {
		r += fmt.Sprintf(" %s: %d", k, n[k])
	}
	return
}

// begin records one operation and returns the fault that hits it.
func (s *Sim) begin(kind, p string, n int) *Fault {
	i := len(s.Ops)
	s.Ops = append(s.Ops, Op{kind, p, n})
	s.E.Tick()
	s.E.Ev(kind[0], uint64(len(p)), uint64(n))
	if s.StepCap > 0 && i > s.StepCap {
		s.E.Fail("io-steps", "the command used more than %d file operations (%s)", s.StepCap, s.histogram())
	}
	s.E.Logf("%d %s %s %d", i, kind, p, n)
	for k := range s.Faults {
		f := &s.Faults[k]
		if f.Op == i {
			if f.Keep {
				s.sticky[kind+p] = true
			}
			s.hit(kind, p, f)
			return f
		}
	}
	if s.sticky[kind+p] {
		f := &Fault{}
		s.hit(kind, p, f)
		return f
	}
	return nil
}

func (s *Sim) hit(kind, p string, f *Fault) {
	s.Fired++
	s.why = f.Err
	name := kind + "-error"
	if f.Mode == 1 && (kind == "read" || kind == "write") {
		name = kind + "-partial+error"
	}
	s.E.Fault(name)
	s.Hit = append(s.Hit, kind+" "+p)
}

func errOf(kind string) error {
	l := []syscall.Errno{syscall.EIO, syscall.ESTALE, syscall.ETIMEDOUT}
	switch kind {
	case "open", "create":
		l = []syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.EIO}
	case "mkdir":
		l = []syscall.Errno{syscall.EACCES, syscall.ENOSPC, syscall.EROFS}
	case "write", "close", "truncate", "sync":
		l = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT}
	}
	return l[Cur.why%len(l)]
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// File is an open file.
type File struct {
	s      *Sim
	name   string
	p      string
	n      *inode
	pos    int64
	flag   int
	closed bool
	std    int // 1 stdin, 2 stdout, 3 stderr
	orig   []byte
	wrote  bool
	dirPos int
}

func (f *File) sim() *Sim {
	if f.std != 0 {
		return Cur
	}
	return f.s
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	s := Cur
	p := s.abs(name)
	kind := "open"
	if flag&O_CREATE != 0 {
		kind = "create"
	}
	if ft := s.begin(kind, p, 0); ft != nil {
		return nil, perr("open", name, errOf(kind))
	}
	if p == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	p = s.follow(p)
	n := s.nodes[p]
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := s.lookup(path.Dir(p))
		if d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = s.node(false)
		n.mode = perm
		s.nodes[p] = n
	} else if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if strings.HasSuffix(name, "/") && !n.dir {
		return nil, perr("open", name, syscall.ENOTDIR)
	}
	acc := flag & (O_WRONLY | O_RDWR)
	if n.dir && acc != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	f := &File{s: s, name: name, p: p, n: n, flag: flag}
	if flag&O_TRUNC != 0 && acc != 0 && !n.dir {
		s.used -= n.st.Size()
		n.Touched++
		n.st = &simio.Mem{}
	}
	return f, nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

var (
	Stdin  = &File{name: "/dev/stdin", p: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", p: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", p: "/dev/stderr", std: 3}
)

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }

func (f *File) readAt(b []byte, off int64) (int, error) {
	s := f.sim()
	ft := s.begin("read", f.p, len(b))
	if f.std != 0 {
		if f.std == 1 {
			return 0, io.EOF
		}
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if ft != nil {
		n := 0
		if ft.Mode == 1 {
			n = f.n.st.ReadAt(b[:int(ft.Frac%uint64(len(b)))], off)
		}
		return n, perr("read", f.name, errOf("read"))
	}
	if off >= f.n.st.Size() {
		return 0, io.EOF
	}
	want := len(b)
	n := want
	switch s.D.Mode {
	case 1:
		n = 1 + (want-1)/64 // tiny but bounded
	case 2:
		n = 1 + s.sub.N(want)
	case 3:
		if m := s.D.Max * 37; n > m {
			n = m
		}
	case 4:
		if s.sub.N(2) == 0 {
			n = 1 + s.sub.N(want)
		}
	case 5:
		bl := int64(s.D.Max) * 16
		if lim := bl - off%bl; int64(n) > lim {
			n = int(lim)
		}
	}
	n = f.n.st.ReadAt(b[:n], off)
	if n < want && off+int64(n) < f.n.st.Size() {
		s.E.Faults["short-read"]++
	}
	s.E.Ev('r', uint64(off), uint64(n))
	return n, nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	n, err := f.readAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	for len(b) > 0 {
		m, e := f.readAt(b, off)
		if e != nil {
			return n + m, e
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	s := f.sim()
	ft := s.begin("write", f.p, len(b))
	if f.std == 1 || f.std == 0 && (f.n.dir || f.flag&(O_WRONLY|O_RDWR) == 0) {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if ft != nil {
		n := 0
		if ft.Mode == 1 {
			n = int(ft.Frac % uint64(len(b)))
		}
		f.put(b[:n], off)
		return n, perr("write", f.name, errOf("write"))
	}
	if f.std == 0 {
		grow := off + int64(len(b)) - f.n.st.Size()
		if grow < 0 {
			grow = 0
		}
		if s.Cap > 0 && s.used+grow > s.Cap {
			if !s.FullHit {
				s.E.Fault("disk-full")
				s.Hit = append(s.Hit, "disk-full "+f.p)
			}
			s.Fired++
			s.FullHit = true
			n := int64(len(b)) - (s.used + grow - s.Cap)
			if n < 0 {
				n = 0
			}
			f.put(b[:n], off)
			return int(n), perr("write", f.name, syscall.ENOSPC)
		}
	}
	f.put(b, off)
	return len(b), nil
}

func (f *File) put(b []byte, off int64) {
	s := f.sim()
	switch f.std {
	case 2:
		s.Out = append(s.Out, b...)
		if len(s.Out) > s.OutCap {
			s.E.Fail("output-size", "the command wrote more than %d bytes to standard output", s.OutCap)
		}
	case 3:
		if len(s.ErrOut) < 1<<20 {
			s.ErrOut = append(s.ErrOut, b...)
		}
	default:
		if len(b) == 0 {
			return
		}
		if !f.wrote {
			f.wrote = true
			if m, ok := f.n.st.(*simio.Mem); ok {
				f.orig = append([]byte(nil), m.B...)
			}
		}
		before := f.n.st.Size()
		f.n.Touched++
		f.n.st.WriteAt(b, off)
		s.used += f.n.st.Size() - before
		s.E.Ev('w', uint64(off), uint64(len(b)))
	}
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std == 0 && f.flag&O_APPEND != 0 {
		f.pos = f.n.st.Size()
	}
	n, err := f.writeAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return f.writeAt(b, off)
}

type onlyW struct{ io.Writer }
type onlyR struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(onlyW{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, onlyR{f}) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	s := f.sim()
	if ft := s.begin("seek", f.p, 0); ft != nil {
		return 0, perr("seek", f.name, errOf("seek"))
	}
	if f.std != 0 {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = f.pos
	case io.SeekEnd:
		if f.n.dir {
			f.pos = math.MaxInt64 // as on ext4
			return f.pos, nil
		}
		base = f.n.st.Size()
	default:
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	if base+off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = base + off
	s.E.Ev('s', uint64(f.pos), uint64(whence))
	return f.pos, nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std != 0 {
		f.sim().begin("close", f.p, 0)
		return nil
	}
	f.closed = true
	if ft := f.s.begin("close", f.p, 0); ft != nil {
		// delayed writes fail: what this file handle wrote is lost
		if f.wrote && f.s.LoseOn {
			f.n.st = &simio.Mem{B: f.orig}
		}
		return perr("close", f.name, errOf("close"))
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.sim().begin("sync", f.p, 0) != nil {
		return perr("sync", f.name, errOf("sync"))
	}
	return nil
}

func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	s := f.sim()
	if s.begin("truncate", f.p, 0) != nil {
		return perr("truncate", f.name, errOf("truncate"))
	}
	if f.std != 0 || f.n.dir || f.flag&(O_WRONLY|O_RDWR) == 0 || n < 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	before := f.n.st.Size()
	f.n.Touched++
	if n > 1<<26 {
		core.Bug("truncate to %d", n)
	}
	f.n.st.Truncate(n)
	s.used += n - before
	return nil
}

type info struct {
	name string
	n    *inode
}

func (i info) Name() string { return i.name }
func (i info) Size() int64 {
	if i.n.st == nil {
		return 0
	}
	return i.n.st.Size()
}
func (i info) Mode() FileMode     { return i.n.mode }
func (i info) ModTime() time.Time { return time.Unix(1, 0) }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() interface{}   { return nil }

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	s := f.sim()
	if s.begin("stat", f.p, 0) != nil {
		return nil, perr("stat", f.name, errOf("stat"))
	}
	if f.std != 0 {
		return info{f.name, &inode{id: -f.std, mode: fs.ModeNamedPipe | 0600}}, nil
	}
	return info{path.Base(f.p), f.n}, nil
}

func stat(op, name string, follow bool) (FileInfo, error) {
	s := Cur
	p := s.abs(name)
	if s.begin("stat", p, 0) != nil {
		return nil, perr(op, name, errOf("stat"))
	}
	var n *inode
	if follow {
		n = s.lookup(p)
	} else {
		n = s.nodes[p]
	}
	if n == nil {
		return nil, perr(op, name, syscall.ENOENT)
	}
	return info{path.Base(p), n}, nil
}

func Stat(name string) (FileInfo, error)  { return stat("stat", name, true) }
func Lstat(name string) (FileInfo, error) { return stat("lstat", name, false) }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n.id == y.n.id
}

func Mkdir(name string, perm FileMode) error {
	s := Cur
	p := s.abs(name)
	if s.begin("mkdir", p, 0) != nil {
		return perr("mkdir", name, errOf("mkdir"))
	}
	if s.nodes[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d := s.lookup(path.Dir(p))
	if d == nil || !d.dir {
		return perr("mkdir", name, syscall.ENOENT)
	}
	s.nodes[p] = s.node(true)
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	s := Cur
	p := s.abs(name)
	if s.begin("mkdir", p, 0) != nil {
		return perr("mkdir", name, errOf("mkdir"))
	}
	for q := p; ; q = path.Dir(q) {
		if n := s.lookup(q); n != nil && !n.dir {
			return perr("mkdir", q, syscall.ENOTDIR)
		}
		if q == "/" {
			break
		}
	}
	s.mkdirs(p)
	return nil
}

func Remove(name string) error {
	s := Cur
	p := s.abs(name)
	if s.begin("remove", p, 0) != nil {
		return perr("remove", name, errOf("remove"))
	}
	n := s.nodes[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir {
		for q := range s.nodes {
			if strings.HasPrefix(q, p+"/") {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	delete(s.nodes, p)
	return nil
}

func RemoveAll(name string) error {
	s := Cur
	p := s.abs(name)
	if s.begin("remove", p, 0) != nil {
		return perr("remove", name, errOf("remove"))
	}
	for q := range s.nodes {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(s.nodes, q)
		}
	}
	return nil
}

func Rename(a, b string) error {
	s := Cur
	p, q := s.abs(a), s.abs(b)
	if s.begin("rename", p, 0) != nil {
		return &LinkError{Op: "rename", Old: a, New: b, Err: syscall.EIO}
	}
	n := s.nodes[p]
	d := s.lookup(path.Dir(q))
	if n == nil || d == nil || !d.dir {
		return &LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if o := s.nodes[q]; o != nil && o.dir != n.dir {
		return &LinkError{Op: "rename", Old: a, New: b, Err: syscall.EISDIR}
	}
	mv := map[string]*inode{}
	for k, v := range s.nodes {
		if k == p || strings.HasPrefix(k, p+"/") {
			mv[k] = v
		}
	}
	for k := range mv {
		delete(s.nodes, k)
	}
	for k, v := range mv {
		s.nodes[q+k[len(p):]] = v
	}
	return nil
}

func Link(a, b string) error {
	s := Cur
	p, q := s.abs(a), s.abs(b)
	if s.begin("rename", p, 0) != nil || s.nodes[p] == nil || s.nodes[q] != nil {
		return &LinkError{Op: "link", Old: a, New: b, Err: syscall.EIO}
	}
	s.nodes[q] = s.nodes[p]
	return nil
}

func Symlink(a, b string) error {
	s := Cur
	q := s.abs(b)
	if s.begin("rename", q, 0) != nil || s.nodes[q] != nil {
		return &LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EIO}
	}
	s.PutLink(b, a)
	return nil
}

func Readlink(name string) (string, error) {
	s := Cur
	n := s.nodes[s.abs(name)]
	if n == nil || n.link == "" {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.link, nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(onlyR{f})
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

type dirEnt struct{ info }

func (d dirEnt) Type() FileMode          { return d.n.mode.Type() }
func (d dirEnt) Info() (FileInfo, error) { return d.info, nil }
func (d dirEnt) String() string          { return d.name }

func (s *Sim) list(p string) (r []DirEntry) {
	pre := p + "/"
	if p == "/" {
		pre = "/"
	}
	for q, n := range s.nodes {
		if q != p && strings.HasPrefix(q, pre) && !strings.Contains(q[len(pre):], "/") {
			r = append(r, dirEnt{info{q[len(pre):], n}})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return
}

func ReadDir(name string) ([]DirEntry, error) {
	s := Cur
	p := s.abs(name)
	if s.begin("readdir", p, 0) != nil {
		return nil, perr("open", name, errOf("readdir"))
	}
	n := s.lookup(p)
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	return s.list(p), nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	l, err := ReadDir(f.p)
	if err != nil {
		return nil, err
	}
	if f.dirPos > len(l) {
		f.dirPos = len(l)
	}
	l = l[f.dirPos:]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if n < len(l) {
			l = l[:n]
		}
	}
	f.dirPos += len(l)
	return l, nil
}

func (f *File) Readdir(n int) (r []FileInfo, err error) {
	l, err := f.ReadDir(n)
	for _, d := range l {
		i, _ := d.Info()
		r = append(r, i)
	}
	return r, err
}

func (f *File) Readdirnames(n int) (r []string, err error) {
	l, err := f.ReadDir(n)
	for _, d := range l {
		r = append(r, d.Name())
	}
	return r, err
}

func CreateTemp(dir, pattern string) (*File, error) {
	s := Cur
	if dir == "" {
		dir = TempDir()
	}
	for {
		s.tmp++
		name := path.Join(dir, tempName(pattern, s.tmp))
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	s := Cur
	if dir == "" {
		dir = TempDir()
	}
	s.tmp++
	name := path.Join(dir, tempName(pattern, s.tmp))
	return name, Mkdir(name, 0700)
}

func tempName(pattern string, n int) string {
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i] + fmt.Sprintf("%09d", n) + pattern[i+1:]
	}
	return pattern + fmt.Sprintf("%09d", n)
}

func (f *File) Chdir() error                       { return nil }
func (f *File) Chmod(FileMode) error               { return nil }
func (f *File) Chown(uid, gid int) error           { return nil }
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

// SetDelivery chooses how reads are delivered.
func (s *Sim) SetDelivery(d simio.Delivery) {
	s.D = d
	s.sub = core.NewSub(d.Seed)
}
