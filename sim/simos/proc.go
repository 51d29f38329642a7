package simos

import (
	"fmt"
	"io/fs"
	"os"
	"reflect"
	"sort"
	"syscall"
	"time"

	"verifsim/core"
)

const (
	O_RDONLY          = os.O_RDONLY
	O_WRONLY          = os.O_WRONLY
	O_RDWR            = os.O_RDWR
	O_APPEND          = os.O_APPEND
	O_CREATE          = os.O_CREATE
	O_EXCL            = os.O_EXCL
	O_SYNC            = os.O_SYNC
	O_TRUNC           = os.O_TRUNC
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
	ModeDir           = fs.ModeDir
	ModeAppend        = fs.ModeAppend
	ModeExclusive     = fs.ModeExclusive
	ModeTemporary     = fs.ModeTemporary
	ModeSymlink       = fs.ModeSymlink
	ModeDevice        = fs.ModeDevice
	ModeNamedPipe     = fs.ModeNamedPipe
	ModeSocket        = fs.ModeSocket
	ModeSetuid        = fs.ModeSetuid
	ModeSetgid        = fs.ModeSetgid
	ModeCharDevice    = fs.ModeCharDevice
	ModeSticky        = fs.ModeSticky
	ModeIrregular     = fs.ModeIrregular
	ModeType          = fs.ModeType
	ModePerm          = fs.ModePerm
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone
	Interrupt           = os.Interrupt
	Kill                = os.Kill
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

func IsExist(err error) bool                        { return os.IsExist(err) }
func IsNotExist(err error) bool                     { return os.IsNotExist(err) }
func IsPermission(err error) bool                   { return os.IsPermission(err) }
func IsTimeout(err error) bool                      { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool                  { return c == '/' }
func NewSyscallError(s string, err error) error     { return os.NewSyscallError(s, err) }
func Expand(s string, m func(string) string) string { return os.Expand(s, m) }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func Getenv(k string) string                        { return Cur.env[k] }
func LookupEnv(k string) (string, bool)             { v, ok := Cur.env[k]; return v, ok }
func Setenv(k, v string) error                      { Cur.env[k] = v; return nil }
func Unsetenv(k string) error                       { delete(Cur.env, k); return nil }
func Clearenv()                                     { Cur.env = map[string]string{} }
func Environ() (r []string) {
	for k, v := range Cur.env {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return
}
func Getwd() (string, error)              { return Cur.Cwd, nil }
func Chdir(d string) error                { Cur.Cwd = Cur.abs(d); return nil }
func TempDir() string                     { return "/tmp" }
func UserHomeDir() (string, error)        { return "/work", nil }
func UserCacheDir() (string, error)       { return "/work/.cache", nil }
func UserConfigDir() (string, error)      { return "/work/.config", nil }
func Hostname() (string, error)           { return "sim", nil }
func Executable() (string, error)         { return "/bin/mp4tool", nil }
func Getpid() int                         { return 2 }
func Getppid() int                        { return 1 }
func Getuid() int                         { return 1000 }
func Geteuid() int                        { return 1000 }
func Getgid() int                         { return 1000 }
func Getegid() int                        { return 1000 }
func Getpagesize() int                    { return 4096 }
func Chmod(name string, m FileMode) error { _, err := Stat(name); return err }
func Chown(name string, u, g int) error   { _, err := Stat(name); return err }
func Lchown(name string, u, g int) error  { _, err := Lstat(name); return err }
func Chtimes(name string, a, m time.Time) error {
	_, err := Stat(name)
	return err
}
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}
func Pipe() (r, w *File, err error) { return nil, nil, NewSyscallError("pipe2", syscall.ENFILE) }

// Args are the arguments of the simulated process (set by Run before the
// package variables of the command are initialised again).
var Args = []string{"mp4tool"}

type exit struct{ code int }

// Exit ends the simulated process.
func Exit(code int) { panic(exit{code}) }

var resets []func()

func init() { Cur = New(core.NewEnv(core.NewReplaySrc(nil))) } // for package variables

// RegisterReset is called by the rewritten packages, in initialisation order.
func RegisterReset(f func()) { resets = append(resets, f) }

// Run runs main as a fresh process with the given arguments.
func (s *Sim) Run(main func(), args ...string) {
	s.Args = append([]string{"mp4tool"}, args...)
	Cur = s
	Args = s.Args
	s.E.Logf("$ mp4tool %q", args)
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(exit)
			if !ok {
				panic(r)
			}
			s.Code = x.code
		}
		s.Exited = true
		s.E.Ev('x', uint64(s.Code), uint64(len(s.Out)))
		s.E.Logf("exit status %d", s.Code)
	}()
	for _, f := range resets {
		f()
	}
	main()
}

// Println stands in for the built-in println and print.
func Println(a ...interface{}) { fmt.Fprintln(Stderr, a...) }
func Print(a ...interface{})   { fmt.Fprint(Stderr, a...) }

// Keys lists the keys of a map in the order this simulated process iterates it.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	names := make(map[K]string, len(ks))
	for _, k := range ks {
		v := reflect.ValueOf(&k).Elem()
		switch v.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			names[k] = fmt.Sprintf("%020d", v.Uint())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			names[k] = fmt.Sprintf("%020d", uint64(v.Int())^1<<63)
		default:
			names[k] = fmt.Sprint(k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return names[ks[i]] < names[ks[j]] })
	s := Cur
	if s != nil {
		s.MapIter++
		for i := len(ks) - 1; i > 0; i-- {
			j := s.Order.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

// Zero gives a zero value of the map's element type.
func Zero[M ~map[K]V, K comparable, V any](m M) (v V) { return }

// Get stores the element and tells whether it is still there.
func Get[M ~map[K]V, K comparable, V any](m M, k K, v *V) bool {
	x, ok := m[k]
	if ok {
		*v = x
	}
	return ok
}

func Has[M ~map[K]V, K comparable, V any](m M, k K) bool { _, ok := m[k]; return ok }
