// Package simos stands in for package os over the simulated file system.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/go-air/dupi/zz/rt"
)

// File is an open file.
type File struct {
	h    *rt.Handle
	name string
	std  int
	app  bool
}

func w() *rt.World {
	if rt.W == nil {
		panic("simos: file system call outside a simulation")
	}
	return rt.W
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}
	return &os.PathError{Op: op, Path: name, Err: err}
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	h, err := w().FS.Open(name, flag, uint32(perm.Perm()))
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &File{h: h, name: name, app: flag&os.O_APPEND != 0}, nil
}

func (f *File) chk() error {
	if f == nil {
		return os.ErrInvalid
	}
	return nil
}

func ferr(err error) error {
	if err == syscall.EBADF {
		return os.ErrClosed
	}
	return err
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f == nil || f.h == nil {
		return ^uintptr(0)
	}
	return uintptr(f.h.Fd())
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.chk(); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	n, err := f.h.Read(b)
	if err != nil && err != io.EOF {
		return n, perr("read", f.name, ferr(err))
	}
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.chk(); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, os.ErrInvalid)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, err := f.h.ReadAt(b, off)
	if err != nil && err != io.EOF {
		return n, perr("read", f.name, ferr(err))
	}
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.chk(); err != nil {
		return 0, err
	}
	switch f.std {
	case 1, 2:
		if f.std == 1 {
			n, err := w().FS.StdWrite(b)
			if err != nil {
				return n, perr("write", f.name, ferr(err))
			}
			return n, nil
		}
		p := w().Cur()
		p.Stderr = append(p.Stderr, b...)
		return len(b), nil
	}
	n, err := f.h.Write(b)
	if err != nil {
		return n, perr("write", f.name, ferr(err))
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.chk(); err != nil {
		return 0, err
	}
	if f.app {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, perr("writeat", f.name, os.ErrInvalid)
	}
	n, err := f.h.WriteAt(b, off)
	if err != nil {
		return n, perr("write", f.name, ferr(err))
	}
	return n, nil
}

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, onlyReader{r}) }
func (f *File) WriteTo(wr io.Writer) (int64, error) { return io.Copy(onlyWriter{wr}, onlyReader{f}) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.chk(); err != nil {
		return 0, err
	}
	n, err := f.h.Seek(off, whence)
	return n, perr("seek", f.name, ferr(err))
}

func (f *File) Close() error {
	if err := f.chk(); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	return perr("close", f.name, ferr(f.h.Close()))
}

func (f *File) Sync() error {
	if err := f.chk(); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	return perr("sync", f.name, ferr(f.h.Sync()))
}

func (f *File) Truncate(size int64) error {
	if err := f.chk(); err != nil {
		return err
	}
	return perr("truncate", f.name, ferr(f.h.Truncate(size)))
}

func (f *File) Chmod(mode os.FileMode) error { return Chmod(f.name, mode) }

func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }

type info struct{ i rt.Info }

func (i info) Name() string { return i.i.Name }
func (i info) Size() int64  { return i.i.Size }
func (i info) Mode() os.FileMode {
	m := os.FileMode(i.i.Mode)
	if i.i.Dir {
		m |= os.ModeDir
	}
	return m
}
func (i info) ModTime() time.Time         { return time.Unix(0, i.i.Mtime) }
func (i info) IsDir() bool                { return i.i.Dir }
func (i info) Sys() interface{}           { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) String() string             { return i.i.Name }

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.chk(); err != nil {
		return nil, err
	}
	i, err := f.h.Stat()
	if err != nil {
		return nil, perr("stat", f.name, ferr(err))
	}
	return info{i}, nil
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	l, err := f.h.ReadDir(n)
	if err != nil {
		return nil, perr("readdirent", f.name, ferr(err))
	}
	if n > 0 && len(l) == 0 {
		return nil, io.EOF
	}
	out := make([]fs.DirEntry, len(l))
	for i := range l {
		out[i] = info{l[i]}
	}
	return out, nil
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	l, err := f.h.ReadDir(n)
	if err != nil {
		return nil, perr("readdirent", f.name, ferr(err))
	}
	if n > 0 && len(l) == 0 {
		return nil, io.EOF
	}
	out := make([]os.FileInfo, len(l))
	for i := range l {
		out[i] = info{l[i]}
	}
	return out, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.Readdir(n)
	var out []string
	for _, i := range l {
		out = append(out, i.Name())
	}
	return out, err
}

func Stat(name string) (os.FileInfo, error) {
	i, err := w().FS.Stat(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return info{i}, nil
}

func Lstat(name string) (os.FileInfo, error) {
	i, err := w().FS.Stat(name)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return info{i}, nil
}

func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.i.Ino == y.i.Ino
}

func Mkdir(name string, perm os.FileMode) error {
	return perr("mkdir", name, w().FS.Mkdir(name, uint32(perm.Perm())))
}

func MkdirAll(name string, perm os.FileMode) error {
	if fi, err := Stat(name); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	i := strings.LastIndex(strings.TrimRight(name, "/"), "/")
	if i > 0 {
		if err := MkdirAll(name[:i], perm); err != nil {
			return err
		}
	}
	err := Mkdir(name, perm)
	if err != nil && os.IsExist(err) {
		return nil
	}
	return err
}

func Remove(name string) error { return perr("remove", name, w().FS.Remove(name)) }

func RemoveAll(name string) error {
	if name == "" {
		return nil
	}
	fi, err := Lstat(name)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	if !fi.IsDir() {
		err := Remove(name)
		if err != nil && !os.IsNotExist(err) {
			return err
		}
		return nil
	}
	for try := 0; ; try++ {
		l, err := ReadDir(name)
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		for _, e := range l {
			if err := RemoveAll(name + "/" + e.Name()); err != nil {
				return err
			}
		}
		err = Remove(name)
		if err == nil || os.IsNotExist(err) {
			return nil
		}
		if pe, ok := err.(*os.PathError); ok && pe.Err == syscall.ENOTEMPTY && try < 100 {
			continue // someone added a file meanwhile, go round again
		}
		return err
	}
}

func Rename(from, to string) error {
	if err := w().FS.Rename(from, to); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	return nil
}

func Link(from, to string) error {
	if err := w().FS.Link(from, to); err != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	return nil
}

func Symlink(from, to string) error {
	return &os.LinkError{Op: "symlink", Old: from, New: to, Err: syscall.EPERM}
}

func Readlink(name string) (string, error) { return "", perr("readlink", name, syscall.EINVAL) }

func Chmod(name string, mode os.FileMode) error {
	return perr("chmod", name, w().FS.Chmod(name, uint32(mode.Perm())))
}

func Chtimes(name string, a, m time.Time) error { return nil }

func Truncate(name string, size int64) error {
	return perr("truncate", name, w().FS.TruncatePath(name, size))
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func temp(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	suffix := strconv.FormatUint(w().RandSrc.U64()%1e9, 10)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return dir + "/" + pattern[:i] + suffix + pattern[i+1:]
	}
	return dir + "/" + pattern + suffix
}

func CreateTemp(dir, pattern string) (*File, error) {
	for {
		f, err := OpenFile(temp(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	for {
		n := temp(dir, pattern)
		err := Mkdir(n, 0700)
		if err != nil && os.IsExist(err) {
			continue
		}
		return n, err
	}
}

func TempDir() string              { return "/tmp" }
func Hostname() (string, error)    { return "sim", nil }
func Getpid() int                  { return 1000 }
func Getuid() int                  { return 0 }
func Exit(code int)                { w().Exit(code) }
func Executable() (string, error)  { return "/bin/dupi", nil }
func Getpagesize() int             { return 4096 }

func Getwd() (string, error) {
	d, err := w().FS.Getwd()
	if err != nil {
		return "", os.NewSyscallError("getwd", err)
	}
	return d, nil
}

func UserHomeDir() (string, error) {
	if d, ok := w().Cur().Env["HOME"]; ok {
		if d == "" {
			return "", errors.New("$HOME is not defined")
		}
		return d, nil
	}
	return "/home/user", nil
}

func Chdir(dir string) error {
	fi, err := Stat(dir)
	if err != nil {
		return err
	}
	if !fi.IsDir() {
		return perr("chdir", dir, syscall.ENOTDIR)
	}
	p := w().Cur()
	if strings.HasPrefix(dir, "/") {
		p.Cwd = dir
	} else {
		p.Cwd += "/" + dir
	}
	return nil
}

func Getenv(k string) string {
	if rt.W == nil {
		return ""
	}
	return w().Cur().Env[k]
}

func LookupEnv(k string) (string, bool) {
	if rt.W == nil {
		return "", false
	}
	v, ok := w().Cur().Env[k]
	return v, ok
}

func Setenv(k, v string) error { w().Cur().Env[k] = v; return nil }
func Unsetenv(k string) error  { delete(w().Cur().Env, k); return nil }

var (
	noArgs = []string{"sim"}
	stdin  = &File{name: "/dev/stdin", std: 3}
	stdout = &File{name: "/dev/stdout", std: 1}
	stderr = &File{name: "/dev/stderr", std: 2}
)

// The process-wide variables of package os are reached through pointers.
func PtrArgs() *[]string {
	if rt.W == nil {
		return &noArgs
	}
	return &w().Cur().Args
}
func PtrStdin() **File  { return &stdin }
func PtrStdout() **File { return &stdout }
func PtrStderr() **File { return &stderr }

// HandleFor lets sibling packages reach the descriptor table.
func HandleFor(fd int) *rt.Handle { return w().HandleOf(fd) }
