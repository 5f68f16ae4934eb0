// Package simsyscall stands in for the descriptor calls of the system call packages.
package simsyscall

import (
	"syscall"

	"github.com/go-air/dupi/zz/rt"
	"github.com/go-air/dupi/zz/simos"
)

func Flock(fd int, how int) error { return rt.W.Flock(fd, how) }

func Fsync(fd int) error {
	h := simos.HandleFor(fd)
	if h == nil {
		return syscall.EBADF
	}
	return h.Sync()
}

func Fdatasync(fd int) error { return Fsync(fd) }

func Ftruncate(fd int, n int64) error {
	h := simos.HandleFor(fd)
	if h == nil {
		return syscall.EBADF
	}
	return h.Truncate(n)
}

func Pread(fd int, b []byte, off int64) (int, error) {
	h := simos.HandleFor(fd)
	if h == nil {
		return 0, syscall.EBADF
	}
	return h.ReadAt(b, off)
}

func Pwrite(fd int, b []byte, off int64) (int, error) {
	h := simos.HandleFor(fd)
	if h == nil {
		return 0, syscall.EBADF
	}
	return h.WriteAt(b, off)
}

func Write(fd int, b []byte) (int, error) {
	h := simos.HandleFor(fd)
	if h == nil {
		return 0, syscall.EBADF
	}
	return h.Write(b)
}

func Close(fd int) error {
	h := simos.HandleFor(fd)
	if h == nil {
		return syscall.EBADF
	}
	return h.Close()
}

func Unlink(name string) error { return rt.W.FS.Remove(name) }
func Rename(a, b string) error { return rt.W.FS.Rename(a, b) }
func Getpid() int              { return simos.Getpid() }
