// Package simioutil stands in for the parts of io/ioutil that touch the file
// system.
package simioutil

import (
	"os"

	"github.com/go-air/dupi/zz/simos"
)

func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func WriteFile(name string, d []byte, perm os.FileMode) error {
	return simos.WriteFile(name, d, perm)
}
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return simos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]os.FileInfo, error) {
	f, err := simos.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.Readdir(-1)
}
