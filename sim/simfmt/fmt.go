// Package simfmt stands in for the printing functions of package fmt that use
// the process's standard output.
package simfmt

import (
	"fmt"

	"github.com/go-air/dupi/zz/simos"
)

func Print(a ...interface{}) (int, error)   { return fmt.Fprint(*simos.PtrStdout(), a...) }
func Println(a ...interface{}) (int, error) { return fmt.Fprintln(*simos.PtrStdout(), a...) }
func Printf(f string, a ...interface{}) (int, error) {
	return fmt.Fprintf(*simos.PtrStdout(), f, a...)
}
