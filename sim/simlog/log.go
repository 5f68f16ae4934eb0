// Package simlog stands in for the standard logger.
package simlog

import (
	"fmt"
	"io"

	"github.com/go-air/dupi/zz/rt"
	"github.com/go-air/dupi/zz/simos"
)

func out(s string) {
	if rt.W == nil {
		return
	}
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	(*simos.PtrStderr()).Write([]byte(s))
}

func Print(a ...interface{})            { out(fmt.Sprint(a...)) }
func Println(a ...interface{})          { out(fmt.Sprintln(a...)) }
func Printf(f string, a ...interface{}) { out(fmt.Sprintf(f, a...)) }
func Fatal(a ...interface{})            { out(fmt.Sprint(a...)); simos.Exit(1) }
func Fatalln(a ...interface{})          { out(fmt.Sprintln(a...)); simos.Exit(1) }
func Fatalf(f string, a ...interface{}) { out(fmt.Sprintf(f, a...)); simos.Exit(1) }
func Panic(a ...interface{})            { s := fmt.Sprint(a...); out(s); panic(s) }
func Panicln(a ...interface{})          { s := fmt.Sprintln(a...); out(s); panic(s) }
func Panicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); out(s); panic(s) }
func SetPrefix(string)                  {}
func SetFlags(int)                      {}
func Flags() int                        { return 0 }
func Prefix() string                    { return "" }
func SetOutput(io.Writer)               {}
func Writer() io.Writer                 { return *simos.PtrStderr() }
func Output(d int, s string) error      { out(s); return nil }
