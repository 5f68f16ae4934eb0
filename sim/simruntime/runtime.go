// Package simruntime stands in for the scheduling parts of package runtime.
package simruntime

import "github.com/go-air/dupi/zz/rt"

func Gosched()                      { rt.Yield() }
func NumCPU() int                   { return 4 }
func GOMAXPROCS(n int) int          { return 4 }
func SetFinalizer(a, b interface{}) {}
func KeepAlive(a interface{})       {}
func GC()                           {}
