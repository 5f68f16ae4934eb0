package simflag

import (
	"flag"

	"github.com/go-air/dupi/zz/rt"
)

// CommandLine is that of the program which was reset last.
var CommandLine = NewFlagSet("program", flag.ExitOnError)

func init() { rt.RegisterReset(Reset) }

// Reset forgets all flags, before a program's variables are set again.
func Reset() { CommandLine = NewFlagSet("program", flag.ExitOnError) }

func Int(n string, v int, u string) *int             { return CommandLine.Int(n, v, u) }
func Int64(n string, v int64, u string) *int64       { return CommandLine.Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint          { return CommandLine.Uint(n, v, u) }
func Float64(n string, v float64, u string) *float64 { return CommandLine.Float64(n, v, u) }
func Bool(n string, v bool, u string) *bool          { return CommandLine.Bool(n, v, u) }
func String(n string, v, u string) *string           { return CommandLine.String(n, v, u) }
func IntVar(p *int, n string, v int, u string)       { CommandLine.IntVar(p, n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)    { CommandLine.BoolVar(p, n, v, u) }
func StringVar(p *string, n string, v, u string)     { CommandLine.StringVar(p, n, v, u) }
func Args() []string                                 { return CommandLine.Args() }
func Arg(i int) string                               { return CommandLine.Arg(i) }
func NArg() int                                      { return CommandLine.NArg() }
func NFlag() int                                     { return CommandLine.NFlag() }
func Parsed() bool                                   { return CommandLine.Parsed() }
func PrintDefaults()                                 { CommandLine.PrintDefaults() }

// Usage is called if the arguments are not understood.
var Usage = func() {}

func Parse() { CommandLine.Parse(rt.W.Cur().Args[1:]) }
