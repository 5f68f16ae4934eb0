// Package simflag is package flag for the simulated processes, each of which
// has its own arguments and exits by itself.
package simflag

import (
	"flag"

	"github.com/go-air/dupi/zz/rt"
)

type ErrorHandling = flag.ErrorHandling

// FlagSet ends the simulated process where the original ends the real one.
type FlagSet struct {
	*flag.FlagSet
	handling ErrorHandling
}

func NewFlagSet(name string, h ErrorHandling) *FlagSet {
	f := &FlagSet{flag.NewFlagSet(name, flag.ContinueOnError), h}
	f.SetOutput(discard{})
	return f
}

func (f *FlagSet) Init(name string, h ErrorHandling) {
	f.FlagSet.Init(name, flag.ContinueOnError)
	f.handling = h
}

func (f *FlagSet) ErrorHandling() ErrorHandling { return f.handling }

func (f *FlagSet) Parse(args []string) error {
	err := f.FlagSet.Parse(args)
	if err == nil {
		return nil
	}
	switch f.handling {
	case flag.ExitOnError:
		if err == flag.ErrHelp {
			rt.W.Exit(0)
		}
		rt.W.Exit(2)
	case flag.PanicOnError:
		panic(err)
	}
	return err
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }
