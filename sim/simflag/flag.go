// Package simflag is package flag for the simulated command line tool: parse
// errors end the simulated process.
package simflag

import (
	"encoding"
	"errors"
	"flag"
	"fmt"
	"time"

	"verifsim/simos"
)

type (
	ErrorHandling = flag.ErrorHandling
	Flag          = flag.Flag
	Getter        = flag.Getter
	Value         = flag.Value
)

const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

var ErrHelp = flag.ErrHelp

type FlagSet struct {
	*flag.FlagSet
	eh ErrorHandling
}

func NewFlagSet(name string, eh ErrorHandling) *FlagSet {
	f := &FlagSet{flag.NewFlagSet(name, flag.ContinueOnError), eh}
	f.SetOutput(simos.Stderr)
	return f
}

func (f *FlagSet) ErrorHandling() ErrorHandling { return f.eh }
func (f *FlagSet) Init(name string, eh ErrorHandling) {
	f.FlagSet.Init(name, flag.ContinueOnError)
	f.eh = eh
}

func (f *FlagSet) Parse(args []string) error {
	err := f.FlagSet.Parse(args)
	if err == nil {
		return nil
	}
	switch f.eh {
	case ExitOnError:
		if errors.Is(err, flag.ErrHelp) {
			simos.Exit(0)
		}
		simos.Exit(2)
	case PanicOnError:
		panic(err)
	}
	return err
}

var CommandLine = newCL()

func newCL() *FlagSet { return NewFlagSet("mp4tool", ExitOnError) }

func init() { simos.RegisterReset(func() { CommandLine = newCL() }) }

var Usage = func() {
	fmt.Fprintf(simos.Stderr, "Usage of %s:\n", "mp4tool")
	PrintDefaults()
}

func Arg(i int) string                            { return CommandLine.Arg(i) }
func Args() []string                              { return CommandLine.Args() }
func Bool(n string, v bool, u string) *bool       { return CommandLine.Bool(n, v, u) }
func BoolFunc(n, u string, fn func(string) error) { CommandLine.BoolFunc(n, u, fn) }
func BoolVar(p *bool, n string, v bool, u string) { CommandLine.BoolVar(p, n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}
func Float64(n string, v float64, u string) *float64       { return CommandLine.Float64(n, v, u) }
func Float64Var(p *float64, n string, v float64, u string) { CommandLine.Float64Var(p, n, v, u) }
func Func(n, u string, fn func(string) error)              { CommandLine.Func(n, u, fn) }
func Int(n string, v int, u string) *int                   { return CommandLine.Int(n, v, u) }
func Int64(n string, v int64, u string) *int64             { return CommandLine.Int64(n, v, u) }
func Int64Var(p *int64, n string, v int64, u string)       { CommandLine.Int64Var(p, n, v, u) }
func IntVar(p *int, n string, v int, u string)             { CommandLine.IntVar(p, n, v, u) }
func NArg() int                                            { return CommandLine.NArg() }
func NFlag() int                                           { return CommandLine.NFlag() }
func Parse()                                               { CommandLine.Parse(simos.Args[1:]) }
func Parsed() bool                                         { return CommandLine.Parsed() }
func PrintDefaults()                                       { CommandLine.PrintDefaults() }
func Set(n, v string) error                                { return CommandLine.Set(n, v) }
func String(n, v, u string) *string                        { return CommandLine.String(n, v, u) }
func StringVar(p *string, n, v, u string)                  { CommandLine.StringVar(p, n, v, u) }
func TextVar(p encoding.TextUnmarshaler, n string, v encoding.TextMarshaler, u string) {
	CommandLine.TextVar(p, n, v, u)
}
func Uint(n string, v uint, u string) *uint             { return CommandLine.Uint(n, v, u) }
func Uint64(n string, v uint64, u string) *uint64       { return CommandLine.Uint64(n, v, u) }
func Uint64Var(p *uint64, n string, v uint64, u string) { CommandLine.Uint64Var(p, n, v, u) }
func UintVar(p *uint, n string, v uint, u string)       { CommandLine.UintVar(p, n, v, u) }
func UnquoteUsage(f *Flag) (string, string)             { return flag.UnquoteUsage(f) }
func Var(v Value, n string, u string)                   { CommandLine.Var(v, n, u) }
func Visit(fn func(*Flag))                              { CommandLine.Visit(fn) }
func VisitAll(fn func(*Flag))                           { CommandLine.VisitAll(fn) }
func Lookup(n string) *Flag                             { return CommandLine.Lookup(n) }
