// Package simlog is package log for the simulated command line tool.
package simlog

import (
	"fmt"
	"io"
	"log"

	"verifsim/simos"
)

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = 0
)

type Logger struct{ *log.Logger }

func New(w io.Writer, p string, fl int) *Logger {
	return &Logger{log.New(w, p, fl&^(Ldate|Ltime|Lmicroseconds))}
}

var std = New(simos.Stderr, "", 0)

func Default() *Logger                      { return std }
func (l *Logger) Fatal(a ...any)            { l.Print(a...); simos.Exit(1) }
func (l *Logger) Fatalf(f string, a ...any) { l.Printf(f, a...); simos.Exit(1) }
func (l *Logger) Fatalln(a ...any)          { l.Println(a...); simos.Exit(1) }
func Print(a ...any)                        { std.Print(a...) }
func Printf(f string, a ...any)             { std.Printf(f, a...) }
func Println(a ...any)                      { std.Println(a...) }
func Fatal(a ...any)                        { std.Fatal(a...) }
func Fatalf(f string, a ...any)             { std.Fatalf(f, a...) }
func Fatalln(a ...any)                      { std.Fatalln(a...) }
func Panic(a ...any)                        { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any)             { panic(fmt.Sprintf(f, a...)) }
func Panicln(a ...any)                      { panic(fmt.Sprintln(a...)) }
func SetFlags(int)                          {}
func SetPrefix(p string)                    { std.SetPrefix(p) }
func SetOutput(w io.Writer)                 { std.SetOutput(w) }
func Flags() int                            { return std.Flags() }
func Prefix() string                        { return std.Prefix() }
func Writer() io.Writer                     { return std.Writer() }
