package core

import (
	"errors"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
)

// Violation is a broken property, reported with the choices that lead to it.
type Violation struct {
	Class string `json:"class"` // stable identity used by the shrinker
	Msg   string `json:"msg"`
	Stack string `json:"stack,omitempty"`
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

// Env is the environment of one simulated run.
type Env struct {
	*Src
	Hash    uint64         // hash of the event sequence of this run
	Steps   uint64         // simulated time: one tick per simulated I/O operation or scheduling step
	Faults  map[string]int // faults that actually fired
	Probes  map[string]int // rare conditions reached
	Evals   int            // oracle comparisons
	Label   string
	Tracing bool
	Trace   []string
	MaxStep uint64
	NonTriv bool
	Yield   func() // offers the turn to other simulated tasks
}

func NewEnv(s *Src) *Env {
	return &Env{Src: s, Hash: 14695981039346656037, Faults: map[string]int{}, Probes: map[string]int{}, MaxStep: 20_000_000}
}

// Ev records one event into the hash (and the trace when replaying).
func (e *Env) Ev(kind byte, a, b uint64) {
	h := e.Hash
	h = (h ^ uint64(kind)) * 1099511628211
	h = (h ^ a) * 1099511628211
	h = (h ^ b ^ (h >> 29)) * 1099511628211
	e.Hash = h
	if e.Tracing && len(e.Trace) < 20000 {
		e.Trace = append(e.Trace, fmt.Sprintf("%d %c %d %d", e.Steps, kind, a, b))
	}
}

func (e *Env) Logf(f string, a ...interface{}) {
	if e.Tracing && len(e.Trace) < 20000 {
		e.Trace = append(e.Trace, fmt.Sprintf("%d ", e.Steps)+fmt.Sprintf(f, a...))
	}
}

func (e *Env) Fault(kind string) {
	e.Faults[kind]++
	e.Logf("FAULT %s", kind)
	e.Ev('!', uint64(len(kind)), uint64(kind[0]))
}
func (e *Env) Probe(name string) { e.Probes[name]++ }

// Tick advances simulated time by one step and enforces the step cap.
func (e *Env) Tick() {
	e.Steps++
	if e.Steps > e.MaxStep {
		e.Fail("no-progress", "more than %d simulated I/O steps in one run", e.MaxStep)
	}
	if e.Yield != nil {
		e.Yield()
	}
}

// Fail reports a violation and ends the run.
func (e *Env) Fail(class, f string, a ...interface{}) {
	panic(&Violation{Class: class, Msg: fmt.Sprintf(f, a...)})
}

// HarnessError marks a defect of the machinery itself: never a VIOLATION.
type HarnessError struct{ Msg string }

func (h *HarnessError) Error() string { return "harness: " + h.Msg }

func Bug(f string, a ...interface{}) { panic(&HarnessError{fmt.Sprintf(f, a...)}) }

// Protect runs f and converts any panic into a violation (nil if none).
// Panics of the machinery itself propagate.
func Protect(f func()) (v *Violation) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case *Violation:
			v = x
		case *HarnessError:
			panic(x)
		default:
			msg := fmt.Sprint(r)
			if err, ok := r.(error); ok && strings.HasPrefix(msg, "harness:") {
				panic(err)
			}
			if strings.HasPrefix(msg, "harness:") {
				panic(&HarnessError{msg})
			}
			v = &Violation{Class: "panic", Msg: msg, Stack: trimStack(string(debug.Stack()))}
		}
	}()
	f()
	return nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func SortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ErrInjected is the identity of every injected I/O error.
var ErrInjected = errors.New("injected I/O fault")

type InjectedError struct{ Op string }

func (e *InjectedError) Error() string        { return "injected I/O fault: " + e.Op }
func (e *InjectedError) Is(target error) bool { return target == ErrInjected }
