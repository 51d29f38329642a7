// Package clichecks holds the checks of the command line tool, which runs whole
// (argument parsing to exit status) as a simulated process.
package clichecks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/abema/go-mp4"
	"github.com/abema/go-mp4/cmd/mp4tool/verifcli"
	"verifsim/checks"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
	"verifsim/simos"
)

var real = []string{"cmd/mp4tool (main, argument parsing and all commands, compiled from the working tree with simulated os/fmt/flag)", "github.com/abema/go-mp4", "github.com/sunfish-shogi/bufseekio, golang.org/x/term, gopkg.in/yaml.v2, encoding/json"}
var stub = []string{"file system, standard streams, process arguments and exit status (package os): in memory, with seeded delivery and faults", "iteration order of maps in the commands (seeded)"}

// typeStr is the printed form of a box type.
func typeStr(t mp4.BoxType) string {
	for _, c := range t {
		if (c < 0x20 || c > 0x7e) && c != 0xa9 {
			return fmt.Sprintf("0x%02x%02x%02x%02x", t[0], t[1], t[2], t[3])
		}
	}
	return strings.ReplaceAll(string(t[:]), "\xa9", "(c)")
}

// run executes one command as a fresh process over the given file system.
func run(e *core.Env, s *simos.Sim, args ...string) {
	if s.StepCap == 0 {
		s.StepCap = 400000
	}
	checks.Sut(e, "mp4tool "+strings.Join(args, " "), func() { s.Run(verifcli.Run, args...) })
	if len(s.Ops) > 0 {
		e.NonTriv = true
	}
}

// scene prepares a file system with the input file.
func scene(e *core.Env, in simio.Store) *simos.Sim {
	s := simos.New(e)
	s.Put("in.mp4", in)
	s.SetDelivery(simio.DrawDelivery(e.Src))
	return s
}

// fork is the same situation for one more run with the same seeds.
func fork(s *simos.Sim, order uint64) *simos.Sim {
	c := s.Clone()
	c.SetDelivery(s.D)
	c.Order = core.NewSub(order)
	return c
}

// drawFaults places faults on the operations of a fault-free run.
func drawFaults(e *core.Env, ops []simos.Op, kinds map[string]bool) []simos.Fault {
	by := map[string][]int{}
	var names []string
	for i, o := range ops {
		if !kinds[o.Kind] || o.Path == "/dev/stderr" {
			continue
		}
		k := o.Kind
		if by[k] == nil {
			names = append(names, k)
		}
		by[k] = append(by[k], i)
	}
	if len(names) == 0 {
		return nil
	}
	l := by[names[e.N(len(names))]]
	f := simos.Fault{Op: l[e.N(len(l))]}
	if e.P(1, 2) {
		f.Mode = 1
		f.Frac = e.U64n(1 << 20)
	}
	f.Keep = e.P(1, 3)
	f.Err = e.N(3)
	return []simos.Fault{f}
}

func short(b []byte) string {
	if len(b) > 200 {
		b = b[:200]
	}
	return fmt.Sprintf("%q", b)
}

// firstDiff describes where two byte strings differ.
func firstDiff(want, got []byte) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			hi := i + 8
			return fmt.Sprintf("byte %d: expected %x, found %x (lengths %d and %d)", i, clip(want, i, hi), clip(got, i, hi), len(want), len(got))
		}
	}
	return fmt.Sprintf("expected %d bytes, found %d", len(want), len(got))
}

func clip(b []byte, i, j int) []byte {
	if j > len(b) {
		j = len(b)
	}
	return b[i:j]
}

func truncate(b []byte, n int) simio.Store {
	return &simio.Mem{B: append([]byte(nil), b[:n]...)}
}

// bigBox sometimes puts a box somewhere in the tree that is larger than the
// blocks the commands read.
func bigBox(e *core.Env, f *model.File) {
	if !e.P(1, 40) {
		return
	}
	n := &model.Node{Type: model.T([]string{"mdat", "zzzz", "free"}[e.N(3)]), Hdr: 8 + 8*uint64(e.N(2))}
	var p *model.Node // the container it goes into
	if e.P(1, 2) {
		var l []*model.Node
		for _, c := range f.All {
			if c.Decodable() && len(c.Children) > 0 && c.Huge == 0 {
				l = append(l, c)
			}
		}
		if len(l) > 0 {
			p = l[e.N(len(l))]
		}
	}
	size := 0
	switch e.N(4) {
	case 0:
		size = 128*1024 - 40 + e.N(80)
	case 1:
		size = 5*128*1024 + e.N(1000)
	case 2:
		size = e.N(700000)
	case 3:
		size = 60000 + e.N(1500000)
	}
	n.Fields = checks.Garbage(e, size)
	if p == nil {
		e.Probe("big-box")
		n.Path = mp4.BoxPath{n.Type}
		n.Def = model.Lookup(n.Type, n.Ctx)
		n.Unknown = n.Def == nil
		f.Roots = append([]*model.Node{n}, f.Roots...)
		f.Relayout()
		return
	}
	e.Probe("big-box-inside")
	n.Ctx, n.Parent, n.Depth = p.ChildCtx(), p, p.Depth+1
	n.Path = append(append(mp4.BoxPath{}, p.Path...), n.Type)
	n.Def = model.Lookup(n.Type, n.Ctx)
	n.Unknown = n.Def == nil
	i := e.N(len(p.Children)) // before the box at i, so a box to the end stays last
	p.Children = append(p.Children[:i:i], append([]*model.Node{n}, p.Children[i:]...)...)
	f.Relayout()
}

// badCall runs a command line that asks for nothing that can be done: it must
// fail and leave the files alone.
func badCall(e *core.Env, in []byte, calls ...[]string) {
	args := calls[e.N(len(calls))]
	s := scene(e, &simio.Mem{B: append([]byte(nil), in...)})
	run(e, s, args...)
	e.Evals++
	e.NonTriv = true
	e.Probe("bad-command-line")
	if s.Code == 0 {
		e.Fail("bad-call", "the command line %q succeeds", args)
	}
	if got, ok := s.Get("in.mp4"); !ok || !bytes.Equal(got, in) {
		e.Fail("input-modified", "the command line %q changed the file in.mp4", args)
	}
	if l := s.Files("."); len(l) != 1 {
		e.Fail("bad-call-output", "the command line %q leaves files %q", args, l)
	}
}
