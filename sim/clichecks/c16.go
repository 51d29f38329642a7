package clichecks

import (
	"bytes"
	"encoding/binary"
	"math"
	"strconv"
	"strings"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
	"verifsim/simos"
)

func init() {
	core.Register(&core.Check{ID: "C16", Quick: 200000, Thorough: 6000000, Run: c16, Real: real, Stub: stub,
		Rule:   "a run generates a file (any tree, or a fragmented media file), draws which box types to drop and a new base media decode time, runs the whole edit command without faults as a simulated process and compares exit status and output file with the independently edited tree; then runs it again with one I/O fault at a drawn operation (open, create, read, write, close, short or sticky), a full disk, or the input cut short, and requires failure or the exact output; same-file, missing and unwritable outputs are drawn as well",
		Assume: []string{"an input whose boxes cannot all be decoded may be refused", "one edit command at a time; the input is not changed by others meanwhile"}})
}

type editReq struct {
	drop map[string]bool
	set  bool
	v    uint64
	bad  bool // the value does not fit a box that must be edited
}

// apply is the edited box (nil: dropped).
func (q *editReq) apply(n *model.Node) []byte {
	if q.drop[typeStr(n.Type)] {
		return nil
	}
	fields := n.Fields
	if n.Type == model.T("tfdt") && q.set && n.Decodable() && len(fields) >= 8 {
		fields = append([]byte(nil), fields...)
		if fields[0] == 0 {
			if q.v > math.MaxUint32 {
				q.bad = true
			}
			binary.BigEndian.PutUint32(fields[4:], uint32(q.v))
		} else {
			binary.BigEndian.PutUint64(fields[4:], q.v)
		}
	}
	b := make([]byte, n.Hdr)
	b = append(b, fields...)
	for _, c := range n.Children {
		b = append(b, q.apply(c)...)
	}
	b = append(b, n.Junk...)
	b = append(b, n.Term...)
	m := *n
	m.Size = uint64(len(b))
	copy(b, m.HeaderBytes())
	return b
}

func c16(e *core.Env) {
	var f *model.File
	var m *model.Media
	clean := true
	if e.P(1, 3) {
		m = model.GenMedia(e.Src, model.MOpt{Frag: 1 + e.N(2)})
		f = &m.File
	} else {
		o := model.Opt{MaxNodes: 16, Term: true, Junk: e.P(1, 8), BadVer: e.P(1, 8)}
		clean = !o.Junk && !o.BadVer
		f = model.GenFile(e.Src, o)
	}
	bigBox(e, f)
	in := append([]byte(nil), f.Bytes()...)

	// the request
	q := &editReq{drop: map[string]bool{}}
	var args []string
	var types []string
	drops := e.N(4)
	if e.P(1, 6) {
		drops += e.N(8)
	}
	for i := drops; i > 0; i-- {
		t := []string{"free", "mdat", "tfdt", "udta", "moov", "zzzz"}[e.N(6)]
		if e.P(2, 3) && len(f.All) > 0 {
			t = typeStr(f.All[e.N(len(f.All))].Type)
		}
		if e.P(1, 8) { // nearly the name of a box
			switch e.N(6) {
			case 0:
				t = strings.TrimSpace(t)
			case 1:
				t = " " + t
			case 2:
				t = t + " "
			case 3:
				t = strings.ToUpper(t)
			case 4:
				t = strings.ToLower(t)
			case 5:
				t = t[:len(t)-1]
			}
		}
		if strings.Contains(t, ",") || t == "" {
			continue
		}
		q.drop[t] = true
		types = append(types, t)
	}
	if e.P(1, 60) { // nothing of the file is left
		ok := true
		for _, n := range f.Roots {
			ok = ok && !strings.Contains(typeStr(n.Type), ",")
		}
		for i := 0; ok && i < len(f.Roots); i++ {
			t := typeStr(f.Roots[i].Type)
			if !q.drop[t] {
				q.drop[t] = true
				types = append(types, t)
			}
		}
		e.Probe("all-dropped")
	}
	if len(types) > 0 {
		args = append(args, []string{"-drop", "--drop"}[e.N(2)], strings.Join(types, ","))
	}
	if e.P(1, 2) {
		q.set = true
		switch e.Pick(3, 2, 2, 1, 1) {
		case 0:
			q.v = uint64(e.N(100000))
		case 1:
			q.v = e.U64()
		case 2:
			q.v = e.U64n(1 << 32)
		case 3:
			q.v = math.MaxUint32 + uint64(e.N(2))
		case 4:
			q.v = math.MaxUint64 - uint64(e.N(2))
		}
		args = append(args, "-base_media_decode_time="+strconv.FormatUint(q.v, 10))
	}
	var want []byte
	for _, n := range f.Roots {
		want = append(want, q.apply(n)...)
	}
	for _, n := range f.All {
		if n.Type == model.T("tfdt") && q.set && !q.drop["tfdt"] {
			e.Probe("tfdt-edited")
		}
	}
	e.Label = f.Describe() + strings.Join(args, " ")

	if e.P(1, 40) {
		short := append([]string{"alpha", "edit"}, args...)
		badCall(e, in, short, append(short[:len(short):len(short)], "in.mp4"), append(short[:len(short):len(short)], "-nope", "in.mp4", "out.mp4"),
			[]string{"alpha", "edit", "-base_media_decode_time=-1", "in.mp4", "out.mp4"}, []string{"alpha", "edit", "-base_media_decode_time=18446744073709551616", "in.mp4", "out.mp4"},
			[]string{"alpha", "edit", "-base_media_decode_time=1x", "in.mp4", "out.mp4"}, []string{"alpha"}, []string{"alpha", "edi", "in.mp4", "out.mp4"}, []string{"edit", "in.mp4", "out.mp4"})
		return
	}
	base := scene(e, &simio.Mem{B: in})
	out := "out.mp4"
	order := e.U64()
	what := e.Pick(20, 1, 1, 1, 1)
	inName := "in.mp4"
	switch what {
	case 0:
		switch e.Pick(3, 1, 1) {
		case 1: // an older, longer output
			base.Put("out.mp4", &simio.Mem{B: make([]byte, len(in)+50)})
		case 2:
			base.PutDir("d")
			out = "d/x.mp4"
		}
	case 1: // output is the input
		e.Probe("same-file")
		switch e.N(4) {
		case 0:
			out = "in.mp4"
		case 1:
			out = "./../work/in.mp4"
		case 2:
			out = "link.mp4"
			base.PutLink("link.mp4", "in.mp4")
		case 3:
			out = "hard.mp4"
			base.PutHard("hard.mp4", "in.mp4")
		}
	case 2:
		out = "nowhere/out.mp4"
	case 3:
		base.PutDir("out.mp4")
	case 4:
		inName = "none.mp4"
	}
	args = append([]string{"alpha", "edit"}, args...)
	args = append(args, inName, out)

	check := func(s *simos.Sim, perturbed string) {
		e.Evals++
		if got, _ := s.Get("in.mp4"); !bytes.Equal(got, in) {
			e.Fail("input-modified", "the edit command changed its input file (%s)%s", firstDiff(in, got), perturbed)
		}
		got, ok := s.Get(out)
		good := ok && bytes.Equal(got, want) && !q.bad
		if s.Code == 0 && !good && (clean || perturbed != "") {
			if q.bad {
				e.Fail("wrong-output", "the edit command succeeds although the value %d does not fit a version 0 box%s", q.v, perturbed)
			}
			if !ok {
				e.Fail("no-output", "the edit command succeeds without an output file%s", perturbed)
			}
			e.Fail("wrong-output", "the edit command succeeds with a wrong output file: %s%s", firstDiff(want, got), perturbed)
		}
		if perturbed == "" && clean && what == 0 && !q.bad && s.Code != 0 {
			e.Fail("edit-fails", "the edit command fails (exit status %d: %s %s) on a well-formed file", s.Code, short(s.Out), short(s.ErrOut))
		}
		if s.Code == 0 && len(types) > 0 && !bytes.Equal(in, want) {
			e.Probe("edit-changed")
		}
	}
	s := fork(base, order)
	run(e, s, args...)
	if what != 0 {
		if s.Code == 0 {
			e.Fail("bad-paths", "the edit command succeeds with input %s and output %s", inName, out)
		}
	}
	check(s, "")
	if !clean && s.Code != 0 {
		return
	}
	if !clean {
		// the fault-free result is the reference
		if b, ok := s.Get(out); ok {
			want = append([]byte(nil), b...)
		}
	}

	// the same again with something going wrong
	for k := 1 + e.N(2); k > 0; k-- {
		t := fork(base, order)
		t.LoseOn = true
		why := ""
		switch e.Pick(6, 2, 2) {
		case 0:
			t.Faults = drawFaults(e, s.Ops, map[string]bool{"open": true, "create": true, "read": true, "write": true, "seek": true, "close": true, "stat": true, "truncate": true, "sync": true, "rename": true})
			why = " after an injected fault"
		case 1:
			if len(want) == 0 {
				continue
			}
			t.Cap = 1 + int64(e.N(len(want)))
			why = " on a full disk"
		case 2:
			n := e.N(len(in) + 1)
			if inHeader(f, uint64(n)) {
				continue
			}
			t.Put("in.mp4", truncate(in, n))
			e.Fault("input-cut")
			run(e, t, args...)
			e.Evals++
			got, _ := t.Get(out)
			if cut, judged := q.cut(f, uint64(n)); judged && what == 0 && t.Code == 0 && !bytes.Equal(got, want) && !bytes.Equal(got, cut) {
				e.Fail("cut-input", "the edit command succeeds on an input cut from %d to %d bytes with a wrong output: %s", len(in), n, firstDiff(want, got))
			}
			continue
		}
		run(e, t, args...)
		if t.Fired > 0 {
			why += " (" + strings.Join(t.Hit[:1], " ") + ")"
			e.Probe("fault-on-" + strings.SplitN(t.Hit[0], " ", 2)[0])
		}
		check(t, why)
	}
}

// inHeader: a cut here leaves part of a root box's header, which counts as the end of the file.
func inHeader(f *model.File, n uint64) bool {
	for _, r := range f.Roots {
		if n > r.Off && n < r.Off+r.Hdr {
			return true
		}
	}
	return false
}

// cut is the edited file when the boxes that begin in front of the cut are all
// there is (possible only when everything behind the cut is dropped).
func (q *editReq) cut(f *model.File, n uint64) (w []byte, judged bool) {
	for _, r := range f.Roots {
		if r.Off >= n {
			break
		}
		if r.Off+r.Size > n && r.EOF {
			return nil, false // a box to the end of the file is simply shorter: not judged here
		}
		w = append(w, q.apply(r)...)
	}
	return w, true
}

var _ = mp4.BoxTypeFree
