package checks

import (
	"fmt"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C14", Quick: 1400000, Thorough: 42000000, Run: c14, Real: realLib, Stub: stubIO,
		Rule:   "a run generates a file and several extraction requests (one or many paths from the file's own paths, with wildcards, prefixes, extensions, duplicates and absent types; from the root or below a drawn parent; with or without payload) executed one after another on one simulated stream left anywhere in between, under a seeded delivery; boxes, order, extents, contexts and payloads are compared with the generated tree filtered by the paths, a path through a box that cannot be expanded may fail",
		Assume: []string{"boxes of type 0x00000000 are terminators and never extracted (as the library documents by its use of that type as wildcard)"}})
}

func pathsMatch(paths []mp4.BoxPath, p mp4.BoxPath) (fwd, m bool) {
	for _, q := range paths {
		if len(p) > len(q) {
			continue
		}
		ok := true
		for i := range p {
			ok = ok && (q[i] == mp4.BoxType{} || q[i] == p[i])
		}
		if ok && len(p) == len(q) {
			m = true
		}
		if ok && len(p) < len(q) {
			fwd = true
		}
	}
	return
}

type extraction struct {
	boxes    []*model.Node
	mayFail  bool // a path leads through a box whose children cannot be read
	mustFail bool
	huge     bool // would decode terabytes
}

func (x *extraction) walk(list []*model.Node, base int, paths []mp4.BoxPath) {
	for _, n := range list {
		if n.Type == (mp4.BoxType{}) {
			continue
		}
		fwd, m := pathsMatch(paths, n.Path[base:])
		if m {
			x.boxes = append(x.boxes, n)
		}
		if fwd {
			x.into(n, base, paths)
		}
	}
}

func (x *extraction) into(n *model.Node, base int, paths []mp4.BoxPath) {
	switch {
	case n.Huge > 0:
		x.huge = true
	case n.Decodable() && n.Junk != nil:
		x.mustFail = true
	case !n.Expandable():
		x.mayFail = true
	default:
		x.walk(n.Children, base, paths)
	}
}

func c14(e *core.Env) {
	f := model.GenFile(e.Src, model.Opt{MaxNodes: 24, Junk: e.P(1, 4), BadVer: e.P(1, 2), Term: true, Huge: e.P(1, 8), Ext: true})
	d := simio.DrawDelivery(e.Src)
	st := simio.New(e, f.St).With(d)
	st.ROnly = true
	e.Label = f.Describe() + d.Name()
	for k := 1 + e.Pick(3, 2, 1); k > 0; k-- {
		st.Pos = int64(e.U64n(f.Size + 20))
		extractOnce(e, f, st)
	}
}

func extractOnce(e *core.Env, f *model.File, st *simio.Stream) {
	var parent *model.Node
	cands := f.All
	base := 0
	if e.P(2, 5) {
		parent = f.All[e.N(len(f.All))]
		for k := 0; k < 4 && len(parent.Children) == 0; k++ {
			parent = f.All[e.N(len(f.All))]
		}
		base = parent.Depth + 1
		cands = nil
		for _, n := range f.All {
			for p := n.Parent; p != nil; p = p.Parent {
				if p == parent {
					cands = append(cands, n)
				}
			}
		}
	}
	var paths []mp4.BoxPath
	for k := e.Pick(5, 3, 2, 1) + 1; k > 0; k-- {
		switch {
		case len(cands) > 0 && !e.P(1, 10):
			paths = append(paths, drawPath(e, cands[e.N(len(cands))], base))
		case e.P(1, 2):
			paths = append(paths, mp4.BoxPath{mp4.BoxTypeAny()})
		default:
			paths = append(paths, mp4.BoxPath{mp4.StrToBoxType("moov"), mp4.BoxTypeAny(), mp4.StrToBoxType("nope")}[:1+e.N(3)])
		}
	}
	if e.P(1, 10) {
		paths = append(paths, paths[0])
	}
	bad := 0
	switch e.Pick(20, 1, 1) {
	case 1:
		paths = append(paths, mp4.BoxPath{})
		i := e.N(len(paths))
		paths[i], paths[len(paths)-1] = paths[len(paths)-1], paths[i]
		bad = 1
	case 2:
		paths = nil
		bad = 2
	}
	payload := e.P(1, 2)
	desc := fmt.Sprintf("extraction of %v below %v (payload %v)", paths, parent, payload)
	keep := make([]mp4.BoxPath, len(paths))
	for i := range paths {
		keep[i] = append(mp4.BoxPath(nil), paths[i]...)
	}

	var want extraction
	if bad == 0 {
		if parent == nil {
			want.walk(f.Roots, 0, paths)
		} else if parent.Type == (mp4.BoxType{}) {
			want.mayFail = true
		} else {
			want.into(parent, base, paths)
		}
	}
	var pbi *mp4.BoxInfo
	if parent != nil {
		bi := parent.Info()
		pbi = &bi
	}
	undecodable := false
	for _, n := range want.boxes {
		undecodable = undecodable || payload && !n.Decodable()
		want.huge = want.huge || payload && n.Huge > 0
	}
	if want.huge {
		e.Probe("skipped-huge-decode")
		return
	}
	var got []*mp4.BoxInfo
	var boxes []mp4.IBox
	var err error
	sut(e, desc, func() {
		if payload {
			var r []*mp4.BoxInfoWithPayload
			if len(paths) == 1 && e.P(1, 2) {
				r, err = mp4.ExtractBoxWithPayload(st.RS(), pbi, paths[0])
			} else {
				r, err = mp4.ExtractBoxesWithPayload(st.RS(), pbi, paths)
			}
			for _, x := range r {
				got = append(got, &x.Info)
				boxes = append(boxes, x.Payload)
			}
			return
		}
		if len(paths) == 1 && e.P(1, 2) {
			got, err = mp4.ExtractBox(st.RS(), pbi, paths[0])
		} else {
			got, err = mp4.ExtractBoxes(st.RS(), pbi, paths)
		}
	})
	e.Evals++
	e.Ev('x', uint64(len(got)), b2u(err != nil))
	for i := range paths {
		for k := range paths[i] {
			if paths[i][k] != keep[i][k] {
				e.Fail("request-changed", "%s changed its request", desc)
			}
		}
	}
	switch {
	case bad == 1:
		e.Probe("empty-path")
		if err == nil {
			e.Fail("empty-path-accepted", "%s succeeds", desc)
		}
		return
	case bad == 2:
		if err != nil || len(got) != 0 {
			e.Fail("no-paths", "extraction without paths gives %d boxes, error %v", len(got), err)
		}
		return
	case want.mustFail:
		e.Probe("through-damaged-box")
		if err == nil {
			e.Fail("damage-hidden", "%s through a damaged box succeeds with %d boxes", desc, len(got))
		}
		return
	case err != nil && (want.mayFail || undecodable):
		e.Probe("through-unreadable-box")
		return
	case err != nil:
		e.Fail("extract-error", "%s gives error %v", desc, err)
	case undecodable:
		e.Fail("undecodable-extracted", "%s succeeds although a payload cannot be decoded", desc)
	}
	if len(got) > 0 {
		e.NonTriv = true
	}
	if len(got) != len(want.boxes) {
		e.Fail("extract-set", "%s gives %v, the file has %v", desc, infos(got), want.boxes)
	}
	for i, n := range want.boxes {
		w := n.Info()
		g := *got[i]
		e.Evals++
		if g != w {
			e.Fail("extract-info", "%s: box %d is described as %+v, in the file it is %+v", desc, i, g, w)
		}
		if payload {
			if dd := model.Diff(n.Val, boxes[i]); dd != "" {
				e.Fail("extract-payload", "%s: payload of %v: expected against extracted: %s", desc, n, dd)
			}
		}
	}
}

func infos(l []*mp4.BoxInfo) (s []string) {
	for _, b := range l {
		s = append(s, fmt.Sprintf("%s@%d+%d", b.Type, b.Offset, b.Size))
	}
	return
}
