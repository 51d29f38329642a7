package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C21", Quick: 750000, Thorough: 22500000, Run: c21, Real: realLib, Stub: stubIO,
		Rule:   "a run executes a scan with drawn callbacks, an extraction or a probe on a generated file whose unread boxes are up to terabytes large, over a simulated device that logs every access, and compares the bytes read with those the request can need (headers of visited boxes, payloads decoded, copied or expanded, file type and keys boxes) and the number of operations with a bound in visited boxes and bytes needed; or executes a writer history and requires every operation to touch only its own bytes",
		Assume: []string{"file type and metadata-keys boxes are decoded by every scan, since their content decides how other boxes are read"}})
}

type asked struct{ decoded, copied, expanded bool }

type span struct {
	lo, hi int64
	n      *model.Node
}

// forbidden lists the payloads nobody asked for below the given visited boxes.
func forbidden(list []*model.Node, ask map[*model.Node]*asked, out []span) []span {
	for _, n := range list {
		a := ask[n]
		lo := int64(n.Off + n.Hdr)
		hi := int64(n.Off + n.Size)
		auto := n.Type == mp4.StrToBoxType("ftyp") || n.Type == mp4.StrToBoxType("keys")
		switch {
		case a != nil && a.copied:
		case a != nil || auto:
			out = forbidden(n.Children, ask, out)
			if n.Huge > 0 && (a == nil || !a.copied) {
				out = append(out, span{lo + int64(len(n.Fields)) + 64, hi, n})
			}
		default:
			if hi > lo {
				out = append(out, span{lo, hi, n})
			}
		}
	}
	return out
}

func checkReads(e *core.Env, what string, st *simio.Stream, forb []span) {
	e.Evals++
	for _, r := range st.Reads {
		for _, f := range forb {
			if f.lo < f.hi && r.Off < f.hi && r.Off+r.Len > f.lo {
				e.Fail("unasked-read", "%s read %d bytes at %d, inside the payload of %v that nobody asked for", what, r.Len, r.Off, f.n)
			}
		}
	}
}

func checkOps(e *core.Env, what string, st *simio.Stream, visits int) {
	limit := uint64(40*(visits+2)) + 4*uint64(st.ReadBytes)
	e.Evals++
	if r := st.Ops * 100 / limit; r >= 20 {
		e.Probe(fmt.Sprintf("%s: steps at %d0%% of the bound", strings.Fields(what)[0], r/10))
	}
	if st.Ops > limit {
		e.Fail("too-many-operations", "%s used %d stream operations for %d boxes and %d bytes", what, st.Ops, visits, st.ReadBytes)
	}
}

func c21(e *core.Env) {
	switch e.Pick(4, 3, 2, 2) {
	case 0:
		readsOfScan(e)
	case 1:
		readsOfExtract(e)
	case 2:
		readsOfProbe(e)
	default:
		touchesOfWriter(e)
	}
}

func readsOfScan(e *core.Env) {
	f := model.GenFile(e.Src, model.Opt{MaxNodes: 24, Junk: true, BadVer: true, Huge: e.P(2, 3), Term: true, Ext: true})
	d := simio.DrawDelivery(e.Src)
	st := simio.New(e, f.St).With(d)
	st.ROnly, st.LogReads = true, true
	e.Label = "scan " + f.Describe() + d.Name()
	byOff := map[uint64]*model.Node{}
	for _, n := range f.All {
		byOff[n.Off] = n
	}
	ask := map[*model.Node]*asked{}
	visits := 0
	roots := f.Roots
	handler := func(h *mp4.ReadHandle) (interface{}, error) {
		visits++
		n := byOff[h.BoxInfo.Offset]
		if n == nil {
			e.Fail("scan-extra", "a box is reported at %d, where none is", h.BoxInfo.Offset)
		}
		for k := e.Pick(5, 3, 1); k > 0; k-- {
			visits++
			a := ask[n]
			if a == nil {
				a = &asked{}
			}
			switch e.N(3) {
			case 0:
				if n.Huge == 0 {
					ask[n] = a
					a.decoded = true
					h.ReadPayload()
				}
			case 1:
				if n.Size < 1<<16 {
					ask[n] = a
					a.copied = true
					var w sumWriter
					h.ReadData(&w)
				}
			}
		}
		if n.Huge == 0 && e.P(2, 3) {
			a := ask[n]
			if a == nil {
				a = &asked{}
				ask[n] = a
			}
			a.expanded = true
			h.Expand()
		}
		return nil, nil
	}
	sut(e, "scan", func() {
		if e.P(1, 4) {
			n := f.All[e.N(len(f.All))]
			roots = []*model.Node{n}
			bi := n.Info()
			mp4.ReadBoxStructureFromInternal(st.RS(), &bi, handler)
		} else {
			mp4.ReadBoxStructure(st.RS(), handler)
		}
	})
	e.NonTriv = visits > 1
	forb := forbidden(roots, ask, nil)
	if len(forb) > 0 {
		e.Probe("unread-payloads")
	}
	checkReads(e, "the scan", st, forb)
	checkOps(e, "the scan", st, visits)
}

func readsOfExtract(e *core.Env) {
	f := model.GenFile(e.Src, model.Opt{MaxNodes: 24, BadVer: e.P(1, 3), Huge: e.P(2, 3), Term: true, Ext: true})
	d := simio.DrawDelivery(e.Src)
	st := simio.New(e, f.St).With(d)
	st.ROnly, st.LogReads = true, true
	var paths []mp4.BoxPath
	for k := 1 + e.N(3); k > 0; k-- {
		paths = append(paths, drawPath(e, f.All[e.N(len(f.All))], 0))
	}
	payload := e.P(1, 2)
	e.Label = fmt.Sprintf("extract %v (payload %v) from %s %s", paths, payload, f.Describe(), d.Name())
	ask := map[*model.Node]*asked{}
	visits, huge := 0, false
	var walk func(list []*model.Node)
	walk = func(list []*model.Node) {
		for _, n := range list {
			visits++
			fwd, m := pathsMatch(paths, n.Path)
			if n.Type == (mp4.BoxType{}) {
				continue
			}
			if m && payload {
				ask[n] = &asked{decoded: true}
				visits++
				huge = huge || n.Huge > 0
			}
			if fwd {
				ask[n] = &asked{expanded: true}
				huge = huge || n.Huge > 0
				walk(n.Children)
			}
		}
	}
	walk(f.Roots)
	if huge {
		return
	}
	sut(e, e.Label, func() {
		if payload {
			mp4.ExtractBoxesWithPayload(st.RS(), nil, paths)
		} else {
			mp4.ExtractBoxes(st.RS(), nil, paths)
		}
	})
	e.NonTriv = len(st.Reads) > 0
	checkReads(e, e.Label, st, forbidden(f.Roots, ask, nil))
	checkOps(e, e.Label, st, visits)
}

// readsOfProbe probes a media file with unstored terabytes of media data.
func readsOfProbe(e *core.Env) {
	m := model.GenMedia(e.Src, model.MOpt{})
	b := m.Bytes()
	var st *simio.Stream
	e.Label = "probe"
	sp := simio.NewSparse()
	sp.WriteAt(b, 0)
	sp.N = int64(len(b))
	if e.P(1, 2) && !endsOpen(&m.File) {
		// a box of unread data behind everything
		h := &wnode{typ: mp4.StrToBoxType([]string{"mdat", "free", "abcd"}[e.N(3)]), hdr: 16}
		w := &wmodel{st: sp, pos: sp.N}
		size := e.U64n(1 << 45)
		w.write(w.header(h, 16+size))
		sp.N += int64(size)
		e.Probe("terabyte-tail")
	}
	st = simio.New(e, sp).With(simio.DrawDelivery(e.Src))
	st.ROnly, st.LogReads = true, true
	var err error
	sut(e, "probe", func() { _, err = mp4.Probe(st.RS()) })
	e.NonTriv = err == nil
	moov, moof, ftyp := mp4.StrToBoxType("moov"), mp4.StrToBoxType("moof"), mp4.StrToBoxType("ftyp")
	var forb []span
	n := 0
	var rec func(l []*model.Node, top bool)
	rec = func(l []*model.Node, top bool) {
		for _, x := range l {
			n++
			lo, hi := int64(x.Off+x.Hdr), int64(x.Off+x.Size)
			if top && x.Type != moov && x.Type != moof && x.Type != ftyp && x.Type != mp4.StrToBoxType("keys") || !top && !x.Type.IsSupported(mp4.Context{}) || x.Type == mp4.StrToBoxType("mdat") {
				forb = append(forb, span{lo, hi, x})
				continue
			}
			rec(x.Children, false)
		}
	}
	rec(m.Roots, true)
	if sp.N > int64(len(b)) {
		forb = append(forb, span{int64(len(b)) + 16, math.MaxInt64, &model.Node{Type: mp4.StrToBoxType("mdat"), Off: uint64(len(b))}})
	}
	checkReads(e, "probing", st, forb)
	// every box may be visited once per level it is looked up at, plus once per decoded table
	checkOps(e, "probing", st, 24*(n+1))
}

func endsOpen(f *model.File) bool {
	l := f.Roots
	for len(l) > 0 {
		n := l[len(l)-1]
		if n.EOF {
			return true
		}
		l = n.Children
	}
	return false
}

func touchesOfWriter(e *core.Env) {
	huge := e.P(1, 2)
	h := genHist(e, histOpt{huge: huge, max: 10, seeks: e.P(1, 2), copies: e.P(1, 2)})
	e.Label = "write " + h.String()
	st, base := diskFor(e, huge)
	m := &wmodel{st: clone(st), pos: base}
	s := simio.New(e, st)
	s.Pos = base
	var src *simio.Stream
	r := &wrun{e: e, w: mp4.NewWriter(s.RS()), st: s, src: func(b []byte) *simio.Stream {
		src = simio.NewBytes(e, b).With(simio.DrawDelivery(e.Src))
		src.ROnly, src.LogReads = true, true
		return src
	}}
	for _, o := range h.ops {
		r.pos = m.pos
		pos0 := m.pos
		stack := append([]*wnode(nil), m.stack...)
		_, werr := m.apply(o)
		s.LogWrites = true
		s.Writes = nil
		ops := s.Ops
		var err error
		sut(e, o.String(), func() { _, err = r.do(o, stack) })
		e.Evals++
		lo, hi := pos0, m.pos
		switch o.k {
		case 'e':
			lo, hi = o.n.off, o.n.off+o.n.hdr
		case 's':
			hi = lo + o.n.hdr
		case 'p':
			n := stack[len(stack)-1]
			lo = n.off + n.hdr + o.at
			hi = lo + int64(len(o.data))
		case 'h', 'j':
			hi = lo
		}
		if werr == nil && err != nil {
			e.Fail("write-error", "%s gives error %v without any fault", o, err)
		}
		if werr != nil {
			return
		}
		for _, w := range s.Writes {
			if w.Off < lo || w.Off+int64(len(w.Data)) > hi {
				e.Fail("unasked-write", "%s wrote %d bytes at %d, its own bytes are %d..%d", o, len(w.Data), w.Off, lo, hi)
			}
		}
		if (o.k == 'e' || o.k == 's') && s.Ops-ops > 16 {
			e.Fail("too-many-operations", "%s used %d stream operations", o, s.Ops-ops)
		}
		if o.k == 'c' {
			for _, x := range src.Reads {
				if x.Off < int64(o.bi.Offset) || x.Off+x.Len > int64(o.bi.Offset+o.bi.Size) {
					e.Fail("unasked-read", "%s read %d bytes at %d of its source, the box is %d..%d", o, x.Len, x.Off, o.bi.Offset, o.bi.Offset+o.bi.Size)
				}
			}
			if src.Ops > 8+uint64(src.ReadBytes) {
				e.Fail("too-many-operations", "%s used %d operations on its source", o, src.Ops)
			}
		}
		e.NonTriv = true
	}
}
