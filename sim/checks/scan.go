package checks

import (
	"bytes"
	"errors"
	"io"
	"reflect"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

// scanner drives a scan and compares everything it reports with the generated file.
type scanner struct {
	e      *core.Env
	f      *model.File
	st     *simio.Stream
	frames []frame
	base   int // path elements to cut (scan started at an inner box)
	start  *model.Node
	budget int
	open   []*openBox
	kept   []*openBox
	seen   []seenHandle
	acts   int // 0: random callback behaviour; 1: expand everything once; 2: nothing but visiting
	params []interface{}
}

type frame struct {
	list   []*model.Node
	idx    int
	params []interface{}
}

// seenHandle is what a visit reported; it is judged a second time when the scan is over.
type seenHandle struct {
	n    *model.Node
	h    *mp4.ReadHandle
	path mp4.BoxPath // the slice itself, not a copy
	bi   mp4.BoxInfo
	base int
}

type openBox struct {
	n *model.Node
	h *mp4.ReadHandle
}

func (s *scanner) expCtx(n *model.Node) mp4.Context {
	c := n.Ctx
	if n == s.start && n.QTin {
		c.IsQuickTimeCompatible = true
	}
	return c
}

func (s *scanner) checkInfo(n *model.Node, bi mp4.BoxInfo) {
	e := s.e
	e.Evals++
	w := n.Info()
	w.Context = s.expCtx(n)
	if bi.Type != w.Type || bi.Offset != w.Offset || bi.Size != w.Size || bi.HeaderSize != w.HeaderSize || bi.ExtendToEOF != w.ExtendToEOF {
		e.Fail("scan-info", "reported %+v, file has %+v", bi, w)
	}
	if bi.Context != w.Context {
		e.Fail("scan-context", "box %v: reported context %+v, expected %+v", n, bi.Context, w.Context)
	}
	if bi.IsSupportedType() != !n.Unknown {
		e.Fail("scan-supported", "box %v: IsSupportedType %v", n, bi.IsSupportedType())
	}
}

// enter checks what a visit reports and returns the box visited.
func (s *scanner) enter(h *mp4.ReadHandle) *model.Node {
	e := s.e
	fr := &s.frames[len(s.frames)-1]
	if fr.idx >= len(fr.list) {
		e.Fail("scan-extra", "box %s at %d reported, but the %d boxes of this level are already reported", h.BoxInfo.Type, h.BoxInfo.Offset, len(fr.list))
	}
	n := fr.list[fr.idx]
	fr.idx++
	e.Ev('v', n.Off, uint64(n.Depth))
	s.checkInfo(n, h.BoxInfo)
	want := n.Path[s.base:]
	if len(want) != len(h.Path) {
		e.Fail("scan-path", "box %v: path %v, expected %v", n, h.Path, want)
	}
	for i := range want {
		if want[i] != h.Path[i] {
			e.Fail("scan-path", "box %v: path %v, expected %v", n, h.Path, want)
		}
	}
	if len(s.seen) < 4096 {
		s.seen = append(s.seen, seenHandle{n, h, h.Path, h.BoxInfo, s.base})
	}
	if len(h.Params) != len(fr.params) {
		e.Fail("scan-params", "box %v: %d parameters, expected %d", n, len(h.Params), len(fr.params))
	}
	for i := range fr.params {
		if !reflect.DeepEqual(h.Params[i], fr.params[i]) {
			e.Fail("scan-params", "box %v: parameter %d is %v, expected %v", n, i, h.Params[i], fr.params[i])
		}
	}
	return n
}

func (s *scanner) handler(h *mp4.ReadHandle) (interface{}, error) {
	e := s.e
	n := s.enter(h)
	ob := &openBox{n, h}
	switch s.acts {
	case 1:
		if n.Expandable() {
			s.expand(ob)
		}
	case 0:
		s.open = append(s.open, ob)
		s.behave(ob)
		s.open = s.open[:len(s.open)-1]
		if e.P(1, 8) {
			s.kept = append(s.kept, ob)
		}
		if e.P(1, 3) {
			s.wander()
		}
	}
	return n, nil
}

func (s *scanner) wander() {
	// the callback leaves the stream anywhere, even behind the end
	s.st.Pos = int64(s.e.U64n(s.f.Size + 20))
}

func (s *scanner) behave(ob *openBox) {
	e := s.e
	k := e.Pick(2, 5, 4, 2, 1)
	if k == 0 { // skip
		return
	}
	for ; k > 0; k-- {
		switch e.Pick(6, 4, 3, 1, 2) {
		case 0:
			s.expand(ob)
		case 1:
			s.payload(ob)
		case 2:
			s.data(ob)
		case 3: // an enclosing box's handle is used meanwhile
			o := s.open[e.N(len(s.open))]
			if e.P(1, 2) {
				s.payload(o)
			} else {
				s.data(o)
			}
		default:
			s.wander()
		}
	}
}

func (s *scanner) expand(ob *openBox) {
	e, n := s.e, ob.n
	if s.budget <= 0 {
		return
	}
	s.budget -= 1 + len(n.Children)
	if n.Huge > 0 {
		return
	}
	var params []interface{}
	if e.P(1, 3) {
		for k := e.N(3); k >= 0; k-- {
			params = append(params, int(e.N(1000)))
		}
	}
	s.frames = append(s.frames, frame{list: n.Children, params: params})
	depth := len(s.frames)
	vals, err := ob.h.Expand(params...)
	if len(s.frames) != depth {
		core.Bug("frame depth")
	}
	fr := s.frames[depth-1]
	s.frames = s.frames[:depth-1]
	e.Evals++
	if !n.Expandable() {
		if err == nil {
			e.Fail("scan-expand-unsupported", "box %v: expanding succeeds (unknown type %v, bad version %v, junk %d bytes)", n, n.Unknown, n.BadVer, len(n.Junk))
		}
		if n.Unknown && !errors.Is(err, mp4.ErrBoxInfoNotFound) || n.BadVer && !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
			e.Fail("scan-expand-errtype", "box %v: expanding gives error %v", n, err)
		}
		if fr.idx != 0 {
			e.Fail("scan-extra", "box %v: %d children reported of a box without readable children", n, fr.idx)
		}
		e.Probe("expand-refused")
		return
	}
	if err != nil {
		e.Fail("scan-expand-error", "box %v: expanding gives error %v", n, err)
	}
	if fr.idx != len(fr.list) {
		e.Fail("scan-missing", "box %v: %d of %d children reported", n, fr.idx, len(fr.list))
	}
	s.checkVals(vals, fr.list)
	if len(n.Term) > 0 {
		e.Probe("terminator")
	}
}

func (s *scanner) checkVals(vals []interface{}, list []*model.Node) {
	if len(vals) != len(list) {
		s.e.Fail("scan-values", "%d values for %d boxes", len(vals), len(list))
	}
	for i := range vals {
		if vals[i] != interface{}(list[i]) {
			s.e.Fail("scan-values", "value %d does not belong to box %v", i, list[i])
		}
	}
}

func (s *scanner) payload(ob *openBox) {
	e, n := s.e, ob.n
	if n.Huge > 0 {
		return
	}
	box, cnt, err := ob.h.ReadPayload()
	e.Evals++
	if !n.Decodable() {
		if n.Unknown && !errors.Is(err, mp4.ErrBoxInfoNotFound) || n.BadVer && !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
			e.Fail("scan-payload-errtype", "box %v: reading the payload gives error %v", n, err)
		}
		return
	}
	if err != nil {
		e.Fail("scan-payload-error", "box %v in %+v: reading the payload gives error %v", n, n.Ctx, err)
	}
	if cnt != n.N {
		e.Fail("scan-payload-count", "box %v: %d bytes, expected %d", n, cnt, n.N)
	}
	if d := model.Diff(n.Val, box); d != "" {
		e.Fail("scan-payload-value", "box %v in %+v: expected against decoded: %s", n, n.Ctx, d)
	}
	if box.GetType() != n.Type {
		e.Fail("scan-payload-type", "box %v: decoded box says type %v", n, box.GetType())
	}
}

func (s *scanner) data(ob *openBox) {
	e, n := s.e, ob.n
	if n.Size > 1<<24 || n.Huge > 1<<24 {
		return
	}
	var buf bytes.Buffer
	cnt, err := ob.h.ReadData(&buf)
	e.Evals++
	if err != nil {
		e.Fail("scan-data-error", "box %v: reading raw data gives error %v", n, err)
	}
	if cnt != n.Size-n.Hdr || !bytes.Equal(buf.Bytes(), s.f.PayloadBytes(n)) {
		e.Fail("scan-data", "box %v: raw data has %d bytes (%d reported), payload has %d", n, buf.Len(), cnt, n.Size-n.Hdr)
	}
}

func (s *scanner) run(list []*model.Node, f func() ([]interface{}, error)) {
	e := s.e
	s.frames = []frame{{list: list, params: s.params}}
	var vals []interface{}
	var err error
	sut(e, "scan", func() { vals, err = f() })
	if err != nil {
		e.Fail("scan-error", "scanning gives error %v after %d of %d boxes of the top level", err, s.frames[0].idx, len(list))
	}
	if s.frames[0].idx != len(list) {
		e.Fail("scan-missing", "%d of %d boxes of the top level reported", s.frames[0].idx, len(list))
	}
	s.checkVals(vals, list)
	s.checkSeen()
}

// checkSeen judges paths and handles that callbacks kept beyond their box.
func (s *scanner) checkSeen() {
	e := s.e
	for _, v := range s.seen {
		e.Evals++
		want := v.n.Path[v.base:]
		for _, got := range []mp4.BoxPath{v.path, v.h.Path} {
			ok := len(got) == len(want)
			for i := 0; ok && i < len(want); i++ {
				ok = got[i] == want[i]
			}
			if !ok {
				e.Fail("scan-path-kept", "box %v: its path %v became %v after the scan moved on", v.n, want, got)
			}
		}
		if v.h.BoxInfo != v.bi {
			e.Fail("scan-info-kept", "box %v: its handle said %+v, and says %+v after the scan moved on", v.n, v.bi, v.h.BoxInfo)
		}
	}
	s.seen = s.seen[:0]
}

func (s *scanner) full() {
	s.base, s.start = 0, nil
	s.run(s.f.Roots, func() ([]interface{}, error) { return mp4.ReadBoxStructure(s.st, s.handler, s.params...) })
}

func (s *scanner) internal(n *model.Node) {
	s.base, s.start = n.Depth, n
	bi := n.Info()
	s.run([]*model.Node{n}, func() ([]interface{}, error) {
		v, err := mp4.ReadBoxStructureFromInternal(s.st, &bi, s.handler, s.params...)
		return []interface{}{v}, err
	})
	s.start = nil
}

var _ io.Reader
