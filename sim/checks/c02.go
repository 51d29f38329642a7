package checks

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C02", Quick: 1700000, Thorough: 51000000, Run: c02, Real: realLib, Stub: stubIO,
		Rule:   "a run scans a generated file with a callback that raises errors at drawn visits (own errors, io.EOF, io.ErrUnexpectedEOF, the library's own errors), before or after reading, copying to a failing writer or expanding, and at every enclosing level propagates, replaces or swallows what an expansion returned; error identity, the absence of further visits, parameters, values per level and the visits after a swallowed error are compared with the generated tree",
		Assume: []string{"the file layout rules of the model (sim/model/tree.go)"}})
}

type errScan struct {
	*scanner
	pending error
	ser     int
	rate    int
	vals    map[*frame][]interface{}
	stack   []*[]interface{}
}

type numErr struct{ n int }

func (n *numErr) Error() string { return fmt.Sprint("handler error ", n.n) }

// failWriter accepts some bytes and then returns an error.
type failWriter struct {
	left int
	err  error
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	return n, w.err
}

func (s *errScan) newErr() error {
	s.ser++
	switch s.e.Pick(3, 2, 1, 1, 1, 1) {
	case 0:
		return &numErr{s.ser}
	case 1:
		return io.EOF
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		return mp4.ErrUnsupportedBoxVersion
	case 4:
		return mp4.ErrBoxInfoNotFound
	default:
		return fmt.Errorf("wrapped: %w", io.EOF)
	}
}

func (s *errScan) handler(h *mp4.ReadHandle) (interface{}, error) {
	e := s.e
	if s.pending != nil {
		e.Fail("visit-after-error", "box %s at %d visited after a callback returned error %v", h.BoxInfo.Type, h.BoxInfo.Offset, s.pending)
	}
	n := s.enter(h)
	s.ser++
	val := interface{}(s.ser)
	switch e.Pick(9, 2, 1, 1) {
	case 1:
		val = nil
	case 2:
		val = []interface{}{s.ser, nil}
	case 3:
		val = &numErr{s.ser} // an error as a value
	}
	cur := s.stack[len(s.stack)-1]
	give := func(err error) (interface{}, error) {
		if err != nil {
			s.pending = err
			e.Logf("callback of %v returns %v", n, err)
			e.Fault("callback-error")
			return val, err
		}
		*cur = append(*cur, val)
		return val, nil
	}
	if e.P(1, s.rate) {
		return give(s.newErr())
	}
	for k := e.Pick(1, 4, 2); k > 0; k-- {
		switch e.Pick(6, 1, 2) {
		case 0:
			if err := s.expandE(n, h); err != nil {
				switch e.Pick(2, 3, 1) {
				case 0: // swallow
					e.Probe("swallowed")
				case 1:
					e.Probe("propagated")
					return give(err)
				default:
					e.Probe("replaced")
					return give(s.newErr())
				}
			}
		case 1:
			if n.Huge == 0 {
				if _, _, err := h.ReadPayload(); err != nil && e.P(1, 2) {
					return give(err)
				}
			}
		default:
			if n.Size < 1<<24 {
				w := &failWriter{left: e.N(int(n.Size) + 1), err: s.newErr()}
				full := uint64(w.left) >= n.Size-n.Hdr
				cnt, err := h.ReadData(w)
				e.Evals++
				if full && (err != nil || cnt != n.Size-n.Hdr) {
					e.Fail("data", "box %v: copying %d bytes gives %d, error %v", n, n.Size-n.Hdr, cnt, err)
				}
				if !full && err != w.err {
					e.Fail("writer-error", "box %v: the writer returned %v, copying returned %v", n, w.err, err)
				}
				if !full {
					e.Fault("copy-destination-error")
					if e.P(1, 3) {
						return give(err)
					}
				}
			}
		}
		if e.P(1, 4) {
			s.wander()
		}
	}
	if e.P(1, s.rate) {
		return give(s.newErr())
	}
	return give(nil)
}

func (s *errScan) drawParams() (p []interface{}) {
	for k := s.e.Pick(2, 1, 1, 1); k > 0; k-- {
		switch s.e.Pick(3, 3, 3, 1, 1) {
		case 0:
			p = append(p, s.e.N(1000))
		case 1:
			p = append(p, "text")
		case 3:
			p = append(p, []interface{}{s.e.N(1000), "inner"}[:s.e.N(3)])
		case 4:
			p = append(p, s.params)
		default:
			p = append(p, nil)
		}
	}
	return
}

func (s *errScan) expandE(n *model.Node, h *mp4.ReadHandle) error {
	e := s.e
	if s.budget <= 0 || n.Huge > 0 {
		return nil
	}
	s.budget -= 1 + len(n.Children)
	params := s.drawParams()
	s.frames = append(s.frames, frame{list: n.Children, params: params})
	depth := len(s.frames)
	var want []interface{}
	s.stack = append(s.stack, &want)
	vals, err := h.Expand(params...)
	s.stack = s.stack[:len(s.stack)-1]
	fr := s.frames[depth-1]
	s.frames = s.frames[:depth-1]
	e.Evals++
	if s.pending != nil {
		if err != s.pending {
			e.Fail("error-identity", "box %v: a callback below returned %v, expanding returned %v", n, s.pending, err)
		}
		s.pending = nil
		return err
	}
	if !n.Expandable() {
		if err == nil {
			e.Fail("expand-unsupported", "box %v: expanding succeeds", n)
		}
		if n.Unknown && !errors.Is(err, mp4.ErrBoxInfoNotFound) || n.BadVer && !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
			e.Fail("expand-errtype", "box %v: expanding gives %v", n, err)
		}
		return err
	}
	if err != nil {
		e.Fail("expand-error", "box %v: no callback returned an error, expanding gives %v", n, err)
	}
	if fr.idx != len(fr.list) {
		e.Fail("missing", "box %v: %d of %d children visited", n, fr.idx, len(fr.list))
	}
	s.sameVals(n.String(), vals, want)
	return nil
}

func (s *errScan) sameVals(what string, got, want []interface{}) {
	if len(got) != len(want) {
		s.e.Fail("values", "%s: %d values for %d children", what, len(got), len(want))
	}
	for i := range got {
		if !reflect.DeepEqual(got[i], want[i]) {
			s.e.Fail("values", "%s: value %d is %v, the callback returned %v", what, i, got[i], want[i])
		}
	}
}

func c02(e *core.Env) {
	f := model.GenFile(e.Src, model.Opt{MaxNodes: 25, Junk: true, BadVer: true, Term: true, Ext: true})
	d := simio.DrawDelivery(e.Src)
	st := simio.New(e, f.St).With(d)
	st.ROnly = true
	e.Label = f.Describe() + d.Name()
	e.NonTriv = true
	s := &errScan{scanner: &scanner{e: e, f: f, st: st, budget: 200}, rate: []int{40, 12, 6}[e.N(3)]}
	for k := 1 + e.Pick(3, 1); k > 0; k-- {
		s.params = s.drawParams()
		s.pending = nil
		var vals, want []interface{}
		var err error
		list := f.Roots
		var inner *model.Node
		if e.P(1, 4) {
			inner = f.All[e.N(len(f.All))]
			list = []*model.Node{inner}
		}
		s.base, s.start = 0, inner
		s.frames = []frame{{list: list, params: s.params}}
		s.stack = []*[]interface{}{&want}
		sut(e, "scan", func() {
			if inner == nil {
				vals, err = mp4.ReadBoxStructure(st.RS(), s.handler, s.params...)
				return
			}
			s.base = inner.Depth
			bi := inner.Info()
			var v interface{}
			v, err = mp4.ReadBoxStructureFromInternal(st.RS(), &bi, s.handler, s.params...)
			vals = []interface{}{v}
		})
		e.Evals++
		if s.pending != nil {
			if err != s.pending {
				e.Fail("error-identity", "a callback returned %v, the scan returned %v", s.pending, err)
			}
			e.Probe("scan-aborted")
			continue
		}
		if err != nil {
			e.Fail("scan-error", "no callback returned an error to the scan, the scan returned %v", err)
		}
		if s.frames[0].idx != len(list) {
			e.Fail("missing", "%d of %d boxes visited", s.frames[0].idx, len(list))
		}
		s.sameVals("scan", vals, want)
	}
}
