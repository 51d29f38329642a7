package checks

import (
	"verifsim/core"
	"verifsim/simio"

	"github.com/abema/go-mp4"
)

func init() {
	core.Register(&core.Check{ID: "C09", Quick: 1300000, Thorough: 39000000, Run: c09, Real: realLib, Stub: stubIO,
		Rule:   "a run generates a history of opening boxes (all header styles and size announcements), writing raw bytes, encoding payloads, copying boxes from another stream, leaving holes (up to and beyond 4 GiB on a sparse device), seeking back to patch, seeking around and closing boxes, and executes it on the library's writer over a simulated device that already holds other bytes, operation by operation next to a reference writer; in part of the runs an opening, writing, encoding or copying meets a passing fault and is repeated from where it began; results, positions, the complete device image and a scan of the result are compared",
		Assume: []string{"while a box is open its size field holds what was announced for it (as the repository's tests pin)"}})
}

func c09(e *core.Env) {
	huge := e.P(1, 3)
	o := histOpt{huge: huge, max: 12, seeks: e.P(2, 3), copies: e.P(1, 2), far: true}
	if e.P(1, 8) {
		o.deep, o.max = true, 60
	}
	h := genHist(e, o)
	e.Label = h.String()
	st, base := diskFor(e, huge)
	m := &wmodel{st: clone(st), pos: base}
	s := simio.New(e, st)
	s.Pos = base
	s.Caps = simio.DrawCaps(e.Src)
	r := &wrun{e: e, w: mp4.NewWriter(s.RS()), st: s, src: func(b []byte) *simio.Stream {
		x := simio.NewBytes(e, b).With(simio.DrawDelivery(e.Src))
		x.ROnly = true
		x.Pos = int64(e.N(10))
		return x
	}}
	flaky := e.P(1, 5)
	var end int64
	for _, o := range h.ops {
		r.pos = m.pos
		stack := append([]*wnode(nil), m.stack...)
		want, werr := m.apply(o)
		var got *mp4.BoxInfo
		var err error
		if flaky && (o.k == 's' || o.k == 'w' || o.k == 'm' || o.k == 'c') && e.P(1, 3) {
			// the operation meets a passing fault and is repeated from where it began
			f := simio.DrawWriteFault(e.Src, 4)
			f[0].Op += s.Ops
			s.Faults = f
			fired := s.FiredE
			sut(e, o.String(), func() { got, err = r.do(o, stack) })
			s.Faults = nil
			if s.FiredE > fired {
				e.Probe("retried-write")
				if err == nil {
					e.Fail("fault-hidden", "%s met a failing write or seek and reports success", o)
				}
				if serr := r.seek(r.pos, 0); serr != nil {
					e.Fail("write-error", "seeking back gives error %v without any fault", serr)
				}
				sut(e, o.String(), func() { got, err = r.do(o, stack) })
			}
		} else {
			sut(e, o.String(), func() { got, err = r.do(o, stack) })
		}
		e.Evals++
		e.Ev(o.k, uint64(s.Pos), b2u(err != nil))
		if werr != nil {
			e.Probe("outgrown")
			e.NonTriv = true
			if err == nil {
				e.Fail("outgrown-accepted", "closing %s of %d bytes with a %d-byte header succeeds", o.n.typ, o.n.end-o.n.off, o.n.hdr)
			}
			if d := sameImage(m.st, s.St, o.n.off, o.n.off+16); d != "" {
				e.Fail("bytes-touched", "the refused close of %s changed bytes outside that box's header: %s", o.n.typ, d)
			}
			return
		}
		if err != nil {
			e.Fail("write-error", "%s gives error %v without any fault", o, err)
		}
		if o.k == 's' || o.k == 'e' {
			if got == nil {
				e.Fail("returned-info", "%s returns no description", o)
			}
			g := *got
			g.Context = mp4.Context{}
			if o.k == 's' && o.n.hdr != int64(o.n.bi.HeaderSize) && o.n.bi.Size != 0 {
				// the announced size was made for another header; only the recomputed size is defined
				e.Probe("announced-for-other-header")
			}
			if g != want {
				e.Fail("returned-info", "%s returns %+v, on disk is %+v", o, g, want)
			}
		}
		if s.Pos != m.pos {
			e.Fail("position", "after %s the stream is at %d, not at %d", o, s.Pos, m.pos)
		}
		if m.pos > end {
			end = m.pos
		}
	}
	e.NonTriv = len(h.ops) > 2
	if d := sameImage(m.st, s.St, 0, 0); d != "" {
		e.Fail("image", "expected and written device differ: %s", d)
	}
	if end-base > 1<<32 {
		e.Probe("over-4GiB")
	}
	d := simio.DrawDelivery(e.Src)
	rd := simio.New(e, &window{s.St, base, end - base}).With(d)
	rd.ROnly = true
	p := &parser{e: e, st: rd, base: base, raw: true}
	n, err := p.tree(h.tops, true)
	if err != nil {
		e.Fail("written-box", "scanning what was written gives error %v after %d of %d boxes", err, n, len(h.tops))
	}
	if n != len(h.tops) {
		e.Fail("written-box", "%d top-level boxes were written, %d are scanned", len(h.tops), n)
	}
}
