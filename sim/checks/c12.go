package checks

import (
	"fmt"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C12", Quick: 1400000, Thorough: 42000000, Run: c12, Real: realLib, Stub: stubIO,
		Rule:   "a run takes one box of a generated file (its inside possibly corrupted), executes an operation on it in place, then again with the box at another offset (also beyond 4 GiB) between other bytes (nothing, zeros, ones, random bytes, other boxes) under another delivery, and possibly with the surroundings changing while the operation runs; the results must be equal up to the offset, no operation may consume beyond the box, and children must lie one after another inside their parent",
		Assume: []string{"a box inside that extends to the end of the file by its header is excluded: its extent is defined by the file's end"}})
}

// boundsOK checks that everything visited lies inside its parent.
func boundsOK(e *core.Env, vs []*visit, lo, hi uint64) {
	at := lo
	for _, v := range vs {
		b := v.Info
		if b.Offset < at || b.Size < b.HeaderSize || b.Offset+b.Size > hi || b.Offset+b.Size < b.Offset {
			e.Fail("outside-parent", "box %s at %d+%d reported inside %d..%d", b.Type, b.Offset, b.Size, at, hi)
		}
		at = b.Offset + b.Size
		for _, a := range v.Acts {
			if a.Kind == 'p' && a.Err == nil && a.N > b.Size-b.HeaderSize {
				e.Fail("beyond-box", "decoding box %s at %d+%d consumed %d bytes of payload", b.Type, b.Offset, b.Size, a.N)
			}
			if a.Kind == 'd' && a.Err == nil && a.N != b.Size-b.HeaderSize {
				e.Fail("beyond-box", "copying the payload of box %s at %d+%d delivered %d bytes", b.Type, b.Offset, b.Size, a.N)
			}
			if a.Kind == 'x' {
				boundsOK(e, a.Kids, b.Offset+b.HeaderSize, b.Offset+b.Size)
			}
		}
	}
}

func eofInside(vs []*visit, top bool) bool {
	for _, v := range vs {
		if v.Info.ExtendToEOF && !top {
			return true
		}
		for _, a := range v.Acts {
			if eofInside(a.Kids, false) {
				return true
			}
		}
	}
	return false
}

func c12(e *core.Env) {
	f := drawFile(e, 16)
	orig := append([]byte(nil), f.b...)
	var cand []*model.Node
	for _, n := range f.nodes {
		if !n.EOF {
			cand = append(cand, n)
		}
	}
	if len(cand) == 0 {
		return
	}
	n := cand[e.N(len(cand))]
	if e.P(1, 2) {
		f.mutate(e)
	}
	box := append([]byte(nil), orig[n.Off:n.Off+n.Size]...)
	if uint64(len(f.b)) >= n.Off+n.Size {
		copy(box, f.b[n.Off:])
	}
	if e.P(1, 5) { // the box ends early
		x := *n
		x.Size = n.Hdr + uint64(e.N(int(n.Size-n.Hdr)+1))
		if e.P(1, 2) {
			x.Size = n.Hdr + uint64(min(e.N(9), int(n.Size-n.Hdr)))
		}
		n = &x
		box = box[:n.Size]
		f.note("box ends after %d bytes", n.Size)
		e.Fault("truncate-box")
	}
	copy(box, n.HeaderBytes())
	o := drawOp(e, &fileCase{b: orig, nodes: f.nodes, media: nil})
	switch o.kind {
	case opScan, opProbe, opIDR:
		o.kind = opScanInner
	case opExtract, opExtractPayload:
		o.kind = opExtractInner
		for i := range o.paths {
			if len(o.paths[i]) > 1 {
				o.paths[i] = o.paths[i][1:]
			}
		}
	}
	o.bi = n.Info()
	o.base = n.Off
	if o.kind == opExtractInner {
		o.paths = nil
		var below []*model.Node
		for _, x := range f.nodes {
			for p := x.Parent; p != nil; p = p.Parent {
				if p.Off == n.Off {
					below = append(below, x)
				}
			}
		}
		o.paths = []mp4.BoxPath{{mp4.BoxTypeAny()}}
		if len(below) > 0 {
			o.paths = append(o.paths, drawPath(e, below[e.N(len(below))], n.Depth+1))
		}
	}
	o.mode = e.Pick(1, 1)
	a := append([]byte(nil), orig...)
	copy(a[n.Off:], box)
	clampBox(o, a)
	copy(box, a[n.Off:])

	// somewhere else
	off := drawOff(e)
	fill := func() []byte {
		switch e.Pick(2, 2, 1, 1, 1) {
		case 0:
			return nil
		case 1:
			return garbage(e, e.N(40))
		case 2:
			return make([]byte, e.N(40))
		case 3:
			b := make([]byte, e.N(40))
			for i := range b {
				b[i] = 0xff
			}
			return b
		default:
			x := f.nodes[e.N(len(f.nodes))]
			return append([]byte(nil), orig[x.Off:x.Off+x.Size]...)
		}
	}
	before, after := fill(), fill()
	o2 := *o
	o2.bi.Offset, o2.base = uint64(off), uint64(off)
	da, db := simio.DrawDelivery(e.Src), simio.DrawDelivery(e.Src)
	e.Label = fmt.Sprintf("%s of %s%s moved to %d between %d and %d bytes", o, f.desc, f.edits, off, len(before), len(after))
	e.NonTriv = true
	sa := simio.NewBytes(e, a).With(da)
	sa.ROnly = true
	want := o.run(e, sa)
	sb := simio.New(e, at(off, before, box, after)).With(db)
	sb.ROnly = true
	if e.P(1, 5) { // the surroundings change meanwhile
		at0 := e.U64n(40)
		other := fill()
		sb.OnOp = func(op uint64) {
			if op == at0 {
				e.Fault("surroundings-change")
				sb.St.Truncate(off + int64(len(box)))
				sb.St.WriteAt(other, off+int64(len(box)))
			}
		}
	}
	got := o2.run(e, sb)
	e.Evals++
	for i, vs := range [][]*visit{want.Visits, got.Visits} {
		lo := []uint64{n.Off, uint64(off)}[i]
		boundsOK(e, vs, lo, lo+n.Size)
	}
	for i, x := range []*outcome{want, got} {
		lo := []uint64{n.Off, uint64(off)}[i]
		if o.kind == opDecode && x.Err == nil && x.N > n.Size-n.Hdr {
			e.Fail("beyond-box", "decoding %d bytes of payload consumed %d", n.Size-n.Hdr, x.N)
		}
		for _, b := range x.Infos {
			if o.kind == opExtractInner && (b.Offset < lo+n.Hdr || b.Offset+b.Size > lo+n.Size) {
				e.Fail("outside-parent", "extracted box %s at %d+%d lies outside %d+%d", b.Type, b.Offset, b.Size, lo, n.Size)
			}
			if b.ExtendToEOF {
				e.Probe("to-eof-inside")
				return
			}
		}
	}
	if eofInside(want.Visits, true) || eofInside(got.Visits, true) {
		e.Probe("to-eof-inside")
		return
	}
	if o.kind == opExtractInner && (want.Err != nil || got.Err != nil) && zeroSizeInside(box[n.Hdr:]) {
		e.Probe("to-eof-inside")
		return
	}
	if x := (cmp{shift: uint64(off) - n.Off}).outcomes(want, got); x != "" {
		e.Fail("depends-on-surroundings", "%s: in place against moved to %d: %s", o, off, x)
	}
}

// zeroSizeInside tells whether some four bytes could be a to-end-of-file size.
func zeroSizeInside(b []byte) bool {
	for i := 0; i+8 <= len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 0 && b[i+3] == 0 {
			return true
		}
	}
	return false
}

func clampBox(o *op, b []byte) {
	clamp(b)
	o.clampFor(b)
}
