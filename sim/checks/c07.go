package checks

import (
	"bytes"
	"fmt"
	"io"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C07", Quick: 1500000, Thorough: 45000000, Run: c07, Real: realLib, Stub: stubIO,
		Rule:   "a run encodes a seeded sequence of generated boxes of every supported type, version, flag combination and context, one after another, to one simulated stream at a seeded position over pre-existing bytes; the bytes written, the counts, the bytes around them and the unchanged value are compared with the independent bit-level model, then the output is decoded again under a seeded delivery",
		Assume: []string{"the layouts of the model (sim/model/boxes.go) are the documented format as the library's own tests pin it"}})
}

// onlyWriter hides Seek from the encoder.
type onlyWriter struct{ s *simio.Stream }

func (w onlyWriter) Write(p []byte) (int, error) { return w.s.Write(p) }

// sink is the encoder's destination: a bare writer, or a stream with whatever
// else it offers.
func sink(e *core.Env, st *simio.Stream) io.Writer {
	if e.P(2, 3) {
		return onlyWriter{st}
	}
	st.Caps = simio.DrawCaps(e.Src)
	return st.RS()
}

func c07(e *core.Env) {
	n := 1 + e.Pick(5, 3, 2)
	base := drawOff(e)
	before := garbage(e, e.N(9))
	old := garbage(e, e.N(40))
	st := simio.New(e, at(base, before, old, nil))
	st.Pos = base
	w := sink(e, st)
	var want []byte
	var ps []*model.Payload
	for i := 0; i < n; i++ {
		var tc typeCtx
		var p *model.Payload
		if n == 1 && e.P(1, 600) {
			tc, p = drawHuge(e)
		} else {
			tc = drawType(e)
			p = model.Gen(e.Src, tc.t, tc.c, e.P(1, 10))
		}
		e.Label += fmt.Sprintf("%s/%d ", tc.t, len(p.Bytes))
		e.NonTriv = true
		val := p.Val
		cp := model.DeepCopy(val).(mp4.IBox)
		var cnt uint64
		var err error
		start := st.Pos
		sut(e, "encode "+tc.t.String(), func() { cnt, err = mp4.Marshal(w, val, tc.c) })
		e.Evals++
		if err != nil {
			e.Fail("encode-error", "%s in %+v: encoding gives error %v", tc.t, tc.c, err)
		}
		if d := model.Diff(cp, val); d != "" {
			e.Fail("encode-modifies", "%s: encoding changed the box: %s", tc.t, d)
		}
		got := make([]byte, st.Pos-start)
		st.St.ReadAt(got, start)
		if cnt != uint64(len(got)) {
			e.Fail("encode-count", "%s: %d bytes reported, %d written", tc.t, cnt, len(got))
		}
		if p.Canon && !bytes.Equal(got, p.Bytes) {
			e.Fail("encode-bytes", "%s in %+v: wrote %s, expected %s", tc.t, tc.c, cut(got), cut(p.Bytes))
		}
		if e.P(1, 4) {
			// more elements than the box says: the surplus is not written
			if sp := model.Surplus(e.Src, val, tc.c); sp != nil {
				var buf bytes.Buffer
				spc := model.DeepCopy(sp).(mp4.IBox)
				sut(e, "encode "+tc.t.String(), func() { cnt, err = mp4.Marshal(&buf, sp, tc.c) })
				e.Evals++
				e.Probe("surplus-elements")
				if err != nil || cnt != uint64(len(got)) || !bytes.Equal(buf.Bytes(), got) {
					e.Fail("encode-surplus", "%s in %+v with surplus array elements: wrote %s (%d bytes reported, error %v), without them %s", tc.t, tc.c, cut(buf.Bytes()), cnt, err, cut(got))
				}
				if d := model.Diff(spc, sp); d != "" {
					e.Fail("encode-modifies", "%s: encoding changed the box: %s", tc.t, d)
				}
			}
			// fewer elements than the box says: refused
			if lk := model.Lack(e.Src, val, tc.c); lk != nil {
				var buf bytes.Buffer
				sut(e, "encode "+tc.t.String(), func() { cnt, err = mp4.Marshal(&buf, lk, tc.c) })
				e.Evals++
				e.Probe("lacking-elements")
				if err == nil {
					e.Fail("encode-lacking", "%s in %+v with fewer array elements than it says: %d bytes written without an error", tc.t, tc.c, cnt)
				}
			}
		}
		p.Bytes, p.N = got, uint64(len(got))
		want = append(want, got...)
		ps = append(ps, p)
		hashBytes(e, 'w', got)
	}
	// nothing around the written range changed
	all := make([]byte, len(before)+len(want)+len(old))
	k := st.St.ReadAt(all, base-int64(min(len(before), int(base))))
	all = all[:k]
	b := min(len(before), int(base))
	exp := append([]byte(nil), before[len(before)-b:]...)
	exp = append(exp, want...)
	if len(old) > len(want) {
		exp = append(exp, old[len(want):]...)
	}
	if !bytes.Equal(all, exp) {
		e.Fail("encode-around", "bytes around the encoded boxes changed")
	}
	// read it all back
	d := simio.DrawDelivery(e.Src)
	rd := simio.New(e, st.St).With(d)
	rd.ROnly = true
	rd.Pos = base
	for _, p := range ps {
		var box mp4.IBox
		var cnt uint64
		var err error
		sut(e, "decode "+p.Type.String(), func() { box, cnt, err = mp4.UnmarshalAny(rd, p.Type, p.N, p.Ctx) })
		e.Evals++
		if err != nil {
			e.Fail("reload-error", "%s in %+v: decoding what was encoded gives error %v", p.Type, p.Ctx, err)
		}
		if cnt != p.N {
			e.Fail("reload-count", "%s: %d bytes consumed of %d encoded", p.Type, cnt, p.N)
		}
		if dd := model.Diff(p.Val, box); dd != "" {
			e.Fail("reload-value", "%s in %+v: encoded against decoded: %s", p.Type, p.Ctx, dd)
		}
		// and once more
		var buf bytes.Buffer
		sut(e, "encode "+p.Type.String(), func() { cnt, err = mp4.Marshal(&buf, box, p.Ctx) })
		if err != nil || !bytes.Equal(buf.Bytes(), p.Bytes) {
			e.Fail("reencode", "%s in %+v: re-encoding the decoded box gives %s (error %v), not %s", p.Type, p.Ctx, cut(buf.Bytes()), err, cut(p.Bytes))
		}
	}
}

func cut(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x(%d bytes)", b, len(b))
}
