package checks

import (
	"errors"
	"fmt"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C06", Quick: 3000000, Thorough: 90000000, Run: c06, Real: realLib, Stub: stubIO,
		Rule:   "a run decodes a seeded sequence of generated payloads of supported box types (every type, version, flag combination and context) from one simulated stream at seeded positions, with seeded short deliveries, benign stalls excluded; every decoded value, byte count and stream position is compared with the independent bit-level model, and payloads of unsupported versions must be refused with the stream put back",
		Assume: []string{"the layouts of the model (sim/model/boxes.go) are the documented format as the library's own tests pin it"}})
}

// fullVersion draws a version the definition does not support.
func badVersion(e *core.Env, d *model.Def) uint8 {
	for v := uint8(e.N(256)); ; v++ {
		ok := true
		for _, x := range d.FullVersions {
			ok = ok && x != v
		}
		if ok {
			return v
		}
	}
}

// quickTimeMeta draws the payload of a meta box that has no version and flags.
func quickTimeMeta(e *core.Env) []byte {
	b := garbage(e, e.N(30))
	if len(b) >= 4 {
		switch e.N(3) {
		case 0:
			b[0] |= 1
		case 1: // a single byte tells the form apart
			b[0], b[1], b[2], b[3] = 0, 0, 0, 0
			b[e.N(4)] = byte(1) << e.N(8)
		default:
			b[0], b[1], b[2] = 0, 0, 0
			b[3] |= 8
		}
	}
	return b
}

func c06(e *core.Env) {
	type item struct {
		p     *model.Payload
		off   int64
		size  uint64
		badV  bool
		bytes []byte
	}
	n := 1 + e.Pick(6, 3, 2, 1)
	base := drawOff(e)
	before := garbage(e, e.N(9))
	var data []byte
	var items []item
	label := ""
	var huge *model.Payload
	if e.P(1, 1000) {
		_, huge = drawHuge(e)
		n = 1
	}
	for i := 0; i < n; i++ {
		var tc typeCtx
		if huge != nil {
			tc = typeCtx{huge.Type, huge.Ctx}
		} else {
			tc = drawType(e)
		}
		it := item{off: base + int64(len(data))}
		d := model.Lookup(tc.t, tc.c)
		if huge == nil && len(d.FullVersions) > 0 && e.P(1, 12) {
			it.badV = true
			it.p = &model.Payload{Type: tc.t, Ctx: tc.c, Def: d}
			it.bytes = append([]byte{badVersion(e, d)}, garbage(e, 3+e.N(60))...)
			it.size = uint64(len(it.bytes))
			e.Probe("unsupported-version")
		} else {
			it.p = huge
			if huge == nil {
				it.p = model.Gen(e.Src, tc.t, tc.c, e.P(1, 10))
			}
			if d.Name == "meta" && e.P(2, 3) {
				// the QuickTime form: no version and flags, children from the start
				it.p.Bytes, it.p.N = quickTimeMeta(e), 0
				e.Probe("quicktime-meta")
			}
			it.bytes = it.p.Bytes
			it.size = uint64(len(it.bytes))
			if !it.p.Tail && uint64(len(it.bytes)) == it.p.N && e.P(1, 3) {
				extra := garbage(e, e.N(40))
				it.size += uint64(len(extra))
				it.bytes = append(append([]byte(nil), it.bytes...), extra...)
				e.Probe("bytes-after-the-fields")
			}
		}
		label += fmt.Sprintf("%s/%d ", tc.t, len(it.bytes))
		data = append(data, it.bytes...)
		items = append(items, it)
	}
	after := garbage(e, e.N(12))
	d := simio.DrawDelivery(e.Src)
	st := simio.New(e, at(base, before, data, after)).With(d)
	st.ROnly = true
	e.Label = fmt.Sprintf("%s at %d, delivery %s", label, base, d.Name())
	if base > 1<<32 {
		e.Probe("beyond-4GiB")
	}
	// decode in order, or in a random order with seeks
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	seq := !e.P(1, 3)
	rounds := n
	if !seq {
		rounds = n + e.N(3)
	}
	for k := 0; k < rounds; k++ {
		i := k
		if !seq {
			i = e.N(n)
		}
		it := items[i]
		if st.Pos != it.off {
			st.Pos = it.off
		}
		e.NonTriv = true
		var box mp4.IBox
		var cnt uint64
		var err error
		how := e.N(2)
		sut(e, "decode "+it.p.Type.String(), func() {
			if how == 0 {
				box, cnt, err = mp4.UnmarshalAny(st.RS(), it.p.Type, it.size, it.p.Ctx)
				return
			}
			if box, err = it.p.Type.New(it.p.Ctx); err == nil {
				cnt, err = mp4.Unmarshal(st.RS(), it.size, box, it.p.Ctx)
			}
		})
		e.Evals++
		if it.badV {
			if !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
				e.Fail("bad-version", "%s: payload of version %d gives error %v", it.p.Type, it.bytes[0], err)
			}
			if st.Pos != it.off {
				e.Fail("bad-version-position", "%s: after refusing version %d the stream is at %d, decoding started at %d", it.p.Type, it.bytes[0], st.Pos, it.off)
			}
			continue
		}
		if err != nil {
			e.Fail("decode-error", "%s in %+v: decoding %d well-formed bytes gives error %v", it.p.Type, it.p.Ctx, it.size, err)
		}
		if cnt != it.p.N {
			e.Fail("decode-count", "%s: %d bytes reported consumed, fields occupy %d", it.p.Type, cnt, it.p.N)
		}
		if dd := model.Diff(it.p.Val, box); dd != "" {
			e.Fail("decode-value", "%s in %+v: expected against decoded: %s", it.p.Type, it.p.Ctx, dd)
		}
		if st.Pos != it.off+int64(it.p.N) {
			e.Fail("decode-position", "%s: stream at %d after decoding, expected %d", it.p.Type, st.Pos, it.off+int64(it.p.N))
		}
	}
}
