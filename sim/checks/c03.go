package checks

import (
	"fmt"

	"verifsim/core"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C03", Quick: 650000, Thorough: 19500000, Run: c03, Real: realLib, Stub: stubIO,
		Rule:   "a run draws a file (well-formed, or corrupted and truncated in drawn ways) and a reading operation (header, scan with a drawn callback policy, inner scan, extraction with and without payload, decode, copy, probe with IDR search and bitrates), executes it over whole-request delivery and then over further drawn deliveries (one byte at a time, random short reads, block boundaries, last bytes together with io.EOF), and compares the complete observable results",
		Assume: []string{"failures are compared by kind (unsupported version, unknown type, other), not by message"}})
}

func c03(e *core.Env) {
	f := drawFile(e, 18)
	if e.P(1, 2) {
		f.mutate(e)
	}
	o := drawOp(e, f)
	o.mode = e.Pick(2, 1) // strict or tolerant
	o.clampFor(f.b)
	ref := simio.NewBytes(e, f.b)
	ref.ROnly = true
	e.Label = fmt.Sprintf("%s on %s%s", o, f.desc, f.edits)
	want := o.run(e, ref)
	e.NonTriv = ref.Ops > 2
	for k := 1 + e.Pick(3, 2, 1); k > 0; k-- {
		d := simio.DrawDelivery(e.Src)
		st := simio.NewBytes(e, f.b).With(d)
		st.ROnly = true
		e.Logf("delivery %s", d.Name())
		got := o.run(e, st)
		e.Evals++
		if x := (cmp{}).outcomes(want, got); x != "" {
			e.Fail("delivery", "%s gives a different result with delivery %s: %s", o, d.Name(), x)
		}
	}
}
