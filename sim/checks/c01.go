package checks

import (
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C01", Quick: 500000, Thorough: 15000000, Run: c01, Real: realLib, Stub: stubIO,
		Rule:   "a run generates a file (nested supported, unknown and unsupported-version boxes in every context, all header styles, terminators, payloads up to terabytes unstored), scans it once or several times from the root or an inner box over a seeded delivery with a callback whose behaviour (skip, read, copy, expand once or repeatedly, use enclosing handles, leave the shared stream anywhere, use handles after the scan) is drawn per visit, and compares every reported box, path, context, value, payload and raw data with the generated tree",
		Assume: []string{"the file layout rules of the model (sim/model/tree.go)"}})
}

func c01(e *core.Env) {
	f := model.GenFile(e.Src, model.Opt{MaxNodes: 30, Junk: true, BadVer: true, Huge: e.P(1, 5), Term: true, Big: e.P(1, 10), Ext: true})
	d := simio.DrawDelivery(e.Src)
	st := simio.New(e, f.St).With(d)
	st.ROnly = true
	e.Label = f.Describe() + d.Name()
	e.NonTriv = len(f.All) > 1
	s := &scanner{e: e, f: f, st: st, budget: 300}
	if f.Size > 1<<32 {
		e.Probe("file-over-4GiB")
	}
	for k := 1 + e.Pick(5, 3, 1); k > 0; k-- {
		s.wander()
		s.acts = e.Pick(5, 2, 1)
		s.params = nil
		if e.P(1, 3) {
			s.params = []interface{}{int(e.N(100)), "p"}
		}
		if e.P(1, 3) {
			e.Probe("inner-scan")
			s.internal(f.All[e.N(len(f.All))])
		} else {
			s.full()
		}
		// handles stay usable after the scan
		for _, ob := range s.kept {
			sut(e, "handle used after the scan", func() {
				if e.P(1, 2) {
					s.payload(ob)
				} else {
					s.data(ob)
				}
			})
		}
		s.kept = nil
	}
}
