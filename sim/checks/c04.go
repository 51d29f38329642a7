package checks

import (
	"fmt"

	"verifsim/core"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C04", Quick: 750000, Thorough: 22500000, Run: c04, Real: realLib, Stub: stubIO,
		Rule:   "a run draws a file (mostly well-formed) and a reading operation, executes it fault-free to learn its stream operations and its result, then executes it again with seeded faults placed on operations of that execution (read or seek errors, partial transfers followed by an error, unexpected end of file, stalls); a fault that fired must surface as an error of the innermost operation, a result reported as success must equal the fault-free one, and what was reported before the failure must be a prefix of it",
		Assume: []string{"injected errors are distinct from io.EOF, which is the stream's own way to say it is complete"}})
	core.Register(&core.Check{ID: "C05", Quick: 550000, Thorough: 16500000, Run: c05, Real: realLib, Stub: stubIO,
		Rule:   "a run draws a file and a reading operation, executes it fault-free, then with seeded transient faults while (a) the callback repeats each failed handle operation on the same handle, or (b) the callback swallows failures, or (c) the whole operation is repeated on the same stream until it succeeds; the final result must equal the fault-free one (in (b) everywhere except the operations that met a fault), and repeating a successful operation must reproduce it",
		Assume: []string{"a stream keeps working after a transient error and its position is wherever the error left it"}})
}

func c04(e *core.Env) {
	f := drawFile(e, 18)
	if e.P(1, 8) {
		f.mutate(e)
	}
	o := drawOp(e, f)
	o.mode = e.Pick(3, 1)
	o.clampFor(f.b)
	d := simio.DrawDelivery(e.Src)
	run := func(fs []simio.Fault) (*outcome, *simio.Stream) {
		st := simio.NewBytes(e, f.b).With(d)
		st.ROnly = true
		st.Faults = fs
		return o.run(e, st), st
	}
	e.Label = fmt.Sprintf("%s on %s%s delivery %s", o, f.desc, f.edits, d.Name())
	want, ref := run(nil)
	if e.P(1, 8) {
		f.endEarly(e, o, d, want)
		return
	}
	for k := 1 + e.Pick(3, 2, 1); k > 0; k-- {
		stalls := e.P(1, 5)
		fs := simio.DrawReadFaults(e.Src, ref.Ops, 1+e.Pick(4, 1), stalls)
		if len(fs) == 0 {
			return
		}
		if !stalls && e.P(1, 6) {
			fs[0].Rep = 1000000 // the device is gone from then on
		}
		e.Logf("faults %+v", fs)
		got, st := run(fs)
		e.Evals++
		if st.Fired > 0 {
			e.NonTriv = true
		}
		if x := (cmp{partial: st.Fired > 0}).outcomes(want, got); x != "" {
			e.Fail("fault-wrong-result", "%s with faults %+v (%d fired) gives a wrong result: fault-free against faulted: %s", o, fs, st.Fired, x)
		}
		if got.Err == nil && st.Stalls > 0 {
			e.Probe("stall-survived")
		}
	}
}

// endEarly executes the operation on a stream that ends inside the file: what
// it reports as read must have been there. A scan from the start may end with
// the last box that has a header.
func (f *fileCase) endEarly(e *core.Env, o *op, d simio.Delivery, want *outcome) {
	if want.Err != nil || o.kind == opProbe || f.edits != "" || len(f.b) == 0 {
		return
	}
	for _, n := range f.nodes {
		if n.EOF {
			return
		}
	}
	at := e.N(len(f.b))
	if n := f.nodes[e.N(len(f.nodes))]; e.P(2, 3) {
		if at = int(n.Off + n.Size); e.P(2, 3) {
			at -= e.N(int(n.Size) + 1)
		} else {
			at -= 1 + e.N(3)
		}
		if at = max(at, 0); at > len(f.b) {
			return
		}
	}
	st := simio.NewBytes(e, f.b[:at:at]).With(d)
	st.ROnly = true
	e.Fault("stream-ends-early")
	e.Logf("stream ends at %d of %d", at, len(f.b))
	got := o.run(e, st)
	e.Evals++
	e.NonTriv = true
	if x := (cmp{partial: true, ends: o.kind == opScan || o.kind == opExtract || o.kind == opExtractPayload}).outcomes(want, got); x != "" {
		e.Fail("early-end", "%s on a stream that ends at %d of %d gives a wrong result: in full against cut: %s", o, at, len(f.b), x)
	}
	if o.kind == opScan && got.Err == nil {
		n := 0
		for _, x := range f.nodes {
			if x.Parent == nil && x.Off+x.Hdr <= uint64(at) {
				n++
			}
		}
		if len(got.Visits) != n {
			e.Fail("early-end", "%s on a stream that ends at %d of %d reports %d of the %d boxes that have a header", o, at, len(f.b), len(got.Visits), n)
		}
	}
}

func c05(e *core.Env) {
	f := drawFile(e, 18)
	if e.P(1, 8) {
		f.mutate(e)
	}
	o := drawOp(e, f)
	o.clampFor(f.b)
	d := simio.DrawDelivery(e.Src)
	how := e.Pick(3, 2, 3)
	o.mode = []int{retrying, tolerant, strict}[how]
	ref := simio.NewBytes(e, f.b).With(d)
	ref.ROnly = true
	want := o.run(e, ref)
	e.Label = fmt.Sprintf("%s on %s%s delivery %s", o, f.desc, f.edits, d.Name())
	st := simio.NewBytes(e, f.b).With(d)
	st.ROnly = true
	nf := 1 + e.Pick(4, 2, 1)
	st.Faults = simio.DrawReadFaults(e.Src, ref.Ops, nf, e.P(1, 8))
	for try := 0; ; try++ {
		fired := st.Fired
		got := o.run(e, st)
		fired = st.Fired - fired
		e.Evals++
		if st.Fired > 0 {
			e.NonTriv = true
		}
		if fired == 0 {
			if x := (cmp{}).outcomes(want, got); x != "" {
				e.Fail("retry-result", "%s repeated on the same stream after %d faults gives a different result: %s", o, st.Fired, x)
			}
			if try > 0 {
				e.Probe("operation-retried")
			}
			if try > 0 || e.P(1, 2) {
				return
			}
			continue
		}
		// faults may make operations fail, nothing else
		c := cmp{partial: true}
		if x := c.outcomes(want, got); x != "" {
			e.Fail("fault-wrong-result", "%s with %d faults gives a wrong result: %s", o, fired, x)
		}
		if o.mode == retrying && got.Err == nil {
			if x := (cmp{}).outcomes(want, got); x != "" {
				e.Fail("retry-result", "%s: what was repeated on the same handle differs: %s", o, x)
			}
		}
		if o.mode == tolerant && got.Err == nil {
			if n := failures(got.Visits) - failures(want.Visits); n > st.FiredE+st.Stalls {
				e.Fail("fault-spreads", "%s: %d faults made %d handle operations fail", o, fired, n)
			}
		}
		if try > 12 {
			e.Fail("no-recovery", "%s still meets faults after %d repetitions", o, try)
		}
	}
}

// failures counts failed handle operations that did not fail because of a failure below.
func failures(vs []*visit) (n int) {
	for _, v := range vs {
		for _, a := range v.Acts {
			if a.Err != nil {
				n++
			}
			n += failures(a.Kids)
		}
	}
	return
}
