package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"runtime/metrics"
	"strings"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C11", Quick: 2000000, Thorough: 60000000, Run: c11, Real: realLib, Stub: stubIO,
		Rule:   "a run draws damaged contents (a generated file with bytes, sizes, counts and fields corrupted, ranges filled, moved or cut; random bytes; one payload with a lying size) and possibly an instant at which the file changes while it is read, then executes a reading operation with rendering under a drawn delivery; panics, missing progress (stream operations beyond a bound quadratic in the file size, or no end of the run) and memory allocated beyond a bound proportional to the file size are violations",
		Assume: []string{"sample counts that need no stored bytes (run boxes without per-sample fields, time-to-sample entries) are kept small: see known-findings", "heap allocation as counted by the Go runtime"}, Known: knownC11})
}

var allocMetric = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocMetric)
	return allocMetric[0].Value.Uint64()
}

func c11(e *core.Env) {
	var f *fileCase
	o := &op{seed: e.U64(), maxData: 1 << 62, discard: true, render: true}
	switch e.Pick(6, 3, 1) {
	case 0:
		f = drawFile(e, 18)
		o2 := drawOp(e, f)
		o.kind, o.bi, o.paths, o.payload, o.track = o2.kind, o2.bi, o2.paths, o2.payload, o2.track
		if !e.P(1, 20) {
			f.mutate(e)
		}
	case 1: // one payload, its declared size lying
		tc := drawType(e)
		p := model.Gen(e.Src, tc.t, tc.c, e.P(1, 12))
		n := &model.Node{Type: tc.t, Ctx: tc.c, Hdr: 8, Fields: p.Bytes, Size: 8 + p.N, Marks: p.Marks}
		f = &fileCase{b: append(n.HeaderBytes(), p.Bytes...), nodes: []*model.Node{n}, desc: fmt.Sprintf("%s/%d bytes in %+v", tc.t, p.N, tc.c)}
		if !e.P(1, 8) {
			f.mutate(e)
		}
		o.kind = opDecode
		if e.P(1, 4) {
			o.kind = opScanInner
		}
		o.bi = n.Info()
		if e.P(1, 2) {
			o.bi.Size = f.interesting(e, o.bi.Size, 64)
			f.note("declared size %d", o.bi.Size)
		}
		if o.bi.Size < 8 {
			o.bi.Size = 8
		}
	default: // no file at all
		b := garbage(e, e.N(200))
		for i := 0; i+8 <= len(b) && e.P(2, 3); i += 8 + int(b[i+3])%24 {
			copy(b[i:], []byte{0, 0, 0})
			t := drawType(e).t
			copy(b[i+4:], t[:])
		}
		n := &model.Node{Type: drawType(e).t, Hdr: 8, Size: uint64(8 + len(b))}
		f = &fileCase{b: b, nodes: []*model.Node{n}, desc: fmt.Sprintf("%d random bytes", len(b)), media: &model.Media{}}
		o2 := drawOp(e, f)
		o.kind, o.bi, o.paths, o.payload = o2.kind, o2.bi, o2.paths, o2.payload
		clamp(f.b)
		e.Fault("garbage")
	}
	o.mode = e.Pick(2, 1)
	if o.kind == opCopy && o.bi.Size > 1<<22 {
		o.kind = opScan
	}
	st := simio.NewBytes(e, f.b).With(simio.DrawDelivery(e.Src))
	st.ROnly = true
	o.clampFor(f.b)
	size := uint64(len(f.b))
	// the file changes while it is being read
	if e.P(1, 4) {
		at := e.U64n(60)
		g := &fileCase{b: append([]byte(nil), f.b...), nodes: f.nodes}
		g.mutate(e)
		o.clampMixed(f.b, g.b)
		e.Probe("changing-file")
		f.note("then at operation %d: %s", at, g.edits)
		st.OnOp = func(op uint64) {
			if op == at {
				e.Fault("change-while-reading")
				st.St = &simio.Mem{B: g.b}
			}
		}
		if uint64(len(g.b)) > size {
			size = uint64(len(g.b))
		}
	}
	st.OpCap = 20000 + 200*size + size*size
	e.Label = fmt.Sprintf("%s on %s %s", o, f.desc, f.edits)
	e.NonTriv = true
	before := allocated()
	out := o.run(e, st)
	used := allocated() - before
	e.Evals++
	if out.Err == nil {
		e.Probe("succeeded")
	} else {
		e.Probe("failed")
	}
	if lim := 8<<20 + 6000*size; used > lim {
		e.Fail("memory", "%s allocated %d bytes for a file of %d bytes", o, used, size)
	}
}

// knownC11 repeats the known findings of known-findings.txt.
func knownC11(string) (l []string) {
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	d, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		core.Bug("%v", err)
	}
	for _, s := range strings.Split(string(d), "\n") {
		if !strings.HasPrefix(s, "known: property=C11 ") {
			continue
		}
		f := strings.SplitN(s, " ", 5)
		in, err := hex.DecodeString(strings.TrimPrefix(f[3], "input="))
		if err != nil {
			core.Bug("%v", err)
		}
		before := allocated()
		switch name := strings.TrimPrefix(f[2], "op="); {
		case strings.HasPrefix(name, "decode:"):
			_, _, err = mp4.UnmarshalAny(bytes.NewReader(in), mp4.StrToBoxType(name[7:]), uint64(len(in)), mp4.Context{})
		case name == "probe":
			_, err = mp4.Probe(bytes.NewReader(in))
		default:
			core.Bug("unknown operation %q", name)
		}
		if used := allocated() - before; used > 8<<20+6000*uint64(len(in)) {
			l = append(l, fmt.Sprintf("KNOWN-FINDING: property=C11 %s allocates %d bytes for an input of %d bytes (error: %v): %s", f[2], used, len(in), err, strings.TrimPrefix(f[4], "what=")))
		}
	}
	return
}
