package checks

import (
	"fmt"
	"io"
	"math"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C08", Quick: 1500000, Thorough: 45000000, Run: c08, Real: realLib, Stub: stubIO,
		Rule:   "a run draws a writing workload (encoding payloads of any type, version and context one after another; writing a header; a writer history of opening, writing, copying, patching and closing boxes; copying a box's raw data out of a scan), executes it fault-free to record its write log, then again with faults placed on its operations (write error, short write with error, seek error, device full at a byte position, device gone for good, failing, truncated or stalling source); the call that met the fault must return an error, report no more bytes than were delivered and leave a write log that is a prefix of the fault-free one",
		Assume: []string{"a writer that accepts fewer bytes than given returns an error, as io.Writer demands"}})
}

// wlog is a flattened write log: positions and bytes in the order they reached the device.
func prefixOf(ref, got []simio.Write) string {
	ri, ro := 0, 0
	n := 0
	for _, w := range got {
		for i, b := range w.Data {
			for ri < len(ref) && ro >= len(ref[ri].Data) {
				ri, ro = ri+1, 0
			}
			if ri >= len(ref) {
				return fmt.Sprintf("more bytes were written than without the fault (%d)", n)
			}
			if ref[ri].Off+int64(ro) != w.Off+int64(i) || ref[ri].Data[ro] != b {
				return fmt.Sprintf("written byte %d is %#x at %d, without the fault %#x at %d", n, b, w.Off+int64(i), ref[ri].Data[ro], ref[ri].Off+int64(ro))
			}
			ro++
			n++
		}
	}
	return ""
}

func written(ws []simio.Write) (n int64) {
	for _, w := range ws {
		n += int64(len(w.Data))
	}
	return
}

// job is one writing workload; step i returns the reported count (or -1) and the error.
type job struct {
	label string
	n     int
	start func(st *simio.Stream, src func(b []byte) *simio.Stream)
	step  func(i int) (int64, error)
	base  int64
	disk  simio.Store
	copy  bool // sources are read
	trunc bool // a truncated source cannot give a complete result
	part  bool // a truncated source may do, when what is copied lies before the cut
}

func c08(e *core.Env) {
	var j *job
	switch e.Pick(5, 1, 4, 2) {
	case 0:
		j = jobEncode(e)
	case 1:
		j = jobHeader(e)
	case 2:
		j = jobHistory(e)
	default:
		j = jobReadData(e)
	}
	e.Label = j.label
	srcDel := simio.DrawDelivery(e.Src)
	caps := simio.DrawCaps(e.Src)
	run := func(fault func(st *simio.Stream), srcFault func(s *simio.Stream)) (st *simio.Stream, src []*simio.Stream, failed int, err error) {
		st = simio.New(e, clone(j.disk))
		st.Pos = j.base
		st.LogWrites = true
		st.Caps = caps
		if fault != nil {
			fault(st)
		}
		j.start(st, func(b []byte) *simio.Stream {
			x := simio.NewBytes(e, b).With(srcDel)
			x.ROnly = true
			if srcFault != nil {
				srcFault(x)
			}
			src = append(src, x)
			return x
		})
		fired := func() (n int) {
			n = st.FiredE
			for _, x := range src {
				n += x.FiredE
			}
			return
		}
		for i := 0; i < j.n; i++ {
			before := written(st.Writes)
			var cnt int64
			sut(e, j.label, func() { cnt, err = j.step(i) })
			e.Evals++
			if d := written(st.Writes) - before; cnt > d {
				e.Fail("over-count", "step %d of [%s] reports %d bytes, %d were delivered (error %v)", i, j.label, cnt, d, err)
			}
			if fired() > 0 && err == nil {
				e.Fail("fault-hidden", "step %d of [%s] met a failing write, seek or source read and reports success", i, j.label)
			}
			if err != nil {
				return st, src, i, err
			}
		}
		return st, src, -1, nil
	}
	ref, rsrc, rfail, err := run(nil, nil)
	if err != nil && !j.copy {
		e.Fail("write-error", "step %d of [%s] gives error %v without any fault", rfail, j.label, err)
	}
	for k := 1 + e.Pick(2, 2, 1); k > 0; k-- {
		var desc string
		cutOff := false
		var fault, srcFault func(s *simio.Stream)
		total := written(ref.Writes)
		kind := e.Pick(5, 2, 2)
		if j.copy && len(rsrc) > 0 && e.P(1, 2) {
			kind = 3
		}
		switch kind {
		case 0, 1:
			fs := simio.DrawWriteFault(e.Src, ref.Ops)
			if len(fs) == 0 {
				return
			}
			if kind == 1 {
				fs[0].Rep = 1 << 30
			}
			desc = fmt.Sprintf("%+v", fs)
			fault = func(s *simio.Stream) { s.Faults = fs }
		case 2:
			if total == 0 {
				continue
			}
			c := j.base + int64(e.U64n(uint64(total)))
			desc = fmt.Sprintf("device full at %d", c)
			fault = func(s *simio.Stream) { s.Capacity = c }
		case 3:
			which := e.N(len(rsrc))
			x := rsrc[which]
			n := 0
			if (j.trunc || j.part) && e.P(1, 4) {
				cutOff = j.part
				cutAt := int64(0)
				if x.St.Size() > 0 {
					cutAt = int64(e.U64n(uint64(x.St.Size())))
				}
				desc = fmt.Sprintf("source %d truncated at %d", which, cutAt)
				srcFault = func(s *simio.Stream) {
					if n == which {
						m := *s.St.(*simio.Mem)
						m.B = m.B[:cutAt]
						s.St = &m
						e.Faults["source-truncated"]++
					}
					n++
				}
			} else {
				fs := simio.DrawReadFaults(e.Src, x.Ops, 1, e.P(1, 5))
				desc = fmt.Sprintf("source %d with %+v", which, fs)
				srcFault = func(s *simio.Stream) {
					if n == which {
						s.Faults = fs
					}
					n++
				}
			}
		}
		st, src, failed, err := run(fault, srcFault)
		e.Evals++
		hit := st.Fired > 0
		for _, x := range src {
			hit = hit || x.Fired > 0
		}
		if hit {
			e.NonTriv = true
		}
		if d := prefixOf(ref.Writes, st.Writes); d != "" && !cutOff {
			e.Fail("not-a-prefix", "[%s] with %s: %s", j.label, desc, d)
		}
		if err == nil && written(st.Writes) != total && !cutOff {
			e.Fail("fault-hidden", "[%s] with %s reports success after writing %d of %d bytes", j.label, desc, written(st.Writes), total)
		}
		_ = failed
	}
}

func jobEncode(e *core.Env) *job {
	n := 1 + e.Pick(6, 3, 1)
	var ps []*model.Payload
	j := &job{n: n, base: int64(e.N(5)), disk: &simio.Mem{}}
	for i := 0; i < n; i++ {
		tc := drawType(e)
		p := model.Gen(e.Src, tc.t, tc.c, e.P(1, 20))
		ps = append(ps, p)
		j.label += p.String() + " "
	}
	var w io.Writer
	seekable := e.P(1, 2)
	j.start = func(st *simio.Stream, _ func([]byte) *simio.Stream) {
		w = st.RS()
		if !seekable {
			w = onlyWriter{st}
		}
	}
	j.step = func(i int) (int64, error) {
		n, err := mp4.Marshal(w, ps[i].Val, ps[i].Ctx)
		return int64(n), err
	}
	return j
}

func jobHeader(e *core.Env) *job {
	bi := mp4.BoxInfo{Type: mp4.StrToBoxType("abcd"), HeaderSize: uint64(8 * e.N(3)), Size: e.U64n(1 << uint(e.Range(1, 62)))}
	bi.ExtendToEOF = e.P(1, 5)
	if e.P(1, 3) {
		bi.Size = math.MaxUint32 - 1 + e.U64n(3)
	}
	j := &job{n: 1, base: int64(e.N(50)), disk: &simio.Mem{B: garbage(e, e.N(60))}, label: fmt.Sprintf("header %+v", bi)}
	var w io.WriteSeeker
	j.start = func(st *simio.Stream, _ func([]byte) *simio.Stream) { w = st.RS() }
	j.step = func(int) (int64, error) {
		b := bi
		r, err := mp4.WriteBoxInfo(w, &b)
		if err != nil {
			return 0, err
		}
		return int64(r.HeaderSize), nil
	}
	return j
}

func jobHistory(e *core.Env) *job {
	h := genHist(e, histOpt{max: 8, seeks: e.P(1, 2), copies: e.P(2, 3)})
	disk, base := diskFor(e, false)
	j := &job{n: len(h.ops), base: base, disk: disk, label: h.String()}
	// positions come from the model
	m := &wmodel{st: clone(disk), pos: base}
	pre := make([]int64, len(h.ops))
	stacks := make([][]*wnode, len(h.ops))
	for i, o := range h.ops {
		pre[i] = m.pos
		stacks[i] = append([]*wnode(nil), m.stack...)
		m.apply(o)
		j.copy = j.copy || o.k == 'c'
		j.trunc = j.copy
	}
	var r *wrun
	j.start = func(st *simio.Stream, src func([]byte) *simio.Stream) {
		r = &wrun{e: e, w: mp4.NewWriter(st.RS()), st: st, src: src}
	}
	j.step = func(i int) (int64, error) {
		r.pos = pre[i]
		_, err := r.do(h.ops[i], stacks[i])
		return 0, err
	}
	return j
}

// jobReadData copies the raw data of some boxes of a scanned file out to the device.
func jobReadData(e *core.Env) *job {
	f := model.GenFile(e.Src, model.Opt{MaxNodes: 10, Junk: true, BadVer: true})
	b := f.Bytes()
	j := &job{n: 1, disk: &simio.Mem{}, label: "copy out of " + f.Describe(), copy: true, part: true}
	pick := core.NewSub(e.U64())
	var sel []bool
	for range f.All {
		sel = append(sel, pick.N(3) != 0)
	}
	idx := map[uint64]int{}
	for k, n := range f.All {
		idx[n.Off] = k
	}
	bare := e.P(1, 2)
	var st *simio.Stream
	var src func([]byte) *simio.Stream
	j.start = func(s *simio.Stream, x func([]byte) *simio.Stream) { st, src = s, x }
	j.step = func(int) (int64, error) {
		var total int64
		var inner error
		_, err := mp4.ReadBoxStructure(src(b).RS(), func(h *mp4.ReadHandle) (interface{}, error) {
			k := idx[h.BoxInfo.Offset]
			if sel[k] {
				before := written(st.Writes)
				var w io.Writer = onlyWriter{st}
				if !bare {
					w = st.RS()
				}
				n, err := h.ReadData(w)
				if d := written(st.Writes) - before; int64(n) > d {
					e.Fail("over-count", "ReadData of %s reports %d bytes, %d were delivered", h.BoxInfo.Type, n, d)
				}
				total += int64(n)
				if err != nil {
					inner = err
					return nil, err
				}
				if uint64(n) != h.BoxInfo.Size-h.BoxInfo.HeaderSize {
					e.Fail("short-copy", "ReadData of %s reports %d of %d bytes and success", h.BoxInfo.Type, n, h.BoxInfo.Size-h.BoxInfo.HeaderSize)
				}
			}
			if f.All[k].Expandable() {
				_, err := h.Expand()
				return nil, err
			}
			return nil, nil
		})
		if inner != nil && err == nil {
			e.Fail("fault-hidden", "ReadData failed with %v and the scan reports success", inner)
		}
		return total, err
	}
	return j
}
