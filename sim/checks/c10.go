package checks

import (
	"bytes"
	"iter"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C10", Quick: 1000000, Thorough: 30000000, Run: c10, Real: realLib, Stub: append([]string{"crashes: device images cut from the write log at any write, torn or with later writes lost or reordered", "the scheduler that alternates a writer and its readers at every stream operation"}, stubIO...),
		Rule:   "a run generates a writing history; (a) it is executed and the device image is rebuilt at drawn crash points of its write log (after any write, with the next write torn, or with any subset of the writes after the last finished box lost), and every finished top-level box must be there byte for byte and be scanned completely and first; or (b) the writer is run as a task interleaved by a seeded scheduler, at every stream operation of either side, with readers that scan the growing file: every box finished before the reader got to it must be reported with its final extent, children and data, each scan must end, and the file must come out as without readers",
		Assume: []string{"writes reach the device in order up to the crash, except in the lost-writes mode, where everything up to the last finished box is durable", "no fsync exists in the library; durability of a finished box is assumed from the device"}})
}

func c10(e *core.Env) {
	h := genHist(e, histOpt{max: 10, seeks: e.P(1, 2), copies: e.P(1, 2)})
	e.Label = h.String()
	m := &wmodel{st: &simio.Mem{}}
	pre := make([]int64, len(h.ops))
	stacks := make([][]*wnode, len(h.ops))
	for i, o := range h.ops {
		pre[i] = m.pos
		stacks[i] = append([]*wnode(nil), m.stack...)
		m.apply(o)
	}
	final := m.st.(*simio.Mem).B
	st := simio.New(e, &simio.Mem{})
	st.LogWrites = true
	st.Caps = simio.DrawCaps(e.Src)
	finished := 0
	r := &wrun{e: e, w: mp4.NewWriter(st.RS()), st: st, src: func(b []byte) *simio.Stream {
		x := simio.NewBytes(e, b)
		x.ROnly = true
		x.Caps = st.Caps
		return x
	}}
	write := func() {
		for i, o := range h.ops {
			r.pos = pre[i]
			if _, err := r.do(o, stacks[i]); err != nil {
				e.Fail("write-error", "%s gives error %v without any fault", o, err)
			}
			if finished < len(h.tops) && o.n == h.tops[finished] && o.k != 's' {
				h.tops[finished].done = len(st.Writes)
				finished++
			}
		}
		if !bytes.Equal(st.St.(*simio.Mem).B, final) {
			e.Fail("image", "the finished file differs from what was written")
		}
	}
	if e.P(1, 2) {
		e.Label = "crash: " + e.Label
		sut(e, e.Label, write)
		crash(e, h, st.Writes, final)
	} else {
		e.Label = "readers: " + e.Label
		concurrentReaders(e, h, st, final, &finished, write)
	}
}

func crash(e *core.Env, h *hist, ws []simio.Write, final []byte) {
	if len(ws) == 0 {
		return
	}
	for k := 1 + e.N(4); k > 0; k-- {
		at := e.N(len(ws) + 1)
		n := 0
		for n < len(h.tops) && h.tops[n].done <= at {
			n++
		}
		img := &simio.Mem{}
		for _, w := range ws[:at] {
			img.WriteAt(w.Data, w.Off)
		}
		switch e.Pick(2, 3, 2) {
		case 0:
			e.Fault("crash-after-write")
		case 1: // the next write is torn
			if at < len(ws) {
				e.Fault("crash-torn-write")
				img.WriteAt(ws[at].Data[:e.N(len(ws[at].Data))], ws[at].Off)
			}
		case 2: // writes after the last finished box reach the device in any order, or not at all
			e.Fault("crash-lost-writes")
			from := 0
			if n > 0 {
				from = h.tops[n-1].done
			}
			img = &simio.Mem{}
			for _, w := range ws[:from] {
				img.WriteAt(w.Data, w.Off)
			}
			var late []simio.Write
			// A history of very many writes is lost and reordered from one
			// drawn seed, a short one write by write.
			lost, pick := func() bool { return e.P(1, 2) }, e.N
			if len(ws[from:]) > 500 {
				sub := core.NewSub(e.U64())
				lost, pick = func() bool { return sub.N(2) == 0 }, sub.N
			}
			for _, w := range ws[from:] {
				if lost() {
					late = append(late, w)
				}
			}
			for len(late) > 0 {
				i, last := pick(len(late)), len(late)-1
				img.WriteAt(late[i].Data, late[i].Off)
				late[i] = late[last]
				late = late[:last]
			}
		}
		e.NonTriv = true
		if n > 0 {
			e.Probe("finished-box-at-crash")
		}
		var front int64
		for _, t := range h.tops[:n] {
			if t.end > img.Size() || !bytes.Equal(img.B[t.off:t.end], final[t.off:t.end]) {
				e.Fail("finished-damaged", "crash at write %d of %d: the finished box %s at %d..%d is not on the device as written", at, len(ws), t.typ, t.off, t.end)
			}
			front = t.end
		}
		if front < img.Size() {
			e.Probe("unfinished-tail")
			clamp(img.B[front:])
		}
		st := simio.New(e, img).With(simio.DrawDelivery(e.Src))
		st.ROnly = true
		p := &parser{e: e, st: st, raw: true}
		seen, err := p.tree(h.tops[:n], false)
		if seen < n {
			e.Fail("finished-missed", "crash at write %d of %d: %d boxes were finished, the scan reports %d of them (error %v)", at, len(ws), n, seen, err)
		}
		if front == img.Size() && err != nil {
			e.Fail("finished-missed", "crash at write %d of %d: only finished boxes are there, but the scan gives error %v", at, len(ws), err)
		}
	}
}

type stopped struct{}

func concurrentReaders(e *core.Env, h *hist, st *simio.Stream, final []byte, finished *int, write func()) {
	ended := false
	next, stop := iter.Pull(func(yield func(struct{}) bool) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stopped); !ok {
					panic(x)
				}
			}
		}()
		st.OnOp = func(uint64) {
			if !yield(struct{}{}) {
				panic(stopped{})
			}
		}
		write()
		ended = true
	})
	defer stop()
	step := func() {
		e.Ev('W', uint64(st.Ops), 0)
		sut(e, "writer", func() { next() })
	}
	pace := 1 + e.N(12)
	for k := 1 + e.N(3); k > 0; k-- {
		for i := e.N(20); i > 0 && !ended; i-- {
			step()
		}
		rd := simio.New(e, st.St).With(simio.DrawDelivery(e.Src))
		rd.ROnly = true
		rd.OnOp = func(uint64) {
			for !ended && e.P(1, pace) {
				e.Faults["writer-step-during-read"]++
				e.NonTriv = true
				step()
			}
		}
		p := &parser{e: e, st: rd}
		must := *finished
		seen := 0
		var err error
		sut(e, "scan of the growing file", func() {
			_, err = mp4.ReadBoxStructure(rd, func(hd *mp4.ReadHandle) (interface{}, error) {
				if len(hd.Params) == 2 {
					n, i := hd.Params[0].(*wnode), hd.Params[1].(*int)
					if *i >= len(n.kids) {
						e.Fail("written-box", "box %s at %d was scanned in finished box %s, but never written", hd.BoxInfo.Type, hd.BoxInfo.Offset, n.typ)
					}
					*i++
					return nil, p.node(hd, n.kids[*i-1])
				}
				if len(hd.Path) > 1 {
					return growTail(e, hd)
				}
				if seen < must {
					n := h.tops[seen]
					seen++
					err := p.node(hd, n)
					must = *finished
					return nil, err
				}
				return growTail(e, hd)
			})
		})
		e.Evals++
		if seen < must && (err != nil || seen < must) {
			// boxes may have been finished after the scan had already met the end of the file
			if seen < *finished && seen >= must {
				continue
			}
			e.Fail("finished-missed", "%d boxes were finished, a scan of the growing file reports %d of them (error %v)", must, seen, err)
		}
		if seen > 0 {
			e.Probe("finished-box-while-growing")
		}
	}
	for !ended {
		step()
	}
	rd := simio.New(e, st.St)
	p := &parser{e: e, st: rd, raw: true}
	if n, err := p.tree(h.tops, true); err != nil || n != len(h.tops) {
		e.Fail("written-box", "the file comes out with %d of %d boxes (error %v)", n, len(h.tops), err)
	}
}

// growTail looks at boxes that were not finished when the scan met them.
func growTail(e *core.Env, h *mp4.ReadHandle) (interface{}, error) {
	e.Probe("unfinished-box-seen")
	if e.P(1, 3) && h.BoxInfo.Size < 1<<20 {
		var w sumWriter
		h.ReadData(&w)
	}
	if e.P(1, 4) && len(h.Path) < 5 && h.BoxInfo.IsSupportedType() && h.BoxInfo.Type != mp4.StrToBoxType("trun") {
		_, err := h.Expand()
		return nil, err
	}
	return nil, nil
}
