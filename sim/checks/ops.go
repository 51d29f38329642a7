package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

// The operation library: reading operations whose complete observable result is
// recorded, so that executions under different deliveries, faults, surroundings
// or schedules can be compared.

const (
	opHeader = iota
	opScan
	opScanInner
	opExtract
	opExtractPayload
	opExtractInner
	opDecode
	opCopy
	opProbe
	opIDR
	opKinds
)

var opNames = []string{"header", "scan", "inner-scan", "extract", "extract-payload", "extract-inner", "decode", "copy", "probe", "idr"}

const (
	strict   = iota // the callback returns the first error
	tolerant        // the callback swallows errors
	retrying        // the callback repeats what failed on the same handle
)

type op struct {
	kind    int
	seed    uint64 // callback policy
	mode    int
	bi      mp4.BoxInfo
	base    uint64 // policy and offsets are relative to it
	paths   []mp4.BoxPath
	payload bool // opExtractInner with payload
	track   *mp4.Track
	lax     bool // whether faults surface is not judged
	discard bool // do not keep raw data
	render  bool
	maxData uint64
	acts    int // bit mask of allowed callback actions (0: all): 1 payload, 2 data, 4 expand
}

func (o *op) String() string {
	s := opNames[o.kind]
	switch o.kind {
	case opScanInner, opExtractInner, opDecode, opCopy, opHeader:
		s += fmt.Sprintf("(%s@%d+%d)", o.bi.Type, o.bi.Offset, o.bi.Size)
	}
	if len(o.paths) > 0 {
		s += fmt.Sprint(o.paths)
	}
	return s + []string{"", "/tolerant", "/retrying"}[o.mode]
}

type visit struct {
	Info mp4.BoxInfo
	Path mp4.BoxPath
	Acts []*act
}

type act struct {
	Kind byte // p payload, d data, x expand, s text
	Err  error
	Box  mp4.IBox
	N    uint64
	Data []byte
	Sum  uint64
	Text string
	Kids []*visit
}

type outcome struct {
	Err    error
	Visits []*visit
	Vals   int
	Infos  []mp4.BoxInfo
	Boxes  []mp4.IBox
	Probe  *mp4.ProbeInfo
	IDR    [][]int
	Rates  []uint64
	Box    mp4.IBox
	N      uint64
	Pos    int64
	Data   []byte
}

// sumWriter records what is written without keeping it.
type sumWriter struct {
	h uint64
	n uint64
}

func (w *sumWriter) Write(p []byte) (int, error) {
	if w.n == 0 {
		w.h = 14695981039346656037
	}
	for _, c := range p {
		w.h = (w.h ^ uint64(c)) * 1099511628211
	}
	w.n += uint64(len(p))
	return len(p), nil
}

func pathHash(p mp4.BoxPath) uint64 {
	h := uint64(14695981039346656037)
	for _, t := range p {
		for _, c := range t {
			h = (h ^ uint64(c)) * 1099511628211
		}
	}
	return h
}

func polmix(a, b uint64) uint64 {
	z := a ^ b*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type opRun struct {
	o        *op
	e        *core.Env
	st       *simio.Stream
	cur      *[]*visit
	absorbed int
	retries  int
}

// owed: error faults fired since the mark that nobody has accounted for.
func (r *opRun) owed(mark, abs int) int { return (r.st.FiredE - mark) - (r.absorbed - abs) }

// attempt runs one handle operation; an I/O fault inside it must surface as an error.
func (r *opRun) attempt(a *act, f func() error) {
	for try := 0; ; try++ {
		mark, abs, fired := r.st.FiredE, r.absorbed, r.st.Fired
		*a = act{Kind: a.Kind}
		a.Err = f()
		owed := r.owed(mark, abs)
		if owed > 0 && a.Err == nil && !r.o.lax {
			r.e.Fail("fault-hidden", "%s: %s on the handle met %d failing stream operations and reports success", r.o, actName(a.Kind), owed)
		}
		if a.Err == nil || r.o.mode != retrying || r.st.Fired == fired || try >= 12 {
			return
		}
		// the handle is used again after the fault
		r.absorbed += owed
		r.retries++
		r.e.Probe("handle-retried")
	}
}

func actName(k byte) string {
	switch k {
	case 'p':
		return "ReadPayload"
	case 'd':
		return "ReadData"
	case 'x':
		return "Expand"
	}
	return "Stringify"
}

func (r *opRun) handler(h *mp4.ReadHandle) (interface{}, error) {
	o := r.o
	v := &visit{Info: h.BoxInfo, Path: append(mp4.BoxPath(nil), h.Path...)}
	*r.cur = append(*r.cur, v)
	r.e.Ev('v', h.BoxInfo.Offset, h.BoxInfo.Size)
	if r.e.Yield != nil {
		r.e.Yield()
	}
	pol := polmix(o.seed, h.BoxInfo.Offset-o.base) ^ pathHash(h.Path[len(h.Path)-1:])
	pol = polmix(pol, 1)
	mark, abs := r.st.FiredE, r.absorbed
	var plan []byte
	if pol&3 != 0 {
		plan = append(plan, 'x')
	}
	if pol>>2&1 == 0 {
		plan = append(plan, 'p')
	}
	if pol>>3&3 == 0 {
		plan = append(plan, 'd')
	}
	if pol>>5&1 == 1 && len(plan) > 1 {
		plan[0], plan[len(plan)-1] = plan[len(plan)-1], plan[0]
	}
	if pol>>6&15 == 0 && len(h.Path) < 4 && len(plan) > 0 {
		plan = append(plan, plan[0]) // once more
	}
	for _, k := range plan {
		if o.acts != 0 {
			m := map[byte]int{'p': 1, 'd': 2, 'x': 4}[k]
			if o.acts&m == 0 {
				continue
			}
		}
		if k == 'd' && h.BoxInfo.Size > o.maxData {
			continue
		}
		a := &act{Kind: k}
		v.Acts = append(v.Acts, a)
		switch k {
		case 'p':
			r.attempt(a, func() (err error) { a.Box, a.N, err = h.ReadPayload(); return })
			if a.Err == nil && o.render {
				var err error
				if a.Text, err = mp4.Stringify(a.Box, h.BoxInfo.Context); err != nil {
					a.Text = "error"
				}
			}
		case 'd':
			r.attempt(a, func() (err error) {
				if o.discard {
					w := &sumWriter{}
					a.N, err = h.ReadData(w)
					a.Sum = w.h
					return
				}
				var b bytes.Buffer
				a.N, err = h.ReadData(&b)
				a.Data = b.Bytes()
				return
			})
		case 'x':
			r.attempt(a, func() error {
				save := r.cur
				r.cur = &a.Kids
				vals, err := h.Expand()
				r.cur = save
				if err == nil && len(vals) != len(a.Kids) {
					r.e.Fail("values", "%s: expansion visited %d boxes and returned %d values", o, len(a.Kids), len(vals))
				}
				return err
			})
		}
		if a.Err != nil && o.mode == strict {
			return nil, a.Err
		}
	}
	if k := r.owed(mark, abs); k > 0 {
		r.absorbed += k // the callback swallowed them
	}
	return v, nil
}

// run executes the operation once.
func (o *op) run(e *core.Env, st *simio.Stream) (out *outcome) {
	out = &outcome{}
	r := &opRun{o: o, e: e, st: st, cur: &out.Visits}
	mark := st.FiredE
	sut(e, o.String(), func() { o.exec(r, st, out) })
	if out.Err != nil {
		e.Ev('R', 1, 0)
	} else {
		e.Ev('R', 0, out.N)
	}
	if k := r.owed(mark, 0); k > 0 && out.Err == nil {
		e.Fail("fault-hidden", "%s met %d failing stream operations and reports success", o, k)
	}
	return out
}

func (o *op) exec(r *opRun, st *simio.Stream, out *outcome) {
	info := func(l []*mp4.BoxInfo) {
		for _, b := range l {
			if b == nil {
				r.e.Fail("nil-info", "%s returned a nil box description", o)
			}
			out.Infos = append(out.Infos, *b)
		}
	}
	payloads := func(l []*mp4.BoxInfoWithPayload) {
		for _, b := range l {
			out.Infos = append(out.Infos, b.Info)
			out.Boxes = append(out.Boxes, b.Payload)
		}
	}
	switch o.kind {
	case opHeader:
		st.Pos = int64(o.bi.Offset)
		bi, err := mp4.ReadBoxInfo(st.RS())
		out.Err = err
		if err == nil {
			info([]*mp4.BoxInfo{bi})
			out.Pos = st.Pos
		}
	case opScan:
		vals, err := mp4.ReadBoxStructure(st.RS(), r.handler)
		out.Err, out.Vals = err, len(vals)
		if err == nil && len(vals) != len(out.Visits) {
			r.e.Fail("values", "scan visited %d boxes at the top and returned %d values", len(out.Visits), len(vals))
		}
	case opScanInner:
		bi := o.bi
		_, out.Err = mp4.ReadBoxStructureFromInternal(st.RS(), &bi, r.handler)
	case opExtract:
		l, err := mp4.ExtractBoxes(st.RS(), nil, o.paths)
		if out.Err = err; err == nil {
			info(l)
		}
	case opExtractPayload:
		l, err := mp4.ExtractBoxesWithPayload(st.RS(), nil, o.paths)
		if out.Err = err; err == nil {
			payloads(l)
		}
	case opExtractInner:
		bi := o.bi
		if o.payload {
			l, err := mp4.ExtractBoxesWithPayload(st.RS(), &bi, o.paths)
			if out.Err = err; err == nil {
				payloads(l)
			}
			return
		}
		l, err := mp4.ExtractBoxes(st.RS(), &bi, o.paths)
		if out.Err = err; err == nil {
			info(l)
		}
	case opDecode:
		st.Pos = int64(o.bi.Offset + o.bi.HeaderSize)
		box, n, err := mp4.UnmarshalAny(st.RS(), o.bi.Type, o.bi.Size-o.bi.HeaderSize, o.bi.Context)
		if out.Err = err; err == nil {
			out.Box, out.N, out.Pos = box, n, st.Pos
			if o.render {
				s, err := mp4.Stringify(box, o.bi.Context)
				out.Data, out.Err = []byte(s), err
			}
		}
	case opCopy:
		sink := &simio.Mem{}
		w := mp4.NewWriter(&simio.Stream{E: r.e, St: sink, Quiet: true})
		bi := o.bi
		out.Err = w.CopyBox(st.RS(), &bi)
		if out.Err == nil {
			out.Data = sink.B
		}
	case opProbe:
		p, err := mp4.Probe(st.RS())
		if out.Err = err; err != nil {
			return
		}
		out.Probe = p
		for _, t := range p.Tracks {
			idr, err := mp4.FindIDRFrames(st.RS(), t)
			if out.Err = err; err != nil {
				return
			}
			out.IDR = append(out.IDR, idr)
			out.Rates = append(out.Rates, t.Samples.GetBitrate(t.Timescale), t.Samples.GetMaxBitrate(t.Timescale, uint64(t.Timescale)))
			out.Rates = append(out.Rates, p.Segments.GetBitrate(t.TrackID, t.Timescale), p.Segments.GetMaxBitrate(t.TrackID, t.Timescale))
		}
	case opIDR:
		idr, err := mp4.FindIDRFrames(st.RS(), o.track)
		if out.Err = err; err == nil {
			out.IDR = append(out.IDR, idr)
		}
	}
}

func errClass(e error) int {
	switch {
	case e == nil:
		return 0
	case errors.Is(e, mp4.ErrUnsupportedBoxVersion):
		return 1
	case errors.Is(e, mp4.ErrBoxInfoNotFound):
		return 2
	}
	return 3
}

// cmp describes how two outcomes may differ.
type cmp struct {
	partial bool   // the second one may have failed where the first succeeded
	shift   uint64 // offsets of the second are this much larger
	ends    bool   // the second's stream ends early: it may report fewer boxes at the top
}

func (c cmp) info(a, b mp4.BoxInfo) bool {
	a.Offset += c.shift
	return a == b
}

func (c cmp) visits(where string, ref, got []*visit, complete bool) string {
	if complete && len(ref) != len(got) {
		return fmt.Sprintf("%s: %d boxes against %d", where, len(ref), len(got))
	}
	if len(got) > len(ref) {
		return fmt.Sprintf("%s: %d boxes against %d", where, len(ref), len(got))
	}
	for i := range got {
		a, b := ref[i], got[i]
		w := fmt.Sprintf("%s/%s@%d", where, a.Info.Type, a.Info.Offset)
		if !c.info(a.Info, b.Info) {
			return fmt.Sprintf("%s: %+v against %+v", w, a.Info, b.Info)
		}
		if len(a.Path) != len(b.Path) {
			return fmt.Sprintf("%s: path %v against %v", w, a.Path, b.Path)
		}
		for j := range a.Path {
			if a.Path[j] != b.Path[j] {
				return fmt.Sprintf("%s: path %v against %v", w, a.Path, b.Path)
			}
		}
		if len(b.Acts) > len(a.Acts) || len(b.Acts) < len(a.Acts) && (complete || i < len(got)-1) && !c.partial {
			return fmt.Sprintf("%s: %d handle operations against %d", w, len(a.Acts), len(b.Acts))
		}
		for j, x := range b.Acts {
			if d := c.act(w, a.Acts[j], x); d != "" {
				return d
			}
		}
	}
	return ""
}

func (c cmp) act(w string, a, b *act) string {
	w += ":" + actName(a.Kind)
	if a.Kind != b.Kind {
		return w + ": different operations"
	}
	if b.Err != nil && a.Err == nil && c.partial {
		if a.Kind == 'x' {
			return c.visits(w, a.Kids, b.Kids, false)
		}
		return ""
	}
	if errClass(a.Err) != errClass(b.Err) {
		if !(c.partial && a.Err != nil && b.Err != nil) {
			return fmt.Sprintf("%s: error %v against %v", w, a.Err, b.Err)
		}
	}
	if a.Kind == 'x' {
		if d := c.visits(w, a.Kids, b.Kids, !c.partial || b.Err == nil); d != "" {
			return d
		}
	}
	if a.Err != nil {
		return ""
	}
	if a.N != b.N || a.Sum != b.Sum || a.Text != b.Text || !bytes.Equal(a.Data, b.Data) {
		return fmt.Sprintf("%s: %d bytes (%s) against %d bytes (%s)", w, a.N, cut(a.Data), b.N, cut(b.Data))
	}
	if a.Box != nil || b.Box != nil {
		if d := model.Diff(a.Box, b.Box); d != "" {
			return w + ": " + d
		}
	}
	return ""
}

// outcomes compares a reference outcome with another one ("" if they agree).
func (c cmp) outcomes(ref, got *outcome) string {
	if got.Err != nil && ref.Err == nil && c.partial {
		return c.visits("", ref.Visits, got.Visits, false)
	}
	if errClass(ref.Err) != errClass(got.Err) && !(c.partial && ref.Err != nil && got.Err != nil) {
		return fmt.Sprintf("error %v against %v", ref.Err, got.Err)
	}
	if d := c.visits("", ref.Visits, got.Visits, !c.ends && (!c.partial || got.Err == nil)); d != "" {
		return d
	}
	if ref.Err != nil {
		return ""
	}
	if c.ends && len(got.Visits) < len(ref.Visits) {
		return ""
	}
	if n := len(got.Infos); c.ends && n < len(ref.Infos) {
		short := *ref
		short.Infos = ref.Infos[:n]
		if len(ref.Boxes) > 0 {
			short.Boxes = ref.Boxes[:n]
		}
		ref = &short
	}
	if len(ref.Infos) != len(got.Infos) {
		return fmt.Sprintf("%d boxes against %d", len(ref.Infos), len(got.Infos))
	}
	for i := range ref.Infos {
		if !c.info(ref.Infos[i], got.Infos[i]) {
			return fmt.Sprintf("box %d: %+v against %+v", i, ref.Infos[i], got.Infos[i])
		}
		if len(ref.Boxes) > 0 {
			if d := model.Diff(ref.Boxes[i], got.Boxes[i]); d != "" {
				return fmt.Sprintf("payload of box %d (%s): %s", i, ref.Infos[i].Type, d)
			}
		}
	}
	if ref.Box != nil {
		if d := model.Diff(ref.Box, got.Box); d != "" {
			return d
		}
	}
	if ref.N != got.N || ref.Vals != got.Vals || uint64(ref.Pos)+c.shift*b2u(ref.Pos != 0) != uint64(got.Pos) {
		return fmt.Sprintf("%d bytes, %d values, position %d against %d bytes, %d values, position %d", ref.N, ref.Vals, ref.Pos, got.N, got.Vals, got.Pos)
	}
	if !bytes.Equal(ref.Data, got.Data) {
		return fmt.Sprintf("data %s against %s", cut(ref.Data), cut(got.Data))
	}
	if ref.Probe != nil || got.Probe != nil {
		if d := model.Diff(ref.Probe, got.Probe); d != "" {
			return d
		}
	}
	if d := model.Diff(ref.IDR, got.IDR); d != "" {
		return "IDR frames" + d
	}
	return model.Diff(ref.Rates, got.Rates)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// fileCase is a file with the boxes it was generated from.
type fileCase struct {
	b     []byte
	nodes []*model.Node
	media *model.Media
	desc  string
	edits string
}

func drawFile(e *core.Env, nodes int) *fileCase {
	if e.P(1, 3) {
		m := model.GenMedia(e.Src, model.MOpt{Omit: e.P(1, 8), Crypt: e.P(1, 8)})
		return &fileCase{b: m.Bytes(), nodes: m.All, media: m, desc: m.Describe()}
	}
	f := model.GenFile(e.Src, model.Opt{MaxNodes: nodes, Junk: true, BadVer: true, Term: true})
	return &fileCase{b: f.Bytes(), nodes: f.All, desc: f.Describe()}
}

func drawPath(e *core.Env, n *model.Node, from int) mp4.BoxPath {
	p := append(mp4.BoxPath(nil), n.Path[from:]...)
	for i := range p {
		if e.P(1, 8) {
			p[i] = mp4.BoxTypeAny()
		}
	}
	if len(p) > 1 && e.P(1, 8) {
		p = p[:len(p)-1]
	}
	if e.P(1, 12) {
		p = append(p, mp4.BoxTypeAny())
	}
	return p
}

// drawOp draws a reading operation on the file.
func drawOp(e *core.Env, f *fileCase) *op {
	o := &op{seed: e.U64(), maxData: 1 << 22}
	w := []int{2, 6, 3, 2, 2, 3, 4, 2, 1, 0}
	if f.media != nil {
		w[opProbe] = 8
		if f.media.Info != nil {
			w[opIDR] = 3
		}
	}
	o.kind = e.Pick(w...)
	n := f.nodes[e.N(len(f.nodes))]
	o.bi = n.Info()
	o.render = e.P(1, 4)
	switch o.kind {
	case opExtract, opExtractPayload:
		for k := 1 + e.N(3); k > 0; k-- {
			o.paths = append(o.paths, drawPath(e, f.nodes[e.N(len(f.nodes))], 0))
		}
	case opExtractInner:
		o.payload = e.P(1, 2)
		var below []*model.Node
		for _, x := range f.nodes {
			for p := x.Parent; p != nil; p = p.Parent {
				if p == n {
					below = append(below, x)
				}
			}
		}
		for k := 1 + e.N(2); k > 0; k-- {
			if len(below) > 0 {
				o.paths = append(o.paths, drawPath(e, below[e.N(len(below))], n.Depth+1))
			} else {
				o.paths = append(o.paths, mp4.BoxPath{mp4.BoxTypeAny()})
			}
		}
	case opIDR:
		var av []*mp4.Track
		for _, t := range f.media.Info.Tracks {
			if t.AVC != nil {
				av = append(av, t)
			}
		}
		if len(av) == 0 {
			o.kind = opProbe
			break
		}
		o.track = av[e.N(len(av))]
	}
	return o
}

// mutate damages the file in drawn ways.
func (f *fileCase) mutate(e *core.Env) {
	for k := 1 + e.Pick(5, 3, 2, 1); k > 0; k-- {
		if len(f.b) == 0 {
			return
		}
		f.edit(e)
	}
	clamp(f.b)
}

// clampFor does the same for the payload an operation decodes under a given type.
func (o *op) clampFor(b []byte) { o.clampCount(b, false) }

func (o *op) clampCount(b []byte, all bool) {
	p := int(o.bi.Offset + o.bi.HeaderSize)
	switch o.bi.Type {
	case mp4.BoxType{'t', 'r', 'u', 'n'}:
		clampAt(b, p+4, clampTrun, all)
	}
}

func (f *fileCase) note(s string, a ...interface{}) { f.edits += fmt.Sprintf(s, a...) + "; " }

var sizes32 = []uint64{0, 1, 2, 7, 8, 9, 15, 16, 17, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x10000, 0x1000000}

func (f *fileCase) interesting(e *core.Env, old uint64, bits int) uint64 {
	var v uint64
	switch e.Pick(3, 3, 2, 2) {
	case 0:
		v = sizes32[e.N(len(sizes32))]
	case 1:
		v = old + uint64(e.N(17)) - 8
	case 2:
		v = -uint64(e.N(18))
	default:
		v = e.U64()
	}
	if bits > 32 && e.P(1, 3) {
		v = []uint64{1 << 63, 1<<63 - 1, ^uint64(0), 1 << 62, 1<<32 + 8, ^uint64(0) - 15}[e.N(6)]
	}
	return v
}

func (f *fileCase) avcTracks() (r []*model.MTrack) {
	if f.media == nil {
		return nil
	}
	for _, t := range f.media.Tracks {
		if t.T.AVC != nil && len(t.ChunkBoxes()) > 0 {
			r = append(r, t)
		}
	}
	return
}

func (f *fileCase) edit(e *core.Env) {
	b := f.b
	put := func(off int, n int, v uint64) {
		for i := 0; i < n; i++ {
			if off+i < len(b) {
				b[off+i] = byte(v >> uint(8*(n-1-i)))
			}
		}
	}
	get := func(off, n int) (v uint64) {
		for i := 0; i < n; i++ {
			v <<= 8
			if off+i < len(b) {
				v |= uint64(b[off+i])
			}
		}
		return
	}
	n := f.nodes[e.N(len(f.nodes))]
	avc, wNAL := f.avcTracks(), 0
	if len(avc) > 0 {
		wNAL = 3
	}
	switch e.Pick(4, 4, 4, 3, 2, 1, 1, wNAL) {
	case 7: // the length of a NAL unit
		t := avc[e.N(len(avc))]
		c := t.ChunkBoxes()
		n, l := c[e.N(len(c))], int(t.T.AVC.LengthSize)
		off := int(n.Off + n.Hdr)
		for k := e.N(3); k > 0; k-- {
			if x := off + l + int(get(off, l)); x < int(n.Off+n.Size) {
				off = x
			}
		}
		v := f.interesting(e, get(off, l), 8*l)
		if l == 4 && e.P(1, 3) {
			v = -uint64(1 + e.N(8))
		}
		put(off, l, v)
		e.Fault("corrupt-nal-length")
		f.note("NAL length at %d = %d", off, v)
	case 0: // a byte
		off := e.N(len(b))
		b[off] = byte(e.U64())
		e.Fault("corrupt-byte")
		f.note("byte %d", off)
	case 1: // a box size
		if n.Hdr == 16 && e.P(1, 2) {
			v := f.interesting(e, get(int(n.Off)+8, 8), 64)
			put(int(n.Off)+8, 8, v)
			f.note("64-bit size of %v = %d", n, v)
		} else {
			v := f.interesting(e, get(int(n.Off), 4), 32)
			put(int(n.Off), 4, v)
			f.note("size of %v = %d", n, uint32(v))
		}
		e.Fault("corrupt-size")
	case 2: // a field
		base := int(n.Off + n.Hdr)
		w := []int{1, 2, 4, 8}[e.N(4)]
		off := base + w*e.N(1+min(24, len(n.Fields)/w))
		if len(n.Marks) > 0 && e.P(1, 2) {
			m := n.Marks[e.N(len(n.Marks))]
			off, w = base+m.Off/8, max(1, m.Bits/8)
			if w > 8 {
				w = 8
			}
		}
		v := f.interesting(e, get(off, w), w*8)
		put(off, w, v)
		e.Fault("corrupt-field")
		f.note("%d bytes at %d = %d", w, off, v)
	case 3: // cut
		at := e.N(len(b) + 1)
		if e.P(1, 2) {
			at = int(n.Off + []uint64{0, n.Hdr, n.Size, 4, 8}[e.N(5)])
			at += e.N(5) - 2
		}
		if at >= 0 && at <= len(b) {
			f.b = b[:at:at]
			e.Fault("truncate")
			f.note("cut at %d", at)
		}
	case 4: // zero or fill a range
		off := e.N(len(b))
		l := min(1+e.N(40), len(b)-off)
		v := []byte{0, 0xff, 0x80, byte(e.U64())}[e.N(4)]
		for i := off; i < off+l; i++ {
			b[i] = v
		}
		e.Fault("fill-range")
		f.note("fill %d+%d with %#x", off, l, v)
	case 5: // move bytes: drop or duplicate a range
		off := e.N(len(b))
		l := min(1+e.N(30), len(b)-off)
		if e.P(1, 2) {
			f.b = append(append([]byte(nil), b[:off]...), b[off+l:]...)
			f.note("drop %d+%d", off, l)
		} else {
			f.b = append(append(append([]byte(nil), b[:off+l]...), b[off:off+l]...), b[off+l:]...)
			f.note("repeat %d+%d", off, l)
		}
		e.Fault("shift-bytes")
	default: // unrelated bytes
		g := garbage(e, 1+e.N(40))
		if e.P(1, 2) {
			f.b = append(append([]byte(nil), b...), g...)
		} else {
			copy(b[e.N(len(b)):], g)
		}
		e.Fault("garbage")
		f.note("garbage")
	}
}

const (
	clampTrun = 2000
)

// clamp keeps sample counts that need no stored bytes small: expanding them is a
// recorded known finding (see known-findings), not something to search for.
func clamp(b []byte) { clampLike(b, b, false) }

// clampLike clamps b where a has boxes with sample counts.
func clampLike(a, b []byte, all bool) {
	for i := 0; i+4 <= len(a); i++ {
		switch {
		case a[i] == 't' && a[i+1] == 'r' && a[i+2] == 'u' && a[i+3] == 'n':
			for _, h := range []int{0, 8} {
				clampAt(b, i+4+h+4, clampTrun, all)
			}
		case a[i] == 's' && a[i+1] == 't' && a[i+2] == 't' && a[i+3] == 's':
			for _, h := range []int{0, 8} {
				for p := i + 4 + h + 8; p+4 <= len(b) && p < i+4+h+8+8*512; p += 8 {
					clampStt(b, p)
				}
			}
		}
	}
}

// clampMixed clamps two contents of one file of which a reader may see a mixture.
func (o *op) clampMixed(a, b []byte) {
	for _, x := range [][]byte{a, b} {
		o.clampCount(x, true)
		clampLike(a, x, true)
		clampLike(b, x, true)
	}
}

func clampAt(b []byte, p int, max uint32, all bool) {
	if p+4 > len(b) {
		return
	}
	v := uint32(b[p])<<24 | uint32(b[p+1])<<16 | uint32(b[p+2])<<8 | uint32(b[p+3])
	if v > max && (all || v != 0xffffffff) {
		b[p], b[p+1], b[p+2] = 0, 0, 0
	}
}

func clampStt(b []byte, p int) {
	if p+4 <= len(b) && (b[p] != 0 || b[p+1] != 0 || b[p+2] != 0) {
		b[p], b[p+1], b[p+2] = 0, 0, 0
	}
}

var _ = io.EOF
