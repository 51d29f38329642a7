package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

// wnode is a box of a writing history.
type wnode struct {
	typ      mp4.BoxType
	bi       mp4.BoxInfo // as given to StartBox
	leaf     bool
	copied   bool
	off, end int64
	hdr      int64
	eof      bool
	kids     []*wnode
	top      bool
	opens    int // index into the write log when opened / finished
	done     int
}

func (n *wnode) String() string {
	s := n.typ.String()
	if n.bi.HeaderSize == 16 {
		s += "L"
	}
	if n.eof {
		s += "$"
	}
	return s
}

// wop is one operation of a writing history.
type wop struct {
	k    byte // s start, e end, w raw bytes, m encode a payload, c copy a box, p seek back and patch, h leave a hole, j seek there and back
	n    *wnode
	data []byte
	pl   *model.Payload
	src  []byte
	far  int64 // where src lies in its file
	bi   mp4.BoxInfo
	at   int64 // patch: offset from the start of the payload of the open box
	wh   int
}

func (o *wop) String() string {
	switch o.k {
	case 's':
		return fmt.Sprintf("start(%s size %d header %d eof %v)", o.n.typ, o.n.bi.Size, o.n.bi.HeaderSize, o.n.eof)
	case 'e':
		return fmt.Sprintf("end(%s)", o.n.typ)
	case 'w':
		return fmt.Sprintf("write(%d)", len(o.data))
	case 'm':
		return fmt.Sprintf("encode(%s)", o.pl)
	case 'c':
		return fmt.Sprintf("copy(%s %d bytes)", o.bi.Type, o.bi.Size)
	case 'p':
		return fmt.Sprintf("patch(payload+%d, %d bytes)", o.at, len(o.data))
	case 'h':
		return fmt.Sprintf("skip(%d)", o.at)
	}
	return "seek"
}

type hist struct {
	ops   []*wop
	tops  []*wnode
	fails bool // contains a box that outgrows its header
}

func (h *hist) String() string {
	s := ""
	for i, o := range h.ops {
		if i > 0 {
			s += ", "
		}
		s += o.String()
	}
	return s
}

type histOpt struct {
	huge   bool // holes that make boxes exceed 4 GiB
	max    int
	seeks  bool
	copies bool
	far    bool // copy from anywhere in a file of any size
	deep   bool // long chains of nested boxes
}

type hgen struct {
	e    *core.Env
	o    histOpt
	h    *hist
	left int
}

var histContainers = []string{"moov", "trak", "mdia", "moof", "traf", "udta", "minf"}
var histRaw = []string{"mdat", "free", "abcd", "zzzz", "skip"}

func genHist(e *core.Env, o histOpt) *hist {
	g := &hgen{e: e, o: o, h: &hist{}, left: o.max}
	n := 1 + e.N(4)
	for i := 0; i < n && g.left > 0; i++ {
		nd := g.box(nil, 0, i == n-1)
		g.h.tops = append(g.h.tops, nd)
	}
	return g.h
}

func (g *hgen) op(o *wop) { g.h.ops = append(g.h.ops, o) }

func (g *hgen) maySeek() {
	if g.o.seeks && g.e.P(1, 8) {
		g.op(&wop{k: 'j', at: int64(g.e.N(200)), wh: g.e.N(3)})
	}
}

// box appends the operations of one box; last: nothing follows it in the file.
func (g *hgen) box(parent *wnode, depth int, last bool) *wnode {
	e := g.e
	g.left--
	if g.o.copies && e.P(1, 5) {
		return g.copyBox(parent, last)
	}
	n := &wnode{top: parent == nil, leaf: depth >= 3 || g.left <= 0 || e.P(1, 2)}
	if g.o.deep {
		n.leaf = depth >= 40 || g.left <= 0 || e.P(1, 20)
	}
	if last && e.P(1, 6) {
		n.eof = true
		n.bi.ExtendToEOF = true
	}
	var pl *model.Payload
	if n.leaf {
		if e.P(1, 2) {
			tc := drawType(e)
			pl = model.Gen(e.Src, tc.t, tc.c, false)
			for k := 0; !pl.Canon; k++ {
				if k > 50 {
					tc = drawType(e)
				}
				pl = model.Gen(e.Src, tc.t, tc.c, false)
			}
			n.typ = tc.t
		} else {
			n.typ = mp4.StrToBoxType(histRaw[e.N(len(histRaw))])
		}
	} else {
		n.typ = mp4.StrToBoxType(histContainers[e.N(len(histContainers))])
	}
	n.bi.Type = n.typ
	switch e.Pick(4, 2, 3, 2, 1) {
	case 1:
		n.bi.HeaderSize = 8
		n.bi.Size = e.U64n(1 << uint(1+e.N(32)))
	case 2:
		n.bi.HeaderSize = 16
		n.bi.Size = uint64(16 + e.N(100))
		if e.P(1, 3) {
			n.bi.Size = e.U64n(1 << uint(1+e.N(62)))
		}
	case 3:
		n.bi.HeaderSize = 8
		n.bi.Size = 8
	case 4: // announced as large without a header size
		if !n.eof {
			n.bi.Size = math.MaxUint32 + 1 + e.U64n(1<<40)
			n.bi.HeaderSize = uint64(8 * e.N(3))
		}
	}
	if n.eof && n.bi.HeaderSize == 16 && e.P(1, 2) {
		n.bi.HeaderSize = 8
	}
	n.bi.Offset = e.U64n(1 << 20) // documented as ignored
	if e.P(1, 10) {
		n.bi.Context = drawCtx(e)
	}
	g.op(&wop{k: 's', n: n})
	if pl != nil {
		g.op(&wop{k: 'm', pl: pl})
		g.maySeek()
	} else if n.leaf {
		var at int64
		hole := false
		for k := e.Pick(3, 4, 2, 1); k > 0; k-- {
			switch {
			case g.o.huge && e.P(1, 4):
				by := int64(math.MaxUint32) - at - int64(e.N(40)) + 10
				if e.P(1, 3) || by < 0 {
					by = int64(e.U64n(1 << uint(8+e.N(34))))
				}
				at += by
				hole = by > 0 || hole
				g.op(&wop{k: 'h', at: by, wh: e.N(2)})
			case g.o.seeks && at > 0 && e.P(1, 4):
				p := int64(e.U64n(uint64(at)))
				max := int(at - p)
				if max > 40 || at-p > 40 {
					max = 40
				}
				g.op(&wop{k: 'p', at: p, data: garbage(e, 1+e.N(max)), wh: e.N(3)})
			default:
				d := garbage(e, []int{1, 2, 9, 100, 700}[e.N(5)]+e.N(8)-1)
				at += int64(len(d))
				hole = hole && len(d) == 0
				g.op(&wop{k: 'w', data: d})
			}
		}
		if hole {
			g.op(&wop{k: 'w', data: garbage(e, 1+e.N(8))})
		}
	} else {
		k := e.Pick(2, 3, 3, 1)
		if g.o.deep && k == 0 {
			k = 1
		}
		for ; k > 0 && g.left > 0; k-- {
			n.kids = append(n.kids, g.box(n, depth+1, last && n.eof && k == 1))
			g.maySeek()
		}
	}
	g.op(&wop{k: 'e', n: n})
	return n
}

func (g *hgen) copyBox(parent *wnode, last bool) *wnode {
	e := g.e
	toEnd := last && e.P(1, 2) // a box that extends to the end of its file
	f := model.GenFile(e.Src, model.Opt{MaxNodes: 6, Junk: true, BadVer: true, NoEOF: !toEnd})
	src := f.All[e.N(len(f.All))]
	if toEnd {
		for _, x := range f.All {
			if x.EOF {
				src = x
				break
			}
		}
	}
	n := &wnode{top: parent == nil, copied: true, leaf: true, typ: src.Type}
	o := &wop{k: 'c', n: n, src: f.Bytes(), bi: src.Info()}
	if e.P(1, 20) { // longer than the buffers in between
		sz := 8 + e.N(150000)
		o.src = make([]byte, sz)
		r := e.U64() | 1
		for i := 8; i < sz; i++ {
			r ^= r << 13
			r ^= r >> 7
			r ^= r << 17
			o.src[i] = byte(r)
		}
		n.typ = mp4.StrToBoxType("mdat")
		binary.BigEndian.PutUint32(o.src, uint32(sz))
		copy(o.src[4:], "mdat")
		o.bi = mp4.BoxInfo{Type: n.typ, Size: uint64(sz), HeaderSize: 8}
	}
	if g.o.far && e.P(1, 3) {
		o.far = drawFar(e)
	}
	g.op(o)
	return n
}

// wmodel is the reference writer.
type wmodel struct {
	st    simio.Store
	pos   int64
	stack []*wnode
}

func (m *wmodel) write(p []byte) { m.st.WriteAt(p, m.pos); m.pos += int64(len(p)) }

func (m *wmodel) header(n *wnode, size uint64) []byte {
	h := make([]byte, 8)
	copy(h[4:], n.typ[:])
	put := func(p []byte, v uint64) {
		for i := len(p) - 1; i >= 0; i-- {
			p[i] = byte(v)
			v >>= 8
		}
	}
	switch {
	case n.eof:
	case n.hdr == 8:
		put(h[:4], size)
	default:
		put(h[:4], 1)
		h = append(h, make([]byte, 8)...)
		put(h[8:], size)
	}
	return h
}

var errOutgrown = fmt.Errorf("box outgrows its header")

// apply executes one operation on the model.
func (m *wmodel) apply(o *wop) (info mp4.BoxInfo, err error) {
	switch o.k {
	case 's':
		n := o.n
		n.off = m.pos
		n.hdr = 8
		if !n.eof && (n.bi.HeaderSize == 16 || n.bi.Size > math.MaxUint32) {
			n.hdr = 16
		}
		m.write(m.header(n, n.bi.Size))
		m.stack = append(m.stack, n)
		return mp4.BoxInfo{Offset: uint64(n.off), Size: n.bi.Size - n.bi.HeaderSize + uint64(n.hdr), HeaderSize: uint64(n.hdr), Type: n.typ, ExtendToEOF: n.eof}, nil
	case 'e':
		n := m.stack[len(m.stack)-1]
		m.stack = m.stack[:len(m.stack)-1]
		n.end = m.pos
		size := uint64(n.end - n.off)
		if n.hdr == 8 && !n.eof && size > math.MaxUint32 {
			return info, errOutgrown
		}
		m.st.WriteAt(m.header(n, size), n.off)
		return mp4.BoxInfo{Offset: uint64(n.off), Size: size, HeaderSize: uint64(n.hdr), Type: n.typ, ExtendToEOF: n.eof}, nil
	case 'w':
		m.write(o.data)
	case 'm':
		m.write(o.pl.Bytes)
	case 'c':
		o.n.off = m.pos
		m.write(o.src[o.bi.Offset : o.bi.Offset+o.bi.Size])
		o.n.end = m.pos
	case 'p':
		n := m.stack[len(m.stack)-1]
		m.st.WriteAt(o.data, n.off+n.hdr+o.at)
	case 'h':
		m.pos += o.at
	}
	return
}

// wrun executes a history on the library's writer.
type wrun struct {
	e   *core.Env
	w   *mp4.Writer
	st  *simio.Stream
	src func(b []byte) *simio.Stream
	pos int64 // position according to the model before the operation
	top *wnode
}

func (r *wrun) do(o *wop, stack []*wnode) (info *mp4.BoxInfo, err error) {
	switch o.k {
	case 's':
		bi := o.n.bi
		info, err = r.w.StartBox(&bi)
	case 'e':
		info, err = r.w.EndBox()
	case 'w':
		var n int
		n, err = r.w.Write(o.data)
		if err == nil && n != len(o.data) {
			r.e.Fail("write-count", "Write of %d bytes reports %d", len(o.data), n)
		}
	case 'm':
		var n uint64
		before := r.st.Pos
		n, err = mp4.Marshal(r.w, o.pl.Val, o.pl.Ctx)
		if got := r.st.Pos - before; n > uint64(got) {
			r.e.Fail("write-count", "encoding %s reports %d bytes, %d were delivered", o.pl.Type, n, got)
		}
	case 'c':
		bi, x := o.bi, r.src(o.src)
		if o.far > 0 {
			sp := simio.NewSparse()
			sp.N = o.far
			sp.WriteAt(o.src, o.far)
			x.St = sp
			bi.Offset += uint64(o.far)
		}
		err = r.w.CopyBox(x.RS(), &bi)
	case 'p':
		n := stack[len(stack)-1]
		at := n.off + n.hdr + o.at
		if err = r.seek(at, o.wh); err != nil {
			return
		}
		if _, err = r.w.Write(o.data); err != nil {
			return
		}
		err = r.seek(r.pos, (o.wh+1)%3)
	case 'h':
		if o.wh == 0 {
			_, err = r.w.Seek(o.at, io.SeekCurrent)
		} else {
			_, err = r.w.Seek(r.pos+o.at, io.SeekStart)
		}
	case 'j':
		if err = r.seek(o.at, o.wh); err == nil {
			err = r.seek(r.pos, 0)
		}
	}
	return
}

func (r *wrun) seek(to int64, wh int) error {
	var n int64
	var err error
	switch wh {
	case 0:
		n, err = r.w.Seek(to, io.SeekStart)
	case 1:
		n, err = r.w.Seek(to-r.st.Pos, io.SeekCurrent)
	default:
		n, err = r.w.Seek(to-r.st.St.Size(), io.SeekEnd)
	}
	if err == nil && n != to {
		r.e.Fail("seek-result", "Seek to %d reports %d", to, n)
	}
	return err
}

// clone copies a store.
func clone(s simio.Store) simio.Store {
	switch x := s.(type) {
	case *simio.Mem:
		return &simio.Mem{B: append([]byte(nil), x.B...)}
	case *simio.Sparse:
		c := simio.NewSparse()
		c.N = x.N
		for k, p := range x.P {
			q := *p
			c.P[k] = &q
		}
		return c
	}
	core.Bug("unknown store")
	return nil
}

// sameImage compares two stores byte for byte ("" when equal), ignoring [lo,hi).
func sameImage(a, b simio.Store, lo, hi int64) string {
	if a.Size() != b.Size() {
		return fmt.Sprintf("sizes %d and %d", a.Size(), b.Size())
	}
	same := func(off int64, n int) string {
		p, q := make([]byte, n), make([]byte, n)
		p = p[:a.ReadAt(p, off)]
		q = q[:b.ReadAt(q, off)]
		for i := range p {
			if o := off + int64(i); p[i] != q[i] && !(o >= lo && o < hi) {
				return fmt.Sprintf("byte at %d: %#x and %#x", o, p[i], q[i])
			}
		}
		return ""
	}
	x, ok1 := a.(*simio.Mem)
	y, ok2 := b.(*simio.Mem)
	if ok1 && ok2 {
		if lo >= hi && bytes.Equal(x.B, y.B) {
			return ""
		}
		return same(0, len(x.B))
	}
	best := ""
	bestOff := int64(math.MaxInt64)
	for _, s := range []simio.Store{a, b} {
		sp, ok := s.(*simio.Sparse)
		if !ok {
			core.Bug("mixed stores")
		}
		for k := range sp.P {
			if d := same(k*4096, 4096); d != "" && k < bestOff {
				best, bestOff = d, k
			}
		}
	}
	return best
}

// diskFor draws the initial device for a history that starts at a drawn offset.
func diskFor(e *core.Env, huge bool) (simio.Store, int64) {
	var base int64
	if huge {
		base = drawOff(e)
	} else if e.P(1, 2) {
		base = int64(e.N(100))
	}
	before, after := garbage(e, e.N(20)), garbage(e, e.N(200))
	if huge {
		s := simio.NewSparse()
		s.N = base
		s.WriteAt(before, base)
		base += int64(len(before))
		s.WriteAt(after, base)
		return s, base
	}
	return at(base, before, nil, after), base
}

// window is a read-only view of part of a store.
type window struct {
	st     simio.Store
	off, n int64
}

func (w *window) Size() int64 { return w.n }
func (w *window) ReadAt(p []byte, off int64) int {
	if off >= w.n || off < 0 {
		return 0
	}
	if int64(len(p)) > w.n-off {
		p = p[:w.n-off]
	}
	k := w.st.ReadAt(p, w.off+off)
	for i := k; i < len(p); i++ { // unwritten end of a sparse device
		p[i] = 0
	}
	return len(p)
}
func (w *window) WriteAt(p []byte, off int64) { core.Bug("write to a window") }
func (w *window) Truncate(n int64)            { core.Bug("truncate of a window") }

// parseBack scans the written range and compares it with the history's boxes.
// Only the boxes in want must be there; more says whether anything may follow.
type parser struct {
	e    *core.Env
	st   *simio.Stream
	base int64
	raw  bool
}

func (p *parser) node(h *mp4.ReadHandle, n *wnode) error {
	bi := h.BoxInfo
	e := p.e
	e.Evals++
	if bi.Type != n.typ || int64(bi.Offset) != n.off-p.base || int64(bi.Size) != n.end-n.off ||
		(!n.copied && (int64(bi.HeaderSize) != n.hdr || bi.ExtendToEOF != n.eof)) {
		e.Fail("written-box", "box %s written at %d..%d (header %d, eof %v), scanned as %s at %d, size %d, header %d, eof %v", n.typ, n.off-p.base, n.end-p.base, n.hdr, n.eof, bi.Type, bi.Offset, bi.Size, bi.HeaderSize, bi.ExtendToEOF)
	}
	if !n.leaf {
		i := 0
		_, err := h.Expand(n, &i)
		if err != nil {
			e.Fail("written-box", "expanding written box %s gives error %v", n.typ, err)
		}
		if i != len(n.kids) {
			e.Fail("written-box", "box %s was written with %d children, %d are scanned", n.typ, len(n.kids), i)
		}
		return nil
	}
	if p.raw && bi.Size < 1<<20 {
		var b bytes.Buffer
		k, err := h.ReadData(&b)
		if err != nil {
			e.Fail("written-data", "copying out written box %s gives error %v", n.typ, err)
		}
		q := make([]byte, bi.Size-bi.HeaderSize)
		q = q[:p.st.St.ReadAt(q, int64(bi.Offset+bi.HeaderSize))]
		if k != uint64(len(q)) || !bytes.Equal(b.Bytes(), q) {
			e.Fail("written-data", "box %s: copied out %s, on disk %s", n.typ, cut(b.Bytes()), cut(q))
		}
	}
	return nil
}

// tree scans and compares the first boxes with tops; it returns the scan's error.
func (p *parser) tree(tops []*wnode, exact bool) (seen int, err error) {
	e := p.e
	sut(e, "scan of what was written", func() {
		_, err = mp4.ReadBoxStructure(p.st, func(h *mp4.ReadHandle) (interface{}, error) {
			list, idx := tops, &seen
			if len(h.Params) == 2 {
				list, idx = h.Params[0].(*wnode).kids, h.Params[1].(*int)
				if *idx >= len(list) {
					e.Fail("written-box", "box %s at %d was scanned, but never written", h.BoxInfo.Type, h.BoxInfo.Offset)
				}
			}
			if *idx >= len(list) {
				if exact {
					e.Fail("written-box", "box %s at %d was scanned, but never written", h.BoxInfo.Type, h.BoxInfo.Offset)
				}
				return p.tail(h)
			}
			n := list[*idx]
			*idx++
			return nil, p.node(h, n)
		})
	})
	return
}

// tail looks at whatever lies behind the finished boxes.
func (p *parser) tail(h *mp4.ReadHandle) (interface{}, error) {
	switch p.e.N(4) {
	case 1:
		if h.BoxInfo.IsSupportedType() {
			h.ReadPayload()
		}
	case 2:
		var w sumWriter
		if h.BoxInfo.Size < 1<<20 {
			h.ReadData(&w)
		}
	case 3:
		if len(h.Path) < 6 && h.BoxInfo.IsSupportedType() {
			_, err := h.Expand()
			return nil, err
		}
	}
	return nil, nil
}
