package model

import (
	"encoding/binary"
	"fmt"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/simio"
)

// Node is one box of a generated file.
type Node struct {
	Type mp4.BoxType
	Ctx  mp4.Context // context of its own payload as a scan must report it
	QTin bool        // IsQuickTimeCompatible is set by this node itself (a file type box)
	Path mp4.BoxPath
	Hdr  uint64 // 8 or 16
	EOF  bool
	Off  uint64
	Size uint64

	Fields   []byte // payload bytes before the children
	Val      mp4.IBox
	N        uint64 // bytes decoding consumes
	Marks    []Mark
	Def      *Def
	Unknown  bool // type not supported in this context
	BadVer   bool
	Children []*Node
	Junk     []byte // bytes in the child area that are no boxes
	Term     []byte // fewer than 8 bytes left over at the end (QuickTime terminator)
	Huge     uint64 // additional payload bytes that nobody stores (read as zero)
	Parent   *Node
	Depth    int
}

// Decodable tells whether decoding the payload succeeds.
func (n *Node) Decodable() bool { return !n.Unknown && !n.BadVer && n.Huge == 0 }

// Expandable tells whether the children can be visited without error.
func (n *Node) Expandable() bool { return n.Decodable() && n.Junk == nil }

// ChildCtx is the context the children start with.
func (n *Node) ChildCtx() mp4.Context {
	c := n.Ctx
	switch {
	case n.Type == T("wave"):
		c.UnderWave = true
	case n.Type == T("ilst"):
		c.UnderIlst = true
	case c.UnderIlst && !c.UnderIlstMeta && isIlstMeta(n.Type):
		c.UnderIlstMeta = true
		if n.Type == T("----") {
			c.UnderIlstFreeMeta = true
		}
	case n.Type == T("udta"):
		c.UnderUdta = true
	}
	return c
}

func (n *Node) Info() mp4.BoxInfo {
	return mp4.BoxInfo{Offset: n.Off, Size: n.Size, HeaderSize: n.Hdr, Type: n.Type, ExtendToEOF: n.EOF, Context: n.Ctx}
}

func (n *Node) String() string {
	return fmt.Sprintf("%s@%d+%d", n.Type, n.Off, n.Size)
}

// File is a generated file.
type File struct {
	Roots []*Node
	Size  uint64
	St    simio.Store
	All   []*Node // every box in file order (pre-order)
}

// Opt tunes the tree generator.
type Opt struct {
	MaxNodes int
	MaxDepth int
	Junk     bool // child areas that are no boxes
	BadVer   bool
	Huge     bool // unstored payloads up to terabytes
	Term     bool // QuickTime terminators
	Big      bool
	NoEOF    bool
	NoZero   bool // no box of type 0x00000000
	OneRoot  bool
	Simple   bool // few kinds, small payloads
	Ext      bool // sometimes very deep or with very many boxes
}

type tgen struct {
	s    *core.Src
	o    Opt
	left int
	last bool
}

var hotTypes = ts("moov", "trak", "udta", "meta", "ilst", "keys", "wave", "mdia", "minf", "stbl", "stsd", "mp4a", "avc1", "edts", "moof", "traf", "dref", "ftyp")

// GenFile generates a file and stores it.
func GenFile(s *core.Src, o Opt) *File {
	if o.MaxNodes == 0 {
		o.MaxNodes = 24
	}
	if o.MaxDepth == 0 {
		o.MaxDepth = 6
	}
	g := &tgen{s: s, o: o, left: 1 + s.N(o.MaxNodes)}
	f := &File{}
	f.Roots = g.list(mp4.Context{}, nil, 0)
	if o.Ext && s.P(1, 60) {
		f.Roots = append([]*Node{g.extreme()}, f.Roots...)
	}
	f.Layout(s, o)
	return f
}

func (g *tgen) list(ctx mp4.Context, parent *Node, depth int) []*Node {
	var r []*Node
	max := 1 + g.s.Pick(3, 3, 2, 1, 1)
	if depth == 0 {
		max += g.s.N(5)
		if g.o.OneRoot {
			max = 1
		}
	}
	for i := 0; i < max && g.left > 0; i++ {
		n := g.node(ctx, parent, depth)
		r = append(r, n)
		if n.Ctx.IsQuickTimeCompatible {
			ctx.IsQuickTimeCompatible = true
		}
		if n.Type == T("keys") && !n.Unknown {
			ctx.QuickTimeKeysMetaEntryCount = n.Ctx.QuickTimeKeysMetaEntryCount
		}
	}
	return r
}

// extreme is a box with a very deep tree or very many boxes in it, all of types
// without effect on the context.
func (g *tgen) extreme() *Node {
	mk := func(t string, p *Node) *Node {
		n := &Node{Type: T(t), Parent: p, Hdr: 8, Def: Lookup(T(t), mp4.Context{})}
		n.Unknown = n.Def == nil
		if n.Def != nil {
			x := Gen(g.s, n.Type, mp4.Context{}, false)
			n.Fields, n.Val, n.N, n.Marks = x.Bytes, x.Val, x.N, x.Marks
		}
		if p != nil {
			n.Depth = p.Depth + 1
			n.Path = append(n.Path, p.Path...)
			p.Children = append(p.Children, n)
		}
		n.Path = append(n.Path, n.Type)
		return n
	}
	kinds := []string{"moov", "trak", "mdia", "minf", "moof", "traf", "edts", "dinf"}
	root := mk(kinds[g.s.N(len(kinds))], nil)
	p := root
	deep := g.s.N(100)
	wide := 0
	if g.s.P(1, 2) {
		deep, wide = g.s.N(5), []int{100, 300, 1100, 3000}[g.s.Pick(4, 4, 2, 1)]+g.s.N(100)
	}
	for ; deep > 0; deep-- {
		p = mk(kinds[g.s.N(len(kinds))], p)
		if g.s.P(1, 8) {
			p.Hdr = 16
		}
	}
	r := g.s.Sub()
	for ; wide > 0; wide-- {
		mk([]string{"mdat", "zzzz", "moof", "xyz ", "traf", "mdat"}[r.N(6)], p)
	}
	return root
}

// theme proposes a type that makes sense at this place.
func (g *tgen) theme(ctx mp4.Context, parent *Node, depth int) mp4.BoxType {
	p := ""
	if parent != nil {
		p = string(parent.Type[:])
	}
	pick := func(ss ...string) mp4.BoxType { return T(ss[g.s.N(len(ss))]) }
	switch {
	case p == "":
		return pick("ftyp", "moov", "moof", "mdat", "free", "meta", "udta", "sidx", "mfra")
	case p == "moov":
		return pick("trak", "mvhd", "udta", "meta", "mvex", "trak")
	case p == "udta":
		return pick("meta", "titl", "cprt", "auth", "gnre", "meta")
	case p == "meta":
		return pick("ilst", "keys", "hdlr", "ilst")
	case p == "ilst":
		if k := ctx.QuickTimeKeysMetaEntryCount; k > 0 && g.s.P(1, 2) {
			id := 1 + g.s.N(k+1) // one beyond is not an item
			return mp4.BoxType{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)}
		}
		return []mp4.BoxType{T("----"), T("\xa9nam"), T("covr"), T("trkn"), IlstMetaTypes[g.s.N(len(IlstMetaTypes))]}[g.s.N(5)]
	case ctx.UnderIlstMeta:
		return pick("data", "mean", "name", "data")
	case p == "trak":
		return pick("tkhd", "mdia", "edts", "udta")
	case p == "mdia":
		return pick("mdhd", "minf", "hdlr")
	case p == "minf":
		return pick("stbl", "dinf", "vmhd", "smhd")
	case p == "stbl":
		return pick("stsd", "stts", "stsc", "stsz", "stco", "co64", "ctts", "stss", "sbgp", "sgpd")
	case p == "stsd":
		return pick("mp4a", "avc1", "encv", "enca", "hvc1", "Opus", "wvtt", "stpp", "vp09", "av01")
	case p == "mp4a" || p == "enca":
		return pick("wave", "esds", "sinf", "btrt")
	case p == "wave":
		return pick("frma", "esds", "mp4a", "enca")
	case p == "avc1" || p == "encv":
		return pick("avcC", "pasp", "colr", "sinf", "btrt")
	case p == "moof":
		return pick("mfhd", "traf", "pssh")
	case p == "traf":
		return pick("tfhd", "tfdt", "trun", "saio", "saiz", "sbgp")
	}
	return hotTypes[g.s.N(len(hotTypes))]
}

func (g *tgen) node(ctx mp4.Context, parent *Node, depth int) *Node {
	g.left--
	n := &Node{Ctx: ctx, Parent: parent, Depth: depth, Hdr: 8}
	if parent != nil {
		n.Path = append(n.Path, parent.Path...)
	}
	switch g.s.Pick(12, 5, 3, 2) {
	case 0:
		n.Type = g.theme(ctx, parent, depth)
	case 1:
		for {
			d := Defs[g.s.N(len(Defs))]
			if len(d.Types) > 0 {
				n.Type = d.Types[g.s.N(len(d.Types))]
				break
			}
		}
	case 2:
		n.Type = hotTypes[g.s.N(len(hotTypes))]
	default:
		r := g.s.U64()
		n.Type = mp4.BoxType{'x', byte('a' + r%26), byte(r >> 8), byte(r >> 16)}
		if r>>40%8 == 0 {
			n.Type = mp4.BoxType{0, 0, byte(r >> 56 & 3), byte(r >> 48)}
		} else if r>>43%4 == 0 { // on both sides of what can be printed
			for i := range n.Type {
				n.Type[i] = " ~a0\xa9\xa9z}\x1f\x7f\x80\xa8\xaa\xff\x00\n"[g.s.Pick(3, 3, 4, 2, 4, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
			}
		}
		if n.Type == mp4.BoxTypeAny() && g.o.NoZero {
			n.Type = T("zzzz")
		}
	}
	n.Path = append(n.Path, n.Type)
	if g.s.P(1, 6) {
		n.Hdr = 16
	}
	d := Lookup(n.Type, ctx)
	n.Def = d
	switch {
	case d == nil:
		n.Unknown = true
		n.Fields = g.junk(60)
	case g.o.BadVer && len(d.FullVersions) > 0 && n.Type != T("meta") && g.s.P(1, 14):
		n.BadVer = true
		for v := byte(g.s.N(256)); ; v++ {
			ok := true
			for _, x := range d.FullVersions {
				ok = ok && x != v
			}
			if ok {
				n.Fields = append([]byte{v, 0, 0, 0}, g.junk(40)...)
				break
			}
		}
	default:
		g.fill(n, depth)
	}
	if g.o.Huge && n.Fields != nil && (n.Unknown || n.Type == T("mdat") || n.Type == T("free")) && g.s.P(1, 3) {
		n.Huge = []uint64{1 << 20, 1 << 32, 1<<32 - uint64(len(n.Fields)) - 8, 1 << 40, 5 << 40}[g.s.N(5)]
		n.Val = nil
	}
	return n
}

func (g *tgen) junk(max int) []byte {
	n := g.s.N(max)
	b := make([]byte, n)
	if n > 0 {
		g.s.Sub().Fill(b)
	}
	return b
}

func (g *tgen) fill(n *Node, depth int) {
	big := g.o.Big && g.s.P(1, 8)
	p := Gen(g.s, n.Type, n.Ctx, big)
	n.Fields, n.Val, n.N, n.Marks = p.Bytes, p.Val, p.N, p.Marks
	switch {
	case n.Type == T("ftyp"):
		if g.s.P(1, 2) {
			v := n.Val.(*mp4.Ftyp)
			v.CompatibleBrands = append(v.CompatibleBrands, mp4.CompatibleBrandElem{CompatibleBrand: mp4.BrandQT()})
			n.Fields = append(append([]byte(nil), n.Fields...), "qt  "...)
			n.N += 4
			n.QTin = true
			if depth == 0 {
				n.Ctx.IsQuickTimeCompatible = true
			}
		}
		return
	case n.Type == T("keys"):
		n.Ctx.QuickTimeKeysMetaEntryCount = len(n.Val.(*mp4.Keys).Entries)
		return
	case n.Type == T("meta"):
		if n.Ctx.IsQuickTimeCompatible && g.s.P(1, 2) || g.s.P(1, 6) {
			// QuickTime form without version and flags: only with children, whose size fields are not zero
			if depth < g.o.MaxDepth && g.left > 0 {
				n.Fields, n.N, n.Marks = []byte{}, 0, nil
				n.Children = g.list(n.ChildCtx(), n, depth+1)
				return
			}
		}
	}
	if p.Tail {
		return
	}
	container := p.Def.Container
	if depth < g.o.MaxDepth && g.left > 0 && (container && !g.s.P(1, 8) || g.s.P(1, 10)) {
		n.Children = g.list(n.ChildCtx(), n, depth+1)
	} else if g.o.Junk && !n.Ctx.IsQuickTimeCompatible && g.s.P(1, 12) {
		n.Junk = g.junk(30)
		if n.Type == T("meta") || len(n.Junk) == 0 {
			n.Junk = nil
		} else {
			n.Junk[0] |= 0x80 // never a box that fits
			return
		}
	}
	if g.o.Term && n.Ctx.IsQuickTimeCompatible && g.s.P(1, 4) {
		n.Term = make([]byte, 1+g.s.N(7))
		if g.s.P(1, 3) {
			g.s.Sub().Fill(n.Term)
		}
	}
}

func (n *Node) payloadLen() uint64 {
	t := uint64(len(n.Fields)) + uint64(len(n.Junk)) + uint64(len(n.Term)) + n.Huge
	for _, c := range n.Children {
		t += c.Size
	}
	return t
}

func (n *Node) measure() {
	for _, c := range n.Children {
		c.measure()
	}
	n.Size = n.Hdr + n.payloadLen()
	if n.Size > 0xffffffff && n.Hdr == 8 && !n.EOF {
		n.Hdr = 16
		n.Size += 8
	}
}

func (n *Node) place(off uint64) {
	n.Off = off
	off += n.Hdr + uint64(len(n.Fields)) + n.Huge
	for _, c := range n.Children {
		c.place(off)
		off += c.Size
	}
}

// lastChain are the boxes whose end is the end of the file, outermost first.
func (f *File) lastChain() (r []*Node) {
	l := f.Roots
	for len(l) > 0 {
		n := l[len(l)-1]
		r = append(r, n)
		if len(n.Term) > 0 || len(n.Junk) > 0 {
			break
		}
		l = n.Children
	}
	return
}

// Layout chooses to-end-of-file headers, computes sizes and offsets and stores the bytes.
func (f *File) Layout(s *core.Src, o Opt) {
	if !o.NoEOF && len(f.Roots) > 0 {
		for _, n := range f.lastChain() {
			if s.P(1, 6) {
				// a QuickTime meta box recognises its form by the first child's size field
				if n.Parent != nil && n.Parent.Type == T("meta") && n.Parent.N == 0 && n.Parent.Children[0] == n {
					continue
				}
				n.EOF = true
				n.Hdr = 8
			}
		}
	}
	f.Relayout()
}

// Relayout recomputes sizes, offsets and the stored bytes.
func (f *File) Relayout() {
	var off uint64
	for _, n := range f.Roots {
		n.measure()
		n.place(off)
		off += n.Size
	}
	f.Size = off
	f.All = f.All[:0]
	f.Walk(func(n *Node) { f.All = append(f.All, n) })
	if off > 1<<24 {
		sp := simio.NewSparse()
		f.St = sp
		f.Walk(func(n *Node) {
			sp.WriteAt(n.HeaderBytes(), int64(n.Off))
			sp.WriteAt(n.Fields, int64(n.Off+n.Hdr))
			sp.WriteAt(n.Junk, int64(n.Off+n.Size)-int64(len(n.Junk))-int64(len(n.Term)))
			sp.WriteAt(n.Term, int64(n.Off+n.Size)-int64(len(n.Term)))
		})
		sp.N = int64(off)
		return
	}
	b := make([]byte, 0, off)
	for _, n := range f.Roots {
		b = n.append(b)
	}
	if uint64(len(b)) != off {
		core.Bug("layout: %d bytes, expected %d", len(b), off)
	}
	f.St = &simio.Mem{B: b}
}

func (n *Node) append(b []byte) []byte {
	b = append(b, n.HeaderBytes()...)
	b = append(b, n.Fields...)
	if n.Huge > 0 {
		b = append(b, make([]byte, n.Huge)...)
	}
	for _, c := range n.Children {
		b = c.append(b)
	}
	b = append(b, n.Junk...)
	return append(b, n.Term...)
}

// HeaderBytes is the box header.
func (n *Node) HeaderBytes() []byte {
	h := make([]byte, n.Hdr)
	copy(h[4:8], n.Type[:])
	switch {
	case n.EOF:
	case n.Hdr == 16:
		binary.BigEndian.PutUint32(h, 1)
		binary.BigEndian.PutUint64(h[8:], n.Size)
	default:
		binary.BigEndian.PutUint32(h, uint32(n.Size))
	}
	return h
}

// Walk visits every box in file order.
func (f *File) Walk(fn func(n *Node)) {
	var rec func(l []*Node)
	rec = func(l []*Node) {
		for _, n := range l {
			fn(n)
			rec(n.Children)
		}
	}
	rec(f.Roots)
}

// Bytes returns the whole file (dense files only).
func (f *File) Bytes() []byte { return f.St.(*simio.Mem).B }

// PayloadBytes is the raw payload of a box.
func (f *File) PayloadBytes(n *Node) []byte {
	b := make([]byte, n.Size-n.Hdr)
	f.St.ReadAt(b, int64(n.Off+n.Hdr))
	return b
}

func (f *File) Describe() string {
	s := ""
	for i, n := range f.All {
		if i == 14 {
			return s + fmt.Sprintf("...(%d boxes)", len(f.All))
		}
		for d := 0; d < n.Depth; d++ {
			s += ">"
		}
		s += n.Type.String()
		if n.Hdr == 16 {
			s += "L"
		}
		if n.EOF {
			s += "$"
		}
		if n.BadVer {
			s += "!"
		}
		s += " "
	}
	return s
}
