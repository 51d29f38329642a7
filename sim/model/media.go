package model

import (
	"github.com/abema/go-mp4"
	"verifsim/core"
)

// Media is a generated progressive and/or fragmented file with its meaning.
type Media struct {
	File
	Info   *mp4.ProbeInfo // what probing must report (nil: probing must fail)
	Why    string         // the reason for a required failure
	Tracks []*MTrack
	Frags  []*MFrag
	Frag   bool
	QT     bool
	Divide bool
	Two    bool // some track has two sample descriptions
	nodes  map[string]*Node
}

type MTrack struct {
	ID    uint32
	Kind  string // sample entry type
	Node  *Node
	IDR   []int
	T     *mp4.Track
	Data  [][]byte // sample bytes
	Trex  uint32   // default sample duration of the movie's track extends box
	chunk []int    // samples per chunk
	offs  *Node    // stco/co64 nodes to patch
	offs2 *Node
	mdat  []*Node // one per chunk
}

type MFrag struct {
	Moof, Mdat, Sidx *Node
	TrackID          uint32
	Duration         uint32
	Total            uint64 // duration by all runs and all defaults
	S                *mp4.Segment
}

// MOpt tunes the media generator.
type MOpt struct {
	Divide  bool // only the layout the divide command accepts; one track per kind
	Clash   bool // Divide: every track has the kind of the first
	NoExtra bool // no unrelated boxes
	Huge    bool // chunks beyond 4 GiB
	Omit    bool // may leave out a mandatory box
	Frag    int  // 0 either, 1 fragmented, 2 progressive
	NoEOF   bool
	Crypt   bool
	Small   bool
}

func mk(t string, fields []byte, ch ...*Node) *Node {
	n := &Node{Type: T(t), Hdr: 8, Fields: fields, Children: ch}
	if n.Fields == nil {
		n.Fields = []byte{}
	}
	return n
}

type fw struct{ W }

func (w *fw) vf(v int, f uint32) *fw { w.U(8, uint64(v)); w.U(24, uint64(f)); return w }

// vn writes a version and flags that mean nothing.
func (w *fw) vn(s *core.Src, v int) *fw {
	if s.P(1, 12) {
		return w.vf(v, uint32(s.U64n(1<<24)))
	}
	return w.vn(s, v)
}
func (w *fw) n(bits int, vs ...uint64) *fw {
	for _, v := range vs {
		w.U(bits, v)
	}
	return w
}
func (w *fw) raw(p []byte) *fw { w.Raw(p); return w }

// Annotate derives parents, paths and contexts of a tree built by hand.
func (f *File) Annotate() {
	var rec func(l []*Node, ctx mp4.Context, p *Node, d int)
	rec = func(l []*Node, ctx mp4.Context, p *Node, d int) {
		for _, n := range l {
			n.Ctx, n.Parent, n.Depth = ctx, p, d
			n.Path = nil
			if p != nil {
				n.Path = append(n.Path, p.Path...)
			}
			n.Path = append(n.Path, n.Type)
			if n.Type == T("ftyp") && n.QTin && d == 0 {
				n.Ctx.IsQuickTimeCompatible = true
				ctx.IsQuickTimeCompatible = true
			}
			n.Def = Lookup(n.Type, n.Ctx)
			n.Unknown = n.Def == nil
			rec(n.Children, n.ChildCtx(), n, d+1)
		}
	}
	rec(f.Roots, mp4.Context{}, nil, 0)
}

// GenMedia generates a media file.
func GenMedia(s *core.Src, o MOpt) *Media {
	m := &Media{Info: &mp4.ProbeInfo{}}
	m.Divide = o.Divide
	m.Frag = s.P(1, 2)
	if o.Frag != 0 {
		m.Frag = o.Frag == 1
	}
	extra := func() *Node {
		if o.NoExtra || !s.P(1, 6) {
			return nil
		}
		switch s.N(3) {
		case 0:
			return mk("free", junk(s, 20))
		case 1:
			return mk("xtra", junk(s, 20))
		default:
			return mk("skip", junk(s, 5))
		}
	}
	list := func(l []*Node) (r []*Node) {
		for _, n := range l {
			if n == nil {
				continue
			}
			if x := extra(); x != nil {
				r = append(r, x)
			}
			r = append(r, n)
		}
		return
	}
	shuffle := func(l []*Node) []*Node {
		if o.Divide || !s.P(1, 3) {
			return l
		}
		for i := len(l) - 1; i > 0; i-- {
			j := s.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		return l
	}

	// file type
	if !s.P(1, 10) || o.Divide {
		w := &fw{}
		maj := [4]byte{'i', 's', 'o', byte('1' + s.N(9))}
		m.Info.MajorBrand = maj
		m.Info.MinorVersion = uint32(s.N(1000))
		w.raw(maj[:]).n(32, uint64(m.Info.MinorVersion))
		m.Info.CompatibleBrands = [][4]byte{}
		for i := s.N(4); i > 0; i-- {
			b := [4]byte{'m', 'p', '4', byte('0' + s.N(10))}
			m.Info.CompatibleBrands = append(m.Info.CompatibleBrands, b)
			w.raw(b[:])
		}
		n := mk("ftyp", w.B)
		if s.P(1, 4) {
			m.QT = true
			n.QTin = true
			n.Fields = append(n.Fields, "qt  "...)
			m.Info.CompatibleBrands = append(m.Info.CompatibleBrands, mp4.BrandQT())
		}
		m.Roots = append(m.Roots, n)
	}

	// tracks
	nt := 1 + s.N(3)
	if o.Divide {
		nt = 1 + s.N(2)
		if o.Clash {
			nt = 2 + s.N(2)
		}
	}
	var traks []*Node
	var mdats []*Node
	seen := map[string]bool{}
	for i := 0; i < nt; i++ {
		kinds := []string{"avc1", "mp4a", "encv", "enca", "hvc1", "Opus", "stpp"}
		if o.Divide {
			kinds = []string{"avc1", "mp4a", "encv", "enca"}
			if s.P(1, 8) {
				kinds = []string{"hvc1", "stpp", "Opus"}
			}
		}
		k := kinds[s.N(len(kinds))]
		if o.Clash && i > 0 {
			k = m.Tracks[0].Kind
		}
		c := k
		switch k {
		case "encv":
			c = "avc1"
		case "enca":
			c = "mp4a"
		}
		if o.Divide && seen[c] && !o.Clash {
			continue
		}
		seen[c] = true
		id := uint32(1 + i*3 + s.N(3))
		if s.P(1, 10) {
			id = []uint32{0, 1 << 31, 0xffffff00, 0xfffffff0}[s.N(4)] + uint32(i*3+s.N(3))
		}
		for m.track(id) {
			id++
		}
		t := m.genTrack(s, o, id, k, shuffle, list)
		m.Tracks = append(m.Tracks, t)
		traks = append(traks, t.Node)
		mdats = append(mdats, t.mdat...)
	}
	// movie box
	w := &fw{}
	m.Info.Timescale = uint32(1 + s.N(90000))
	v := s.N(2)
	m.Info.Duration = s.U64n(1 << 31)
	if v == 1 {
		m.Info.Duration = s.U64n(1 << 50)
	}
	b := 32 + 32*v
	w.vn(s, v).n(b, 1, 2).n(32, uint64(m.Info.Timescale)).n(b, m.Info.Duration).n(32, 0x10000).n(16, 0x100, 0).n(32, 0, 0)
	w.n(32, 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000).n(32, 0, 0, 0, 0, 0, 0).n(32, 99)
	mvhd := mk("mvhd", w.B)
	kids := append([]*Node{mvhd}, traks...)
	if m.Frag {
		var trex []*Node
		for _, t := range m.Tracks {
			x := &fw{}
			if o.Divide && s.P(1, 2) {
				t.Trex = uint32(s.N(3000))
			}
			x.vn(s, 0).n(32, uint64(t.ID), uint64(s.Pick(1, 12, 2)), uint64(t.Trex), 0, 0)
			trex = append(trex, mk("trex", x.B))
		}
		kids = append(kids, mk("mvex", nil, trex...))
	}
	if s.P(1, 4) {
		kids = append(kids, mk("udta", nil, mk("xyzz", junk(s, 30))))
	}
	if o.Crypt || s.P(1, 6) {
		x := &fw{}
		x.vn(s, 0).raw(junkN(s, 16)).n(32, 5).raw(junkN(s, 5))
		kids = append(kids, mk("pssh", x.B))
	}
	order := shuffle(kids)
	// the library reports tracks in file order
	var trs []*mp4.Track
	for _, n := range order {
		for _, t := range m.Tracks {
			if t.Node == n {
				trs = append(trs, t.T)
			}
		}
	}
	m.Info.Tracks = trs
	if o.Divide {
		order = list2(order)
	} else {
		order = list(order)
	}
	moov := mk("moov", nil, order...)
	m.Info.FastStart = true
	if o.Divide {
		m.Roots = append(m.Roots, moov)
		m.Roots = append(m.Roots, mdats...)
	} else {
		var rest []*Node
		if len(mdats) > 0 && !m.Frag && s.P(1, 2) {
			m.Info.FastStart = false
			rest = append(append(rest, mdats...), moov)
		} else {
			rest = append(append(rest, moov), mdats...)
		}
		m.Roots = append(m.Roots, list(rest)...)
	}
	if o.Huge && len(mdats) > 0 && s.P(1, 2) {
		for i, n := range m.Roots {
			if n == mdats[0] {
				h := mk("free", nil)
				h.Huge = 1 << (32 + uint(s.N(8)))
				m.Roots = append(m.Roots[:i:i], append([]*Node{h}, m.Roots[i:]...)...)
				break
			}
		}
	}
	// fragments
	m.Info.Segments = mp4.Segments{}
	if m.Frag {
		nf := s.N(7)
		if o.Divide {
			nf = 1 + s.N(6)
		}
		for i := 0; i < nf; i++ {
			t := m.Tracks[s.N(len(m.Tracks))]
			fr := m.genFrag(s, o, t, i, shuffle, list)
			m.Frags = append(m.Frags, fr)
			m.Info.Segments = append(m.Info.Segments, fr.S)
			if fr.Sidx != nil {
				m.Roots = append(m.Roots, fr.Sidx)
			}
			m.Roots = append(m.Roots, fr.Moof, fr.Mdat)
		}
		if !o.Divide && nf > 0 && s.P(1, 6) {
			// the movie box anywhere behind the file type: between fragments, or last
			var l []*Node
			for _, n := range m.Roots {
				if n != moov {
					l = append(l, n)
				}
			}
			k := 0
			if len(l) > 0 && l[0].Type == T("ftyp") {
				k = 1
			}
			k += s.N(len(l) - k + 1)
			m.Info.FastStart = true
			for _, n := range l[:k] {
				if n.Type == T("mdat") {
					m.Info.FastStart = false
				}
			}
			m.Roots = append(append(append([]*Node(nil), l[:k]...), moov), l[k:]...)
		}
		if o.Divide && s.P(1, 4) {
			m.Roots = append(m.Roots, mk("mfra", nil, mk("mfro", (&fw{}).vf(0, 0).n(32, 24).B)))
		}
	}
	// header styles
	m.Annotate()
	m.Walk(func(n *Node) {
		if s.P(1, 10) {
			n.Hdr = 16
		}
	})
	if !o.NoEOF && s.P(1, 4) && len(m.Roots) > 0 {
		n := m.Roots[len(m.Roots)-1]
		n.EOF, n.Hdr = true, 8
	}
	// chunk offsets: sizes are settled, so one layout gives the offsets
	m.Relayout()
	for _, t := range m.Tracks {
		var offs []uint64
		for _, c := range t.mdat {
			offs = append(offs, c.Off+c.Hdr)
		}
		for i, c := range t.T.Chunks {
			c.DataOffset = offs[i]
		}
		patch := func(n *Node, bits int, decoy uint64) {
			if n == nil {
				return
			}
			w := &fw{}
			w.vf(0, 0).n(32, uint64(len(offs)))
			for _, x := range offs {
				w.n(bits, x+decoy)
			}
			if len(w.B) != len(n.Fields) {
				core.Bug("chunk offsets")
			}
			n.Fields = w.B
		}
		patch(t.offs, 32+32*b2i(t.offs != nil && t.offs.Type == T("co64")), 0)
		patch(t.offs2, 64, 1)
	}
	for _, f := range m.Frags {
		f.S.MoofOffset = f.Moof.Off
	}
	m.Relayout()
	for _, f := range m.Frags {
		if f.S.MoofOffset != f.Moof.Off {
			core.Bug("layout moved")
		}
	}
	if m.Why != "" {
		m.Info = nil
	}
	return m
}

func list2(l []*Node) (r []*Node) {
	for _, n := range l {
		if n != nil {
			r = append(r, n)
		}
	}
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
func junkN(s *core.Src, n int) []byte {
	b := make([]byte, n)
	if n > 0 {
		s.Sub().Fill(b)
	}
	return b
}
func junk(s *core.Src, max int) []byte { return junkN(s, s.N(max+1)) }

// genNALs makes one sample of length-prefixed NAL units.
func genNALs(s *core.Src, ls int) (b []byte, idr bool) {
	for k := s.N(4); k >= 0; k-- {
		l := 1 + s.N(30)
		if ls > 1 && s.P(1, 12) {
			l = 250 + s.N(20)
		}
		typ := []byte{1, 5, 6, 7, 8, 9, 1, 1, 25, 4, 13, 0}[s.N(12)]
		ref := byte(s.N(4)) << 5
		nal := junkN(s, l)
		nal[0] = ref | typ
		if typ == 5 {
			idr = true
		}
		for i := ls - 1; i >= 0; i-- {
			b = append(b, byte(l>>uint(8*i)))
		}
		b = append(b, nal...)
	}
	return
}

func (m *Media) track(id uint32) bool {
	for _, t := range m.Tracks {
		if t.ID == id {
			return true
		}
	}
	return false
}

func (m *Media) genTrack(s *core.Src, o MOpt, id uint32, kind string, shuffle, list func([]*Node) []*Node) *MTrack {
	t := &MTrack{ID: id, Kind: kind, T: &mp4.Track{TrackID: id}}
	T_ := t.T
	omit := ""
	if o.Omit && s.P(1, 6) {
		omit = []string{"tkhd", "mdhd", "stco", "stts", "stsc"}[s.N(5)]
		if m.Why == "" {
			m.Why = "no " + omit + " in a track"
		}
	}
	has := func(n *Node) *Node {
		if string(n.Type[:]) == omit || omit == "stco" && n.Type == T("co64") {
			return nil
		}
		return n
	}
	// track header
	v := s.N(2)
	bb := 32 + 32*v
	w := &fw{}
	tkFlags := uint32(7)
	if s.P(1, 8) {
		tkFlags = uint32(s.U64n(1 << 24))
	}
	w.vf(v, tkFlags).n(bb, 0, 0).n(32, uint64(id), 0).n(bb, s.U64n(1<<31)).n(32, 0, 0).n(16, 0, 0, 0x100, 0)
	w.n(32, 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000).n(32, uint64(320+16*s.N(100))<<16, uint64(200+16*s.N(60))<<16)
	tkhd := has(mk("tkhd", w.B))
	// edit list
	var edts *Node
	if s.P(1, 2) {
		v := s.N(2)
		n := 1 + s.N(3)
		w := &fw{}
		w.vn(s, v).n(32, uint64(n))
		T_.EditList = mp4.EditList{}
		for i := 0; i < n; i++ {
			d, mt := s.U64n(1<<31), int64(s.U64n(1<<20))-1
			if v == 1 && s.P(1, 2) {
				d, mt = s.U64n(1<<40), int64(s.U64n(1<<40))-1
			}
			w.n(32+32*v, d, uint64(mt)).n(16, 1, 0)
			T_.EditList = append(T_.EditList, &mp4.EditListEntry{MediaTime: mt, SegmentDuration: d})
		}
		edts = mk("edts", nil, mk("elst", w.B))
	}
	// media header
	v = s.N(2)
	T_.Timescale = uint32(1 + s.N(90000))
	T_.Duration = s.U64n(1 << 31)
	if v == 1 && s.P(1, 2) {
		T_.Duration = s.U64n(1 << 45)
	}
	w = &fw{}
	w.vn(s, v).n(32+32*v, 0, 0).n(32, uint64(T_.Timescale)).n(32+32*v, T_.Duration).n(1, 0).n(5, 21, 14, 4).n(16, 0)
	mdhd := has(mk("mdhd", w.B))

	// samples
	ns := 0
	if !m.Frag || !o.Divide && s.P(1, 5) {
		ns = s.N(14)
		if s.P(1, 100) {
			ns = 200 + s.N(200)
		}
	}
	ls := 1 + s.N(4)
	for i := 0; i < ns; i++ {
		if kind == "avc1" && !s.P(1, 12) {
			b, idr := genNALs(s, ls)
			if idr {
				t.IDR = append(t.IDR, i)
			}
			t.Data = append(t.Data, b)
		} else {
			n := s.N(40)
			if kind == "avc1" {
				n = s.N(ls + 1) // too short for a NAL unit
			}
			t.Data = append(t.Data, junkN(s, n))
		}
	}
	constSize := uint32(0)
	if kind != "avc1" && ns > 0 && s.P(1, 4) {
		constSize = uint32(1 + s.N(20))
		for i := range t.Data {
			t.Data[i] = junkN(s, int(constSize))
		}
	}
	noStsz := ns > 0 && kind != "avc1" && s.P(1, 10)
	T_.Samples = mp4.Samples{}
	for i := 0; i < ns; i++ {
		x := &mp4.Sample{}
		if !noStsz {
			x.Size = uint32(len(t.Data[i]))
		}
		T_.Samples = append(T_.Samples, x)
	}
	// runs of equal deltas
	w = &fw{}
	var cnt int
	for i := 0; i < ns; {
		k := 1 + s.N(ns-i)
		d := uint32(s.N(3000))
		if s.P(1, 40) {
			d = uint32(s.U64n(1 << 32))
		}
		for j := i; j < i+k; j++ {
			T_.Samples[j].TimeDelta = d
		}
		w.n(32, uint64(k), uint64(d))
		i += k
		cnt++
	}
	stts := has(mk("stts", append((&fw{}).vn(s, 0).n(32, uint64(cnt)).B, w.B...)))
	var ctts *Node
	if s.P(1, 2) {
		v := s.N(2)
		w, cnt := &fw{}, 0
		for i := 0; i < ns; {
			k := s.N(ns-i) + 1
			if s.P(1, 10) {
				k = 0
			}
			off := int64(s.N(5000))
			if s.P(1, 12) {
				off = int64(s.U64n(1 << uint(32-v)))
			}
			if v == 1 && s.P(1, 2) {
				off = -off
			}
			for j := i; j < i+k; j++ {
				T_.Samples[j].CompositionTimeOffset = off
			}
			w.n(32, uint64(k), uint64(uint32(int32(off))))
			i += k
			cnt++
			if s.P(1, 8) {
				break
			}
		}
		ctts = mk("ctts", append((&fw{}).vn(s, v).n(32, uint64(cnt)).B, w.B...))
	}
	// chunks
	T_.Chunks = mp4.Chunks{}
	for i := 0; i < ns; {
		k := 1 + s.N(min(ns-i, 4))
		t.chunk = append(t.chunk, k)
		var d []byte
		for j := i; j < i+k; j++ {
			d = append(d, t.Data[j]...)
		}
		t.mdat = append(t.mdat, mk("mdat", d))
		T_.Chunks = append(T_.Chunks, &mp4.Chunk{SamplesPerChunk: uint32(k)})
		i += k
	}
	w, cnt = &fw{}, 0
	for i, k := range t.chunk {
		if i == 0 || t.chunk[i-1] != k || s.P(1, 6) {
			w.n(32, uint64(i+1), uint64(k), uint64(s.Pick(1, 30, 1)))
			cnt++
		}
	}
	stsc := has(mk("stsc", append((&fw{}).vn(s, 0).n(32, uint64(cnt)).B, w.B...)))
	w = &fw{}
	wild := kind != "avc1" && !noStsz && s.P(1, 12) // sizes as of samples far larger than these
	if wild {
		for i, x := range T_.Samples {
			if constSize == 0 && s.P(1, 2) || constSize != 0 && i == 0 {
				x.Size = uint32(s.U64n(1 << 32))
			} else if constSize != 0 {
				x.Size = T_.Samples[0].Size
			}
		}
		if constSize != 0 && T_.Samples[0].Size == 0 {
			wild = false
			for _, x := range T_.Samples {
				x.Size = constSize
			}
		} else if constSize != 0 {
			constSize = T_.Samples[0].Size
		}
	}
	if constSize != 0 {
		w.vn(s, 0).n(32, uint64(constSize), uint64(ns))
	} else {
		w.vn(s, 0).n(32, 0, uint64(ns))
		for i, d := range t.Data {
			if n := uint64(len(d)); wild {
				w.n(32, uint64(T_.Samples[i].Size))
			} else {
				w.n(32, n)
			}
		}
	}
	stsz := mk("stsz", w.B)
	if noStsz {
		stsz = nil
	}
	t.offs = mk("stco", make([]byte, 8+4*len(t.chunk)))
	if o.Huge || s.P(1, 3) {
		t.offs = mk("co64", make([]byte, 8+8*len(t.chunk)))
	} else if s.P(1, 8) {
		t.offs2 = mk("co64", make([]byte, 8+8*len(t.chunk))) // the 32-bit table counts
	}
	stsd := m.sampleEntry(s, t, ls, list)
	kids := []*Node{stsd, stts, stsc, stsz, has(t.offs)}
	if ctts != nil {
		kids = append(kids, ctts)
	}
	if t.offs2 != nil && omit != "stco" {
		kids = append(kids, t.offs2)
	}
	stbl := mk("stbl", nil, list(shuffle(list2(kids)))...)
	dinf := mk("dinf", nil, mk("dref", (&fw{}).vf(0, 0).n(32, 1).B, mk("url ", (&fw{}).vf(0, 1).B)))
	hd := "soun"
	if kind == "avc1" || kind == "encv" || kind == "hvc1" {
		hd = "vide"
	}
	hdlr := mk("hdlr", (&fw{}).vn(s, 0).n(32, 0).raw([]byte(hd)).n(32, 0, 0, 0).raw([]byte("h\x00")).B)
	minf := mk("minf", nil, shuffle([]*Node{dinf, stbl})...)
	mdia := mk("mdia", nil, list(shuffle(list2([]*Node{mdhd, hdlr, minf})))...)
	t.Node = mk("trak", nil, list(shuffle(list2([]*Node{tkhd, edts, mdia})))...)
	return t
}

func (m *Media) sampleEntry(s *core.Src, t *MTrack, ls int, list func([]*Node) []*Node) *Node {
	T_ := t.T
	var ent, ent2 *Node
	var esdsB []byte
	switch t.Kind {
	case "avc1", "encv", "hvc1":
		wd, ht := uint16(16*(1+s.N(200))), uint16(16*(1+s.N(200)))
		w := &fw{}
		w.n(32, 0).n(16, 0, 1).n(16, 0, 0).n(32, 0, 0, 0).n(16, uint64(wd), uint64(ht)).n(32, 0x480000, 0x480000, 0).n(16, 1).raw(make([]byte, 32)).n(16, 0x18, 0xffff)
		var avcC *Node
		if t.Kind != "hvc1" && !s.P(1, 10) {
			prof := []uint64{66, 77, 100, 110}[s.N(4)]
			compat, lev := s.U64n(256), 10+s.U64n(42)
			x := &fw{}
			x.n(8, 1, prof, compat, lev).n(6, 63).n(2, uint64(ls-1)).n(3, 7).n(5, 1).n(16, 5).raw(junkN(s, 5)).n(8, 1).n(16, 3).raw(junkN(s, 3))
			avcC = mk("avcC", x.B)
			if t.Kind == "avc1" {
				T_.AVC = &mp4.AVCDecConfigInfo{ConfigurationVersion: 1, Profile: uint8(prof), ProfileCompatibility: uint8(compat), Level: uint8(lev), LengthSize: uint16(ls), Width: wd, Height: ht}
			}
		}
		kids := []*Node{avcC}
		if s.P(1, 3) {
			kids = append(kids, mk("pasp", (&fw{}).n(32, 1, 1).B))
		}
		if t.Kind == "encv" {
			kids = append(kids, mk("sinf", nil, mk("frma", []byte("avc1"))))
			T_.Encrypted = true
		}
		if t.Kind != "hvc1" {
			T_.Codec = mp4.CodecAVC1
		}
		if T_.AVC == nil {
			t.IDR = nil
		}
		ent = mk(t.Kind, w.B, list(list2(kids))...)
		if t.Kind == "avc1" && !m.Divide && s.P(1, 8) {
			// clear and encrypted samples in one track
			kids2 := []*Node{mk("sinf", nil, mk("frma", []byte("avc1")))}
			if avcC != nil {
				kids2 = append(kids2, mk("avcC", avcC.Fields))
			}
			ent2 = mk("encv", append([]byte(nil), w.B...), list(list2(kids2))...)
			T_.Encrypted = true
		}
	case "mp4a", "enca", "Opus":
		ev, cc := uint64(0), uint64(1+s.N(8))
		if m.QT {
			ev = s.U64n(3)
		}
		w := &fw{}
		w.n(32, 0).n(16, 0, 1).n(16, ev).n(16, 0, 0, 0).n(16, cc, 16, 0, 0).n(32, 48000<<16)
		if m.QT && ev == 1 {
			w.raw(junkN(s, 16))
		}
		if m.QT && ev == 2 {
			w.raw(junkN(s, 36))
		}
		var kids []*Node
		if t.Kind != "Opus" {
			T_.Codec = mp4.CodecMP4A
			T_.Encrypted = t.Kind == "enca"
			if !s.P(1, 10) {
				b, oti, aud := esdsBytes(s)
				esds := mk("esds", b)
				esdsB = b
				T_.MP4A = &mp4.MP4AInfo{OTI: oti, AudOTI: aud, ChannelCount: uint16(cc)}
				if t.Kind == "mp4a" && m.QT && s.P(1, 2) {
					esds = mk("wave", nil, mk("frma", []byte("mp4a")), mk("mp4a", make([]byte, 4)), esds)
				}
				kids = append(kids, esds)
			}
			if t.Kind == "enca" {
				kids = append(kids, mk("sinf", nil, mk("frma", []byte("mp4a"))))
			}
		}
		ent = mk(t.Kind, w.B, list(kids)...)
		if t.Kind == "mp4a" && !m.Divide && !m.QT && s.P(1, 8) {
			kids2 := []*Node{mk("sinf", nil, mk("frma", []byte("mp4a")))}
			if esdsB != nil {
				kids2 = append(kids2, mk("esds", esdsB))
			}
			ent2 = mk("enca", append([]byte(nil), w.B...), list(list2(kids2))...)
			T_.Encrypted = true
		}
	default:
		w := &fw{}
		w.n(32, 0).n(16, 0, 1).raw([]byte("ns\x00sl\x00\x00"))
		ent = mk(t.Kind, w.B)
	}
	if ent2 != nil {
		m.Two = true
		if s.P(1, 2) {
			ent, ent2 = ent2, ent
		}
		return mk("stsd", (&fw{}).vn(s, 0).n(32, 2).B, ent, ent2)
	}
	return mk("stsd", (&fw{}).vn(s, 0).n(32, 1).B, ent)
}

// esdsBytes makes an elementary stream descriptor box and the AAC profile it declares.
func esdsBytes(s *core.Src) (b []byte, oti, aud uint8) {
	w := &fw{}
	w.vn(s, 0)
	vi := func(n int) {
		if s.P(1, 3) {
			w.n(8, uint64(n))
		} else {
			w.n(8, 0x80, 0x80, 0x80, uint64(n))
		}
	}
	w.n(8, 3)
	vi(25)
	w.n(16, 1).n(8, 0)
	if s.P(1, 10) {
		w.n(8, 6)
		vi(1)
		w.n(8, 2)
		return w.B, 0, 0
	}
	oti = 0x40
	if s.P(1, 6) {
		oti = []uint8{0x67, 0x69, 0x6b, 0xa5}[s.N(4)]
	}
	w.n(8, 4)
	vi(17)
	w.n(8, uint64(oti)).n(6, 5).n(1, 0).n(1, 1).n(24, 0).n(32, 128000, 128000)
	// audio specific config
	a := &fw{}
	aud = uint8([]int{2, 2, 2, 1, 4, 5, 29, 23, 42}[s.N(9)])
	if s.P(1, 3) {
		if aud = 1 + uint8(s.N(94)); aud == 31 {
			aud = 30 // the escape
		}
	}
	if aud >= 32 {
		a.n(5, 31).n(6, uint64(aud-32))
	} else {
		a.n(5, uint64(aud))
	}
	fi := s.U64n(13)
	if s.P(1, 5) {
		fi = 15
	}
	freq := func(fi uint64) {
		a.n(4, fi)
		if fi == 15 {
			a.n(24, 44100)
		}
	}
	freq(fi)
	a.n(4, 2)
	if aud == 2 {
		switch s.N(5) {
		case 4: // the other extension type that declares SBR; no rate follows here
			a.n(11, 0x2b7).n(5, 22)
			if s.P(1, 3) {
				a.n(1, 0)
			} else {
				a.n(1, 1)
				aud = 5
			}
			if s.P(1, 2) {
				a.n(11, 0x548).n(1, 1)
			}
			a.n(4, 0)
		case 0: // general audio config only
			a.n(3, 0)
		case 1: // sync extension, no SBR
			a.n(3, 0)
		case 2: // SBR
			a.n(11, 0x2b7).n(5, 5).n(1, 1)
			if s.P(1, 4) {
				freq(15)
			} else {
				freq(3)
			}
			aud = 5
			if s.P(1, 2) {
				a.n(11, 0x548)
				if s.P(1, 2) {
					a.n(1, 1)
					aud = 29
				} else {
					a.n(1, 0)
				}
			}
		default:
			a.n(11, 0x2b7).n(5, 5).n(1, 0).n(4, 0)
		}
	}
	for len(a.B)*8 != a.nbit {
		a.n(1, 0)
	}
	if s.P(1, 8) {
		a.raw([]byte{0})
	}
	w.n(8, 5)
	vi(len(a.B))
	w.raw(a.B)
	if s.P(1, 2) {
		w.n(8, 6)
		vi(1)
		w.n(8, 2)
	}
	if oti != 0x40 {
		aud = 0
	}
	return w.B, oti, aud
}

func (m *Media) genFrag(s *core.Src, o MOpt, t *MTrack, idx int, shuffle, list func([]*Node) []*Node) *MFrag {
	f := &MFrag{TrackID: t.ID, S: &mp4.Segment{TrackID: t.ID}}
	S := f.S
	// track fragment header
	fl := uint32(0x20000)
	w := &fw{}
	w.n(32, uint64(t.ID))
	if s.P(1, 6) {
		fl |= 1
		w.n(64, 0)
	}
	if s.P(1, 6) {
		fl |= 2
		w.n(32, 1)
	}
	var defSize uint32
	if s.P(2, 3) {
		fl |= 8
		S.DefaultSampleDuration = uint32(s.N(3000))
		if s.P(1, 20) {
			S.DefaultSampleDuration = uint32(s.U64n(1 << 18))
		}
		w.n(32, uint64(S.DefaultSampleDuration))
	}
	if s.P(2, 3) {
		fl |= 0x10
		defSize = uint32(s.N(2000))
		if s.P(1, 20) {
			defSize = uint32(s.U64n(1 << 22))
		}
		w.n(32, uint64(defSize))
	}
	if s.P(1, 3) {
		fl |= 0x20
		w.n(32, 0x1000000)
	}
	tfhd := mk("tfhd", append((&fw{}).vf(0, fl).B, w.B...))
	var tfdt *Node
	if !s.P(1, 10) {
		v := s.N(2)
		S.BaseMediaDecodeTime = s.U64n(1 << 31)
		if v == 1 && s.P(1, 2) {
			S.BaseMediaDecodeTime = s.U64n(1 << 60)
		}
		tfdt = mk("tfdt", (&fw{}).vn(s, v).n(32+32*v, S.BaseMediaDecodeTime).B)
	}
	var runs []*Node
	defDur := S.DefaultSampleDuration
	if fl&8 == 0 {
		defDur = t.Trex
	}
	nruns := 1
	if o.Divide {
		nruns = []int{1, 0, 2, 3}[s.Pick(6, 1, 2, 1)]
	} else if s.P(1, 12) {
		nruns = 0
	}
	for ; nruns > 0; nruns-- {
		tf, v := uint32(0), s.N(2)
		for _, b := range []uint32{1, 4, 0x100, 0x200, 0x400, 0x800} {
			if s.P(1, 2) {
				tf |= b
			}
		}
		n := s.N(8)
		if s.P(1, 80) {
			n = 100 + s.N(400)
		}
		w := &fw{}
		w.vf(v, tf).n(32, uint64(n))
		if tf&1 != 0 {
			w.n(32, 100)
		}
		if tf&4 != 0 {
			w.n(32, 0x2000000)
		}
		S.SampleCount = uint32(n)
		maxDur, maxSize := 3000, 60
		if s.P(1, 12) { // the sums stay below 31 bits
			maxDur, maxSize = 1<<28/(n+1), 1<<30/(n+1)
		}
		var dts int64
		for i := 0; i < n; i++ {
			dur, size, cto := S.DefaultSampleDuration, defSize, int64(0)
			if tf&0x100 != 0 {
				dur = uint32(s.N(maxDur))
				if o.Divide && s.P(1, 30) {
					dur = ^uint32(0) - uint32(s.N(1000))
				}
				w.n(32, uint64(dur))
			}
			if tf&0x200 != 0 {
				size = uint32(s.N(maxSize))
				w.n(32, uint64(size))
			}
			if tf&0x400 != 0 {
				w.n(32, 0)
			}
			if tf&0x800 != 0 {
				cto = int64(s.N(5000))
				if s.P(1, 12) {
					cto = int64(s.U64n(1 << 30))
				}
				if v == 1 && s.P(1, 3) {
					cto = -cto
				}
				w.n(32, uint64(uint32(int32(cto))))
			}
			S.Duration += dur
			if tf&0x100 != 0 {
				f.Total += uint64(dur)
			} else {
				f.Total += uint64(defDur)
			}
			S.Size += size
			if c := int32(dts + cto); i == 0 || c < S.CompositionTimeOffset {
				S.CompositionTimeOffset = c
			}
			dts += int64(dur)
		}
		runs = append(runs, mk("trun", w.B))
	}
	f.Duration = S.Duration
	kids := append([]*Node{tfhd, tfdt}, runs...)
	var omitT bool
	if o.Omit && s.P(1, 8) {
		kids[0] = nil
		omitT = true
	}
	if omitT && m.Why == "" {
		m.Why = "no tfhd in a fragment"
	}
	if s.P(1, 5) {
		kids = append(kids, mk("sbgp", (&fw{}).vn(s, 0).n(32, 1, 0).B))
	}
	traf := mk("traf", nil, list(list2(kids))...)
	mfhd := mk("mfhd", (&fw{}).vn(s, 0).n(32, uint64(idx+1)).B)
	f.Moof = mk("moof", nil, list(shuffle([]*Node{mfhd, traf}))...)
	f.Mdat = mk("mdat", junkN(s, s.N(80)))
	if o.Divide && s.P(1, 5) || s.P(1, 10) {
		f.Sidx = mk("sidx", (&fw{}).vn(s, 0).n(32, uint64(t.ID), 1000, 0, 0).n(16, 0, 0).B)
	}
	return f
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ChunkBoxes is the boxes that hold the track's chunks.
func (t *MTrack) ChunkBoxes() []*Node { return t.mdat }
