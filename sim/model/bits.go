// Package model is the independent reference: generators that produce the bytes
// of boxes together with the values they encode, written from the format's
// layout, sharing no code with the library's encoder or decoder.
package model

import (
	"fmt"

	"github.com/abema/go-mp4"
	"verifsim/core"
)

// Mark locates a field in the encoded bytes, for structured corruption.
type Mark struct {
	Off  int // bit offset
	Bits int
	Name string
}

// W is an MSB-first bit writer.
type W struct {
	B     []byte
	nbit  int
	Marks []Mark
}

func (w *W) U(bits int, v uint64) {
	w.Marks = append(w.Marks, Mark{w.nbit, bits, ""})
	for i := bits - 1; i >= 0; i-- {
		if w.nbit%8 == 0 {
			w.B = append(w.B, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.B[len(w.B)-1] |= 1 << uint(7-w.nbit%8)
		}
		w.nbit++
	}
}
func (w *W) Raw(p []byte) {
	if w.nbit%8 != 0 {
		core.Bug("unaligned raw")
	}
	w.B = append(w.B, p...)
	w.nbit += 8 * len(p)
}
func (w *W) Len() int { return len(w.B) }

// G draws values and writes them at the same time.
type G struct {
	*core.Src
	W
	Big  bool // allow long arrays / large payloads
	Huge bool // arrays with more than 65535 elements
}

// val draws a boundary-biased value of the given width (one choice).
func (g *G) val(bits int) uint64 {
	r := g.U64()
	var mask uint64 = ^uint64(0)
	if bits < 64 {
		mask = 1<<uint(bits) - 1
	}
	switch r & 7 {
	case 0:
		return r >> 3 & 1 & mask
	case 1:
		return mask
	case 2:
		return mask - r>>3&3&mask
	case 3:
		return 1 << uint(bits-1)
	case 4:
		return (1<<uint(bits-1) - 1) & mask
	case 5:
		return r >> 3 & 0xff & mask
	default:
		return r >> 3 * 0x9e3779b97f4a7c15 & mask
	}
}

func (g *G) u8() uint8   { v := g.val(8); g.U(8, v); return uint8(v) }
func (g *G) u16() uint16 { v := g.val(16); g.U(16, v); return uint16(v) }
func (g *G) u32() uint32 { v := g.val(32); g.U(32, v); return uint32(v) }
func (g *G) u64() uint64 { v := g.val(64); g.U(64, v); return v }
func (g *G) i16() int16  { return int16(g.u16()) }
func (g *G) i32() int32  { return int32(g.u32()) }
func (g *G) i64() int64  { return int64(g.u64()) }
func (g *G) bits(n int) uint64 {
	v := g.val(n)
	g.U(n, v)
	return v
}
func (g *G) flag() bool { return g.bits(1) == 1 }

// sN draws a signed n-bit number.
func (g *G) sN(n int) int64 {
	v := g.bits(n)
	if v>>(uint(n)-1)&1 == 1 {
		return int64(v) - 1<<uint(n)
	}
	return int64(v)
}

func (g *G) b4() (r [4]byte) { g.fix(r[:]); return }
func (g *G) fix(p []byte) {
	g.Sub().Fill(p)
	if g.N(4) == 0 { // often plain
		for i := range p {
			p[i] &= 0x7f
		}
	}
	g.Raw(p)
}

// size draws an element count.
func (g *G) size() int {
	switch g.Pick(16, 12, 4, 2, 1) {
	case 4:
		if g.Big {
			return []int{127, 128, 255, 256, 257, 4096, 16383, 16384}[g.N(8)]
		}
		return []int{127, 128, 255, 256, 257}[g.N(5)]
	case 0:
		return g.N(4)
	case 1:
		return g.N(20)
	case 2:
		return g.N(100)
	default:
		if g.Big {
			return g.N(3000)
		}
		return g.N(300)
	}
}

// size32 draws an element count of an array that may have more than 65535 elements.
func (g *G) size32() int {
	if g.Huge && g.P(1, 2) {
		return []int{65535, 65536, 65537, 66000}[g.N(4)]
	}
	return g.size()
}

// bytesN draws n bytes.
func (g *G) bytesN(n int) []byte {
	b := make([]byte, n)
	if n > 0 {
		g.Sub().Fill(b)
	}
	g.Raw(b)
	return b
}
func (g *G) bytes() []byte { return g.bytesN(g.size32()) }

// str draws a string without NUL bytes, not written.
func (g *G) str() string {
	n := g.size()
	if n == 0 {
		return ""
	}
	s := g.Sub()
	b := make([]byte, n)
	s.Fill(b)
	utf := s.N(3)
	for i := range b {
		if utf != 0 {
			b[i] = 0x20 + b[i]%0x5f
		}
		if b[i] == 0 {
			b[i] = 'x'
		}
	}
	return string(b)
}

// cstr writes a NUL-terminated string.
func (g *G) cstr() string {
	s := g.str()
	g.Raw([]byte(s))
	g.Raw([]byte{0})
	return s
}

func (g *G) full(version uint8, flags uint32) mp4.FullBox {
	g.U(8, uint64(version))
	g.U(24, uint64(flags))
	return mp4.FullBox{Version: version, Flags: [3]byte{byte(flags >> 16), byte(flags >> 8), byte(flags)}}
}

// flags draws box flags: mostly combinations of the given bits, sometimes anything.
func (g *G) flags(bits ...uint32) uint32 {
	var f uint32
	for _, b := range bits {
		if g.P(1, 2) {
			f |= b
		}
	}
	if g.P(1, 6) {
		var all uint32
		for _, b := range bits {
			all |= b
		}
		f |= uint32(g.val(24)) &^ all
	}
	return f
}

func (g *G) ver(n int) uint8 { return uint8(g.N(n)) }

// Payload is a generated payload with its meaning.
type Payload struct {
	Type  mp4.BoxType
	Ctx   mp4.Context
	Bytes []byte
	Val   mp4.IBox
	N     uint64 // bytes consumed by decoding
	Canon bool   // encoding Val gives exactly Bytes
	Tail  bool   // decoding always consumes the whole payload
	Marks []Mark
	Def   *Def
}

// Def describes one family of supported box types.
type Def struct {
	Name  string
	Types []mp4.BoxType
	Ctx   func(c mp4.Context) bool // nil: every context
	Tail  bool                     // consumes everything up to the end of the box
	Gen   func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool)
	// FullVersions: the versions the type supports when its payload starts with version/flags (nil: not versioned, or any).
	FullVersions []uint8
	Any          bool // value carries its type
	Container    bool
}

// TailIn tells whether decoding in the context consumes everything up to the end of the box.
func (d *Def) TailIn(c mp4.Context) bool {
	return d.Tail || d.Name == "audio" && c.IsQuickTimeCompatible && c.UnderWave
}

var Defs []*Def
var byType = map[mp4.BoxType][]*Def{}

func T(s string) mp4.BoxType {
	if len(s) != 4 {
		core.Bug("type %q", s)
	}
	return mp4.BoxType{s[0], s[1], s[2], s[3]}
}

func def(d *Def) {
	Defs = append(Defs, d)
	for _, t := range d.Types {
		byType[t] = append(byType[t], d)
	}
}

// Lookup gives the definition that applies to a type in a context (nil: unsupported).
func Lookup(t mp4.BoxType, c mp4.Context) *Def {
	ds := byType[t]
	for i := len(ds) - 1; i >= 0; i-- {
		if ds[i].Ctx == nil || ds[i].Ctx(c) {
			return ds[i]
		}
	}
	if c.UnderIlst {
		id := uint32(t[0])<<24 | uint32(t[1])<<16 | uint32(t[2])<<8 | uint32(t[3])
		if id >= 1 && int64(id) <= int64(c.QuickTimeKeysMetaEntryCount) && id <= 1<<31-1 {
			return itemDef
		}
	}
	return nil
}

// Gen generates a payload of the type in the context.
func Gen(s *core.Src, t mp4.BoxType, c mp4.Context, big bool) *Payload {
	return gen(s, t, c, big, false)
}

// GenHuge may generate arrays with more than 65535 elements.
func GenHuge(s *core.Src, t mp4.BoxType, c mp4.Context) *Payload { return gen(s, t, c, true, true) }

func gen(s *core.Src, t mp4.BoxType, c mp4.Context, big, huge bool) *Payload {
	d := Lookup(t, c)
	if d == nil {
		core.Bug("no definition of %s in %+v", t, c)
	}
	g := &G{Src: s, Big: big, Huge: huge}
	v, canon := d.Gen(g, c, t)
	if g.nbit%8 != 0 {
		core.Bug("%s: %d bits", d.Name, g.nbit)
	}
	b := g.B
	if b == nil {
		b = []byte{}
	}
	return &Payload{Type: t, Ctx: c, Bytes: b, Val: v, N: uint64(len(b)), Canon: canon, Tail: d.TailIn(c), Marks: g.Marks, Def: d}
}

func (p *Payload) String() string { return fmt.Sprintf("%s(%d bytes)", p.Type, len(p.Bytes)) }
