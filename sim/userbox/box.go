// Package userbox is a family of user-defined boxes: their declarations as a
// user writes them (types.go), custom field hooks, and an independent codec that
// works from the specs next to the declarations, never from their tags.
package userbox

import (
	"fmt"
	"io"
	"reflect"

	"github.com/abema/go-mp4"
	bridge "github.com/abema/go-mp4/verifbridge"
	"verifsim/core"
)

// Octet is a byte type of the user's own.
type Octet uint8

// F is the spec of one field.
type F struct {
	Name, Kind                       string
	Bits, Len                        int
	Opt, NOpt                        uint32
	HookBits, Sized, Max, Min        int
	Ver, NVer                        int
	DynBits, OptDyn, Times8, Box, CP bool
	Hook                             string
	Elem                             *F
	Sub                              string
	Fields                           []*F
}

// B is one registered box.
type B struct {
	Type      mp4.BoxType
	Any, Full bool
	New       func() mp4.IBox
	Fields    []*F
	Versions  []uint8
	Before    int
}

var Boxes []*B

// Call is one hook call.
type Call struct {
	Op   byte // r read, w write, b before
	Name string
	Left uint64
}

func (c Call) String() string { return fmt.Sprintf("%c %s left=%d", c.Op, c.Name, c.Left) }

// Str is one question whether a string is a Pascal string: what it asks about in
// a decoding, where the string is in an encoding.
type Str struct {
	Name  string
	Bytes string
	Left  uint64
	Pos   int // bytes into the fields
	End   int // of the sized structure around it, 0: none
}

// Plan is what the hooks of the running operation do.
type Plan struct {
	Ctx    mp4.Context
	FailAt int // index of the hook call that fails (-1: none)
	Err    error
	Calls  []Call
	Bad    string // the first thing a hook saw that it must not see
	Strs   []Str  // what IsPString was asked
	Off    bool   // hooks behave like the base implementation
}

var P = &Plan{FailAt: -1}

func (p *Plan) bad(f string, a ...interface{}) {
	if p.Bad == "" {
		p.Bad = fmt.Sprintf(f, a...)
	}
}

func (p *Plan) call(op byte, name string, left uint64, ctx mp4.Context) error {
	if ctx != p.Ctx {
		p.bad("hook of %s called with context %+v", name, ctx)
	}
	p.Calls = append(p.Calls, Call{op, name, left})
	if len(p.Calls)-1 == p.FailAt {
		return p.Err
	}
	if p.FailAt >= 0 && len(p.Calls)-1 > p.FailAt {
		p.bad("hook of %s called after another hook had failed", name)
	}
	return nil
}

func find(spec []*F, name string) *F {
	for _, f := range spec {
		if f.Name == name {
			return f
		}
	}
	return nil
}

func comp(b interface{}, name string) reflect.Value {
	v := reflect.ValueOf(b).Elem().FieldByName(name)
	if !v.IsValid() {
		core.Bug("no field %s in %T", name, b)
	}
	return v
}

func fieldSize(b interface{}, spec []*F, name string, ctx mp4.Context) uint {
	if ctx != P.Ctx {
		P.bad("GetFieldSize(%s) with context %+v", name, ctx)
	}
	f := find(spec, name)
	if f == nil || !f.DynBits {
		P.bad("GetFieldSize asked for %s of %T", name, b)
		return 8
	}
	return uint(dynBits(f, reflect.ValueOf(b).Elem()))
}

func dynBits(f *F, parent reflect.Value) int {
	n := int(parent.FieldByName(f.Name + "Bits").Uint())
	if f.Kind == "struct" {
		n *= 8
	}
	return n
}

func fieldLength(b interface{}, spec []*F, name string, ctx mp4.Context) uint {
	if ctx != P.Ctx {
		P.bad("GetFieldLength(%s) with context %+v", name, ctx)
	}
	f := find(spec, name)
	if f == nil || f.Len != -2 && f.Len != -3 {
		P.bad("GetFieldLength asked for %s of %T", name, b)
		return 0
	}
	if f.Len == -3 {
		return mp4.LengthUnlimited
	}
	return uint(comp(b, name+"Len").Uint())
}

func fieldEnabled(b interface{}, spec []*F, name string, ctx mp4.Context) bool {
	if ctx != P.Ctx {
		P.bad("IsOptFieldEnabled(%s) with context %+v", name, ctx)
	}
	f := find(spec, name)
	if f == nil || !f.OptDyn {
		P.bad("IsOptFieldEnabled asked for %s of %T", name, b)
		return true
	}
	return comp(b, name+"On").Bool()
}

// isPString: strings whose Pascal form starts with 0xfe are Pascal strings.
func isPString(b interface{}, spec []*F, name string, s []byte, left uint64, ctx mp4.Context) bool {
	if ctx != P.Ctx {
		P.bad("IsPString(%s) with context %+v", name, ctx)
	}
	f := find(spec, name)
	if f == nil || !f.CP {
		P.bad("IsPString asked for %s of %T", name, b)
	}
	P.Strs = append(P.Strs, Str{Name: name, Bytes: string(s), Left: left})
	return len(s) > 0 && s[0] == 0xfe
}

// marker is the bit pattern a hook puts before (or mixes into) a field.
func marker(name string, bits int) uint64 {
	h := uint64(1469598103934665603)
	for _, c := range []byte(name) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h ^= h >> 31
	if bits < 64 {
		h &= 1<<uint(bits) - 1
	}
	return h
}

func be(v uint64, bits int) []byte {
	n := (bits + 7) / 8
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func unbe(b []byte) (v uint64) {
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return
}

func onRead(b interface{}, spec []*F, name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	if P.Off {
		return 0, false, nil
	}
	if err := P.call('r', name, left, ctx); err != nil {
		return 0, false, err
	}
	f := find(spec, name)
	if f == nil {
		return 0, false, nil
	}
	switch f.Hook {
	case "prefix":
		d, err := r.ReadBits(uint(f.HookBits))
		if err != nil {
			return 0, false, err
		}
		if unbe(d) != marker(name, f.HookBits) {
			P.bad("hook of %s reads %x, its mark is %x", name, d, marker(name, f.HookBits))
		}
		return uint64(f.HookBits), false, nil
	case "bytes":
		d := make([]byte, f.HookBits/8)
		if _, err := io.ReadFull(r, d); err != nil {
			return 0, false, err
		}
		if unbe(d) != marker(name, f.HookBits) {
			P.bad("hook of %s reads %x, its mark is %x", name, d, marker(name, f.HookBits))
		}
		return uint64(f.HookBits), false, nil
	case "peek":
		d, err := r.ReadBits(8)
		if err != nil {
			return 0, false, err
		}
		if _, err := r.Seek(-1, io.SeekCurrent); err != nil {
			return 0, false, err
		}
		P.Calls = append(P.Calls, Call{'p', name, uint64(d[0])})
		return 0, false, nil
	case "override":
		d, err := r.ReadBits(uint(f.HookBits))
		if err != nil {
			return 0, false, err
		}
		setBits(comp(b, name), unbe(d)^marker(name, f.HookBits), f.HookBits)
		return uint64(f.HookBits), true, nil
	}
	return 0, false, nil
}

func onWrite(b interface{}, spec []*F, name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	if P.Off {
		return 0, false, nil
	}
	if err := P.call('w', name, 0, ctx); err != nil {
		return 0, false, err
	}
	f := find(spec, name)
	if f == nil {
		return 0, false, nil
	}
	switch f.Hook {
	case "prefix":
		return uint64(f.HookBits), false, w.WriteBits(be(marker(name, f.HookBits), f.HookBits), uint(f.HookBits))
	case "bytes":
		_, err := w.Write(be(marker(name, f.HookBits), f.HookBits))
		return uint64(f.HookBits), false, err
	case "override":
		v := getBits(comp(b, name), f.HookBits) ^ marker(name, f.HookBits)
		return uint64(f.HookBits), true, w.WriteBits(be(v, f.HookBits), uint(f.HookBits))
	}
	return 0, false, nil
}

// before is the BeforeUnmarshal hook of boxes that start with n bytes of their
// own; a first byte 0xee makes it take over the whole payload.
func before(r io.ReadSeeker, n int, size uint64, ctx mp4.Context) (uint64, bool, error) {
	if P.Off {
		return 0, false, nil
	}
	if err := P.call('b', "", size, ctx); err != nil {
		return 0, false, err
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return 0, false, err
	}
	if b[0] == 0xee {
		if size < uint64(n) {
			return 0, false, io.ErrUnexpectedEOF
		}
		_, err := io.CopyN(io.Discard, r, int64(size)-int64(n))
		return size, true, err
	}
	return uint64(n), false, nil
}

func setBits(v reflect.Value, x uint64, bits int) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if bits < 64 && x>>uint(bits-1)&1 == 1 {
			x |= ^uint64(0) << uint(bits)
		}
		v.SetInt(int64(x))
	default:
		v.SetUint(x)
	}
}

func getBits(v reflect.Value, bits int) uint64 {
	var x uint64
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x = uint64(v.Int())
	default:
		x = v.Uint()
	}
	if bits < 64 {
		x &= 1<<uint(bits) - 1
	}
	return x
}

// Enc is the reference encoder.
type Enc struct {
	b     []byte
	n     int // bits
	Calls []Call
	Loose *core.Src // choose among the encodings of a value (decoding only)
	ver   uint8
	flags uint32
	start int // of the scope whose size leftBits refers to
	size  int // of that scope, in bits
	sized bool
	strs  []Str
}

func (w *Enc) u(bits int, v uint64) {
	for i := bits - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if i < 64 && v>>uint(i)&1 == 1 {
			w.b[len(w.b)-1] |= 1 << uint(7-w.n%8)
		}
		w.n++
	}
}

func on(f *F, parent reflect.Value, ver uint8, flags uint32) bool {
	return !(f.Ver >= 0 && int(ver) != f.Ver || f.NVer >= 0 && int(ver) == f.NVer ||
		f.Opt != 0 && flags&f.Opt == 0 || f.NOpt != 0 && flags&f.NOpt != 0 ||
		f.OptDyn && !parent.FieldByName(f.Name+"On").Bool())
}

func (w *Enc) call(name string) {
	w.Calls = append(w.Calls, Call{'r', name, uint64(w.size - (w.n - w.start))})
}

func (w *Enc) fields(v reflect.Value, spec []*F) {
	for _, f := range spec {
		if !on(f, v, w.ver, w.flags) {
			continue
		}
		w.call(f.Name)
		x := v.FieldByName(f.Name)
		switch f.Hook {
		case "prefix", "bytes":
			w.u(f.HookBits, marker(f.Name, f.HookBits))
		case "override":
			w.u(f.HookBits, getBits(x, f.HookBits)^marker(f.Name, f.HookBits))
			continue
		case "peek":
			w.Calls = append(w.Calls, Call{'p', f.Name, uint64(w.n)}) // resolved by the caller
		}
		w.value(x, f, v)
	}
}

func (w *Enc) value(x reflect.Value, f *F, parent reflect.Value) {
	switch f.Kind {
	case "uint", "int":
		bits := f.Bits
		if f.DynBits {
			bits = dynBits(f, parent)
		}
		w.u(bits, getBits(x, bits))
	case "bool":
		var v uint64
		if x.Bool() {
			v = ^uint64(0)
			if w.Loose != nil && f.Bits > 1 {
				v = 1 << uint(w.Loose.N(f.Bits))
			}
		}
		w.u(f.Bits, v)
	case "varint":
		v := x.Uint()
		n := 4
		if w.Loose != nil {
			n = 1
			for v>>(7*uint(n)) != 0 {
				n++
			}
			n += w.Loose.N(6 - n)
		}
		for i := n - 1; i > 0; i-- {
			w.u(8, v>>(7*uint(i))&0x7f|0x80)
		}
		w.u(8, v&0x7f)
	case "string":
		s := x.String()
		pascal := false
		if f.CP {
			q := Str{Name: f.Name, Pos: w.n / 8}
			if w.sized {
				q.End = (w.start + w.size) / 8
			}
			w.strs = append(w.strs, q)
			pascal = w.Loose != nil && len(s) > 0 && len(s) < 256 && s[0] == 0xfe && w.Loose.N(2) == 1
		}
		if pascal {
			w.u(8, uint64(len(s)))
		}
		for _, c := range []byte(s) {
			w.u(8, uint64(c))
		}
		if !f.Box && !pascal {
			w.u(8, 0)
		}
	case "struct":
		sz := f.Sized
		if f.DynBits {
			sz = dynBits(f, parent)
		}
		if sz == 0 {
			w.fields(x, f.Fields)
			return
		}
		a, b, c := w.start, w.size, w.sized
		w.start, w.size, w.sized = w.n, sz, true
		w.fields(x, f.Fields)
		if w.n-w.start != sz {
			core.Bug("sized struct %s: %d bits of %d", f.Name, w.n-w.start, sz)
		}
		w.start, w.size, w.sized = a, b, c
	case "ptr":
		w.value(x.Elem(), f.Elem, parent)
	case "array", "slice":
		n := x.Len()
		if f.Kind == "slice" && f.Len >= 0 {
			n = f.Len
		}
		for i := 0; i < n; i++ {
			w.value(x.Index(i), f.Elem, parent)
		}
	default:
		core.Bug("kind %s", f.Kind)
	}
}

// Encode gives the payload of a box and the hook calls its decoding makes.
func Encode(b *B, box mp4.IBox, loose *core.Src) ([]byte, []Call) {
	size := 0
	for pass := 0; ; pass++ {
		w := &Enc{ver: box.GetVersion(), flags: box.GetFlags(), size: size}
		if loose != nil {
			w.Loose = core.NewReplaySrc(nil)
			if pass == 0 {
				w.Loose = loose
			} else {
				w.Loose = core.NewReplaySrc(loose.Rec[loosePos:])
			}
		}
		if pass == 0 && loose != nil {
			loosePos = len(loose.Rec)
		}
		if b.Full {
			w.call("FullBox")
			w.u(8, uint64(box.GetVersion()))
			w.u(24, uint64(box.GetFlags()))
		}
		w.fields(reflect.ValueOf(box).Elem(), b.Fields)
		if w.n%8 != 0 {
			core.Bug("%s: %d bits", b.Type, w.n)
		}
		if pass == 1 {
			for i, c := range w.Calls {
				if c.Op == 'p' {
					w.Calls[i].Left = uint64(w.b[c.Left/8])
				}
			}
			Strs = w.strs
			return w.b, w.Calls
		}
		size = w.n
	}
}

var loosePos int

// Strs are the strings of the last encoding that may be Pascal strings.
var Strs []Str

// Prefix counts the bits of everything before the named field.
func (b *B) prefix(box mp4.IBox, last string) int {
	w := &Enc{ver: box.GetVersion(), flags: box.GetFlags()}
	if b.Full {
		w.u(32, 0)
	}
	for i, f := range b.Fields {
		if f.Name == last {
			w.fields(reflect.ValueOf(box).Elem(), b.Fields[:i])
			return w.n
		}
	}
	core.Bug("no field %s", last)
	return 0
}

// Gen fills a new box with seeded values.
func Gen(e *core.Src, b *B, ver uint8, flags uint32) mp4.IBox {
	box := b.New()
	if b.Full {
		box.SetVersion(ver)
		box.SetFlags(flags)
	} else {
		ver, flags = 0, 0
	}
	if a, ok := box.(mp4.IAnyType); ok {
		a.SetType(b.Type)
	}
	g := &gen{Src: e, ver: ver, flags: flags, b: b, box: box}
	g.fields(reflect.ValueOf(box).Elem(), b.Fields)
	return box
}

type gen struct {
	*core.Src
	ver   uint8
	flags uint32
	b     *B
	box   mp4.IBox
}

func (g *gen) bits(n int) uint64 {
	v := g.U64()
	var mask uint64 = ^uint64(0)
	if n < 64 {
		mask = 1<<uint(n) - 1
	}
	switch v & 3 {
	case 0:
		return v >> 2 & 1 & mask
	case 1:
		return mask - v>>2&3&mask
	case 2:
		return 1 << uint(n-1) & mask
	}
	return v >> 2 * 0x9e3779b97f4a7c15 & mask
}

func (g *gen) fields(v reflect.Value, spec []*F) {
	for _, f := range spec {
		if f.Name == "TailLen" || !on(f, v, g.ver, g.flags) {
			continue
		}
		if f.Name == "Tail" {
			n := (8-g.b.prefix(g.box, "Tail")%8)%8 + 8*g.Pick(6, 1, 1)
			v.FieldByName("TailLen").SetUint(uint64(n))
			g.slice(v.FieldByName("Tail"), f, n, v)
			continue
		}
		x := v.FieldByName(f.Name)
		if f.Max > 0 { // companion
			n := f.Min + g.N(f.Max-f.Min+1)
			if f.Times8 {
				t := find(spec, f.Name[:len(f.Name)-4])
				for (n*8-t.Fields[0].Bits)%t.Fields[1].Bits != 0 {
					n++
				}
			}
			x.SetUint(uint64(n))
			continue
		}
		g.value(x, f, v, 0)
	}
}

func (g *gen) slice(x reflect.Value, f *F, n int, parent reflect.Value) {
	s := reflect.MakeSlice(x.Type(), n, n)
	for i := 0; i < n; i++ {
		g.value(s.Index(i), f.Elem, parent, 0)
	}
	x.Set(s)
}

func (g *gen) str() string {
	n := g.Pick(1, 2, 2, 2, 1, 1)
	if n == 5 {
		n = g.N(40)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + g.N(255))
	}
	return string(b)
}

// value draws a value; room is the bits an unlimited slice fills (0: its own choice).
func (g *gen) value(x reflect.Value, f *F, parent reflect.Value, room int) {
	switch f.Kind {
	case "uint", "int":
		bits := f.Bits
		if f.DynBits {
			bits = dynBits(f, parent)
		}
		setBits(x, g.bits(bits), bits)
	case "bool":
		x.SetBool(g.N(2) == 1)
	case "varint":
		x.SetUint(g.bits(28))
	case "string":
		s := g.str()
		if f.CP && len(s) > 1 && s[1] == 0xfe { // as a C string it would look like a Pascal string
			s = s[:1]
		}
		if f.CP && g.N(2) == 0 {
			s = "\xfe" + s
			if s[1:] != "" && s[1] == 0xfe {
				s = "\xfe"
			}
			for g.N(6) == 0 && len(s) < 270 {
				s += s[1:] + "abcdefghijklmnopqrstuvwxyz"
			}
		}
		x.SetString(s)
	case "struct":
		sz := f.Sized
		if f.DynBits {
			sz = dynBits(f, parent)
		}
		if sz == 0 {
			g.fields(x, f.Fields)
			return
		}
		g.value(x.FieldByName(f.Fields[0].Name), f.Fields[0], x, 0)
		g.value(x.FieldByName(f.Fields[1].Name), f.Fields[1], x, sz-f.Fields[0].Bits+1)
	case "ptr":
		x.Set(reflect.New(x.Type().Elem()))
		g.value(x.Elem(), f.Elem, parent, 0)
	case "array":
		for i := 0; i < x.Len(); i++ {
			g.value(x.Index(i), f.Elem, parent, 0)
		}
	case "slice":
		n := f.Len
		switch {
		case f.Len == -2:
			n = int(parent.FieldByName(f.Name + "Len").Uint())
		case f.Len < 0 && room > 0:
			n = (room - 1) / f.Elem.Bits
		case f.Len < 0:
			n = g.Pick(2, 3, 2, 1, 1)
			if n == 4 {
				n = g.N(60)
			}
			for f.Elem.Bits > 0 && n*f.Elem.Bits%8 != 0 {
				n++
			}
		}
		g.slice(x, f, n, parent)
	}
}
