package userbox

import (
	"github.com/abema/go-mp4"
	"verifsim/core"
)

// Odd boxes are declared in such a way that some or all of their values have no
// valid encoding: their bits do not fill bytes, a sized structure is not
// filled, or a field has a type that cannot be encoded.

type Odd0 struct { // never whole bytes
	mp4.Box
	A uint8  `mp4:"0,size=3"`
	B uint16 `mp4:"1,size=9"`
}
type Odd1 struct { // whole bytes if both or neither are there
	mp4.FullBox `mp4:"0,extend"`
	A           uint8 `mp4:"1,size=5,opt=0x1"`
	B           int8  `mp4:"2,size=3,opt=0x2"`
	C           bool  `mp4:"3,size=8"`
}
type Odd2 struct { // as the number of elements
	mp4.Box
	N uint8   `mp4:"0,size=8"`
	X []int16 `mp4:"1,size=12,len=dynamic"`
}
type Odd3 struct { // bits, and then bytes which are not aligned
	mp4.Box
	N uint8   `mp4:"0,size=8"`
	X []bool  `mp4:"1,size=1,len=dynamic"`
	Y []byte  `mp4:"2,size=8,len=3"`
	Z string  `mp4:"3,string"`
	W [2]byte `mp4:"4,size=8"`
}
type Odd4In struct {
	A uint8  `mp4:"0,size=8"`
	S string `mp4:"1,string"`
}
type Odd4 struct { // the string must fill the structure
	mp4.Box
	In Odd4In `mp4:"0,size=64"`
	B  uint8  `mp4:"1,size=8"`
}
type Odd5 struct {
	mp4.Box
	A uint8   `mp4:"0,size=8"`
	F float64 `mp4:"1,size=64"`
}
type Odd6 struct {
	mp4.Box
	A uint8  `mp4:"0,size=8"`
	V int32  `mp4:"1,varint"`
	B uint32 `mp4:"2,size=32"`
}
type Odd7 struct {
	mp4.Box
	A uint8            `mp4:"0,size=8"`
	M map[uint8]uint16 `mp4:"1,size=8"`
}
type Odd8 struct { // no size
	mp4.Box
	A uint8  `mp4:"0,size=8"`
	B uint32 `mp4:"1"`
	C uint8  `mp4:"2,size=8"`
}
type Odd9 struct { // no size
	mp4.Box
	B []int16 `mp4:"1"`
}
type Odd10In struct{}
type Odd10 struct { // elements without fields
	mp4.Box
	A uint8     `mp4:"0,size=8"`
	B []Odd10In `mp4:"1"`
}
type Odd11 struct { // elements that do not fill bytes
	mp4.Box
	A uint8    `mp4:"0,size=4"`
	B []uint16 `mp4:"1,size=12"`
}

func (b *Odd2) GetFieldLength(string, mp4.Context) uint { return uint(b.N) }
func (b *Odd3) GetFieldLength(string, mp4.Context) uint { return uint(b.N) }
func (*Odd0) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od00") }
func (*Odd1) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od01") }
func (*Odd2) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od02") }
func (*Odd3) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od03") }
func (*Odd4) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od04") }
func (*Odd5) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od05") }
func (*Odd6) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od06") }
func (*Odd7) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od07") }
func (*Odd8) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od08") }
func (*Odd9) GetType() mp4.BoxType                      { return mp4.StrToBoxType("od09") }
func (*Odd10) GetType() mp4.BoxType                     { return mp4.StrToBoxType("od10") }
func (*Odd11) GetType() mp4.BoxType                     { return mp4.StrToBoxType("od11") }

func init() {
	for _, b := range []mp4.IBox{&Odd0{}, &Odd1{}, &Odd2{}, &Odd3{}, &Odd4{}, &Odd5{}, &Odd6{}, &Odd7{}, &Odd8{}, &Odd9{}, &Odd10{}, &Odd11{}} {
		func() {
			defer func() { recover() }() // refusing them here would be as good
			mp4.AddBoxDef(b)
		}()
	}
}

// bw writes bits.
type bw struct {
	b []byte
	n int
}

func (w *bw) put(v uint64, bits int) {
	for i := bits - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 != 0 {
			w.b[w.n/8] |= 0x80 >> uint(w.n%8)
		}
		w.n++
	}
}

// Odd is one value, what may be done with it and its encoding.
type Odd struct {
	Val            mp4.IBox
	Bytes          []byte // padded with zero bits
	Encode, Decode bool   // must succeed; must fail otherwise
	NoEncode       bool   // no claim about encoding
}

// GenOdd draws one.
func GenOdd(e *core.Src) *Odd {
	w := &bw{}
	o := &Odd{}
	whole := func() { o.Encode = w.n%8 == 0; o.Decode = o.Encode }
	switch e.N(12) {
	case 0:
		v := &Odd0{A: uint8(e.N(8)), B: uint16(e.N(512))}
		w.put(uint64(v.A), 3)
		w.put(uint64(v.B), 9)
		o.Val = v
		whole()
	case 1:
		v := &Odd1{C: e.N(2) > 0}
		v.SetFlags(uint32(e.N(8)))
		w.put(uint64(v.GetFlags()), 32)
		if v.GetFlags()&1 != 0 {
			v.A = uint8(e.N(32))
			w.put(uint64(v.A), 5)
		}
		if v.GetFlags()&2 != 0 {
			v.B = int8(e.N(8)) - 4
			w.put(uint64(v.B), 3)
		}
		if v.C {
			w.put(255, 8)
		} else {
			w.put(0, 8)
		}
		o.Val = v
		whole()
	case 2:
		v := &Odd2{N: uint8(e.N(6)), X: []int16{}}
		w.put(uint64(v.N), 8)
		for i := 0; i < int(v.N); i++ {
			v.X = append(v.X, int16(e.N(4096))-2048)
			w.put(uint64(v.X[i]), 12)
		}
		o.Val = v
		whole()
	case 3:
		v := &Odd3{N: uint8(e.N(26)), X: []bool{}}
		w.put(uint64(v.N), 8)
		for i := 0; i < int(v.N); i++ {
			v.X = append(v.X, e.N(2) > 0)
			x := uint64(0)
			if v.X[i] {
				x = 1
			}
			w.put(x, 1)
		}
		for i := 0; i < 3; i++ {
			v.Y = append(v.Y, byte(e.N(256)))
			w.put(uint64(v.Y[i]), 8)
		}
		for n := e.N(4); n > 0; n-- {
			c := byte(1 + e.N(255))
			v.Z += string([]byte{c})
			w.put(uint64(c), 8)
		}
		w.put(0, 8)
		for i := range v.W {
			v.W[i] = byte(e.N(256))
			w.put(uint64(v.W[i]), 8)
		}
		o.Val = v
		whole()
	case 4:
		n := e.N(7)
		v := &Odd4{B: byte(e.N(256))}
		v.In.A = byte(e.N(256))
		w.put(uint64(v.In.A), 8)
		for i := 0; i < n; i++ {
			c := byte(1 + e.N(255))
			v.In.S += string([]byte{c})
			w.put(uint64(c), 8)
		}
		w.put(0, 8)
		if e.N(2) > 0 {
			for w.n < 64 {
				w.put(uint64(e.N(256)), 8)
			}
		}
		w.put(uint64(v.B), 8)
		o.Val = v
		o.Decode = n == 6
		o.Encode, o.NoEncode = n == 6, n < 6
	case 5, 6, 7:
		a := byte(e.N(256))
		w.put(uint64(a), 8)
		for n := e.N(3); n >= 0; n-- {
			w.put(uint64(e.N(128)), 32)
		}
		switch e.N(3) {
		case 0:
			o.Val = &Odd5{A: a, F: 1}
		case 1:
			o.Val = &Odd6{A: a, V: 3, B: 9}
		default:
			o.Val = &Odd7{A: a, M: map[uint8]uint16{1: 2}}
		}
	case 8:
		v := &Odd8{A: byte(e.N(256)), C: byte(e.N(256))}
		w.put(uint64(v.A), 8)
		w.put(uint64(v.C), 8)
		o.Val, o.NoEncode = v, true
	case 9:
		w.put(1, 16*(1+e.N(4)))
		o.Val, o.NoEncode = &Odd9{}, true
	case 10:
		w.put(1, 8*(2+e.N(4)))
		o.Val, o.NoEncode = &Odd10{}, true
	default:
		v := &Odd11{A: byte(e.N(16)), B: []uint16{}}
		w.put(uint64(v.A), 4)
		for n := e.N(6); n > 0; n-- {
			x := uint16(e.N(4096))
			v.B = append(v.B, x)
			w.put(uint64(x), 12)
		}
		o.Val = v
		whole()
	}
	o.Bytes = w.b
	return o
}
