package userbox

import (
	"fmt"

	"github.com/abema/go-mp4"
	"verifsim/core"
)

// R0..R3 are small boxes registered many times, for different contexts.
type R0 struct {
	mp4.AnyTypeBox
	V uint8 `mp4:"1,size=8"`
}
type R1 struct {
	mp4.AnyTypeBox
	V uint16 `mp4:"1,size=16"`
}
type R2 struct {
	mp4.AnyTypeBox
	mp4.FullBox `mp4:"0,extend"`
	V           uint32 `mp4:"1,size=32"`
}
type R3 struct {
	mp4.AnyTypeBox
	V []Octet `mp4:"1,size=8"`
}

// Q0 and Q1 are registered without the any-type machinery under one code.
type Q0 struct {
	mp4.FullBox `mp4:"0,extend"`
	V           uint8 `mp4:"1,size=8"`
}
type Q1 struct {
	mp4.Box
	V int16 `mp4:"1,size=16"`
}

func (*Q0) GetType() mp4.BoxType { return mp4.StrToBoxType("rqqq") }
func (*Q1) GetType() mp4.BoxType { return mp4.StrToBoxType("rqqq") }

// Reg is one registration.
type Reg struct {
	Name     string // of the Go type
	Pred     int
	Versions []uint8
}

var preds = []func(mp4.Context) bool{
	nil,
	func(c mp4.Context) bool { return c.UnderWave },
	func(c mp4.Context) bool { return !c.UnderWave && c.UnderUdta },
	func(c mp4.Context) bool { return c.IsQuickTimeCompatible },
	func(c mp4.Context) bool { return c.UnderIlst },
	func(c mp4.Context) bool { return c.QuickTimeKeysMetaEntryCount >= 3 },
	func(c mp4.Context) bool { return c.UnderIlstMeta != c.UnderIlstFreeMeta },
	func(c mp4.Context) bool { return false },
}

// Regs are the registrations of each type, in the order they were made. The
// first ones of types the library supports are its own (marked by Name "").
var Regs = map[mp4.BoxType][]Reg{}
var RegTypes []mp4.BoxType

// Latest gives the registration that applies (nil: the library's own, or none).
func Latest(t mp4.BoxType, c mp4.Context) *Reg {
	rs := Regs[t]
	for i := len(rs) - 1; i >= 0; i-- {
		if p := preds[rs[i].Pred]; p == nil || p(c) {
			return &rs[i]
		}
	}
	return nil
}

// Refused is set when the library refuses the registration of a type.
var Refused string

func register(f func()) {
	defer func() {
		if r := recover(); r != nil && Refused == "" {
			Refused = fmt.Sprint(r)
		}
	}()
	f()
}

func init() {
	s := core.NewSub(20260918)
	var types []mp4.BoxType
	for i := 0; i < 24; i++ {
		types = append(types, mp4.StrToBoxType(fmt.Sprintf("r%03d", i)))
	}
	types = append(types, mp4.BoxType{0, 0, 0, 2}, mp4.BoxType{0, 0, 0, 4}, mp4.StrToBoxType("rqqq"), mp4.StrToBoxType("ctts"), mp4.StrToBoxType("free"))
	for _, t := range types {
		RegTypes = append(RegTypes, t)
		n := 1 + s.N(6)
		for i := 0; i < n; i++ {
			p := 1 + s.N(len(preds)-1)
			if s.N(4) == 0 && t[0] == 'r' {
				p = 0
			}
			var vs []uint8
			for s.N(2) == 0 && len(vs) < 4 {
				vs = append(vs, uint8(s.N(5)))
			}
			r := Reg{Pred: p, Versions: vs}
			if t == mp4.StrToBoxType("rqqq") {
				var v mp4.IBox = &Q0{}
				r.Name = "Q0"
				if s.N(2) == 0 {
					v, r.Name = &Q1{}, "Q1"
				}
				if p == 0 {
					register(func() { mp4.AddBoxDef(v, vs...) })
				} else {
					register(func() { mp4.AddBoxDefEx(v, preds[p], vs...) })
				}
			} else {
				k := s.N(4)
				v := []mp4.IAnyType{&R0{}, &R1{}, &R2{}, &R3{}}[k]
				r.Name = fmt.Sprintf("R%d", k)
				if p == 0 {
					register(func() { mp4.AddAnyTypeBoxDef(v, t, vs...) })
				} else {
					register(func() { mp4.AddAnyTypeBoxDefEx(v, t, preds[p], vs...) })
				}
			}
			Regs[t] = append(Regs[t], r)
		}
	}
}
