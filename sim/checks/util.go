// Package checks holds one simulated check per property.
package checks

import (
	"errors"
	"fmt"
	"io"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

const libReal = "github.com/abema/go-mp4 (all of its scanning, decoding, encoding, writing, extraction and probing code)"

var realLib = []string{libReal, "github.com/abema/go-mp4/internal/bitio", "github.com/abema/go-mp4/internal/util", "Go io, bytes, encoding/binary, reflect"}
var stubIO = []string{"the io.ReadSeeker / io.WriteSeeker the library is given (simulated device: delivery, faults, storage)"}

// typeCtx is a supported (type, context) pair.
type typeCtx struct {
	t mp4.BoxType
	c mp4.Context
}

// drawType draws a supported type together with a context in which it is supported.
func drawType(e *core.Env) typeCtx {
	for try := 0; ; try++ {
		d := model.Defs[e.N(len(model.Defs))]
		c := drawCtx(e)
		if try > 200 {
			core.Bug("no context for %s", d.Name)
		}
		if len(d.Types) == 0 { // numbered item
			c.UnderIlst = true
			if c.QuickTimeKeysMetaEntryCount < 1 {
				c.QuickTimeKeysMetaEntryCount = 1 + e.N(300)
			}
			id := 1 + e.N(c.QuickTimeKeysMetaEntryCount)
			t := mp4.BoxType{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)}
			return typeCtx{t, c}
		}
		t := d.Types[e.N(len(d.Types))]
		if d.Ctx != nil && !d.Ctx(c) {
			switch d.Name {
			case "data":
				c.UnderIlst, c.UnderIlstMeta = true, true
			case "3gpp-string":
				c.UnderUdta = true
			case "ilst-item":
				c.UnderIlst, c.UnderIlstMeta = true, false
			case "freeform-string":
				c.UnderIlst, c.UnderIlstMeta, c.UnderIlstFreeMeta = true, true, true
			}
		}
		if dd := model.Lookup(t, c); dd == nil {
			continue
		}
		return typeCtx{t, c}
	}
}

// drawHuge draws a payload with an array of more than 65535 elements (usually).
func drawHuge(e *core.Env) (typeCtx, *model.Payload) {
	for try := 0; ; try++ {
		tc := drawType(e)
		p := model.GenHuge(e.Src, tc.t, tc.c)
		if len(p.Bytes) >= 65535 || try >= 6 {
			e.Probe("huge-array")
			return tc, p
		}
	}
}

// drawCtx draws a decoding context; the simple choice is the empty one.
func drawCtx(e *core.Env) mp4.Context {
	var c mp4.Context
	if e.P(1, 2) {
		b := e.N(64)
		c.IsQuickTimeCompatible = b&1 != 0
		c.UnderWave = b&2 != 0
		c.UnderIlst = b&4 != 0
		c.UnderIlstMeta = b&8 != 0
		c.UnderIlstFreeMeta = b&16 != 0
		c.UnderUdta = b&32 != 0
		if e.P(1, 4) {
			c.QuickTimeKeysMetaEntryCount = e.N(1000)
		}
	}
	return c
}

// at places bytes in a store at an offset, dense when the offset is small.
func at(off int64, before, data, after []byte) simio.Store {
	if off < 1<<16 {
		b := make([]byte, off, int(off)+len(data)+len(after))
		k := min(int(off), len(before))
		copy(b[int(off)-k:], before[len(before)-k:])
		b = append(b, data...)
		b = append(b, after...)
		return &simio.Mem{B: b}
	}
	s := simio.NewSparse()
	s.WriteAt(before, off-int64(len(before)))
	s.WriteAt(data, off)
	s.WriteAt(after, off+int64(len(data)))
	if s.N < off+int64(len(data)) {
		s.N = off + int64(len(data))
	}
	return s
}

// drawOff draws a stream position: usually small, sometimes beyond 4 GiB.
func drawOff(e *core.Env) int64 {
	switch e.Pick(4, 4, 1, 1) {
	case 0:
		return 0
	case 1:
		return int64(e.N(300))
	case 2:
		return int64(1)<<32 - 20 + int64(e.N(60))
	default:
		return int64(e.U64n(1 << 44))
	}
}

func garbage(e *core.Env, n int) []byte {
	b := make([]byte, n)
	if n > 0 {
		e.Sub().Fill(b)
	}
	return b
}

// sut runs library code; a panic in it is a violation of class "panic".
func sut(e *core.Env, what string, f func()) {
	if v := core.Protect(f); v != nil {
		if v.Class == "panic" {
			v.Msg = what + ": " + v.Msg
		}
		panic(v)
	}
}

func pos(s *simio.Stream) int64 { return s.Pos }

func sameErr(a, b error) bool { return (a == nil) == (b == nil) }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func hashBytes(e *core.Env, k byte, p []byte) {
	h := uint64(14695981039346656037)
	for _, c := range p {
		h = (h ^ uint64(c)) * 1099511628211
	}
	e.Ev(k, h, uint64(len(p)))
}

var errHandler = errors.New("handler error")

var _ = fmt.Sprint
var _ = io.EOF
