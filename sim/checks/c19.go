package checks

import (
	"encoding/binary"
	"io"
	"math"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C19", Quick: 10000000, Thorough: 300000000, Run: c19, Real: realLib, Stub: stubIO,
		Rule:   "a run writes a header with a drawn type, size (biased to the boundaries of 8, 16, 2^31, 2^32, 2^63), style and context at a drawn position (up to 2^62 on a sparse device) over existing bytes, compares the device and the returned description with the reference, reads it back under a seeded delivery and seeks to its start, payload and end; or reads drawn header bytes (including sizes smaller than the header, extents beyond any position, headers cut at any byte) and compares with the reference; faults are truncation, failing reads and seeks",
		Assume: []string{"a size announced for another header style than the one written is only recomputed in the returned description (as the repository's tests pin)"}})
}

func drawSize(e *core.Env) uint64 {
	switch e.Pick(3, 3, 3, 2, 2, 2) {
	case 0:
		return uint64(8 + e.N(200))
	case 1:
		return uint64(e.N(20))
	case 2:
		return math.MaxUint32 - 10 + e.U64n(24)
	case 3:
		return 1<<31 - 5 + e.U64n(10)
	case 4:
		return e.U64n(1 << uint(e.Range(1, 63)))
	default:
		return math.MaxInt64 - 40 + e.U64n(80)
	}
}

func drawFar(e *core.Env) int64 {
	switch e.Pick(3, 3, 2, 1, 1) {
	case 0:
		return 0
	case 1:
		return int64(e.N(300))
	case 2:
		return 1<<32 - 20 + int64(e.N(40))
	case 3:
		return int64(e.U64n(1 << 44))
	default:
		return int64(1)<<62 - int64(e.N(100)) - 40
	}
}

// refHeader is what a header at off in a file of the given length means; ok=false: it must be refused.
func refHeader(b []byte, off, file int64) (size uint64, hdr uint64, eof bool, ok bool) {
	if len(b) < 8 {
		return 0, 0, false, false
	}
	size, hdr = uint64(binary.BigEndian.Uint32(b)), 8
	switch size {
	case 0:
		return uint64(file - off), 8, true, true
	case 1:
		if len(b) < 16 {
			return 0, 0, false, false
		}
		size, hdr = binary.BigEndian.Uint64(b[8:]), 16
	}
	ok = size >= hdr && size <= math.MaxInt64-uint64(off)
	return
}

func c19(e *core.Env) {
	off := drawFar(e)
	tail := garbage(e, e.N(60))
	st := simio.NewSparse()
	st.N = off
	if off > 0 {
		b := garbage(e, e.N(10))
		if int64(len(b)) > off {
			b = b[:off]
		}
		st.WriteAt(b, off-int64(len(b)))
	}
	if len(tail) > 0 {
		st.WriteAt(tail, off)
	}
	typ := mp4.BoxType{}
	binary.BigEndian.PutUint32(typ[:], uint32(e.U64()))
	e.NonTriv = true
	if e.P(1, 2) {
		readRaw(e, st, off, typ)
		return
	}
	bi := &mp4.BoxInfo{Type: typ, Size: drawSize(e), HeaderSize: []uint64{8, 16, 0}[e.Pick(4, 3, 1)], Offset: e.U64(), ExtendToEOF: e.P(1, 6)}
	if e.P(1, 4) {
		bi.Context = drawCtx(e)
	}
	in := *bi
	e.Label = "write"
	e.Logf("write %+v at %d", in, off)
	img := clone(st)
	s := simio.New(e, st)
	s.Pos = off
	s.Caps = simio.DrawCaps(e.Src)
	var out *mp4.BoxInfo
	var err error
	sut(e, "write header", func() { out, err = mp4.WriteBoxInfo(s.RS(), bi) })
	e.Evals++
	if err != nil {
		e.Fail("write-error", "writing header %+v at %d gives error %v", in, off, err)
	}
	m := &wmodel{st: img, pos: off}
	n := &wnode{typ: typ, eof: in.ExtendToEOF, hdr: 8}
	if !n.eof && (in.HeaderSize == 16 || in.Size > math.MaxUint32) {
		n.hdr = 16
	}
	m.write(m.header(n, in.Size))
	if d := sameImage(img, st, 0, 0); d != "" {
		e.Fail("header-bytes", "header %+v at %d: expected and written device differ: %s", in, off, d)
	}
	want := mp4.BoxInfo{Offset: uint64(off), Size: in.Size - in.HeaderSize + uint64(n.hdr), HeaderSize: uint64(n.hdr), Type: typ, ExtendToEOF: n.eof}
	got := *out
	got.Context = mp4.Context{}
	if got != want {
		e.Fail("returned-info", "writing header %+v at %d returns %+v, expected %+v", in, off, got, want)
	}
	if s.Pos != off+n.hdr {
		e.Fail("position", "after the header the stream is at %d, not at %d", s.Pos, off+n.hdr)
	}
	if e.P(1, 3) { // more of the file behind it
		st.N += int64(e.U64n(1 << 40))
	}
	back := readBack(e, st, off, typ)
	if back != nil && (n.eof || n.hdr == int64(in.HeaderSize) && in.Size >= in.HeaderSize) {
		e.Probe("round-trip")
		if !n.eof && *back != want {
			e.Fail("round-trip", "header %+v at %d reads back as %+v", want, off, *back)
		}
		if back.ExtendToEOF != n.eof || back.HeaderSize != uint64(n.hdr) || back.Type != typ {
			e.Fail("round-trip", "header %+v at %d reads back as %+v", want, off, *back)
		}
	}
}

// readRaw reads drawn header bytes, possibly cut short.
func readRaw(e *core.Env, st *simio.Sparse, off int64, typ mp4.BoxType) {
	h := make([]byte, 16)
	e.Sub().Fill(h)
	size := drawSize(e)
	switch e.Pick(3, 3, 1) {
	case 0:
		binary.BigEndian.PutUint32(h, uint32(size))
	case 1:
		binary.BigEndian.PutUint32(h, 1)
		binary.BigEndian.PutUint64(h[8:], size)
		if e.P(1, 4) {
			binary.BigEndian.PutUint64(h[8:], e.U64())
		}
	case 2:
		binary.BigEndian.PutUint32(h, 0)
	}
	copy(h[4:], typ[:])
	st.WriteAt(h, off)
	if e.P(1, 5) {
		e.Faults["truncated-header"]++
		st.Truncate(off + int64(e.N(17)))
	} else if e.P(1, 2) {
		st.N += int64(e.U64n(1 << 40))
	}
	e.Label = "read"
	readBack(e, st, off, typ)
}

func readBack(e *core.Env, st *simio.Sparse, off int64, typ mp4.BoxType) *mp4.BoxInfo {
	b := make([]byte, 16)
	b = b[:st.ReadAt(b, off)]
	size, hdr, eof, ok := refHeader(b, off, st.N)
	d := simio.DrawDelivery(e.Src)
	rd := simio.New(e, st).With(d)
	rd.ROnly = true
	rd.Pos = off
	faulty := e.P(1, 6)
	if faulty {
		rd.Faults = simio.DrawReadFaults(e.Src, 6, 1, e.P(1, 4))
	}
	rd.LogReads = true
	var got *mp4.BoxInfo
	var err error
	sut(e, "read header", func() { got, err = mp4.ReadBoxInfo(rd) })
	e.Evals++
	e.Ev('H', uint64(rd.Pos), b2u(err != nil))
	if rd.FiredE > 0 {
		if err == nil {
			e.Fail("fault-hidden", "reading a header met %d faults and reports success", rd.FiredE)
		}
		return nil
	}
	if !ok {
		e.Probe("refused")
		if err == nil {
			e.Fail("bad-header-accepted", "header bytes %x at %d are read as %+v", b, off, *got)
		}
		return nil
	}
	if err != nil {
		if rd.Fired > 0 { // stalled
			return nil
		}
		e.Fail("header-refused", "header bytes %x at %d in a file of %d bytes give error %v", b, off, st.N, err)
	}
	want := mp4.BoxInfo{Offset: uint64(off), Size: size, HeaderSize: hdr, Type: typ, ExtendToEOF: eof}
	if *got != want {
		e.Fail("header-value", "header bytes %x at %d read as %+v, expected %+v", b, off, *got, want)
	}
	if rd.Pos != off+int64(hdr) {
		e.Fail("position", "after reading the header the stream is at %d, not at %d", rd.Pos, off+int64(hdr))
	}
	if !faulty {
		for _, r := range rd.Reads {
			if r.Off < off || r.Off+r.Len > off+int64(hdr) {
				e.Fail("reads-outside", "reading a header of %d bytes at %d read %d bytes at %d", hdr, off, r.Len, r.Off)
			}
		}
	}
	rd.Faults = nil
	for i := 0; i < 3; i++ {
		var p int64
		var err error
		to := off
		sut(e, "seek", func() {
			switch e.N(3) {
			case 0:
				p, err = got.SeekToStart(rd)
			case 1:
				p, err = got.SeekToPayload(rd)
				to += int64(hdr)
			default:
				p, err = got.SeekToEnd(rd)
				to += int64(size)
			}
		})
		e.Evals++
		if err != nil || p != to || rd.Pos != to {
			e.Fail("seek", "seeking in %+v to %d goes to %d (reported %d, error %v)", want, to, rd.Pos, p, err)
		}
		if e.P(1, 2) {
			rd.Seek(int64(e.U64n(1<<40)), io.SeekStart)
		}
	}
	if e.P(1, 8) {
		rd.Faults = []simio.Fault{{Op: rd.Ops, Kind: simio.FErr}}
		if _, err := got.SeekToEnd(rd); err == nil {
			e.Fail("fault-hidden", "a failing seek is reported as success")
		}
	}
	return got
}
