// Package simio is the simulated device: storage (dense or sparse), and streams
// over it with seeded delivery, faults placed by operation index, mutations
// while reading, an access log and a write log.
package simio

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"

	"verifsim/core"
)

// Store is the storage behind streams.
type Store interface {
	ReadAt(p []byte, off int64) int // bytes available
	WriteAt(p []byte, off int64)
	Size() int64
	Truncate(n int64)
}

// Mem is a dense store.
type Mem struct{ B []byte }

func (m *Mem) ReadAt(p []byte, off int64) int {
	if off >= int64(len(m.B)) || off < 0 {
		return 0
	}
	return copy(p, m.B[off:])
}
func (m *Mem) WriteAt(p []byte, off int64) {
	end := off + int64(len(p))
	if end > int64(len(m.B)) {
		if end > 1<<28 {
			core.Bug("dense store too large: %d", end)
		}
		if end <= int64(cap(m.B)) {
			o := len(m.B)
			m.B = m.B[:end]
			for i := o; i < int(off); i++ {
				m.B[i] = 0
			}
		} else {
			nb := make([]byte, end, end+end/2+64)
			copy(nb, m.B)
			m.B = nb
		}
	}
	copy(m.B[off:], p)
}
func (m *Mem) Size() int64 { return int64(len(m.B)) }
func (m *Mem) Truncate(n int64) {
	if n <= int64(len(m.B)) {
		m.B = m.B[:n:n]
		return
	}
	nb := make([]byte, n)
	copy(nb, m.B)
	m.B = nb
}

const page = 4096

// Sparse is a store of up to 2^62 bytes; unwritten ranges read as zero.
type Sparse struct {
	P map[int64]*[page]byte
	N int64
}

func NewSparse() *Sparse      { return &Sparse{P: map[int64]*[page]byte{}} }
func (s *Sparse) Size() int64 { return s.N }
func (s *Sparse) ReadAt(p []byte, off int64) int {
	if off >= s.N || off < 0 {
		return 0
	}
	if int64(len(p)) > s.N-off {
		p = p[:s.N-off]
	}
	n := 0
	for n < len(p) {
		o := off + int64(n)
		k := int(o % page)
		c := page - k
		if c > len(p)-n {
			c = len(p) - n
		}
		if pg := s.P[o/page]; pg != nil {
			copy(p[n:n+c], pg[k:])
		} else {
			for i := n; i < n+c; i++ {
				p[i] = 0
			}
		}
		n += c
	}
	return n
}
func (s *Sparse) WriteAt(p []byte, off int64) {
	n := 0
	for n < len(p) {
		o := off + int64(n)
		k := int(o % page)
		c := page - k
		if c > len(p)-n {
			c = len(p) - n
		}
		pg := s.P[o/page]
		if pg == nil {
			pg = new([page]byte)
			s.P[o/page] = pg
		}
		copy(pg[k:k+c], p[n:n+c])
		n += c
	}
	if off+int64(len(p)) > s.N {
		s.N = off + int64(len(p))
	}
}
func (s *Sparse) Truncate(n int64) { s.N = n }

// Delivery decides how many bytes one Read delivers.
type Delivery struct {
	Mode    int // 0 whole request, 1 one byte, 2 random short, 3 at most Max, 4 mixed whole/short, 5 cut at block boundaries
	Max     int
	EOFData bool // the last bytes come together with io.EOF
	Seed    uint64
	Caps    int
}

func (d Delivery) Name() string {
	n := []string{"whole", "one-byte", "random-short", "max-n", "mixed", "blocks"}[d.Mode]
	if d.EOFData {
		n += "+eof"
	}
	if d.Caps != CapNone {
		n += "+" + CapNames[d.Caps]
	}
	return n
}

// DrawDelivery draws a delivery style; the simple choice is whole requests.
func DrawDelivery(s *core.Src) Delivery {
	d := Delivery{Mode: s.Pick(3, 2, 3, 2, 3, 2)}
	if d.Mode == 3 || d.Mode == 5 {
		d.Max = []int{2, 3, 7, 16, 61, 512}[s.N(6)]
	}
	d.EOFData = s.P(1, 2)
	d.Caps = DrawCaps(s)
	if d.Mode == 2 || d.Mode == 4 {
		d.Seed = s.U64()
	}
	return d
}

type FaultKind int

const (
	FNone       FaultKind = iota
	FErr                  // error, nothing transferred
	FPartialErr           // some bytes transferred, then an error
	FUnexpected           // io.ErrUnexpectedEOF
	FStall                // (0, nil), the next call goes on
	FSilentCut            // never used for streams; reserved
)

var FaultNames = []string{"none", "error", "partial+error", "unexpected-eof", "stall", "cut"}

// Fault is applied at operation index Op (reads and seeks share one counter; writes too).
type Fault struct {
	Op   uint64
	Kind FaultKind
	Frac uint64 // how much of a partial transfer goes through
	Rep  int    // number of consecutive operations affected (0 = 1)
	Err  int    // which error is given
}

// err is the error a fault gives: mostly one nobody knows, sometimes one that
// has a meaning elsewhere.
func (f *Fault) err(op string) error {
	switch f.Err {
	case 1:
		return &fs.PathError{Op: op, Path: "simulated", Err: syscall.EIO}
	case 2:
		return syscall.EINTR
	case 3:
		return os.ErrDeadlineExceeded // a timeout, temporary
	case 4:
		return io.ErrNoProgress
	case 5:
		return io.ErrShortBuffer
	case 6:
		return io.ErrShortWrite
	case 7:
		return io.ErrClosedPipe
	case 8:
		return fmt.Errorf("%s: %w", op, io.ErrUnexpectedEOF)
	case 9:
		return fs.ErrInvalid
	}
	return &core.InjectedError{Op: op}
}

const errKinds = 10

func drawErr(c *core.Src) int {
	if c.P(1, 2) {
		return c.N(errKinds)
	}
	return 0
}

type Span struct{ Off, Len int64 }

type Write struct {
	Off  int64
	Data []byte
}

// Stream is the simulated io.ReadWriteSeeker.
type Stream struct {
	E      *core.Env
	St     Store
	Pos    int64
	D      Delivery
	Faults []Fault
	sub    *core.Sub

	Ops    uint64 // operations so far
	OpCap  uint64 // 0 = none: exceeding it is a violation
	Fired  int    // faults that hit an operation
	FiredE int    // of those, errors (not stalls)
	Stalls int

	LogReads  bool
	Reads     []Span
	LogWrites bool
	Writes    []Write
	Capacity  int64 // >0: disk full beyond it
	OnOp      func(op uint64)
	ReadBytes int64
	MaxReq    int64
	Quiet     bool // no event hashing (used for reference runs)
	ROnly     bool
	Caps      int // interfaces offered beyond the three
}

func New(e *core.Env, st Store) *Stream { return &Stream{E: e, St: st} }

// NewBytes is a contiguous read-only stream over b.
func NewBytes(e *core.Env, b []byte) *Stream { return &Stream{E: e, St: &Mem{B: b}} }

func (s *Stream) With(d Delivery) *Stream {
	s.D = d
	s.Caps = d.Caps
	s.sub = core.NewSub(d.Seed)
	return s
}

func (s *Stream) ev(k byte, a, b uint64) {
	if !s.Quiet {
		s.E.Ev(k, a, b)
	}
	s.E.Tick()
}

func (s *Stream) begin() *Fault {
	op := s.Ops
	s.Ops++
	if s.OpCap != 0 && s.Ops > s.OpCap {
		s.E.Fail("io-steps", "the operation used more than %d stream operations (position %d, size %d)", s.OpCap, s.Pos, s.St.Size())
	}
	if s.OnOp != nil {
		s.OnOp(op)
	}
	for i := range s.Faults {
		f := &s.Faults[i]
		rep := uint64(f.Rep)
		if rep == 0 {
			rep = 1
		}
		if op >= f.Op && op < f.Op+rep {
			return f
		}
	}
	return nil
}

var errNeg = errors.New("simio: negative position")

func (s *Stream) Read(p []byte) (int, error) {
	f := s.begin()
	if len(p) == 0 {
		return 0, nil
	}
	if int64(len(p)) > s.MaxReq {
		s.MaxReq = int64(len(p))
	}
	want := len(p)
	avail := s.St.Size() - s.Pos
	if f != nil {
		s.Fired++
		switch f.Kind {
		case FErr:
			s.FiredE++
			s.E.Fault("read-error")
			s.ev('e', uint64(s.Pos), 0)
			return 0, f.err("read")
		case FUnexpected:
			s.FiredE++
			s.E.Fault("read-unexpected-eof")
			s.ev('e', uint64(s.Pos), 1)
			return 0, io.ErrUnexpectedEOF
		case FStall:
			s.Stalls++
			s.E.Fault("read-stall")
			s.ev('z', uint64(s.Pos), 0)
			return 0, nil
		case FPartialErr:
			s.FiredE++
			s.E.Fault("read-partial+error")
			n := int(f.Frac % uint64(want)) // always fewer than asked for
			n = s.St.ReadAt(p[:n], s.Pos)
			s.note(n)
			s.Pos += int64(n)
			s.ev('e', uint64(s.Pos), uint64(n)+2)
			return n, f.err("read")
		}
	}
	if avail <= 0 {
		s.ev('f', uint64(s.Pos), uint64(want))
		return 0, io.EOF
	}
	n := want
	switch s.D.Mode {
	case 1:
		n = 1
	case 2:
		n = 1 + s.sub.N(want)
	case 3:
		if n > s.D.Max {
			n = s.D.Max
		}
	case 4:
		if s.sub.N(2) == 0 {
			n = 1 + s.sub.N(want)
		}
	case 5:
		b := int64(s.D.Max)
		if lim := b - s.Pos%b; int64(n) > lim {
			n = int(lim)
		}
	}
	n = s.St.ReadAt(p[:n], s.Pos)
	s.note(n)
	s.Pos += int64(n)
	s.ev('r', uint64(s.Pos), uint64(n))
	if n < want && s.Pos < s.St.Size() {
		s.E.Faults["short-read"]++
	}
	if s.D.EOFData && s.Pos >= s.St.Size() {
		s.E.Faults["data+EOF"]++
		return n, io.EOF
	}
	return n, nil
}

func (s *Stream) note(n int) {
	s.ReadBytes += int64(n)
	if !s.LogReads || n == 0 {
		return
	}
	if k := len(s.Reads); k > 0 && s.Reads[k-1].Off+s.Reads[k-1].Len == s.Pos {
		s.Reads[k-1].Len += int64(n)
		return
	}
	s.Reads = append(s.Reads, Span{s.Pos, int64(n)})
}

func (s *Stream) Seek(off int64, whence int) (int64, error) {
	f := s.begin()
	if f != nil && f.Kind != FStall {
		s.Fired++
		s.FiredE++
		s.E.Fault("seek-error")
		s.ev('k', uint64(s.Pos), 0)
		return 0, f.err("seek")
	}
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = s.Pos
	case io.SeekEnd:
		base = s.St.Size()
	default:
		return 0, errors.New("simio: bad whence")
	}
	n := base + off
	if n < 0 {
		s.ev('k', uint64(n), 1)
		return 0, errNeg
	}
	s.Pos = n
	s.ev('s', uint64(n), uint64(whence))
	return n, nil
}

func (s *Stream) Write(p []byte) (int, error) {
	f := s.begin()
	if s.ROnly {
		s.E.Fail("input-modified", "write to a read-only stream")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f != nil && f.Kind != FStall {
		s.Fired++
		s.FiredE++
		if f.Kind == FPartialErr {
			s.E.Fault("short-write+error")
			n := int(f.Frac % uint64(len(p)))
			s.put(p[:n])
			s.ev('E', uint64(s.Pos), uint64(n))
			return n, f.err("write")
		}
		s.E.Fault("write-error")
		s.ev('E', uint64(s.Pos), 0)
		return 0, f.err("write")
	}
	if s.Capacity > 0 && s.Pos+int64(len(p)) > s.Capacity {
		s.Fired++
		s.FiredE++
		s.E.Fault("disk-full")
		n := s.Capacity - s.Pos
		if n < 0 {
			n = 0
		}
		s.put(p[:n])
		s.ev('E', uint64(s.Pos), uint64(n))
		return int(n), &core.InjectedError{Op: "no space left on device"}
	}
	s.put(p)
	s.ev('w', uint64(s.Pos), uint64(len(p)))
	return len(p), nil
}

func (s *Stream) put(p []byte) {
	if len(p) == 0 {
		return
	}
	if s.LogWrites {
		s.Writes = append(s.Writes, Write{s.Pos, append([]byte(nil), p...)})
	}
	s.St.WriteAt(p, s.Pos)
	s.Pos += int64(len(p))
}

// DrawReadFaults places up to max faults on operations of a run known to use total operations.
func DrawReadFaults(c *core.Src, total uint64, max int, stalls bool) []Fault {
	if total == 0 {
		return nil
	}
	n := 1
	if max > 1 {
		n = c.Range(1, max)
	}
	var fs []Fault
	for i := 0; i < n; i++ {
		f := Fault{Op: c.U64n(total)}
		if stalls {
			f.Kind = FStall
			f.Rep = c.Range(1, 3)
		} else {
			f.Kind = []FaultKind{FErr, FPartialErr, FUnexpected}[c.Pick(3, 2, 1)]
			if f.Kind == FPartialErr {
				f.Frac = c.U64n(1 << 20)
			}
		}
		if !stalls {
			f.Err = drawErr(c)
		}
		fs = append(fs, f)
	}
	return fs
}

// DrawWriteFault places one write-side fault.
func DrawWriteFault(c *core.Src, total uint64) []Fault {
	if total == 0 {
		return nil
	}
	f := Fault{Op: c.U64n(total), Kind: FErr}
	if c.P(1, 2) {
		f.Kind = FPartialErr
		f.Frac = c.U64n(1 << 20)
	}
	f.Err = drawErr(c)
	return []Fault{f}
}
