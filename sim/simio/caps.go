package simio

import (
	"io"

	"verifsim/core"
)

// Streams of the wild implement more than io.ReadWriteSeeker: an *os.File reads
// and writes at an offset, a *bytes.Reader knows its length, hands out single
// bytes and writes itself to a writer. Caps selects what a simulated stream
// offers beyond the three methods; nothing observable may depend on it.
const (
	CapNone  = iota
	CapAt    // io.ReaderAt, io.WriterAt
	CapTo    // io.WriterTo, io.ReaderFrom
	CapBytes // io.ByteScanner, io.ByteWriter, io.StringWriter, Len, Size
	CapAll
	capKinds
)

var CapNames = []string{"plain", "at", "copy", "bytes", "all"}

// DrawCaps draws an interface set; the simple choice is the plain stream.
func DrawCaps(s *core.Src) int {
	if !s.P(1, 3) {
		return CapNone
	}
	return 1 + s.N(capKinds-1)
}

// RS is the stream with the interface set it has been given.
func (s *Stream) RS() io.ReadWriteSeeker {
	switch s.Caps {
	case CapAt:
		return struct {
			rws
			at
		}{rws{s}, at{s}}
	case CapTo:
		return struct {
			rws
			to
		}{rws{s}, to{s}}
	case CapBytes:
		return struct {
			rws
			by
		}{rws{s}, by{s}}
	case CapAll:
		return struct {
			rws
			at
			to
			by
		}{rws{s}, at{s}, to{s}, by{s}}
	}
	return s
}

type rws struct{ s *Stream }

func (x rws) Read(p []byte) (int, error)         { return x.s.Read(p) }
func (x rws) Write(p []byte) (int, error)        { return x.s.Write(p) }
func (x rws) Seek(o int64, w int) (int64, error) { return x.s.Seek(o, w) }

type at struct{ s *Stream }

// ReadAt leaves the position alone and, as its contract demands, returns an
// error with every short count.
func (x at) ReadAt(p []byte, off int64) (n int, err error) {
	if off < 0 {
		return 0, errNeg
	}
	pos := x.s.Pos
	x.s.Pos = off
	for n < len(p) && err == nil {
		var k int
		k, err = x.s.Read(p[n:])
		n += k
	}
	if n == len(p) && err == io.EOF {
		err = nil
	}
	x.s.Pos = pos
	return n, err
}

func (x at) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errNeg
	}
	pos := x.s.Pos
	x.s.Pos = off
	n, err := x.s.Write(p)
	x.s.Pos = pos
	return n, err
}

type to struct{ s *Stream }

func (x to) WriteTo(w io.Writer) (int64, error)  { return pump(w, x.s) }
func (x to) ReadFrom(r io.Reader) (int64, error) { return pump(x.s, r) }

func pump(w io.Writer, r io.Reader) (n int64, err error) {
	b := make([]byte, 4096)
	for {
		k, rerr := r.Read(b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
			if m < k {
				return n, io.ErrShortWrite
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

type by struct{ s *Stream }

func (x by) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := x.s.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (x by) UnreadByte() error {
	if x.s.Pos == 0 {
		return errNeg
	}
	x.s.Pos--
	return nil
}

func (x by) WriteByte(c byte) error {
	_, err := x.s.Write([]byte{c})
	return err
}

func (x by) WriteString(v string) (int, error) { return x.s.Write([]byte(v)) }

func (x by) Len() int {
	if n := x.s.St.Size() - x.s.Pos; n > 0 {
		return int(n)
	}
	return 0
}

func (x by) Size() int64 { return x.s.St.Size() }
