// Package hookchecks holds the check of user-defined boxes (C20).
package hookchecks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/abema/go-mp4"
	"verifsim/checks"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
	"verifsim/userbox"
)

func init() {
	core.Register(&core.Check{ID: "C20", Quick: 1800000, Thorough: 50000000, Run: c20, Real: append([]string{"user code: the declarations and hooks of sim/userbox"}, checks.RealLib...), Stub: checks.StubIO,
		Rule:   "a run draws user-defined boxes of a generated family of 140 declarations (bit widths 1..64, signed, bool, varint, strings, fixed, counted, dynamic and unlimited arrays, nested, sized and pointed-to structures, optional and version-dependent fields, read/write/before hooks) and encodes, decodes, scans and stringifies them over simulated streams, comparing with an independent codec that works from separate specs; hooks check context and remaining-bit counts and are made to fail at a seeded call; payloads are cut, streams faulted, versions made unsupported; and lookups of 29 types with many context-dependent registrations are compared with the list of registrations; types whose values do not always fill bytes or their declared size are encoded and decoded as well",
		Assume: []string{"hooks keep the contract: they report the bits they transferred", "slices hold at least the declared number of elements"}})
}

var errUser = errors.New("error of the user's hook")

type userErr struct{ n int }

func (u *userErr) Error() string { return fmt.Sprint("user error ", u.n) }

func plan(c mp4.Context) *userbox.Plan {
	userbox.P = &userbox.Plan{Ctx: c, FailAt: -1}
	return userbox.P
}

func checkPlan(e *core.Env, t mp4.BoxType, what string) {
	if b := userbox.P.Bad; b != "" {
		e.Fail("hook-call", "%s of %s: %s", what, t, b)
	}
}

func has(vs []uint8, v uint8) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return len(vs) == 0
}

// wantStrs are the questions about Pascal strings that decoding payload asks.
func (it *inst) wantStrs(payload []byte) (r []userbox.Str) {
	if it.whole {
		return
	}
	for _, q := range it.strs {
		pos, end := len(it.pre)+q.Pos, len(payload)
		if q.End > 0 {
			end = len(it.pre) + q.End
		}
		if end-pos < 2 {
			continue
		}
		n := int(payload[pos])
		if n > end-pos-1 {
			continue
		}
		r = append(r, userbox.Str{Name: q.Name, Bytes: string(payload[pos+1 : pos+1+n]), Left: uint64(end - pos - 1 - n)})
	}
	return
}

// draw draws a user box, a value and a context.
type inst struct {
	b     *userbox.B
	ctx   mp4.Context
	val   mp4.IBox
	bytes []byte // of the fields
	pre   []byte // the bytes of the before hook
	calls []userbox.Call
	strs  []userbox.Str
	whole bool // the before hook takes the whole payload
	hdr   int
}

func (it *inst) payload() []byte { return append(append([]byte(nil), it.pre...), it.bytes...) }

func (it *inst) wantCalls(size int) []userbox.Call {
	var r []userbox.Call
	if it.pre != nil {
		r = append(r, userbox.Call{Op: 'b', Left: uint64(size)})
	}
	if it.whole {
		return r
	}
	for _, c := range it.calls {
		if c.Op == 'r' {
			c.Left += 0
		}
		r = append(r, c)
	}
	return r
}

func draw(e *core.Env, loose bool) *inst {
	b := userbox.Boxes[e.N(len(userbox.Boxes))]
	it := &inst{b: b, ctx: checks.DrawCtx(e)}
	plan(it.ctx)
	ver, flags := uint8(0), uint32(0)
	if b.Full {
		ver = uint8(e.Pick(3, 3, 2, 1))
		if ver == 3 {
			ver = uint8(e.N(255))
		}
		if len(b.Versions) > 0 {
			ver = b.Versions[e.N(len(b.Versions))]
		}
		for _, f := range []uint32{1, 2, 4, 0x100} {
			if e.P(1, 2) {
				flags |= f
			}
		}
		if e.P(1, 5) {
			flags |= uint32(e.N(1<<24)) &^ 0x107
		}
	}
	it.val = userbox.Gen(e.Src, b, ver, flags)
	var l *core.Src
	if loose {
		l = e.Src
	}
	it.bytes, it.calls = userbox.Encode(b, it.val, l)
	it.strs = userbox.Strs
	if b.Before > 0 {
		it.pre = checks.Garbage(e, b.Before)
		if it.pre[0] == 0xee {
			it.pre[0] = 1
		}
		if e.P(1, 6) {
			it.pre[0] = 0xee
			it.whole = true
			it.val = b.New()
			if a, ok := it.val.(mp4.IAnyType); ok {
				a.SetType(b.Type)
			}
			e.Probe("before-hook-takes-all")
		}
	}
	return it
}

func c20(e *core.Env) {
	if userbox.Refused != "" {
		e.Fail("registration", "the registration of a user-defined type panics: %s", userbox.Refused)
	}
	switch e.Pick(12, 8, 6, 6, 4, 4, 2, 1) {
	case 0:
		c20decode(e)
	case 1:
		c20encode(e)
	case 2:
		c20hookError(e)
	case 3:
		c20faults(e)
	case 4:
		c20file(e)
	case 5:
		c20registry(e)
	case 6:
		c20short(e)
	default:
		c20odd(e)
	}
}

// c20odd: values whose declaration gives them no encoding in whole bytes are
// refused in both directions, and the others of the same types are not.
func c20odd(e *core.Env) {
	ctx := checks.DrawCtx(e)
	o := userbox.GenOdd(e.Src)
	t := o.Val.GetType()
	plan(ctx)
	e.NonTriv = true
	e.Evals++
	e.Label = fmt.Sprintf("%s %x: encode %v (%v), decode %v", t, o.Bytes, o.Encode, !o.NoEncode, o.Decode)
	if !o.Encode && !o.NoEncode {
		e.Probe("no-encoding")
	}
	if !o.Decode {
		e.Probe("no-decoding")
	}
	checks.Sut(e, "box without encoding", func() {
		if !o.NoEncode {
			var dst bytes.Buffer
			n, err := mp4.Marshal(&dst, o.Val, ctx)
			switch {
			case !o.Encode && err == nil:
				e.Fail("misdeclared-encode", "%s: a value of %x (bits padded) is encoded, %d bytes reported", t, o.Bytes, n)
			case o.Encode && (err != nil || n != uint64(len(o.Bytes)) || !bytes.Equal(dst.Bytes(), o.Bytes)):
				e.Fail("encode", "%s: encoding gives %x, %d bytes, error %v; declared %x", t, dst.Bytes(), n, err, o.Bytes)
			}
		}
		st := simio.NewBytes(e, o.Bytes).With(simio.DrawDelivery(e.Src))
		box, n, err := mp4.UnmarshalAny(st.RS(), t, uint64(len(o.Bytes)), ctx)
		switch {
		case !o.Decode && err == nil:
			e.Fail("misdeclared-decode", "%s: %x is decoded to %+v, %d bytes consumed", t, o.Bytes, box, n)
		case o.Decode && (err != nil || n != uint64(len(o.Bytes))):
			e.Fail("decode", "%s: decoding %x consumes %d bytes, error %v", t, o.Bytes, n, err)
		case o.Decode:
			if d := model.Diff(o.Val, box); d != "" {
				e.Fail("decode", "%s: decoding %x: %s", t, o.Bytes, d)
			}
		}
	})
}

func callsDiff(want, got []userbox.Call) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(want):
			return fmt.Sprintf("call %d: unexpected %s", i, got[i])
		case i >= len(got):
			return fmt.Sprintf("call %d: missing %s", i, want[i])
		case want[i] != got[i]:
			return fmt.Sprintf("call %d: expected %s, got %s", i, want[i], got[i])
		}
	}
	return ""
}

// c20decode decodes several boxes from one stream.
func c20decode(e *core.Env) {
	n := 1 + e.Pick(5, 3, 2)
	base := checks.DrawOff(e)
	var data []byte
	type item struct {
		*inst
		off  int64
		size int
		badV bool
	}
	var items []item
	for i := 0; i < n; i++ {
		it := item{inst: draw(e, e.P(1, 3)), off: base + int64(len(data))}
		p := it.payload()
		if it.b.Full && len(it.b.Versions) > 0 && e.P(1, 8) {
			for p[0] = uint8(e.N(256)); has(it.b.Versions, p[0]); p[0]++ {
			}
			it.badV = true
			e.Probe("unsupported-version")
		}
		it.size = len(p)
		last := it.b.Fields[len(it.b.Fields)-1].Name
		if last == "Tail" && !it.whole && e.P(1, 3) {
			x := checks.Garbage(e, 1+e.N(20))
			p = append(p, x...)
			it.size += len(x)
			for i := range it.calls {
				if it.calls[i].Op == 'r' && !inSized(it.inst, i) {
					it.calls[i].Left += 8 * uint64(len(x))
				}
			}
			e.Probe("bytes-after-the-fields")
		}
		data = append(data, p...)
		items = append(items, it)
		e.Label += fmt.Sprintf("%s/%d ", it.b.Type, it.size)
	}
	d := simio.DrawDelivery(e.Src)
	st := simio.New(e, checks.At(base, nil, data, checks.Garbage(e, e.N(8)))).With(d)
	st.ROnly = true
	st.Pos = base
	e.Label += d.Name()
	for k, again := 0, 0; k < n; k++ {
		it := items[k]
		if st.Pos != it.off {
			st.Pos = it.off
		}
		e.NonTriv = true
		p := plan(it.ctx)
		var box mp4.IBox
		var cnt uint64
		var err error
		checks.Sut(e, "decode "+it.b.Type.String(), func() {
			if e.N(2) == 0 {
				box, cnt, err = mp4.UnmarshalAny(st.RS(), it.b.Type, uint64(it.size), it.ctx)
				return
			}
			if box, err = it.b.Type.New(it.ctx); err == nil {
				cnt, err = mp4.Unmarshal(st.RS(), uint64(it.size), box, it.ctx)
			}
		})
		e.Evals++
		if it.badV {
			if !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
				e.Fail("bad-version", "%s: payload of version %d (registered %v) gives error %v", it.b.Type, data[it.off-base], it.b.Versions, err)
			}
			if st.Pos != it.off {
				e.Fail("bad-version-position", "%s: after refusing a version the stream is at %d, decoding started at %d", it.b.Type, st.Pos, it.off)
			}
			continue
		}
		checkPlan(e, it.b.Type, "decoding")
		if err != nil {
			e.Fail("decode-error", "%s: decoding %d well-formed bytes gives error %v", it.b.Type, it.size, err)
		}
		wantN := len(it.pre) + len(it.bytes)
		if cnt != uint64(wantN) {
			e.Fail("decode-count", "%s: %d bytes reported consumed of %d", it.b.Type, cnt, wantN)
		}
		if dd := model.Diff(it.val, box); dd != "" {
			e.Fail("decode-value", "%s: expected against decoded: %s", it.b.Type, dd)
		}
		if st.Pos != it.off+int64(wantN) {
			e.Fail("decode-position", "%s: stream at %d after decoding, expected %d", it.b.Type, st.Pos, it.off+int64(wantN))
		}
		if dd := callsDiff(it.wantCalls(it.size), p.Calls); dd != "" {
			e.Fail("hook-calls", "%s: hook calls while decoding: %s", it.b.Type, dd)
		}
		strs := it.wantStrs(data[it.off-base:][:it.size])
		if len(strs)+len(p.Strs) > 0 {
			e.Probe("pascal-string-asked")
			if dd := model.Diff(strs, p.Strs); dd != "" {
				e.Fail("hook-calls", "%s: questions about Pascal strings, expected against asked: %s", it.b.Type, dd)
			}
		}
		if e.P(1, 12) && again < 3 { // once more from the same place
			again++
			k--
		} else if !it.whole && e.P(1, 4) {
			stringify(e, it.inst, box)
		}
	}
}

// inSized tells whether a call's remaining-bit count refers to a sized
// structure inside the box: it then does not depend on what follows the box's fields.
func inSized(it *inst, i int) bool {
	name := it.calls[i].Name
	return sizedName(it.b.Fields, name, false)
}

func sizedName(fs []*userbox.F, name string, in bool) bool {
	for _, f := range fs {
		if in && f.Name == name {
			return true
		}
		for x := f; x != nil; x = x.Elem {
			sized := in || x.Kind == "struct" && (x.Sized > 0 || x.DynBits)
			if sizedName(x.Fields, name, sized) {
				return true
			}
		}
	}
	return false
}

func stringify(e *core.Env, it *inst, box mp4.IBox) {
	plan(it.ctx)
	cp := model.DeepCopy(box)
	var s1, s2 string
	var err error
	checks.Sut(e, "stringify "+it.b.Type.String(), func() {
		s1, err = mp4.Stringify(box, it.ctx)
		s2, _ = mp4.StringifyWithIndent(box, "  ", it.ctx)
	})
	if err != nil || s2 == "" && s1 != "" {
		e.Fail("stringify", "%s: rendering gives error %v", it.b.Type, err)
	}
	if d := model.Diff(cp, box); d != "" {
		e.Fail("stringify-modifies", "%s: rendering changed the box: %s", it.b.Type, d)
	}
	checkPlan(e, it.b.Type, "rendering")
}

// writeCalls are the hook calls encoding makes.
func writeCalls(it *inst) []userbox.Call {
	var r []userbox.Call
	for _, c := range it.calls {
		if c.Op == 'r' {
			r = append(r, userbox.Call{Op: 'w', Name: c.Name})
		}
	}
	return r
}

func c20encode(e *core.Env) {
	n := 1 + e.Pick(4, 3, 2)
	st := simio.New(e, &simio.Mem{})
	var want []byte
	var its []*inst
	for i := 0; i < n; i++ {
		it := draw(e, false)
		if it.whole {
			continue
		}
		e.Label += fmt.Sprintf("%s/%d ", it.b.Type, len(it.bytes))
		e.NonTriv = true
		longer := 0
		if e.P(1, 4) { // a slice longer than declared: only the declared part is written
			longer = lengthen(e, reflect.ValueOf(it.val).Elem(), it.b.Fields)
		}
		p := plan(it.ctx)
		cp := model.DeepCopy(it.val)
		var cnt uint64
		var err error
		checks.Sut(e, "encode "+it.b.Type.String(), func() { cnt, err = mp4.Marshal(struct{ io.Writer }{st}, it.val, it.ctx) })
		e.Evals++
		checkPlan(e, it.b.Type, "encoding")
		if err != nil {
			e.Fail("encode-error", "%s: encoding gives error %v", it.b.Type, err)
		}
		if cnt != uint64(len(it.bytes)) {
			e.Fail("encode-count", "%s: %d bytes reported, the fields take %d", it.b.Type, cnt, len(it.bytes))
		}
		if d := model.Diff(cp, it.val); d != "" {
			e.Fail("encode-modifies", "%s: encoding changed the box: %s", it.b.Type, d)
		}
		want = append(want, it.bytes...)
		got := st.St.(*simio.Mem).B
		if !bytes.Equal(got, want) {
			k := len(want) - len(it.bytes)
			e.Fail("encode-bytes", "%s: wrote %s, expected %s", it.b.Type, checks.Cut(got[min(k, len(got)):]), checks.Cut(it.bytes))
		}
		if dd := callsDiff(writeCalls(it), p.Calls); dd != "" {
			e.Fail("hook-calls", "%s: hook calls while encoding: %s", it.b.Type, dd)
		}
		if longer == 0 {
			its = append(its, it)
		} else {
			its = append(its, nil)
			e.Probe("slice-longer-than-declared")
		}
	}
	checks.HashBytes(e, 'w', want)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// lengthen appends elements to one slice of fixed length among the enabled top-level fields.
func lengthen(e *core.Env, v reflect.Value, fs []*userbox.F) int {
	for _, f := range fs {
		if f.Kind == "slice" && f.Len >= 0 && f.Name != "Tail" {
			x := v.FieldByName(f.Name)
			if x.Len() == 0 || x.Type().Elem().Kind() == reflect.Ptr {
				continue
			}
			x.Set(reflect.Append(x, x.Index(0)))
			return 1
		}
	}
	return 0
}

// c20short: a slice with fewer elements than declared is refused.
func c20short(e *core.Env) {
	for try := 0; try < 30; try++ {
		it := draw(e, false)
		if it.whole {
			continue
		}
		for _, f := range it.b.Fields {
			x := reflect.ValueOf(it.val).Elem().FieldByName(f.Name)
			if f.Kind != "slice" || f.Len < 0 && f.Len != -2 || x.Len() == 0 {
				continue
			}
			n := e.N(x.Len())
			x.Set(x.Slice(0, n))
			e.NonTriv = true
			e.Label = fmt.Sprintf("%s.%s cut to %d", it.b.Type, f.Name, n)
			plan(it.ctx)
			var cnt uint64
			var err error
			checks.Sut(e, "encode "+it.b.Type.String(), func() { cnt, err = mp4.Marshal(io.Discard, it.val, it.ctx) })
			e.Evals++
			e.Probe("slice-shorter-than-declared")
			if err == nil {
				e.Fail("short-slice", "%s: encoding with %d elements of %s where the declaration has more succeeds (%d bytes)", it.b.Type, n, f.Name, cnt)
			}
			return
		}
	}
}

// c20hookError: an error of a hook comes back unchanged, at once.
func c20hookError(e *core.Env) {
	it := draw(e, false)
	read := e.N(2) == 0
	calls := it.wantCalls(len(it.payload()))
	if !read {
		if it.whole {
			return
		}
		calls = writeCalls(it)
	}
	var real []int // indices without the notes of peeking hooks
	for i, c := range calls {
		if c.Op != 'p' {
			real = append(real, i)
		}
	}
	if len(real) == 0 {
		return
	}
	at := real[e.N(len(real))]
	var uerr error
	switch e.N(4) {
	case 0:
		uerr = errUser
	case 1:
		uerr = &userErr{at}
	case 2:
		uerr = io.EOF
	default:
		uerr = fmt.Errorf("wrapped: %w", errUser)
	}
	p := plan(it.ctx)
	p.FailAt, p.Err = at, uerr
	e.Label = fmt.Sprintf("%s: call %d (%s) fails with %v", it.b.Type, at, calls[at], uerr)
	e.NonTriv = true
	e.Faults["hook-error"]++
	payload := it.payload()
	d := simio.DrawDelivery(e.Src)
	st := simio.NewBytes(e, payload).With(d)
	var cnt uint64
	var err error
	if read {
		how := e.N(3)
		checks.Sut(e, "decode "+it.b.Type.String(), func() {
			switch how {
			case 0:
				_, cnt, err = mp4.UnmarshalAny(st.RS(), it.b.Type, uint64(len(payload)), it.ctx)
			case 1:
				var b mp4.IBox
				if b, err = it.b.Type.New(it.ctx); err == nil {
					cnt, err = mp4.Unmarshal(st.RS(), uint64(len(payload)), b, it.ctx)
				}
			default: // while scanning a file
				bi := mp4.BoxInfo{Size: uint64(8 + len(payload)), HeaderSize: 8, Type: it.b.Type, Context: it.ctx}
				hdr := []byte{0, 0, byte((8 + len(payload)) >> 8), byte(8 + len(payload)), it.b.Type[0], it.b.Type[1], it.b.Type[2], it.b.Type[3]}
				st = simio.NewBytes(e, append(hdr, payload...)).With(d)
				_, err = mp4.ReadBoxStructureFromInternal(st.RS(), &bi, func(h *mp4.ReadHandle) (interface{}, error) {
					_, n, err := h.ReadPayload()
					cnt = n
					return nil, err
				})
			}
		})
	} else {
		w := simio.New(e, &simio.Mem{})
		checks.Sut(e, "encode "+it.b.Type.String(), func() { cnt, err = mp4.Marshal(w, it.val, it.ctx) })
		if got := w.St.(*simio.Mem).B; !bytes.HasPrefix(it.bytes, got) {
			e.Fail("hook-error-output", "%s: before the failing hook %s was written, the encoding is %s", it.b.Type, checks.Cut(got), checks.Cut(it.bytes))
		}
	}
	e.Evals++
	checkPlan(e, it.b.Type, "an operation with a failing hook")
	if err != uerr {
		e.Fail("hook-error", "%s: the hook returned %v, the operation returns %v (%d bytes)", it.b.Type, uerr, err, cnt)
	}
}

// c20faults: stream faults, truncated payloads and wrong sizes.
func c20faults(e *core.Env) {
	kind := e.Pick(3, 3, 3, 2)
	it := draw(e, kind < 3 && e.P(1, 4))
	payload := it.payload()
	d := simio.DrawDelivery(e.Src)
	e.NonTriv = true
	p := plan(it.ctx)
	run := func(st *simio.Stream, size int) (box mp4.IBox, n uint64, err error) {
		st.Quiet = false
		checks.Sut(e, "decode "+it.b.Type.String(), func() { box, n, err = mp4.UnmarshalAny(st.RS(), it.b.Type, uint64(size), it.ctx) })
		e.Evals++
		return
	}
	bound := func(size int) {
		for _, c := range p.Calls {
			if c.Op == 'r' && c.Left > uint64(size)*8 && !(c.Left <= 8*255) {
				e.Fail("left-bits", "%s: hook of %s is told that %d bits are left of a payload of %d bytes", it.b.Type, c.Name, c.Left, size)
			}
		}
	}
	switch kind {
	case 0: // read fault
		ref := simio.NewBytes(e, payload).With(d)
		run(ref, len(payload))
		p = plan(it.ctx)
		st := simio.NewBytes(e, payload).With(d)
		st.Faults = simio.DrawReadFaults(e.Src, ref.Ops, 1, false)
		e.Label = fmt.Sprintf("%s: read fault at %v", it.b.Type, st.Faults)
		_, n, err := run(st, len(payload))
		if st.FiredE > 0 && err == nil {
			e.Fail("fault-hidden", "%s: a failing read or seek, and decoding reports success with %d bytes", it.b.Type, n)
		}
	case 1: // the stream ends early
		if len(payload) == 0 {
			return
		}
		cut := e.N(len(payload))
		st := simio.NewBytes(e, payload[:cut]).With(d)
		e.Label = fmt.Sprintf("%s: stream of %d bytes cut to %d", it.b.Type, len(payload), cut)
		e.Faults["truncation"]++
		_, n, err := run(st, len(payload))
		if err == nil && n > uint64(cut) && !it.whole {
			e.Fail("truncated", "%s: decoding a payload cut at %d of %d reports success with %d bytes", it.b.Type, cut, len(payload), n)
		}
		if err == nil && !it.whole {
			e.Fail("truncated", "%s: decoding a payload cut at %d of %d reports success", it.b.Type, cut, len(payload))
		}
	case 2: // the box is declared smaller than its fields; other data follows
		if len(payload) == 0 {
			return
		}
		size := e.N(len(payload))
		st := simio.NewBytes(e, append(payload, checks.Garbage(e, 30)...)).With(d)
		e.Label = fmt.Sprintf("%s: %d bytes of fields in a box of %d", it.b.Type, len(payload), size)
		e.Faults["size-too-small"]++
		userbox.P.Bad = "-" // marks of hooks may be anything
		_, n, err := run(st, size)
		bound(size)
		if err == nil && (n > uint64(size) || st.Pos > int64(size)) {
			e.Fail("overrun", "%s: decoding in a box of %d bytes reports success with %d bytes, stream at %d", it.b.Type, size, n, st.Pos)
		}
	default: // write fault
		if it.whole || len(it.bytes) == 0 {
			return
		}
		st := simio.New(e, &simio.Mem{})
		st.Faults = simio.DrawWriteFault(e.Src, uint64(len(it.bytes)))
		st.LogWrites = true
		e.Label = fmt.Sprintf("%s: write fault at %v", it.b.Type, st.Faults)
		var n uint64
		var err error
		checks.Sut(e, "encode "+it.b.Type.String(), func() { n, err = mp4.Marshal(st.RS(), it.val, it.ctx) })
		e.Evals++
		if st.FiredE > 0 && err == nil {
			e.Fail("write-fault-hidden", "%s: a failing write, and encoding reports success with %d bytes", it.b.Type, n)
		}
		if got := st.St.(*simio.Mem).B; !bytes.HasPrefix(it.bytes, got) {
			e.Fail("write-fault-output", "%s: wrote %s before the fault, the encoding is %s", it.b.Type, checks.Cut(got), checks.Cut(it.bytes))
		}
	}
}

// c20file: user boxes written through the writer, scanned back.
func c20file(e *core.Env) {
	n := 1 + e.N(4)
	mem := &simio.Mem{}
	st := simio.New(e, mem)
	w := mp4.NewWriter(st.RS())
	var its []*inst
	var ctx mp4.Context
	outer := e.Pick(2, 1, 1)
	typ := mp4.BoxType{}
	switch outer {
	case 1:
		typ = mp4.BoxTypeUdta()
		ctx.UnderUdta = true
	case 2:
		typ = mp4.BoxTypeWave()
		ctx.UnderWave = true
	}
	checks.Sut(e, "write", func() {
		if outer > 0 {
			if _, err := w.StartBox(&mp4.BoxInfo{Type: typ}); err != nil {
				e.Fail("write-error", "opening a box: %v", err)
			}
		}
		for i := 0; i < n; i++ {
			it := draw(e, false)
			it.ctx = ctx
			if it.whole {
				continue
			}
			hs := uint64(8)
			if e.P(1, 4) {
				hs = 16
			}
			it.hdr = int(hs)
			e.Label += fmt.Sprintf("%s/%d ", it.b.Type, len(it.bytes))
			plan(ctx)
			_, err := w.StartBox(&mp4.BoxInfo{Type: it.b.Type, HeaderSize: hs})
			if err == nil {
				_, err = w.Write(it.pre)
			}
			if err == nil {
				_, err = mp4.Marshal(w, it.val, ctx)
			}
			if err == nil {
				_, err = w.EndBox()
			}
			if err != nil {
				e.Fail("write-error", "writing %s: %v", it.b.Type, err)
			}
			checkPlan(e, it.b.Type, "encoding")
			its = append(its, it)
		}
		if outer > 0 {
			if _, err := w.EndBox(); err != nil {
				e.Fail("write-error", "closing a box: %v", err)
			}
		}
	})
	e.NonTriv = true
	d := simio.DrawDelivery(e.Src)
	rd := simio.New(e, mem).With(d)
	rd.ROnly = true
	k := 0
	fail := -1
	if e.P(1, 4) && len(its) > 0 {
		fail = e.N(len(its))
	}
	var got error
	checks.Sut(e, "scan", func() {
		_, got = mp4.ReadBoxStructure(rd, func(h *mp4.ReadHandle) (interface{}, error) {
			if h.BoxInfo.Type == typ && outer > 0 {
				return h.Expand()
			}
			if k >= len(its) || h.BoxInfo.Type != its[k].b.Type {
				e.Fail("scan-box", "box %d of type %s", k, h.BoxInfo.Type)
			}
			it := its[k]
			k++
			if !h.BoxInfo.IsSupportedType() {
				e.Fail("scan-unsupported", "registered type %s reported as unsupported", it.b.Type)
			}
			p := plan(ctx)
			if k-1 == fail {
				p.FailAt, p.Err = 0, errUser
			}
			e.Evals++
			how := e.N(3)
			if how == 2 && fail < 0 {
				var buf bytes.Buffer
				if _, err := h.ReadData(&buf); err != nil || !bytes.Equal(buf.Bytes(), it.payload()) {
					e.Fail("scan-data", "%s: raw data %s, written %s (error %v)", it.b.Type, checks.Cut(buf.Bytes()), checks.Cut(it.payload()), err)
				}
			}
			box, cnt, err := h.ReadPayload()
			checkPlan(e, it.b.Type, "decoding")
			if p.FailAt == 0 && len(p.Calls) > 0 {
				if err != errUser {
					e.Fail("hook-error", "%s: the hook's error comes back as %v", it.b.Type, err)
				}
				e.Faults["hook-error"]++
				return nil, err
			}
			if err != nil {
				e.Fail("scan-payload", "%s: decoding gives %v", it.b.Type, err)
			}
			if cnt != uint64(len(it.payload())) {
				e.Fail("scan-count", "%s: %d bytes consumed of %d", it.b.Type, cnt, len(it.payload()))
			}
			if dd := model.Diff(it.val, box); dd != "" {
				e.Fail("scan-value", "%s: written against decoded: %s", it.b.Type, dd)
			}
			if how == 1 {
				stringify(e, it, box)
				plan(ctx)
			}
			return nil, nil
		})
	})
	if got == errUser && fail >= 0 {
		return
	}
	if got != nil || k != len(its) {
		e.Fail("scan", "scan of %d user boxes reports %d and error %v", len(its), k, got)
	}
}

// c20registry: the latest registration that applies wins.
func c20registry(e *core.Env) {
	t := userbox.RegTypes[e.N(len(userbox.RegTypes))]
	c := checks.DrawCtx(e)
	if e.P(1, 3) {
		c.QuickTimeKeysMetaEntryCount = e.N(6)
	}
	if e.P(1, 4) { // other types nobody registered
		t = mp4.BoxType{'?', byte(e.N(4)), 'x', byte(e.N(256))}
		if e.P(1, 2) {
			t = mp4.BoxType{0, 0, 0, byte(e.N(8))}
		}
	}
	r := userbox.Latest(t, c)
	var name string
	var vers []uint8
	switch {
	case r != nil:
		name, vers = r.Name, r.Versions
	case t == mp4.StrToBoxType("ctts"):
		name, vers = "Ctts", []uint8{0, 1}
	case t == mp4.StrToBoxType("free"):
		name = "Free"
	case c.UnderIlst && t[0] == 0 && t[1] == 0 && t[2] == 0 && t[3] >= 1 && int(t[3]) <= c.QuickTimeKeysMetaEntryCount:
		name = "Item"
	}
	e.Label = fmt.Sprintf("%s in %+v: %q %v", t, c, name, vers)
	e.NonTriv = true
	e.Evals++
	plan(c)
	checks.Sut(e, "lookup", func() {
		if got := t.IsSupported(c); got != (name != "") {
			e.Fail("supported", "%s in %+v: supported %v, the registration that applies is %q", t, c, got, name)
		}
		box, err := t.New(c)
		if name == "" {
			if err == nil {
				e.Fail("new", "%s in %+v: no registration applies, but a %T is made", t, c, box)
			}
			if _, _, err := mp4.UnmarshalAny(simio.NewBytes(e, make([]byte, 8)), t, 8, c); err == nil {
				e.Fail("unmarshal", "%s in %+v: no registration applies, but decoding succeeds", t, c)
			}
			return
		}
		if err != nil {
			e.Fail("new", "%s in %+v: %v, the registration that applies is %q", t, c, err, name)
		}
		if g := reflect.TypeOf(box).Elem().Name(); g != name {
			e.Fail("latest", "%s in %+v: %s is made, the latest registration that applies is %s", t, c, g, name)
		}
		if box.GetType() != t {
			e.Fail("type", "%s: the new box says its type is %s", t, box.GetType())
		}
		vs, err := t.GetSupportedVersions(c)
		if err != nil || fmt.Sprint(vs) != fmt.Sprint(vers) {
			e.Fail("versions", "%s in %+v: supported versions %v (%v), registered %v", t, c, vs, err, vers)
		}
		v := uint8(e.N(7))
		if got := t.IsSupportedVersion(v, c); got != has(vers, v) {
			e.Fail("version", "%s in %+v: version %d supported %v, registered %v", t, c, v, got, vers)
		}
		// decode with it
		var p []byte
		ok := true
		full := false
		switch name {
		case "R0":
			p = []byte{7}
		case "R1", "Q1":
			p = []byte{1, 2}
		case "R2":
			p, full = []byte{v, 0, 0, 1, 0, 0, 0, 9}, true
		case "R3":
			p = checks.Garbage(e, e.N(9))
		case "Q0":
			p, full = []byte{v, 0, 0, 1, 9}, true
		default:
			return
		}
		if full {
			ok = has(vers, v)
		}
		st := simio.NewBytes(e, p).With(simio.DrawDelivery(e.Src))
		got, n, err := mp4.UnmarshalAny(st.RS(), t, uint64(len(p)), c)
		if !ok {
			if !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
				e.Fail("version-refused", "%s: decoding version %d (registered %v) gives %v", t, v, vers, err)
			}
			return
		}
		if err != nil || n != uint64(len(p)) || reflect.TypeOf(got).Elem().Name() != name {
			e.Fail("decode", "%s: decoding gives %T, %d of %d bytes, error %v", t, got, n, len(p), err)
		}
		var buf bytes.Buffer
		if _, err := mp4.Marshal(&buf, got, c); err != nil || !bytes.Equal(buf.Bytes(), p) {
			e.Fail("encode", "%s: re-encoding gives %x (%v), not %x", t, buf.Bytes(), err, p)
		}
		if full && got.GetFlags() != 1 {
			e.Fail("flags", "%s: flags %#x", t, got.GetFlags())
		}
	})
}
