//go:build race

package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C13", Quick: 30000, Thorough: 1500000, Run: c13, Real: realLib, Stub: append([]string{"the goroutine scheduler: one task runs at a time and hands over at stream operations and callbacks when the seeded scheduler says so (the hand-over is invisible to the race detector)"}, stubIO...), NoRlimit: true, Cold: 400,
		Rule:   "a run draws two to five tasks (scans, extractions, probes, decodings, encodings, renderings, writing histories, header reads, lookups) over shared immutable files, box values, descriptions, paths and tracks or over private ones, and runs them as goroutines under a seeded scheduler that decides at every stream operation and callback which task goes on; then every task runs alone and must give the same results; the Go race detector, to which the scheduler's hand-over is no synchronisation, must stay silent",
		Assume: []string{"user-defined registrations (AddBoxDef) happen before the tasks start", "the race detector keeps a bounded history of accesses per memory word"}})
}

// ctask is one task of a concurrent run.
type ctask struct {
	id    int
	ops   []*cop
	env   *core.Env
	seed  uint64
	den   int
	wake  chan struct{}
	to    chan int // yields of all tasks
	sub   *core.Sub
	out   []*cres
	viol  *core.Violation
	other interface{}
	done  bool
}

// cop is one operation of a task.
type cop struct {
	name  string
	op    *op // reading operation
	st    simio.Store
	d     simio.Delivery
	fault []simio.Fault
	pl    *model.Payload // encode, render, decode
	pls   []*model.Payload
	h     *hist
	steps []cstep
	base  int64
	types []mp4.BoxType
	ctx   mp4.Context
	track *mp4.Track
	segs  mp4.Segments
}

type cstep struct {
	pos   int64
	stack []*wnode
}

// cres is what an operation gave.
type cres struct {
	out  *outcome
	data []byte
	text string
	errs []error
	st   simio.Store
	nums []uint64
}

func (t *ctask) yield() {
	if t.den == 0 || t.sub.N(t.den) != 0 {
		return
	}
	runtime.RaceDisable()
	t.to <- t.id
	<-t.wake
	runtime.RaceEnable()
}

func (t *ctask) main(wg *sync.WaitGroup) {
	runtime.RaceDisable()
	<-t.wake
	runtime.RaceEnable()
	func() {
		defer func() {
			if r := recover(); r != nil { // of the machinery
				t.other = r
			}
		}()
		t.viol = core.Protect(func() { t.out = t.run(t.env) })
	}()
	wg.Done()
	runtime.RaceDisable()
	t.to <- -1 - t.id
}

func (t *ctask) run(e *core.Env) (l []*cres) {
	for _, o := range t.ops {
		l = append(l, o.run(e))
	}
	return
}

func (o *cop) run(e *core.Env) *cres {
	r := &cres{}
	rd := func() *simio.Stream {
		st := simio.New(e, o.st).With(o.d)
		st.ROnly = true
		st.Faults = o.fault
		return st
	}
	switch o.name {
	case "read":
		r.out = &outcome{}
		st := rd()
		x := &opRun{o: o.op, e: e, st: st, cur: &r.out.Visits}
		o.op.exec(x, st, r.out)
	case "encode":
		m := &simio.Mem{}
		w := simio.New(e, m)
		for _, p := range o.pls {
			n, err := mp4.Marshal(onlyWriter{w}, p.Val, p.Ctx)
			r.nums = append(r.nums, n)
			r.errs = append(r.errs, err)
		}
		r.data = m.B
	case "render":
		for _, p := range o.pls {
			s, err := mp4.Stringify(p.Val, p.Ctx)
			r.errs = append(r.errs, err)
			r.text += s + "\n"
			if e.Yield != nil {
				e.Yield()
			}
		}
	case "decode":
		r.out = &outcome{}
		st := rd()
		v, n, err := mp4.UnmarshalAny(st.RS(), o.pl.Type, uint64(len(o.pl.Bytes)), o.pl.Ctx)
		r.out.Box, r.out.N = v, n
		r.errs = append(r.errs, err)
	case "write":
		m := o.st.(*simio.Mem)
		img := &simio.Mem{B: append([]byte(nil), m.B...)}
		s := simio.New(e, img)
		s.Pos = o.base
		w := &wrun{e: e, w: mp4.NewWriter(s.RS()), st: s, src: func(b []byte) *simio.Stream {
			x := simio.NewBytes(e, b).With(o.d)
			x.ROnly = true
			return x
		}}
		for i, x := range o.h.ops {
			w.pos = o.steps[i].pos
			bi, err := w.do(x, o.steps[i].stack)
			r.errs = append(r.errs, err)
			if bi != nil {
				r.nums = append(r.nums, bi.Offset, bi.Size, bi.HeaderSize)
			}
			if err != nil {
				break
			}
		}
		r.data = img.B
	case "lookup":
		for _, t := range o.types {
			vs, err := t.GetSupportedVersions(o.ctx)
			r.errs = append(r.errs, err)
			for _, v := range vs {
				r.nums = append(r.nums, uint64(v))
			}
			for v := uint8(0); v < 4; v++ {
				r.nums = append(r.nums, b2u(t.IsSupportedVersion(v, o.ctx)))
			}
			r.nums = append(r.nums, b2u(t.IsSupported(o.ctx)), b2u(t.MatchWith(mp4.BoxTypeAny())))
			b, err := t.New(o.ctx)
			r.errs = append(r.errs, err)
			if err == nil {
				r.nums = append(r.nums, uint64(b.GetVersion()), uint64(b.GetFlags()))
				r.text += b.GetType().String()
			}
			r.nums = append(r.nums, b2u(mp4.IsIlstMetaBoxType(t)))
			r.text += t.String() + mp4.Uint32ToBoxType(binary.BigEndian.Uint32(t[:])).String() + mp4.StrToBoxType(string(t[:])).String()
			if e.Yield != nil {
				e.Yield()
			}
		}
	case "media":
		st := rd()
		idr, err := mp4.FindIDRFrames(st.RS(), o.track)
		r.errs = append(r.errs, err)
		for _, i := range idr {
			r.nums = append(r.nums, uint64(i))
		}
		r.nums = append(r.nums, o.track.Samples.GetBitrate(o.track.Timescale), o.track.Samples.GetMaxBitrate(o.track.Timescale, 1000),
			o.segs.GetBitrate(o.track.TrackID, 1000), o.segs.GetMaxBitrate(o.track.TrackID, 1000))
	}
	return r
}

func (a *cres) diff(b *cres) string {
	if a.out != nil && b.out != nil {
		if d := (cmp{}).outcomes(a.out, b.out); d != "" {
			return d
		}
	}
	if len(a.errs) != len(b.errs) {
		return fmt.Sprintf("%d calls against %d", len(a.errs), len(b.errs))
	}
	for i := range a.errs {
		if errClass(a.errs[i]) != errClass(b.errs[i]) {
			return fmt.Sprintf("call %d: error %v against %v", i, a.errs[i], b.errs[i])
		}
	}
	if !bytes.Equal(a.data, b.data) {
		return fmt.Sprintf("bytes %s against %s", cut(a.data), cut(b.data))
	}
	if a.text != b.text {
		return fmt.Sprintf("text %q against %q", a.text, b.text)
	}
	return model.Diff(a.nums, b.nums)
}

// pool is what the tasks of a run share.
type pool struct {
	files []*fileCase
	ops   []*op
	pls   []*model.Payload
}

func drawPayload(e *core.Env, b *pool) *model.Payload {
	if len(b.pls) > 0 && e.P(2, 3) {
		return b.pls[e.N(len(b.pls))]
	}
	tc := drawType(e)
	p := model.Gen(e.Src, tc.t, tc.c, e.P(1, 20))
	b.pls = append(b.pls, p)
	return p
}

func drawCop(e *core.Env, b *pool) *cop {
	o := &cop{}
	switch e.Pick(8, 4, 3, 4, 4, 2, 2) {
	case 0:
		o.name = "read"
		var f *fileCase
		if len(b.files) > 0 && e.P(2, 3) {
			f = b.files[e.N(len(b.files))]
			e.Probe("shared-file")
		} else {
			f = drawFile(e, 10)
			if e.P(1, 8) {
				f.mutate(e)
			}
			b.files = append(b.files, f)
		}
		o.st = &simio.Mem{B: f.b}
		if len(b.ops) > 0 && e.P(1, 3) && f.edits == "" {
			o.op = b.ops[e.N(len(b.ops))] // the same request, description, paths and track
			e.Probe("shared-request")
		} else {
			o.op = drawOp(e, f)
			o.op.mode = e.N(2)
			o.op.lax = true
			o.op.maxData = 1 << 12
			for i, p := range o.op.paths { // with room behind it
				o.op.paths[i] = append(make(mp4.BoxPath, 0, len(p)+4), p...)
			}
			b.ops = append(b.ops, o.op)
		}
		o.op.clampFor(f.b)
		o.d = simio.DrawDelivery(e.Src)
		if e.P(1, 10) {
			o.fault = simio.DrawReadFaults(e.Src, 60, 2, e.P(1, 2))
		}
		if e.P(1, 2) && f.media != nil && f.media.Info != nil && len(f.media.Info.Tracks) > 0 && f.edits == "" {
			o.name = "media"
			o.track = f.media.Info.Tracks[e.N(len(f.media.Info.Tracks))]
			o.segs = f.media.Info.Segments
			o.op = nil
		}
	case 1:
		o.name = "encode"
		for k := 1 + e.N(3); k > 0; k-- {
			o.pls = append(o.pls, drawPayload(e, b))
		}
	case 2:
		o.name = "render"
		for k := 1 + e.N(3); k > 0; k-- {
			o.pls = append(o.pls, drawPayload(e, b))
		}
	case 3:
		o.name = "decode"
		o.pl = drawPayload(e, b)
		o.st = &simio.Mem{B: o.pl.Bytes}
		o.d = simio.DrawDelivery(e.Src)
		if e.P(1, 10) {
			o.fault = simio.DrawReadFaults(e.Src, 20, 1, e.P(1, 2))
		}
	case 4:
		o.name = "write"
		o.h = genHist(e, histOpt{max: 6, seeks: e.P(1, 2), copies: e.P(1, 2)})
		o.st, o.base = diskFor(e, false)
		o.d = simio.DrawDelivery(e.Src)
		m := &wmodel{st: clone(o.st), pos: o.base}
		for _, x := range o.h.ops {
			o.steps = append(o.steps, cstep{m.pos, append([]*wnode(nil), m.stack...)})
			if _, err := m.apply(x); err != nil {
				break
			}
		}
		for len(o.steps) < len(o.h.ops) {
			o.h.ops = o.h.ops[:len(o.steps)]
		}
	case 5:
		o.name = "lookup"
		o.ctx = drawCtx(e)
		for k := 1 + e.N(4); k > 0; k-- {
			o.types = append(o.types, drawType(e).t)
		}
	case 6:
		return drawCop2(e, b)
	}
	return o
}

// drawCop2 repeats a shared decoding of a file payload.
func drawCop2(e *core.Env, b *pool) *cop {
	o := &cop{name: "decode", pl: drawPayload(e, b), d: simio.DrawDelivery(e.Src)}
	o.st = &simio.Mem{B: o.pl.Bytes}
	return o
}

func (o *cop) String() string {
	switch {
	case o.op != nil:
		return o.op.String()
	case o.h != nil:
		return "write(" + o.h.String() + ")"
	case o.pl != nil:
		return "decode " + o.pl.Type.String()
	}
	s := o.name
	for _, p := range o.pls {
		s += " " + p.Type.String()
	}
	return s
}

func c13(e *core.Env) {
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	runtime.GC()
	runtime.GC() // pools are empty
	b := &pool{}
	n := 2 + e.Pick(4, 3, 1, 1)
	to := make(chan int, 1)
	var tasks []*ctask
	for i := 0; i < n; i++ {
		t := &ctask{id: i, to: to, wake: make(chan struct{}, 1)}
		for k := 1 + e.Pick(4, 2, 1); k > 0; k-- {
			t.ops = append(t.ops, drawCop(e, b))
		}
		t.seed = e.U64()
		t.den = []int{1, 2, 8, 40, 0}[e.Pick(3, 2, 2, 2, 1)]
		tasks = append(tasks, t)
	}
	var wg sync.WaitGroup
	wg.Add(n)
	races := runtime.RaceErrors()
	logAt := raceLogSize()
	for _, t := range tasks {
		t.env = core.NewEnv(core.NewSrc(t.seed))
		t.sub = core.NewSub(t.seed)
		t.env.Yield = t.yield
		go t.main(&wg)
	}
	schedule(e, tasks)
	wg.Wait()
	for i, t := range tasks { // not earlier, to leave the code untouched for the tasks
		for k, o := range t.ops {
			e.Label += fmt.Sprintf("task %d.%d: %s; ", i, k, o)
		}
	}
	for i, t := range tasks {
		if t.other != nil {
			panic(t.other)
		}
		e.Ev('T', uint64(i), t.env.Hash)
		e.Steps += t.env.Steps
		for k, x := range t.env.Faults {
			e.Faults[k] += x
		}
		if t.env.Steps > 0 {
			e.NonTriv = true
		}
	}
	if k := runtime.RaceErrors(); k > races {
		e.Evals++
		e.Fail("data-race", "the race detector reports %d unsynchronised accesses to shared memory\n%s", k-races, raceLog(logAt))
	}
	e.Evals++
	// every task alone
	for i, t := range tasks {
		solo := core.NewEnv(core.NewSrc(t.seed))
		var out []*cres
		v := core.Protect(func() { out = t.run(solo) })
		if v != nil {
			if t.viol == nil {
				e.Fail("interference", "task %d fails alone (%s) and not among others", i, v.Msg)
			}
			continue // not this property's matter
		}
		if t.viol != nil {
			e.Fail("interference", "task %d (%s) fails among others (%s: %s) and not alone\n%s", i, t.ops, t.viol.Class, t.viol.Msg, t.viol.Stack)
		}
		for k := range out {
			e.Evals++
			if d := out[k].diff(t.out[k]); d != "" {
				e.Fail("interference", "task %d.%d (%s) gives another result among others than alone: %s", i, k, t.ops[k], d)
			}
		}
		if solo.Hash != t.env.Hash {
			e.Fail("interference", "task %d (%s) performs other stream operations among others than alone", i, t.ops)
		}
	}
}

// schedule lets one task at a time go on until all are done.
func schedule(e *core.Env, tasks []*ctask) {
	var ready []*ctask
	ready = append(ready, tasks...)
	stalled := 0
	last := -1
	for len(ready) > 0 || stalled > 0 {
		id := 0
		if len(ready) > 0 {
			k := e.N(len(ready))
			t := ready[k]
			ready = append(ready[:k], ready[k+1:]...)
			e.Tick()
			e.Ev('t', uint64(t.id), uint64(len(ready)))
			if t.id != last && last >= 0 {
				e.Probe("task-switch")
			}
			last = t.id
			runtime.RaceDisable()
			t.wake <- struct{}{}
			stalled++
		} else {
			runtime.RaceDisable()
		}
		// normally the task that was woken answers; one that waits for another
		// (a lock held across a hand-over) leaves the turn to the rest
		wait := 2 * time.Second
		if len(ready) == 0 {
			wait = 20 * time.Second
		}
		tm := time.NewTimer(wait)
		ok := true
		select {
		case id = <-tasks[0].to:
		case <-tm.C:
			ok = false
		}
		tm.Stop()
		runtime.RaceEnable()
		if !ok {
			if len(ready) == 0 {
				e.Fail("deadlock", "the tasks wait for each other: %d of %d do not go on", stalled, len(tasks))
			}
			continue
		}
		stalled--
		if id < 0 {
			tasks[-1-id].done = true
			continue
		}
		// keep the order of ready independent of timing
		at := 0
		for at < len(ready) && ready[at].id < id {
			at++
		}
		ready = append(ready[:at], append([]*ctask{tasks[id]}, ready[at:]...)...)
	}
}

// The race detector writes its reports to a file that GORACE names.
func racePath() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p := strings.TrimPrefix(f, "log_path="); p != f {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return ""
}

func raceLogSize() int64 {
	if fi, err := os.Stat(racePath()); err == nil {
		return fi.Size()
	}
	return 0
}

func raceLog(from int64) string {
	b, err := os.ReadFile(racePath())
	if err != nil || int64(len(b)) < from {
		return "(see standard error)"
	}
	b = b[from:]
	if len(b) > 3500 {
		b = b[:3500]
	}
	return string(b)
}
