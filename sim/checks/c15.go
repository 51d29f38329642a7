package checks

import (
	"fmt"
	"reflect"

	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
)

func init() {
	core.Register(&core.Check{ID: "C15", Quick: 260000, Thorough: 7800000, Run: c15, Real: realLib, Stub: stubIO,
		Rule:   "a run generates a progressive, fragmented or mixed media file together with its meaning (tracks, samples, chunks, edit lists, codec configuration, NAL units, fragments; box order, header styles, versions, unrelated boxes and terabyte gaps drawn), probes it over a seeded delivery from an arbitrary stream position, searches the IDR frames of every track and computes the bitrates, and compares everything with the generated meaning; in part of the runs a mandatory box is left out and probing must fail",
		Assume: []string{"one track fragment with at most one run box per movie fragment, as the probing API reports one entry per fragment"}})
}

func c15(e *core.Env) {
	m := model.GenMedia(e.Src, model.MOpt{Omit: e.P(1, 6), Huge: e.P(1, 10), Crypt: e.P(1, 8)})
	if m.Two {
		e.Probe("two-sample-descriptions")
	}
	d := simio.DrawDelivery(e.Src)
	st := simio.New(e, m.St).With(d)
	st.ROnly = true
	e.Label = m.Describe() + d.Name()
	e.NonTriv = true
	for k := 1 + e.Pick(4, 1); k > 0; k-- {
		st.Pos = int64(e.U64n(m.Size + 10))
		var got *mp4.ProbeInfo
		var err error
		sut(e, "Probe", func() {
			if e.P(1, 4) {
				got, err = mp4.ProbeFra(st.RS())
			} else {
				got, err = mp4.Probe(st.RS())
			}
		})
		e.Evals++
		if m.Why != "" {
			e.Probe("mandatory-box-missing")
			if err == nil {
				e.Fail("probe-incomplete", "probing succeeds with %s", m.Why)
			}
			continue
		}
		if err != nil {
			e.Fail("probe-error", "probing a well-formed file gives error %v", err)
		}
		if dd := model.Diff(m.Info, got); dd != "" {
			e.Fail("probe-value", "expected against reported: %s", dd)
		}
		checkTracks(e, m, st, got)
		checkSegs(e, got)
	}
}

func checkTracks(e *core.Env, m *model.Media, st *simio.Stream, got *mp4.ProbeInfo) {
	byNode := map[*mp4.Track]*model.MTrack{}
	for _, t := range m.Tracks {
		byNode[t.T] = t
	}
	for i, tr := range got.Tracks {
		mt := byNode[m.Info.Tracks[i]]
		var idx []int
		var err error
		sut(e, "FindIDRFrames", func() { idx, err = mp4.FindIDRFrames(st.RS(), tr) })
		e.Evals++
		if err != nil {
			e.Fail("idr-error", "track %d: error %v", mt.ID, err)
		}
		want := mt.IDR
		if len(idx) != len(want) || len(want) > 0 && !reflect.DeepEqual(idx, want) {
			e.Fail("idr", "track %d: IDR frames %v, expected %v", mt.ID, idx, want)
		}
		if len(want) > 0 {
			e.Probe("idr-found")
		}
		checkRate(e, tr.Samples, uint32(e.N(100000)), uint64(e.N(6000)))
	}
	if e.P(1, 4) {
		// any samples: the durations and rates have the whole 32-bit range (the
		// sizes are kept so that 8*size*timescale fits in 64 bits)
		var ss mp4.Samples
		for k := e.N(9); k > 0; k-- {
			ss = append(ss, &mp4.Sample{Size: wide(e, 25), TimeDelta: wide(e, 32)})
		}
		checkRate(e, ss, wide(e, 32), uint64(wide(e, 32))<<uint(e.Pick(3, 1)))
		sg := &mp4.ProbeInfo{}
		for k := e.N(9); k > 0; k-- {
			sg.Segments = append(sg.Segments, &mp4.Segment{TrackID: uint32(e.N(3)), Size: wide(e, 25), Duration: wide(e, 32)})
		}
		e.Probe("wide-rates")
		checkSegs(e, sg)
	}
}

// wide draws a number of a drawn width up to the given number of bits.
func wide(e *core.Env, bits int) uint32 {
	return uint32(e.U64n(1 << uint(e.N(bits+1))))
}

func checkRate(e *core.Env, s mp4.Samples, ts uint32, td uint64) {
	var br, mx uint64
	sut(e, "bitrate", func() { br, mx = s.GetBitrate(ts), s.GetMaxBitrate(ts, td) })
	var size, dur uint64
	for _, x := range s {
		size += uint64(x.Size)
		dur += uint64(x.TimeDelta)
	}
	if w := rate(size, dur, ts); br != w {
		e.Fail("bitrate", "bitrate of %d bytes in %d/%d: %d, expected %d", size, dur, ts, br, w)
	}
	if w := maxRate(s, ts, td); mx != w {
		e.Fail("max-bitrate", "maximum bitrate over windows of %d/%d: %d, expected %d (%s)", td, ts, mx, w, showSamples(s))
	}
}

func showSamples(s mp4.Samples) (r string) {
	for _, x := range s {
		r += fmt.Sprintf("%d/%d ", x.Size, x.TimeDelta)
	}
	return
}

func rate(size, dur uint64, ts uint32) uint64 {
	if dur == 0 {
		return 0
	}
	return 8 * size * uint64(ts) / dur
}

// maxRate: the highest rate over the windows that end at each sample: a window
// starts at the earliest sample from which everything before its last sample is
// shorter than td, and counts when it is at least td long or ends the track.
func maxRate(s mp4.Samples, ts uint32, td uint64) (m uint64) {
	if td == 0 {
		return 0
	}
	sum := func(a, b int) (size, dur uint64) {
		for _, x := range s[a:b] {
			size += uint64(x.Size)
			dur += uint64(x.TimeDelta)
		}
		return
	}
	for end := 1; end <= len(s); end++ {
		b := 0
		for {
			if _, d := sum(b, end-1); d < td {
				break
			}
			b++
		}
		size, dur := sum(b, end)
		if dur >= td || end == len(s) {
			if r := rate(size, dur, ts); r > m {
				m = r
			}
		}
	}
	return
}

func checkSegs(e *core.Env, got *mp4.ProbeInfo) {
	ids := map[uint32]bool{999: true}
	for _, s := range got.Segments {
		ids[s.TrackID] = true
	}
	for id := uint32(0); id < 1000; id++ {
		if !ids[id] {
			continue
		}
		ts := wide(e, 32)
		if e.P(1, 2) {
			ts = uint32(e.N(100000))
		}
		var br, mx uint64
		sut(e, "segment bitrate", func() { br, mx = got.Segments.GetBitrate(id, ts), got.Segments.GetMaxBitrate(id, ts) })
		var size, dur, wm uint64
		for _, s := range got.Segments {
			if s.TrackID == id {
				size += uint64(s.Size)
				dur += uint64(s.Duration)
				if r := rate(uint64(s.Size), uint64(s.Duration), ts); r > wm {
					wm = r
				}
			}
		}
		if br != rate(size, dur, ts) || mx != wm {
			e.Fail("segment-bitrate", "track %d: %d and %d, expected %d and %d", id, br, mx, rate(size, dur, ts), wm)
		}
	}
}
