package clichecks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"verifsim/checks"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
	"verifsim/simos"
)

func init() {
	core.Register(&core.Check{ID: "C17", Quick: 120000, Thorough: 3600000, Run: c17, Real: real, Stub: stub,
		Rule:   "a run generates a fragmented media file with its meaning (tracks, fragments, runs, defaults, header styles), runs the whole divide command as a simulated process (map iteration order drawn) without faults and compares exit status, the set of files, every byte of the init and segment files and the playlists with the generated meaning; then runs it again with one I/O fault at a drawn operation on any of its files (mkdir, open, create, read, write, seek, close; short or sticky), a full disk, or the input cut short, and requires failure or the exact output; corrupted files, clashing tracks, old output files and an input inside the output directory are drawn as well",
		Assume: []string{"tracks other than avc1/mp4a and their encrypted forms are announced as unsupported and skipped", "the output directory is not used by others meanwhile"}})
}

var dirOf = map[string]string{"avc1": "video", "mp4a": "audio", "encv": "video_enc", "enca": "audio_enc"}

// divided is what the divide command must write.
type divided struct {
	files   map[string][]byte
	durs    map[string][]float64 // per directory
	tracks  map[string]*model.MTrack
	rate    map[string][2]float64 // bounds of the peak bit rate; none if a fragment has no duration
	tolZero map[string]bool       // an empty first segment of a track without fragments
}

func raw(m *model.Media, n *model.Node) []byte {
	return append([]byte(nil), m.Bytes()[n.Off:n.Off+n.Size]...)
}

func divide(m *model.Media) *divided {
	d := &divided{files: map[string][]byte{}, durs: map[string][]float64{}, tracks: map[string]*model.MTrack{}, tolZero: map[string]bool{}, rate: map[string][2]float64{}}
	for _, t := range m.Tracks {
		dir := dirOf[t.Kind]
		if dir == "" {
			continue
		}
		d.tracks[dir] = t
		var init []byte
		for _, r := range m.Roots {
			switch string(r.Type[:]) {
			case "ftyp", "sidx", "pssh":
				init = append(init, raw(m, r)...)
			case "moov":
				b := make([]byte, r.Hdr)
				for _, c := range r.Children {
					if string(c.Type[:]) != "trak" || c == t.Node {
						b = append(b, raw(m, c)...)
					}
				}
				x := *r
				x.Size = uint64(len(b))
				copy(b, x.HeaderBytes())
				init = append(init, b...)
			}
		}
		d.files[dir+"/init.mp4"] = init
		i := 0
		d.durs[dir] = []float64{}
		var lo, hi float64
		still := false
		for _, f := range m.Frags {
			if f.TrackID != t.ID {
				continue
			}
			d.files[fmt.Sprintf("%s/%d.mp4", dir, i)] = append(raw(m, f.Moof), raw(m, f.Mdat)...)
			dur := float64(f.Total) / float64(t.T.Timescale)
			d.durs[dir] = append(d.durs[dir], dur)
			lo = math.Max(lo, 8*float64(f.Mdat.Size-f.Mdat.Hdr)/dur)
			hi = math.Max(hi, 8*float64(f.Moof.Size+f.Mdat.Size)/dur)
			still = still || !(dur > 0)
			i++
		}
		if !still {
			d.rate[dir] = [2]float64{lo, hi}
		}
		if i == 0 {
			d.tolZero[dir+"/0.mp4"] = true
		}
	}
	return d
}

// diff compares the output directory with the expectation; "" means exact.
func (d *divided) diff(s *simos.Sim, dir string, old map[string]bool) string {
	seen := map[string]bool{}
	for _, p := range s.Files(dir) {
		seen[p] = true
		got, _ := s.Get(dir + "/" + p)
		if want, ok := d.files[p]; ok {
			if !bytes.Equal(want, got) {
				return fmt.Sprintf("file %s: %s", p, firstDiff(want, got))
			}
			continue
		}
		if d.tolZero[p] && len(got) == 0 || old[p] {
			continue
		}
		if p == "playlist.m3u8" {
			if why := d.master(string(got)); why != "" {
				return "master playlist: " + why
			}
			continue
		}
		if i := strings.IndexByte(p, '/'); i > 0 && p[i+1:] == "playlist.m3u8" && d.durs[p[:i]] != nil {
			if why := d.media(string(got), d.durs[p[:i]]); why != "" {
				return "playlist " + p + ": " + why
			}
			continue
		}
		return "unexpected file " + p
	}
	var names []string
	for p := range d.files {
		names = append(names, p)
	}
	names = append(names, "playlist.m3u8")
	for k := range d.durs {
		names = append(names, k+"/playlist.m3u8")
	}
	sort.Strings(names)
	for _, p := range names {
		if !seen[p] {
			return "missing file " + p
		}
	}
	return ""
}

func (d *divided) master(s string) string {
	if !strings.HasPrefix(s, "#EXTM3U\n") {
		return "no #EXTM3U"
	}
	for _, k := range []string{"video", "audio", "video_enc", "audio_enc"} {
		uri := k + "/playlist.m3u8"
		t := d.tracks[k]
		has := strings.Contains(s, "\""+uri+"\"") || strings.Contains("\n"+s, "\n"+uri+"\n")
		if (t != nil) != has {
			return fmt.Sprintf("names %s: %v, track present: %v", uri, has, t != nil)
		}
		if t == nil || !strings.HasPrefix(k, "video") {
			continue
		}
		var w, h uint16
		find(t.Node, func(n *model.Node) {
			if string(n.Type[:]) == t.Kind && len(n.Fields) > 28 {
				w, h = binary.BigEndian.Uint16(n.Fields[24:]), binary.BigEndian.Uint16(n.Fields[26:])
			}
		})
		if !strings.Contains(s, fmt.Sprintf("RESOLUTION=%dx%d", w, h)) {
			return fmt.Sprintf("no RESOLUTION=%dx%d", w, h)
		}
		if r, ok := d.rate[k]; ok {
			i := strings.Index(s, "BANDWIDTH=")
			if i < 0 {
				return "no BANDWIDTH"
			}
			x, err := strconv.ParseFloat(s[i+10:i+10+len(s[i+10:])-len(strings.TrimLeft(s[i+10:], "0123456789."))], 64)
			if err != nil || x < r[0]*(1-1e-9)-1 || x > r[1]*(1+1e-9)+1 {
				return fmt.Sprintf("bandwidth %v, the video's fragments need %v to %v", x, r[0], r[1])
			}
		}
		if d.tracks["audio"] != nil || d.tracks["audio_enc"] != nil {
			i := strings.Index(s, "AUDIO=\"")
			if i < 0 || !strings.Contains(s, "GROUP-ID=\""+s[i+7:i+7+max(0, strings.IndexByte(s[i+7:], '"'))]+"\"") {
				return "the video does not refer to the audio"
			}
		}
	}
	return ""
}

func find(n *model.Node, fn func(*model.Node)) {
	fn(n)
	for _, c := range n.Children {
		find(c, fn)
	}
}

func (d *divided) media(s string, durs []float64) string {
	if !strings.HasPrefix(s, "#EXTM3U\n") || !strings.HasSuffix(s, "#EXT-X-ENDLIST\n") {
		return "no #EXTM3U at the start or no #EXT-X-ENDLIST at the end"
	}
	max := 0.0
	for _, x := range durs {
		max = math.Max(max, x)
	}
	i, target, mapped := 0, -1.0, false
	lines := strings.Split(s, "\n")
	for k := 0; k < len(lines); k++ {
		l := lines[k]
		switch {
		case strings.HasPrefix(l, "#EXT-X-TARGETDURATION:"):
			target, _ = strconv.ParseFloat(l[22:], 64)
		case strings.HasPrefix(l, "#EXT-X-MAP:"):
			mapped = strings.Contains(l, "URI=\"init.mp4\"")
		case strings.HasPrefix(l, "#EXTINF:"):
			x, err := strconv.ParseFloat(strings.SplitN(l[8:], ",", 2)[0], 64)
			if err != nil || i >= len(durs) || k+1 >= len(lines) {
				return fmt.Sprintf("entry %d of %d: %s", i, len(durs), l)
			}
			if math.Abs(x-durs[i]) > 1e-6+1e-9*durs[i] {
				return fmt.Sprintf("segment %d: duration %f, the fragment's runs declare %f", i, x, durs[i])
			}
			k++
			if lines[k] != fmt.Sprintf("%d.mp4", i) {
				return fmt.Sprintf("segment %d is named %q", i, lines[k])
			}
			i++
		case l != "" && l[0] != '#':
			return fmt.Sprintf("unexpected line %q", l)
		}
	}
	if i != len(durs) {
		return fmt.Sprintf("%d segments named, the track has %d fragments", i, len(durs))
	}
	if target < max || target > math.Ceil(max) {
		return fmt.Sprintf("target duration %v for segments of at most %v", target, max)
	}
	if !mapped {
		return "init.mp4 is not named"
	}
	return ""
}

var divideOps = map[string]bool{"mkdir": true, "open": true, "create": true, "read": true, "write": true, "seek": true, "close": true, "stat": true, "truncate": true, "sync": true, "rename": true}

func c17(e *core.Env) {
	what := e.Pick(12, 1, 2, 1)
	m := model.GenMedia(e.Src, model.MOpt{Divide: true, Clash: what == 3, Frag: 1, Crypt: e.P(1, 8)})
	if e.P(1, 60) && len(m.Frags) > 0 { // a fragment of many blocks
		n := m.Frags[e.N(len(m.Frags))].Mdat
		n.Fields = checks.Garbage(e, 20000+e.N(120000))
		m.Relayout()
		e.Probe("big-fragment")
	} else if e.P(1, 150) && len(m.Frags) > 1 { // more blocks than the reader keeps
		for _, f := range m.Frags {
			f.Mdat.Fields = checks.Garbage(e, 100000+e.N(100000))
		}
		m.Relayout()
		e.Probe("many-blocks")
	}
	in := append([]byte(nil), m.Bytes()...)
	// two tracks of one kind, or with one identifier, cannot both be written
	clash, why := false, ""
	if what == 1 && len(m.Tracks) > 1 {
		clash = clashID(m, in, m.Tracks[0], m.Tracks[1])
		why = "one identifier"
	}
	if what == 3 {
		if clash = dirOf[m.Tracks[0].Kind] != ""; clash {
			why = "the kind " + m.Tracks[0].Kind
		}
	}
	if clash {
		e.Probe("clashing-tracks")
	}
	if what == 2 {
		in, why = checks.Mutate(e, in, m.All, m)
		why = " (input: " + why + ")"
	}
	e.Label = m.Describe()
	if e.P(1, 40) {
		badCall(e, in, []string{"alpha", "divide"}, []string{"alpha", "divide", "in.mp4"}, []string{"alpha", "divide", "-nope", "in.mp4", "out"}, []string{"divide", "in.mp4", "out"})
		return
	}
	want := divide(m)

	base := scene(e, &simio.Mem{B: in})
	inName, outDir := "in.mp4", "out"
	old := map[string]bool{}
	switch e.Pick(5, 2, 1, 1) {
	case 1: // an earlier, longer result lies there
		for _, p := range []string{"out/playlist.m3u8", "out/video/init.mp4", "out/video/0.mp4", "out/video/playlist.m3u8", "out/audio/0.mp4", "out/audio/init.mp4"} {
			base.Put(p, &simio.Mem{B: bytes.Repeat([]byte("old"), 3000)})
			if want.files[p[4:]] == nil && !want.tolZero[p[4:]] && !strings.HasSuffix(p, "playlist.m3u8") {
				old[p[4:]] = true
			}
		}
		if want.tracks["video"] == nil {
			old["video/playlist.m3u8"] = true
		}
	case 2:
		outDir = "a/b/../c//d"
	case 3: // the input lies where output goes
		inName = []string{"out/playlist.m3u8", "out/video/init.mp4", "out/video/0.mp4", "out/audio/1.mp4", "out/audio/playlist.m3u8", "out/movie.mp4"}[e.N(6)]
		base.Put(inName, &simio.Mem{B: append([]byte(nil), in...)})
		e.Probe("input-in-output")
	}
	run1 := func(s *simos.Sim) { run(e, s, "alpha", "divide", inName, outDir) }
	inputKept := func(s *simos.Sim, how string) {
		got, ok := s.Get(inName)
		if !ok || !bytes.Equal(got, in) {
			e.Fail("input-modified", "the divide command changed its input file %s (%s)%s", inName, firstDiff(in, got), how)
		}
	}
	order := e.U64()
	s := fork(base, order)
	run1(s)
	e.Evals++
	inputKept(s, why)
	if what == 2 {
		e.Probe("corrupted")
		return
	}
	if clash {
		if s.Code == 0 {
			e.Fail("clash", "the divide command succeeds although two tracks share %s, so that one of them is not written", why)
		}
		return
	}
	inside := strings.HasPrefix(inName, "out/")
	if inside {
		old[inName[4:]] = true
	}
	if s.Code != 0 {
		if !inside && len(want.tracks) > 0 {
			e.Fail("divide-fails", "the divide command fails (exit status %d: %s) on a well-formed file", s.Code, short(s.Out))
		}
		return
	}
	judge := func(s *simos.Sim, how string) {
		e.Evals++
		inputKept(s, how)
		if s.Code != 0 {
			return
		}
		if dd := want.diff(s, outDir, old); dd != "" {
			e.Fail("wrong-output", "the divide command succeeds with a wrong result: %s%s", dd, how)
		}
	}
	judge(s, "")
	for k := 1 + e.N(2); k > 0; k-- {
		t := fork(base, order)
		t.LoseOn = true
		how := ""
		switch e.Pick(7, 2, 2) {
		case 0:
			t.Faults = drawFaults(e, s.Ops, divideOps)
			how = " after an injected fault"
		case 1:
			t.Cap = 1 + int64(e.N(len(in)))
			how = " on a full disk"
		case 2:
			n := e.N(len(in))
			if inHeader(&m.File, uint64(n)) || m.Roots[len(m.Roots)-1].EOF && uint64(n) > m.Roots[len(m.Roots)-1].Off {
				continue
			}
			if skipped(m, uint64(n)) {
				continue
			}
			cut := in[:n]
			t.Put(inName, truncate(in, n))
			e.Fault("input-cut")
			run1(t)
			e.Evals++
			if got, _ := t.Get(inName); !bytes.Equal(got, cut) {
				e.Fail("input-modified", "the divide command changed its input file %s", inName)
			}
			if t.Code == 0 && !atRoot(&m.File, uint64(n)) && want.diff(t, outDir, old) != "" {
				e.Fail("cut-input", "the divide command succeeds on an input cut in the middle of a box, from %d to %d bytes", len(in), n)
			}
			continue
		}
		run1(t)
		if t.Fired > 0 {
			how += " (" + t.Hit[0] + ")"
			e.Probe("fault-on-" + strings.SplitN(t.Hit[0], " ", 2)[0])
		} else {
			how = ""
		}
		judge(t, how)
	}
}

// atRoot: the cut falls between two root boxes.
func atRoot(f *model.File, n uint64) bool {
	for _, r := range f.Roots {
		if r.Off == n {
			return true
		}
	}
	return n == f.Size
}

// skipped: the box that is cut is not copied, or not all of it.
func skipped(m *model.Media, n uint64) bool {
	un := false
	for _, t := range m.Tracks {
		un = un || dirOf[t.Kind] == ""
	}
	for _, r := range m.Roots {
		if n > r.Off && n < r.Off+r.Size {
			return un || r.Type == model.T("mfra")
		}
	}
	return false
}

// clashID gives the second track the identifier of the first.
func clashID(m *model.Media, in []byte, a, b *model.MTrack) bool {
	ok := false
	if dirOf[a.Kind] == "" || dirOf[b.Kind] == "" {
		return false
	}
	find(b.Node, func(n *model.Node) {
		if n.Type == model.T("tkhd") {
			o := n.Off + n.Hdr + 12
			if n.Fields[0] == 1 {
				o += 8
			}
			binary.BigEndian.PutUint32(in[o:], a.ID)
			ok = true
		}
	})
	return ok
}
