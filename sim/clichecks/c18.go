package clichecks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/abema/go-mp4"
	"gopkg.in/yaml.v2"
	"verifsim/checks"
	"verifsim/core"
	"verifsim/model"
	"verifsim/simio"
	"verifsim/simos"
)

func init() {
	core.Register(&core.Check{ID: "C18", Quick: 250000, Thorough: 7500000, Run: c18, Real: real, Stub: stub,
		Rule:   "a run generates a file with its meaning (any tree, or a media file; payloads up to terabytes unstored), draws one of the commands extract, dump, probe and psshdump with options, runs it whole as a simulated process without faults and compares exit status and standard output with what the generated file holds; then runs it again with one I/O fault at a drawn operation on the input (open, read, seek, stat; short or sticky) or, for extract, on standard output, or with the input cut short, and requires failure or the exact output; corrupted files must neither crash it nor make it run away, and no run may touch the input",
		Assume: []string{"dump may abbreviate content that was not asked for", "extract and dump do not look for boxes inside the payload of leaf boxes such as stco or pssh"}})
}

// inspection is one command with what it must print.
type inspection struct {
	cmd   string
	args  []string
	judge func(out []byte) string                   // "" when the output is what the file holds
	cut   func(out []byte, n uint64) (string, bool) // the same for the first n bytes; false: not judged
	mayBe bool                                      // it may fail
	ops   map[string]bool                           // operations whose failure must not go unnoticed
}

var readOps = map[string]bool{"open": true, "read": true, "seek": true, "stat": true}
var copyOps = map[string]bool{"open": true, "read": true, "seek": true, "stat": true, "write": true}

var leafTypes = map[string]bool{"emsg": true, "esds": true, "ftyp": true, "pssh": true, "ctts": true, "co64": true, "elst": true, "sbgp": true, "sdtp": true, "stco": true, "stsc": true, "stts": true, "stss": true, "stsz": true, "tfra": true, "trun": true}

// prune removes boxes inside leaf boxes.
func prune(f *model.File) {
	f.Walk(func(n *model.Node) {
		if leafTypes[string(n.Type[:])] {
			n.Children = nil
		}
	})
	f.Relayout()
}

func c18(e *core.Env) {
	what := e.Pick(4, 4, 2, 2)
	var in *inspection
	var f *model.File
	var m *model.Media
	switch what {
	case 0, 1:
		if e.P(1, 5) {
			m = model.GenMedia(e.Src, model.MOpt{Frag: e.N(3), Crypt: e.P(1, 3)})
			f = &m.File
		} else {
			f = model.GenFile(e.Src, model.Opt{MaxNodes: 16, Term: true, Junk: e.P(1, 10), BadVer: e.P(1, 5), Huge: what == 1 && e.P(1, 6)})
		}
		huge := false
		for _, n := range f.All {
			huge = huge || n.Huge > 0
		}
		if !huge {
			bigBox(e, f)
		}
		prune(f)
		if what == 0 {
			in = extractCmd(e, f)
		} else {
			in = dumpCmd(e, f, huge)
		}
	case 2:
		m = model.GenMedia(e.Src, model.MOpt{Huge: e.P(1, 10), Omit: e.P(1, 10), Crypt: e.P(1, 6)})
		f = &m.File
		in = probeCmd(e, m)
	case 3:
		if e.P(1, 2) {
			m = model.GenMedia(e.Src, model.MOpt{Frag: e.N(3), Crypt: true})
			f = &m.File
		} else {
			f = model.GenFile(e.Src, model.Opt{MaxNodes: 16, Term: true, Huge: e.P(1, 6)})
		}
		f.Walk(func(n *model.Node) {
			if n.Type == model.T("pssh") { // shown whole, so nothing unstored in it
				n.Children = nil
			}
		})
		addPssh(e, f)
		in = psshCmd(e, f)
	}
	e.Label = in.cmd + " " + strings.Join(in.args, " ") + ": " + f.Describe()
	if e.P(1, 40) && f.Size < 1<<20 && stored(f) {
		badCall(e, f.Bytes(), []string{}, []string{"extract"}, []string{"extract", "moov"}, []string{"dump"}, []string{"probe"}, []string{"psshdump"}, []string{"nope", "in.mp4"},
			[]string{"dump", "-nope", "in.mp4"}, []string{"probe", "-nope", "in.mp4"}, []string{"probe", "-format", "json"}, []string{"extract", "-nope", "moov", "in.mp4"}, []string{"psshdump", "-nope", "in.mp4"}, []string{in.cmd}, []string{"extract", "url", "in.mp4"}, []string{"extract", "moov ", "in.mp4"}, []string{"extract", "", "in.mp4"})
		return
	}
	in.args = append(append([]string{in.cmd}, in.args...), "in.mp4")
	order := e.U64()
	switch e.Pick(20, 3, 1) {
	case 1:
		if f.Size > 1<<20 || !stored(f) {
			break
		}
		b, why := checks.Mutate(e, f.Bytes(), f.All, m)
		base := scene(e, &simio.Mem{B: append([]byte(nil), b...)})
		s := fork(base, order)
		if e.P(1, 3) {
			s.Faults = []simos.Fault{{Op: e.N(20), Mode: e.N(2), Frac: e.U64n(1 << 20), Keep: e.P(1, 2)}}
		}
		run(e, s, in.args...)
		e.Evals++
		e.Probe("corrupted")
		if got, _ := s.Get("in.mp4"); !bytes.Equal(got, b) {
			e.Fail("input-modified", "the %s command changed its input file (%s)", in.cmd, why)
		}
		return
	case 2: // nothing to read
		base := scene(e, &simio.Mem{B: []byte{}})
		base.PutDir("dir.mp4")
		s := fork(base, order)
		args := append([]string(nil), in.args...)
		switch e.N(3) {
		case 0:
			args[len(args)-1] = "none.mp4"
		case 1:
			args[len(args)-1] = "dir.mp4"
		case 2:
			args = args[:len(args)-1]
		}
		run(e, s, args...)
		e.Evals++
		if s.Code == 0 {
			e.Fail("no-input", "the command %q succeeds without an input file", args)
		}
		return
	}
	base := scene(e, f.St)
	s := fork(base, order)
	run(e, s, in.args...)
	e.Evals++
	kept := func(s *simos.Sim) {
		if s.Modified("in.mp4") {
			e.Fail("input-modified", "the %s command changed its input file", in.cmd)
		}
	}
	kept(s)
	if s.Code != 0 {
		if !in.mayBe {
			e.Fail("fails", "the command %q fails (exit status %d: %s %s) on a well-formed file", in.args, s.Code, short(tail(s.Out)), short(s.ErrOut))
		}
		return
	}
	e.Probe(in.cmd + "-output")
	if why := in.judge(s.Out); why != "" {
		e.Fail("wrong-output", "the command %q shows something else than the file holds: %s", in.args, why)
	}
	for k := 1 + e.N(2); k > 0; k-- {
		t := fork(base, order)
		if e.P(1, 3) && f.Size < 1<<20 && f.Size > 0 && stored(f) {
			n := e.N(int(f.Size))
			if inHeader(f, uint64(n)) {
				continue
			}
			t.Put("in.mp4", truncate(f.Bytes(), n))
			e.Fault("input-cut")
			run(e, t, in.args...)
			e.Evals++
			if t.Code != 0 {
				continue
			}
			if why, ok := in.cut(t.Out, uint64(n)); ok && why != "" {
				e.Fail("cut-input", "the command %q succeeds on an input cut from %d to %d bytes: %s", in.args, f.Size, n, why)
			}
			continue
		}
		t.Faults = drawFaults(e, s.Ops, in.ops)
		run(e, t, in.args...)
		e.Evals++
		kept(t)
		if t.Fired > 0 {
			e.Probe("fault-on-" + strings.SplitN(t.Hit[0], " ", 2)[0])
			if t.Code == 0 && !bytes.Equal(t.Out, s.Out) {
				e.Fail("fault-unnoticed", "the command %q succeeds with a wrong output after an injected fault (%s): %s", in.args, t.Hit[0], firstDiff(s.Out, t.Out))
			}
			if t.Code == 0 && strings.Contains(t.Hit[0], "/dev/stdout") {
				e.Fail("fault-unnoticed", "the command %q succeeds although writing its output failed", in.args)
			}
		}
	}
}

func stored(f *model.File) bool { _, ok := f.St.(*simio.Mem); return ok }

func tail(b []byte) []byte {
	if len(b) > 200 {
		return b[len(b)-200:]
	}
	return b
}

// visited lists the boxes a scan expands into, in file order.
func visited(f *model.File, into func(n *model.Node) bool) (r []*model.Node) {
	var rec func(l []*model.Node)
	rec = func(l []*model.Node) {
		for _, n := range l {
			r = append(r, n)
			if into(n) {
				rec(n.Children)
			}
		}
	}
	rec(f.Roots)
	return
}

func broken(f *model.File) bool {
	for _, n := range f.All {
		if n.Junk != nil {
			return true
		}
	}
	return false
}

func extractCmd(e *core.Env, f *model.File) *inspection {
	in := &inspection{cmd: "extract", ops: copyOps, mayBe: broken(f)}
	typ := "moov"
	for try := 0; ; try++ {
		switch {
		case try > 3 || len(f.All) == 0:
			typ = []string{"moov", "free", "tkhd", "zzzz"}[e.N(4)]
		default:
			n := f.All[e.N(len(f.All))]
			typ = string(n.Type[:])
		}
		if typ[0] != '-' && !strings.Contains(typ, "\x00") {
			break
		}
	}
	in.args = []string{typ}
	nodes := visited(f, func(n *model.Node) bool { return n.Decodable() })
	data := f.Bytes()
	want := func(lim uint64) (w []byte) {
		for _, n := range nodes {
			if string(n.Type[:]) == typ && n.Off+n.Size <= lim {
				w = append(w, data[n.Off:n.Off+n.Size]...)
			}
		}
		return
	}
	full := want(f.Size)
	in.judge = func(out []byte) string {
		if in.mayBe || bytes.Equal(out, full) {
			return ""
		}
		return firstDiff(full, out)
	}
	in.cut = func(out []byte, n uint64) (string, bool) {
		if in.mayBe || eofCut(f, n) || bytes.Equal(out, full) {
			return "", !in.mayBe
		}
		if w := want(n); !bytes.Equal(out, w) {
			return firstDiff(w, out), true
		}
		return "", true
	}
	return in
}

// eofCut: a box to the end of the file is cut, which is then simply shorter.
func eofCut(f *model.File, n uint64) bool {
	for _, b := range f.All {
		if b.EOF && n > b.Off && n < b.Off+b.Size {
			return true
		}
	}
	return false
}

func dumpCmd(e *core.Env, f *model.File, huge bool) *inspection {
	in := &inspection{cmd: "dump", ops: readOps, mayBe: broken(f)}
	full := map[string]bool{}
	all := false
	if !huge {
		if e.P(1, 3) {
			all = true
			in.args = append(in.args, "-a")
		}
		if e.P(1, 8) {
			full["mdat"] = true
			in.args = append(in.args, "-mdat")
		}
		if e.P(1, 8) {
			full["free"], full["skip"] = true, true
			in.args = append(in.args, "-free")
		}
		if e.P(1, 2) && len(f.All) > 0 {
			var l []string
			for i := 1 + e.N(4); i > 0; i-- {
				t := typeStr(f.All[e.N(len(f.All))].Type)
				if !strings.Contains(t, ",") {
					l = append(l, t)
					full[t] = true
				}
			}
			in.args = append(in.args, "-full", strings.Join(l, ","))
		}
	}
	offset, num := e.P(1, 2), "%d"
	if offset {
		in.args = append(in.args, "-offset")
	}
	if e.P(1, 3) {
		num = "0x%x"
		in.args = append(in.args, "-hex")
	}
	for i := len(in.args) - 1; i > 0; i-- { // options in any order
		if j := e.N(i + 1); in.args[i] != "-full" && in.args[j] != "-full" && (i == 0 || in.args[i-1] != "-full") && (j == 0 || in.args[j-1] != "-full") {
			in.args[i], in.args[j] = in.args[j], in.args[i]
		}
	}
	nodes := visited(f, func(n *model.Node) bool { return n.Decodable() })
	check := func(out []byte, lim uint64) string {
		s := string(out)
		for i, n := range nodes {
			if n.Off+n.Hdr > lim {
				continue
			}
			k := strings.IndexByte(s, '\n')
			if k < 0 {
				return fmt.Sprintf("line %d for box %v is missing", i, n)
			}
			l := s[:k]
			s = s[k+1:]
			head := strings.Repeat(" ", 2*n.Depth) + "[" + typeStr(n.Type) + "]"
			if n.Unknown {
				head += " (unsupported box type)"
			}
			if offset {
				head += " Offset=" + fmt.Sprintf(num, n.Off)
			}
			head += " Size=" + fmt.Sprintf(num, n.Size)
			if !strings.HasPrefix(l, head) || len(l) > len(head) && l[len(head)] != ' ' {
				return fmt.Sprintf("line %d is %s, expected %q", i, short([]byte(l)), head)
			}
			rest := l[len(head):]
			t := string(n.Type[:])
			asked := full[typeStr(n.Type)] || all && t != "mdat" && t != "free" && t != "skip"
			if !asked && (strings.Contains(rest, " ... (") || strings.Contains(rest, " Data=[...]")) {
				continue
			}
			want := ""
			if n.Decodable() {
				if n.Val == nil { // of a media file, whose values the library's own decoder is trusted with
					b := make([]byte, n.Size-n.Hdr)
					f.St.ReadAt(b, int64(n.Off+n.Hdr))
					v, _, err := mp4.UnmarshalAny(bytes.NewReader(b), n.Type, uint64(len(b)), n.Ctx)
					if err != nil {
						core.Bug("decode %v: %v", n, err)
					}
					n.Val = v
				}
				str, err := mp4.Stringify(model.DeepCopy(n.Val).(mp4.IImmutableBox), n.Ctx)
				if err != nil {
					core.Bug("stringify: %v", err)
				}
				if str != "" {
					want = " " + str
				}
			} else if n.Huge == 0 {
				if n.BadVer {
					want = " (unsupported box version)"
				}
				b := make([]byte, n.Size-n.Hdr)
				f.St.ReadAt(b, int64(n.Off+n.Hdr))
				var sb strings.Builder
				for j, x := range b {
					if j > 0 {
						sb.WriteByte(' ')
					}
					const hex = "0123456789abcdef"
					sb.WriteString("0x")
					sb.WriteByte(hex[x>>4])
					sb.WriteByte(hex[x&15])
				}
				want += " Data=[" + sb.String() + "]"
			}
			if rest != want {
				return fmt.Sprintf("line %d, box %v: content %s, expected %s", i, n, short([]byte(rest)), short([]byte(want)))
			}
		}
		if s != "" {
			return fmt.Sprintf("more lines than boxes: %s", short([]byte(s)))
		}
		return ""
	}
	in.judge = func(out []byte) string {
		if in.mayBe {
			return ""
		}
		return check(out, f.Size)
	}
	in.cut = func(out []byte, n uint64) (string, bool) {
		if in.mayBe || eofCut(f, n) {
			return "", false
		}
		return check(out, n), true
	}
	return in
}

func addPssh(e *core.Env, f *model.File) {
	for _, r := range f.Roots {
		if t := string(r.Type[:]); t != "moov" && t != "moof" || r.Def == nil {
			continue
		}
		for k := e.N(3); k > 0; k-- {
			n := &model.Node{Type: model.T("pssh"), Hdr: 8 + 8*uint64(e.Pick(4, 1)), Ctx: r.ChildCtx(), Parent: r, Depth: 1, Path: mp4.BoxPath{r.Type, model.T("pssh")}}
			n.Def = model.Lookup(n.Type, n.Ctx)
			p := model.Gen(e.Src, n.Type, n.Ctx, e.P(1, 20))
			n.Fields, n.Val, n.N, n.Marks = p.Bytes, p.Val, p.N, p.Marks
			i := e.N(len(r.Children) + 1)
			if i > 0 && r.Children[i-1].EOF {
				i--
			}
			r.Children = append(r.Children[:i], append([]*model.Node{n}, r.Children[i:]...)...)
		}
	}
	f.Relayout()
}

func psshCmd(e *core.Env, f *model.File) *inspection {
	in := &inspection{cmd: "psshdump", ops: readOps}
	var l []*model.Node
	for _, r := range f.Roots {
		if t := string(r.Type[:]); t != "moov" && t != "moof" {
			continue
		}
		for _, n := range r.Children {
			if n.Type == model.T("pssh") {
				l = append(l, n)
				e.Probe("pssh")
			}
		}
	}
	check := func(out []byte, lim uint64) string {
		var got []map[string]string
		for _, s := range strings.Split(string(out), "\n") {
			switch {
			case s == "":
			case s == fmt.Sprintf("%d:", len(got)):
				got = append(got, map[string]string{})
			default:
				kv := strings.SplitN(strings.TrimSpace(s), ": ", 2)
				if len(kv) != 2 || len(got) == 0 || got[len(got)-1][kv[0]] != "" {
					return fmt.Sprintf("unexpected line %q", s)
				}
				got[len(got)-1][kv[0]] = kv[1]
			}
		}
		i := 0
		for _, n := range l {
			if n.Off+n.Size > lim {
				continue
			}
			if i >= len(got) {
				return fmt.Sprintf("%d boxes shown, box %v is missing", len(got), n)
			}
			b := make([]byte, n.Size)
			f.St.ReadAt(b, int64(n.Off))
			v := n.Fields[0]
			id := fmt.Sprintf("%x-%x-%x-%x-%x", n.Fields[4:8], n.Fields[8:10], n.Fields[10:12], n.Fields[12:14], n.Fields[14:20])
			o := 20
			if v != 0 {
				o += 4 + 16*(int(n.Fields[22])<<8+int(n.Fields[23]))
			}
			size := int(n.Fields[o])<<24 + int(n.Fields[o+1])<<16 + int(n.Fields[o+2])<<8 + int(n.Fields[o+3])
			for k, w := range map[string]string{
				"offset": fmt.Sprint(n.Off), "size": fmt.Sprint(n.Size), "version": fmt.Sprint(v),
				"flags":    fmt.Sprintf("0x%06x", int(n.Fields[1])<<16+int(n.Fields[2])<<8+int(n.Fields[3])),
				"systemId": id, "dataSize": fmt.Sprint(size),
				"base64": "\"" + base64.StdEncoding.EncodeToString(b) + "\"",
			} {
				if got[i][k] != w {
					return fmt.Sprintf("box %d (%v): %s is %q, expected %q", i, n, k, short([]byte(got[i][k])), short([]byte(w)))
				}
			}
			i++
		}
		if i != len(got) {
			return fmt.Sprintf("%d boxes shown, the file has %d", len(got), i)
		}
		return ""
	}
	in.judge = func(out []byte) string { return check(out, f.Size) }
	in.cut = func(out []byte, n uint64) (string, bool) {
		if eofCut(f, n) {
			return "", false
		}
		return check(out, n), true
	}
	return in
}

func probeCmd(e *core.Env, m *model.Media) *inspection {
	in := &inspection{cmd: "probe", ops: readOps, mayBe: m.Why != ""}
	format := ""
	switch e.N(4) {
	case 0:
		format = "yaml"
		in.args = []string{"-format", "yaml"}
	case 1:
		in.args = []string{"-format=json"}
	}
	var want map[string]interface{}
	if m.Why == "" {
		want = summary(m)
		in.mayBe = m.Info.Timescale == 0
		for _, t := range m.Info.Tracks {
			in.mayBe = in.mayBe || t.Timescale == 0
		}
	}
	var ref []byte
	in.judge = func(out []byte) string {
		ref = out
		if m.Why != "" {
			return "a report although the file has " + m.Why
		}
		var got map[string]interface{}
		if format == "yaml" {
			var y map[string]interface{}
			if err := yaml.Unmarshal(out, &y); err != nil {
				return "no YAML: " + err.Error()
			}
			got = y
		} else {
			d := json.NewDecoder(bytes.NewReader(out))
			d.UseNumber()
			if err := d.Decode(&got); err != nil {
				return "no JSON: " + err.Error()
			}
			if d.More() {
				return "more than one JSON value"
			}
		}
		return sameReport("", want, got)
	}
	in.cut = func(out []byte, n uint64) (string, bool) {
		if eofCut(&m.File, n) {
			return "", false
		}
		for i, r := range m.Roots {
			t := string(r.Type[:])
			if n > r.Off && n < r.Off+r.Size && (t == "moov" || t == "moof" || t == "ftyp") {
				for _, x := range m.Roots[i+1:] {
					if t := string(x.Type[:]); t == "moov" || t == "moof" || t == "ftyp" || t == "mdat" {
						return "", false
					}
				}
				if !bytes.Equal(out, ref) {
					return firstDiff(ref, out), true
				}
				return "", true
			}
		}
		return "", false
	}
	return in
}

// sameReport compares a parsed report with the expected one; names are compared
// without regard to case and underscores, members that are absent count as zero.
func sameReport(at string, want, got interface{}) string {
	switch w := want.(type) {
	case map[string]interface{}:
		g := map[string]interface{}{}
		switch x := got.(type) {
		case map[string]interface{}:
			for k, v := range x {
				g[norm(k)] = v
			}
		case map[interface{}]interface{}:
			for k, v := range x {
				g[norm(fmt.Sprint(k))] = v
			}
		default:
			return fmt.Sprintf("%s is %v", at, got)
		}
		for _, k := range keys(w) {
			if why := sameReport(at+"/"+k, w[k], g[norm(k)]); why != "" {
				return why
			}
		}
		return ""
	case []interface{}:
		g, _ := got.([]interface{})
		if len(g) != len(w) {
			return fmt.Sprintf("%s has %d elements, expected %d", at, len(g), len(w))
		}
		for i := range w {
			if why := sameReport(fmt.Sprintf("%s/%d", at, i), w[i], g[i]); why != "" {
				return why
			}
		}
		return ""
	case float64:
		g, err := strconv.ParseFloat(fmt.Sprint(got), 64)
		if err == nil && (math.Abs(g-w) <= 1e-5*math.Abs(w)+1e-9) {
			return ""
		}
	case uint64:
		if got == nil && w == 0 || fmt.Sprint(got) == fmt.Sprint(w) {
			return ""
		}
	case string:
		if s, ok := got.(string); ok && s == w {
			return ""
		}
	case bool:
		if b, ok := got.(bool); ok && b == w {
			return ""
		}
	}
	return fmt.Sprintf("%s is %v, expected %v", at, got, want)
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func keys(m map[string]interface{}) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return
}

// summary is the report that probe must give.
func summary(m *model.Media) map[string]interface{} {
	in := m.Info
	brands := []interface{}{}
	for _, b := range in.CompatibleBrands {
		brands = append(brands, string(b[:]))
	}
	tracks := []interface{}{}
	for _, tr := range in.Tracks {
		br, mx := checks.Rate(tr.Samples, tr.Timescale), checks.MaxRate(tr.Samples, tr.Timescale, uint64(tr.Timescale))
		if br == 0 || mx == 0 {
			br, mx = checks.SegRates(in.Segments, tr.TrackID, tr.Timescale)
		}
		t := map[string]interface{}{
			"TrackID": uint64(tr.TrackID), "Timescale": uint64(tr.Timescale), "Duration": tr.Duration,
			"DurationSeconds": float64(tr.Duration) / float64(tr.Timescale), "Encrypted": tr.Encrypted,
			"SampleNum": uint64(len(tr.Samples)), "ChunkNum": uint64(len(tr.Chunks)),
			"Bitrate": br, "MaxBitrate": mx,
			"Width": uint64(0), "Height": uint64(0), "IDRFrameNum": uint64(0),
		}
		codec := "unknown"
		switch tr.Codec {
		case mp4.CodecAVC1:
			codec = "avc1"
			if a := tr.AVC; a != nil {
				codec = fmt.Sprintf("avc1.%02X%02X%02X", a.Profile, a.ProfileCompatibility, a.Level)
				t["Width"], t["Height"] = uint64(a.Width), uint64(a.Height)
			}
			for _, mt := range m.Tracks {
				if mt.T == tr {
					t["IDRFrameNum"] = uint64(len(mt.IDR))
				}
			}
		case mp4.CodecMP4A:
			codec = "mp4a"
			if a := tr.MP4A; a != nil && a.OTI != 0 {
				codec = fmt.Sprintf("mp4a.%X", a.OTI)
				if a.AudOTI != 0 {
					codec += fmt.Sprintf(".%d", a.AudOTI)
				}
			}
		}
		t["Codec"] = codec
		tracks = append(tracks, t)
	}
	return map[string]interface{}{
		"MajorBrand": string(in.MajorBrand[:]), "MinorVersion": uint64(in.MinorVersion), "CompatibleBrands": brands,
		"FastStart": in.FastStart, "Timescale": uint64(in.Timescale), "Duration": in.Duration,
		"DurationSeconds": float64(in.Duration) / float64(in.Timescale), "Tracks": tracks,
	}
}
