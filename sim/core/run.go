package core

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Check is one property check: Run executes one simulated run.
type Check struct {
	ID       string
	Quick    int // number of runs in the quick tier
	Thorough int
	Rule     string
	Real     []string // components that run real code
	Stub     []string // components replaced by the simulator
	Assume   []string
	Run      func(e *Env)
	NoRlimit bool
	Cold     int // the first so many runs each have a process of their own
	// Known is called once by the master; it returns the KNOWN-FINDING lines that still hold.
	Known func(exe string) []string
}

var registry = map[string]*Check{}

func Register(c *Check) { registry[c.ID] = c }

type ReplayFile struct {
	Property string     `json:"property"`
	Seed     uint64     `json:"seed"`
	Run      uint64     `json:"run"`
	Choices  []uint64   `json:"choices"`
	Original int        `json:"original_choices"`
	Viol     *Violation `json:"violation"`
	Hash     string     `json:"event_hash"`
	Label    string     `json:"label"`
	Faults   []string   `json:"faults,omitempty"`
	Trace    []string   `json:"trace,omitempty"`
	Fatal    bool       `json:"fatal,omitempty"` // the process itself dies or does not end
	// runs of the same seed to execute first in the same process: the failure
	// needs state that they leave behind
	Before []uint64 `json:"runs_before,omitempty"`
}

// prepare executes the runs that come before a replayed one.
func prepare(c *Check, rf *ReplayFile) {
	for _, i := range rf.Before {
		execute(c, NewSrc(SeedFor(rf.Seed, c.ID, i)), false)
	}
}

func execute(c *Check, s *Src, tracing bool) (e *Env, v *Violation) {
	e = NewEnv(s)
	e.Tracing = tracing
	v = Protect(func() { c.Run(e) })
	return e, v
}

type workerOut struct {
	Runs     uint64
	Steps    uint64
	Evals    uint64
	NonTriv  uint64
	Faults   map[string]int
	Probes   map[string]int
	Samples  []map[string]interface{}
	Viol     *ReplayFile
	Harness  string
	CPUms    int64
	MaxSteps uint64
}

func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check ID | replay FILE | digest ID FROM TO | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "check":
		os.Exit(master(mustCheck(os.Args[2])))
	case "worker":
		worker(mustCheck(os.Args[2]), os.Args[3:])
	case "one":
		one(mustCheck(os.Args[2]), os.Args[3:])
	case "shrink":
		shrinkChild(mustCheck(os.Args[2]), os.Args[3])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "digest":
		digest(mustCheck(os.Args[2]), os.Args[3:])
	case "special":
		special(os.Args[2])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// Special registers named child-process routines (used to demonstrate known findings).
var Special = map[string]func(){}

func special(name string) {
	f := Special[name]
	if f == nil {
		os.Exit(3)
	}
	limit(2 << 30)
	f()
}

func mustCheck(id string) *Check {
	c := registry[id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check %s in this binary\n", id)
		os.Exit(2)
	}
	return c
}

func limit(as uint64) {
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: as, Max: as})
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

func envSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		return uint64(v)
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func atou(s string) uint64 {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		Bug("bad number %q", s)
	}
	return v
}

const asLimit = 5 << 29

// worker ID seed start stride total dir deadlineUnix
func worker(c *Check, a []string) {
	seed, start, stride, total, dir := atou(a[0]), atou(a[1]), atou(a[2]), atou(a[3]), a[4]
	deadline := time.Unix(int64(atou(a[5])), 0)
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	if !c.NoRlimit {
		limit(asLimit)
	}
	st, err := os.OpenFile(filepath.Join(dir, "status."+a[1]), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		panic(err)
	}
	out := workerOut{Faults: map[string]int{}, Probes: map[string]int{}}
	hashes := make(map[uint64]struct{})
	stopPath := filepath.Join(dir, "stop")
	var b [8]byte
	n := 0
	lastPoll := time.Now()
	for i := start; i < total; i += stride {
		if n++; time.Since(lastPoll) > 200*time.Millisecond {
			lastPoll = time.Now()
			if d, err := os.ReadFile(stopPath); err == nil && atou(string(d)) < i {
				break
			}
			if lastPoll.After(deadline) {
				break
			}
		}
		binary.LittleEndian.PutUint64(b[:], i+1)
		st.WriteAt(b[:], 0)
		if i < uint64(c.Cold) && stride != 0 {
			coldRun(c, seed, i, dir, a[5], &out, hashes)
			if out.Viol != nil || out.Harness != "" {
				break
			}
			continue
		}
		var e *Env
		var v *Violation
		func() {
			defer func() {
				if r := recover(); r != nil {
					out.Harness = fmt.Sprintf("run %d: %v\n%s", i, r, debug.Stack())
				}
			}()
			e, v = execute(c, NewSrc(SeedFor(seed, c.ID, i)), false)
		}()
		if out.Harness != "" {
			break
		}
		out.Runs++
		out.Steps += e.Steps
		if e.Steps > out.MaxSteps {
			out.MaxSteps = e.Steps
		}
		out.Evals += uint64(e.Evals)
		for k, x := range e.Faults {
			out.Faults[k] += x
		}
		for k, x := range e.Probes {
			out.Probes[k] += x
		}
		if e.NonTriv {
			out.NonTriv++
			if len(hashes) < 2_000_000 {
				hashes[e.Hash] = struct{}{}
			}
		}
		if len(out.Samples) < 2 && e.Label != "" && e.NonTriv {
			out.Samples = append(out.Samples, map[string]interface{}{"run": i, "case": e.Label, "choices": len(e.Rec), "steps": e.Steps, "faults": e.Faults, "event_hash": fmt.Sprintf("%016x", e.Hash)})
		}
		if v != nil {
			out.Viol = &ReplayFile{Property: c.ID, Seed: seed, Run: i, Choices: append([]uint64(nil), e.Rec...), Viol: v, Label: e.Label}
			for k := start; k < i && stride != 0; k += stride {
				if k >= uint64(c.Cold) {
					out.Viol.Before = append(out.Viol.Before, k)
				}
			}
			break
		}
		if stride == 0 {
			break
		}
	}
	binary.LittleEndian.PutUint64(b[:], 0)
	st.WriteAt(b[:], 0)
	hb := make([]byte, 0, len(hashes)*8)
	for h := range hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(filepath.Join(dir, "hashes."+a[1]), hb, 0o600)
	j, _ := json.Marshal(out)
	if err := os.WriteFile(filepath.Join(dir, "out."+a[1]), j, 0o600); err != nil {
		panic(err)
	}
	os.Exit(0)
}

// coldRun executes one run in a process of its own and adds what it did.
func coldRun(c *Check, seed, i uint64, dir, deadline string, out *workerOut, hashes map[uint64]struct{}) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	sub := filepath.Join(dir, fmt.Sprintf("cold.%d", i))
	os.Mkdir(sub, 0o700)
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "worker", c.ID, fmt.Sprint(seed), fmt.Sprint(i), "0", fmt.Sprint(i+1), sub, deadline)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stderr = os.Stderr
	err = cmd.Run()
	var o workerOut
	d, rerr := os.ReadFile(filepath.Join(sub, fmt.Sprintf("out.%d", i)))
	if rerr != nil || json.Unmarshal(d, &o) != nil {
		fmt.Fprintf(os.Stderr, "run %d in its own process: %v\n", i, err)
		os.Exit(3) // the master looks at the run that was going on
	}
	if d, err := os.ReadFile(filepath.Join(sub, fmt.Sprintf("hashes.%d", i))); err == nil {
		for k := 0; k+8 <= len(d); k += 8 {
			hashes[binary.LittleEndian.Uint64(d[k:])] = struct{}{}
		}
	}
	os.RemoveAll(sub)
	out.Runs += o.Runs
	out.Steps += o.Steps
	if o.MaxSteps > out.MaxSteps {
		out.MaxSteps = o.MaxSteps
	}
	out.Evals += o.Evals
	out.NonTriv += o.NonTriv
	for k, x := range o.Faults {
		out.Faults[k] += x
	}
	for k, x := range o.Probes {
		out.Probes[k] += x
	}
	if len(out.Samples) < 2 {
		out.Samples = append(out.Samples, o.Samples...)
	}
	out.Viol, out.Harness = o.Viol, o.Harness
}

// one FILE: executes a replay file's choices (or its seed/run when Choices is nil),
// writing every choice to FILE.choices as it is made; used for fatal violations.
func one(c *Check, a []string) {
	runtime.GOMAXPROCS(1)
	if !c.NoRlimit {
		limit(asLimit)
	}
	rf := readReplay(a[0])
	prepare(c, rf)
	var s *Src
	if rf.Choices == nil {
		s = NewSrc(SeedFor(rf.Seed, c.ID, rf.Run))
	} else {
		s = NewReplaySrc(rf.Choices)
	}
	tee, _ := os.Create(a[0] + ".choices")
	s.tee = tee
	e, v := execute(c, s, true)
	rf.Choices = e.Rec
	rf.Viol = v
	rf.Hash = fmt.Sprintf("%016x", e.Hash)
	rf.Label = e.Label
	rf.Trace = e.Trace
	rf.Faults = faultList(e)
	j, _ := json.Marshal(rf)
	os.WriteFile(a[0]+".out", j, 0o600)
	os.Exit(0)
}

func faultList(e *Env) []string {
	var fs []string
	for _, k := range SortedKeys(e.Faults) {
		fs = append(fs, fmt.Sprintf("%s x%d", k, e.Faults[k]))
	}
	return fs
}

func readReplay(p string) *ReplayFile {
	d, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf ReplayFile
	if err := json.Unmarshal(d, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &rf
}

func digest(c *Check, a []string) {
	runtime.GOMAXPROCS(1)
	w := bufio.NewWriter(os.Stdout)
	seed := envSeed()
	for i := atou(a[0]); i < atou(a[1]); i++ {
		e, v := execute(c, NewSrc(SeedFor(seed, c.ID, i)), false)
		cl := "-"
		if v != nil {
			cl = v.Class
		}
		fmt.Fprintf(w, "%d %016x %d %d %s\n", i, e.Hash, e.Steps, len(e.Rec), cl)
	}
	w.Flush()
}

type proc struct {
	cmd    *exec.Cmd
	idx    int
	stderr *tailBuf
	done   chan error
	ended  bool
	err    error
	cur    uint64
	curCPU float64
}

type tailBuf struct{ b bytes.Buffer }

func (t *tailBuf) Write(p []byte) (int, error) {
	if t.b.Len() < 256<<10 {
		t.b.Write(p)
	}
	return len(p), nil
}

func cpuOf(pid int) float64 {
	d, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(d)
	if k := strings.LastIndexByte(s, ')'); k >= 0 {
		f := strings.Fields(s[k+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseFloat(f[11], 64)
			y, _ := strconv.ParseFloat(f[12], 64)
			return (u + y) / 100
		}
	}
	return 0
}

const hangCPU = 25.0 // CPU seconds within one run (ordinary runs take milliseconds)

func master(c *Check) int {
	t0 := time.Now()
	seed := envSeed()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	total := c.Quick
	cap := 300 * time.Second
	if tier == "thorough" {
		total = c.Thorough
		cap = 3 * time.Hour
	}
	if s := os.Getenv("VSIM_RUNS"); s != "" {
		total = int(atou(s))
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if s := os.Getenv("VSIM_WORKERS"); s != "" {
		nw = int(atou(s))
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	fmt.Printf("check %s tier=%s seed=%d runs=%d workers=%d\n", c.ID, tier, seed, total, nw)

	ps := make([]*proc, nw)
	deadline := t0.Add(cap)
	for i := range ps {
		p := &proc{idx: i, done: make(chan error, 1), stderr: &tailBuf{}}
		p.cmd = exec.Command(exe, "worker", c.ID, fmt.Sprint(seed), fmt.Sprint(i), fmt.Sprint(nw), fmt.Sprint(total), dir, fmt.Sprint(deadline.Unix()))
		p.cmd.Stderr = p.stderr
		p.cmd.Stdout = io.Discard
		if err := p.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		go func() { p.done <- p.cmd.Wait() }()
		ps[i] = p
	}
	kill := func() {
		for _, p := range ps {
			if !p.ended {
				p.cmd.Process.Kill()
			}
		}
	}
	status := func(i int) uint64 {
		d, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("status.%d", i)))
		if err != nil || len(d) < 8 {
			return 0
		}
		return binary.LittleEndian.Uint64(d)
	}
	writeStop := func(idx uint64) {
		p := filepath.Join(dir, "stop")
		if d, err := os.ReadFile(p); err == nil && atou(string(d)) <= idx {
			return
		}
		os.WriteFile(p+".t", []byte(fmt.Sprint(idx)), 0o600)
		os.Rename(p+".t", p)
	}
	type dead struct {
		run  uint64
		why  string
		hang bool
	}
	var deaths []dead
	outs := make([]*workerOut, nw)
	live := nw
	for live > 0 {
		time.Sleep(20 * time.Millisecond)
		for i, p := range ps {
			if p.ended {
				continue
			}
			select {
			case p.err = <-p.done:
				p.ended = true
				live--
				d, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out.%d", i)))
				if err == nil {
					var o workerOut
					if json.Unmarshal(d, &o) == nil {
						outs[i] = &o
						if o.Viol != nil {
							writeStop(o.Viol.Run)
						}
						continue
					}
				}
				s := status(i)
				if s == 0 {
					fmt.Fprintf(os.Stderr, "worker %d failed: %v\n%s\n", i, p.err, p.stderr.b.String())
					kill()
					return 2
				}
				deaths = append(deaths, dead{run: s - 1, why: fmt.Sprintf("%v\n%s", p.err, headOf(p.stderr.b.String(), 4000))})
				writeStop(s - 1)
			default:
				s := status(i)
				cpu := cpuOf(p.cmd.Process.Pid)
				if s != p.cur {
					p.cur, p.curCPU = s, cpu
				} else if s != 0 && cpu-p.curCPU > hangCPU {
					p.cmd.Process.Kill()
					<-p.done
					p.ended = true
					live--
					deaths = append(deaths, dead{run: s - 1, hang: true, why: fmt.Sprintf("no end after %.0f CPU seconds in one run", hangCPU)})
					writeStop(s - 1)
				}
			}
		}
		if time.Now().After(deadline.Add(120 * time.Second)) {
			fmt.Fprintln(os.Stderr, "workers did not stop at the deadline")
			kill()
			return 2
		}
	}
	for i, o := range outs {
		if o != nil && o.Harness != "" {
			fmt.Fprintf(os.Stderr, "harness error in worker %d: %s\n", i, o.Harness)
			return 2
		}
	}
	var best *ReplayFile
	for _, o := range outs {
		if o != nil && o.Viol != nil && (best == nil || o.Viol.Run < best.Run) {
			best = o.Viol
		}
	}
	var bestDead *dead
	for i := range deaths {
		if bestDead == nil || deaths[i].run < bestDead.run {
			bestDead = &deaths[i]
		}
	}
	// aggregate
	agg := workerOut{Faults: map[string]int{}, Probes: map[string]int{}}
	hs := map[uint64]struct{}{}
	for i, o := range outs {
		if o == nil {
			continue
		}
		agg.Runs += o.Runs
		agg.Steps += o.Steps
		agg.Evals += o.Evals
		agg.NonTriv += o.NonTriv
		if o.MaxSteps > agg.MaxSteps {
			agg.MaxSteps = o.MaxSteps
		}
		for k, v := range o.Faults {
			agg.Faults[k] += v
		}
		for k, v := range o.Probes {
			agg.Probes[k] += v
		}
		if len(agg.Samples) < 6 {
			agg.Samples = append(agg.Samples, o.Samples...)
		}
		if d, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hashes.%d", i))); err == nil {
			for k := 0; k+8 <= len(d); k += 8 {
				hs[binary.LittleEndian.Uint64(d[k:])] = struct{}{}
			}
		}
	}
	wallRuns := time.Since(t0).Seconds()

	rc := 0
	viols := 0
	replayPath := ""
	if best != nil || bestDead != nil {
		viols = 1
		rdir := filepath.Join(verif, "replays")
		os.MkdirAll(rdir, 0o755)
		var rf *ReplayFile
		if best != nil && (bestDead == nil || best.Run <= bestDead.run) {
			before := best.Before
			best.Before = nil
			rf = shrink(c, exe, dir, best)
			if rf == best && len(before) > 0 { // not alone
				if r := withBefore(c, exe, dir, best, before); r != nil {
					rf = r
				}
			}
		} else {
			rf = confirmDeath(c, exe, dir, seed, bestDead.run, bestDead.why, bestDead.hang)
			if rf == nil {
				fmt.Fprintf(os.Stderr, "worker died at run %d but the run does not reproduce it:\n%s\n", bestDead.run, bestDead.why)
				return 2
			}
		}
		replayPath = filepath.Join(rdir, fmt.Sprintf("%s-seed%d-run%d.json", c.ID, rf.Seed, rf.Run))
		j, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(replayPath, j, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		// the minimised file must fail the same way in a fresh process
		replayOnce := func() ([]byte, int) {
			ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, exe, "replay", replayPath)
			o, _ := cmd.CombinedOutput()
			return o, cmd.ProcessState.ExitCode()
		}
		o, code := replayOnce()
		if code != 1 && !rf.Fatal {
			// the run may end the process itself once nothing stops it earlier
			if r := runOne(c, exe, dir, rf); r.fatal {
				rf.Fatal = true
				rf.Viol.Msg += "\n" + r.why
				j, _ := json.MarshalIndent(rf, "", " ")
				os.WriteFile(replayPath, j, 0o644)
				o, code = replayOnce()
			}
		}
		if code != 1 {
			fmt.Fprintf(os.Stderr, "replay of %s does not reproduce:\n%s\n", replayPath, o)
			return 2
		}
		fmt.Printf("violation class: %s\n%s\nseed=%d run=%d choices=%d (from %d)\ncase: %s\n", rf.Viol.Class, headOf(rf.Viol.Msg, 3000), rf.Seed, rf.Run, len(rf.Choices), rf.Original, rf.Label)
		rc = 1
	}
	var known []string
	if c.Known != nil && rc == 0 {
		known = c.Known(exe)
	}
	writeEvidence(c, verif, tier, seed, &agg, len(hs), wallRuns, time.Since(t0).Seconds(), viols, total, known)
	if c.Rule == "" {
		Bug("no rule")
	}
	for _, k := range known {
		fmt.Println(k)
	}
	if rc == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replayPath)
		return 1
	}
	fmt.Printf("ok %s: %d runs, %d steps, %d oracle comparisons, %d distinct non-trivial, %.1fs\n", c.ID, agg.Runs, agg.Steps, agg.Evals, len(hs), time.Since(t0).Seconds())
	return 0
}

func headOf(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeEvidence(c *Check, verif, tier string, seed uint64, a *workerOut, distinct int, wallRuns, wall float64, viols, planned int, known []string) {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	perHour := 0.0
	if wallRuns > 0 {
		perHour = float64(a.Runs) / wallRuns * 3600
	}
	if a.Samples == nil {
		a.Samples = []map[string]interface{}{}
	}
	cov := map[string]interface{}{
		"evaluations": a.Runs, "distinct_nontrivial": distinct, "rule": c.Rule, "samples": a.Samples,
		"runs_planned": planned, "nontrivial_runs": a.NonTriv, "oracle_comparisons": a.Evals,
		"simulated_steps_total": a.Steps, "simulated_steps_longest_run": a.MaxSteps,
		"simulated_time_note": "the code has no clock or timer; simulated time is counted in I/O operations and scheduling steps",
		"runs_per_hour":       int64(perHour), "seeds_per_hour": int64(perHour),
		"faults_fired": a.Faults, "rare_conditions_reached": a.Probes,
		"distinct_measure": "64-bit hash of the run's complete event sequence (every stream operation with position/length, every callback, every fault, every scheduling decision)",
		"components_real":  c.Real, "components_stubbed": c.Stub,
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	ev := map[string]interface{}{"property": c.ID, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov,
		"assumptions": append([]string{"seeded search samples; a clean batch is evidence, not proof", "the reference model in /verif/sim is trusted"}, c.Assume...), "wall_s": wall, "violations": viols}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(j, '\n'), 0o644)
}

func replay(path string) int {
	rf := readReplay(path)
	c := mustCheck(rf.Property)
	exe, _ := os.Executable()
	if rf.Fatal {
		dir, _ := os.MkdirTemp("", "vsim-")
		defer os.RemoveAll(dir)
		r := runOne(c, exe, dir, rf)
		if r.fatal {
			fmt.Printf("reproduced fatal end: %s\nVIOLATION property=%s replay=%s\n", r.why, rf.Property, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	runtime.GOMAXPROCS(1)
	if !c.NoRlimit {
		limit(asLimit)
	}
	prepare(c, rf)
	e, v := execute(c, NewReplaySrc(rf.Choices), true)
	if v == nil {
		fmt.Println("not reproduced: the run is clean")
		return 0
	}
	h := fmt.Sprintf("%016x", e.Hash)
	if v.Class != rf.Viol.Class || h != rf.Hash {
		fmt.Printf("different violation: class %s (file: %s) hash %s (file: %s)\n%s\n", v.Class, rf.Viol.Class, h, rf.Hash, v.Msg)
		if v.Class == rf.Viol.Class {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
			return 1
		}
		return 3
	}
	fmt.Printf("reproduced %s hash=%s\n%s\n", v.Class, h, v.Msg)
	if v.Stack != "" {
		fmt.Println(v.Stack)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}
