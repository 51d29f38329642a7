package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"
)

// shrink minimises the violating run in a child process, so that a candidate
// which hangs, dies or exhausts memory costs no more than the minimisation.
func shrink(c *Check, exe, dir string, rf *ReplayFile) *ReplayFile {
	p := filepath.Join(dir, "shrink.json")
	j, _ := json.Marshal(rf)
	os.WriteFile(p, j, 0o600)
	cmd := exec.Command(exe, "shrink", c.ID, p)
	if err := cmd.Start(); err == nil {
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	best := rf.Choices
	if d, err := os.ReadFile(p + ".best"); err == nil {
		var ch []uint64
		if json.Unmarshal(d, &ch) == nil {
			best = nonNil(ch)
		}
	}
	for _, ch := range [][]uint64{trimZeros(best), best, rf.Choices} {
		r := runOne(c, exe, dir, &ReplayFile{Property: c.ID, Seed: rf.Seed, Run: rf.Run, Choices: nonNil(ch)})
		if r.rf != nil && r.rf.Viol != nil && r.rf.Viol.Class == rf.Viol.Class {
			o := r.rf
			o.Choices = nonNil(ch)
			o.Original = len(rf.Choices)
			return o
		}
	}
	rf.Original = len(rf.Choices)
	return rf
}

// shrinkChild is the child process of shrink.
func shrinkChild(c *Check, path string) {
	runtime.GOMAXPROCS(1)
	if !c.NoRlimit {
		limit(asLimit)
	}
	rf := readReplay(path)
	deadline := time.Now().Add(20 * time.Second)
	class := rf.Viol.Class
	cur := append([]uint64(nil), rf.Choices...)
	save := func() {
		j, _ := json.Marshal(cur)
		os.WriteFile(path+".t", j, 0o600)
		os.Rename(path+".t", path+".best")
	}
	last := time.Now()
	try := func(ch []uint64) (ok bool) {
		if time.Now().After(deadline) {
			return false
		}
		defer func() {
			if recover() != nil { // the machinery does not accept these choices
				ok = false
			}
		}()
		e, v := execute(c, NewReplaySrc(ch), false)
		if v == nil || v.Class != class {
			return false
		}
		n := len(e.Rec)
		if n < len(ch) {
			ch = ch[:n]
		}
		cur = append([]uint64(nil), ch...)
		if time.Since(last) > 300*time.Millisecond {
			save()
			last = time.Now()
		}
		return true
	}
	minimise(&cur, try, func() bool { return time.Now().After(deadline) })
	save()
	os.Exit(0)
}

// withBefore reproduces a run that fails only after others in the same process.
func withBefore(c *Check, exe, dir string, rf *ReplayFile, before []uint64) *ReplayFile {
	deadline := time.Now().Add(60 * time.Second)
	try := func(list []uint64) *ReplayFile {
		r := runOne(c, exe, dir, &ReplayFile{Property: c.ID, Seed: rf.Seed, Run: rf.Run, Choices: nonNil(rf.Choices), Before: list})
		if r.rf != nil && r.rf.Viol != nil && r.rf.Viol.Class == rf.Viol.Class {
			r.rf.Original = len(rf.Choices)
			return r.rf
		}
		return nil
	}
	var best *ReplayFile
	for k := 1; best == nil; k *= 4 {
		if k > len(before) {
			k = len(before)
		}
		best = try(before[len(before)-k:])
		if k == len(before) {
			break
		}
	}
	if best == nil {
		return nil
	}
	// drop what is not needed
	for size := len(best.Before) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(best.Before) && len(best.Before) > 1 && time.Now().Before(deadline); {
			l := append(append([]uint64(nil), best.Before[:i]...), best.Before[i+size:]...)
			if r := try(l); r != nil {
				best = r
			} else {
				i += size
			}
		}
	}
	return best
}

func trimZeros(c []uint64) []uint64 {
	n := len(c)
	for n > 0 && c[n-1] == 0 {
		n--
	}
	return append([]uint64{}, c[:n]...)
}

func minimise(cur *[]uint64, try func([]uint64) bool, over func() bool) {
	for pass := 0; pass < 6 && !over(); pass++ {
		improved := false
		// delete chunks
		for size := len(*cur) / 2; size >= 1 && !over(); size /= 2 {
			for i := 0; i+size <= len(*cur) && !over(); {
				ch := append(append([]uint64(nil), (*cur)[:i]...), (*cur)[i+size:]...)
				if try(ch) {
					improved = true
				} else {
					i += size
				}
			}
			if len(*cur) > 3000 && size < 16 {
				break
			}
		}
		// zero chunks
		for size := 16; size >= 1 && !over(); size /= 4 {
			for i := 0; i+size <= len(*cur) && !over(); i += size {
				ch := append([]uint64(nil), *cur...)
				nz := false
				for k := i; k < i+size; k++ {
					if ch[k] != 0 {
						nz = true
					}
					ch[k] = 0
				}
				if nz && try(ch) {
					improved = true
				}
			}
		}
		// shrink values
		for i := 0; i < len(*cur) && !over(); i++ {
			for (*cur)[i] > 0 {
				ch := append([]uint64(nil), *cur...)
				ch[i] /= 2
				if !try(ch) {
					ch = append([]uint64(nil), *cur...)
					ch[i]--
					if ch[i] > 64 || !try(ch) {
						break
					}
				}
				improved = true
				if i >= len(*cur) || over() {
					break
				}
			}
		}
		if !improved {
			return
		}
	}
}

type oneResult struct {
	fatal bool
	why   string
	rf    *ReplayFile
}

// runOne executes a run in a child process and judges how the process ended.
func runOne(c *Check, exe, dir string, rf *ReplayFile) oneResult {
	p := filepath.Join(dir, "one.json")
	for _, s := range []string{".out", ".choices"} {
		os.Remove(p + s)
	}
	j, _ := json.Marshal(rf)
	os.WriteFile(p, j, 0o600)
	cmd := exec.Command(exe, "one", c.ID, p)
	var eb tailBuf
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		Bug("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hang := false
	var err error
	t0 := time.Now()
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-time.After(50 * time.Millisecond):
			if cpuOf(cmd.Process.Pid) > hangCPU || time.Since(t0) > 280*time.Second {
				hang = cpuOf(cmd.Process.Pid) > hangCPU
				cmd.Process.Kill()
				err = <-done
				break wait
			}
		}
	}
	if d, e := os.ReadFile(p + ".out"); e == nil {
		var o ReplayFile
		if json.Unmarshal(d, &o) == nil {
			return oneResult{rf: &o}
		}
	}
	o := &ReplayFile{Property: c.ID, Seed: rf.Seed, Run: rf.Run, Choices: rf.Choices, Fatal: true}
	if d, e := os.ReadFile(p + ".choices"); e == nil {
		ch := []uint64{}
		for k := 0; k+8 <= len(d); k += 8 {
			ch = append(ch, binary.LittleEndian.Uint64(d[k:]))
		}
		o.Choices = ch
	}
	if hang {
		return oneResult{fatal: true, why: fmt.Sprintf("the run does not end (stopped after %.0f CPU seconds)", hangCPU), rf: o}
	}
	s := eb.b.String()
	if err != nil && strings.Contains(s, "fatal error:") {
		return oneResult{fatal: true, why: "the process died: " + headOf(s, 3000), rf: o}
	}
	return oneResult{why: fmt.Sprintf("%v %s", err, headOf(s, 2000))}
}

func confirmDeath(c *Check, exe, dir string, seed, run uint64, why string, hang bool) *ReplayFile {
	r := runOne(c, exe, dir, &ReplayFile{Property: c.ID, Seed: seed, Run: run})
	if !r.fatal {
		if r.rf != nil && r.rf.Viol != nil {
			r.rf.Original = len(r.rf.Choices)
			return r.rf
		}
		return nil
	}
	rf := r.rf
	rf.Original = len(rf.Choices)
	class, msg := "fatal", r.why
	if rf.Choices != nil && !strings.Contains(r.why, "does not end") {
		deadline := time.Now().Add(40 * time.Second)
		cur := append([]uint64(nil), rf.Choices...)
		minimise(&cur, func(ch []uint64) bool {
			if time.Now().After(deadline) {
				return false
			}
			x := runOne(c, exe, dir, &ReplayFile{Property: c.ID, Seed: seed, Run: run, Choices: nonNil(ch)})
			if x.fatal {
				cur = append([]uint64(nil), ch...)
			}
			return x.fatal
		}, func() bool { return time.Now().After(deadline) })
		rf.Choices = nonNil(cur)
	} else if strings.Contains(r.why, "does not end") {
		class = "non-termination"
	}
	rf.Fatal = true
	rf.Viol = &Violation{Class: class, Msg: msg}
	return rf
}

func nonNil(c []uint64) []uint64 {
	if c == nil {
		return []uint64{}
	}
	return c
}
