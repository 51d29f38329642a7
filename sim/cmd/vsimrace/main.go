package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"syscall"

	_ "verifsim/checks"
	"verifsim/core"
)

// The race detector takes its options from the environment of the process, so
// the first process starts itself once more with them.
func main() {
	if os.Getenv("GORACE") != "" {
		core.Main()
		return
	}
	dir, err := os.MkdirTemp("", "vsim-race-")
	if err != nil {
		panic(err)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe, os.Args[1:]...)
	c.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(dir, "race"))
	c.Stdin, c.Stdout, c.Stderr = os.Stdin, os.Stdout, os.Stderr
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err = c.Run()
	os.RemoveAll(dir)
	if err == nil {
		os.Exit(0)
	}
	if code := c.ProcessState.ExitCode(); code > 0 {
		os.Exit(code)
	}
	os.Exit(2)
}
