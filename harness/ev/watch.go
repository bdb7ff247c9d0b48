package ev

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Stopped is the error of a command that Watch had to end.
var Stopped = errors.New("stopped")

// Watch runs cmd and ends it when it takes longer than limit or holds more
// than mem bytes of memory: an endless loop or an allocation without bound in
// the code under test is an observation too, not a missing answer. Both limits
// are far beyond what the unchanged tree needs.
func Watch(cmd *exec.Cmd, limit time.Duration, mem int64) error {
	if err := cmd.Start(); err != nil {
		return err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	end := time.After(limit)
	t := time.NewTicker(100 * time.Millisecond)
	defer t.Stop()
	stop := func(format string, args ...any) error {
		cmd.Process.Kill()
		select {
		case <-done:
		case <-time.After(10 * time.Second): // something it started still holds the output
		}
		return fmt.Errorf("%w: "+format, append([]any{Stopped}, args...)...)
	}
	for {
		select {
		case err := <-done:
			return err
		case <-end:
			return stop("it did not finish in %v", limit)
		case <-t.C:
			if n := resident(cmd.Process.Pid); n > mem {
				return stop("it holds %d MB of memory", n>>20)
			}
		}
	}
}

func resident(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// Child runs the workload in a process of its own, so that what no recover
// can catch (a fatal error, a deadlock, an endless loop, memory without
// bound) is reported as well. It does not return.
func (r *Run) Child(cmd *exec.Cmd, exit func(code int)) {
	limit := 600 * time.Second
	if r.Thorough() {
		limit = 1500 * time.Second
	}
	cmd.Stdout = os.Stdout
	var keep headBuffer
	cmd.Stderr = &keep
	err := Watch(cmd, limit, 16<<30)
	os.Stderr.Write(keep.b)
	if err == nil {
		os.Exit(0)
	}
	if x, ok := err.(*exec.ExitError); ok {
		c := x.ExitCode()
		if exit != nil {
			exit(c)
		}
		if c == 1 || c == 3 || c == 4 {
			os.Exit(c)
		}
	}
	s := string(keep.b)
	if i := strings.Index(s, "\n\ngoroutine "); i > 0 && i < 2000 {
		s = s[:min(len(s), i+2000)]
	} else if len(s) > 2500 {
		s = s[:2500]
	}
	r.Eval("crash", true)
	r.Violate("crash", "the workload process died: %v\n%s", err, s)
	r.Finish()
}

// headBuffer keeps the first part of what is written to it.
type headBuffer struct{ b []byte }

func (t *headBuffer) Write(p []byte) (int, error) {
	if n := 1<<20 - len(t.b); n > 0 {
		t.b = append(t.b, p[:min(n, len(p))]...)
	}
	return len(p), nil
}
