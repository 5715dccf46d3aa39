package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// building and running the commands of the repository

var workDir = sync.OnceValue(func() string {
	d := os.Getenv("MC_TMP")
	var err error
	if d == "" {
		d, err = os.MkdirTemp("", "mcwork")
	} else {
		d, err = os.MkdirTemp(d, "w")
	}
	if err != nil {
		fatal("%v", err)
	}
	return d
})

var built sync.Map // command -> path

// tool builds a command of the repository (once) and gives the path of the binary.
func tool(pkg string) string {
	f, _ := built.LoadOrStore(pkg, sync.OnceValue(func() string {
		out := filepath.Join(workDir(), filepath.Base(pkg))
		cmd := exec.Command("go", "build", "-o", out, "github.com/akito0107/xsqlparser/"+pkg)
		cmd.Dir = filepath.Join(verifDir(), "mc")
		if b, err := cmd.CombinedOutput(); err != nil {
			fatal("building %s: %v\n%s", pkg, err, b)
		}
		return out
	}))
	return f.(func() string)()
}

var scratchCount atomic.Int64

// scratch makes a new directory; the caller removes it.
func scratch() string {
	d := filepath.Join(workDir(), "s"+itoa(int(scratchCount.Add(1))))
	if err := os.Mkdir(d, 0o777); err != nil {
		panic(err)
	}
	return d
}

type runResult struct {
	code        int
	out, errOut string
	hung        bool
}

func (r runResult) crashed() bool {
	return r.hung || r.code < 0 || strings.Contains(r.errOut, "goroutine ") || strings.Contains(r.errOut, "fatal error: ")
}

func (r runResult) String() string {
	return fmt.Sprintf("status %d (hung: %v), stdout %.300q, stderr %.300q", r.code, r.hung, r.out, r.errOut)
}

// runTool runs a command to its end.
func runTool(cmd *exec.Cmd) runResult {
	var o, e bytes.Buffer
	if cmd.Stdout == nil {
		cmd.Stdout = &o
	}
	if cmd.Stderr == nil {
		cmd.Stderr = &e
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	var hung atomic.Bool
	t := time.AfterFunc(20*time.Second, func() {
		hung.Store(true)
		cmd.Process.Kill()
	})
	cmd.Wait()
	t.Stop()
	return runResult{cmd.ProcessState.ExitCode(), o.String(), e.String(), hung.Load()}
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func plainText(s string) string {
	return strings.Join(strings.Fields(ansi.ReplaceAllString(s, "")), " ")
}
