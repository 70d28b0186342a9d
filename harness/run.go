package main

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Out is the result of one run of an executable under test.
type Out struct {
	Stdout, Stderr string
	Code           int
	Signal         bool
	TimedOut       bool
}

func (o *Out) OK() bool { return o.Code == 0 }

// Fault says whether the process died of an internal fault (Go runtime error) rather than of a
// diagnosed problem.
func (o *Out) Fault() bool {
	return o.Signal || strings.Contains(o.Stderr, "runtime error:") ||
		strings.Contains(o.Stderr, "fatal error:") || strings.Contains(o.Stderr, "goroutine stack exceeds") ||
		strings.Contains(o.Stderr, "SIGSEGV")
}

const cmdTimeout = 90 * time.Second

// Run an executable under test in directory cwd with COINDB=db.
func (c *Ctx) Run(cwd, db, name string, args ...string) *Out {
	return c.RunEnv(cwd, []string{"COINDB=" + db}, nil, name, args...)
}

func (c *Ctx) RunEnv(cwd string, env []string, stdin []byte, name string, args ...string) *Out {
	return c.runExe(cwd, env, stdin, filepath.Join(c.bin, name), args...)
}

func (c *Ctx) runExe(cwd string, env []string, stdin []byte, exe string, args ...string) *Out {
	if c.repeat > 0 {
		return c.runAgain(cwd, env, stdin, exe, args...)
	}
	return c.runOnce(cwd, env, stdin, exe, args...)
}

func (c *Ctx) runOnce(cwd string, env []string, stdin []byte, exe string, args ...string) *Out {
	ctx, cancel := context.WithTimeout(context.Background(), cmdTimeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Dir = cwd
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + c.root, "TZ=UTC", "TMPDIR=" + c.root, "GOMAXPROCS=2"}, env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	err := cmd.Run()
	o := &Out{Stdout: so.String(), Stderr: se.String()}
	if ctx.Err() != nil {
		o.TimedOut = true
		o.Code = -1
		return o
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			infraIf(err)
		}
		o.Code = ee.ExitCode()
		if o.Code < 0 {
			o.Signal = true
		}
	}
	return o
}

// Coin runs the coin command on ledger directory db, which is also the working directory.
func (c *Ctx) Coin(db string, args ...string) *Out {
	return c.Run(db, db, "coin", args...)
}

func writeFile(fn, content string) {
	infraIf(os.MkdirAll(filepath.Dir(fn), 0o755))
	infraIf(os.WriteFile(fn, []byte(content), 0o644))
}

func readFile(fn string) string {
	b, err := os.ReadFile(fn)
	infraIf(err)
	return string(b)
}

func helperMain(args []string) {
	switch args[0] {
	case "defs":
		defsHelper(args[1:])
	case "rules":
		rulesHelper(args[1:])
	case "fsize":
		fsizeHelper(args[1:])
	}
}
