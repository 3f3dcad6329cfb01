// Package tool runs the repository's shuttermint command as its operators do.
package tool

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"time"
)

// Bin is the shuttermint executable.
var Bin string

// Result is what a command left behind.
type Result struct {
	OK       bool
	Out, Err string
	Crash    bool // it ended in a panic
	Hangs    bool
}

// Run starts the command in a directory of its own, with nothing but the given environment.
func Run(dir string, env []string, limit time.Duration, args ...string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, Bin, args...)
	c.Dir = dir
	c.Env = append([]string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}, env...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	r := Result{OK: err == nil, Out: o.String(), Err: e.String(), Hangs: ctx.Err() != nil}
	r.Crash = bytes.Contains(e.Bytes(), []byte("panic: ")) && bytes.Contains(e.Bytes(), []byte("goroutine "))
	if os.Getenv("VERBOSE") != "" {
		println(len(args), args[0], args[1], r.OK, r.Out, r.Err)
	}
	return r
}
