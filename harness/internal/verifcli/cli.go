// Package verifcli runs the command for real: the harness binary starts itself as the
// command, in a scratch directory of its own.
package verifcli

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Run is what the command is given.
type Run struct {
	Args     []string
	Stdin    string // what the pipe delivers
	Terminal bool   // standard input is a terminal (a character device)
	Fails    bool   // reading the pipe fails at its end
	File     string // contents of the file in.txt
	HasFile  bool
	Dir      bool   // in.txt is a directory
	Fifo     bool   // in.txt is a named pipe
	Old      string // contents of out.txt before
	HasOld   bool
	InName   string // used instead of in.txt
	OutName  string // used instead of out.txt
	Limit    int    // bytes that output files accept, if not negative
}

// Names are the names of the input and output files.
func (r Run) Names() (in, out string) {
	in, out = r.InName, r.OutName
	if in == "" {
		in = "in.txt"
	}
	if out == "" {
		out = "out.txt"
	}
	return
}

// Result is what it did.
type Result struct {
	Code   int
	Stdout string
	Out    string // contents of out.txt
	HasOut bool
	Stderr bool // something was written to standard error
}

// Child prepares the process if it was started as the command.
func Child() bool {
	if os.Getenv("VERIF_CHILD") == "" {
		return false
	}
	if s := os.Getenv("VERIF_LIMIT"); s != "" {
		n, _ := strconv.ParseUint(s, 10, 64)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	return true
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifcli:", err)
		os.Exit(4)
	}
}

// Native runs the command.
func Native(r Run) Result {
	dir, err := os.MkdirTemp("", "verifcli")
	fatal(err)
	defer os.RemoveAll(dir)
	inName, outName := r.Names()
	if r.HasFile {
		in := filepath.Join(dir, inName)
		if r.Dir {
			fatal(os.Mkdir(in, 0o755))
		} else if r.Fifo {
			fatal(syscall.Mkfifo(in, 0o644))
			go func() {
				// opening waits for the command to open the other end
				if f, err := os.OpenFile(in, os.O_WRONLY, 0); err == nil {
					f.Write([]byte(r.File))
					f.Close()
				}
			}()
		} else {
			fatal(os.WriteFile(in, []byte(r.File), 0o644))
		}
	}
	if r.HasOld {
		fatal(os.WriteFile(filepath.Join(dir, outName), []byte(r.Old), 0o644))
	}
	exe, err := os.Executable()
	fatal(err)
	cmd := exec.Command(exe, r.Args...)
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_CHILD=1")
	if r.Limit >= 0 {
		cmd.Env = append(cmd.Env, "VERIF_LIMIT="+strconv.Itoa(r.Limit))
	}
	stdout, err := os.CreateTemp("", "verifcli")
	fatal(err)
	defer os.Remove(stdout.Name())
	defer stdout.Close()
	cmd.Stdout = stdout
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	switch {
	case r.Terminal:
		f, err := os.Open("/dev/null")
		fatal(err)
		defer f.Close()
		cmd.Stdin = f
	case r.Fails:
		l, err := net.Listen("tcp", "127.0.0.1:0")
		fatal(err)
		defer l.Close()
		go func() {
			c, err := l.Accept()
			fatal(err)
			c.Write([]byte(r.Stdin))
			time.Sleep(50 * time.Millisecond)
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
		}()
		c, err := net.Dial("tcp", l.Addr().String())
		fatal(err)
		defer c.Close()
		f, err := c.(*net.TCPConn).File()
		fatal(err)
		defer f.Close()
		cmd.Stdin = f
	default:
		cmd.Stdin = strings.NewReader(r.Stdin)
	}
	done := make(chan error, 1)
	fatal(cmd.Start())
	go func() { done <- cmd.Wait() }()
	var res Result
	select {
	case err = <-done:
	case <-time.After(15 * time.Second):
		cmd.Process.Kill()
		fmt.Fprintln(os.Stderr, "the command does not end")
		os.Exit(1)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		res.Code = ee.ExitCode()
		if res.Code < 0 {
			res.Code = 99
		}
	} else if err != nil && !strings.Contains(err.Error(), "broken pipe") {
		// the command may end without reading all of its input
		fatal(err)
	}
	if res.Code == 2 && strings.Contains(stderr.String(), "goroutine ") {
		fmt.Fprintln(os.Stderr, "the command panics:", stderr.String())
		os.Exit(1)
	}
	b, err := os.ReadFile(stdout.Name())
	fatal(err)
	res.Stdout = string(b)
	if b, err := os.ReadFile(filepath.Join(dir, outName)); err == nil {
		res.Out, res.HasOut = string(b), true
	}
	res.Stderr = stderr.Len() > 0
	return res
}
