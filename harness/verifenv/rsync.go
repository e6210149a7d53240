package verifenv

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"github.com/cloudflare/cfrpki/verifrt"
)

// RsyncResult is what the rsync program prints and returns for one URI.
type RsyncResult struct {
	URI  string
	Out  string
	Code int
}

var (
	rsyncTable []RsyncResult
	rsyncRuns  []string
)

func scratch(name string) string { return os.Getenv("VERIF_SCRATCH") + "/" + name }

// Rsync installs an rsync program with the given results (others fail) and returns its path.
func Rsync(results []RsyncResult) string {
	rsyncTable, rsyncRuns = results, nil
	if verifrt.Symbolic() {
		return "/v/rsync"
	}
	s := "#!/bin/sh\necho \"$2\" >> " + scratch("rsync.log") + "\ncase \"$2\" in\n"
	for _, r := range results {
		s += "'" + r.URI + "')\nprintf '%s' '" + r.Out + "'\nexit " + fmt.Sprint(r.Code) + ";;\n"
	}
	s += "esac\nexit 5\n"
	os.Remove(scratch("rsync.log"))
	if err := os.WriteFile(scratch("rsync"), []byte(s), 0755); err != nil {
		panic(err)
	}
	return scratch("rsync")
}

// RsyncRuns is the list of URIs rsync was run for.
func RsyncRuns() []string {
	if verifrt.Symbolic() {
		return append([]string(nil), rsyncRuns...)
	}
	d, _ := os.ReadFile(scratch("rsync.log"))
	var l []string
	for _, s := range strings.Split(string(d), "\n") {
		if s != "" {
			l = append(l, s)
		}
	}
	return l
}

// Symbolically, package os/exec leads here.

type proc struct {
	cmd     *exec.Cmd
	out     *pipe
	started bool
	waited  bool
	code    int
}

type pipe struct {
	data string
	shut bool
}

func (p *pipe) Read(b []byte) (int, error) {
	if p.shut {
		return 0, os.ErrClosed
	}
	if len(p.data) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.data)
	p.data = p.data[n:]
	return n, nil
}

func (p *pipe) Close() error {
	p.shut = true
	return nil
}

var procs []*proc

func procOf(c *exec.Cmd) *proc {
	for _, p := range procs {
		if p.cmd == c {
			return p
		}
	}
	p := &proc{cmd: c}
	procs = append(procs, p)
	return p
}

func execCommand(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func execCommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	return execCommand(name, arg...)
}

func execStdoutPipe(c *exec.Cmd) (io.ReadCloser, error) {
	p := procOf(c)
	if p.started || p.out != nil {
		return nil, errors.New("exec: StdoutPipe after process started")
	}
	p.out = &pipe{}
	return p.out, nil
}

func execStderrPipe(c *exec.Cmd) (io.ReadCloser, error) {
	if procOf(c).started {
		return nil, errors.New("exec: StderrPipe after process started")
	}
	return &pipe{}, nil
}

func execStart(c *exec.Cmd) error {
	p := procOf(c)
	if p.started {
		return errors.New("exec: already started")
	}
	if c.Path != "/v/rsync" {
		return errors.New("exec: no such program")
	}
	p.started = true
	p.code = 5
	if len(c.Args) < 3 {
		return nil
	}
	uri := c.Args[2]
	rsyncRuns = append(rsyncRuns, uri)
	for _, r := range rsyncTable {
		if r.URI == uri {
			p.code = r.Code
			if p.out != nil {
				p.out.data = r.Out
			}
			break
		}
	}
	return nil
}

func execWait(c *exec.Cmd) error {
	p := procOf(c)
	if !p.started || p.waited {
		return errors.New("exec: not started or already waited for")
	}
	p.waited = true
	if p.out != nil {
		p.out.shut = true
	}
	if p.code != 0 {
		return fmt.Errorf("exit status %d", p.code)
	}
	return nil
}

func execRun(c *exec.Cmd) error {
	if err := execStart(c); err != nil {
		return err
	}
	return execWait(c)
}

func execOutput(c *exec.Cmd) ([]byte, error) {
	p := procOf(c)
	p.out = &pipe{}
	if err := execStart(c); err != nil {
		return nil, err
	}
	out := []byte(p.out.data)
	return out, execWait(c)
}

func execCombinedOutput(c *exec.Cmd) ([]byte, error) { return execOutput(c) }
