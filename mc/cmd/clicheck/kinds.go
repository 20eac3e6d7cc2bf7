package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
)

// Inputs that are not plain files: pipes, links to them, open descriptors.

type kindRun struct {
	kind string
	s    *sample
	line line
	slow int  // pieces a writer writes
	own  bool // the built binary
}

func (k kindRun) show() map[string]any {
	m := showLine(k.line)
	m["source"], m["sample"], m["pieces"], m["built"] = k.kind, k.s.name, k.slow, k.own
	return m
}

var kindNames = []string{"fifo", "link-to-fifo", "pipe-descriptor", "file-descriptor", "removed-file", "link", "read-only", "stdin-file", "stdin-pipe"}

// feed writes the data in pieces.
func feed(f *os.File, data []byte, pieces int) {
	n := len(data)/pieces + 1
	for i := 0; i < len(data); i += n {
		if _, err := f.Write(data[i:min(len(data), i+n)]); err != nil {
			break
		}
		if pieces > 1 {
			time.Sleep(200 * time.Microsecond)
		}
	}
	f.Close()
}

func checkKind(e *explore.Env, k kindRun) *explore.Violation {
	e.Steps(1)
	dir, err := os.MkdirTemp(scratch, "kind")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "input")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	l := k.line
	args := l.args
	var stdin, extra *os.File
	fed := make(chan struct{})
	close(fed)
	switch k.kind {
	case "fifo", "link-to-fifo":
		must(syscall.Mkfifo(p, 0o600))
		fifo := p
		fed = make(chan struct{})
		go func() {
			defer close(fed)
			if f, err := os.OpenFile(fifo, os.O_WRONLY, 0); err == nil {
				feed(f, k.s.data, k.slow)
			}
		}()
		defer func() { // let go of a writer nobody read from
			f, err := os.OpenFile(fifo, os.O_RDONLY|syscall.O_NONBLOCK, 0)
			must(err)
			for end := time.After(10 * time.Second); ; {
				select {
				case <-fed:
					f.Close()
					return
				case <-end:
					f.Close()
					return
				case <-time.After(time.Millisecond):
					f.Close()
					if f, err = os.OpenFile(fifo, os.O_RDONLY|syscall.O_NONBLOCK, 0); err != nil {
						return
					}
				}
			}
		}()
		if k.kind == "link-to-fifo" {
			p = filepath.Join(dir, "link")
			must(os.Symlink("input", p))
		}
	case "pipe-descriptor", "stdin-pipe":
		r, w, err := os.Pipe()
		must(err)
		defer r.Close()
		fed = make(chan struct{})
		go func() { defer close(fed); feed(w, k.s.data, k.slow) }()
		extra = r
	default:
		must(os.WriteFile(p, k.s.data, 0o400))
		switch k.kind {
		case "link":
			must(os.Symlink("input", filepath.Join(dir, "link")))
			p = filepath.Join(dir, "link")
		case "file-descriptor", "removed-file", "stdin-file":
			f, err := os.Open(p)
			must(err)
			defer f.Close()
			extra = f
			if k.kind == "removed-file" {
				must(os.Remove(p))
			}
		}
	}
	switch k.kind {
	case "stdin-file", "stdin-pipe":
		stdin = extra
	case "pipe-descriptor", "file-descriptor", "removed-file":
		p = fmt.Sprintf("/proc/self/fd/%d", extra.Fd())
		if k.own {
			p = "/proc/self/fd/3"
		}
		fallthrough
	default:
		args = append(append([]string{}, args...), "--file", p)
	}
	var o outcome
	if k.own {
		cmd := exec.Command(binary, args...)
		cmd.Env = []string{"HOME=" + scratch, "PATH=/usr/bin:/bin", "TZ=Etc/GMT-9"}
		cmd.Dir = scratch
		if stdin != nil {
			cmd.Stdin = stdin
		} else if extra != nil {
			cmd.ExtraFiles = []*os.File{extra}
		}
		var a, b bytes.Buffer
		cmd.Stdout, cmd.Stderr = &a, &b
		must(cmd.Start())
		tm := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		tm.Stop()
		o = outcome{0, a.Bytes(), b.Bytes()}
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			o.exit = ee.ExitCode()
		}
	} else {
		var in io.Reader = bytes.NewReader(small.data)
		if stdin != nil {
			in = stdin
		}
		end := make(chan outcome, 1)
		go func() { end <- runBuf(args, in) }()
		select {
		case o = <-end:
		case <-time.After(60 * time.Second):
			return bad(line{args: args}, o, "input from a %s (%s, %d pieces): the command does not end", k.kind, k.s.name, k.slow)
		}
	}
	if k.kind == "pipe-descriptor" || k.kind == "stdin-pipe" {
		extra.Close() // a writer nobody reads from ends
	}
	if s := judge(o, l.w, l.t); s != "" {
		return bad(line{args: args}, o, "input from a %s (%s, %d pieces, built command %v): %s", k.kind, k.s.name, k.slow, k.own, s)
	}
	e.Outcome(fmt.Sprintf("%s, fail %v", k.kind, l.w.fail))
	return nil
}

func fileKinds(x *check.Ctx) {
	big := gen.Pkt(gen.HNew, 13, bytes.Repeat([]byte("text "), 40000))
	a, _, _, _ := gen.Armor(big, gen.ArmorOpt{})
	ss := append(append([]*sample{}, samples...), &sample{name: "200 kB", data: big}, &sample{name: "200 kB armored", data: a, armored: true, bin: big})
	check.Space(x, "file-kinds", serial("standard input and --file with a named pipe, a link to one, an open pipe or file by its descriptor, a removed file, a link, a file that cannot be written, every sample and one larger than a pipe holds, written in one piece or several, in this process and by the built command: listed as the file with the same content is"), func(c *explore.Chooser) (kindRun, bool) {
		k := kindRun{kind: explore.PickFree(c, kindNames), s: explore.PickFree(c, ss), slow: 1, own: c.Free(2) == 1}
		k.line.args, k.line.t = optSet(explore.PickFree(c, []int{0, 1, 256}))
		switch k.kind {
		case "fifo", "link-to-fifo", "pipe-descriptor", "stdin-pipe":
			k.slow = explore.PickFree(c, []int{1, 3})
		}
		k.line.w = listing(k.s, k.line.t)
		return k, true
	}, checkKind, kindRun.show)
}
