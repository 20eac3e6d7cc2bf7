package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/faults"
	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

// line is one command line to run.
type line struct {
	args  []string
	in    *sample
	w     want
	t     settings
	limit int // fault position
	chunk int
	mixed bool
	whole bool
	fault error
	where string // what the fault hits
	env   []string
	class string
	serve []byte
}

func showLine(l line) map[string]any {
	m := map[string]any{"args": l.args}
	if l.in != nil {
		m["stdin"] = l.in.name
	}
	if l.where != "" {
		m["fault"] = fmt.Sprintf("%s at %d: %v", l.where, l.limit, pick(l.fault))
	}
	if l.env != nil {
		m["env"] = l.env
	}
	return m
}

func bad(l line, o outcome, format string, a ...any) *explore.Violation {
	d := showLine(l)
	for k, v := range o.show() {
		d[k] = v
	}
	return &explore.Violation{What: fmt.Sprintf(format, a...) + fmt.Sprintf(" (arguments %q)", l.args), Detail: d}
}

func (l line) stdin() io.Reader {
	if l.in == nil {
		return bytes.NewReader(nil)
	}
	if l.where == "stdin" {
		return &faultReader{data: l.in.data, limit: l.limit, chunk: l.chunk, mixed: l.mixed, err: l.fault}
	}
	return &faultReader{data: l.in.data, limit: -1, chunk: l.chunk}
}

// serveBody makes the transport answer every request with a body.
func serveBody(b []byte) {
	net0.reset(func(int, *http.Request) reply { return ok(b) })
}

// checkLine runs a line and compares it with its expected outcome.
func checkLine(e *explore.Env, l line) *explore.Violation {
	serveBody(l.serve)
	e.Steps(1)
	o := runBuf(l.args, l.stdin())
	if s := judge(o, l.w, l.t); s != "" {
		return bad(l, o, "%s", s)
	}
	e.Outcome(fmt.Sprintf("exit %d, fail %v, json %v, debug %v%s", o.exit, l.w.fail, l.t.json, l.t.o.Debug, l.class))
	return nil
}

func serial(desc string) check.Opt {
	return check.Opt{Workers: 1, Desc: desc}
}

// commands that list something, for the fault spaces
type base struct {
	name  string
	args  []string
	in    *sample
	w     want
	t     settings
	serve []byte
	net   bool
}

func bases(s, arm *sample) []base {
	mk := func(name string, in *sample, srv *sample, t settings, args ...string) base {
		b := base{name: name, args: args, in: in, t: t}
		if srv != nil {
			b.serve, b.net = srv.data, true
			t.armor = t.armor || name != "fetch"
			b.w = listing(srv, t)
		} else {
			b.w = listing(in, t)
		}
		return b
	}
	return []base{
		mk("plain", s, nil, settings{}),
		mk("armored", arm, nil, settings{armor: true}, "-a"),
		mk("json", s, nil, settings{json: true}, "-j"),
		mk("json-indent", arm, nil, settings{json: true, indent: 2}, "-j", "--indent", "2"),
		mk("dumps", s, nil, settings{o: model.Opts{Int: true, Literal: true, Marker: true, Private: true, Cert: true}, indent: 4}, "-cilmp", "--indent=4"),
		mk("hkp", nil, arm, settings{}, "hkp", "alice"),
		mk("hkp-raw", nil, arm, settings{raw: true}, "hkp", "--raw", "alice"),
		mk("github", nil, arm, settings{}, "github", "alice"),
		mk("github-raw", nil, arm, settings{raw: true}, "github", "--raw", "alice"),
		mk("fetch", nil, s, settings{json: true}, "fetch", "-j", "https://example.org/x"),
		mk("fetch", nil, arm, settings{}, "fetch", "https://example.org/x"),
		mk("fetch-raw", nil, s, settings{raw: true}, "fetch", "--raw", "https://example.org/x"),
	}
}

func c18(x *check.Ctx) {
	// 1. command lines over an alphabet
	dir := filepath.Join(scratch, "dir")
	missing := filepath.Join(scratch, "missing")
	toks := []string{"-j", "--json=false", "--indent", "--indent=2", "2", "x", "-a", "-cilmp", "-u", "--utc=maybe", "--debug", "--debug=false",
		"-f", "--file=" + richArm.file, richArm.file, "--file=" + damaged.file, "--file=" + missing, "--file=" + dir, "--file=",
		"-v", "--version", "version", "v", "help", "-h", "--help", "hkp", "h", "github", "g", "fetch", "f", "completion", "cmp", "bash", "ZSH", "fish", "powershell",
		"--bogus", "-z", "", "--", "-", "--raw", "--keyid", "--port=0", "--port", "--keyserver=", "https://example.org/x"}
	allowed := map[string]bool{"": true}
	for m := 0; m < 256; m++ {
		_, t := optSet(m)
		for _, s := range []*sample{rich, small} {
			t.armor = false
			w := listing(s, t)
			if !w.fail {
				for _, ind := range []int{0, 2, 1} {
					allowed[textWith(w.nodes, ind)] = true
				}
			}
		}
	}
	n := x.Bound(2, 3)
	known := func(out []byte) bool {
		k := string(out)
		if ns, err := model.ReadJSON(out); err == nil {
			k = textWith(ns, 0)
		}
		return allowed[k] || bytes.Equal(out, richArm.data)
	}
	tokenCheck := func(e *explore.Env, l line) *explore.Violation {
		serveBody(richArm.data)
		e.Steps(1)
		o := runBuf(l.args, l.stdin())
		if bytes.Contains(o.err, []byte("Panic:")) {
			return bad(l, o, "the command panicked")
		}
		debug, compl := false, false
		for _, a := range l.args {
			debug = debug || strings.HasPrefix(a, "--debug")
			compl = compl || a == "completion" || a == "cmp"
		}
		switch o.exit {
		case 0:
			if len(o.out) == 0 && len(o.err) == 0 && l.in != empty {
				return bad(l, o, "exit 0 with neither output nor message")
			}
			if len(o.out) > 0 && len(o.err) > 0 {
				return bad(l, o, "exit 0 with a listing and a message")
			}
			if len(o.out) > 0 && !debug && !compl {
				if !known(o.out) {
					return bad(l, o, "standard output holds something that is not a complete listing")
				}
			}
			if len(o.out) > 0 && compl && !debug && !bytes.Contains(o.out, []byte(facade.Name)) && !known(o.out) {
				return bad(l, o, "not a completion script")
			}
		case 1:
			if len(o.out) > 0 {
				return bad(l, o, "exit 1 with output on standard output")
			}
			if len(o.err) == 0 {
				return bad(l, o, "exit 1 without a message")
			}
		default:
			return bad(l, o, "exit status %d", o.exit)
		}
		e.Outcome(fmt.Sprintf("exit %d, out %v, err %v", o.exit, len(o.out) > 0, len(o.err) > 0))
		return nil
	}
	check.Space(x, "command-lines", serial("every command line of up to two (thorough: three) tokens from an alphabet of flags, values, sub-commands, files and nonsense, on a good, a damaged and an empty input: the streams and the exit status agree"), func(c *explore.Chooser) (line, bool) {
		l := line{in: explore.PickFree(c, []*sample{rich, damaged, empty})}
		for k := c.Free(n + 1); k > 0; k-- {
			l.args = append(l.args, explore.PickFree(c, toks))
		}
		return l, true
	}, tokenCheck, showLine)
	if !x.Thorough() {
		few := []string{"-j", "--indent=2", "-a", "--debug", "-f", richArm.file, "--file=" + damaged.file, "--file=" + missing, "-v", "version", "--help", "hkp", "github", "fetch", "completion", "fish", "--bogus", "--", "--raw", "https://example.org/x"}
		check.Space(x, "three-tokens", serial("every command line of three tokens from a reduced alphabet on a good input"), func(c *explore.Chooser) (line, bool) {
			l := line{in: rich}
			for k := 0; k < 3; k++ {
				l.args = append(l.args, explore.PickFree(c, few))
			}
			return l, true
		}, tokenCheck, showLine)
	}
	// 2. every sample as input of every way to read it
	check.Space(x, "inputs", serial("every sample (good, damaged, empty, text, broken armor) read from standard input and from --file under every combination of armor-only, debug, JSON and integer options, in several deliveries"), func(c *explore.Chooser) (line, bool) {
		s := explore.PickFree(c, samples)
		var l line
		for i, f := range optFlags {
			if i == 0 || i == 2 || i == 3 || i == 8 {
				if c.Free(2) == 1 {
					f.set(&l.t, true)
					l.args = append(l.args, f.long)
				}
			}
		}
		if c.Free(2) == 1 {
			l.args = append(l.args, "--file", s.file)
			l.in = damaged
		} else {
			l.in = s
			l.chunk = explore.PickFree(c, []int{0, 1, 7})
		}
		l.w = listing(s, l.t)
		return l, true
	}, checkLine, showLine)
	check.Space(x, "files", serial("missing files, directories and paths below files under every debug/armor/JSON combination"), func(c *explore.Chooser) (line, bool) {
		l := line{in: rich, w: want{fail: true}}
		for i, f := range optFlags {
			if i == 0 || i == 2 || i == 8 {
				if c.Free(2) == 1 {
					f.set(&l.t, true)
					l.args = append(l.args, f.long)
				}
			}
		}
		p := explore.PickFree(c, []string{missing, dir, rich.file + "/x", scratch + "/dir/none", "\x00", strings.Repeat("n", 5000)})
		if c.Free(2) == 0 {
			l.args = append(l.args, "-f", p)
		} else {
			l.args = append([]string{"--file=" + p}, l.args...)
		}
		return l, true
	}, checkLine, showLine)
	// 3. input faults
	check.Space(x, "input-faults", serial("standard input failing after every number of bytes, alone or together with the last bytes, in small and large pieces: reported, and nothing listed"), func(c *explore.Chooser) (line, bool) {
		var l line
		l.in = explore.PickFree(c, []*sample{rich, richArm, html, small})
		m := explore.PickFree(c, []int{0, 1, 4, 256, 257})
		l.args, l.t = optSet(m)
		l.w = want{fail: true}
		l.where = "stdin"
		l.chunk = explore.PickFree(c, []int{0, 1})
		l.mixed = c.Free(2) == 1
		l.limit = c.Free(len(l.in.data) + 1)
		return l, true
	}, checkLine, showLine)
	check.Space(x, "input-fault-kinds", serial("standard input failing with each kind of read error (broken, closed, timed out, interrupted, reset, wrapped end of file ...) at the start, inside and at the end: reported, and nothing listed"), func(c *explore.Chooser) (line, bool) {
		var l line
		l.in = explore.PickFree(c, []*sample{rich, richArm, html, small})
		m := explore.PickFree(c, []int{0, 1, 4, 256, 257})
		l.args, l.t = optSet(m)
		l.w = want{fail: true}
		l.where = "stdin"
		l.chunk = explore.PickFree(c, []int{0, 1})
		l.mixed = c.Free(2) == 1
		l.fault = explore.PickFree(c, faults.Read)
		n := len(l.in.data)
		l.limit = explore.PickFree(c, []int{0, 1, n / 2, n - 1, n})
		return l, true
	}, checkLine, showLine)
	// 4. output faults
	outFault := func(e *explore.Env, l line) *explore.Violation {
		serveBody(l.serve)
		e.Steps(1)
		w := &faultWriter{limit: l.limit, whole: l.whole, err: l.fault}
		var eb bytes.Buffer
		x := run(l.args, l.stdin(), w, &eb)
		o := outcome{x, w.got, eb.Bytes()}
		if bytes.Contains(o.err, []byte("Panic:")) {
			return bad(l, o, "the command panicked")
		}
		if !w.failed {
			if s := judge(o, l.w, l.t); s != "" {
				return bad(l, o, "%s", s)
			}
			e.Outcome("complete")
			return nil
		}
		if o.exit != 1 {
			return bad(l, o, "a failing standard output (after %d bytes) exits %d", l.limit, o.exit)
		}
		if len(o.err) == 0 {
			return bad(l, o, "a failing standard output is not reported")
		}
		if l.w.isRaw {
			if !bytes.HasPrefix(l.w.raw, o.out) {
				return bad(l, o, "what was written before the failure is not the beginning of the output")
			}
		} else if !l.t.json {
			if !strings.HasPrefix(textWith(l.w.nodes, l.t.indent), string(o.out)) {
				return bad(l, o, "what was written before the failure is not the beginning of the output")
			}
		}
		e.Outcome(l.class + " failed")
		return nil
	}
	bs := bases(rich, richArm)
	small := bases(small, smallArm)
	check.Space(x, "output-faults", serial("standard output failing after every number of bytes, taking part of the last write or none of it, for every command that lists and every output format: exit status 1 and a message"), func(c *explore.Chooser) (line, bool) {
		i := c.Free(len(bs))
		b := bs[i]
		if b.net && !x.Thorough() {
			b = small[i]
		}
		l := line{args: b.args, in: b.in, w: b.w, t: b.t, serve: b.serve, class: b.name, where: "stdout"}
		l.whole = c.Free(2) == 1
		max := len(textWith(b.w.nodes, b.t.indent))
		if b.w.isRaw {
			max = len(b.w.raw)
		} else if b.t.json {
			max = 3 * max
		}
		l.limit = c.Free(max + 1)
		return l, true
	}, outFault, showLine)
	check.Space(x, "output-fault-kinds", serial("standard output failing with each kind of write error (broken pipe, full, closed, timed out, interrupted ...) at the start, inside and at the last byte, for every command that lists: exit status 1 and a message"), func(c *explore.Chooser) (line, bool) {
		b := small[c.Free(len(small))]
		l := line{args: b.args, in: b.in, w: b.w, t: b.t, serve: b.serve, class: b.name, where: "stdout"}
		l.whole = c.Free(2) == 1
		n := len(textWith(b.w.nodes, b.t.indent))
		if b.w.isRaw {
			n = len(b.w.raw)
		}
		l.fault = explore.PickFree(c, faults.Write)
		l.limit = explore.PickFree(c, []int{0, 1, n / 2, n - 1})
		return l, true
	}, outFault, showLine)
	check.Space(x, "completion-faults", serial("the completion scripts with standard output failing after every number of bytes up to the bound and at every 97th byte after it"), func(c *explore.Chooser) (line, bool) {
		l := line{where: "stdout", class: "completion", w: want{isRaw: true}}
		l.args = explore.PickFree(c, [][]string{{"completion"}, {"completion", "bash"}, {"cmp", "zsh"}, {"compl", "fish"}, {"completion", "PowerShell"}})
		k := c.Free(x.Bound(150, 400) + 1)
		l.limit = k
		if k > 100 {
			l.limit = 100 + (k-100)*97
		}
		if k == x.Bound(150, 400) {
			l.limit = 1 << 30 // no fault
		}
		l.whole = c.Free(2) == 1
		if k < 3 {
			l.fault = explore.PickFree(c, faults.Write)
		}
		return l, true
	}, func(e *explore.Env, l line) *explore.Violation {
		e.Steps(1)
		w := &faultWriter{limit: l.limit, whole: l.whole, err: l.fault}
		var eb bytes.Buffer
		o := outcome{run(l.args, bytes.NewReader(nil), w, &eb), w.got, eb.Bytes()}
		if w.failed != (o.exit == 1) || w.failed != (len(o.err) > 0) {
			return bad(l, o, "standard output failed: %v, yet exit %d", w.failed, o.exit)
		}
		e.Outcome(fmt.Sprint("failed ", w.failed))
		return nil
	}, showLine)
	// 5. version, help
	check.Space(x, "version-help", serial("version, help and usage texts go to standard error only; a failing standard error makes the version command exit 1"), func(c *explore.Chooser) (line, bool) {
		l := line{in: rich}
		l.args = explore.PickFree(c, [][]string{{"-v"}, {"--version"}, {"version"}, {"ver"}, {"v"}, {"-h"}, {"--help"}, {"help"}, {"help", "hkp"}, {"hkp", "--help"}, {"github", "-h"}, {"fetch", "--help"}, {"version", "--help"}, {"completion", "--help"}, {"-v", "-j"}, {"-a", "-v"}})
		l.limit = -1
		if len(l.args) == 1 && !strings.Contains(l.args[0], "h") {
			l.limit = c.Free(30) - 1
			l.whole = c.Free(2) == 1
			if l.limit >= 0 && l.limit < 3 {
				l.fault = explore.PickFree(c, faults.Write)
			}
		}
		return l, true
	}, func(e *explore.Env, l line) *explore.Violation {
		e.Steps(1)
		var ob bytes.Buffer
		lim := l.limit
		if lim < 0 {
			lim = 1 << 30
		} else {
			l.where = "stderr"
		}
		w := &faultWriter{limit: lim, whole: l.whole, err: l.fault}
		o := outcome{exit: run(l.args, l.stdin(), &ob, w)}
		o.out, o.err = ob.Bytes(), w.got
		if len(o.out) > 0 {
			return bad(l, o, "version or help text on standard output")
		}
		if w.failed != (o.exit == 1) {
			return bad(l, o, "standard error failed: %v, yet exit %d", w.failed, o.exit)
		}
		if !w.failed {
			if len(o.err) == 0 {
				return bad(l, o, "no text")
			}
			if strings.HasPrefix(strings.TrimLeft(l.args[len(l.args)-1], "-"), "v") && !strings.Contains(string(o.err), facade.Name+" "+facade.Version) {
				return bad(l, o, "no version")
			}
		}
		e.Outcome(fmt.Sprint("failed ", w.failed))
		return nil
	}, showLine)
	bigSpace(x, []string{"stdin", "file"}, false)
	check.Space(x, "large-output-faults", serial("outputs of up to some 400 kB, as text and as JSON, with standard output failing at every power of two and ten and next to it: exit status 1 and a message"), func(c *explore.Chooser) (bigLine, bool) {
		b := bigLine{way: "stdin", kind: explore.PickFree(c, []string{"one", "many", "line"}), size: explore.PickFree(c, []int{5000, 40000, 100000}), arm: c.Free(2) == 1}
		k := c.Free(3)
		b.args, b.t = bigOpts[k].args, bigOpts[k].t
		b.fault = explore.PickFree(c, append(bigSizes(1<<19), 0, 1))
		return b, true
	}, checkBig, showBig)
	// 6. the built command
	check.Space(x, "built-command", check.Opt{Desc: "the built binary on every sample from standard input and --file under the main flags, with a full device as output, and with bad arguments: exit status and streams as in the model"}, func(c *explore.Chooser) (line, bool) {
		var l line
		switch c.Free(4) {
		case 0, 1:
			s := explore.PickFree(c, samples)
			m := explore.PickFree(c, []int{0, 1, 4, 256, 0x1f8, 128})
			l.args, l.t = optSet(m)
			l.in = s
			if c.Free(2) == 1 {
				l.in = nil
				l.args = append(l.args, "-f", s.file)
			}
			l.w = listing(s, l.t)
		case 2:
			l.args = explore.PickFree(c, [][]string{{"--bogus"}, {"noexist"}, {"-f", missing}, {"-f", dir}, {"hkp"}, {"github"}, {"fetch"}, {"fetch", "::"}, {"completion", "x"}, {"--indent", "x"}, {"--clipboard", "-f", rich.file}})
			l.in, l.w = rich, want{fail: true}
		case 3:
			l.args = explore.PickFree(c, [][]string{nil, {"-j"}, {"-a"}, {"completion"}, {"-u", "--indent", "3"}})
			l.in, l.where = richArm, "full"
		}
		return l, true
	}, checkBinary, showLine)
	x.Assume = append(x.Assume, "the in-process run of facade.Execute behaves as the command does (checked on the built binary for a part)")
}

// checkBinary runs the built command.
func checkBinary(e *explore.Env, l line) *explore.Violation {
	e.Steps(1)
	cmd := exec.Command(binary, l.args...)
	cmd.Env = append([]string{"HOME=" + scratch, "PATH=" + scratch + "/bin:/usr/bin:/bin", "TZ=Etc/GMT-9"}, l.env...)
	cmd.Dir = scratch
	if l.in != nil {
		cmd.Stdin = bytes.NewReader(l.in.data)
	}
	var a, b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &a, &b
	if l.where == "full" {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return nil
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Start()
	if err != nil {
		fmt.Println("cannot run the built command:", err)
		os.Exit(2)
	}
	tm := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	tm.Stop()
	o := outcome{0, a.Bytes(), b.Bytes()}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		o.exit = ee.ExitCode()
	}
	if l.where == "full" {
		if o.exit != 1 || len(o.err) == 0 {
			return bad(l, o, "the built command on a full device exits %d", o.exit)
		}
		e.Outcome("full")
		return nil
	}
	if s := judge(o, l.w, l.t); s != "" {
		return bad(l, o, "built command: %s", s)
	}
	e.Outcome(fmt.Sprintf("binary exit %d, fail %v", o.exit, l.w.fail))
	return nil
}
