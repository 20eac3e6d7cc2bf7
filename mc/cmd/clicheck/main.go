// Command clicheck decides the properties of the gpgpdump command: outcome,
// options, and the three commands that fetch.  The real command (facade.Execute)
// runs in this process with every stream, file, clipboard and HTTP exchange under
// the explorer's control; a part is repeated with the built binary.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/faults"
	"gpgpmc/gen"
	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

var (
	scratch string // scratch directory, removed at the end
	zone    = time.FixedZone("", 9*3600)
	binary  string // the built command
)

func main() {
	if os.Getenv("GPGPMC_SCRATCH") == "" {
		os.Exit(parent())
	}
	scratch = os.Getenv("GPGPMC_SCRATCH")
	self, _ := os.Executable()
	binary = filepath.Join(filepath.Dir(self), "gpgpdump")
	time.Local = zone
	http.DefaultTransport = net0
	prepare()
	check.Main(map[string]func(*check.Ctx){"C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C28": c28})
}

// parent runs the checker proper with a stand-in clipboard tool first on PATH
// (the clipboard package looks for it when it is loaded).
func parent() int {
	dir, err := os.MkdirTemp("", "clicheck")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "bin")
	os.Mkdir(bin, 0o755)
	os.WriteFile(filepath.Join(bin, "xclip"), []byte("#!/bin/sh\nexec /bin/cat \""+dir+"/clip\"\n"), 0o755)
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	cmd := exec.Command(self, os.Args[1:]...)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "WAYLAND_DISPLAY=") && !strings.HasPrefix(e, "PATH=") && !strings.HasPrefix(e, "HTTP_PROXY=") && !strings.HasPrefix(e, "HTTPS_PROXY=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "GPGPMC_SCRATCH="+dir, "PATH="+bin+":"+os.Getenv("PATH"))
	err = cmd.Run()
	var ee *exec.ExitError
	switch {
	case err == nil:
		return 0
	case errors.As(err, &ee):
		return ee.ExitCode()
	}
	fmt.Println(err)
	return 2
}

// ---- samples ---------------------------------------------------------------

// sample is an input whose meaning is known.
type sample struct {
	name    string
	data    []byte
	armored bool   // holds a complete armor block ...
	bin     []byte // ... of this stream
	broken  bool   // the armor block is damaged: an error in every mode
	file    string
}

var (
	rich, richArm, small, smallArm, html, damaged, damagedArm, empty, text, badSum, noArm *sample
	samples                                                                               []*sample
)

func prepare() {
	g := gen.New(explore.Default(), gen.Tiny)
	uid := gen.Pkt(gen.HNew, 13, []byte("Alice <alice@example.org>"))
	att := gen.SubHdr(0, 33, 37, g.Fill(32))
	tm := gen.SubHdr(0, 5, 2, []byte{0x5e, 0x0b, 0xe1, 0x00})
	exp := gen.SubHdr(0, 5, 9, []byte{0x00, 0x15, 0x18, 0x00})
	var r []byte
	r = append(r, gen.Pkt(gen.HNew, 10, []byte("PGP"))...)
	r = append(r, gen.Pkt(gen.HNew, 6, g.PubKeyShape(0))...)
	r = append(r, uid...)
	r = append(r, gen.Pkt(gen.HNew, 2, g.SigWith(4, [][]byte{tm, exp, att}, [][]byte{gen.SubHdr(0, 9, 16, []byte{1, 2, 3, 4, 5, 6, 7, 8})}))...)
	r = append(r, gen.Pkt(gen.HNew, 11, []byte("b\x04file\x60\x00\x00\x00literal <data>"))...)
	r = append(r, gen.Pkt(gen.HNew, 60, []byte("private"))...)
	r = append(r, gen.Pkt(gen.HNew, 13, []byte("end"))...)
	sm := gen.Pkt(gen.HNew, 13, []byte("A"))
	arm := func(b []byte) []byte {
		a, _, _, _ := gen.Armor(b, gen.ArmorOpt{Type: "PUBLIC KEY BLOCK", Headers: []string{"Comment: x"}})
		return a
	}
	add := func(s *sample) *sample {
		s.file = filepath.Join(scratch, "in-"+s.name)
		if err := os.WriteFile(s.file, s.data, 0o644); err != nil {
			panic(err)
		}
		samples = append(samples, s)
		return s
	}
	rich = add(&sample{name: "rich", data: r})
	richArm = add(&sample{name: "rich-armored", data: arm(r), armored: true, bin: r})
	small = add(&sample{name: "small", data: sm})
	smallArm = add(&sample{name: "small-armored", data: arm(sm), armored: true, bin: sm})
	html = add(&sample{name: "html", data: []byte("<html>\n<body><pre>\n" + string(arm(r)) + "</pre>\n</body></html>\n"), armored: true, bin: r})
	damaged = add(&sample{name: "damaged", data: append(append([]byte{}, sm...), 0xcd, 9, 'x')})
	damagedArm = add(&sample{name: "damaged-armored", data: arm(damaged.data), armored: true, bin: damaged.data})
	empty = add(&sample{name: "empty", data: []byte{}})
	text = add(&sample{name: "text", data: []byte("no such key\n")})
	bs := arm(sm)
	i := bytes.LastIndex(bs, []byte("\n="))
	bs[i+2] ^= 1
	if bs[i+2] < 'A' {
		bs[i+2] = 'A'
	}
	badSum = add(&sample{name: "bad-checksum", data: bs, broken: true})
	noArm = add(&sample{name: "unfinished", data: []byte("-----BEGIN PGP MESSAGE-----\n\nzQFB\n"), broken: true})
	os.MkdirAll(filepath.Join(scratch, "dir"), 0o755)
	os.WriteFile(filepath.Join(scratch, "clip"), richArm.data, 0o644)
}

// ---- command lines -----------------------------------------------------------

// settings are what a command line asks for.
type settings struct {
	armor  bool
	o      model.Opts
	json   bool
	indent int
	raw    bool
}

// want is the expected outcome of one run.
type want struct {
	fail  bool
	nodes []*model.Node
	raw   []byte
	isRaw bool
}

// listing is what the model says about a sample.
func listing(s *sample, t settings) want {
	if t.raw {
		return want{isRaw: true, raw: s.data}
	}
	if s.broken || (t.armor && !s.armored) {
		return want{fail: true}
	}
	d := s.data
	if s.armored {
		d = s.bin
	}
	o := t.o
	o.Zone = zone
	ns, _, err := model.Decode(d, o)
	return want{fail: err != nil, nodes: ns}
}

// result of one run.
type outcome struct {
	exit     int
	out, err []byte
}

func (o outcome) show() map[string]any {
	return map[string]any{"exit": o.exit, "stdout": clip(o.out), "stderr": clip(o.err)}
}

func clip(b []byte) string {
	if len(b) > 1500 {
		return string(b[:1500]) + "..."
	}
	return string(b)
}

var cmdMu sync.Mutex // the command has package-level flags: one run at a time

// run executes the real command in this process.
func run(args []string, in io.Reader, out, errw io.Writer) int {
	ui := rwi.New(rwi.WithReader(in), rwi.WithWriter(out), rwi.WithErrorWriter(errw))
	a := append(make([]string, 0, len(args)), args...)
	return int(facade.Execute(ui, a))
}

func runBuf(args []string, in io.Reader) (o outcome) {
	var a, b bytes.Buffer
	o.exit = run(args, in, &a, &b)
	o.out, o.err = a.Bytes(), b.Bytes()
	return o
}

// judge compares an outcome with what is expected ("" if it is right).
func judge(o outcome, w want, t settings) string {
	if bytes.Contains(o.err, []byte("Panic:")) {
		return "the command panicked"
	}
	if w.fail {
		if t.o.Debug {
			switch {
			case o.exit != 0:
				return fmt.Sprintf("a failure with --debug exits %d", o.exit)
			case len(o.err) > 0:
				return "a failure with --debug writes to standard error"
			case len(o.out) == 0:
				return "a failure with --debug is not printed"
			}
			return ""
		}
		switch {
		case o.exit != 1:
			return fmt.Sprintf("a failure exits %d", o.exit)
		case len(o.out) > 0:
			return "a failure leaves output on standard output"
		case len(o.err) == 0:
			return "a failure without a message on standard error"
		}
		return ""
	}
	if o.exit != 0 {
		return fmt.Sprintf("exit %d where the input is good", o.exit)
	}
	if len(o.err) > 0 {
		return "success with a message on standard error"
	}
	return sameOutput(o.out, w, t)
}

func sameOutput(out []byte, w want, t settings) string {
	if w.isRaw {
		if !bytes.Equal(out, w.raw) {
			return fmt.Sprintf("raw output of %d bytes differs from the %d bytes received", len(out), len(w.raw))
		}
		return ""
	}
	if !t.json {
		if s := textWith(w.nodes, t.indent); s != string(out) {
			return "the output is not the listing: expected " + clip([]byte(s))
		}
		return ""
	}
	ns, err := model.ReadJSON(out)
	if err != nil {
		return "the output is not JSON: " + err.Error()
	}
	if d := model.Equal(w.nodes, ns, ""); d != "" {
		return "the JSON listing differs: " + d
	}
	var c, i bytes.Buffer
	if err := json.Compact(&c, out); err != nil {
		return err.Error()
	}
	exp := c.Bytes()
	if t.indent > 0 {
		json.Indent(&i, exp, "", strings.Repeat(" ", t.indent))
		exp = i.Bytes()
	}
	if !bytes.Equal(exp, out) {
		return fmt.Sprintf("JSON is not laid out with indent %d", t.indent)
	}
	return ""
}

func textWith(ns []*model.Node, indent int) string {
	ind := "\t"
	if indent > 0 {
		ind = strings.Repeat(" ", indent)
	}
	var b strings.Builder
	model.Text(ns, ind, 0, &b)
	return b.String()
}

// optFlags are the option flags in a fixed order.
var optFlags = []struct {
	short, long string
	set         func(*settings, bool)
}{
	{"-a", "--armor", func(t *settings, v bool) { t.armor = v }},
	{"-c", "--cert", func(t *settings, v bool) { t.o.Cert = v }},
	{"", "--debug", func(t *settings, v bool) { t.o.Debug = v }},
	{"-i", "--int", func(t *settings, v bool) { t.o.Int = v }},
	{"-l", "--literal", func(t *settings, v bool) { t.o.Literal = v }},
	{"-m", "--marker", func(t *settings, v bool) { t.o.Marker = v }},
	{"-p", "--private", func(t *settings, v bool) { t.o.Private = v }},
	{"-u", "--utc", func(t *settings, v bool) { t.o.UTC = v }},
	{"-j", "--json", func(t *settings, v bool) { t.json = v }},
}

// optSet turns a mask into flags (short ones where they exist) and settings.
func optSet(mask int) ([]string, settings) {
	var a []string
	var t settings
	for i, f := range optFlags {
		if mask&(1<<i) == 0 {
			continue
		}
		if f.short != "" {
			a = append(a, f.short)
		} else {
			a = append(a, f.long)
		}
		f.set(&t, true)
	}
	return a, t
}

// ---- faulty streams --------------------------------------------------------

// faultReader delivers data up to limit (in pieces of at most chunk) and then fails;
// with limit < 0 it ends normally.
type faultReader struct {
	data  []byte
	limit int
	chunk int
	mixed bool  // the fault comes together with the last bytes
	err   error // the fault (nil: the plain one)
	pos   int
}

func pick(err error) error {
	if err == nil {
		return faults.Plain
	}
	return err
}

func (r *faultReader) Read(p []byte) (int, error) {
	end := len(r.data)
	if r.limit >= 0 {
		end = r.limit
	}
	if r.pos >= end {
		if r.limit >= 0 {
			return 0, pick(r.err)
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := end - r.pos
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:min(len(p), n)], r.data[r.pos:])
	r.pos += n
	if r.mixed && r.pos >= end {
		if r.limit >= 0 {
			return n, pick(r.err)
		}
		return n, io.EOF
	}
	return n, nil
}

// faultWriter accepts limit bytes and then fails.
type faultWriter struct {
	limit  int
	whole  bool // a write that does not fit is refused as a whole
	failed bool
	err    error
	got    []byte
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if len(w.got)+len(p) <= w.limit {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.failed = true
	if w.whole {
		return 0, pick(w.err)
	}
	n := w.limit - len(w.got)
	w.got = append(w.got, p[:n]...)
	return n, pick(w.err)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
