package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/model"
)

// token is a flag as typed, with what it does to the settings.
type token struct {
	args []string
	do   func(*settings, **sample)
}

func flagTokens() []token {
	var ts []token
	for _, f := range optFlags {
		f := f
		on := func(t *settings, _ **sample) { f.set(t, true) }
		off := func(t *settings, _ **sample) { f.set(t, false) }
		if f.short != "" {
			ts = append(ts, token{[]string{f.short}, on})
		}
		ts = append(ts, token{[]string{f.long}, on}, token{[]string{f.long + "=false"}, off})
	}
	ind := func(n int) func(*settings, **sample) { return func(t *settings, _ **sample) { t.indent = n } }
	file := func(s *sample) func(*settings, **sample) { return func(_ *settings, f **sample) { *f = s } }
	ts = append(ts,
		token{[]string{"--indent=2"}, ind(2)}, token{[]string{"--indent", "4"}, ind(4)}, token{[]string{"--indent=0"}, ind(0)}, token{[]string{"--indent", "-3"}, ind(-3)},
		token{[]string{"-ju"}, func(t *settings, _ **sample) { t.json, t.o.UTC = true, true }},
		token{[]string{"-cilmp"}, func(t *settings, _ **sample) {
			t.o.Cert, t.o.Int, t.o.Literal, t.o.Marker, t.o.Private = true, true, true, true, true
		}},
		token{[]string{"-aui"}, func(t *settings, _ **sample) { t.armor, t.o.UTC, t.o.Int = true, true, true }},
		token{[]string{"-f", richArm.file}, file(richArm)}, token{[]string{"-f" + rich.file}, file(rich)}, token{[]string{"--file=" + small.file}, file(small)},
		token{[]string{"-uf" + rich.file}, func(t *settings, f **sample) { t.o.UTC = true; *f = rich }},
		token{[]string{"--utc=true"}, func(t *settings, _ **sample) { t.o.UTC = true }},
		token{[]string{"--json=1"}, func(t *settings, _ **sample) { t.json = true }},
		token{[]string{"--int=f"}, func(t *settings, _ **sample) { t.o.Int = false }},
	)
	return ts
}

// job is a sequence of runs in one process.
type history struct{ runs []line }

func c19(x *check.Ctx) {
	inds := [][]string{nil, {"--indent", "0"}, {"--indent", "1"}, {"--indent=2"}, {"--indent=3"}, {"--indent", "4"}, {"--indent=8"}, {"--indent=-1"}}
	indv := []int{0, 0, 1, 2, 3, 4, 8, -1}
	check.Space(x, "option-sets", serial("all 512 sets of the nine flags x every indent x standard input or --file x binary or armored input: the output is the library listing under those options"), func(c *explore.Chooser) (line, bool) {
		var l line
		l.args, l.t = optSet(c.Free(512))
		k := c.Free(len(inds))
		if k > 2 && !x.Thorough() && k != 3 && k != 7 {
			return l, false
		}
		l.args = append(l.args, inds[k]...)
		l.t.indent = indv[k]
		s := explore.PickFree(c, []*sample{rich, richArm})
		if c.Free(2) == 1 {
			l.args = append([]string{"--file", s.file}, l.args...)
			l.in = small
		} else {
			l.in = s
		}
		l.w = listing(s, l.t)
		return l, true
	}, checkLine, showLine)
	check.Space(x, "option-sets-inputs", serial("all 512 sets of the nine flags x standard input or --file x armor inside other text, empty input, text, damaged packets, damaged and unfinished armor"), func(c *explore.Chooser) (line, bool) {
		var l line
		l.args, l.t = optSet(c.Free(512))
		s := explore.PickFree(c, []*sample{html, empty, text, damaged, damagedArm, badSum, noArm})
		if c.Free(2) == 1 {
			l.args = append(l.args, "-f", s.file)
			l.in = small
		} else {
			l.in = s
		}
		l.w = listing(s, l.t)
		return l, true
	}, checkLine, showLine)
	ts := flagTokens()
	n := x.Bound(2, 3)
	spell := func(ts []token, n int) func(c *explore.Chooser) (line, bool) {
		return func(c *explore.Chooser) (line, bool) {
			l := line{in: explore.PickFree(c, []*sample{rich, richArm})}
			src := l.in
			for k := 1 + c.Free(n); k > 0; k-- {
				t := explore.PickFree(c, ts)
				l.args = append(l.args, t.args...)
				t.do(&l.t, &src)
			}
			l.w = listing(src, l.t)
			return l, true
		}
	}
	check.Space(x, "spellings", serial("every sequence of up to two (thorough: three) flags in every spelling (short, long, with value, combined, negated, repeated), in every order: the last setting of each counts"), spell(ts, n), checkLine, showLine)
	if !x.Thorough() {
		var few []token
		for _, t := range ts {
			switch t.args[0] {
			case "-j", "--json=false", "--utc", "-u", "-a", "--armor=false", "--indent", "--indent=2", "-ju", "-cilmp", "-f", "--file=" + small.file, "--debug", "--debug=false", "-i":
				few = append(few, t)
			}
		}
		check.Space(x, "spellings-3", serial("every sequence of three flags from a reduced set of spellings"), spell(few, 3), checkLine, showLine)
	}
	// clipboard
	clips := append(append([]*sample{}, samples...), nil)
	check.Space(x, "clipboard", serial("--clipboard with every sample on the clipboard, and none, under option sets, before and after other flags, and together with --file (refused)"), func(c *explore.Chooser) (line, bool) {
		var l line
		s := explore.PickFree(c, clips)
		m := explore.PickFree(c, []int{0, 1, 4, 128, 256, 0x7b, 0x1f8})
		l.args, l.t = optSet(m)
		l.t.indent = 0
		l.in = small
		switch c.Free(3) {
		case 0:
			l.args = append(l.args, "--clipboard")
		case 1:
			l.args = append([]string{"--clipboard"}, l.args...)
		case 2:
			f := explore.PickFree(c, []*sample{rich, richArm})
			l.args = append(l.args, "--clipboard", "-f", f.file)
			l.w = want{fail: true}
		}
		t := l.t
		t.armor = true
		if s == nil {
			l.w = want{fail: true}
		} else if !l.w.fail {
			l.w = listing(s, t)
		}
		if s != nil {
			l.serve = s.data
		}
		l.class = "clip"
		return l, true
	}, func(e *explore.Env, l line) *explore.Violation {
		p := filepath.Join(scratch, "clip")
		if l.serve == nil && l.w.fail {
			os.Remove(p)
		} else {
			os.WriteFile(p, l.serve, 0o644)
		}
		defer os.WriteFile(p, richArm.data, 0o644)
		return checkLine(e, l)
	}, showLine)
	bigSpace(x, []string{"clipboard", "file"}, false)
	check.Space(x, "indents", serial("every indent from -10 to 40 and values around the powers of two and ten up to 10000, in text and JSON"), func(c *explore.Chooser) (line, bool) {
		var l line
		v := []int{}
		for i := -10; i <= 40; i++ {
			v = append(v, i)
		}
		v = append(v, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10000)
		l.t.indent = explore.PickFree(c, v)
		l.args = []string{fmt.Sprintf("--indent=%d", l.t.indent)}
		if c.Free(2) == 1 {
			l.args = append(l.args, "-j")
			l.t.json = true
		}
		l.in = explore.PickFree(c, []*sample{rich, small})
		l.w = listing(l.in, l.t)
		return l, true
	}, checkLine, showLine)
	names := []string{"a b", " lead", "trail ", "\u65e5\u672c", "-dash", "--file", "100%", "%s", "a=b", "q?x#y", "~", "$HOME", "*", "dot.", ".hidden", "new\nline", "\xff\xfe", "quote\"'", "a,b", "x:y", strings.Repeat("n", 255), "sub/dir/f", "sub/../sub/f2", "./f3", "-"}
	fdir := filepath.Join(scratch, "files")
	os.MkdirAll(filepath.Join(fdir, "sub", "dir"), 0o755)
	for _, n := range names {
		if err := os.WriteFile(filepath.Join(fdir, n), richArm.data, 0o644); err != nil {
			panic(err)
		}
	}
	os.Symlink(filepath.Join(fdir, "a b"), filepath.Join(fdir, "link"))
	os.Symlink("link", filepath.Join(fdir, "link2"))
	os.Symlink("sub", filepath.Join(fdir, "dlink"))
	names = append(names, "link", "link2", "dlink/dir/f")
	check.Space(x, "file-names", serial("--file with every kind of file name (blanks, other scripts, flags, formats, links, long, nested), absolute and relative to the working directory, in every spelling of the flag: that file is read, or with --clipboard refused"), func(c *explore.Chooser) (line, bool) {
		l := line{in: small}
		n := explore.PickFree(c, names)
		p := filepath.Join(fdir, n)
		if c.Free(2) == 1 {
			p = n
			if n == "-" {
				p = "./-"
			}
		}
		switch c.Free(4) {
		case 0:
			l.args = []string{"--file=" + p}
		case 1:
			l.args = []string{"--file", p}
		case 2:
			l.args = []string{"-f", p}
		case 3:
			l.args = []string{"-f=" + p}
		}
		if c.Free(2) == 1 {
			l.args = append([]string{"-a", "-j"}, l.args...)
			l.t.armor, l.t.json = true, true
		}
		l.w = listing(richArm, l.t)
		switch c.Free(3) { // the clipboard as well: refused whatever the name
		case 1:
			l.args = append([]string{"--clipboard"}, l.args...)
			l.w = want{fail: true}
		case 2:
			l.args = append(l.args, "--clipboard")
			l.w = want{fail: true}
		}
		return l, true
	}, func(e *explore.Env, l line) *explore.Violation {
		wd, err := os.Getwd()
		if err != nil || os.Chdir(fdir) != nil {
			panic("cannot change the directory")
		}
		defer os.Chdir(wd)
		return checkLine(e, l)
	}, showLine)
	fileKinds(x)
	// histories
	cmds := historyCommands()
	depth := x.Bound(2, 3)
	histCheck := func(e *explore.Env, h history) *explore.Violation {
		for i, l := range h.runs {
			serveBody(l.serve)
			e.Steps(1)
			o := runBuf(l.args, l.stdin())
			s := ""
			if l.class == "message" {
				if len(o.out) > 0 || o.exit != 0 || len(o.err) == 0 {
					s = "version or help text is wrong"
				}
			} else if l.class == "script" {
				if o.exit != 0 || len(o.err) > 0 || !strings.Contains(string(o.out), "gpgpdump") {
					s = "completion script is wrong"
				}
			} else {
				s = judge(o, l.w, l.t)
			}
			if s != "" {
				v := bad(l, o, "run %d of %d: %s", i+1, len(h.runs), s)
				var all [][]string
				for _, r := range h.runs {
					all = append(all, r.args)
				}
				v.Detail["history"] = all
				return v
			}
		}
		e.Outcome(fmt.Sprint(len(h.runs), " runs, last ", h.runs[len(h.runs)-1].class))
		return nil
	}
	hist := func(cmds []line, depth int) func(c *explore.Chooser) (history, bool) {
		return func(c *explore.Chooser) (history, bool) {
			var h history
			for k := 1 + c.Free(depth); k > 0; k-- {
				h.runs = append(h.runs, explore.PickFree(c, cmds))
			}
			return h, true
		}
	}
	showHist := func(h history) map[string]any {
		var all [][]string
		for _, r := range h.runs {
			all = append(all, r.args)
		}
		return map[string]any{"history": all}
	}
	check.Space(x, "histories", serial("every sequence of up to two (thorough: three) commands in one process from an alphabet of all commands and outcomes: each gives what it gives alone"), hist(cmds, depth), histCheck, showHist)
	if !x.Thorough() {
		var few []line
		for i, l := range cmds {
			if i < 12 || l.serve != nil && i%3 == 0 {
				few = append(few, l)
			}
		}
		check.Space(x, "histories-3", serial("every sequence of three commands from a reduced alphabet"), hist(few, 3), histCheck, showHist)
	}
	check.Space(x, "long-histories", serial("every pair of commands, the first run 1, 5, 20 or 100 times before the second is run, and every command before one that is run 20 times"), func(c *explore.Chooser) (history, bool) {
		var h history
		a, b := explore.PickFree(c, cmds), explore.PickFree(c, cmds)
		n := explore.PickFree(c, []int{5, 20, 100, -20})
		if n == 100 && !x.Thorough() && (a.serve != nil || b.serve != nil) {
			return h, false
		}
		for i := 0; i < n; i++ {
			h.runs = append(h.runs, a)
		}
		h.runs = append(h.runs, a, b)
		for i := 0; i < -n; i++ {
			h.runs = append(h.runs, b)
		}
		return h, true
	}, histCheck, showHist)
	// the built command in other time zones
	zones := []string{"UTC", "Asia/Tokyo", "America/New_York", "Asia/Kolkata", "Pacific/Chatham"}
	check.Space(x, "built-command", check.Opt{Desc: "the built binary under all sets of the nine flags (quick: all sets of six) in several time zones"}, func(c *explore.Chooser) (line, bool) {
		var l line
		m := 0
		bits := []int{0, 2, 3, 4, 7, 8}
		if x.Thorough() {
			bits = []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
		}
		for _, b := range bits {
			m |= c.Free(2) << b
		}
		l.args, l.t = optSet(m)
		z := explore.PickFree(c, zones)
		loc, err := time.LoadLocation(z)
		if err != nil {
			return l, false
		}
		l.env = []string{"TZ=" + z}
		l.in = explore.PickFree(c, []*sample{rich, richArm})
		l.w = listingIn(l.in, l.t, loc)
		return l, true
	}, checkBinary, showLine)
	x.Assume = append(x.Assume, "the clipboard is read through the stand-in tool xclip, found on PATH when the process starts")
}

func listingIn(s *sample, t settings, loc *time.Location) want {
	if s.broken || (t.armor && !s.armored) {
		return want{fail: true}
	}
	d := s.data
	if s.armored {
		d = s.bin
	}
	o := t.o
	o.Zone = loc
	ns, _, err := model.Decode(d, o)
	return want{fail: err != nil, nodes: ns}
}

// historyCommands is the alphabet of the run histories.
func historyCommands() []line {
	var out []line
	add := func(class string, in, srv *sample, t settings, args ...string) {
		l := line{args: args, in: in, t: t, class: class}
		if in == nil {
			l.in = small
		}
		switch class {
		case "fail":
			l.w = want{fail: true}
		case "list":
			l.w = listing(l.in, t)
		case "net":
			l.serve = srv.data
			t.armor = true
			l.w = listing(srv, t)
		case "fetch":
			l.serve = srv.data
			l.w = listing(srv, t)
		case "file":
			l.w = listing(srv, t)
		}
		out = append(out, l)
	}
	add("list", rich, nil, settings{})
	add("list", rich, nil, settings{json: true}, "-j")
	add("list", rich, nil, settings{json: true, indent: 2, o: model.Opts{UTC: true}}, "-ju", "--indent", "2")
	add("list", rich, nil, settings{indent: 4}, "--indent=4")
	add("list", rich, nil, settings{o: model.Opts{Debug: true}}, "--debug")
	add("list", damaged, nil, settings{}, nil...)
	add("list", damaged, nil, settings{o: model.Opts{Debug: true}}, "--debug")
	add("file", small, richArm, settings{armor: true}, "-a", "-f", richArm.file)
	add("list", rich, nil, settings{armor: true}, "-a")
	add("fail", rich, nil, settings{}, "-f", filepath.Join(scratch, "missing"))
	add("message", rich, nil, settings{}, "-v")
	add("fail", rich, nil, settings{}, "--clipboard", "-f", rich.file)
	add("list", rich, nil, settings{o: model.Opts{Cert: true, Int: true, Literal: true, Marker: true, Private: true}}, "-cilmp")
	add("fail", rich, nil, settings{}, "--bogus")
	add("fail", rich, nil, settings{}, "-j", "nothing")
	add("fail", rich, nil, settings{}, "--indent", "4", "nothing")
	add("message", rich, nil, settings{}, "help")
	add("message", rich, nil, settings{}, "version", "-j")
	add("script", rich, nil, settings{}, "completion", "bash")
	add("fail", rich, nil, settings{}, "completion", "x")
	add("net", nil, richArm, settings{}, "hkp", "alice")
	add("net", nil, richArm, settings{json: true}, "hkp", "-j", "alice")
	add("net", nil, richArm, settings{raw: true}, "hkp", "--raw", "alice")
	add("net", nil, text, settings{o: model.Opts{Debug: true}}, "hkp", "--debug", "alice")
	add("net", nil, text, settings{}, "github", "alice")
	add("net", nil, richArm, settings{indent: 2}, "github", "--indent", "2", "alice")
	add("fetch", nil, rich, settings{o: model.Opts{UTC: true}}, "fetch", "-u", "https://example.org/")
	add("fetch", nil, rich, settings{o: model.Opts{Debug: true}, json: true}, "fetch", "--debug", "-j", "https://example.org/")
	add("fetch", nil, damaged, settings{}, "fetch", "https://example.org/")
	add("fetch", nil, rich, settings{raw: true}, "fetch", "--raw", "https://example.org/")
	add("fail", nil, nil, settings{}, "fetch")
	add("list", empty, nil, settings{})
	return out
}
