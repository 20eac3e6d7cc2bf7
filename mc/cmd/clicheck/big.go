package main

import (
	"bytes"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/model"
)

// bigLine is a run on an input of a chosen size.
type bigLine struct {
	way  string // stdin, file, clipboard, hkp, github, fetch
	kind string // one: a large packet; many: many small ones; line: one user ID
	size int    // octets of the binary stream
	arm  bool
	args []string
	t    settings
	// output fault
	fault int // -1: none
}

func showBig(b bigLine) map[string]any {
	m := map[string]any{"way": b.way, "kind": b.kind, "octets": b.size, "armored": b.arm, "args": b.args}
	if b.fault >= 0 {
		m["output fails after"] = b.fault
	}
	return m
}

// bigStream is a stream of exactly size octets.
func bigStream(kind string, size int) []byte {
	fit := func(tag, n int, head []byte) []byte { // a packet of n octets in all
		b := []byte{0xc0 | byte(tag), 0xff, byte((n - 6) >> 24), byte((n - 6) >> 16), byte((n - 6) >> 8), byte(n - 6)}
		b = append(b, head...)
		for i := 0; len(b) < n; i++ {
			b = append(b, "abcdefghijklmnopqrstuvwxyz0123456789"[i%36])
		}
		return b
	}
	switch kind {
	case "one":
		end := gen.Pkt(gen.HNew, 13, []byte("end"))
		return append(fit(11, size-len(end), []byte("b\x01n\x60\x00\x00\x00")), end...)
	case "line":
		return fit(13, size, nil)
	}
	var b []byte
	for i := 0; len(b) < size; i++ {
		u := gen.Pkt(gen.HNew, 13, []byte(fmt.Sprintf("user %d", i)))
		if len(b)+len(u)+8 > size {
			u = fit(13, size-len(b), nil)
		}
		b = append(b, u...)
	}
	return b
}

func bigSample(b bigLine) *sample {
	bin := bigStream(b.kind, b.size)
	if !b.arm {
		return &sample{name: "big", data: bin}
	}
	a, _, _, _ := gen.Armor(bin, gen.ArmorOpt{Type: "PUBLIC KEY BLOCK", Headers: []string{"Comment: x"}})
	return &sample{name: "big", data: a, armored: true, bin: bin}
}

func checkBig(e *explore.Env, b bigLine) *explore.Violation {
	e.Steps(1)
	s := bigSample(b)
	t := b.t
	l := line{args: b.args, in: small, t: t}
	serveBody(nil)
	switch b.way {
	case "stdin":
		l.in = s
	case "file":
		p := filepath.Join(scratch, "big")
		os.WriteFile(p, s.data, 0o644)
		defer os.Remove(p)
		l.args = append(append([]string{}, l.args...), "--file", p)
	case "clipboard":
		p := filepath.Join(scratch, "clip")
		os.WriteFile(p, s.data, 0o644)
		defer os.WriteFile(p, richArm.data, 0o644)
		l.args = append(append([]string{}, l.args...), "--clipboard")
		t.armor = true
	case "hkp", "github", "fetch":
		net0.reset(func(int, *http.Request) reply { return ok(s.data) })
		l.args = append(append([]string{b.way}, l.args...), "https://example.org/x")
		t.armor = t.armor || b.way != "fetch"
	}
	w := listing(s, t)
	fail := func(o outcome, what string) *explore.Violation {
		d := showBig(b)
		for k, v := range o.show() {
			d[k] = v
		}
		return &explore.Violation{What: fmt.Sprintf("%s (%d octets, %s, %s, armored %v, arguments %q)", clip([]byte(what)), b.size, b.kind, b.way, b.arm, b.args), Detail: d}
	}
	if b.fault >= 0 {
		fw := &faultWriter{limit: b.fault}
		var eb bytes.Buffer
		o := outcome{exit: run(l.args, l.stdin(), fw, &eb)}
		o.out, o.err = fw.got, eb.Bytes()
		if !fw.failed {
			if v := judge(o, w, t); v != "" {
				return fail(o, v)
			}
			e.Outcome("complete")
			return nil
		}
		if o.exit != 1 || len(o.err) == 0 {
			return fail(o, fmt.Sprintf("standard output failing after %d bytes exits %d", b.fault, o.exit))
		}
		if !t.json && !w.isRaw && !strings.HasPrefix(textWith(w.nodes, t.indent), string(o.out)) {
			return fail(o, "what was written before the failure is not the beginning of the output")
		}
		e.Outcome("failed")
		return nil
	}
	o := runBuf(l.args, l.stdin())
	if v := judge(o, w, t); v != "" {
		return fail(o, v)
	}
	e.Outcome(fmt.Sprintf("%s %s armored %v raw %v json %v", b.way, b.kind, b.arm, t.raw, t.json))
	return nil
}

// bigSizes are sizes around the powers of two and ten.
func bigSizes(max int) (out []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 100 && n <= max+1 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for p := 128; p <= max; p *= 2 {
		add(p - 1)
		add(p)
		add(p + 1)
	}
	for p := 1000; p <= max; p *= 10 {
		add(p - 1)
		add(p)
		add(p + 1)
	}
	return out
}

type bigOpt struct {
	args []string
	t    settings
}

var bigOpts = []bigOpt{
	{nil, settings{}},
	{[]string{"-j"}, settings{json: true}},
	{[]string{"-l"}, settings{o: model.Opts{Literal: true}}},
	{[]string{"-j", "--indent", "2"}, settings{json: true, indent: 2}},
}

// bigSpace runs inputs of every size around the powers of two and ten through the
// ways a command reads them.
func bigSpace(x *check.Ctx, ways []string, raw bool) {
	max := x.Bound(1<<20, 1<<22)
	sizes := bigSizes(max)
	sizes = append(sizes, x.Bound(1<<27+17, 1<<29+17))
	opts := bigOpts
	if raw {
		opts = append(append([]bigOpt{}, opts...), bigOpt{[]string{"--raw"}, settings{raw: true}})
	}
	check.Space(x, "sizes", serial("inputs of every size within one octet of a power of two or ten up to 2^20 (thorough: 2^22) and one of over 2^27 (2^29), as one large packet, many small ones or one long text, binary and armored, through every way of reading, in text and JSON (and --raw): all of it is listed"), func(c *explore.Chooser) (bigLine, bool) {
		b := bigLine{fault: -1, way: explore.PickFree(c, ways), kind: explore.PickFree(c, []string{"one", "many", "line"}), arm: c.Free(2) == 1}
		k := c.Free(len(opts))
		b.args, b.t = opts[k].args, opts[k].t
		b.size = explore.PickFree(c, sizes)
		if b.way == "clipboard" && !b.arm || (b.way == "hkp" || b.way == "github") && !b.arm && !b.t.raw {
			return b, false
		}
		limit := x.Bound(1<<16, 1<<18) // sizes up to here with everything, larger ones with the plainest
		if b.size > limit && (k > 0 && !b.t.raw || b.kind != "one" || b.size&(b.size-1) == 0 || b.size&1 == 0) {
			return b, false
		}
		if b.size > x.Bound(1<<12, 1<<14)+1 && b.kind != "one" && (k > 1 || b.size&1 == 0) {
			return b, false
		}
		return b, true
	}, checkBig, showBig)
}
