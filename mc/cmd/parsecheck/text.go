package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"strings"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/faults"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"
)

// textCase is an input with the binary stream it must be listed as.
type textCase struct {
	Text      []byte
	Bin       []byte // expected to be listed like this (nil with MustErr)
	MustErr   bool   // must be an error
	MayErr    bool   // error or the listing of Bin
	ArmorOnly bool
	O         model.Opts
	Note      string
}

func (t textCase) asCase() Case {
	return Case{Data: t.Text, O: t.O, Note: t.Note}
}

func showText(t textCase) map[string]any {
	m := show(t.asCase())
	m["armor_only"] = t.ArmorOnly
	return m
}

func compareText(e *explore.Env, t textCase) *explore.Violation {
	c := t.asCase()
	cxt := impl.Context(t.O)
	if t.ArmorOnly {
		cxt = impl.ArmorContext(t.O)
	}
	got := impl.ParseReader(cxt, bytes.NewReader(t.Text))
	mode := "auto"
	if t.ArmorOnly {
		mode = "armor-only"
	}
	if got.Panic != "" {
		return viol(c, "panic: %s", got.Panic)
	}
	if t.MustErr {
		if got.Err == nil {
			return viol(c, "%s mode: accepted, %d packets listed, where an error is due", mode, len(got.Nodes))
		}
		e.Steps(1)
		e.Outcome("error:" + mode)
		return nil
	}
	want, steps, werr := model.Decode(t.Bin, t.O)
	e.Steps(steps)
	if t.MayErr && got.Err != nil {
		e.Outcome("error:" + mode)
		return nil
	}
	if werr == nil && got.Err != nil {
		return viol(c, "%s mode: armored input rejected: %v", mode, got.Err)
	}
	if werr != nil && got.Err == nil {
		return viol(c, "%s mode: damaged packets in armor accepted", mode)
	}
	if got.Info == nil {
		return viol(c, "%s mode: no listing", mode)
	}
	if d := model.Equal(want, got.Nodes, ""); d != "" {
		return viol(c, "%s mode: listing differs from that of the binary form at %s", mode, d)
	}
	e.Outcome(mode + outcome(want, werr))
	return nil
}

func binStreams() [][]byte {
	sig := gen.Pkt(gen.HNew, 2, baseBody(2))
	key := gen.Pkt(gen.HOld1, 6, baseBody(6))
	var all []byte
	for _, t := range []int{6, 13, 2, 14, 2, 1, 18, 11, 60} {
		all = append(all, gen.Pkt(gen.HNew, t, baseBody(t))...)
	}
	part := gen.Chunks(11, append(baseBody(11), bytes.Repeat([]byte("partial "), 100)...), []int{9, 7}, 0)
	return [][]byte{
		append(append([]byte{}, uidA...), sig...),
		append(append(append([]byte{}, key...), uidA...), sig...),
		all,
		append(append([]byte{}, part...), uidZ...),
		comp(1, all),
		gen.Pkt(gen.HOldIndet, 13, []byte("to the end")),
		uidA[:len(uidA)-2], // damaged inside the armor
	}
}

var armorTypes = []string{"MESSAGE", "PUBLIC KEY BLOCK", "PRIVATE KEY BLOCK", "SIGNATURE", "MESSAGE, PART 1/2", "ARMORED FILE"}

func c13(x *check.Ctx) {
	bins := binStreams()
	headers := [][]string{nil, {"Version: GnuPG v2"}, {"Version: GnuPG v2", "Comment: https://example.org: a comment"}, {"Comment: " + strings.Repeat("long ", 60)}, {"Hash: SHA1", "Charset: UTF-8", "X: y"}, {"Comment: =abcd"}, {"Comment: see -----END PGP MESSAGE----- below"}, {"Comment: -----BEGIN PGP MESSAGE-----", "Comment: -----BEGIN PGP SIGNED MESSAGE-----", "Comment: x -----END PGP SIGNATURE-----"}, {"Comment: -- =abcd", "Version: 1.0 (=x)"}}
	long := strings.Repeat("x", 70000)
	other, _, _, _ := gen.Armor(gen.Pkt(gen.HNew, 13, []byte("second block")), gen.ArmorOpt{Type: "SIGNATURE"})
	clear := "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\nsigned text\n- -----BEGIN PGP MESSAGE-----\n\nowdhbGljZQ==\n- -----END PGP MESSAGE-----\n"
	before := []string{"", "some text\n", "\n\n", "<html><body>\n<pre>\n", clear, "-----END PGP MESSAGE-----\n", " -----BEGIN PGP MESSAGE-----\n", "-----BEGIN PG\n", "--\n-----BEGIN\n", long + "\n", "text without end ----- -----BEGIN PGP MESSAGE-----\n", "=abcd\n", "\r\n\r\n", "quoted -----END PGP MESSAGE----- text\n", " -----END PGP SIGNATURE-----\n", "-----BEGIN PGP SIGNED MESSAGE-----\n\ntext about -----BEGIN PGP SIGNATURE----- lines\n", "-----BEGIN PGP SIGNED MESSAGE-----\n-----BEGIN PGP SIGNED MESSAGE-----\n", "caf\u00e9 \u6f22\u5b57\n", "> -----BEGIN PGP MESSAGE-----\n>\n> aaaa\n> -----END PGP MESSAGE-----\n", "\t-----BEGIN PGP MESSAGE-----\n\naaaa\n-----END PGP MESSAGE-----\n", "-----begin pgp message-----\n\naaaa\n-----END PGP MESSAGE-----\n", "-----BEGIN  PGP MESSAGE-----\n\naaaa\n-----END PGP MESSAGE-----\n", "\xcd\x03abc\n", "\x80\xff\x00\n", strings.Repeat("line\n", 3000), "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA512\n\n- -----BEGIN PGP SIGNATURE-----\n- -----END PGP SIGNATURE-----\n\n", "-----BEGIN PGP SIGNED MESSAGE-----\n\n" + long + long + "\n"}
	after := []string{"", "trailing text\n", "trailing without newline", string(other), "-----BEGIN PGP MESSAGE-----\n", "</pre></body></html>\n", long, "\x80\xff\x00", "-----END PGP MESSAGE-----\n", "\n\n"}
	spaces := []string{"", " ", "\t", "  \t ", "\r", strings.Repeat(" ", 50)} // RFC 4880 6.2: white space may follow a header line
	shape := func(c *explore.Chooser) (textCase, bool) {
		bin := explore.PickFree(c, bins)
		o := gen.ArmorOpt{Type: explore.Pick(c, armorTypes), Headers: explore.Pick(c, headers), EOL: explore.Pick(c, []string{"\n", "\r\n"}), Line: explore.Pick(c, []int{64, 76, 60, 4, 96, 72, 1, 63}), NoSum: c.Bool(), Begin: explore.Pick(c, spaces), Blank: explore.Pick(c, spaces), Finish: explore.Pick(c, spaces)}
		a, _, _, _ := gen.Armor(bin, o)
		b, z := explore.Pick(c, before), explore.Pick(c, after)
		if c.Bool() && z == "" {
			a = bytes.TrimRight(a, "\r\n")
		}
		t := append(append([]byte(b), a...), z...)
		return textCase{Text: t, Bin: bin, ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}}, true
	}
	check.Space(x, "shapes", check.Opt{MaxDev: x.Bound(3, 4), Desc: "armored forms: block type, headers, line ends, line length, checksum or not, text before and after (cleartext messages, HTML, lines over 64 KiB, further blocks), white space after the boundary lines and on the blank line, final newline or not; every three (thorough: four) deviations, both modes"}, shape, compareText, showText)

	max := x.Bound(300, 3000)
	check.Space(x, "lengths", check.Opt{Desc: "binary streams of every length up to the bound, armored at several line lengths"}, func(c *explore.Chooser) (textCase, bool) {
		n := c.Free(max)
		b, _ := bodyOf(13, n)
		bin := gen.Pkt(gen.HNew, 13, b)
		l := explore.PickFree(c, []int{64, 76, 1, 3, 5, 95, 96})
		if n > 400 && l != 64 && n%7 != 0 {
			return textCase{}, false
		}
		a, _, _, _ := gen.Armor(bin, gen.ArmorOpt{Line: l})
		return textCase{Text: a, Bin: bin, ArmorOnly: n%2 == 1, O: model.Opts{UTC: true, Debug: true}}, true
	}, compareText, showText)

	check.Space(x, "large", check.Opt{Desc: "large binary streams armored"}, func(c *explore.Chooser) (textCase, bool) {
		n := explore.PickFree(c, []int{49151, 65535, 65536, 100000, 300001})
		if x.Thorough() && c.Free(2) == 1 {
			n *= 11
		}
		b, _ := bodyOf(13, n)
		bin := append(gen.Pkt(gen.HNew, 13, b), uidZ...)
		a, _, _, _ := gen.Armor(bin, gen.ArmorOpt{Line: explore.PickFree(c, []int{64, 76})})
		return textCase{Text: a, Bin: bin, ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}}, true
	}, compareText, showText)

	check.Space(x, "far", check.Opt{Desc: "the block after every number of lines and after lines of every length of the lists"}, func(c *explore.Chooser) (textCase, bool) {
		bin := explore.PickFree(c, bins[:2])
		a, _, _, _ := gen.Armor(bin, gen.ArmorOpt{EOL: explore.PickFree(c, []string{"\n", "\r\n"})})
		var pre string
		if k := c.Free(2); k == 0 {
			pre = strings.Repeat(explore.PickFree(c, []string{"\n", "\r\n", "word\n", "- -----BEGIN PGP MESSAGE-----\n"}), explore.PickFree(c, []int{1, 2, 3, 9, 10, 11, 50, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4096, 10001, 65537, 100001}))
		} else {
			n := 10 + c.Free(3*13)
			n = 1<<((n-10)/3+10) + (n-10)%3 - 1
			pre = strings.Repeat("w", n) + explore.PickFree(c, []string{"\n", "\r\n", "\n\n"})
		}
		if c.Free(2) == 0 {
			a = append([]byte(pre), a...)
		} else {
			a = append(a, pre...)
		}
		return textCase{Text: a, Bin: bin, ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}}, true
	}, compareText, showText)
	check.Space(x, "far-lines", check.Opt{Desc: "the block before or after a line of 2^23 to 2^26 bytes (thorough: 2^28), and one byte more or less"}, func(c *explore.Chooser) (textCase, bool) {
		k := 23 + c.Free(x.Bound(4, 6))
		n := 1<<k + c.Free(3) - 1
		first := c.Free(2) == 0
		only := c.Free(2) == 1
		if k > 24 && n != 1<<k+1 {
			return textCase{}, false
		}
		a, _, _, _ := gen.Armor(bins[0], gen.ArmorOpt{})
		t := make([]byte, 0, n+len(a)+1)
		w := bytes.Repeat([]byte{'w'}, n)
		if first {
			t = append(append(append(t, w...), '\n'), a...)
		} else {
			t = append(append(append(t, a...), w...), '\n')
		}
		return textCase{Text: t, Bin: bins[0], ArmorOnly: only, O: model.Opts{UTC: true}}, true
	}, compareText, showText)
	check.Space(x, "many-headers", check.Opt{Desc: "every number of armor headers up to 120, of several lengths"}, func(c *explore.Chooser) (textCase, bool) {
		n := c.Free(121)
		l := explore.PickFree(c, []int{1, 10, 60, 70, 100, 1000})
		var hs []string
		for i := 0; i < n; i++ {
			hs = append(hs, fmt.Sprintf("H%d: %s", i, strings.Repeat("v", l)))
		}
		a, _, _, _ := gen.Armor(bins[0], gen.ArmorOpt{Headers: hs, EOL: explore.PickFree(c, []string{"\n", "\r\n"})})
		return textCase{Text: a, Bin: bins[0], ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}}, true
	}, compareText, showText)

	// cut at every byte
	check.Space(x, "cut", check.Opt{Desc: "armored text cut at every byte: an error unless the whole block is there"}, func(c *explore.Chooser) (textCase, bool) {
		bin := explore.PickFree(c, bins[:6])
		o := gen.ArmorOpt{Type: explore.PickFree(c, armorTypes[:2]), Headers: explore.PickFree(c, headers[:2]), EOL: explore.PickFree(c, []string{"\n", "\r\n"}), NoSum: c.Free(2) == 1}
		pre := explore.PickFree(c, []string{"", "text\n", clear})
		a, _, _, end := gen.Armor(bin, o)
		k := c.Free(len(a) + 1)
		t := textCase{Text: append([]byte(pre), a[:k]...), Bin: bin, ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}, Note: fmt.Sprintf("cut at %d of %d", k, len(a))}
		switch {
		case k < end+len("-----END PGP"):
			t.MustErr = true
			if len(t.Text) == 0 && !t.ArmorOnly { // an empty binary stream
				t.MustErr, t.Bin = false, nil
			}
		case k < end+len("-----END PGP "+o.Type+"-----"):
			t.MayErr = true
		}
		return t, true
	}, compareText, showText)

	// every character of the base64 text changed
	b64 := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	bad := "=-!_ .:@\x00\x7f\xff\t"
	check.Space(x, "damaged-base64", check.Opt{Desc: "every base64 character replaced by every other one and by characters outside the alphabet, or removed, or doubled: an error in every mode"}, func(c *explore.Chooser) (textCase, bool) {
		bin := explore.PickFree(c, [][]byte{bins[0], bins[5], bins[3]})
		if len(bin) > 200 && !x.Thorough() {
			bin = bin[len(bin)-120:]
			bin = gen.Pkt(gen.HNew, 13, bin)
		}
		eol := explore.PickFree(c, []string{"\n", "\r\n"})
		a, body, sum, _ := gen.Armor(bin, gen.ArmorOpt{EOL: eol})
		k := body + c.Free(sum-body)
		old := a[k]
		if old == '\n' || old == '\r' {
			return textCase{}, false
		}
		t := append([]byte{}, a...)
		how := c.Free(len(b64) + len(bad) + 2)
		mayErr := false
		switch {
		case how < len(b64):
			t[k] = b64[how]
		case how < len(b64)+len(bad):
			t[k] = bad[how-len(b64)]
		case how == len(b64)+len(bad):
			t = append(t[:k], t[k+1:]...)
		default:
			t = append(t[:k+1], append([]byte{old}, t[k+1:]...)...)
		}
		if bytes.Equal(t, a) {
			return textCase{}, false
		}
		if sameBase64(t, bin) {
			mayErr = true // the change is in bits that base64 does not use
		}
		return textCase{Text: t, Bin: bin, MustErr: !mayErr, MayErr: mayErr, ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}, Note: fmt.Sprintf("character %d", k)}, true
	}, compareText, showText)
	check.Space(x, "damaged-checksum", check.Opt{Desc: "every checksum character replaced by every other one: an error in every mode"}, func(c *explore.Chooser) (textCase, bool) {
		bin := explore.PickFree(c, bins)
		a, _, sum, _ := gen.Armor(bin, gen.ArmorOpt{EOL: explore.PickFree(c, []string{"\n", "\r\n"})})
		k := sum + 1 + c.Free(4)
		ch := b64[c.Free(64)]
		if a[k] == ch {
			return textCase{}, false
		}
		a[k] = ch
		return textCase{Text: a, MustErr: true, ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}}, true
	}, compareText, showText)
	// line sequences: only the first complete block counts
	blockA, _, _, _ := gen.Armor(bins[0], gen.ArmorOpt{})
	blockB, _, _, _ := gen.Armor(uidZ, gen.ArmorOpt{Type: "PUBLIC KEY BLOCK", Headers: headers[1]})
	pieces := []string{"text\n", "\n", "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA1\n\n", "- -----BEGIN PGP MESSAGE-----\n", "-----END PGP SIGNATURE-----\n", string(blockA), string(blockB), long + "\n"}
	n := x.Bound(4, 6)
	check.Space(x, "first-block", check.Opt{Desc: "every sequence of up to the bound of text lines, signed-message headers, stray end lines and complete blocks: the first complete block is listed, and without one the input is rejected"}, func(c *explore.Chooser) (textCase, bool) {
		k := 1 + c.Free(n)
		var t []byte
		var bin []byte
		found := false
		for i := 0; i < k; i++ {
			j := c.Free(len(pieces))
			t = append(t, pieces[j]...)
			if !found && (j == 5 || j == 6) {
				found, bin = true, [][]byte{bins[0], uidZ}[j-5]
			}
		}
		return textCase{Text: t, Bin: bin, MustErr: !found, ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}}, true
	}, compareText, showText)
	// a block that breaks off is the first block all the same
	opens := [][]byte{}
	for _, o := range []gen.ArmorOpt{{}, {Type: "PUBLIC KEY BLOCK", Headers: headers[1], EOL: "\r\n"}, {NoSum: true}} {
		for _, b := range [][]byte{bins[0], bins[2]} {
			a, body, sum, end := gen.Armor(b, o)
			line := body + bytes.IndexByte(a[body:], '\n') + 1
			opens = append(opens, a[:line], a[:sum], a[:end])
		}
	}
	blocks := [][]byte{blockA, blockB}
	check.Space(x, "broken-off", check.Opt{Desc: "a block that breaks off after its first line of data, before its checksum or before its end line, followed by every sequence of up to two complete or broken-off blocks, with and without text before: it is the first block, so that the input is rejected"}, func(c *explore.Chooser) (textCase, bool) {
		t := []byte(explore.PickFree(c, []string{"", "text\n", clear}))
		t = append(t, explore.PickFree(c, opens)...)
		for i := c.Free(3); i > 0; i-- {
			t = append(t, explore.PickFree(c, append(blocks, opens...))...)
		}
		return textCase{Text: t, MustErr: true, ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}}, true
	}, compareText, showText)
	alpha := packetAlphabet()
	check.Space(x, "armor-only-binary", check.Opt{Desc: "armor-only mode rejects every binary stream of the alphabet, and the empty input"}, func(c *explore.Chooser) (textCase, bool) {
		var t []byte
		for i := c.Free(3); i > 0; i-- {
			t = append(t, explore.PickFree(c, alpha)...)
		}
		return textCase{Text: t, MustErr: true, ArmorOnly: true, O: model.Opts{UTC: true}}, true
	}, compareText, showText)
	check.Space(x, "packets", check.Opt{Desc: "every sequence of up to two packets of the alphabet, armored, both modes"}, func(c *explore.Chooser) (textCase, bool) {
		var t []byte
		for i := c.Free(3); i > 0; i-- {
			t = append(t, explore.PickFree(c, alpha)...)
		}
		a, _, _, _ := gen.Armor(t, gen.ArmorOpt{Type: "PUBLIC KEY BLOCK"})
		return textCase{Text: a, Bin: t, ArmorOnly: c.Free(2) == 1, O: model.Opts{UTC: true}}, true
	}, compareText, showText)
}

// sameBase64: does the first block of t still decode to bin?
func sameBase64(t, bin []byte) bool {
	s := strings.ReplaceAll(string(t), "\r", "")
	i := strings.Index(s, "\n\n")
	j := strings.LastIndex(s, "\n=")
	if i < 0 || j < i {
		return false
	}
	b, err := base64.StdEncoding.DecodeString(strings.ReplaceAll(s[i:j], "\n", ""))
	return err == nil && bytes.Equal(b, bin)
}

// ---- delivery ------------------------------------------------------------

// delivery is one way a reader may deliver its bytes.
type delivery struct {
	Case
	ArmorOnly bool
	Cuts      []int // positions where a read ends
	Empty     []int // reads (by index) that return 0, nil first
	EOFWith   bool  // end of file together with the last bytes
	FailAt    int   // -1: never
	FailWith  bool  // the failure comes together with the bytes before it
	Err       error
	Clean     []byte // what the listing must be (binary form)
}

type scriptReader struct {
	d     *delivery
	off   int
	cut   int
	reads int
	empty int
}

func (r *scriptReader) Read(p []byte) (int, error) {
	d := r.d
	if len(p) == 0 {
		return 0, nil
	}
	if r.empty < len(d.Empty) && d.Empty[r.empty] == r.reads {
		r.empty++
		return 0, nil
	}
	limit := len(d.Data)
	if d.FailAt >= 0 && d.FailAt < limit {
		limit = d.FailAt
	}
	if r.off >= limit {
		if d.FailAt >= 0 {
			return 0, d.Err
		}
		return 0, io.EOF
	}
	for r.cut < len(d.Cuts) && d.Cuts[r.cut] <= r.off {
		r.cut++
	}
	end := limit
	if r.cut < len(d.Cuts) && d.Cuts[r.cut] < end {
		end = d.Cuts[r.cut]
	}
	n := copy(p, d.Data[r.off:end])
	r.off += n
	r.reads++
	if r.off == limit {
		if d.FailAt >= 0 && d.FailWith {
			return n, d.Err
		}
		if d.FailAt < 0 && d.EOFWith {
			return n, io.EOF
		}
	}
	return n, nil
}

var errInjected = errors.New("injected read failure")

func compareDelivery(e *explore.Env, d *delivery) *explore.Violation {
	cxt := impl.Context(d.O)
	if d.ArmorOnly {
		cxt = impl.ArmorContext(d.O)
	}
	got := impl.ParseReader(cxt, &scriptReader{d: d})
	c := d.Case
	c.Note = fmt.Sprintf("cuts %v, empty reads %v, eof with data %v, failure at %d (with data %v: %v), armor only %v", clip(d.Cuts), d.Empty, d.EOFWith, d.FailAt, d.FailWith, d.Err, d.ArmorOnly)
	if got.Panic != "" {
		return viol(c, "panic: %s", got.Panic)
	}
	if d.FailAt >= 0 {
		if got.Err == nil {
			return viol(c, "reading failed at byte %d of %d but %d packets are listed without an error", d.FailAt, len(d.Data), len(got.Nodes))
		}
		if !errors.Is(got.Err, d.Err) {
			return viol(c, "reading failed with %q but another error is reported: %v", d.Err, got.Err)
		}
		e.Steps(1)
		e.Outcome("failure")
		return nil
	}
	want, steps, werr := model.Decode(d.Clean, d.O)
	e.Steps(steps)
	if (werr == nil) != (got.Err == nil) {
		return viol(c, "delivered this way the outcome is error=%v, expected error=%v", got.Err, werr)
	}
	if df := model.Equal(want, got.Nodes, ""); df != "" {
		return viol(c, "delivered this way the listing differs at %s", df)
	}
	e.Outcome(outcome(want, werr))
	return nil
}

func clip(v []int) []int {
	if len(v) > 40 {
		return v[:40]
	}
	return v
}

func showDelivery(d *delivery) map[string]any {
	c := d.Case
	c.Note = fmt.Sprintf("cuts %v, empty reads %v, eof with data %v, failure at %d", clip(d.Cuts), d.Empty, d.EOFWith, d.FailAt)
	return show(c)
}

func c14(x *check.Ctx) {
	o := model.Opts{UTC: true}
	type in struct {
		data, clean []byte
		armor       bool
	}
	var ins []in
	bins := binStreams()
	for _, b := range bins {
		ins = append(ins, in{b, b, false})
	}
	nl := append(append([]byte{}, gen.Pkt(gen.HNew, 13, []byte("line\nline\r\nline"))...), gen.Pkt(gen.HNew, 60, []byte("\n\n-----BEGIN PGP\n"))...)
	ins = append(ins, in{nl, nl, false}, in{nil, nil, false})
	for _, b := range [][]byte{bins[0], bins[3]} {
		for _, eol := range []string{"\n", "\r\n"} {
			a, _, _, _ := gen.Armor(b, gen.ArmorOpt{EOL: eol, Headers: []string{"Version: x"}})
			a = append(append([]byte("some text"+eol), a...), "after"...)
			ins = append(ins, in{a, b, false}, in{a, b, true})
		}
	}
	big := append(append(gen.Pkt(gen.HNew, 13, bytes.Repeat([]byte("no newline "), 9000)), uidZ...), gen.Pkt(gen.HOld4, 11, append(baseBody(11), bytes.Repeat([]byte{0x41}, 200000)...))...)
	bigArm, _, _, _ := gen.Armor(big, gen.ArmorOpt{})
	bigLine := append(bytes.Repeat([]byte("y"), 150000), '\n')
	bigLine = append(bigLine, bigArm...)
	bigs := []in{{big, big, false}, {bigArm, big, true}, {bigLine, big, false}, {bigLine, big, true}}

	// all chunkings of a small input
	small := gen.Pkt(gen.HNew, 13, []byte("ab\ncd"))
	small = append(small, gen.Pkt(gen.HOld1, 12, []byte("\nz"))...)
	small = append(small, gen.Pkt(gen.HNew, 60, []byte("\r\n"))...)
	if x.Thorough() {
		small = append(small, gen.Pkt(gen.HNew, 10, []byte("PGP"))...)
	}
	check.Space(x, "all-chunkings", check.Opt{Desc: fmt.Sprintf("all 2^%d ways of dividing a %d byte stream into reads, with the end of file together with or after the last bytes", len(small)-1, len(small))}, func(c *explore.Chooser) (*delivery, bool) {
		d := &delivery{Case: Case{Data: small, O: o}, Clean: small, FailAt: -1}
		for i := 1; i < len(small); i++ {
			if c.Free(2) == 1 {
				d.Cuts = append(d.Cuts, i)
			}
		}
		d.EOFWith = c.Free(2) == 1
		return d, true
	}, compareDelivery, showDelivery)
	check.Space(x, "chunk-pairs", check.Opt{Desc: "every input with reads ending at every pair of positions, empty reads before each read, end of file with or after the last bytes"}, func(c *explore.Chooser) (*delivery, bool) {
		i := explore.PickFree(c, ins)
		d := &delivery{Case: Case{Data: i.data, O: o}, Clean: i.clean, ArmorOnly: i.armor, FailAt: -1}
		n := len(i.data)
		a := c.Free(n + 1)
		d.Cuts = append(d.Cuts, a)
		if n <= 300 || x.Thorough() {
			b := c.Free(n - a + 1)
			if n > 300 && b%7 != 0 {
				return nil, false
			}
			d.Cuts = append(d.Cuts, a+b)
		}
		switch c.Free(4) {
		case 1:
			d.Empty = []int{0}
		case 2:
			d.Empty = []int{1}
		case 3:
			d.Empty = []int{0, 0, 1, 1, 2, 2, 3}
		}
		d.EOFWith = c.Free(2) == 1
		return d, true
	}, compareDelivery, showDelivery)
	check.Space(x, "uniform", check.Opt{Desc: "every input (large ones included) in reads of every size up to 130, and of powers of two and their neighbours"}, func(c *explore.Chooser) (*delivery, bool) {
		all := append(append([]in{}, ins...), bigs...)
		i := explore.PickFree(c, all)
		k := c.Free(130 + 45)
		sz := k + 1
		if k >= 130 {
			sz = 1<<((k-130)/3+6) + (k-130)%3 - 1
		}
		if len(i.data) > 50000 && !(sz > 50 || sz == 1 || sz%10 == 0) {
			return nil, false
		}
		d := &delivery{Case: Case{Data: i.data, O: o}, Clean: i.clean, ArmorOnly: i.armor, FailAt: -1, EOFWith: c.Free(2) == 1}
		for p := sz; p < len(i.data); p += sz {
			d.Cuts = append(d.Cuts, p)
		}
		return d, true
	}, compareDelivery, showDelivery)
	errsAll := []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe}
	check.Space(x, "read-failure-kinds", check.Opt{Desc: "each kind of read failure (broken, closed, timed out, interrupted, reset, wrapped end of file ...) at 33 places of every input, the start and the end among them, alone or with the bytes before it"}, func(c *explore.Chooser) (*delivery, bool) {
		i := explore.PickFree(c, ins)
		d := &delivery{Case: Case{Data: i.data, O: o}, Clean: i.clean, ArmorOnly: i.armor}
		d.FailAt = c.Free(33) * len(i.data) / 32
		d.FailWith = c.Free(2) == 1
		d.Err = explore.PickFree(c, faults.Read)
		return d, true
	}, compareDelivery, showDelivery)
	check.Space(x, "read-failure", check.Opt{Desc: "a read failure at every byte of every input (the end included), alone or together with the bytes before it, in one read or byte by byte, three kinds of error"}, func(c *explore.Chooser) (*delivery, bool) {
		i := explore.PickFree(c, ins)
		d := &delivery{Case: Case{Data: i.data, O: o}, Clean: i.clean, ArmorOnly: i.armor}
		d.FailAt = c.Free(len(i.data) + 1)
		d.FailWith = c.Free(2) == 1
		d.Err = explore.PickFree(c, errsAll)
		if c.Free(2) == 1 {
			for p := 1; p < len(i.data); p++ {
				d.Cuts = append(d.Cuts, p)
			}
		}
		return d, true
	}, compareDelivery, showDelivery)
	check.Space(x, "read-failure-large", check.Opt{Desc: "a read failure at boundary positions of large inputs"}, func(c *explore.Chooser) (*delivery, bool) {
		i := explore.PickFree(c, bigs)
		d := &delivery{Case: Case{Data: i.data, O: o}, Clean: i.clean, ArmorOnly: i.armor}
		pos := []int{0, 1, 511, 512, 4095, 4096, 4097, 65535, 65536, 65537, 99000, 99001, 131072, 150001, 200000, len(i.data) - 1, len(i.data)}
		d.FailAt = explore.PickFree(c, pos)
		d.FailWith = c.Free(2) == 1
		d.Err = explore.PickFree(c, errsAll)
		return d, true
	}, compareDelivery, showDelivery)
	readerKinds(x, append(append([][]byte{}, bins...), nl, ins[len(ins)-1].data, ins[len(ins)-3].data, big, bigArm))
	check.Space(x, "line-lengths", check.Opt{Desc: "armored text after a line of every length around the powers of two up to 2^20 and over 2^21 to 2^26, in both modes, whole and in two halves"}, func(c *explore.Chooser) (*delivery, bool) {
		k := c.Free(39)
		n := 1<<(k/3+8) + k%3 - 1
		if j := c.Free(2); j == 1 {
			if k > 5 {
				return nil, false
			}
			n = 1<<(21+k) + 1
		}
		only, half := c.Free(2) == 1, c.Free(2) == 1
		a, _, _, _ := gen.Armor(bins[0], gen.ArmorOpt{})
		data := append(append(bytes.Repeat([]byte("z"), n), '\n'), a...)
		d := &delivery{Case: Case{Data: data, O: o}, Clean: bins[0], ArmorOnly: only, FailAt: -1}
		if half {
			d.Cuts = []int{len(data) / 2}
			d.EOFWith = true
		}
		return d, true
	}, compareDelivery, showDelivery)
	// total sizes and line lengths
	top := x.Bound(1200, 6000)
	check.Space(x, "sizes", check.Opt{Desc: "streams without and with newlines of every total size up to the bound and around powers of two up to 4 MiB, and over 8, 16, 32 and 64 MiB, whole and in two halves"}, func(c *explore.Chooser) (*delivery, bool) {
		k := c.Free(top + 43)
		n := k
		if k >= top {
			n = 1<<((k-top)/3+10) + (k-top)%3 - 1
		}
		if k >= top+39 {
			n = []int{1<<23 + 1, 1<<24 + 1, 1<<25 + 1, 1<<26 + 1}[k-top-39]
		}
		line := explore.PickFree(c, []int{0, 64})
		b := bytes.Repeat([]byte("z"), n)
		if line > 0 {
			for p := line; p < n; p += line {
				b[p] = '\n'
			}
		}
		data := append(gen.Pkt(gen.HNew, 60, b), uidZ...)
		d := &delivery{Case: Case{Data: data, O: o}, Clean: data, FailAt: -1}
		if c.Free(2) == 1 {
			d.Cuts = []int{len(data) / 2}
			d.EOFWith = true
		}
		return d, true
	}, compareDelivery, showDelivery)
	check.Space(x, "huge", check.Opt{Workers: 1, Desc: "streams of over 2^27, 2^28, 2^29 and 2^30 octets (one large packet and a small one), in reads of up to a MiB: read to the end"}, func(c *explore.Chooser) (*delivery, bool) {
		n := 1<<(27+c.Free(4)) + 1
		b := bytes.Repeat([]byte("some text of a line, sixty-three octets and then the line's end\n"), n/64+1)[:n]
		data := append(gen.Pkt(gen.HNew, 60, b), uidZ...)
		d := &delivery{Case: Case{Data: data, O: o}, Clean: data, FailAt: -1}
		for p := 1 << 20; p < len(data); p += 1 << 20 {
			d.Cuts = append(d.Cuts, p)
		}
		return d, true
	}, compareDelivery, showDelivery)
}
