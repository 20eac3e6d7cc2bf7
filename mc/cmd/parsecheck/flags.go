package main

import (
	"fmt"
	"strings"
	"time"
	_ "time/tzdata"
	"unicode/utf8"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"
)

// ---- C15 -------------------------------------------------------------------

func optSet(k int) model.Opts {
	return model.Opts{Cert: k&1 != 0, Debug: k&2 != 0, Int: k&4 != 0, Literal: k&8 != 0, Marker: k&16 != 0, Private: k&32 != 0, UTC: k&64 != 0}
}

// addsOnlyDumps compares the listing without options with one under options.
func addsOnlyDumps(a, b []*model.Node, path string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%s: %d entries without options, %d with", path, len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		p := fmt.Sprintf("%s/%d", path, i)
		if x == nil || y == nil {
			return p + ": nil entry"
		}
		if x.Name != y.Name || x.Value != y.Value || x.Note != y.Note {
			return fmt.Sprintf("%s: {%q %q %q} without options, {%q %q %q} with", p, x.Name, x.Value, x.Note, y.Name, y.Value, y.Note)
		}
		if x.Dump != "" && x.Dump != y.Dump {
			return fmt.Sprintf("%s (%s): dump %q without options, %q with", p, x.Name, clipS(x.Dump), clipS(y.Dump))
		}
		if d := addsOnlyDumps(x.Items, y.Items, p); d != "" {
			return d
		}
	}
	return ""
}

func clipS(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

// compareOpts: the model's listing, and the law that options only add dumps.
func compareOpts(e *explore.Env, c Case) *explore.Violation {
	if v := compare(e, c); v != nil {
		return v
	}
	plain := impl.Parse(c.Data, model.Opts{UTC: c.O.UTC})
	got := impl.Parse(c.Data, c.O)
	if plain.Panic != "" || got.Panic != "" {
		return viol(c, "panic: %s%s", plain.Panic, got.Panic)
	}
	if (plain.Err == nil) != (got.Err == nil) {
		return viol(c, "options change the verdict: without %v, with %v", plain.Err, got.Err)
	}
	if d := addsOnlyDumps(plain.Nodes, got.Nodes, ""); d != "" {
		return viol(c, "options change more than dumps: %s", d)
	}
	return nil
}

func c15(x *check.Ctx) {
	vs := allSamples()
	check.Space(x, "samples", check.Opt{Desc: "all 128 option sets on every sample packet (every tag, algorithm, version, subpacket type and S2K kind)"}, func(c *explore.Chooser) (Case, bool) {
		o := optSet(c.Free(128))
		v := explore.PickFree(c, vs)
		return Case{Data: gen.Pkt(gen.HNew, v.tag, v.body), O: o}, true
	}, compareOpts, show)
	check.Space(x, "sizes", check.Opt{Desc: "all 128 option sets on every tag with every boundary payload size"}, func(c *explore.Chooser) (Case, bool) {
		o := optSet(c.Free(128))
		tag := explore.PickFree(c, []int{9, 10, 11, 12, 13, 18, 19, 20, 0, 15, 40, 59, 60, 61, 62, 63, 6, 2})
		n := explore.PickFree(c, []int{0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097})
		b, ok := bodyOf(tag, n)
		if !ok {
			return Case{}, false
		}
		return Case{Data: append(gen.Pkt(gen.HNew, tag, b), uidZ...), O: o}, true
	}, compareOpts, show)
	bigDump := []int{8191, 8192, 8193, 9999, 10000, 10001, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 99999, 100001, 131071, 131072, 131073, 200000, 262145, 524289, 1000001, 1048577, 2097153, 4194305}
	check.Space(x, "large", check.Opt{Desc: "no option, the option of the tag, debug and all options on every tag with payloads of up to 2^22 bytes: a dump is complete or absent"}, func(c *explore.Chooser) (Case, bool) {
		o := optSet(explore.PickFree(c, []int{0, 1, 2, 4, 8, 16, 32, 127}))
		tag := explore.PickFree(c, []int{9, 10, 11, 18, 40, 61, 2})
		n := explore.PickFree(c, bigDump)
		if n > 140000 && tag != 11 && tag != 61 || n > 2000000 && (tag != 11 || o.Cert || o.Int) {
			return Case{}, false
		}
		b, ok := bodyOf(tag, n)
		if !ok {
			return Case{}, false
		}
		return Case{Data: append(gen.Pkt(gen.HNew, tag, b), uidZ...), O: o}, true
	}, compareOpts, show)
	check.Space(x, "subpacket-sizes", check.Opt{Desc: "all 128 option sets on every subpacket type with every boundary payload size, hashed and unhashed"}, func(c *explore.Chooser) (Case, bool) {
		o := optSet(c.Free(128))
		t := explore.PickFree(c, []byte{0, 1, 8, 24, 26, 28, 6, 37, 100, 110, 111, 127, 38, 33, 31})
		n := explore.PickFree(c, []int{0, 1, 2, 31, 32, 33, 64, 65, 128, 189, 190, 191, 192, 255, 256, 300, 1024})
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('A' + i%50)
		}
		if t == 38 && n > 0 {
			b[0] = 1
		}
		g := gen.New(explore.Default(), gen.Tiny)
		s := gen.SubHdr(0, n+1, t, b)
		var d []byte
		if c.Free(2) == 0 {
			d = g.SigWith(4, [][]byte{s}, nil)
		} else {
			d = g.SigWith(5, nil, [][]byte{s})
		}
		return Case{Data: gen.Pkt(gen.HNew, 2, d), O: o}, true
	}, compareOpts, show)
	check.Space(x, "integers", check.Opt{Desc: "all 128 option sets on every algorithm x every boundary bit length of its integers, in key, secret-key, signature and session-key packets"}, func(c *explore.Chooser) (Case, bool) {
		o := optSet(c.Free(128))
		a := explore.PickFree(c, []byte{1, 16, 17, 18, 19, 22})
		bits := explore.PickFree(c, []int{0, 1, 7, 8, 9, 255, 256, 257, 263, 264, 512, 1024, 2047, 2048, 2049, 4096, 8192, 16384})
		nb := (bits + 7) / 8
		mpi := make([]byte, 2+nb)
		mpi[0], mpi[1] = byte(bits>>8), byte(bits)
		for i := 0; i < nb; i++ {
			mpi[2+i] = byte(i*11 + 64)
		}
		m := func(k int) []byte {
			var r []byte
			for i := 0; i < k; i++ {
				r = append(r, mpi...)
			}
			return r
		}
		oid := append([]byte{byte(len(model.Curves[0].OID))}, model.Curves[0].OID...)
		var pub []byte
		switch a {
		case 1:
			pub = m(2)
		case 16:
			pub = m(3)
		case 17:
			pub = m(4)
		case 18:
			pub = append(append(append([]byte{}, oid...), mpi...), 3, 1, 8, 9)
		default:
			pub = append(append([]byte{}, oid...), mpi...)
		}
		key := append([]byte{4, 1, 2, 3, 4, a}, pub...)
		switch c.Free(4) {
		case 0:
			return Case{Data: gen.Pkt(gen.HNew, 6, key), O: o}, true
		case 1:
			ns := 1
			if a == 1 {
				ns = 4
			}
			key = append(append(append(key, 0), m(ns)...), 1, 2)
			return Case{Data: gen.Pkt(gen.HNew, 5, key), O: o}, true
		case 2:
			ns := 2
			if a == 1 {
				ns = 1
			}
			return Case{Data: gen.Pkt(gen.HNew, 2, append([]byte{4, 0, a, 8, 0, 0, 0, 0, 1, 2}, m(ns)...)), O: o}, true
		}
		b := append([]byte{3, 1, 2, 3, 4, 5, 6, 7, 8, a}, mpi...)
		switch a {
		case 16:
			b = append(b, mpi...)
		case 18:
			b = append(b, 4, 0xde, 0xad, 0xbe, 0xef)
		}
		return Case{Data: gen.Pkt(gen.HNew, 1, b), O: o}, true
	}, compareOpts, show)
	check.Space(x, "sample-octets", check.Opt{Desc: "no option, each option alone and utc on every sample packet with every octet replaced by boundary values or its high bit changed (thorough: by every value)"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		if len(v.body) == 0 {
			return Case{}, false
		}
		i := c.Free(len(v.body))
		if !x.Thorough() && i > 40 {
			return Case{}, false
		}
		b := append([]byte{}, v.body...)
		if x.Thorough() {
			b[i] = byte(c.Free(256))
		} else if k := c.Free(8); k < 7 {
			b[i] = []byte{0, 1, 2, 9, 0x7f, 0xfe, 0xff}[k]
		} else {
			b[i] ^= 0x80
		}
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: optSet(explore.PickFree(c, []int{0, 1, 2, 4, 8, 16, 32, 64}))}, true
	}, compareOpts, show)
	// order: does an option leak from one packet to the next?
	alpha := packetAlphabet()
	depth := 2
	check.Space(x, "pairs", check.Opt{Desc: "16 option sets on every pair (thorough: all 128) of the packet alphabet"}, func(c *explore.Chooser) (Case, bool) {
		var o model.Opts
		if x.Thorough() {
			o = optSet(c.Free(128))
		} else {
			o = optSet(explore.PickFree(c, []int{0, 1, 2, 4, 8, 16, 32, 64, 1 + 4 + 8 + 16 + 32, 63, 4 + 8, 8 + 16, 1 + 32, 5, 12, 48}))
		}
		var d []byte
		for i := 0; i < depth; i++ {
			d = append(d, explore.PickFree(c, alpha)...)
		}
		return Case{Data: d, O: o}, true
	}, compareOpts, show)
	for _, g := range []struct {
		name  string
		tag   int
		build func(g *gen.G) []byte
	}{
		{"literal", 11, func(g *gen.G) []byte { return g.Literal() }},
		{"signature", 2, func(g *gen.G) []byte { return g.Signature(1) }},
		{"seckey", 5, func(g *gen.G) []byte { return g.SecKey() }},
		{"pkesk", 1, func(g *gen.G) []byte { return g.PKESK() }},
	} {
		g := g
		check.Space(x, "grammar/"+g.name, check.Opt{MaxDev: x.Bound(1, 2), Desc: "32 option sets x every single (thorough: pair of) field value of the packet grammar"}, func(c *explore.Chooser) (Case, bool) {
			o := optSet(c.Free(32) << 0)
			o.UTC = true
			b := g.build(gen.New(c, gen.Tiny))
			return Case{Data: gen.Pkt(gen.HNew, g.tag, b), O: o}, true
		}, compareOpts, show)
	}
}

// ---- C17 -------------------------------------------------------------------

// dirty finds a control character or invalid UTF-8 in a listing.
func dirty(ns []*model.Node) string {
	for _, n := range ns {
		if n == nil {
			continue
		}
		for _, s := range []string{n.Name, n.Value, n.Note, n.Dump} {
			if !utf8.ValidString(s) {
				return fmt.Sprintf("invalid UTF-8 %q", s)
			}
			for _, r := range s {
				if r < 0x20 || r >= 0x7f && r < 0xa0 {
					return fmt.Sprintf("control character U+%04X in %q", r, s)
				}
			}
		}
		if s := dirty(n.Items); s != "" {
			return s
		}
	}
	return ""
}

func compareClean(e *explore.Env, c Case) *explore.Violation {
	got := impl.Parse(c.Data, c.O)
	if got.Panic != "" {
		return viol(c, "panic: %s", got.Panic)
	}
	if s := dirty(got.Nodes); s != "" {
		return viol(c, "%s in the listing", s)
	}
	return compare(e, c)
}

type place struct {
	name  string
	max   int
	build func(t []byte) []byte
}

// textPlaces: every place where text of a packet reaches the listing.
func textPlaces() []place {
	sig := func(s []byte) []byte {
		g := gen.New(explore.Default(), gen.Tiny)
		return gen.Pkt(gen.HNew, 2, g.SigWith(4, [][]byte{s}, nil))
	}
	ps := []place{
		{"user ID", 1 << 20, func(t []byte) []byte { return gen.Pkt(gen.HNew, 13, t) }},
		{"file name", 255, func(t []byte) []byte {
			return gen.Pkt(gen.HNew, 11, append(append([]byte{'b', byte(len(t))}, t...), 1, 2, 3, 4, 'x'))
		}},
		{"notation name", 60000, func(t []byte) []byte {
			b := append([]byte{0x80, 0, 0, 0, byte(len(t) >> 8), byte(len(t)), 0, 1}, t...)
			b = append(b, 'v')
			return sig(gen.SubHdr(0, len(b)+1, 20, b))
		}},
		{"notation value", 60000, func(t []byte) []byte {
			b := append([]byte{0x80, 0, 0, 0, 0, 1, byte(len(t) >> 8), byte(len(t)), 'n'}, t...)
			return sig(gen.SubHdr(0, len(b)+1, 20, b))
		}},
		{"binary notation value", 60000, func(t []byte) []byte {
			b := append([]byte{0, 0, 0, 0, 0, 1, byte(len(t) >> 8), byte(len(t)), 'n'}, t...)
			return sig(gen.SubHdr(0, len(b)+1, 20, b))
		}},
		{"revocation reason", 60000, func(t []byte) []byte {
			b := append([]byte{1}, t...)
			return sig(gen.SubHdr(0, len(b)+1, 29, b))
		}},
	}
	for _, st := range []byte{6, 24, 26, 28} {
		st := st
		ps = append(ps, place{fmt.Sprintf("subpacket %d", st), 60000, func(t []byte) []byte { return sig(gen.SubHdr(0, len(t)+1, st, t)) }})
	}
	ps = append(ps,
		place{"user ID in key block", 60000, func(t []byte) []byte {
			b := append([]byte{0}, gen.Pkt(gen.HNew, 13, t)...)
			return sig(gen.SubHdr(0, len(b)+1, 38, b))
		}},
		place{"user ID in compressed data", 60000, func(t []byte) []byte {
			return gen.Pkt(gen.HNew, 8, append([]byte{0}, gen.Pkt(gen.HNew, 13, t)...))
		}},
		place{"signer in embedded signature", 60000, func(t []byte) []byte {
			g := gen.New(explore.Default(), gen.Tiny)
			b := g.SigWith(4, [][]byte{gen.SubHdr(0, len(t)+1, 28, t)}, nil)
			return sig(gen.SubHdr(0, len(b)+1, 32, b))
		}})
	return ps
}

// encodeAny writes any code point, also surrogates.
func encodeAny(r int) []byte {
	switch {
	case r < 0x80:
		return []byte{byte(r)}
	case r < 0x800:
		return []byte{0xc0 | byte(r>>6), 0x80 | byte(r&63)}
	case r < 0x10000:
		return []byte{0xe0 | byte(r>>12), 0x80 | byte(r>>6&63), 0x80 | byte(r&63)}
	}
	return []byte{0xf0 | byte(r>>18), 0x80 | byte(r>>12&63), 0x80 | byte(r>>6&63), 0x80 | byte(r&63)}
}

func c17(x *check.Ctx) {
	knownSpace(x)
	ps := textPlaces()
	max := 0x300
	var special = []int{0x200b, 0x200e, 0x2028, 0x2029, 0x202e, 0x2066, 0x3000, 0x3042, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff, 0x110000, 0x1fffff}
	check.Space(x, "code-points", check.Opt{Desc: "every code point up to U+02FF and special ones (surrogates, separators, directional marks, limits) in every text place, alone, first, in the middle and last"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, optsSmall)
		p := explore.PickFree(c, ps)
		k := c.Free(max + len(special))
		if k >= max {
			k = special[k-max]
		}
		t := encodeAny(k)
		switch c.Free(6) {
		case 1:
			t = append(t, "ab"...)
		case 2:
			t = append([]byte("ab"), t...)
		case 3:
			t = append(append([]byte("é"), t...), "語"...)
		case 4:
			t = append(append([]byte{}, t...), t...)
		case 5:
			t = append(append(append([]byte{}, t...), 'x'), t...)
		}
		return Case{Data: p.build(t), O: o, Note: p.name}, true
	}, compareClean, show)
	// every code point in the user ID
	n := x.Bound(0x10000, 0x200000)
	np := x.Bound(1, len(ps))
	check.Space(x, "all-code-points", check.Opt{Desc: "every code point of the basic plane (thorough: every 21-bit value in every place) between two letters"}, func(c *explore.Chooser) (Case, bool) {
		p := ps[c.Free(np)]
		k := c.Free(n)
		t := append(append([]byte("a"), encodeAny(k)...), 'b')
		return Case{Data: p.build(t), O: model.Opts{UTC: true}, Note: p.name}, true
	}, compareClean, show)
	check.Space(x, "two-octets", check.Opt{Desc: "every string of one or two octets in every text place"}, func(c *explore.Chooser) (Case, bool) {
		o := optsSmall[0]
		p := explore.PickFree(c, ps)
		t := []byte{byte(c.Free(256))}
		if c.Free(2) == 1 {
			t = append(t, byte(c.Free(256)))
		}
		return Case{Data: p.build(t), O: o, Note: p.name}, true
	}, compareClean, show)
	// longer strings over the octets UTF-8 distinguishes
	al := []byte{0x00, 0x1f, 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xff}
	k := x.Bound(3, 4)
	check.Space(x, "utf8-classes", check.Opt{Desc: "every string of three (thorough: four) octets over the 23 octets that UTF-8 and the control ranges distinguish, in user ID, file name and notation"}, func(c *explore.Chooser) (Case, bool) {
		p := ps[c.Free(4)]
		var t []byte
		for i := 0; i < k; i++ {
			t = append(t, explore.PickFree(c, al))
		}
		return Case{Data: p.build(t), O: optsSmall[0], Note: p.name}, true
	}, compareClean, show)
	check.Space(x, "control-strings", check.Opt{Desc: "every string of up to four (thorough: six) tokens over tab, newline, escape, NUL, DEL, C1, letter, space, multi-byte character, in every text place"}, func(c *explore.Chooser) (Case, bool) {
		toks := []string{"a", "\t", "\n", "\r", "\x1b", "\x00", "\x7f", "\u0085", "\u009b", " ", "é", "\u00a0", "(U+0009)", "\xff"}
		np := len(ps)
		m := x.Bound(3, 4)
		p := ps[c.Free(np)]
		var t []byte
		for i := c.Free(m + 1); i > 0; i-- {
			t = append(t, explore.PickFree(c, toks)...)
		}
		return Case{Data: p.build(t), O: optsSmall[0], Note: p.name}, true
	}, compareClean, show)
	check.Space(x, "long-text", check.Opt{Desc: "text of every boundary length ending or beginning in a control character or a cut multi-byte character, in every text place"}, func(c *explore.Chooser) (Case, bool) {
		p := explore.PickFree(c, ps)
		n := explore.PickFree(c, []int{15, 16, 31, 32, 62, 63, 64, 65, 127, 128, 189, 190, 191, 192, 254, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 9999, 10001, 16000, 16385, 32767, 32769, 40000, 59990, 65535, 65536, 65537, 99999, 100001, 131071, 131073, 262145, 999999, 1048575, 1048577})
		e := explore.PickFree(c, []string{"", "\x1b", "\u0085", "é", "\xc3", "\xe3\x81", "\xf0\x9f\x98"})
		if n+len(e) > p.max {
			return Case{}, false
		}
		t := strings.Repeat("x", n)
		if c.Free(2) == 0 {
			t += e
		} else {
			t = e + t
		}
		return Case{Data: p.build([]byte(t)), O: optsSmall[0], Note: p.name}, true
	}, compareClean, show)
	check.Space(x, "format-octet", check.Opt{Desc: "every format octet of literal data with three file names"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, optsSmall)
		f := byte(c.Free(256))
		fn := explore.PickFree(c, []string{"", "a.txt", "\x1b[2J"})
		return Case{Data: gen.Pkt(gen.HNew, 11, append(append([]byte{f, byte(len(fn))}, fn...), 0, 0, 0, 9, 'x', 0x1b)), O: o}, true
	}, compareClean, show)
	vs := allSamples()
	check.Space(x, "any-octet", check.Opt{Desc: "every sample packet with every octet replaced by each kind of control octet"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, optsSmall)
		v := explore.PickFree(c, vs)
		if len(v.body) == 0 {
			return Case{}, false
		}
		b := append([]byte{}, v.body...)
		b[c.Free(len(b))] = explore.PickFree(c, []byte{0, 7, 0x0a, 0x1b, 0x7f, 0x80, 0x9b, 0xff})
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: o}, true
	}, compareClean, show)
}

// ---- C25 -------------------------------------------------------------------

func zeros(n int) []byte { return make([]byte, n) }

func join(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// idPlaces: every place of an identifier octet; the rest is zeros, which every
// layout can be read from.
func idPlaces() []place {
	var ps []place
	add := func(name string, build func(v byte) []byte) {
		ps = append(ps, place{name, 1, func(t []byte) []byte { return build(t[0]) }})
	}
	pkt := func(tag int, bs ...[]byte) []byte { return gen.Pkt(gen.HNew, tag, join(bs...)) }
	B := func(bs ...byte) []byte { return bs }
	sub := func(t byte, body []byte) []byte {
		s := gen.SubHdr(0, len(body)+1, t, body)
		return pkt(2, B(4, 0, 1, 8), B(byte(len(s)>>8), byte(len(s))), s, B(0, 0, 1, 2, 0, 0))
	}
	usub := func(t byte, body []byte) []byte {
		s := gen.SubHdr(0, len(body)+1, t, body)
		return pkt(2, B(5, 0, 1, 8, 0, 0), B(byte(len(s)>>8), byte(len(s))), s, B(1, 2, 0, 0))
	}
	// versions
	add("version of tag 1", func(v byte) []byte { return pkt(1, B(v), zeros(8), B(1), zeros(40)) })
	add("version of tag 2", func(v byte) []byte { return pkt(2, B(v), zeros(60)) })
	add("version of tag 3", func(v byte) []byte { return pkt(3, B(v, 9, 3, 8), zeros(40)) })
	add("version of tag 4", func(v byte) []byte { return pkt(4, B(v), zeros(12)) })
	for _, t := range []int{5, 6, 7, 14} {
		t := t
		add(fmt.Sprintf("version of tag %d", t), func(v byte) []byte { return pkt(t, B(v), zeros(60)) })
		for _, ver := range []byte{3, 4, 5} {
			ver := ver
			add(fmt.Sprintf("public-key algorithm of v%d tag %d", ver, t), func(v byte) []byte {
				h := []byte{ver, 0, 0, 0, 1}
				if ver == 3 {
					h = append(h, 0, 0)
				}
				h = append(h, v)
				if ver == 5 {
					h = append(h, 0, 0, 0, 30)
				}
				return pkt(t, h, zeros(30), zeros(40))
			})
		}
	}
	add("version of tag 20", func(v byte) []byte { return pkt(20, B(v, 9, 1, 0), zeros(40)) })
	add("image version", func(v byte) []byte {
		return pkt(17, gen.SubHdr(0, 21, 1, append(B(16, 0, v, 1), zeros(16)...)))
	})
	add("image encoding", func(v byte) []byte {
		return pkt(17, gen.SubHdr(0, 21, 1, append(B(16, 0, 100, v), zeros(16)...)))
	})
	for _, st := range []byte{33, 35} {
		st := st
		add(fmt.Sprintf("fingerprint version of sub %d", st), func(v byte) []byte { return sub(st, append(B(v), zeros(20)...)) })
	}
	add("key block type", func(v byte) []byte { return sub(38, B(v, 0xcd, 1, 'u')) })
	// symmetric
	add("cipher of tag 3", func(v byte) []byte { return pkt(3, B(4, v, 0, 8)) })
	add("cipher of tag 20", func(v byte) []byte { return pkt(20, B(1, v, 1, 0), zeros(20)) })
	add("usage octet of secret key", func(v byte) []byte { return pkt(5, B(4, 0, 0, 0, 1, 1, 0, 0, 0, 0, v), zeros(60)) })
	add("usage octet of v5 secret key", func(v byte) []byte {
		return pkt(5, B(5, 0, 0, 0, 1, 1, 0, 0, 0, 4, 0, 0, 0, 0, v, 30), zeros(30), B(0, 0, 0, 20), zeros(24))
	})
	for _, u := range []byte{253, 254, 255} {
		u := u
		add(fmt.Sprintf("cipher of secret key, usage %d", u), func(v byte) []byte {
			return pkt(5, B(4, 0, 0, 0, 1, 1, 0, 0, 0, 0, u, v), zeros(60))
		})
		add(fmt.Sprintf("S2K of secret key, usage %d", u), func(v byte) []byte {
			b := B(4, 0, 0, 0, 1, 1, 0, 0, 0, 0, u, 9)
			if u == 253 {
				b = append(b, 1)
			}
			return pkt(7, b, B(v), zeros(60))
		})
	}
	add("AEAD of secret key", func(v byte) []byte { return pkt(5, B(4, 0, 0, 0, 1, 1, 0, 0, 0, 0, 253, 9, v), zeros(60)) })
	add("AEAD of tag 20", func(v byte) []byte { return pkt(20, B(1, 9, v, 0), zeros(20)) })
	add("chunk size of tag 20", func(v byte) []byte { return pkt(20, B(1, 9, 1, v), zeros(20)) })
	for _, st := range []byte{11, 21, 22, 34} {
		st := st
		add(fmt.Sprintf("preference in sub %d", st), func(v byte) []byte { return sub(st, B(v)) })
		add(fmt.Sprintf("second preference in unhashed sub %d", st), func(v byte) []byte { return usub(st, B(1, v, 2)) })
	}
	add("KDF hash", func(v byte) []byte {
		return pkt(6, B(4, 0, 0, 0, 1, 18, 0, 0, 0, 3, 1, v, 9))
	})
	add("KDF cipher", func(v byte) []byte {
		return pkt(6, B(4, 0, 0, 0, 1, 18, 0, 0, 0, 3, 1, 8, v))
	})
	// public-key and hash
	add("algorithm of tag 1", func(v byte) []byte { return pkt(1, B(3), zeros(8), B(v), zeros(40)) })
	for _, ver := range []byte{4, 5} {
		ver := ver
		add(fmt.Sprintf("algorithm of v%d signature", ver), func(v byte) []byte { return pkt(2, B(ver, 0, v, 8, 0, 0, 0, 0, 1, 2), zeros(40)) })
		add(fmt.Sprintf("hash of v%d signature", ver), func(v byte) []byte { return pkt(2, B(ver, 0, 1, v, 0, 0, 0, 0, 1, 2), zeros(40)) })
		add(fmt.Sprintf("type of v%d signature", ver), func(v byte) []byte { return pkt(2, B(ver, v, 1, 8, 0, 0, 0, 0, 1, 2), zeros(40)) })
	}
	add("algorithm of v3 signature", func(v byte) []byte { return pkt(2, B(3, 5, 0, 0, 0, 0, 1), zeros(8), B(v, 8, 1, 2), zeros(40)) })
	add("hash of v3 signature", func(v byte) []byte { return pkt(2, B(3, 5, 0, 0, 0, 0, 1), zeros(8), B(1, v, 1, 2), zeros(40)) })
	add("type of v3 signature", func(v byte) []byte { return pkt(2, B(3, 5, v, 0, 0, 0, 1), zeros(8), B(1, 8, 1, 2), zeros(40)) })
	add("type of one-pass", func(v byte) []byte { return pkt(4, B(3, v, 8, 1), zeros(9)) })
	add("hash of one-pass", func(v byte) []byte { return pkt(4, B(3, 0, v, 1), zeros(9)) })
	add("algorithm of one-pass", func(v byte) []byte { return pkt(4, B(3, 0, 8, v), zeros(9)) })
	add("nesting flag of one-pass", func(v byte) []byte { return pkt(4, B(3, 0, 8, 1), zeros(8), B(v)) })
	add("S2K of tag 3", func(v byte) []byte { return pkt(3, B(4, 9, v), zeros(20)) })
	for _, k := range []byte{0, 1, 3} {
		k := k
		add(fmt.Sprintf("S2K %d hash", k), func(v byte) []byte { return pkt(3, B(4, 9, k, v), zeros(20)) })
	}
	add("S2K count", func(v byte) []byte { return pkt(3, B(4, 9, 3, 8), zeros(8), B(v)) })
	add("GNU extension", func(v byte) []byte { return pkt(3, B(4, 9, 101, 'G', 'N', 'U', v), zeros(20)) })
	add("revocation key class", func(v byte) []byte { return sub(12, append(B(v, 1), zeros(20)...)) })
	add("revocation key algorithm", func(v byte) []byte { return sub(12, append(B(0x80, v), zeros(20)...)) })
	add("target algorithm", func(v byte) []byte { return sub(31, append(B(v, 8), zeros(20)...)) })
	add("target hash", func(v byte) []byte { return sub(31, append(B(1, v), zeros(20)...)) })
	add("revocation reason", func(v byte) []byte { return sub(29, B(v, 'x')) })
	add("revocation reason without text", func(v byte) []byte { return usub(29, B(v)) })
	for _, st := range []byte{4, 7, 25, 23, 27, 30} {
		st := st
		add(fmt.Sprintf("flag octet of sub %d", st), func(v byte) []byte { return sub(st, B(v)) })
	}
	add("second key flag octet", func(v byte) []byte { return sub(27, B(1, v)) })
	// subpacket types: any content that reads
	add("subpacket type, hashed", func(v byte) []byte { return sub(v, bodyForSub(v)) })
	add("subpacket type, unhashed", func(v byte) []byte { return usub(v, bodyForSub(v)) })
	add("attribute type", func(v byte) []byte { return pkt(17, gen.SubHdr(0, 21, v, append(B(16, 0, 1, 1), zeros(16)...))) })
	add("compression algorithm, empty", func(v byte) []byte { return pkt(8, B(v)) })
	add("compression algorithm", func(v byte) []byte {
		switch v {
		case 1:
			return pkt(8, B(v), deflate(uidZ))
		case 2:
			return pkt(8, B(v), zdeflate(uidZ))
		case 3:
			return pkt(8, B(v), gen.Bzip2(uidZ))
		}
		return pkt(8, B(v), uidZ)
	})
	add("literal format", func(v byte) []byte { return pkt(11, B(v, 0, 0, 0, 0, 1, 'x')) })
	add("point format", func(v byte) []byte { return pkt(6, B(4, 0, 0, 0, 1, 19, 0, 0, 16, v, 7)) })
	return ps
}

func bodyForSub(v byte) []byte {
	switch v & 0x7f {
	case 38:
		return append([]byte{0}, uidA...)
	case 32:
		return []byte{4, 0x19, 1, 8, 0, 0, 0, 0, 0xab, 0xcd, 0, 9, 1, 2}
	case 20:
		return []byte{0x80, 0, 0, 0, 0, 1, 0, 1, 'n', 'v'}
	}
	return []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22}
}

// compareValid: the model must also accept it, or the case is vacuous.
func compareValid(e *explore.Env, c Case) *explore.Violation {
	return compare(e, c)
}

func c25(x *check.Ctx) {
	ps := idPlaces()
	check.Space(x, "octets", check.Opt{Desc: "all 256 values of every identifier, version and flag octet in every place it occurs"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, optsSmall)
		p := explore.PickFree(c, ps)
		v := byte(c.Free(256))
		d := p.build([]byte{v})
		return Case{Data: d, O: o, Note: fmt.Sprintf("%s = %d", p.name, v)}, true
	}, compareValid, show)
	check.Space(x, "tags", check.Opt{Desc: "all 64 tags in new format and all 16 in old format"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, optsSmall)
		tag := c.Free(64)
		k := explore.PickFree(c, []int{gen.HNew, gen.HOld1})
		b := baseBody(tag)
		if !gen.HdrOK(k, tag, len(b)) {
			return Case{}, false
		}
		return Case{Data: gen.Pkt(k, tag, b), O: o}, true
	}, compareValid, show)
	oidKey := func(a byte, oid []byte) []byte {
		return gen.Pkt(gen.HNew, 6, join([]byte{4, 0, 0, 0, 1, a, byte(len(oid))}, oid, []byte{0, 9, 4, 5, 3, 1, 8, 9}))
	}
	check.Space(x, "curves", check.Opt{Desc: "every registered curve OID, each with every octet changed to every value, every prefix, every one-octet extension and every two registered ones joined, for ECDH, ECDSA and EdDSA"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, optsSmall)
		a := explore.PickFree(c, []byte{18, 19, 22})
		oid := append([]byte{}, explore.PickFree(c, model.Curves).OID...)
		switch c.Free(5) {
		case 1:
			oid[c.Free(len(oid))] = byte(c.Free(256))
		case 2:
			oid = oid[:c.Free(len(oid))]
		case 3:
			oid = append(oid, byte(c.Free(256)))
		case 4:
			oid = append(oid, explore.PickFree(c, model.Curves).OID...)
		}
		return Case{Data: oidKey(a, oid), O: o}, true
	}, compareValid, show)
	check.Space(x, "oid-lengths", check.Opt{Desc: "every OID length 0-255"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, optsSmall)
		oid := make([]byte, c.Free(256))
		for i := range oid {
			oid[i] = 0x2b
		}
		return Case{Data: oidKey(19, oid), O: o}, true
	}, compareValid, show)
	if x.Thorough() {
		check.Space(x, "octet-pairs", check.Opt{Desc: "all pairs of algorithm octets in the packets that hold two"}, func(c *explore.Chooser) (Case, bool) {
			v, w := byte(c.Free(256)), byte(c.Free(256))
			o := optsSmall[0]
			var b []byte
			tag := 2
			switch c.Free(7) {
			case 0:
				b = join([]byte{4, 0, v, w, 0, 0, 0, 0, 1, 2}, zeros(40))
			case 1:
				b = join([]byte{4, v, w, 8, 0, 0, 0, 0, 1, 2}, zeros(40))
			case 2:
				tag, b = 4, join([]byte{3, 0, v, w}, zeros(9))
			case 3:
				tag, b = 20, join([]byte{1, v, w, 0}, zeros(20))
			case 4:
				tag, b = 3, join([]byte{4, v, w, 8}, zeros(20))
			case 5:
				tag, b = 5, join([]byte{4, 0, 0, 0, 1, v, 0, 0, 0, 0, w}, zeros(60))
			case 6:
				tag, b = 6, join([]byte{v, 0, 0, 0, 1, w}, zeros(60))
			}
			return Case{Data: gen.Pkt(gen.HNew, tag, b), O: o}, true
		}, compareValid, show)
	}
}

// ---- C26 -------------------------------------------------------------------

// timePlaces: every place of a time.
func timePlaces() []func(t uint32) []byte {
	B := func(bs ...byte) []byte { return bs }
	pkt := func(tag int, bs ...[]byte) []byte { return gen.Pkt(gen.HNew, tag, join(bs...)) }
	sig := func(areas ...[]byte) []byte {
		var s []byte
		for _, a := range areas {
			s = append(s, a...)
		}
		return pkt(2, B(4, 0, 1, 8), B(byte(len(s)>>8), byte(len(s))), s, B(0, 0, 1, 2, 0, 0))
	}
	key := func(v byte, t uint32) []byte {
		switch v {
		case 3:
			return join(B(3), u32(t), B(0, 30, 1, 0, 0, 0, 0))
		case 5:
			return join(B(5), u32(t), B(1, 0, 0, 0, 4, 0, 0, 0, 0))
		}
		return join(B(4), u32(t), B(1, 0, 0, 0, 0))
	}
	return []func(t uint32) []byte{
		func(t uint32) []byte { return pkt(6, key(4, t)) },
		func(t uint32) []byte { return pkt(14, key(3, t)) },
		func(t uint32) []byte { return pkt(6, key(5, t)) },
		func(t uint32) []byte { return pkt(5, key(4, t), B(0), zeros(10)) },
		func(t uint32) []byte { return pkt(7, key(5, t), B(0, 0, 0, 0, 0, 0)) },
		func(t uint32) []byte { return pkt(2, B(3, 5, 0), u32(t), zeros(8), B(1, 8, 1, 2, 0, 0)) },
		func(t uint32) []byte { return sig(gen.SubHdr(0, 5, 2, u32(t))) },
		func(t uint32) []byte { return pkt(11, B('b', 1, 'f'), u32(t), B('x')) },
		func(t uint32) []byte {
			return sig(gen.SubHdr(0, 5, 2, u32(t)), gen.SubHdr(0, 5, 3, u32(86400)))
		},
		func(t uint32) []byte {
			return sig(gen.SubHdr(0, 5, 2, u32(0x5f000001)), gen.SubHdr(0, 5, 3, u32(t)))
		},
		func(t uint32) []byte {
			return sig(gen.SubHdr(0, 5, 2, u32(t)), gen.SubHdr(0, 5, 3, u32(t)))
		},
		func(t uint32) []byte { return append(pkt(6, key(4, t)), sig(gen.SubHdr(0, 5, 9, u32(86400*30+1)))...) },
		func(t uint32) []byte {
			return append(pkt(6, key(4, 0x5f000001)), sig(gen.SubHdr(0, 5, 2, u32(7)), gen.SubHdr(0, 5, 9, u32(t)))...)
		},
		func(t uint32) []byte {
			s := join(B(4, 0x19, 1, 8, 0, 12), gen.SubHdr(0, 5, 2, u32(t)), gen.SubHdr(0, 5, 3, u32(99)), B(0, 0, 1, 2, 0, 0))
			return sig(gen.SubHdr(0, len(s)+1, 32, s))
		},
	}
}

// instants: boundary times and the zone's own transitions.
func instants(z *time.Location, thorough bool) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	add := func(t int64) {
		if t >= 0 && t <= 1<<32-1 && !seen[uint32(t)] {
			seen[uint32(t)] = true
			out = append(out, uint32(t))
		}
	}
	for k := 0; k <= 32; k++ {
		for d := int64(-1); d <= 1; d++ {
			add(1<<k + d)
		}
	}
	add(0)
	n := 0
	for t := time.Unix(0, 0).In(z); n < 400; n++ {
		_, end := t.ZoneBounds()
		if end.IsZero() {
			break
		}
		add(end.Unix() - 1)
		add(end.Unix())
		add(end.Unix() + 1)
		add(end.Unix() + 3600)
		add(end.Unix() - 3600)
		t = end
	}
	for y := 1970; y <= 2106; y++ {
		add(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix() - 1)
		add(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix())
		add(time.Date(y, 2, 28, 23, 59, 59, 0, time.UTC).Unix() + 1)
		add(time.Date(y, 7, 1, 12, 34, 56, 0, time.UTC).Unix())
	}
	step := int64(1<<21 + 12347)
	if thorough {
		step = 1<<17 + 12347
	}
	for t := int64(0); t < 1<<32; t += step {
		add(t)
	}
	return out
}

// compareTimes: the model, and that each shown time reads back as an instant of
// the expected zone.
func compareTimes(e *explore.Env, c Case) *explore.Violation { return compare(e, c) }

func c26(x *check.Ctx) {
	old := time.Local
	defer func() { time.Local = old }()
	names := []string{"UTC", "Asia/Tokyo", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Asia/Kathmandu", "Africa/Casablanca", "fixed-12", "fixed+14", "fixed-00:30"}
	if x.Thorough() {
		names = append(names, "Europe/Dublin", "America/Sao_Paulo", "Asia/Tehran", "Asia/Pyongyang", "Antarctica/Troll", "Pacific/Kiritimati", "Pacific/Chatham", "America/Caracas", "Asia/Gaza", "Europe/Istanbul", "Africa/Cairo", "Pacific/Marquesas")
	}
	ps := timePlaces()
	for _, name := range names {
		var z *time.Location
		switch name {
		case "fixed-12":
			z = time.FixedZone("W", -12*3600)
		case "fixed+14":
			z = time.FixedZone("E", 14*3600)
		case "fixed-00:30":
			z = time.FixedZone("H", -1800)
		default:
			var err error
			if z, err = time.LoadLocation(name); err != nil {
				panic(err)
			}
		}
		ts := instants(z, x.Thorough())
		time.Local = z
		check.Space(x, "zone/"+name, check.Opt{Desc: "process zone " + name + ": powers of two, year and month boundaries and every transition of the zone, each a second around, and a regular sweep of the 32-bit range, in every place of a time, with and without utc and debug"}, func(c *explore.Chooser) (Case, bool) {
			o := explore.PickFree(c, []model.Opts{{Zone: z}, {Zone: z, UTC: true}, {Zone: z, Debug: true}})
			p := explore.PickFree(c, ps)
			return Case{Data: p(explore.PickFree(c, ts)), O: o, Note: "zone " + name}, true
		}, compareTimes, show)
	}
	// every day and every second of a day
	z := time.FixedZone("X", -(3*3600 + 1800))
	time.Local = z
	// what stands around a time does not matter: every sample packet with its octets changed
	vs := allSamples()
	check.Space(x, "around-times", check.Opt{Desc: "process zone -03:30, with and without utc: every sample packet with every octet replaced by boundary values or its high bit changed (thorough: by every value), and literal packets with every format octet"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, []model.Opts{{Zone: z}, {Zone: z, UTC: true}})
		k := c.Free(len(vs) + 1)
		if k == len(vs) {
			return Case{Data: append(gen.Pkt(gen.HNew, 11, append([]byte{byte(c.Free(256)), 1, 'n'}, append(u32(explore.PickFree(c, []uint32{0, 1, 1709164800, 1<<32 - 1})), 'x')...)), uidZ...), O: o, Note: "zone -03:30"}, true
		}
		v := vs[k]
		if len(v.body) == 0 {
			return Case{}, false
		}
		i := c.Free(len(v.body))
		if !x.Thorough() && i > 40 {
			return Case{}, false
		}
		b := append([]byte{}, v.body...)
		if x.Thorough() {
			b[i] = byte(c.Free(256))
		} else if k := c.Free(8); k < 7 {
			b[i] = []byte{0, 1, 2, 9, 0x7f, 0xfe, 0xff}[k]
		} else {
			b[i] ^= 0x80
		}
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: o, Note: "zone -03:30"}, true
	}, compareTimes, show)
	check.Space(x, "days", check.Opt{Desc: "every day from 1970 to 2106, at midnight UTC, midnight local time (-03:30) and the second before each, with and without utc"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, []model.Opts{{Zone: z}, {Zone: z, UTC: true}})
		p := ps[explore.PickFree(c, []int{0, 6, 7, 8})]
		t := int64(c.Free(49711))*86400 + explore.PickFree(c, []int64{0, -1, 12600, 12599})
		if t < 0 || t > 1<<32-1 {
			return Case{}, false
		}
		return Case{Data: p(uint32(t)), O: o, Note: "zone -03:30"}, true
	}, compareTimes, show)
	check.Space(x, "seconds", check.Opt{Desc: "every second of a day (2024-02-29), with and without utc, in every place of a time"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, []model.Opts{{Zone: z}, {Zone: z, UTC: true}})
		k := c.Free(len(ps))
		if !x.Thorough() && k != 0 && k != 7 {
			return Case{}, false
		}
		return Case{Data: ps[k](1709164800 + uint32(c.Free(86400))), O: o, Note: "zone -03:30"}, true
	}, compareTimes, show)
}

// knownTexts are texts that mean something to some program.
var knownTexts = []string{
	"_CONSOLE", "-", "--", ".", "..", "/", "~", "null", "nil", "<nil>", "true", "0", "-1", "NaN", "none", "unknown", "(null)",
	"/etc/passwd", "../../x", `C:\x.txt`, `\\host\x`, "a/b/", "x.gpg", "x.asc", "con", "*", "?", "$HOME", "`id`", "$(id)", "%00", "%41", "&amp;", "&#65;", "<script>",
	`\n`, `\x41`, `\u0041`, `"q"`, `'q'`, `{"a":1}`, "[]", "a,b;c", "a=b", "a: b", "(note)", "(U+0041)", "(U+0007)", "=41", "+AGE-", "=?UTF-8?Q?x?=", "xn--x",
	"Bob (comment) <bob@example.org>", "<bob@example.org>", "bob@example.org", "Bob <>", "Bob <bob@EXAMPLE.org> ", "\tBob", "Bob\n", "https://example.org/?q=1#f", "mailto:b@example.org", "ftp://x",
	"preferred-email-encoding@pgp.com", "proof@metacode.biz", "salt@notations.sequoia-pgp.org", "pgp+mime", "remark@gnupg.org", "pka-address@gnupg.org", "uri:x", "dns:example.org?type=TXT", "hkps://keys.example.org", "<[^>]+[@.]example\\.org>$",
	"-----BEGIN PGP MESSAGE-----", "-----END PGP MESSAGE-----", "PGP", "GNU", "\u00a0", "\u3000", "\u202ex", "I\u0307", "\u0131", "\u00df", "\ufb01", "e\u0301\u0323", "\u1e9e", "\u212a", "\u0345", "\U0001f468\u200d\U0001f469", "a\u200bb", "a\u00adb", "\ufeffa", "a\u2028b", "\U000e0041",
}

func knownSpace(x *check.Ctx, places ...string) {
	var ps []place
	for _, p := range textPlaces() {
		for _, n := range places {
			if p.name == n {
				ps = append(ps, p)
			}
		}
	}
	if len(places) == 0 {
		ps = textPlaces()
	}
	check.Space(x, "known-texts", check.Opt{Desc: "texts that mean something elsewhere (special file names, escapes, markup, mail and URL forms, notation names, armor lines, combining and invisible characters) in every place of these packets, alone and twice, under every dump option"}, func(c *explore.Chooser) (Case, bool) {
		p := explore.PickFree(c, ps)
		t := explore.PickFree(c, knownTexts)
		if c.Free(2) == 1 {
			t += " " + t
		}
		o := explore.PickFree(c, []model.Opts{{}, {UTC: true, Debug: true}, {Literal: true}, {Int: true, Cert: true, Marker: true, Private: true, UTC: true}})
		return Case{Data: append(p.build([]byte(t)), uidZ...), O: o, Note: p.name}, true
	}, compareClean, show)
}
