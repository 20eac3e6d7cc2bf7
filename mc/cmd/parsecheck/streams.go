package main

import (
	"bytes"
	"regexp"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"
)

// baseBody is a valid body for every tag.
func baseBody(tag int) []byte {
	g := gen.New(explore.Default(), gen.Tiny)
	switch tag {
	case 1:
		return g.PKESK()
	case 2:
		return g.Signature(0)
	case 3:
		return g.SKESK()
	case 4:
		return g.OnePass()
	case 5, 7:
		return g.SecKey()
	case 6, 14:
		return g.PubKey()
	case 8:
		return []byte{200, 1, 2, 3}
	case 11:
		return g.Literal()
	case 13:
		return []byte("uid")
	case 17:
		b := g.ImageSub()
		return gen.SubHdr(0, len(b)+1, 1, b)
	case 20:
		return g.AEADData()
	}
	return []byte{0x51, 0x52}
}

// bodyOf is a body of exactly n bytes for a tag (ok=false: no such body).
func bodyOf(tag, n int) ([]byte, bool) {
	base := baseBody(tag)
	switch tag {
	case 1, 2, 3, 4, 5, 6, 7, 14, 20, 11, 8: // structured, rest is trailing data
		if n < len(base) {
			return nil, false
		}
		b := append([]byte{}, base...)
		for i := len(b); i < n; i++ {
			b = append(b, byte(i*7+3))
		}
		return b, true
	case 17:
		if n == 0 {
			return nil, true
		}
		if n < 7 {
			return nil, false
		}
		b := make([]byte, n-6)
		return gen.SubHdr(5, n-5, 100, b), true
	case 13:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		return b, true
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + 3)
	}
	return b, true
}

func c02(x *check.Ctx) {
	lens := gen.LensFull
	if x.Thorough() {
		lens = append(append([]int{}, lens...), 100000, 1<<17-1, 1<<17, 1<<20-1, 1<<20, 1<<20+1)
	}
	check.Space(x, "headers", check.Opt{Desc: "every tag 0-63 x every header kind that can carry it x every boundary body length, between two other packets"}, func(c *explore.Chooser) (Case, bool) {
		tag := c.Free(64)
		kind := c.Free(gen.NHdr)
		n := explore.PickFree(c, lens)
		b, ok := bodyOf(tag, n)
		if !ok || !gen.HdrOK(kind, tag, n) {
			return Case{}, false
		}
		d := append(append([]byte{}, uidA...), gen.Pkt(kind, tag, b)...)
		if kind != gen.HOldIndet {
			d = append(d, uidZ...)
		}
		return Case{Data: d, O: model.Opts{UTC: true, Debug: n < 300}}, true
	}, compare, show)

	check.Space(x, "header-octets", check.Opt{Desc: "every pair of first header octet and first length octet, with 0, 40, 200 and 700 bytes following"}, func(c *explore.Chooser) (Case, bool) {
		h, l := byte(c.Free(256)), byte(c.Free(256))
		n := explore.PickFree(c, []int{0, 1, 40, 200, 700})
		d := append([]byte{}, uidA...)
		d = append(d, h, l)
		for i := 0; i < n; i++ {
			d = append(d, byte(i))
		}
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)

	type hugeBody struct{ tag, n, kind int }
	check.Space(x, "huge-bodies", check.Opt{Workers: 2, Desc: "bodies of 2^k+1 octets, k from 21 to 27 (thorough: 29), in every header kind able to carry them, between two other packets"}, func(c *explore.Chooser) (hugeBody, bool) {
		h := hugeBody{tag: explore.PickFree(c, []int{11, 18, 60, 33}), n: 1<<(21+c.Free(x.Bound(7, 9))) + 1, kind: explore.PickFree(c, []int{gen.HNew, gen.HOld4, gen.HPartial, gen.HOldIndet})}
		return h, gen.HdrOK(h.kind, h.tag, h.n) && (h.n < 1<<25 || h.tag == 11 || h.kind == gen.HNew)
	}, func(e *explore.Env, h hugeBody) *explore.Violation {
		b, _ := bodyOf(h.tag, h.n)
		d := append(append([]byte{}, uidA...), gen.Pkt(h.kind, h.tag, b)...)
		if h.kind != gen.HOldIndet {
			d = append(d, uidZ...)
		}
		v := compare(e, Case{Data: d, O: model.Opts{UTC: true}})
		if v != nil {
			v.Detail = map[string]any{"tag": h.tag, "octets": h.n, "header": h.kind}
		}
		return v
	}, func(h hugeBody) map[string]any {
		return map[string]any{"tag": h.tag, "octets": h.n, "header": h.kind}
	})

	max := x.Bound(20, 40)
	check.Space(x, "partial-lengths", check.Opt{Desc: "every division of a body of up to the bound into partial chunks, with every final length encoding"}, func(c *explore.Chooser) (Case, bool) {
		n := c.Free(max + 1)
		left := n
		var exps []int
		for {
			k := 0
			for 1<<k <= left {
				k++
			}
			e := c.Free(k + 1)
			if e == 0 {
				break
			}
			exps = append(exps, e-1)
			left -= 1 << (e - 1)
			if len(exps) > 4 && max > 24 {
				return Case{}, false
			}
		}
		final := explore.PickFree(c, []int{0, 5})
		b, _ := bodyOf(10, n)
		d := append(append([]byte{}, uidA...), gen.Chunks(10, b, exps, final)...)
		d = append(d, uidZ...)
		return Case{Data: d, O: model.Opts{UTC: true, Debug: true}}, true
	}, compare, show)

	check.Space(x, "partial-large", check.Opt{Desc: "every pair of partial-length exponents 0-16 followed by a final chunk of a boundary length, per tag class"}, func(c *explore.Chooser) (Case, bool) {
		tag := explore.PickFree(c, []int{11, 13, 2, 6, 18, 60, 33})
		e1, e2 := c.Free(17), c.Free(18)-1
		f := explore.PickFree(c, []int{0, 1, 191, 192, 193, 500, 8383, 8384})
		exps := []int{e1}
		n := 1<<e1 + f
		if e2 >= 0 {
			exps = append(exps, e2)
			n += 1 << e2
		}
		b, ok := bodyOf(tag, n)
		if !ok {
			return Case{}, false
		}
		return Case{Data: append(gen.Chunks(tag, b, exps, 0), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)

	top := x.Bound(9000, 70000)
	check.Space(x, "lengths", check.Opt{Desc: "every body length up to the bound in every header kind"}, func(c *explore.Chooser) (Case, bool) {
		tag := explore.PickFree(c, []int{10, 13, 40})
		kind := c.Free(gen.NHdr)
		n := c.Free(top)
		if tag != 10 && n > 1500 || !gen.HdrOK(kind, tag, n) {
			return Case{}, false
		}
		b, _ := bodyOf(tag, n)
		d := gen.Pkt(kind, tag, b)
		if kind != gen.HOldIndet {
			d = append(d, uidZ...)
		}
		return Case{Data: d, O: model.Opts{UTC: true, Marker: n%64 == 0}}, true
	}, compare, show)

	var huge []int
	for _, n := range bigSizes(x.Bound(20, 24)) {
		if n > 65537 {
			huge = append(huge, n)
		}
	}
	check.Space(x, "large", check.Opt{Desc: "every tag 0-63 x every header kind that can carry it x sizes around the powers of two and ten above 64 KiB"}, func(c *explore.Chooser) (Case, bool) {
		tag := c.Free(64)
		kind := c.Free(gen.NHdr)
		n := explore.PickFree(c, huge)
		if !gen.HdrOK(kind, tag, n) {
			return Case{}, false
		}
		b, ok := bodyOf(tag, n)
		if !ok {
			return Case{}, false
		}
		d := gen.Pkt(kind, tag, b)
		if kind != gen.HOldIndet {
			d = append(d, uidZ...)
		}
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)

	alpha := packetAlphabet()
	n := x.Bound(3, 4)
	check.Space(x, "sequences", check.Opt{Desc: "every packet sequence up to the bound over an alphabet with every tag class and header kind, ending in a determinate, indeterminate or empty packet"}, func(c *explore.Chooser) (Case, bool) {
		k := 1 + c.Free(n)
		var d []byte
		for i := 0; i < k; i++ {
			d = append(d, explore.PickFree(c, alpha)...)
		}
		switch c.Free(3) {
		case 1:
			d = append(d, gen.Pkt(gen.HOldIndet, 10, []byte("rest of the stream"))...)
		case 2:
			d = append(d, gen.Pkt(gen.HOldIndet, 12, nil)...)
		}
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)
	iterator(x, alpha)
	many := x.Bound(600, 3000)
	check.Space(x, "many", check.Opt{Desc: "streams of every number of packets up to the bound"}, func(c *explore.Chooser) (Case, bool) {
		k := c.Free(many)
		if k > 300 && k%17 > 1 {
			return Case{}, false
		}
		var d []byte
		for i := 0; i < k; i++ {
			d = append(d, alpha[i%len(alpha)]...)
		}
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)
	check.Space(x, "very-many", check.Opt{Desc: "streams of as many packets as a power of two or ten up to 2^18 (thorough: 2^21), one more and one less, the packets being empty or not"}, func(c *explore.Chooser) (Case, bool) {
		ns := []int{1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072, 262144}
		if x.Thorough() {
			ns = append(ns, 524288, 1000000, 1048576, 2097152)
		}
		n := explore.PickFree(c, ns) + c.Free(3) - 1
		u := explore.PickFree(c, [][]byte{gen.Pkt(gen.HNew, 12, nil), gen.Pkt(gen.HOld1, 13, []byte("u"))})
		return Case{Data: append(bytes.Repeat(u, n), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
}

func packetAlphabet() [][]byte {
	var a [][]byte
	for _, tag := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 0, 15, 16, 21, 40, 60, 63} {
		a = append(a, gen.Pkt(gen.HNew, tag, baseBody(tag)))
	}
	l := []byte("long ")
	for len(l) < 250 {
		l = append(l, l...)
	}
	l = l[:250]
	a = append(a, gen.Pkt(gen.HOld1, 13, []byte("old one")), gen.Pkt(gen.HOld2, 13, l), gen.Pkt(gen.HOld4, 13, []byte("old four")),
		gen.Pkt(gen.HNew2, 13, l), gen.Pkt(gen.HNew5, 13, []byte("new five")), gen.Pkt(gen.HPartial, 13, l), gen.Pkt(gen.HNew, 13, nil), gen.Pkt(gen.HNew, 12, nil))
	return a
}

func c03(x *check.Ctx) {
	vs := allSamples()
	check.Space(x, "cut-in-body", check.Opt{Desc: "every sample packet (every tag, algorithm, version, subpacket type, S2K kind) with its body cut at every byte, packet length adjusted, between two other packets"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		k := c.Free(len(v.body) + 1)
		o := explore.PickFree(c, optsSmall)
		d := append([]byte{}, uidA...)
		d = append(d, gen.Pkt(gen.HNew, v.tag, v.body[:len(v.body)-k])...)
		return Case{Data: append(d, uidZ...), O: o}, true
	}, compare, show)

	check.Space(x, "cut-in-stream", check.Opt{Desc: "every sample packet in every header kind, the stream cut at every byte"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		kind := c.Free(gen.NHdr)
		if !gen.HdrOK(kind, v.tag, len(v.body)) {
			return Case{}, false
		}
		d := append([]byte{}, uidA...)
		d = append(d, gen.Pkt(kind, v.tag, v.body)...)
		if kind != gen.HOldIndet {
			d = append(d, uidZ...)
		}
		k := c.Free(len(d) + 1)
		return Case{Data: d[:k], O: model.Opts{UTC: true}}, true
	}, compare, show)

	check.Space(x, "garbage-after", check.Opt{Desc: "every sample packet followed by every octet value, alone and followed by more"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		h := byte(c.Free(256))
		d := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, v.tag, v.body)...)
		d = append(d, h)
		d = append(d, explore.PickFree(c, [][]byte{nil, {0}, []byte("garbage"), uidZ})...)
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)

	check.Space(x, "garbage-before", check.Opt{Desc: "one to three of every octet value, and of every pair of boundary values, before every sample packet"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		b := byte(c.Free(256))
		d := []byte{b}
		switch k := c.Free(10); k {
		case 0:
		case 1, 2:
			d = bytes.Repeat(d, k+1)
		default:
			d = append(d, []byte{0, ' ', '\n', '\r', '-', 0x7f, 0xff}[k-3])
		}
		d = append(d, gen.Pkt(gen.HNew, v.tag, v.body)...)
		return Case{Data: append(d, uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	check.Space(x, "octet-changed", check.Opt{Desc: "every sample packet with every octet replaced by boundary values (thorough: by every value): whatever length it declares must fit"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		if len(v.body) == 0 {
			return Case{}, false
		}
		i := c.Free(len(v.body))
		b := append([]byte{}, v.body...)
		if x.Thorough() {
			b[i] = byte(c.Free(256))
		} else {
			b[i] = explore.PickFree(c, []byte{0, 1, 2, 3, 4, 5, 9, 17, 18, 32, 0x7f, 0x80, 191, 192, 193, 253, 254, 255, v.body[i] + 1, v.body[i] - 1})
		}
		d := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, v.tag, b)...)
		return Case{Data: append(d, uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)

	// fields inside the length-counted parts of version 5 keys: the count adjusted to every cut
	j := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	cnt := func(b []byte) []byte { return j(u32(uint32(len(b))), b) }
	g := gen.New(explore.Default(), gen.Tiny)
	opts := []struct {
		usage byte
		b     []byte
	}{{0, nil}, {9, g.Fill(16)}, {3, g.Fill(8)}, {254, j([]byte{9, 0, 8}, g.Fill(16))}, {254, j([]byte{3, 1, 8}, g.Fill(8), g.Fill(8))}, {255, j([]byte{9, 3, 8}, g.Fill(8), []byte{96}, g.Fill(16))},
		{253, j([]byte{9, 2, 3, 8}, g.Fill(8), []byte{96}, g.Fill(16))}, {254, j([]byte{9, 101, 8}, []byte("GNU\x01"))}, {254, j([]byte{9, 101, 8}, []byte("GNU\x02\x04abcd"))}, {254, j([]byte{9, 101}, []byte("GNU\x01"))}, {254, j([]byte{9, 101}, []byte("GNU\x02\x04abcd"))}, {254, []byte{99, 200}}}
	check.Space(x, "counted-cut", check.Opt{Desc: "version 5 keys of every algorithm and protection with the content of each length-counted field cut at every byte and its count adjusted, or one more, one less"}, func(c *explore.Chooser) (Case, bool) {
		a := explore.PickFree(c, []byte{1, 16, 17, 18, 19, 22, 99})
		pub, sec := g.PubInts(a), g.SecInts(a)
		op := opts[4]
		switch c.Free(3) {
		case 0:
			pub = pub[:c.Free(len(pub)+1)]
		case 1:
			op = explore.PickFree(c, opts)
			op.b = op.b[:c.Free(len(op.b)+1)]
		case 2:
			op = explore.PickFree(c, opts)
			sec = sec[:c.Free(len(sec)+1)]
		}
		o := j([]byte{byte(len(op.b))}, op.b)
		m := j(cnt(sec), []byte{1, 2})
		p := cnt(pub)
		switch c.Free(7) {
		case 1:
			o[0]++
		case 2:
			o[0]--
		case 3:
			m[3]++
		case 4:
			m[3]--
		case 5:
			p[3]++
		case 6:
			p[3]--
		}
		if c.Free(2) == 0 {
			return Case{Data: append(gen.Pkt(gen.HNew, 6, j([]byte{5, 1, 2, 3, 4, a}, p)), uidZ...), O: model.Opts{UTC: true}}, true
		}
		return Case{Data: append(gen.Pkt(gen.HNew, 5, j([]byte{5, 1, 2, 3, 4, a}, p, []byte{op.usage}, o, m)), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	ls := longFields()
	check.Space(x, "long-field-cut", check.Opt{Desc: "packets whose integers and counted fields are 255 to 8192 octets long, cut at every byte, packet length adjusted, in a fixed-length or partial-length header"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, ls)
		k := c.Free(len(v.body) + 1)
		if !x.Thorough() && k > 1100 && k%97 != 0 && len(v.body)-k > 20 {
			return Case{}, false
		}
		h := explore.PickFree(c, []int{gen.HNew, gen.HPartial})
		if !gen.HdrOK(h, v.tag, k) {
			return Case{}, false
		}
		return Case{Data: append(gen.Pkt(h, v.tag, v.body[:k]), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	subCuts(x, true, true)
	editSpace(x, vs)
	// five-octet lengths beyond the data
	check.Space(x, "length-beyond", check.Opt{Desc: "declared lengths around the bytes available, up to 2^32-1, in every length encoding"}, func(c *explore.Chooser) (Case, bool) {
		n := explore.PickFree(c, []int{0, 1, 5, 191, 192, 300, 9000})
		var decl uint64
		if k := c.Free(9); k < 5 {
			decl = uint64(n + k - 2)
			if n+k-2 < 0 {
				return Case{}, false
			}
		} else {
			decl = []uint64{0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}[k-5]
		}
		tag := explore.PickFree(c, []int{10, 13, 61, 2})
		kind := c.Free(4)
		var h []byte
		switch kind {
		case 0:
			h = []byte{0xc0 | byte(tag), 255, byte(decl >> 24), byte(decl >> 16), byte(decl >> 8), byte(decl)}
		case 1:
			if tag > 15 {
				return Case{}, false
			}
			h = []byte{0x82 | byte(tag)<<2, byte(decl >> 24), byte(decl >> 16), byte(decl >> 8), byte(decl)}
		case 2:
			if decl > 65535 || tag > 15 {
				return Case{}, false
			}
			h = []byte{0x81 | byte(tag)<<2, byte(decl >> 8), byte(decl)}
		case 3: // after a partial chunk
			h = []byte{0xc0 | byte(tag), 224, 'p', 255, byte(decl >> 24), byte(decl >> 16), byte(decl >> 8), byte(decl)}
		}
		b, _ := bodyOf(10, n)
		return Case{Data: append(append(append([]byte{}, uidA...), h...), b...), O: model.Opts{UTC: true}}, true
	}, compare, show)
}

var negative = regexp.MustCompile(`-[0-9]+ b(ytes|its)`)

// total checks only that parsing comes back with a listing or an error.
func total(armor bool) func(e *explore.Env, c Case) *explore.Violation {
	return func(e *explore.Env, c Case) *explore.Violation {
		cxt := impl.Context(c.O)
		if armor {
			cxt = impl.ArmorContext(c.O)
		}
		got := impl.ParseReader(cxt, bytesReader(c.Data))
		if got.Panic != "" {
			return viol(c, "panic: %s", got.Panic)
		}
		if got.Err == nil && got.Info == nil {
			return viol(c, "neither a listing nor an error")
		}
		e.Steps(len(got.Nodes) + 1)
		if bad := findNegative(got.Nodes); bad != "" {
			return viol(c, "negative size: %s", bad)
		}
		if got.Err != nil {
			e.Outcome("error")
		} else {
			e.Outcome(outcome(got.Nodes, nil))
		}
		return nil
	}
}

func findNegative(ns []*model.Node) string {
	for _, n := range ns {
		if n == nil {
			return "nil entry"
		}
		if len(n.Note) > 0 && negative.MatchString(n.Note) {
			return n.Name + ": " + n.Note
		}
		if s := findNegative(n.Items); s != "" {
			return s
		}
	}
	return ""
}

func c01(x *check.Ctx) {
	debug := model.Opts{UTC: true, Debug: true}
	n := x.Bound(2, 3)
	check.Space(x, "all-short", check.Opt{Desc: "every byte string up to the length bound, as binary"}, func(c *explore.Chooser) (Case, bool) {
		k := c.Free(n + 1)
		d := make([]byte, k)
		for i := range d {
			d[i] = byte(c.Free(256))
		}
		return Case{Data: d, O: debug}, true
	}, total(false), show)
	// every tag with every body of up to n octets
	m := x.Bound(2, 3)
	check.Space(x, "all-small-bodies", check.Opt{Desc: "every tag with every body of one octet, two octets (thorough: three, for the structured tags)"}, func(c *explore.Chooser) (Case, bool) {
		tag := c.Free(64)
		k := c.Free(m + 1)
		if k == 3 && (tag > 20 || tag == 9 || tag == 10 || tag == 12 || tag == 0 || tag == 15 || tag == 16 || tag == 18 || tag == 19) {
			return Case{}, false
		}
		d := []byte{0xc0 | byte(tag), byte(k)}
		for i := 0; i < k; i++ {
			d = append(d, byte(c.Free(256)))
		}
		return Case{Data: d, O: debug}, true
	}, total(false), show)
	// prefixes of the samples continued by arbitrary octets
	vs := totalSamples()
	check.Space(x, "prefix-plus-octet", check.Opt{Desc: "every sample packet cut at every byte and continued by every octet value, then ended, by zeros or by 0xff"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		k := c.Free(len(v.body) + 1)
		b := append([]byte{}, v.body[:k]...)
		b = append(b, byte(c.Free(256)))
		switch c.Free(3) {
		case 1:
			b = append(b, make([]byte, 40)...)
		case 2:
			for i := 0; i < 40; i++ {
				b = append(b, 255)
			}
		}
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: debug}, true
	}, total(false), show)
	check.Space(x, "octet-changed", check.Opt{Desc: "every sample packet with every octet replaced by every value"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		if len(v.body) == 0 {
			return Case{}, false
		}
		b := append([]byte{}, v.body...)
		b[c.Free(len(b))] = byte(c.Free(256))
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: debug}, true
	}, total(false), show)
	bs := []byte{0, 1, 0x7f, 0x80, 0xff}
	check.Space(x, "two-octets-changed", check.Opt{Desc: "every sample packet with every pair of octets replaced by boundary values"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		if len(v.body) < 2 {
			return Case{}, false
		}
		i := c.Free(len(v.body))
		if !x.Thorough() && i > 48 {
			return Case{}, false
		}
		j := i + 1 + c.Free(len(v.body)) // j beyond the body: discard
		if j >= len(v.body) || !x.Thorough() && j > i+12 {
			return Case{}, false
		}
		b := append([]byte{}, v.body...)
		b[i] = explore.PickFree(c, bs)
		b[j] = explore.PickFree(c, bs)
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: debug}, true
	}, total(false), show)
	// grammars (their damage included), for totality in the default options
	build := map[string]func(g *gen.G) []byte{
		"02": func(g *gen.G) []byte { return g.Signature(1) }, "05": func(g *gen.G) []byte { return g.SecKey() }, "06": func(g *gen.G) []byte { return g.PubKey() },
		"01": func(g *gen.G) []byte { return g.PKESK() }, "03": func(g *gen.G) []byte { return g.SKESK() }, "20": func(g *gen.G) []byte { return g.AEADData() },
		"17": func(g *gen.G) []byte { b := g.ImageSub(); return gen.SubHdr(0, g.Lie(len(b)+1, 70000), 1, b) },
	}
	tags := map[string]int{"02": 2, "05": 5, "06": 6, "01": 1, "03": 3, "20": 20, "17": 17}
	for _, k := range []string{"01", "02", "03", "05", "06", "17", "20"} {
		f := build[k]
		check.Space(x, "grammar-tag"+k, check.Opt{MaxDev: 1, Desc: "the packet grammar of this tag, every field over its full domain, with a second field damaged"}, func(c *explore.Chooser) (Case, bool) {
			g := gen.New(c, gen.Full)
			b := f(g)
			cut := []int{0, 1, 2, 3, 5, 9, 17}[c.Free(7)]
			if cut > len(b) {
				return Case{}, false
			}
			return Case{Data: gen.Pkt(gen.HNew, tags[k], b[:len(b)-cut]), O: model.Opts{UTC: true}}, true
		}, total(false), show)
		check.Space(x, "grammar2-tag"+k, check.Opt{MaxDev: x.Bound(2, 3), Desc: "the packet grammar of this tag, every pair (thorough: triple) of fields"}, func(c *explore.Chooser) (Case, bool) {
			g := gen.New(c, gen.Core)
			return Case{Data: gen.Pkt(gen.HNew, tags[k], g.Damage(f(g))), O: debug}, true
		}, total(false), show)
	}
	// compressed: every octet of a compressed body changed
	zs := zipSamples()
	check.Space(x, "compressed", check.Opt{Desc: "compressed packets (ZIP, ZLIB, BZip2) with every octet replaced by every value, and cut at every byte"}, func(c *explore.Chooser) (Case, bool) {
		z := append([]byte{}, explore.PickFree(c, zs)...)
		i := c.Free(len(z))
		if c.Free(2) == 1 {
			z = z[:i]
		} else {
			z[i] = byte(c.Free(256))
		}
		return Case{Data: gen.Pkt(gen.HNew, 8, z), O: debug}, true
	}, total(false), show)
	singles := []model.Opts{{}, {Cert: true}, {Int: true}, {Literal: true}, {Marker: true}, {Private: true}, {Debug: true}, {UTC: true}}
	check.Space(x, "options", check.Opt{Desc: "every sample packet cut at every byte, and with every octet replaced by boundary values, in each option alone and all 128 option sets for the sample itself"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		b := append([]byte{}, v.body...)
		var o model.Opts
		switch c.Free(3) {
		case 0:
			o = optSet(c.Free(128))
		case 1:
			o = explore.PickFree(c, singles)
			b = b[:c.Free(len(b)+1)]
		case 2:
			o = explore.PickFree(c, singles)
			if len(b) == 0 {
				return Case{}, false
			}
			b[c.Free(len(b))] = explore.PickFree(c, []byte{0, 1, 2, 0x20, 0x7f, 0x80, 0xff})
		}
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: o}, true
	}, total(false), show)
	lens := []uint32{0, 1, 0x7f, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
	check.Space(x, "four-octet-lengths", check.Opt{Desc: "every sample packet with every four (and two) octets in a row replaced by boundary lengths up to 2^32-1"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		if len(v.body) < 4 {
			return Case{}, false
		}
		b := append([]byte{}, v.body...)
		i := c.Free(len(b) - 3)
		l := explore.PickFree(c, lens)
		if c.Free(2) == 0 {
			copy(b[i:], []byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)})
		} else {
			copy(b[i:], []byte{255, 255})
			copy(b[i+2:], []byte{byte(l >> 8), byte(l)})
		}
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: model.Opts{UTC: true}}, true
	}, total(false), show)
	var sz []sized
	for _, l := range [][]sized{sizedSig(), sizedPub(), sizedSec(), sizedSes(), sizedData()} {
		sz = append(sz, l...)
	}
	big := bigSizes(x.Bound(17, 22))
	check.Space(x, "large", check.Opt{Desc: "every variable-size part of every packet kind at sizes around the powers of two and ten, complete and cut short"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, sz)
		n := explore.PickFree(c, big)
		if v.max > 0 && n > v.max {
			return Case{}, false
		}
		b := v.body(n)
		cut := explore.PickFree(c, []int{0, 1, n / 2, n - 1, n})
		if cut > len(b) {
			return Case{}, false
		}
		b = b[:len(b)-cut]
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: explore.PickFree(c, []model.Opts{{}, {Debug: n < 70000}})}, true
	}, total(false), show)
	check.Space(x, "declared-beyond", check.Opt{Desc: "every tag with declared lengths from one more than there is up to 2^32-1, in every encoding, partial ones included"}, func(c *explore.Chooser) (Case, bool) {
		tag := c.Free(64)
		l := explore.PickFree(c, lens)
		n := explore.PickFree(c, []int{0, 1, 5, 40, 300})
		var h []byte
		switch k := c.Free(5); k {
		case 0:
			h = []byte{0xc0 | byte(tag), 255, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
		case 1:
			h = []byte{0x82 | byte(tag&15)<<2, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
		case 2:
			h = []byte{0x81 | byte(tag&15)<<2, byte(l >> 8), byte(l)}
		default:
			h = []byte{0xc0 | byte(tag), 224 + byte(c.Free(31))}
			if k == 4 {
				h = append(h, 'p', 255, byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
			}
		}
		return Case{Data: append(h, fill(n)...), O: debug}, true
	}, total(false), show)
	// deep nesting
	check.Space(x, "deep-nesting", check.Opt{Desc: "embedded signatures nested to every depth of the list"}, func(c *explore.Chooser) (Case, bool) {
		d := explore.PickFree(c, []int{1, 2, 10, 50, 100, 300, 1000})
		how := c.Free(2)
		g := gen.New(c, gen.Tiny)
		sig := g.SigWith(4, nil, nil)
		for i := 0; i < d && len(sig) < 60000; i++ {
			var s []byte
			if how == 0 {
				s = gen.SubHdr(5, len(sig)+1, 32, sig)
			} else {
				b := append([]byte{0}, gen.Pkt(gen.HNew, 2, sig)...)
				s = gen.SubHdr(5, len(b)+1, 38, b)
			}
			sig = g.SigWith(4, [][]byte{s}, nil)
		}
		return Case{Data: gen.Pkt(gen.HNew5, 2, sig), O: model.Opts{UTC: true}}, true
	}, total(false), show)
	// armored and other text, in both modes
	for _, armorOnly := range []bool{false, true} {
		name := "text"
		if armorOnly {
			name = "text-armor-only"
		}
		lines := []string{"-----BEGIN PGP MESSAGE-----", "-----END PGP MESSAGE-----", "-----BEGIN PGP SIGNED MESSAGE-----", "-----BEGIN PGP SIGNATURE-----", "-----END PGP SIGNATURE-----", "", "Hash: SHA256", "Comment", "yw9iBV9jb25zb2xlAAAAAGhlbGxv", "=bR3e", "=", "=====", "- -----BEGIN PGP", "\x80\xff", "text", "-----BEGIN PGP", "-----END PGP"}
		k := x.Bound(4, 5)
		check.Space(x, name, check.Opt{Desc: "every sequence of up to the bound of armor lines, headers, checksums, boundaries and other lines"}, func(c *explore.Chooser) (Case, bool) {
			n := 1 + c.Free(k)
			var d []byte
			for i := 0; i < n; i++ {
				d = append(d, explore.PickFree(c, lines)...)
				if i < n-1 || c.Free(2) == 1 {
					d = append(d, '\n')
				}
			}
			return Case{Data: d, O: debug}, true
		}, total(armorOnly), show)
	}
}

type sample struct {
	tag  int
	body []byte
}

func totalSamples() []sample {
	var vs []sample
	add := func(tag int, b []byte) { vs = append(vs, sample{tag, b}) }
	for _, tag := range []int{1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 14, 17, 20, 12, 18, 60} {
		add(tag, baseBody(tag))
	}
	g := gen.New(explore.Default(), gen.Tiny)
	for _, t := range []byte{2, 3, 4, 5, 9, 11, 12, 16, 20, 23, 27, 29, 30, 31, 32, 33, 35, 38} {
		add(2, g.SigWith(4, [][]byte{g.Sub(t, 1)}, nil))
	}
	add(2, g.SigV3())
	add(3, []byte{4, 9, 101, 'G', 'N', 'U', 2, 4, 1, 2, 3, 4})
	for _, a := range []byte{17, 16, 18, 22, 99} {
		add(6, append([]byte{4, 1, 2, 3, 4, a}, g.PubInts(a)...))
		k := g.PubInts(a)
		s := g.SecInts(a)
		add(5, append(append(append([]byte{4, 1, 2, 3, 4, a}, k...), append([]byte{0}, s...)...), 1, 2))
		b := append([]byte{5, 1, 2, 3, 4, a, 0, 0, 0, byte(len(k))}, k...)
		b = append(b, 0, 0, 0, 0, 0, byte(len(s)))
		b = append(append(b, s...), 1, 2)
		add(5, b)
		add(1, append([]byte{3, 1, 2, 3, 4, 5, 6, 7, 8, a}, g.SesInts(a)...))
	}
	b := []byte{5, 1, 2, 3, 4, 1, 0, 0, 0, 6, 0, 1, 1, 0, 1, 1, 254, 28, 9, 3, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0x60}
	b = append(b, g.Fill(16)...)
	b = append(b, 0, 0, 0, 5, 1, 2, 3, 4, 5)
	add(5, b)
	return vs
}

// allSamples: every tag, algorithm, version, subpacket type and S2K kind.
func allSamples() []sample {
	// the samples: every tag's body in several variants
	var vs []sample
	add := func(tag int, b []byte) { vs = append(vs, sample{tag, b}) }
	for tag := 0; tag < 64; tag++ {
		if tag < 21 || tag == 60 || tag == 40 {
			add(tag, baseBody(tag))
		}
	}
	for _, a := range gen.PubIDs {
		for _, v := range []byte{3, 4, 5} {
			g := gen.New(explore.Default(), gen.Tiny)
			k := g.PubInts(a)
			b := []byte{v, 1, 2, 3, 4}
			if v == 3 {
				b = append(b, 0, 9)
			}
			b = append(b, a)
			if v == 5 {
				b = append(b, 0, 0, 0, byte(len(k)))
			}
			b = append(b, k...)
			add(6, b)
			// and as plain and encrypted secret keys
			s := g.SecInts(a)
			p := append(append([]byte{}, b...), 0)
			e := append(append([]byte{}, b...), 254)
			ef := append([]byte{9, 3, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0x60}, g.Fill(16)...)
			if v == 5 {
				p = append(p, 0, 0, 0, 0, byte(len(s)))
				e = append(e, byte(len(ef)))
			}
			p = append(append(p, s...), 0x12, 0x34)
			e = append(e, ef...)
			if v == 5 {
				e = append(e, 0, 0, 0, 11)
			}
			e = append(e, g.Fill(11)...)
			add(5, p)
			add(7, e)
			e2 := append([]byte{}, b...)
			if v == 5 {
				e2 = append(e2, 3, 8)
				e2 = append(e2, g.Fill(8)...)
				e2 = append(e2, 0, 0, 0, 5)
			} else {
				e2 = append(e2, 3)
				e2 = append(e2, g.Fill(8)...)
			}
			e2 = append(e2, g.Fill(5)...)
			add(5, e2)
		}
		g := gen.New(explore.Default(), gen.Tiny)
		add(1, append([]byte{3, 1, 2, 3, 4, 5, 6, 7, 8, a}, g.SesInts(a)...))
		add(2, append([]byte{4, 0, a, 8, 0, 0, 0, 0, 1, 2}, g.SigInts(a)...))
		add(2, append([]byte{3, 5, 0, 1, 2, 3, 4, 1, 2, 3, 4, 5, 6, 7, 8, a, 8, 1, 2}, g.SigInts(a)...))
	}
	g := gen.New(explore.Default(), gen.Tiny)
	for _, t := range gen.SubTypes {
		add(2, g.SigWith(4, [][]byte{g.Sub(t, 0)}, [][]byte{g.Sub(16, 0)}))
		add(2, g.SigWith(5, nil, [][]byte{g.Sub(t, 1)}))
	}
	for i := 0; i < 6; i++ {
		// every key-block shape
		c := explore.Default()
		c.Force([]int{0, i})
		b := gen.New(c, gen.Tiny).SubBody(38, 0)
		add(2, g.SigWith(4, [][]byte{gen.SubHdr(0, len(b)+1, 38, b)}, nil))
	}
	for _, s := range [][]byte{{0, 8}, {1, 8, 1, 2, 3, 4, 5, 6, 7, 8}, {3, 8, 1, 2, 3, 4, 5, 6, 7, 8, 99}, {101, 'G', 'N', 'U', 2, 4, 1, 2, 3, 4}, {101, 'G', 'N', 'U', 1}} {
		add(3, append([]byte{4, 9}, s...))
		add(5, append([]byte{4, 1, 2, 3, 4, 1, 0, 9, 1, 2, 0, 3, 4, 254, 9}, append(append([]byte{}, s...), g.Fill(30)...)...))
		add(5, append([]byte{4, 1, 2, 3, 4, 1, 0, 9, 1, 2, 0, 3, 4, 253, 9, 2}, append(append([]byte{}, s...), g.Fill(30)...)...))
	}
	add(20, append([]byte{1, 9, 1, 4}, g.Fill(20)...))
	add(20, append([]byte{1, 9, 2, 4}, g.Fill(20)...))
	add(8, append([]byte{0}, uidZ...))
	zs := zipSamples()
	for _, z := range zs {
		add(8, z)
	}
	b := g.ImageSub()
	add(17, append(gen.SubHdr(0, len(b)+1, 1, b), gen.SubHdr(5, 5, 100, []byte("more"))...))
	return vs
}

// longFields are packets with long integers and long counted fields.
func longFields() []sample {
	g := gen.New(explore.Default(), gen.Tiny)
	j := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	mpi := func(bits int) []byte {
		return j([]byte{byte(bits >> 8), byte(bits)}, g.Fill((bits+7)/8))
	}
	one := []byte{0, 1, 1}
	f255 := j([]byte{255}, g.Fill(255))
	area := func(n int) []byte { // an area of n octets in one subpacket
		s := gen.SubHdr(5, n-5, 55, g.Fill(n-6))
		return j([]byte{byte(n >> 8), byte(n)}, s)
	}
	key := []byte{4, 1, 2, 3, 4}
	return []sample{
		{6, j(key, []byte{1}, mpi(4096), mpi(2100))},
		{14, j([]byte{3, 1, 2, 3, 4, 0, 9, 1}, mpi(65535), one)},
		{6, j([]byte{5, 1, 2, 3, 4, 1, 0, 0, 1, 7}, mpi(2080-16), one)},
		{6, j([]byte{5, 1, 2, 3, 4, 99, 0, 0, 2, 0}, g.Fill(512))},
		{6, j(key, []byte{18}, f255, mpi(2100), f255)},
		{6, j(key, []byte{17}, mpi(2100), mpi(2100), mpi(2100), mpi(2100))},
		{5, j(key, []byte{1}, one, one, []byte{0}, mpi(2100), mpi(2100), mpi(2100), mpi(2100), []byte{1, 2})},
		{5, j(key, []byte{1}, one, one, []byte{254, 9, 101, 8}, []byte("GNU\x02"), f255, g.Fill(300))},
		{7, j([]byte{5, 1, 2, 3, 4, 1, 0, 0, 0, 6}, one, one, []byte{254, 255, 9, 3, 8}, g.Fill(252), []byte{0, 0, 1, 44}, g.Fill(300))},
		{2, j([]byte{4, 0, 1, 8}, area(300), area(300), []byte{0xbe, 0xef}, mpi(2100))},
		{2, j([]byte{3, 255}, g.Fill(255), g.Fill(8), []byte{1, 8, 0xbe, 0xef}, mpi(2100))},
		{2, j([]byte{5, 0, 17, 8}, area(700), []byte{0, 0, 0xbe, 0xef}, mpi(2100), mpi(2100))},
		{1, j([]byte{3}, g.Fill(8), []byte{16}, mpi(2100), mpi(2100))},
		{1, j([]byte{3}, g.Fill(8), []byte{18}, mpi(2100), f255)},
		{11, j([]byte{'b'}, f255, []byte{1, 2, 3, 4}, g.Fill(10))},
	}
}
