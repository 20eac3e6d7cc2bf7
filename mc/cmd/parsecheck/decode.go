package main

import (
	"bytes"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/model"
)

func c04(x *check.Ctx) {
	grammar(x, "signature", []int{2}, func(g *gen.G) []byte { return g.Signature(1) })
	grammar(x, "signature-v3", []int{2}, func(g *gen.G) []byte { return g.SigV3() })
	mpiSweep(x, 2, []byte{3, 5, 0, 1, 2, 3, 4, 1, 2, 3, 4, 5, 6, 7, 8, 1, 8, 0xaa, 0xbb}, 0)
	areaSweep(x)
	sizeSpace(x, sizedSig())
	around(x, 2)
}

// mpiSweep puts every MPI bit length behind a fixed prefix.
func mpiSweep(x *check.Ctx, tag int, prefix []byte, after int) {
	check.Space(x, "mpi-lengths", check.Opt{Desc: "every bit length 0-65535 of a multi-precision integer, complete, one byte short, and one byte extra"}, func(c *explore.Chooser) (Case, bool) {
		bits := c.Free(65536)
		delta := explore.PickFree(c, []int{0, -1, 1})
		o := model.Opts{UTC: true, Int: bits%8 == 1 && bits < 3000}
		g := gen.New(c, gen.Tiny)
		n := (bits+7)/8 + delta + after
		if n < 0 {
			return Case{}, false
		}
		body := append(append([]byte{}, prefix...), byte(bits>>8), byte(bits))
		body = append(body, g.Fill(n)...)
		return Case{Data: append(gen.Pkt(gen.HNew, tag, body), uidZ...), O: o}, true
	}, compare, show)
}

// areaSweep varies the size of both subpacket areas over every length.
func areaSweep(x *check.Ctx) {
	max := x.Bound(1200, 65535)
	check.Space(x, "area-sizes", check.Opt{Desc: "every size of the hashed and of the unhashed area up to the bound, filled with one opaque subpacket or with many small ones"}, func(c *explore.Chooser) (Case, bool) {
		which := c.Free(2)
		many := c.Free(2)
		n := c.Free(65536)
		if n > max {
			if r := n % 4096; r > 3 && r < 4093 {
				return Case{}, false
			}
		}
		g := gen.New(c, gen.Tiny)
		var a []byte
		if many == 1 {
			if n > 20000 {
				return Case{}, false
			}
			for len(a)+6 <= n {
				a = append(a, gen.SubHdr(0, 5, 50, g.Fill(4))...)
			}
			for len(a)+2 <= n {
				a = append(a, gen.SubHdr(0, 1, 51, nil)...)
			}
			if len(a) != n {
				return Case{}, false
			}
		} else {
			if n < 2 {
				return Case{}, false
			}
			l := n - 1 // declared length
			switch {
			case l < 192:
			case n-2 <= 16319 && n-2 >= 192:
				l = n - 2
			case n-5 > 16319:
				l = n - 5
			default:
				return Case{}, false
			}
			a = gen.SubHdr(0, l, 50, g.Fill(l-1))
			if len(a) != n {
				return Case{}, false
			}
		}
		areas := [2][][]byte{}
		areas[which] = [][]byte{a}
		body := g.SigWith(4, areas[0], areas[1])
		return Case{Data: append(gen.Pkt(gen.HNew, 2, body), uidZ...), O: model.Opts{UTC: true, Debug: n < 300}}, true
	}, compare, show)
}

func sigAround(g *gen.G, hashed, unhashed [][]byte) []byte {
	return g.SigWith(4, hashed, unhashed)
}

func c05(x *check.Ctx) {
	knownSpace(x, "notation name", "notation value", "binary notation value", "revocation reason", "subpacket 6", "subpacket 24", "subpacket 26", "subpacket 28", "user ID in key block")
	// one subpacket under test between two witnesses, in either area
	build := func(depth int, types []byte) func(g *gen.G) []byte {
		return func(g *gen.G) []byte {
			t := explore.PickFree(g.C, types)
			un := g.C.Bool()
			s := g.Sub(t, depth)
			w1 := gen.SubHdr(0, 9, 16, []byte{1, 2, 3, 4, 5, 6, 7, 8})
			w2 := gen.SubHdr(0, 3, 60, []byte{0xe1, 0xe2})
			a := [][]byte{w1, s, w2}
			if un {
				return sigAround(g, [][]byte{w2}, a)
			}
			return sigAround(g, a, [][]byte{w1})
		}
	}
	var all []byte
	for i := 0; i < 128; i++ {
		all = append(all, byte(i))
	}
	packetSpace(x, "subpacket/full", gen.Full, 1, []int{2}, "every type 0-127, every content field over its full domain, one at a time", build(1, all))
	packetSpace(x, "subpacket/core", gen.Core, 2, []int{2}, "every known type, every pair of content fields", build(1, gen.SubTypes))
	packetSpace(x, "subpacket/tiny", gen.Tiny, x.Bound(3, 5), []int{2}, "every known type, every combination of fields over reduced domains", build(1, gen.SubTypes))
	if x.Thorough() {
		packetSpace(x, "subpacket/full2", gen.Full, 2, []int{2}, "every known type, every pair of fields over the full domains", build(1, gen.SubTypes))
		packetSpace(x, "subpacket/core3", gen.Core, 3, []int{2}, "every known type, every three fields", build(1, gen.SubTypes))
	}
	subOrders(x)
	subRepeats(x)
	subLengths(x)
	embedDepth(x)
	noteLengths(x)
	blockMany(x)
	subMany(x)
	subCuts(x, true, false)
	around(x, 2)
}

// subOrders: all sequences of up to N subpackets from an alphabet.
func subOrders(x *check.Ctx) {
	g0 := gen.New(explore.Default(), gen.Tiny)
	alpha := [][]byte{}
	for _, t := range gen.SubTypes {
		alpha = append(alpha, g0.Sub(t, 0))
	}
	alpha = append(alpha, gen.SubHdr(0, 2, 0x80|25, []byte{1}), gen.SubHdr(5, 2, 25, []byte{0}), gen.SubHdr(0, 1, 11, nil), gen.SubHdr(0, 1, 55, nil), gen.SubHdr(0, 301, 55, g0.Fill(300)))
	n := x.Bound(2, 3)
	check.Space(x, "subpacket-orders", check.Opt{Desc: "every sequence of subpackets up to the bound over an alphabet with every type, in each area"}, func(c *explore.Chooser) (Case, bool) {
		which := c.Free(2)
		o := explore.PickFree(c, optsSmall)
		k := 1 + c.Free(n)
		var a [][]byte
		for i := 0; i < k; i++ {
			a = append(a, explore.PickFree(c, alpha))
		}
		areas := [2][][]byte{}
		areas[which] = a
		return Case{Data: append(gen.Pkt(gen.HNew, 2, g0.SigWith(4, areas[0], areas[1])), uidZ...), O: o}, true
	}, compare, show)
}

// subRepeats: longer sequences over few subpackets, so that types come back, with and without content.
func subRepeats(x *check.Ctx) {
	g := gen.New(explore.Default(), gen.Tiny)
	sub := func(t byte, b string) []byte { return gen.SubHdr(0, len(b)+1, t, []byte(b)) }
	alpha := [][]byte{sub(28, "uid"), sub(28, ""), sub(0x80|28, ""), sub(11, "\x09"), sub(11, ""), sub(55, ""), sub(55, "x"), sub(0x80|55, ""), sub(27, "\x03"), sub(33, "\x04"), sub(20, "\x80\x00\x00\x00\x00\x01\x00\x01nv"), sub(20, "\x00\x00\x00\x00\x00\x00\x00\x00"), sub(16, "\x01\x02\x03\x04\x05\x06\x07\x08")}
	n := x.Bound(4, 5)
	check.Space(x, "subpacket-repeats", check.Opt{Desc: "every sequence up to the bound over 13 subpackets of seven types, empty or not, critical or not, split over both areas at every place"}, func(c *explore.Chooser) (Case, bool) {
		k := 3 + c.Free(n-2)
		cut := c.Free(k + 1)
		if !x.Thorough() && k > 3 && cut != 0 && cut != k {
			return Case{}, false
		}
		var h, u [][]byte
		for i := 0; i < k; i++ {
			s := explore.PickFree(c, alpha)
			if i < cut {
				h = append(h, s)
			} else {
				u = append(u, s)
			}
		}
		return Case{Data: append(gen.Pkt(gen.HNew, 2, g.SigWith(4, h, u)), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
}

// subLengths: every content length of each type, in every length encoding.
func subLengths(x *check.Ctx) {
	max := x.Bound(400, 17000)
	types := []byte{6, 11, 12, 20, 21, 22, 23, 24, 26, 27, 28, 29, 30, 31, 33, 34, 35, 37, 38, 50, 101, 2, 3, 4, 5, 7, 9, 10, 16, 25}
	if x.Thorough() {
		types = []byte{28, 27, 37, 50, 20, 33}
	}
	check.Space(x, "subpacket-lengths", check.Opt{Desc: "every content length up to the bound and every length encoding able to carry it"}, func(c *explore.Chooser) (Case, bool) {
		t := explore.PickFree(c, types)
		kind := explore.PickFree(c, []int{1, 2, 5})
		n := c.Free(max + 1)
		l := n + 1
		if kind == 1 && l > 191 || kind == 2 && (l < 192 || l > 16319) {
			return Case{}, false
		}
		body := make([]byte, n)
		for i := range body {
			body[i] = byte('a' + i%26)
		}
		if n > 0 && t == 38 {
			body[0] = 1
		}
		if n >= 8 && t == 20 { // notation: make the lengths fit
			copy(body, []byte{0x80, 0, 0, 0})
			nl := (n - 8) / 2
			body[4], body[5] = byte(nl>>8), byte(nl)
			vl := n - 8 - nl
			body[6], body[7] = byte(vl>>8), byte(vl)
		}
		g := gen.New(c, gen.Tiny)
		w := gen.SubHdr(0, 3, 60, []byte{0xe1, 0xe2})
		sig := g.SigWith(4, [][]byte{gen.SubHdr(kind, l, t, body), w}, nil)
		return Case{Data: append(gen.Pkt(gen.HNew, 2, sig), uidZ...), O: model.Opts{UTC: true, Debug: n%7 == 0 && n < 2000}}, true
	}, compare, show)
}

// subMany: repeated subpackets, and contents up to the largest an area can hold.
func subMany(x *check.Ctx) {
	g0 := gen.New(explore.Default(), gen.Tiny)
	check.Space(x, "subpacket-repeated", check.Opt{Desc: "every type, every critical mark, repeated 1-40 and around 100, 256, 300 and 1000 times in either area of a v4 or v5 signature"}, func(c *explore.Chooser) (Case, bool) {
		t := byte(c.Free(128))
		crit := byte(c.Free(2)) << 7
		area := c.Free(2)
		v := explore.PickFree(c, []byte{4, 5})
		k := 1 + c.Free(48)
		if k > 40 {
			k = []int{99, 100, 101, 255, 256, 257, 300, 1001}[k-41]
		}
		body := g0.SubBody(t, 0)
		one := gen.SubHdr(0, len(body)+1, t|crit, body)
		a := [][]byte{bytes.Repeat(one, k), gen.SubHdr(0, 3, 60, []byte{0xe1, 0xe2})}
		if k*len(one) > 65000 {
			return Case{}, false
		}
		areas := [2][][]byte{}
		areas[area] = a
		return Case{Data: append(gen.Pkt(gen.HNew, 2, g0.SigWith(v, areas[0], areas[1])), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	check.Space(x, "subpacket-large", check.Opt{Desc: "every type with contents around every power of two and ten up to what an area can hold, in every length encoding"}, func(c *explore.Chooser) (Case, bool) {
		t := byte(c.Free(128))
		n := explore.PickFree(c, append([]int{191, 192, 193, 8382, 8383, 8384, 16317, 16318, 16319, 16320, 65500}, bigSizes(15)...))
		kind := explore.PickFree(c, []int{2, 5})
		if kind == 2 && n+1 > 16319 || n > 65500 {
			return Case{}, false
		}
		b := fill(n)
		switch t {
		case 38:
			b = append([]byte{0}, gen.Pkt(gen.HNew5, 60, fill(n-7))...)
		case 32:
			b = append(append([]byte{}, g0.SubBody(32, 0)...), fill(n-14)...)
		case 20:
			copy(b, []byte{0x80, 0, 0, 0, 0, 9, byte((n - 17) >> 8), byte(n - 17)})
		}
		s := gen.SubHdr(kind, len(b)+1, t, b)
		sig := g0.SigWith(4, nil, [][]byte{s, gen.SubHdr(0, 3, 60, []byte{0xe1, 0xe2})})
		return Case{Data: append(gen.Pkt(gen.HNew, 2, sig), uidZ...), O: model.Opts{UTC: true, Debug: n < 600}}, true
	}, compare, show)
}

// blockMany: key blocks of many packets.
func blockMany(x *check.Ctx) {
	p := [][]byte{gen.Pkt(gen.HNew, 13, []byte("u")), gen.Pkt(gen.HNew, 60, nil), gen.Pkt(gen.HNew, 6, pub4), gen.Pkt(gen.HNew, 2, gen.New(explore.Default(), gen.Tiny).SigWith(4, nil, nil))}
	g0 := gen.New(explore.Default(), gen.Tiny)
	check.Space(x, "key-block-many", check.Opt{Desc: "key blocks of 0-70 and around 100, 128, 256, 1000, 4096, 8192, 10000 and 16384 packets of four kinds, as far as an area holds them, followed by a witness"}, func(c *explore.Chooser) (Case, bool) {
		one := explore.PickFree(c, p)
		k := c.Free(71 + 24)
		if k > 70 {
			k = []int{100, 128, 256, 1000, 4096, 8192, 10000, 16384}[(k-71)/3] + (k-71)%3 - 1
		}
		o := explore.PickFree(c, optsSmall[:2])
		b := append([]byte{0}, bytes.Repeat(one, k)...)
		if len(b) > 65000 {
			return Case{}, false
		}
		sig := g0.SigWith(4, nil, [][]byte{gen.SubHdr(5, len(b)+1, 38, b), gen.SubHdr(0, 3, 60, []byte{0xe1, 0xe2})})
		return Case{Data: append(gen.Pkt(gen.HNew, 2, sig), uidZ...), O: o}, true
	}, compare, show)
}

// embedDepth nests signatures and key blocks in each other.
func embedDepth(x *check.Ctx) {
	max := x.Bound(6, 9)
	check.Space(x, "embedding-depth", check.Opt{Desc: "every nesting of embedded signatures and key blocks up to the depth bound, with a witness subpacket after each"}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, optsSmall)
		d := 1 + c.Free(max)
		g := gen.New(c, gen.Tiny)
		sig := g.SigWith(4, [][]byte{gen.SubHdr(0, 2, 25, []byte{1})}, nil)
		for i := 0; i < d; i++ {
			var s []byte
			switch c.Free(3) {
			case 0:
				s = gen.SubHdr(0, len(sig)+1, 32, sig)
			case 1:
				b := append([]byte{0}, gen.Pkt(gen.HNew, 2, sig)...)
				s = gen.SubHdr(0, len(b)+1, 38, b)
			case 2:
				s = gen.SubHdr(5, len(sig)+1, 0x80|32, sig)
			}
			sig = g.SigWith(4, [][]byte{s, gen.SubHdr(0, 2, 4, []byte{byte(i)})}, nil)
		}
		return Case{Data: append(gen.Pkt(gen.HNew, 2, sig), uidZ...), O: o}, true
	}, compare, show)
}

// noteLengths: all pairs of notation name/value lengths.
func noteLengths(x *check.Ctx) {
	lens := []int{0, 1, 2, 3, 5, 10, 63, 100, 127, 128, 191, 192, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 5000, 30000}
	check.Space(x, "notation-lengths", check.Opt{Desc: "every pair of notation name and value lengths from the boundary list, human-readable or not"}, func(c *explore.Chooser) (Case, bool) {
		nl, vl := explore.PickFree(c, lens), explore.PickFree(c, lens)
		f := explore.PickFree(c, []byte{0x80, 0})
		o := explore.PickFree(c, optsSmall)
		b := []byte{f, 0, 0, 0, byte(nl >> 8), byte(nl), byte(vl >> 8), byte(vl)}
		for i := 0; i < nl; i++ {
			b = append(b, byte('a'+i%26))
		}
		for i := 0; i < vl; i++ {
			b = append(b, byte('A'+i%26))
		}
		g := gen.New(c, gen.Tiny)
		sig := g.SigWith(4, [][]byte{gen.SubHdr(0, len(b)+1, 20, b), gen.SubHdr(0, 2, 4, []byte{1})}, nil)
		return Case{Data: append(gen.Pkt(gen.HNew, 2, sig), uidZ...), O: o}, true
	}, compare, show)
}

func c06(x *check.Ctx) {
	grammar(x, "public-key", []int{6, 14}, func(g *gen.G) []byte { return g.PubKey() })
	pubAlg(x)
	mpiSweep(x, 6, []byte{4, 0x5f, 0, 0, 0, 17, 0, 9, 1, 2, 0, 9, 3, 4, 0, 9, 5, 6}, 0)
	v5Count(x)
	sizeSpace(x, sizedPub())
	around(x, 6, 14)
}

// pubAlg: for every algorithm octet and version, the layout of every family.
func pubAlg(x *check.Ctx) {
	dev := x.Bound(1, 2)
	check.Space(x, "public-key-algorithms", check.Opt{MaxDev: dev, Desc: "every algorithm octet under every version, with that algorithm's fields varied"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, []byte{3, 4, 5})
		a := byte(c.Free(256))
		tag := explore.PickFree(c, []int{6, 14})
		o := explore.PickFree(c, []model.Opts{{UTC: true}, {UTC: true, Int: true}, {UTC: true, Debug: true}})
		g := gen.New(c, gen.Core)
		b := []byte{v, 0x5f, 0x5e, 0x10, 0x01}
		if v == 3 {
			b = append(b, 0x01, 0x6d)
		}
		b = append(b, a)
		k := g.PubInts(a)
		if v == 5 {
			b = append(b, byte(len(k)>>24), byte(len(k)>>16), byte(len(k)>>8), byte(len(k)))
		}
		b = append(b, k...)
		return Case{Data: append(gen.Pkt(gen.HNew, tag, b), uidZ...), O: o}, true
	}, compare, show)
}

// v5Count: the v5 octet count against the material actually there.
func v5Count(x *check.Ctx) {
	check.Space(x, "v5-count", check.Opt{Desc: "every declared v5 octet count 0-80 (and huge ones) over every algorithm family with 0-3 bytes following"}, func(c *explore.Chooser) (Case, bool) {
		a := explore.PickFree(c, gen.PubIDs)
		tail := c.Free(4)
		var n uint32
		if k := c.Free(85); k <= 80 {
			n = uint32(k)
		} else {
			n = []uint32{255, 256, 0x7fffffff, 0xffffffff}[k-81]
		}
		o := explore.PickFree(c, optsSmall)
		g := gen.New(explore.Default(), gen.Tiny)
		k := g.PubInts(a)
		b := append([]byte{5, 1, 2, 3, 4, a, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, k...)
		b = append(b, g.Fill(tail)...)
		return Case{Data: append(gen.Pkt(gen.HNew, 6, b), uidZ...), O: o}, true
	}, compare, show)
}

func c07(x *check.Ctx) {
	grammar(x, "secret-key", []int{5, 7}, func(g *gen.G) []byte { return g.SecKey() })
	mpiSweep(x, 5, []byte{4, 0x5f, 0, 0, 0, 17, 0, 9, 1, 2, 0, 9, 3, 4, 0, 9, 5, 6, 0, 9, 1, 1, 0}, 2)
	usageSym(x)
	stretch(x)
	sizeSpace(x, sizedSec())
	around(x, 5, 7)
}

// usageSym: every usage octet, with every cipher.
func usageSym(x *check.Ctx) {
	check.Space(x, "usage-cipher", check.Opt{MaxDev: 1, Desc: "every usage octet with every cipher octet (and S2K kind), versions 3-5, with material too short, exact and long"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, []byte{4, 5, 3})
		u := byte(c.Free(256))
		sym := byte(0)
		kinds := 1
		if u >= 253 {
			sym = byte(c.Free(256))
			kinds = 4
		}
		kind := c.Free(kinds)
		n := explore.PickFree(c, []int{40, 0, 7, 8, 15, 16, 17})
		o := explore.PickFree(c, optsSmall)
		g := gen.New(c, gen.Tiny)
		b := []byte{v, 0x5f, 0x5e, 0x10, 0x01}
		if v == 3 {
			b = append(b, 0, 1)
		}
		b = append(b, 1)
		k := []byte{0, 9, 1, 2, 0, 3, 4}
		if v == 5 {
			b = append(b, 0, 0, 0, byte(len(k)))
		}
		b = append(b, k...)
		b = append(b, u)
		var opt []byte
		if u >= 253 {
			opt = append(opt, sym)
			if u == 253 {
				opt = append(opt, 2)
			}
			switch kind {
			case 0:
				opt = append(opt, 0, 8)
			case 1:
				opt = append(opt, 1, 8, 1, 2, 3, 4, 5, 6, 7, 8)
			case 2:
				opt = append(opt, 3, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0x60)
			case 3:
				opt = append(opt, 101, 'G', 'N', 'U', 1)
			}
		}
		m := g.Fill(n)
		if v == 5 {
			// optional fields with the first 16 octets of the material as IV
			iv := 16
			if iv > n {
				iv = n
			}
			opt = append(opt, m[:iv]...)
			b = append(b, byte(len(opt)))
			b = append(b, opt...)
			b = append(b, 0, 0, 0, byte(n-iv))
			b = append(b, m[iv:]...)
			if c.Bool() {
				b = append(b, 0x99, 0x98)
			}
		} else {
			b = append(b, opt...)
			b = append(b, m...)
		}
		return Case{Data: append(gen.Pkt(gen.HNew, 5, b), uidZ...), O: o}, true
	}, compare, show)
}

// stretch: every iteration-count octet and every hash octet of an S2K.
func stretch(x *check.Ctx) {
	check.Space(x, "s2k-count", check.Opt{Desc: "every iteration-count octet with every hash octet"}, func(c *explore.Chooser) (Case, bool) {
		n, h := byte(c.Free(256)), byte(c.Free(256))
		b := []byte{4, 0, 0, 0, 1, 1, 0, 3, 5, 0, 3, 6, 254, 9, 3, h, 9, 8, 7, 6, 5, 4, 3, 2, n, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0xde, 0xad}
		return Case{Data: gen.Pkt(gen.HNew, 7, b), O: model.Opts{UTC: true}}, true
	}, compare, show)
}

func c08(x *check.Ctx) {
	sizeSpace(x, sizedSes())
	around(x, 1, 3, 4)
	grammar(x, "pk-session-key", []int{1}, func(g *gen.G) []byte { return g.PKESK() })
	grammar(x, "sym-session-key", []int{3}, func(g *gen.G) []byte { return g.SKESK() })
	grammar(x, "one-pass", []int{4}, func(g *gen.G) []byte { return g.OnePass() })
	mpiSweep(x, 1, []byte{3, 1, 2, 3, 4, 5, 6, 7, 8, 1}, 0)
	check.Space(x, "s2k-count", check.Opt{Desc: "every S2K kind octet, iteration-count octet and cipher of a session-key packet, exact and with bytes following"}, func(c *explore.Chooser) (Case, bool) {
		which := c.Free(3)
		v := byte(c.Free(256))
		tail := c.Free(3)
		b := []byte{4, 9, 3, 8, 9, 8, 7, 6, 5, 4, 3, 2, 0x60}
		switch which {
		case 0:
			b[12] = v
		case 1:
			b[1] = v
		case 2:
			b[2] = v
		}
		for i := 0; i < tail; i++ {
			b = append(b, 0xc1+byte(i))
		}
		return Case{Data: append(gen.Pkt(gen.HNew, 3, b), uidZ...), O: explore.PickFree(c, optsSmall)}, true
	}, compare, show)
	check.Space(x, "ecdh-field", check.Opt{Desc: "every declared length of the ECDH session-key field against every actual length 0-60"}, func(c *explore.Chooser) (Case, bool) {
		decl, n := c.Free(256), c.Free(61)
		if decl > 70 && decl < 250 && decl%16 != 0 {
			return Case{}, false
		}
		g := gen.New(c, gen.Tiny)
		b := append([]byte{3, 1, 2, 3, 4, 5, 6, 7, 8, 18, 0, 9, 0x40, 1, byte(decl)}, g.Fill(n)...)
		return Case{Data: append(gen.Pkt(gen.HNew, 1, b), uidZ...), O: explore.PickFree(c, []model.Opts{{UTC: true}, {UTC: true, Int: true}})}, true
	}, compare, show)
}

func c09(x *check.Ctx) {
	knownSpace(x, "user ID", "file name", "user ID in compressed data")
	sizeSpace(x, sizedData())
	around(x, 0, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 40, 60)
	grammar(x, "literal", []int{11}, func(g *gen.G) []byte { return g.Literal() })
	grammar(x, "user-id", []int{13}, func(g *gen.G) []byte { return g.Text("Bob <bob@example.org>") })
	grammar(x, "aead", []int{20}, func(g *gen.G) []byte { return g.AEADData() })
	grammar(x, "attribute", []int{17}, func(g *gen.G) []byte {
		t := explore.Pick(g.C, []byte{1, 0, 2, 100, 110, 0x81, 127})
		b := g.ImageSub()
		s := gen.SubHdr(explore.Pick(g.C, []int{0, 5}), g.Lie(len(b)+1, 1<<20), t, b)
		switch g.C.Choose(3) {
		case 1:
			s = append(s, gen.SubHdr(0, 5, 100, []byte("more"))...)
		case 2:
			s = append(gen.SubHdr(0, 1, 100, nil), s...)
		}
		return s
	})
	img := gen.New(explore.Default(), gen.Tiny).ImageSub()
	check.Space(x, "attributes-many", check.Opt{Desc: "user attributes of 0-70 and around 100 to 70000 subpackets of four kinds, followed by another one"}, func(c *explore.Chooser) (Case, bool) {
		s := explore.PickFree(c, [][]byte{gen.SubHdr(0, 1, 100, nil), gen.SubHdr(0, 3, 99, []byte("ab")), gen.SubHdr(0, len(img)+1, 1, img), gen.SubHdr(5, 2, 2, []byte("c"))})
		k := c.Free(71 + 33)
		if k > 70 {
			k = []int{100, 128, 256, 1000, 1024, 4096, 8192, 10000, 16384, 65536, 70000}[(k-71)/3] + (k-71)%3 - 1
		}
		if k > 20000 && len(s) > 8 {
			return Case{}, false
		}
		b := append(bytes.Repeat(s, k), gen.SubHdr(0, 3, 101, []byte{0xe1, 0xe2})...)
		return Case{Data: append(gen.Pkt(gen.HNew5, 17, b), uidZ...), O: optsSmall[0]}, true
	}, compare, show)
	// opaque packets: every tag, every length of the list, every filler
	var tags []int
	for i := 0; i < 64; i++ {
		switch i {
		case 1, 2, 3, 4, 5, 6, 7, 8, 14, 17, 20, 11:
		default:
			tags = append(tags, i)
		}
	}
	check.Space(x, "opaque", check.Opt{Desc: "every opaque tag with every payload length of the boundary list"}, func(c *explore.Chooser) (Case, bool) {
		tag := explore.PickFree(c, tags)
		n := explore.PickFree(c, gen.LensFull)
		o := explore.PickFree(c, []model.Opts{{UTC: true}, {UTC: true, Debug: true}, {UTC: true, Marker: true, Private: true, Literal: true}})
		g := gen.New(c, gen.Tiny)
		d := append(gen.Pkt(gen.HNew, tag, g.Fill(n)), uidZ...)
		return Case{Data: d, O: o}, true
	}, compare, show)
	check.Space(x, "literal-octets", check.Opt{Desc: "every format octet with every file name length 0-255, exact and cut at the name's end"}, func(c *explore.Chooser) (Case, bool) {
		f, n := byte(c.Free(256)), c.Free(256)
		if f != 'b' && f != 't' && n%16 > 1 {
			return Case{}, false
		}
		b := []byte{f, byte(n)}
		for i := 0; i < n; i++ {
			b = append(b, byte('a'+i%26))
		}
		b = append(b, 0x5e, 1, 2, 3)
		switch c.Free(3) {
		case 0:
			b = append(b, "payload"...)
		case 2:
			b = b[:len(b)-4]
		}
		return Case{Data: append(gen.Pkt(gen.HNew, 11, b), uidZ...), O: explore.PickFree(c, optsSmall)}, true
	}, compare, show)
	check.Space(x, "userid-lengths", check.Opt{Desc: "user IDs of every length up to the bound, ASCII, two-octet and three-octet characters"}, func(c *explore.Chooser) (Case, bool) {
		unit := explore.PickFree(c, []string{"x", "é", "漢"})
		n := c.Free(x.Bound(3000, 20000))
		if len(unit)*n > 40000 {
			return Case{}, false
		}
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, unit...)
		}
		return Case{Data: append(gen.Pkt(gen.HNew, 13, b), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	check.Space(x, "aead-octets", check.Opt{Desc: "every AEAD mode octet with every chunk octet, payload short of the nonce, exact and longer"}, func(c *explore.Chooser) (Case, bool) {
		a, k := byte(c.Free(256)), byte(c.Free(256))
		n := explore.PickFree(c, []int{40, 0, 14, 15, 16, 17})
		if a > 4 && n != 40 {
			return Case{}, false
		}
		g := gen.New(c, gen.Tiny)
		return Case{Data: append(gen.Pkt(gen.HNew, 20, append([]byte{1, 9, a, k}, g.Fill(n)...)), uidZ...), O: model.Opts{UTC: true, Debug: k%2 == 0}}, true
	}, compare, show)
	check.Space(x, "image", check.Opt{Desc: "every version octet and header length of an image attribute"}, func(c *explore.Chooser) (Case, bool) {
		ver := byte(c.Free(256))
		hl := explore.PickFree(c, []int{16, 0, 1, 3, 4, 15, 17, 18, 20, 100, 101, 255, 256, 0x1000, 65535})
		n := explore.PickFree(c, []int{84, 0, 1, 12, 13, 300, 70000})
		if n == 70000 && ver != 1 {
			return Case{}, false
		}
		g := gen.New(c, gen.Tiny)
		b := append([]byte{byte(hl), byte(hl >> 8), ver, 1}, g.Fill(n)...)
		return Case{Data: append(gen.Pkt(gen.HNew, 17, gen.SubHdr(0, len(b)+1, 1, b)), uidZ...), O: explore.PickFree(c, optsSmall)}, true
	}, compare, show)
	subCuts(x, false, true)
}
