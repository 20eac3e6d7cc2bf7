package main

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"fmt"
	"io"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/model"
)

func bytesReader(b []byte) io.Reader { return bytes.NewReader(b) }

func deflate(b []byte) []byte {
	var o bytes.Buffer
	w, _ := flate.NewWriter(&o, 6)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func zdeflate(b []byte) []byte {
	var o bytes.Buffer
	w := zlib.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

// zipSamples are bodies of compressed packets.
func zipSamples() [][]byte {
	inner := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, 11, baseBody(11))...)
	inner = append(inner, gen.Pkt(gen.HNew, 2, baseBody(2))...)
	return [][]byte{
		append([]byte{0}, inner...),
		append([]byte{1}, deflate(inner)...),
		append([]byte{2}, zdeflate(inner)...),
		append([]byte{3}, gen.Bzip2(inner)...),
	}
}

func comp(a byte, inner ...[]byte) []byte {
	d := bytes.Join(inner, nil)
	switch a {
	case 1:
		d = deflate(d)
	case 2:
		d = zdeflate(d)
	case 3:
		d = gen.Bzip2(d)
	}
	return gen.Pkt(gen.HNew, 8, append([]byte{a}, d...))
}

func c10(x *check.Ctx) {
	pk := gen.Pkt(gen.HNew, 1, baseBody(1))
	sk := gen.Pkt(gen.HNew, 3, baseBody(3))
	sk5 := gen.Pkt(gen.HNew, 3, []byte{5, 9, 2, 0, 8, 1, 2, 3})
	pkx := gen.Pkt(gen.HOld2, 1, []byte{2, 1, 2, 3, 4, 5, 6, 7, 8, 99, 1})
	e9 := gen.Pkt(gen.HNew, 9, []byte("enc"))
	e9empty := gen.Pkt(gen.HNew, 9, nil)
	e18 := gen.Pkt(gen.HPartial, 18, []byte("\x01encrypted"))
	e20 := gen.Pkt(gen.HNew, 20, baseBody(20))
	e20x := gen.Pkt(gen.HNew, 20, []byte{1, 9, 0, 4})
	e20y := gen.Pkt(gen.HNew, 20, append([]byte{1, 9, 1, 4}, bytes.Repeat([]byte{7}, 16)...))
	uid := uidA
	sig := gen.Pkt(gen.HNew, 2, baseBody(2))
	ops := gen.Pkt(gen.HNew, 4, baseBody(4))
	core := [][]byte{pk, sk, e9, e18, e20, uid}
	more := append(append([][]byte{}, core...), sk5, pkx, e9empty, gen.Pkt(gen.HNew, 18, nil), e20x, e20y, sig, ops, gen.Pkt(gen.HNew, 19, make([]byte, 20)), gen.Pkt(gen.HNew, 11, baseBody(11)), gen.Pkt(gen.HNew, 10, []byte("PGP")),
		comp(0, pk), comp(1, e18), comp(2, sk, e9), comp(1, pk, sk), gen.Pkt(gen.HNew, 5, baseBody(5)), gen.Pkt(gen.HNew, 60, nil), gen.Pkt(gen.HNew, 6, baseBody(6)))
	seq := func(name string, alpha [][]byte, n int, desc string) {
		check.Space(x, name, check.Opt{Desc: desc}, func(c *explore.Chooser) (Case, bool) {
			k := 1 + c.Free(n)
			var d []byte
			for i := 0; i < k; i++ {
				d = append(d, explore.PickFree(c, alpha)...)
			}
			return Case{Data: d, O: model.Opts{UTC: true}}, true
		}, compare, show)
	}
	seq("histories", core, x.Bound(7, 9), "every sequence up to the bound of session-key packets, the three kinds of encrypted data, and a neutral packet")
	longHistories(x, core, 2)
	anyPacket(x, [][]byte{nil, pk, sk}, [][]byte{e9, e18, e20y}, func(t int) bool { return t == 1 || t == 3 || t == 9 || t == 18 || t == 20 })
	seq("histories-wide", more, x.Bound(4, 5), "every sequence up to the bound over 24 packets: versions, empty and unknown variants, compressed session keys and data, neutral packets")
}

// anyPacket: what every packet of every kind does to the state: every sample, cut at every length, and with every
// value of the leading octets for the packets that matter most.
func anyPacket(x *check.Ctx, first, last [][]byte, matters func(tag int) bool) {
	vs := allSamples()
	around := func(c *explore.Chooser, tag int, b []byte) (Case, bool) {
		d := append([]byte{}, explore.PickFree(c, first)...)
		d = append(d, gen.Pkt(gen.HNew, tag, b)...)
		return Case{Data: append(d, explore.PickFree(c, last)...), O: model.Opts{UTC: true}}, true
	}
	check.Space(x, "any-packet", check.Opt{Desc: "every sample packet of every kind, its body cut at every length (thorough; quick: the shortest 24, the longest 4), between every beginning and every ending"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		k := c.Free(len(v.body) + 1)
		if !x.Thorough() && k > 24 && k < len(v.body)-3 {
			return Case{}, false
		}
		return around(c, v.tag, v.body[:k])
	}, compare, show)
	var ms []sample
	seen := map[string]int{}
	for _, v := range vs {
		if !matters(v.tag) {
			continue
		}
		if k := fmt.Sprintf("%d %x", v.tag, v.body[:min(1, len(v.body))]); !x.Thorough() && v.tag > 4 && v.tag < 8 {
			if seen[k] > 5 { // six keys of each kind and version
				continue
			}
			seen[k]++
		}
		ms = append(ms, v)
	}
	check.Space(x, "any-leading-octet", check.Opt{Desc: "every value of each of the first 12 octets of every sample of the packets that set or end the state, between every beginning and ending"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, ms)
		n := len(v.body)
		if n > 12 {
			n = 12
		}
		if n == 0 {
			return Case{}, false
		}
		b := append([]byte{}, v.body...)
		i := c.Free(n)
		k := c.Free(256)
		if !x.Thorough() && k%16 > 2 && i > 1 && i != 9 {
			return Case{}, false
		}
		b[i] = byte(k)
		return around(c, v.tag, b)
	}, compare, show)
}

// longHistories: nothing, or a packet, then a packet or pair of packets repeated k times, then every ending.
func longHistories(x *check.Ctx, core [][]byte, end int) {
	ks := []int{9, 33, 101, 257}
	pairs := 3 - end%2*3
	if x.Thorough() {
		ks = []int{5, 9, 10, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 257, 300, 513, 1001, 1025}
		pairs = 3
	}
	check.Space(x, "long-histories", check.Opt{Desc: "every packet of the alphabet followed by every packet (and some pairs) repeated 9 to 257 (thorough: 1025) times and every ending of the bounded length"}, func(c *explore.Chooser) (Case, bool) {
		first := explore.PickFree(c, core)
		a := explore.PickFree(c, core)
		unit := a
		if b := c.Free(len(core) + 1); b > 0 {
			if b > pairs {
				return Case{}, false
			}
			unit = append(append([]byte{}, a...), core[b-1]...)
		}
		k := explore.PickFree(c, ks)
		d := append([]byte{}, first...)
		d = append(d, bytes.Repeat(unit, k)...)
		for i := 0; i < end; i++ {
			d = append(d, explore.PickFree(c, core)...)
		}
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)
}

func u32(t uint32) []byte { return []byte{byte(t >> 24), byte(t >> 16), byte(t >> 8), byte(t)} }

func c11(x *check.Ctx) {
	g := gen.New(explore.Default(), gen.Tiny)
	sub := func(t byte, b []byte) []byte { return gen.SubHdr(0, len(b)+1, t, b) }
	t2 := func(t uint32) []byte { return sub(2, u32(t)) }
	t3 := func(t uint32) []byte { return sub(3, u32(t)) }
	t9 := func(t uint32) []byte { return sub(9, u32(t)) }
	sigb := func(h, u [][]byte) []byte { return g.SigWith(4, h, u) }
	sig := func(h, u [][]byte) []byte { return gen.Pkt(gen.HNew, 2, sigb(h, u)) }
	key := func(tag int, v byte, t uint32) []byte {
		b := append([]byte{v}, u32(t)...)
		if v == 3 {
			b = append(b, 0, 7)
		}
		b = append(b, 1)
		if v == 5 {
			b = append(b, 0, 0, 0, 6)
		}
		b = append(b, 0, 1, 1, 0, 1, 1)
		if tag == 5 || tag == 7 {
			b = append(b, 3, 1, 2, 3, 4, 5, 6, 7, 8, 9)
			if v == 5 {
				b = b[:len(b)-10]
				b = append(b, 3, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 0, 1, 9)
			}
		}
		return gen.Pkt(gen.HNew, tag, b)
	}
	emb := func(b []byte) []byte { return sub(32, b) }
	block := func(ps ...[]byte) []byte { return sub(38, append([]byte{0}, bytes.Join(ps, nil)...)) }
	var (
		keyA   = key(6, 4, 1000000000)
		keyB   = key(6, 4, 1200000000)
		subC   = key(14, 4, 1300000000)
		keyV3  = key(6, 3, 1400000000)
		keyV5  = key(6, 5, 1450000000)
		secD   = key(5, 4, 1500000000)
		ssbE   = key(7, 5, 1550000000)
		keyUnk = gen.Pkt(gen.HNew, 6, []byte{7, 1, 2, 3, 4, 1})
		keyV2  = gen.Pkt(gen.HNew, 14, []byte{2, 1, 2, 3, 4, 1})
		secUnk = gen.Pkt(gen.HNew, 5, []byte{6, 0, 0, 0})
		keyT0  = key(6, 4, 0)
	)
	core := [][]byte{
		keyA, keyB, subC, keyUnk, uidA,
		sig([][]byte{t2(1600000000), t9(86400)}, nil),
		sig([][]byte{t9(100000), t9(100001)}, nil),
		sig([][]byte{t2(1600000001), t3(3600)}, nil),
		sig([][]byte{t3(7200)}, nil),
		sig([][]byte{t3(7201), t2(1600000003)}, nil),
		sig([][]byte{t2(1600000004)}, nil),
		sig([][]byte{t2(1600000005)}, [][]byte{t3(86400)}),
		sig([][]byte{t2(1600000006), emb(sigb([][]byte{t2(1000), t3(5)}, nil)), t3(10)}, nil),
		sig([][]byte{emb(sigb([][]byte{t2(2000)}, nil)), t3(10)}, nil),
		sig([][]byte{t2(1600000008), emb(sigb([][]byte{t3(6)}, nil)), t3(11), t3(12)}, nil),
		sig([][]byte{block(keyB), t9(40)}, nil),
		sig([][]byte{block(sig([][]byte{t9(41)}, nil)), t9(42)}, nil),
	}
	more := append(append([][]byte{}, core...), keyV3, keyV5, secD, ssbE, keyV2, secUnk, keyT0, comp(1, keyA), comp(2, sig([][]byte{t9(43)}, nil)),
		sig([][]byte{t2(0), t3(60)}, nil),
		gen.Pkt(gen.HNew, 2, g.SigV3()),
		sig([][]byte{t2(1600000009), block(keyB, sig([][]byte{t2(9), t9(44), t3(45)}, nil)), t9(46), t3(47)}, nil),
		sig([][]byte{emb(sigb([][]byte{t9(48)}, nil)), t9(49)}, nil),
		sig([][]byte{t2(1600000010), t2(1600000011), t3(50)}, nil),
		sig([][]byte{t9(0), t3(0)}, [][]byte{t2(1600000012), t3(0)}),
		gen.Pkt(gen.HNew, 2, g.SigWith(5, [][]byte{t2(1600000013), t3(51), t9(52)}, nil)),
		gen.Pkt(gen.HNew, 2, g.SigWith(6, [][]byte{t2(1600000014), t3(53)}, nil)),
		sig([][]byte{emb(sigb([][]byte{emb(sigb([][]byte{t2(3000)}, nil)), t3(54)}, nil)), t3(55)}, nil),
		gen.Pkt(gen.HNew, 18, []byte("x")), gen.Pkt(gen.HNew, 1, baseBody(1)),
	)
	seq := func(name string, alpha [][]byte, n int, desc string) {
		check.Space(x, name, check.Opt{Desc: desc}, func(c *explore.Chooser) (Case, bool) {
			k := 1 + c.Free(n)
			var d []byte
			for i := 0; i < k; i++ {
				d = append(d, explore.PickFree(c, alpha)...)
			}
			return Case{Data: d, O: model.Opts{UTC: true}}, true
		}, compare, show)
	}
	seq("histories", core, x.Bound(4, 5), "every sequence up to the bound of keys, user IDs and signatures with creation, expiration, embedded-signature and key-block subpackets")
	longHistories(x, core, 1)
	anyPacket(x, [][]byte{nil, keyA, append(append([]byte{}, keyA...), core[6]...)}, [][]byte{core[5], core[8], core[13]}, func(t int) bool { return t == 5 || t == 6 })
	seq("histories-wide", more, x.Bound(3, 4), "every sequence up to the bound over 37 packets: all key kinds and versions, nested embedding, compressed keys, zero times")
	// inside one signature: all orders of the time subpackets
	subs := [][]byte{t2(1600000000), t3(60), t9(61), t2(1600000100), emb(sigb([][]byte{t2(5000), t3(62)}, nil)), emb(sigb([][]byte{t3(63), t9(64)}, nil)), block(keyB), block(keyB, sig([][]byte{t2(7000), t3(65), t9(66)}, nil)), sub(25, []byte{1})}
	n := x.Bound(4, 5)
	check.Space(x, "subpacket-orders", check.Opt{Desc: "every order of up to the bound of time, expiration, embedded-signature and key-block subpackets, split over both areas at every place, after a key, after none, and after another signature"}, func(c *explore.Chooser) (Case, bool) {
		k := 1 + c.Free(n)
		cut := c.Free(k + 1)
		var h, u [][]byte
		for i := 0; i < k; i++ {
			s := explore.PickFree(c, subs)
			if i < cut {
				h = append(h, s)
			} else {
				u = append(u, s)
			}
		}
		d := explore.PickFree(c, [][]byte{keyA, nil, append(append([]byte{}, keyA...), core[10]...)})
		d = append(append([]byte{}, d...), sig(h, u)...)
		return Case{Data: append(d, core[8]...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	// the same in shorter orders, each subpacket critical or not and in each length form, embedded signatures of every version
	v3 := append([]byte{3, 5, 0x19}, append(u32(1610000000), 1, 2, 3, 4, 5, 6, 7, 8, 1, 8, 0x12, 0x34, 0, 1, 1)...)
	bodies := []struct {
		t byte
		b []byte
	}{{2, u32(1600000000)}, {3, u32(60)}, {9, u32(61)}, {2, u32(1600000100)}, {32, sigb([][]byte{t2(5000), t3(62)}, nil)}, {32, v3},
		{32, g.SigWith(5, [][]byte{t2(5001), t9(64)}, nil)}, {38, append([]byte{0}, keyB...)}, {38, append([]byte{0}, gen.Pkt(gen.HNew, 2, v3)...)}, {38, []byte{0}}, {38, append([]byte{1}, keyB...)}}
	m := x.Bound(3, 4)
	check.Space(x, "subpacket-marks", check.Opt{Desc: "every order of up to the bound of these subpackets, each critical or not, in any one length form, with embedded signatures of versions 3, 4 and 5 and empty or foreign key blocks, hashed or unhashed, after a key or none"}, func(c *explore.Chooser) (Case, bool) {
		k := 1 + c.Free(m)
		form := explore.PickFree(c, []int{0, 5})
		var h [][]byte
		for i := 0; i < k; i++ {
			s := explore.PickFree(c, bodies)
			h = append(h, gen.SubHdr(form, len(s.b)+1, s.t|byte(c.Free(2))<<7, s.b))
		}
		d := append([]byte{}, explore.PickFree(c, [][]byte{keyA, nil})...)
		if c.Free(2) == 0 {
			d = append(d, sig(h, nil)...)
		} else {
			d = append(d, sig(nil, h)...)
		}
		return Case{Data: append(d, sig([][]byte{t3(70), t9(71)}, nil)...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	// which signatures say something about times: every value of their leading octets
	sigs := [][]byte{v3, sigb([][]byte{t2(1600000020), t3(80)}, nil), g.SigWith(5, [][]byte{t2(1600000021), t3(81)}, nil)}
	check.Space(x, "signature-octets", check.Opt{Desc: "every value of each of the first 12 octets of signatures of versions 3, 4 and 5, as a packet or embedded, before or after an expiration, after a key or none"}, func(c *explore.Chooser) (Case, bool) {
		b := append([]byte{}, explore.PickFree(c, sigs)...)
		b[c.Free(12)] = byte(c.Free(256))
		d := append([]byte{}, explore.PickFree(c, [][]byte{keyA, nil})...)
		switch c.Free(3) {
		case 0:
			d = append(d, gen.Pkt(gen.HNew, 2, b)...)
		case 1:
			d = append(d, sig([][]byte{emb(b), t3(82), t9(83)}, nil)...)
		case 2:
			d = append(d, sig([][]byte{t2(1600000022), emb(b), t3(84), t9(85)}, nil)...)
		}
		return Case{Data: append(d, sig([][]byte{t3(86), t9(87)}, nil)...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	// arithmetic: every pair of boundary creation time and period
	times := append([]uint32{}, gen.Times...)
	for i := 0; i < 32; i++ {
		times = append(times, 1<<i, 1<<i-1)
	}
	check.Space(x, "dates", check.Opt{Desc: "every pair of boundary creation time and period, for keys and signatures"}, func(c *explore.Chooser) (Case, bool) {
		a, b := explore.PickFree(c, times), explore.PickFree(c, times)
		var d []byte
		if c.Free(2) == 0 {
			d = append(key(6, 4, a), sig([][]byte{t9(b)}, nil)...)
		} else {
			d = sig([][]byte{t2(a), t3(b)}, nil)
		}
		return Case{Data: d, O: explore.PickFree(c, optsSmall)}, true
	}, compare, show)
}
