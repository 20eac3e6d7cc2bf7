package main

import (
	"bytes"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/model"
)

// around explores every sample packet of the given tags with single octets
// changed, and in every surrounding the packet can occur in.
func around(x *check.Ctx, tags ...int) {
	var vs []sample
	for _, v := range append(allSamples(), totalSamples()...) {
		for _, t := range tags {
			if v.tag == t {
				vs = append(vs, v)
			}
		}
	}
	all := model.Opts{UTC: true, Debug: true}
	some := []byte{0, 1, 2, 3, 4, 5, 9, 0x0a, 17, 18, 32, 0x7f, 0x80, 191, 192, 253, 254, 255}
	check.Space(x, "sample-octets", check.Opt{Desc: "every sample packet of these tags with every octet, and every two neighbours, replaced by boundary values (thorough: every octet by every value), dumped and not"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		if len(v.body) == 0 {
			return Case{}, false
		}
		o := explore.PickFree(c, []model.Opts{{UTC: true}, all})
		i := c.Free(len(v.body))
		b := append([]byte{}, v.body...)
		two := c.Free(2) == 1
		switch {
		case two && i+1 == len(b):
			return Case{}, false
		case two:
			p := explore.PickFree(c, [][2]byte{{0, 0}, {255, 255}, {0, 8}, {0x20, 0}, {0, 0x80}, {1, 0}})
			b[i], b[i+1] = p[0], p[1]
		case x.Thorough():
			b[i] = byte(c.Free(256))
		default:
			k := c.Free(len(some) + 2)
			switch {
			case k < len(some):
				b[i] = some[k]
			case k == len(some):
				b[i]++
			default:
				b[i]--
			}
		}
		return Case{Data: append(gen.Pkt(gen.HNew, v.tag, b), uidZ...), O: o}, true
	}, compare, show)

	editSpace(x, vs)
	alpha := packetAlphabet()
	g0 := gen.New(explore.Default(), gen.Tiny)
	nc := len(alpha) + 9
	check.Space(x, "contexts", check.Opt{Desc: "every sample packet of these tags in every header kind, alone, doubled, after and before every other kind of packet, inside each kind of compressed packet, and inside an embedded key block"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		o := explore.PickFree(c, []model.Opts{{UTC: true}, all})
		k := c.Free(nc)
		p := gen.Pkt(gen.HNew, v.tag, v.body)
		var d []byte
		switch {
		case k < len(alpha):
			a := alpha[k]
			if c.Free(2) == 0 {
				d = bytes.Join([][]byte{a, p, uidZ}, nil)
			} else {
				d = bytes.Join([][]byte{p, a, p}, nil)
			}
		case k == len(alpha):
			d = p
		case k == len(alpha)+1:
			d = bytes.Join([][]byte{p, p, p}, nil)
		case k < len(alpha)+6:
			d = bytes.Join([][]byte{uidA, comp(byte(k-len(alpha)-2), uidA, p, uidZ), p, uidZ}, nil)
		case k == len(alpha)+6:
			b := bytes.Join([][]byte{{0}, uidA, p, uidZ}, nil)
			s := g0.SigWith(4, [][]byte{gen.SubHdr(0, len(b)+1, 38, b), gen.SubHdr(0, 2, 4, []byte{1})}, nil)
			d = append(gen.Pkt(gen.HNew, 2, s), p...)
		case k == len(alpha)+7:
			kind := c.Free(gen.NHdr)
			if !gen.HdrOK(kind, v.tag, len(v.body)) {
				return Case{}, false
			}
			d = append(append([]byte{}, uidA...), gen.Pkt(kind, v.tag, v.body)...)
			if kind != gen.HOldIndet {
				d = append(d, uidZ...)
			}
		default:
			// in chunks of one octet each
			n := len(v.body)
			if n > 40 {
				n = 40
			}
			d = append(gen.Chunks(v.tag, v.body, make([]int, n), 0), uidZ...)
		}
		return Case{Data: d, O: o}, true
	}, compare, show)
}

// editSpace inserts, removes and repeats octets everywhere in the samples: a field
// that does not fit is followed by bytes that would still decode.
func editSpace(x *check.Ctx, vs []sample) {
	ins := [][]byte{{0xff, 0xff}, {0, 0}, {0xff}, {0}, {1}, {2}, {0, 1}, {0, 9, 1, 1}, {0x7f, 0xff}, {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}}
	check.Space(x, "edits", check.Opt{Desc: "every sample packet with octets inserted at, removed from or repeated at every position, and bytes after it or none"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		i := c.Free(len(v.body) + 1)
		var b []byte
		switch k := c.Free(len(ins) + 8); {
		case k < len(ins):
			b = append(append(append([]byte{}, v.body[:i]...), ins[k]...), v.body[i:]...)
		case k < len(ins)+4:
			n := []int{1, 2, 4, 8}[k-len(ins)]
			if i+n > len(v.body) {
				return Case{}, false
			}
			b = append(append([]byte{}, v.body[:i]...), v.body[i+n:]...)
		default:
			n := []int{1, 2, 4, 8}[k-len(ins)-4]
			if i+n > len(v.body) {
				return Case{}, false
			}
			b = append(append([]byte{}, v.body[:i+n]...), v.body[i:]...)
		}
		if c.Free(2) == 1 {
			b = append(b, make([]byte, 40)...)
		}
		return Case{Data: append(gen.Pkt(gen.HNew, v.tag, b), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
}

// subCuts cuts and fills the bodies of subpackets of signatures and user
// attributes; the lengths around them are right.
func subCuts(x *check.Ctx, sig, attr bool) {
	type sub struct {
		tag  int
		typ  byte
		body []byte
	}
	g := gen.New(explore.Default(), gen.Tiny)
	var subs []sub
	if sig {
		for _, t := range gen.SubTypes {
			subs = append(subs, sub{2, t, g.SubBody(t, 0)})
		}
	}
	if attr {
		for _, v := range []byte{0, 1, 2, 99, 100, 105, 110, 111, 255} {
			for _, hl := range []int{0, 1, 2, 3, 4, 5, 16, 17, 0x1000} {
				subs = append(subs, sub{17, 1, append([]byte{byte(hl), byte(hl >> 8), v, 1}, g.Fill(16)...)})
			}
		}
		subs = append(subs, sub{17, 2, []byte("other")}, sub{17, 100, []byte("private")}, sub{17, 0, []byte("zero")})
	}
	wrap := func(tag, where int, s []byte) []byte {
		n := gen.SubHdr(0, 3, 60, []byte{0xe1, 0xe2})
		if tag == 17 {
			return gen.Pkt(gen.HNew, 17, [][]byte{s, append(append([]byte{}, n...), s...), append(append([]byte{}, s...), n...)}[where])
		}
		switch where {
		case 0:
			return gen.Pkt(gen.HNew, 2, g.SigWith(4, [][]byte{s}, nil))
		case 1:
			return gen.Pkt(gen.HNew, 2, g.SigWith(5, nil, [][]byte{n, s}))
		}
		return gen.Pkt(gen.HNew, 2, g.SigWith(4, [][]byte{s, n}, [][]byte{s}))
	}
	check.Space(x, "subpacket-cut", check.Opt{Desc: "every subpacket cut at every byte of its content, lengths adjusted, alone, after and before another, critical or not, in each length encoding"}, func(c *explore.Chooser) (Case, bool) {
		s := explore.PickFree(c, subs)
		k := c.Free(len(s.body) + 1)
		where, crit, kind := c.Free(3), byte(c.Free(2)), explore.PickFree(c, []int{0, 5})
		p := gen.SubHdr(kind, k+1, s.typ|crit<<7, s.body[:k])
		return Case{Data: append(wrap(s.tag, where, p), uidZ...), O: model.Opts{UTC: true, Debug: crit == 1}}, true
	}, compare, show)
	// long counted fields inside a subpacket that is too short for them
	var long []sub
	mpi := func(bits int) []byte {
		return append([]byte{byte(bits >> 8), byte(bits)}, g.Fill((bits+7)/8)...)
	}
	if sig {
		note := func(f byte, n, v int) []byte {
			return append([]byte{f, 0, 0, 0, byte(n >> 8), byte(n), byte(v >> 8), byte(v)}, g.Fill(n+v)...)
		}
		es := append([]byte{4, 0x19, 1, 8, 0, 0, 0, 0, 0xbe, 0xef}, mpi(2100)...)
		es2 := g.SigWith(4, [][]byte{gen.SubHdr(0, 301, 55, g.Fill(300))}, [][]byte{gen.SubHdr(0, 301, 56, g.Fill(300))})
		kb := append([]byte{0}, gen.Pkt(gen.HNew, 6, append([]byte{4, 1, 2, 3, 4, 1}, append(mpi(2048), 0, 1, 1)...))...)
		long = append(long, sub{2, 20, note(0x80, 300, 300)}, sub{2, 20, note(0, 5, 600)}, sub{2, 20, note(0, 600, 0)}, sub{2, 32, es}, sub{2, 32, es2}, sub{2, 38, kb})
	}
	if attr {
		long = append(long, sub{17, 1, append([]byte{0x2c, 1, 1, 1}, g.Fill(600)...)}, sub{17, 1, append([]byte{0x02, 2, 100, 1}, g.Fill(600)...)})
	}
	check.Space(x, "subpacket-cut-long", check.Opt{Desc: "subpackets with counted fields of 260 to 600 octets cut at every byte, lengths adjusted, alone, after and before another, critical or not"}, func(c *explore.Chooser) (Case, bool) {
		s := explore.PickFree(c, long)
		k := c.Free(len(s.body) + 1)
		where, crit := c.Free(3), byte(c.Free(2))
		if !x.Thorough() && where > 0 && k%16 > 1 {
			return Case{}, false
		}
		p := gen.SubHdr(0, k+1, s.typ|crit<<7, s.body[:k])
		return Case{Data: append(wrap(s.tag, where, p), uidZ...), O: model.Opts{UTC: true, Debug: crit == 1}}, true
	}, compare, show)
	some := []byte{0, 1, 2, 3, 4, 100, 110, 0x80, 0xff}
	check.Space(x, "subpacket-small", check.Opt{Desc: "every subpacket type with every content of up to three octets over boundary values"}, func(c *explore.Chooser) (Case, bool) {
		tag := 2
		switch {
		case sig && attr:
			tag = explore.PickFree(c, []int{2, 17})
		case attr:
			tag = 17
		}
		typ := byte(c.Free(128))
		n := c.Free(x.Bound(3, 4) + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = explore.PickFree(c, some)
		}
		return Case{Data: append(wrap(tag, c.Free(2), gen.SubHdr(0, n+1, typ, b)), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
}
