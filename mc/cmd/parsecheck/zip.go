package main

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"encoding/hex"
	"fmt"
	"hash/adler32"
	"strings"
	"time"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"
)

// pack compresses in one of several ways that all decode to the same bytes.
func pack(a byte, level int, d []byte) []byte {
	var o bytes.Buffer
	switch a {
	case 0:
		o.Write(d)
	case 1:
		w, _ := flate.NewWriter(&o, []int{6, 0, 1, 9, flate.HuffmanOnly}[level])
		if level == 1 {
			for i := range d { // several blocks
				w.Write(d[i : i+1])
				if i%5 == 0 {
					w.Flush()
				}
			}
		} else {
			w.Write(d)
		}
		w.Close()
	case 2:
		w, _ := zlib.NewWriterLevel(&o, []int{6, 0, 1, 9, flate.HuffmanOnly}[level])
		w.Write(d)
		w.Close()
	case 3:
		if level > 0 && len(d) > 1 { // several streams
			k := len(d) / 2
			o.Write(gen.Bzip2(d[:k]))
			o.Write(gen.Bzip2(d[k:]))
		} else {
			o.Write(gen.Bzip2(d))
		}
	default:
		o.Write(d)
	}
	return append([]byte{a}, o.Bytes()...)
}

func c12(x *check.Ctx) {
	alpha := packetAlphabet()
	// nested compressed packets too
	alpha = append(alpha, comp(1, uidA), comp(0, uidZ), gen.Pkt(gen.HNew, 8, []byte{2}))
	n := x.Bound(2, 3)
	check.Space(x, "sequences", check.Opt{Desc: "every packet sequence up to the bound in every algorithm, with packets before and after, in the default options and with debug"}, func(c *explore.Chooser) (Case, bool) {
		a := byte(c.Free(4))
		o := explore.PickFree(c, optsSmall)
		var d []byte
		for k := c.Free(n + 1); k > 0; k-- {
			d = append(d, explore.PickFree(c, alpha)...)
		}
		p := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, 8, pack(a, 0, d))...)
		return Case{Data: append(p, uidZ...), O: o}, true
	}, compare, show)
	seqs := binStreams()
	var mixed []byte
	for _, t := range []int{1, 3, 6, 13, 2, 18, 20, 9} {
		mixed = append(mixed, gen.Pkt(gen.HNew, t, baseBody(t))...)
	}
	seqs = append(seqs, mixed, nil, append(append([]byte{}, uidA...), gen.Pkt(gen.HOldIndet, 11, baseBody(11))...), append(append([]byte{}, uidA...), "garbage"...), uidA[:1])
	check.Space(x, "encodings", check.Opt{Desc: "every header kind of the compressed packet x algorithm x way of compressing (levels, stored, Huffman only, many blocks, several streams) x contents (damaged and empty ones included) x state before (session keys, key times) x bytes after the compressed data"}, func(c *explore.Chooser) (Case, bool) {
		kind := c.Free(gen.NHdr)
		a := byte(c.Free(4))
		level := c.Free(5)
		s := explore.PickFree(c, seqs)
		b := pack(a, level, s)
		if a != 0 && a != 3 {
			b = append(b, explore.PickFree(c, [][]byte{nil, {0}, []byte("tail"), uidZ})...)
		}
		pre := explore.PickFree(c, [][]byte{uidA, gen.Pkt(gen.HNew, 1, baseBody(1)), gen.Pkt(gen.HNew, 6, baseBody(6))})
		if !gen.HdrOK(kind, 8, len(b)) {
			return Case{}, false
		}
		d := append(append([]byte{}, pre...), gen.Pkt(kind, 8, b)...)
		if kind != gen.HOldIndet {
			d = append(d, gen.Pkt(gen.HNew, 18, []byte("\x01after"))...)
			d = append(d, uidZ...)
		}
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)
	tops := [][]byte{uidA, comp(0, uidA, uidZ), comp(1, uidZ, mixed), comp(2, mixed), comp(3, uidA), gen.Pkt(gen.HPartial, 8, pack(1, 1, seqs[2])), gen.Pkt(gen.HNew, 8, []byte{1}), gen.Pkt(gen.HNew, 8, []byte{200, 1, 2}), gen.Pkt(gen.HNew, 8, nil), comp(1, comp(2, uidA), uidZ)}
	tn := x.Bound(4, 5)
	check.Space(x, "several", check.Opt{Desc: "every sequence up to the bound of compressed packets of each algorithm and other packets"}, func(c *explore.Chooser) (Case, bool) {
		var d []byte
		for k := 1 + c.Free(tn); k > 0; k-- {
			d = append(d, explore.PickFree(c, tops)...)
		}
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)
	counts := []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 299, 300, 301, 500, 501, 1000, 1001, 1025, 5000}
	for i := 0; i <= 50; i++ {
		counts = append(counts, i)
	}
	if x.Thorough() {
		counts = append(counts, 10001, 70000)
	}
	zs := [][]byte{comp(0, uidA, uidZ), comp(1, uidA, uidZ), comp(2, uidA, uidZ), comp(3, uidA, uidZ)}
	check.Space(x, "many", check.Opt{Desc: "compressed packets of every number of packets up to 50 and around 64, 100, 128, 200, 256, 300, 500, 1000, 5000 (thorough: 70000), and streams of as many compressed packets"}, func(c *explore.Chooser) (Case, bool) {
		a := byte(c.Free(4))
		n := explore.PickFree(c, counts)
		if a == 3 && n > 300 && !x.Thorough() {
			return Case{}, false
		}
		var d []byte
		if c.Free(2) == 0 {
			for i := 0; i < n; i++ {
				d = append(d, alpha[i%len(alpha)]...)
			}
			d = append(gen.Pkt(gen.HNew, 8, pack(a, 0, d)), uidZ...)
		} else {
			if n > 300 {
				return Case{}, false
			}
			z := zs[a]
			d = append(bytes.Repeat(z, n), uidZ...)
		}
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)
	check.Space(x, "very-many", check.Opt{Desc: "compressed packets of as many packets as a power of two or ten up to 2^17 (thorough: 2^20), one more and one less"}, func(c *explore.Chooser) (Case, bool) {
		ns := []int{8192, 10000, 16384, 32768, 65536, 100000, 131072}
		if x.Thorough() {
			ns = append(ns, 262144, 1000000, 1048576)
		}
		n := explore.PickFree(c, ns) + c.Free(3) - 1
		a := byte(explore.PickFree(c, []int{0, 1, 2}))
		d := bytes.Repeat(gen.Pkt(gen.HNew, 12, nil), n)
		return Case{Data: append(gen.Pkt(gen.HNew, 8, pack(a, 0, d)), uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	zipLarge(x)
	inner := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, 11, baseBody(11))...)
	inner = append(inner, gen.Pkt(gen.HNew, 2, baseBody(2))...)
	flips := []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
	if x.Thorough() {
		flips = nil
		for i := 1; i < 256; i++ {
			flips = append(flips, byte(i))
		}
	}
	contents := [][]byte{inner, nil, gen.Pkt(gen.HNew, 12, nil), uidA, gen.Pkt(gen.HNew, 63, gen.New(explore.Default(), gen.Tiny).Fill(6000))}
	var packed [4][5][][]byte
	for a := range packed {
		for l := range packed[a] {
			for _, d := range contents {
				packed[a][l] = append(packed[a][l], pack(byte(a), l, d))
			}
		}
	}
	check.Space(x, "damage", check.Opt{Desc: "compressed data (nothing, one packet, several, 6000 octets: there the first and last 12 octets) in every algorithm cut at every byte, every octet with every single bit (thorough: every non-empty set of bits) changed, every octet removed and doubled: an error, or the listing of what it then decodes to"}, func(c *explore.Chooser) (Case, bool) {
		a := byte(c.Free(4))
		b := append([]byte{}, packed[a][explore.PickFree(c, []int{0, 1, 4})][c.Free(len(contents))]...)
		n := len(b)
		if n > 4096 {
			n = 24 // the beginning and the end only
		}
		i := c.Free(n)
		if n < len(b) && i >= n/2 {
			i += len(b) - n
		}
		switch c.Free(4) {
		case 0:
			b[i] ^= explore.PickFree(c, flips)
		case 1:
			b = b[:i]
		case 2:
			b = append(b[:i:i], b[i+1:]...)
		case 3:
			b = append(b[:i+1:i+1], b[i:]...)
		}
		d := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, 8, b)...)
		return Case{Data: append(d, uidZ...), O: model.Opts{UTC: true}}, true
	}, compare, show)
	check.Space(x, "algorithms", check.Opt{Desc: "every algorithm octet with every kind of data"}, func(c *explore.Chooser) (Case, bool) {
		a := byte(c.Free(256))
		b := pack(byte(c.Free(4)), 0, inner)
		b[0] = a
		b = b[:explore.PickFree(c, []int{len(b), 1, 2, 3, 10})]
		d := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, 8, b)...)
		return Case{Data: append(d, uidZ...), O: explore.PickFree(c, optsSmall)}, true
	}, compare, show)
	// expansions of growing size
	var sizes []int
	for k := 9; k <= x.Bound(24, 27); k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	check.Space(x, "growing", check.Opt{Workers: 4, Desc: "data expanding to every power of two and its neighbours up to 16 MiB (thorough: 128 MiB), in every algorithm"}, func(c *explore.Chooser) (bomb, bool) {
		return bomb{alg: byte(c.Free(3) + 1), total: explore.PickFree(c, sizes)}, true
	}, checkBomb, showBomb)
	lim := model.MaxExpand
	var bombs []bomb
	bombs = append(bombs, bomb{1, lim - 1}, bomb{1, lim}, bomb{1, lim + 1}, bomb{2, lim}, bomb{3, lim}, bomb{2, lim + lim/2})
	if x.Thorough() {
		bombs = append(bombs, bomb{2, lim - 1}, bomb{3, lim - 1}, bomb{2, lim + 1}, bomb{3, lim + 1}, bomb{1, 4 * lim}, bomb{2, 4 * lim}, bomb{3, 4 * lim}, bomb{1, 16 * lim}, bomb{1, lim / 2}, bomb{1, lim - 4096}, bomb{3, 64 * lim})
	}
	check.Space(x, "limit", check.Opt{Workers: 2, Hang: 600 * time.Second, Heap: 26 << 30, Desc: "data expanding to one byte less than 1 GiB, exactly 1 GiB and more"}, func(c *explore.Chooser) (bomb, bool) {
		return explore.PickFree(c, bombs), true
	}, checkBomb, showBomb)
}

// noise: bytes that do not compress (a fixed generator, the same on every run).
func noise(n int) []byte {
	b := make([]byte, n)
	v := uint32(2463534242)
	for i := range b {
		v ^= v << 13
		v ^= v >> 17
		v ^= v << 5
		b[i] = byte(v >> 11)
	}
	return b
}

// zipLarge: compressed data that is itself large.
func zipLarge(x *check.Ctx) {
	sizes := bigSizes(x.Bound(20, 23))
	// one bzip2 stream decoding to one packet, repeated
	var unit [][]byte
	for _, n := range []int{200, 4000} {
		unit = append(unit, gen.Bzip2(append(gen.Pkt(gen.HNew, 11, append([]byte("b\x01x\x00\x00\x00\x00"), noise(n)...)), uidA...)))
	}
	check.Space(x, "large", check.Opt{Desc: "compressed data of every power of two and ten and its neighbours up to 2^20 (thorough: 2^23) bytes that hardly shrinks, as one packet or many, in every algorithm and header kind, complete and one byte short"}, func(c *explore.Chooser) (Case, bool) {
		a := byte(c.Free(4))
		n := explore.PickFree(c, sizes)
		kind := explore.PickFree(c, []int{gen.HNew, gen.HNew5, gen.HPartial, gen.HOld4, gen.HOldIndet})
		many := c.Free(2)
		short := c.Free(2)
		if short == 1 && kind != gen.HNew {
			return Case{}, false
		}
		var b []byte
		if a == 3 {
			u := unit[many]
			b = append([]byte{3}, bytes.Repeat(u, n/len(u)+1)...)
		} else {
			var in []byte
			if many == 0 {
				in = append(gen.Pkt(gen.HNew, 11, append([]byte("b\x01x\x00\x00\x00\x00"), noise(n)...)), uidZ...)
			} else {
				one := gen.Pkt(gen.HNew, 13, []byte(ascii(100)))
				in = bytes.Repeat(one, n/len(one)+1)
			}
			b = pack(a, 0, in)
		}
		b = b[:len(b)-short]
		d := gen.Pkt(kind, 8, b)
		if kind != gen.HOldIndet {
			d = append(d, uidZ...)
		}
		return Case{Data: d, O: model.Opts{UTC: true}}, true
	}, compare, show)
}

func ascii(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	return string(b)
}

// bomb: a marker packet of zeros, compressed, of the given total size.
type bomb struct {
	alg   byte
	total int
}

func showBomb(b bomb) map[string]any {
	return map[string]any{"input": fmt.Sprintf("compressed packet, algorithm %d, expanding to %d bytes", b.alg, b.total)}
}

func (b bomb) packet() (body []byte, size int) {
	size = b.total - 6
	hdr := []byte{0xca, 255, byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)}
	if size > 0xffffffff {
		size = 0xffffffff
	}
	zeros := b.total - 6
	switch b.alg {
	case 1, 2:
		var o bytes.Buffer
		if b.alg == 2 {
			o.Write([]byte{0x78, 0x9c})
		}
		w, _ := flate.NewWriter(&o, 1)
		w.Write(hdr)
		const unit = 1 << 20
		z := make([]byte, unit)
		// fill the window, then repeat one flushed block
		first := zeros % unit
		w.Write(z[:first])
		w.Flush()
		rest := zeros / unit
		if rest > 0 {
			w.Write(z)
			w.Flush()
			rest--
		}
		if rest > 0 {
			w.Write(z)
			w.Flush()
			rest--
		}
		if rest > 0 {
			k := o.Len()
			w.Write(z)
			w.Flush()
			rest--
			blk := append([]byte{}, o.Bytes()[k:]...)
			for ; rest > 0; rest-- {
				o.Write(blk)
			}
		}
		o.Write([]byte{1, 0, 0, 0xff, 0xff}) // final empty stored block
		if b.alg == 2 {
			h := adler32.New()
			h.Write(hdr)
			for n := zeros; n > 0; n -= unit {
				if n < unit {
					h.Write(z[:n])
				} else {
					h.Write(z)
				}
			}
			o.Write(h.Sum(nil))
		}
		body = o.Bytes()
	case 3:
		body = append(body, gen.Bzip2(hdr)...)
		for _, u := range []struct {
			n int
			z []byte
		}{{1 << 25, zero32m}, {1 << 20, zero1m}, {1 << 15, gen.Bzip2(make([]byte, 1<<15))}, {1 << 10, gen.Bzip2(make([]byte, 1<<10))}} {
			for zeros >= u.n {
				body = append(body, u.z...)
				zeros -= u.n
			}
		}
		if zeros > 0 {
			body = append(body, gen.Bzip2(make([]byte, zeros))...)
		}
	}
	return append([]byte{b.alg}, body...), size
}

func mustHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// 32 MiB and 1 MiB of zeros
var zero32m = mustHex("425a6839314159265359a220a29a010101c000c000000820003080291b680201a20100e2ee48a70a121444145340")
var zero1m = mustHex("425a683931415926535938571ce50008084000c0040008200030cc0529a60806c4201e2ee48a70a12070ae39ca")

func checkBomb(e *explore.Env, b bomb) *explore.Violation {
	body, size := b.packet()
	d := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, 8, body)...)
	d = append(d, uidZ...)
	// the listing of a small one of the same kind, with the sizes replaced
	small := pack(b.alg, 0, gen.Pkt(gen.HNew, 10, make([]byte, 777)))
	sd := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, 8, small)...)
	sd = append(sd, uidZ...)
	want, steps, err := model.Decode(sd, model.Opts{UTC: true})
	if err != nil {
		panic(err)
	}
	e.Steps(steps)
	z := want[1]
	sub := func(n *model.Node, from, to int) {
		n.Note = strings.ReplaceAll(n.Note, fmt.Sprintf("%d bytes", from), fmt.Sprintf("%d bytes", to))
	}
	sub(z, len(small), len(body))
	sub(z.Items[1], len(small)-1, len(body)-1)
	if b.total >= model.MaxExpand {
		z.Items = z.Items[:2]
		z.Items[1].Value = "<too laege decompressed data>"
	} else {
		sub(z.Items[2], 777, size)
		sub(z.Items[2].Items[0], 777, size)
	}
	got := impl.Parse(d, model.Opts{UTC: true})
	c := Case{Data: d, Note: fmt.Sprint(showBomb(b)["input"])}
	if len(d) > 4000 {
		c.Data = d[:4000]
	}
	if got.Panic != "" {
		return viol(c, "panic: %s", got.Panic)
	}
	if got.Err != nil {
		return viol(c, "%s: rejected: %v", c.Note, got.Err)
	}
	if df := model.Equal(want, got.Nodes, ""); df != "" {
		return viol(c, "%s: listing differs at %s", c.Note, df)
	}
	if b.total >= model.MaxExpand {
		e.Outcome("too large")
	} else {
		e.Outcome("expanded")
	}
	return nil
}
