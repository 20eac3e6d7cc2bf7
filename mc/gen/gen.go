// Package gen holds the input grammars: every function asks the explorer for
// each field of the packet it builds, so that exploring it enumerates all packets
// of the grammar within the deviation bound.
package gen

import (
	"encoding/binary"

	"gpgpmc/explore"
	"gpgpmc/model"
)

// Domain levels.
const (
	Tiny = iota // 2-4 values per field
	Core        // all values the code distinguishes, and boundaries
	Full        // all 256 values of every identifier octet, wide length lists
)

// G builds one input.
type G struct {
	C   *explore.Chooser
	Lvl int
	ctr byte
}

// New returns a builder.
func New(c *explore.Chooser, lvl int) *G { return &G{C: c, Lvl: lvl, ctr: 0x21} }

// Fill returns n bytes of a running pattern, different at every place.
func (g *G) Fill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = g.ctr
		g.ctr = g.ctr*5 + 0x2b
	}
	return b
}

// Oct chooses an octet: core[0] is the default, Full means all 256 values.
func (g *G) Oct(core ...byte) byte {
	switch g.Lvl {
	case Full:
		i := g.C.Choose(256)
		return core[0] ^ byte(i)
	case Tiny:
		if len(core) > 4 {
			core = core[:4]
		}
	}
	return core[g.C.Choose(len(core))]
}

// Int chooses among integers, the first being the default.
func (g *G) Int(full []int, core []int, tiny []int) int {
	d := core
	switch g.Lvl {
	case Full:
		d = full
	case Tiny:
		d = tiny
	}
	return d[g.C.Choose(len(d))]
}

func uniq(def int, xs []int) []int {
	seen := map[int]bool{def: true}
	out := []int{def}
	for _, x := range xs {
		if x >= 0 && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func span(a, b int) []int {
	var r []int
	for i := a; i <= b; i++ {
		r = append(r, i)
	}
	return r
}

// Boundary lengths.
var (
	LensFull = append(append([]int{}, span(0, 48)...), 63, 64, 65, 100, 126, 127, 128, 129, 190, 191, 192, 193, 194, 223, 224, 225, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 8382, 8383, 8384, 8385, 16383, 16384, 20000, 65534, 65535, 65536, 65537)
	LensCore = []int{0, 1, 2, 3, 4, 8, 16, 20, 127, 128, 191, 192, 193, 255, 256, 257, 300, 1000, 8383, 8384}
	LensTiny = []int{0, 1, 200}
	BitsFull = append(append([]int{}, span(0, 70)...), 127, 128, 129, 255, 256, 257, 263, 264, 511, 512, 513, 520, 521, 1023, 1024, 1025, 2040, 2041, 2047, 2048, 2049, 3072, 4095, 4096, 4097, 8192, 16383, 16384, 32767, 32768, 65528, 65529, 65535)
	BitsCore = []int{0, 1, 7, 8, 9, 15, 16, 17, 255, 256, 257, 2047, 2048, 2049, 4096}
	BitsTiny = []int{0, 1, 9}
)

// Len chooses a length around def.
func (g *G) Len(def int) int {
	switch g.Lvl {
	case Full:
		return explore.Pick(g.C, uniq(def, append([]int{def - 1, def + 1}, LensFull...)))
	case Core:
		return explore.Pick(g.C, uniq(def, append([]int{def - 1, def + 1}, LensCore...)))
	}
	return explore.Pick(g.C, uniq(def, []int{0, def - 1, def + 1}))
}

// Small chooses a small length (used in nested places).
func (g *G) Small(def int) int {
	return explore.Pick(g.C, uniq(def, []int{0, 1, 2, 3, def - 1, def + 1, 2 * def}))
}

// Times are the boundary instants.
var Times = []uint32{
	0x5f5e1000, 0, 1, 59, 86399, 86400, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff,
	951782400 /* 2000-02-29 */, 951868799, 1078012800, 1616893199 /* EU DST 2021 */, 1616893200, 1635641999, 1635642000,
	1615705199, 1615705200 /* US DST 2021 */, 946684799, 946684800, 4102444799, 4107542400, 0x01000000, 0x00010000, 0x00000100, 0x00ff00ff,
}

// Time chooses an instant.
func (g *G) Time(def uint32) uint32 {
	var d []uint32
	d = append(d, def)
	switch g.Lvl {
	case Full:
		d = append(d, Times...)
		for i := 0; i < 32; i++ {
			d = append(d, 1<<i)
		}
	case Core:
		d = append(d, Times[:14]...)
	default:
		d = append(d, 0, 0xffffffff)
	}
	return explore.Pick(g.C, d)
}

// Texts are the text payloads: plain, empty, long, control characters, other
// scripts, and byte strings that are not UTF-8.
var Texts = []string{
	"Alice <alice@example.com>", "", "a", "tab\tin", "line\nfeed\r\n", "nul\x00byte", "esc\x1b[31mred", "del\x7f", "c1\u0085\u009b",
	"\u00a0nbsp", "日本語のテキスト", "Ünïcödé ß", "\U0001F600 emoji", "\u2028sep\u2029", "\ufeffbom", "e\u0301", "\u200b\u202e",
	"quote\" back\\slash <b>&amp;", "%s %d %x", "\xff", "ok\xc3", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "abc\x80def", "\xe2\x82",
	" lead and trail ", "\x01", "\x1f\x20", "\ufffd", "\U0010FFFF", "\u00ad", "\u0600", "tail\x00", "\x00",
}

// Text chooses a text payload.
func (g *G) Text(def string) []byte {
	d := []string{def}
	switch g.Lvl {
	case Full:
		d = append(d, Texts...)
		long := ""
		for len(long) < 300 {
			long += "0123456789 äöü "
		}
		for _, n := range []int{127, 128, 191, 192, 255, 256} {
			d = append(d, ascii(n))
		}
		d = append(d, long)
	case Core:
		d = append(d, Texts[:26]...)
	default:
		d = append(d, "", "x\x1by", "\xff\xfe")
	}
	return []byte(explore.Pick(g.C, d))
}

func ascii(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + i%26)
	}
	return string(b)
}

// MPI builds a multi-precision integer; first, if given, restricts the values of
// the leading octet that the code distinguishes.
func (g *G) MPI(def int, first ...byte) []byte {
	bits := 0
	switch g.Lvl {
	case Full:
		bits = explore.Pick(g.C, uniq(def, BitsFull))
	case Core:
		bits = explore.Pick(g.C, uniq(def, BitsCore))
	default:
		bits = explore.Pick(g.C, uniq(def, BitsTiny))
	}
	b := g.Fill((bits + 7) / 8)
	if len(first) > 0 && len(b) > 0 {
		b[0] = g.Oct(first...)
	}
	return append([]byte{byte(bits >> 8), byte(bits)}, b...)
}

// Pub algorithm octets the code distinguishes.
var (
	PubIDs  = []byte{1, 17, 18, 22, 16, 19, 2, 3, 20, 0, 4, 15, 21, 23, 99, 100, 105, 110, 111, 255}
	HashIDs = []byte{8, 1, 2, 0, 3, 4, 7, 9, 10, 11, 12, 13, 14, 15, 99, 100, 110, 111, 255}
	SymIDs  = []byte{9, 3, 0, 200, 1, 2, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 99, 100, 101, 110, 111, 255}
	SigIDs  = []byte{0x13, 0, 0x18, 0x20, 1, 2, 0x10, 0x11, 0x12, 0x16, 0x19, 0x1f, 0x28, 0x30, 0x40, 0x50, 0x03, 0x14, 0xff}
	CompIDs = []byte{1, 0, 2, 3, 4, 100, 110, 255}
	AEADIDs = []byte{2, 1, 0, 3, 100, 105, 110, 111, 255}
	S2KIDs  = []byte{3, 0, 1, 2, 101, 4, 100, 102, 110, 111, 255}
	Points  = []byte{0x04, 0x40, 0x00, 0x41, 0x42, 0x03, 0xff}
	Usages  = []byte{254, 0, 253, 255, 9, 3, 1, 2, 7, 13, 14, 100, 250, 252}
)

func be16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func be32(n uint32) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], n)
	return b[:]
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// Lie perturbs a declared length.
func (g *G) Lie(n, max int) int {
	d := []int{n, n - 1, n + 1, 0, max}
	if g.Lvl == Full {
		d = append(d, n-2, n+2, n/2, n+255, n+256, max-1, 1)
	}
	return explore.Pick(g.C, clamp(uniq(n, d), max))
}

func clamp(xs []int, max int) []int {
	out := xs[:0]
	for _, x := range xs {
		if x <= max {
			out = append(out, x)
		}
	}
	return out
}

// Damage cuts the body anywhere or appends bytes.
func (g *G) Damage(b []byte) []byte {
	ext := []int{1, 2, 7}
	if g.Lvl == Full {
		ext = []int{1, 2, 3, 7, 8, 20, 200, 1000}
	}
	cuts := len(b)
	if g.Lvl != Full && cuts > 400 {
		cuts = 400
	}
	k := g.C.Choose(1 + len(ext) + cuts)
	switch {
	case k == 0:
		return b
	case k <= len(ext):
		return append(append([]byte{}, b...), g.Fill(ext[k-1])...)
	}
	return b[:k-1-len(ext)]
}

// ---- key material ------------------------------------------------------------

// PubInts are the public-key integers of an algorithm.
func (g *G) PubInts(a byte) []byte {
	switch a {
	case 1, 2, 3:
		return cat(g.MPI(33), g.MPI(17))
	case 17:
		return cat(g.MPI(33), g.MPI(16), g.MPI(32), g.MPI(25))
	case 16, 20:
		return cat(g.MPI(33), g.MPI(3), g.MPI(31))
	case 18:
		return cat(g.OID(), g.MPI(40, Points...), g.KDF())
	case 19, 22:
		return cat(g.OID(), g.MPI(40, Points...))
	}
	return g.Fill(g.Len(6))
}

// OID chooses a curve.
func (g *G) OID() []byte {
	var d [][]byte
	for _, c := range model.Curves {
		d = append(d, c.OID)
	}
	p256 := d[0]
	d = append(d, nil, []byte{0x2b}, p256[:7], append(append([]byte{}, p256...), 0), []byte{0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x08}, g.Fill(255))
	if g.Lvl == Tiny {
		d = append(d[:2:2], nil)
	}
	o := explore.Pick(g.C, d)
	l := len(o)
	if g.Lvl != Tiny {
		l = g.Lie(l, 255)
	}
	return append([]byte{byte(l)}, o...)
}

// KDF parameters.
func (g *G) KDF() []byte {
	var b []byte
	switch g.C.Choose(7) {
	case 0:
		b = []byte{1, g.Oct(HashIDs...), g.Oct(SymIDs...)}
	case 1:
		return nil // absent
	case 2:
		b = nil
	case 3:
		b = []byte{1}
	case 4:
		b = []byte{1, 8}
	case 5:
		b = []byte{g.Oct(2, 0, 255), 8, 9}
	case 6:
		b = append([]byte{1, 10, 9}, g.Fill(g.Len(5))...)
		if len(b) > 255 {
			b = b[:255]
		}
	}
	l := len(b)
	if g.Lvl != Tiny {
		l = g.Lie(l, 255)
	}
	return append([]byte{byte(l)}, b...)
}

// SigInts are the signature integers of an algorithm.
func (g *G) SigInts(a byte) []byte {
	switch a {
	case 1, 2, 3:
		return g.MPI(33)
	case 16, 17, 19, 20, 22:
		return cat(g.MPI(33), g.MPI(30))
	}
	return g.Fill(g.Len(5))
}

// SesInts are the session-key integers of an algorithm.
func (g *G) SesInts(a byte) []byte {
	switch a {
	case 1, 2, 3:
		return g.MPI(33)
	case 16, 20:
		return cat(g.MPI(33), g.MPI(30))
	case 18:
		b := g.Fill(g.Small(9))
		switch g.C.Choose(4) {
		case 0:
			return cat(g.MPI(40, Points...), []byte{byte(len(b))}, b)
		case 1:
			return g.MPI(40, Points...)
		case 2:
			return cat(g.MPI(40, Points...), []byte{0})
		default:
			return cat(g.MPI(40, Points...), []byte{byte(len(b) + 1)}, b)
		}
	}
	return g.Fill(g.Len(5))
}

// SecInts are the plain secret integers of an algorithm.
func (g *G) SecInts(a byte) []byte {
	switch a {
	case 1, 2, 3:
		return cat(g.MPI(33), g.MPI(17), g.MPI(18), g.MPI(20))
	case 16, 17, 18, 19, 20, 22:
		return g.MPI(21)
	}
	return g.Fill(g.Len(4))
}

// S2K builds a string-to-key specifier.
func (g *G) S2K() []byte {
	id := g.Oct(S2KIDs...)
	switch id {
	case 0:
		return []byte{id, g.Oct(HashIDs...)}
	case 1:
		return cat([]byte{id, g.Oct(HashIDs...)}, g.Fill(8))
	case 3:
		return cat([]byte{id, g.Oct(HashIDs...)}, g.Fill(8), []byte{g.Oct(0x60, 0, 0xff, 0x0f, 0xf0, 0x10, 0xee)})
	case 101:
		return g.GNU()
	}
	return []byte{id}
}

// GNU is the GNU card-stub specifier.
func (g *G) GNU() []byte {
	mark := explore.Pick(g.C, []string{"GNU", "GNV", "gnu", "GN", ""})
	n := g.Oct(2, 1, 0, 3, 255)
	r := cat([]byte{101}, []byte(mark))
	if mark == "GN" || mark == "" {
		return r
	}
	r = append(r, n)
	if n == 2 {
		l := g.Small(16)
		r = append(r, byte(l))
		r = append(r, g.Fill(l)...)
	}
	return r
}

// ---- packets -------------------------------------------------------------------

// PubKey builds a public-key body.
func (g *G) PubKey() []byte {
	shape := explore.Pick(g.C, []int{4, 3, 5, 0})
	return g.PubKeyShape(shape)
}

// PubKeyShape builds a public-key body laid out for a version; shape 0 lets the
// version octet disagree with the layout.
func (g *G) PubKeyShape(shape int) []byte {
	v := byte(shape)
	if shape == 0 {
		v = g.Oct(2, 0, 1, 6, 3, 5, 255)
		shape = 4
	}
	t := g.Time(0x5f5e1000)
	r := append([]byte{v}, be32(t)...)
	if shape == 3 {
		r = append(r, be16(g.Int([]int{30, 0, 1, 255, 256, 365, 32767, 32768, 65535}, []int{30, 0, 1, 256, 65535}, []int{30, 0}))...)
	}
	a := g.Oct(PubIDs...)
	r = append(r, a)
	k := g.PubInts(a)
	if shape == 5 {
		r = append(r, be32(uint32(g.Lie(len(k), 1<<20)))...)
	}
	return append(r, k...)
}

// SecKey builds a secret-key body.
func (g *G) SecKey() []byte {
	shape := explore.Pick(g.C, []int{4, 5, 3, 0})
	v := byte(shape)
	if shape == 0 {
		v = g.Oct(2, 0, 1, 6, 255)
	}
	r := append([]byte{v}, be32(g.Time(0x5f5e1000))...)
	if shape == 3 {
		r = append(r, be16(30)...)
	}
	a := g.Oct(PubIDs...)
	r = append(r, a)
	// public part: fixed defaults, the secret part is what varies here
	k := (&G{C: fixed(), Lvl: Tiny, ctr: 0x77}).PubInts(a)
	if shape == 5 {
		r = append(r, be32(uint32(len(k)))...)
	}
	if shape == 0 {
		// an unknown version has no decoded public part
		r = r[:1]
	} else {
		r = append(r, k...)
	}
	u := g.Oct(Usages...)
	r = append(r, u)
	var opt []byte
	sym := u
	if u >= 253 {
		sym = g.Oct(SymIDs...)
		opt = append(opt, sym)
		if u == 253 {
			opt = append(opt, g.Oct(AEADIDs...))
		}
		s := g.S2K()
		opt = append(opt, s...)
		if !(len(s) >= 5 && string(s[:4]) == "eGNU") {
			opt = append(opt, g.Fill(g.ivLen(sym))...)
		}
	} else if u != 0 {
		opt = append(opt, g.Fill(g.ivLen(sym))...)
	}
	var sec []byte
	if u == 0 {
		sec = g.SecInts(a)
	} else {
		sec = g.Fill(g.Len(24))
	}
	if shape == 5 {
		if g.C.Bool() {
			opt = append(opt, g.Fill(3)...)
		}
		if len(opt) > 255 {
			opt = opt[:255]
		}
		r = append(r, byte(g.Lie(len(opt), 255)))
		r = append(r, opt...)
		if g.C.Bool() {
			sec = append(sec, g.Fill(2)...)
		}
		r = append(r, be32(uint32(g.Lie(len(sec), 1<<20)))...)
		r = append(r, sec...)
		if u == 0 {
			r = append(r, g.Fill(2)...)
		}
	} else {
		r = append(r, opt...)
		r = append(r, sec...)
		if u == 0 {
			r = append(r, g.Fill(2)...)
		}
	}
	return r
}

func (g *G) ivLen(sym byte) int {
	n := 0
	switch {
	case sym <= 6:
		n = 8
	case sym <= 13:
		n = 16
	}
	return n
}

// fixed is a chooser that always answers with the default.
func fixed() *explore.Chooser { return explore.Default() }

// PKESK builds a tag 1 body.
func (g *G) PKESK() []byte {
	v := g.Oct(3, 2, 4, 0, 255)
	id := g.KeyID()
	a := g.Oct(PubIDs...)
	return cat([]byte{v}, id, []byte{a}, g.SesInts(a))
}

// KeyID chooses a key ID.
func (g *G) KeyID() []byte {
	d := [][]byte{{0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf1}, {0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 1}, {255, 255, 255, 255, 255, 255, 255, 255}, {0, 0x0a, 0xb0, 0, 0, 0x0c, 0, 0}, {0x80, 0, 0, 0, 0, 0, 0, 0}}
	if g.Lvl == Tiny {
		d = d[:2]
	}
	if g.Lvl == Full {
		for i := 0; i < 64; i++ {
			b := make([]byte, 8)
			b[i/8] = 1 << (i % 8)
			d = append(d, b)
		}
	}
	return explore.Pick(g.C, d)
}

// SKESK builds a tag 3 body.
func (g *G) SKESK() []byte {
	v := g.Oct(4, 5, 3, 0, 6, 255)
	r := cat([]byte{v, g.Oct(SymIDs...)}, g.S2K())
	return append(r, g.Fill(g.Small(0))...)
}

// OnePass builds a tag 4 body.
func (g *G) OnePass() []byte {
	return cat([]byte{g.Oct(3, 2, 4, 0, 255), g.Oct(SigIDs...), g.Oct(HashIDs...), g.Oct(PubIDs...)}, g.KeyID(), []byte{g.Oct(1, 0, 2, 0x80, 0xff)})
}

// Literal builds a tag 11 body.
func (g *G) Literal() []byte {
	f := g.Oct('b', 't', 'u', 'l', '1', 'm', 0, 0x1b, 0x7f, 0x85, 0xa0, 0xff)
	name := g.Text("file.txt")
	if len(name) > 255 {
		name = name[:255]
	}
	l := g.Lie(len(name), 255)
	return cat([]byte{f, byte(l)}, name, be32(g.Time(0x5f5e1000)), g.Fill(g.Len(12)))
}

// AEADData builds a tag 20 body.
func (g *G) AEADData() []byte {
	a := g.Oct(AEADIDs...)
	n := 0
	switch a {
	case 1:
		n = 16
	case 2:
		n = 15
	}
	return cat([]byte{g.Oct(1, 0, 2, 255), g.Oct(SymIDs...), a, g.Oct(16, 0, 1, 56, 57, 58, 59, 63, 128, 249, 250, 255)}, g.Fill(n), g.Fill(g.Len(20)))
}

// ImageSub builds an image attribute body (without subpacket header).
func (g *G) ImageSub() []byte {
	hl := g.Int([]int{16, 0, 1, 15, 17, 255, 256, 0x1000, 4096 + 16, 65535}, []int{16, 0, 17, 0x1000}, []int{16, 0x1000})
	ver := g.Oct(1, 100, 110, 0, 2, 99, 111, 255)
	enc := g.Oct(1, 0, 2, 100, 255)
	return cat([]byte{byte(hl), byte(hl >> 8), ver, enc}, g.Fill(12), g.Fill(g.Len(30)))
}

// SubHdr prepends a subpacket header; kind 0 minimal, 1/2/5 octets forced.
func SubHdr(kind int, declared int, typ byte, body []byte) []byte {
	var h []byte
	switch {
	case kind == 5 || declared > 16319+0 && kind == 0:
		h = append([]byte{255}, be32(uint32(declared))...)
	case kind == 2 && declared >= 192 || kind == 0 && declared >= 192:
		x := declared - 192
		h = []byte{byte(x>>8) + 192, byte(x)}
	default:
		h = []byte{byte(declared)}
	}
	return cat(h, []byte{typ}, body)
}

// Sub builds one subpacket of the given type.
func (g *G) Sub(typ byte, depth int) []byte {
	body := g.SubBody(typ, depth)
	kind := explore.Pick(g.C, []int{0, 5})
	n := len(body) + 1
	d := n
	if g.Lvl != Tiny {
		d = g.Lie(n, 1<<20)
	}
	crit := byte(0)
	if g.C.Bool() {
		crit = 0x80
	}
	return SubHdr(kind, d, typ|crit, body)
}

// SubBody builds the content of a subpacket.
func (g *G) SubBody(typ byte, depth int) []byte {
	dam := func(b []byte) []byte {
		if g.Lvl == Tiny {
			return b
		}
		return g.Damage(b)
	}
	switch typ & 0x7f {
	case 2:
		return dam(be32(g.Time(0x60000000)))
	case 3, 9:
		return dam(be32(g.Time(86400 * 30)))
	case 4, 7, 25:
		return dam([]byte{g.Oct(1, 0, 2, 0x80, 255)})
	case 5:
		return dam([]byte{g.Oct(1, 0, 2, 255), g.Oct(120, 60, 0, 255)})
	case 6, 24, 26, 28:
		return g.Text("http://example.com/?a=b")
	case 11:
		return g.octList(SymIDs)
	case 21:
		return g.octList(HashIDs)
	case 22:
		return g.octList(CompIDs)
	case 34:
		return g.octList(AEADIDs)
	case 12:
		return dam(cat([]byte{g.Oct(0x80, 0xc0, 0, 0x40, 0x3f, 0xff), g.Oct(PubIDs...)}, g.Fill(20)))
	case 16:
		return dam(g.KeyID())
	case 20:
		name := g.Text("name@example.com")
		val := g.Text("value")
		f := []byte{g.Oct(0x80, 0, 0x01, 0xff), g.Oct(0, 1, 0xff), g.Oct(0, 1, 0xff), g.Oct(0, 1, 0xff)}
		nl, vl := len(name), len(val)
		if g.Lvl != Tiny {
			nl, vl = g.Lie(nl, 65535), g.Lie(vl, 65535)
		}
		return dam(cat(f, be16(nl), be16(vl), name, val))
	case 23:
		return dam(g.flags([]byte{0x80, 0, 0x7f, 0xff, 0x01, 0x40}))
	case 27:
		return dam(g.flags([]byte{0x03, 0, 0x0c, 0x20, 0x10, 0x80, 0x40, 0xff}))
	case 30:
		return dam(g.flags([]byte{0x01, 0, 0x02, 0x04, 0x08, 0xf8, 0xff}))
	case 29:
		return dam(append([]byte{g.Oct(0, 1, 32, 2, 3, 4, 31, 33, 99, 100, 110, 111, 255)}, g.Text("because")...))
	case 31:
		return dam(cat([]byte{g.Oct(PubIDs...), g.Oct(HashIDs...)}, g.Fill(32)))
	case 32:
		if depth <= 0 {
			return cat([]byte{4, 0x19, 1, 8, 0, 0, 0, 0, 0xab, 0xcd, 0, 9}, g.Fill(2))
		}
		return dam(g.Signature(depth - 1))
	case 33, 35:
		v := g.Oct(4, 5, 0, 3, 6, 255)
		n := 20
		if v == 5 {
			n = 32
		}
		return dam(append([]byte{v}, g.Fill(n)...))
	case 37:
		return g.Fill(g.Len(32))
	case 38:
		t := g.Oct(0, 1, 255)
		sub := &G{C: fixed(), Lvl: Tiny, ctr: 0x31}
		key := Pkt(HNew, 6, sub.PubKeyShape(4))
		uid := Pkt(HNew, 13, []byte("in block"))
		switch g.C.Choose(6) {
		case 0:
			return dam(cat([]byte{t}, key, uid))
		case 1:
			return []byte{t}
		case 2:
			return dam(cat([]byte{t}, Pkt(HOldIndet, 13, []byte("indeterminate"))))
		case 3:
			return dam(cat([]byte{t}, Pkt(HPartial, 13, sub.Fill(600)), key))
		case 4:
			sig := Pkt(HNew, 2, sub.SigWith(4, [][]byte{SubHdr(0, 5, 2, be32(1000)), SubHdr(0, 5, 9, be32(77)), SubHdr(0, 5, 3, be32(99))}, nil))
			return dam(cat([]byte{t}, key, uid, sig))
		default:
			return dam(cat([]byte{t}, Pkt(HNew, 8, cat([]byte{0}, uid))))
		}
	}
	return g.Fill(g.Len(4))
}

func (g *G) octList(core []byte) []byte {
	n := explore.Pick(g.C, []int{3, 0, 1, 2, 6, 20, 200})
	r := make([]byte, n)
	for i := range r {
		if i < 4 {
			r[i] = g.Oct(core...)
		} else {
			r[i] = byte(i)
		}
	}
	return r
}

func (g *G) flags(first []byte) []byte {
	n := explore.Pick(g.C, []int{1, 2, 3, 4, 5, 9, 300})
	r := make([]byte, n)
	for i := range r {
		switch {
		case i == 0:
			r[i] = g.Oct(first...)
		case i < 4:
			r[i] = g.Oct(0, 0x04, 0x08, 0xff, 0x01, 0xf3, 0x80)
		default:
			r[i] = byte(i*7) & 0x11
		}
	}
	return r
}

// SigWith builds a v4-layout signature with given subpacket areas.
func (g *G) SigWith(v byte, hashed, unhashed [][]byte) []byte {
	h, u := cat(hashed...), cat(unhashed...)
	return cat([]byte{v, 0x13, 1, 8}, be16(len(h)), h, be16(len(u)), u, []byte{0xbe, 0xef, 0, 17, 1, 2, 3})
}

// SubTypes are the types the code distinguishes.
var SubTypes = []byte{2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38, 0, 1, 8, 13, 36, 39, 99, 100, 110, 111, 127}

// Area builds a subpacket area.
func (g *G) Area(def []byte, depth int) []byte {
	n := g.C.Choose(len(def) + 3)
	var typs []byte
	switch {
	case n == 0:
		typs = def
	case n <= len(def):
		typs = def[:n-1]
	case n == len(def)+1:
		typs = append(append([]byte{}, def...), 20)
	default:
		typs = append(append([]byte{}, def...), 20, 20, 16, 2)
	}
	var r []byte
	for i, t := range typs {
		if i < 3 && g.C.Bool() {
			t = g.Oct(SubTypes...) & 0x7f
		}
		r = append(r, g.Sub(t, depth)...)
	}
	return r
}

// Signature builds a tag 2 body.
func (g *G) Signature(depth int) []byte {
	shape := explore.Pick(g.C, []int{4, 3, 5, 0})
	if shape == 3 {
		return g.SigV3()
	}
	v := byte(shape)
	if shape == 0 {
		v = g.Oct(2, 0, 1, 6, 255)
	}
	st, a, h := g.Oct(SigIDs...), g.Oct(PubIDs...), g.Oct(HashIDs...)
	ha := g.Area([]byte{2, 27}, depth)
	ua := g.Area([]byte{16}, depth)
	hl, ul := len(ha), len(ua)
	if g.Lvl != Tiny {
		hl, ul = g.Lie(hl, 65535), g.Lie(ul, 65535)
	}
	return cat([]byte{v, st, a, h}, be16(hl), ha, be16(ul), ua, g.Left16(), g.SigInts(a))
}

// Left16 are the left 16 bits of the hash.
func (g *G) Left16() []byte { return []byte{g.Oct(0xbe, 0, 255), g.Oct(0xef, 0, 255)} }

// SigV3 builds a v3 signature.
func (g *G) SigV3() []byte {
	sz := g.Oct(5, 0, 4, 6, 255)
	var hm []byte
	if sz == 5 {
		hm = cat([]byte{g.Oct(SigIDs...)}, be32(g.Time(0x60000000)))
	} else {
		hm = g.Fill(int(sz))
	}
	a := g.Oct(PubIDs...)
	return cat([]byte{3, sz}, hm, g.KeyID(), []byte{a, g.Oct(HashIDs...)}, g.Left16(), g.SigInts(a))
}

// ---- framing -------------------------------------------------------------------

// Header kinds.
const (
	HNew = iota // new format, minimal length
	HNew2
	HNew5
	HOld1
	HOld2
	HOld4
	HOldIndet // must be last
	HPartial
	NHdr
)

// HdrOK says whether a body of n bytes can be framed that way for a tag.
func HdrOK(kind, tag, n int) bool {
	switch kind {
	case HNew2:
		return n >= 192 && n <= 8383
	case HOld1:
		return tag < 16 && n <= 255
	case HOld2:
		return tag < 16 && n <= 65535
	case HOld4, HOldIndet:
		return tag < 16
	case HPartial:
		return n >= 1
	}
	return true
}

// Pkt frames a body.
func Pkt(kind, tag int, body []byte) []byte {
	n := len(body)
	switch kind {
	case HNew:
		switch {
		case n < 192:
			return cat([]byte{0xc0 | byte(tag), byte(n)}, body)
		case n <= 8383:
			return Pkt(HNew2, tag, body)
		}
		return Pkt(HNew5, tag, body)
	case HNew2:
		x := n - 192
		return cat([]byte{0xc0 | byte(tag), byte(x>>8) + 192, byte(x)}, body)
	case HNew5:
		return cat([]byte{0xc0 | byte(tag), 255}, be32(uint32(n)), body)
	case HOld1:
		return cat([]byte{0x80 | byte(tag)<<2, byte(n)}, body)
	case HOld2:
		return cat([]byte{0x81 | byte(tag)<<2}, be16(n), body)
	case HOld4:
		return cat([]byte{0x82 | byte(tag)<<2}, be32(uint32(n)), body)
	case HOldIndet:
		return cat([]byte{0x83 | byte(tag)<<2}, body)
	case HPartial:
		// one partial chunk as large as possible, then the rest
		k := 0
		for 1<<(k+1) <= n && k < 29 {
			k++
		}
		return Chunks(tag, body, []int{k}, 0)
	}
	panic("header kind")
}

// Chunks frames a body with the given partial-length exponents, then a final
// chunk whose length uses final octets (0 minimal, 2, 5).
func Chunks(tag int, body []byte, exps []int, final int) []byte {
	r := []byte{0xc0 | byte(tag)}
	for _, e := range exps {
		r = append(r, 224+byte(e))
		r = append(r, body[:1<<e]...)
		body = body[1<<e:]
	}
	n := len(body)
	switch {
	case final == 5 || n > 8383:
		r = append(r, 255)
		r = append(r, be32(uint32(n))...)
	case n >= 192:
		x := n - 192
		r = append(r, byte(x>>8)+192, byte(x))
	default:
		r = append(r, byte(n))
	}
	return append(r, body...)
}
