// Package model is an executable reference model of gpgpdump: a decoder of
// OpenPGP byte streams, written from RFC 4880 / 4880bis and the documented
// output format, as a state machine whose transitions are the decoding steps and
// whose state is (position, session-key mode, signature time, key time).
// It imports nothing from the code under test.
package model

import (
	"bytes"
	"compress/bzip2"
	"compress/flate"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"strconv"
	"time"
	"unicode/utf8"
)

// Node is one entry of the listing.
type Node struct {
	Name, Value, Dump, Note string
	Items                   []*Node
	Alt                     string // another note that is as right, if not empty
}

func (n *Node) add(c *Node) *Node {
	n.Items = append(n.Items, c)
	return c
}

// Opts are the options of one run.
type Opts struct {
	Cert, Debug, Int, Literal, Marker, Private, UTC bool
	Zone                                            *time.Location // local zone, when not UTC; nil: the process's
}

func (o Opts) cert() bool    { return o.Cert || o.Debug }
func (o Opts) integer() bool { return o.Int || o.Debug }
func (o Opts) literal() bool { return o.Literal || o.Debug }
func (o Opts) marker() bool  { return o.Marker || o.Debug }
func (o Opts) private() bool { return o.Private || o.Debug }

// session-key modes
const (
	modeNone = iota
	modeSym
	modePub
)

// MaxExpand is the expansion limit of compressed packets.
const MaxExpand = 1 << 30

var errTrunc = errors.New("truncated")

// Machine is the state of one decoding run.
type Machine struct {
	O       Opts
	mode    int
	sigTime *uint32
	keyTime *uint32
	sigUsed *uint32 // the creation times already used for an end date
	keyUsed *uint32
	Steps   int
}

// Decode lists a binary packet stream.  The returned nodes are the packets fully
// decoded before the error, if any.
func Decode(data []byte, o Opts) ([]*Node, int, error) {
	m := &Machine{O: o}
	ns, err := m.stream(data, true)
	return ns, m.Steps, err
}

// ---- framing -------------------------------------------------------------

// Packet is one framed packet.
type Packet struct {
	Tag  int
	Body []byte
}

// NextPacket splits one packet off the stream; done at the end of the stream.
func NextPacket(d []byte) (p Packet, rest []byte, done bool, err error) {
	if len(d) == 0 {
		return p, nil, true, nil
	}
	h := d[0]
	d = d[1:]
	if h&0x80 == 0 {
		return p, nil, false, errors.New("not a packet header")
	}
	if h&0x40 == 0 { // old format
		p.Tag = int(h>>2) & 15
		if h&3 == 3 {
			p.Body = d
			return p, nil, false, nil
		}
		nb := 1 << (h & 3)
		if len(d) < nb {
			return p, nil, false, errTrunc
		}
		l := be(d[:nb])
		d = d[nb:]
		if uint64(len(d)) < l {
			return p, nil, false, errTrunc
		}
		p.Body = d[:l]
		return p, d[l:], false, nil
	}
	p.Tag = int(h & 63)
	var body []byte
	first := true
	for {
		l, partial, r, e := newLength(d)
		if e != nil {
			return p, nil, false, e
		}
		if uint64(len(r)) < l {
			return p, nil, false, errTrunc
		}
		if first && !partial {
			p.Body = r[:l]
			return p, r[l:], false, nil
		}
		first = false
		body = append(body, r[:l]...)
		d = r[l:]
		if !partial {
			p.Body = body
			return p, d, false, nil
		}
	}
}

func newLength(d []byte) (l uint64, partial bool, rest []byte, err error) {
	if len(d) < 1 {
		return 0, false, nil, errTrunc
	}
	b := d[0]
	switch {
	case b < 192:
		return uint64(b), false, d[1:], nil
	case b < 224:
		if len(d) < 2 {
			return 0, false, nil, errTrunc
		}
		return uint64(b-192)<<8 + uint64(d[1]) + 192, false, d[2:], nil
	case b < 255:
		return 1 << (b & 31), true, d[1:], nil
	}
	if len(d) < 5 {
		return 0, false, nil, errTrunc
	}
	return be(d[1:5]), false, d[5:], nil
}

func be(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func (m *Machine) stream(d []byte, expand bool) ([]*Node, error) {
	var out []*Node
	for {
		m.Steps++
		p, rest, done, err := NextPacket(d)
		if err != nil {
			return out, err
		}
		if done {
			return out, nil
		}
		n, err := m.packet(p, expand)
		if err != nil {
			return out, err
		}
		out = append(out, n)
		d = rest
	}
}

// ---- field cursor ----------------------------------------------------------

type cur struct {
	b []byte
	m *Machine
	// err is sticky: once a field is missing nothing more is decoded
	err error
}

func (c *cur) take(n int) []byte {
	c.m.Steps++
	if c.err != nil {
		return nil
	}
	if n < 0 || n > len(c.b) {
		c.err = errTrunc
		return nil
	}
	r := c.b[:n]
	c.b = c.b[n:]
	return r
}

func (c *cur) u8() byte {
	b := c.take(1)
	if c.err != nil {
		return 0
	}
	return b[0]
}

func (c *cur) u16() int    { return int(be(c.take(2))) }
func (c *cur) u32() uint32 { return uint32(be(c.take(4))) }

func hexdump(b []byte) string {
	const digits = "0123456789abcdef"
	if len(b) == 0 {
		return ""
	}
	r := make([]byte, 0, 3*len(b))
	for i, x := range b {
		if i > 0 {
			r = append(r, ' ')
		}
		r = append(r, digits[x>>4], digits[x&15])
	}
	return string(r)
}

func hexIf(b []byte, f bool) string {
	if !f {
		return ""
	}
	return hexdump(b)
}

func nbytes(n int) string { return strconv.Itoa(n) + " bytes" }

// ---- items -----------------------------------------------------------------

func (m *Machine) octet(name, value string, v byte) *Node {
	return &Node{Name: name, Value: value, Dump: hexIf([]byte{v}, m.O.Debug)}
}
func (m *Machine) sym(v byte) *Node {
	return m.octet("Symmetric Algorithm", alg(symNames, v, true, "sym"), v)
}
func (m *Machine) pub(v byte) *Node {
	return m.octet("Public-key Algorithm", alg(pubNames, v, true, "pub"), v)
}
func (m *Machine) hash(v byte) *Node {
	return m.octet("Hash Algorithm", alg(hashNames, v, true, "hash"), v)
}
func (m *Machine) comp(v byte) *Node {
	return m.octet("Compression Algorithm", alg(compNames, v, false, "comp"), v)
}
func (m *Machine) aead(v byte) *Node {
	return m.octet("AEAD Algorithm", alg(aeadNames, v, true, "aead"), v)
}
func (m *Machine) sigType(v byte) *Node {
	n, ok := sigNames[int(v)]
	if !ok {
		n = unknown
	}
	return m.octet("Signiture Type", fmt.Sprintf("%s (0x%s)", n, hexdump([]byte{v})), v)
}

// version item; cur is the current version, draft the draft one (0: none).
func (m *Machine) version(v, current, draft byte) *Node {
	n := m.octet("Version", strconv.Itoa(int(v)), v)
	switch {
	case v < current:
		n.Note = "old"
	case v == current:
		n.Note = "current"
	case draft != 0 && v == draft:
		n.Note = "draft"
	default:
		n.Note = "unknown"
	}
	return n
}

// RFC3339 renders a unix time.
func (o Opts) RFC3339(t int64) string {
	z := o.Zone
	if z == nil {
		z = time.Local
	}
	if o.UTC {
		z = time.UTC
	}
	return time.Unix(t, 0).In(z).Format("2006-01-02T15:04:05Z07:00")
}

func (m *Machine) time(name string, t uint32) *Node {
	return &Node{Name: name, Value: m.O.RFC3339(int64(t)), Dump: hexIf(be4(t), m.O.Debug)}
}

func be4(t uint32) []byte { return []byte{byte(t >> 24), byte(t >> 16), byte(t >> 8), byte(t)} }

func (m *Machine) raw(name string, b []byte, dump bool) *Node {
	return &Node{Name: name, Note: nbytes(len(b)), Dump: hexIf(b, dump)}
}

func keyID(b []byte) string { return fmt.Sprintf("0x%x", b) }

func (m *Machine) text(name string, b []byte, dump bool) *Node {
	if len(b) == 0 {
		return &Node{Name: name, Note: "0 byte"}
	}
	if !utf8.Valid(b) {
		return &Node{Name: name, Note: "invalid text string", Dump: hexdump(b)}
	}
	return &Node{Name: name, Value: Clean(string(b)), Dump: hexIf(b, dump)}
}

// Clean replaces control characters by (U+XXXX).
func Clean(s string) string {
	var r bytes.Buffer
	for _, c := range s {
		if c < 0x20 || (c >= 0x7f && c < 0xa0) {
			fmt.Fprintf(&r, "(U+%04X)", c)
		} else {
			r.WriteRune(c)
		}
	}
	return r.String()
}

func (m *Machine) mpi(c *cur, parent *Node, name string) {
	bits := c.u16()
	b := c.take((bits + 7) / 8)
	if c.err == nil {
		parent.add(&Node{Name: name, Note: strconv.Itoa(bits) + " bits", Dump: hexIf(b, m.O.integer())})
	}
}

// ecPoint is an MPI whose name depends on its first octet.
func (m *Machine) ecPoint(c *cur, parent *Node, algo string) {
	save := *c
	bits := save.u16()
	b := save.take((bits + 7) / 8)
	m.mpi(c, parent, pointName(algo, b))
}

func (m *Machine) oid(c *cur, parent *Node) {
	b := c.take(int(c.u8()))
	if c.err == nil {
		parent.add(&Node{Name: "ECC Curve OID", Value: curveName(b), Dump: hexdump(b)})
	}
}

// ecParam is a length-counted field that may be absent altogether.
func (m *Machine) ecParam(c *cur) []byte {
	if c.err != nil || len(c.b) == 0 {
		return nil
	}
	return c.take(int(c.u8()))
}

func rest(c *cur) []byte { return c.b }

func (m *Machine) unknownRest(c *cur, n *Node) {
	if c.err == nil && len(c.b) > 0 {
		n.add(m.raw("Unknown data", c.b, m.O.Debug))
	}
}

// key algorithm families
const (
	fOther = iota
	fRSA
	fDSA
	fElg
	fECDH
	fECDSA
	fEdDSA
)

func family(v byte) int {
	switch v {
	case 1, 2, 3:
		return fRSA
	case 17:
		return fDSA
	case 16, 20:
		return fElg
	case 18:
		return fECDH
	case 19:
		return fECDSA
	case 22:
		return fEdDSA
	}
	return fOther
}

// ---- packets ---------------------------------------------------------------

func (m *Machine) packet(p Packet, expand bool) (*Node, error) {
	n := &Node{Note: nbytes(len(p.Body))}
	name, ok := tagNames[p.Tag]
	if !ok {
		name = unknown
	}
	n.Name = fmt.Sprintf("%s (tag %d)", name, p.Tag)
	dump := m.O.Debug
	if p.Tag >= 60 {
		dump = m.O.private()
	}
	n.Dump = hexIf(p.Body, dump)
	c := &cur{b: p.Body, m: m}
	switch p.Tag {
	case 1:
		m.pkesk(c, n)
	case 2:
		m.signature(c, n)
	case 3:
		m.skesk(c, n)
	case 4:
		m.onePass(c, n)
	case 5, 7:
		m.secretKey(c, n)
	case 6, 14:
		m.publicKeyPacket(c, n)
	case 8:
		return n, m.compressed(c, n, expand)
	case 9:
		it := n.add(m.raw("Encrypted data", c.b, m.O.Debug))
		it.Value = [...]string{
			"sym alg is IDEA, simple string-to-key",
			"sym alg is specified in sym-key encrypted session key",
			"sym alg is specified in pub-key encrypted session key"}[m.mode]
		m.mode = modeNone
	case 10:
		n.add(m.raw("Literal data", c.b, m.O.marker()))
	case 11:
		m.literal(c, n)
	case 12:
		n.add(m.raw("Trust", c.b, true))
	case 13:
		n.add(m.text("User ID", c.b, m.O.Debug))
	case 17:
		m.subpackets(c.b, n, "Subpacket", 17, c)
	case 18:
		it := n.add(m.raw("Encrypted data", c.b, m.O.Debug))
		if m.mode != modeNone {
			it.Note = [...]string{"",
				"plain text + MDC SHA1(20 bytes); sym alg is specified in sym-key encrypted session key",
				"plain text + MDC SHA1(20 bytes); sym alg is specified in pub-key encrypted session key"}[m.mode]
		}
		m.mode = modeNone
	case 19:
		it := n.add(m.raw("MDC", c.b, m.O.Debug))
		it.Note = "SHA-1 (20 bytes)"
	case 20:
		m.aeadData(c, n)
	}
	return n, c.err
}

func (m *Machine) pkesk(c *cur, n *Node) {
	m.mode = modePub
	n.add(m.version(c.u8(), 3, 0))
	n.add(&Node{Name: "Key ID", Value: keyID(c.take(8))})
	a := c.u8()
	n.add(m.pub(a))
	if c.err != nil {
		return
	}
	opaque := func(s string) { n.add(m.raw("Multi-precision integers of "+s, c.b, m.O.Debug)) }
	const pkcs = "; m = sym alg(1 byte) + checksum(2 bytes) + PKCS#1 block encoding EME-PKCS1-v1_5"
	switch family(a) {
	case fRSA:
		m.mpi(c, n, "RSA m^e mod n"+pkcs)
	case fElg:
		m.mpi(c, n, "ElGamal g^k mod p")
		m.mpi(c, n, "ElGamal m * y^k mod p"+pkcs)
	case fECDH:
		m.ecPoint(c, n, "ECDH")
		b := m.ecParam(c)
		n.add(m.raw("symmetric key (encoded)", b, m.O.integer()))
	case fDSA:
		opaque("DSA")
	case fECDSA:
		opaque("ECDSA")
	case fEdDSA:
		opaque("EdDSA")
	default:
		opaque(fmt.Sprintf("Unknown (pub %d)", a))
	}
	m.unknownRest(c, n)
}

func (m *Machine) sigInts(c *cur, n *Node, a byte) {
	if c.err != nil {
		return
	}
	switch family(a) {
	case fRSA:
		m.mpi(c, n, "RSA signature value m^d mod n")
	case fDSA:
		m.mpi(c, n, "DSA value r")
		m.mpi(c, n, "DSA value s")
	case fElg:
		m.mpi(c, n, "ElGamal a = g^k mod p")
		m.mpi(c, n, "ElGamal b = (h - a*x)/k mod p - 1")
	case fECDSA:
		m.mpi(c, n, "ECDSA value r")
		m.mpi(c, n, "ECDSA value s")
	case fEdDSA:
		m.mpi(c, n, "EC point r")
		m.mpi(c, n, "EdDSA value s in the little endian representation")
	case fECDH:
		n.add(m.raw("Multi-precision integers of ECDH", c.b, m.O.Debug))
	default:
		n.add(m.raw(fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", a), c.b, m.O.Debug))
	}
}

func (m *Machine) signature(c *cur, n *Node) {
	outer, used := m.sigTime, m.sigUsed
	m.sigTime, m.sigUsed = nil, nil // a signature knows only its own creation time
	defer func() { m.sigTime, m.sigUsed = outer, used }()
	v := c.u8()
	n.add(m.version(v, 4, 5))
	if c.err != nil {
		return
	}
	switch v {
	case 3:
		sz := int(c.u8())
		hm := n.add(&Node{Name: "Hashed material", Note: nbytes(sz)})
		if sz == 5 {
			hm.add(m.sigType(c.u8()))
			t := c.u32()
			hm.add(m.time("Signature creation time", t))
		} else {
			hm.Value = unknown
			hm.Dump = hexIf(c.take(sz), m.O.Debug)
		}
		n.add(&Node{Name: "Key ID", Value: keyID(c.take(8))})
		a := c.u8()
		n.add(m.pub(a))
		n.add(m.hash(c.u8()))
		n.add(&Node{Name: "Hash left 2 bytes", Dump: hexdump(c.take(2))})
		m.sigInts(c, n, a)
	case 4, 5:
		n.add(m.sigType(c.u8()))
		a := c.u8()
		n.add(m.pub(a))
		n.add(m.hash(c.u8()))
		for _, name := range []string{"Hashed Subpacket", "Unhashed Subpacket"} {
			b := c.take(c.u16())
			if c.err != nil {
				return
			}
			if len(b) > 0 {
				m.subpackets(b, n, name, 2, c)
			}
			if c.err != nil {
				return
			}
		}
		n.add(&Node{Name: "Hash left 2 bytes", Dump: hexdump(c.take(2))})
		m.sigInts(c, n, a)
	}
	m.unknownRest(c, n)
}

func (m *Machine) s2k(c *cur, n *Node) (hasIV bool) {
	v := c.u8()
	if c.err != nil {
		return true
	}
	it := n.add(m.octet("String-to-Key (S2K) Algorithm", alg(s2kNames, v, true, "s2k"), v))
	switch v {
	case 0, 1, 3:
		it.add(m.hash(c.u8()))
		if v != 0 {
			it.add(&Node{Name: "Salt", Dump: hexdump(c.take(8))})
		}
		if v == 3 {
			x := c.u8()
			it.add(&Node{Name: "Count", Value: strconv.Itoa((16 + int(x&15)) << (x>>4 + 6)), Dump: hexdump([]byte{x})})
		}
	case 101:
		if len(c.b) >= 4 && string(c.b[:3]) == "GNU" {
			c.take(3)
			x := int(c.u8())
			g := it.add(&Node{Name: "GNU-divert-to-card", Value: fmt.Sprintf("Extension Number %d", 1000+x)})
			if x == 2 {
				g.add(&Node{Name: "Serial Number", Dump: hexdump(c.take(int(c.u8())))})
			}
			return false
		}
	}
	return true
}

func (m *Machine) skesk(c *cur, n *Node) {
	m.mode = modeSym
	v := c.u8()
	n.add(m.version(v, 4, 5))
	if c.err == nil && v == 4 {
		n.add(m.sym(c.u8()))
		m.s2k(c, n)
	}
	m.unknownRest(c, n)
}

func (m *Machine) onePass(c *cur, n *Node) {
	n.add(m.version(c.u8(), 3, 0))
	n.add(m.sigType(c.u8()))
	n.add(m.hash(c.u8()))
	n.add(m.pub(c.u8()))
	n.add(&Node{Name: "Key ID", Value: keyID(c.take(8))})
	f := c.u8()
	v := "other than one pass signature"
	if f == 0 {
		v = "another one pass signature"
	}
	n.add(&Node{Name: "Encrypted session key", Value: v, Note: "flag 0x" + hexdump([]byte{f})})
	m.unknownRest(c, n)
}

func (m *Machine) publicKeyPacket(c *cur, n *Node) {
	v := c.u8()
	n.add(m.version(v, 4, 5))
	if c.err == nil {
		m.publicKey(c, n, v)
	}
	m.unknownRest(c, n)
}

func (m *Machine) publicKey(c *cur, n *Node, v byte) (a byte) {
	m.keyTime, m.keyUsed = nil, nil
	if v != 3 && v != 4 && v != 5 {
		return 0
	}
	t := c.u32()
	if c.err == nil {
		m.keyTime = &t
	}
	n.add(m.time("Public key creation time", t))
	if v == 3 {
		n.add(&Node{Name: "Valid days", Value: strconv.Itoa(c.u16()), Note: "0 is forever"})
	}
	a = c.u8()
	n.add(m.pub(a))
	k := c
	if v == 5 {
		k = &cur{b: c.take(int(c.u32())), m: m, err: nil}
	}
	if c.err != nil {
		return a
	}
	switch family(a) {
	case fRSA:
		m.mpi(k, n, "RSA public modulus n")
		m.mpi(k, n, "RSA public encryption exponent e")
	case fDSA:
		m.mpi(k, n, "DSA p")
		m.mpi(k, n, "DSA q (q is a prime divisor of p-1)")
		m.mpi(k, n, "DSA g")
		m.mpi(k, n, "DSA y (= g^x mod p where x is secret)")
	case fElg:
		m.mpi(k, n, "ElGamal prime p")
		m.mpi(k, n, "ElGamal group generator g")
		m.mpi(k, n, "ElGamal public key value y (= g^x mod p where x is secret)")
	case fECDH:
		m.oid(k, n)
		m.ecPoint(k, n, "ECDH")
		b := m.ecParam(k)
		it := n.add(m.raw("KDF parameters", b, m.O.integer()))
		if len(b) > 2 && b[0] == 1 {
			it.add(m.hash(b[1]))
			it.add(m.sym(b[2]))
		} else {
			it.Value = unknown
		}
	case fECDSA:
		m.oid(k, n)
		m.ecPoint(k, n, "ECDSA")
	case fEdDSA:
		m.oid(k, n)
		m.ecPoint(k, n, "EdDSA")
	default:
		n.add(m.raw(fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", a), k.b, m.O.Debug))
	}
	if k.err != nil {
		c.err = k.err
	} else if v == 5 && family(a) != fOther {
		m.unknownRest(k, n)
	}
	return a
}

func (m *Machine) secretKey(c *cur, n *Node) {
	v := c.u8()
	n.add(m.version(v, 4, 5))
	if c.err != nil {
		return
	}
	pub := n.add(&Node{Name: "Public-Key"})
	a := m.publicKey(c, pub, v)
	if c.err != nil {
		return
	}
	sec := n.add(&Node{Name: "Secret-Key"})
	m.secret(c, sec, v, a)
	m.unknownRest(c, n)
}

func (m *Machine) secret(c *cur, sec *Node, v, a byte) {
	usage := c.u8()
	f := c // the optional fields
	if v == 5 {
		f = &cur{b: c.take(int(c.u8())), m: m}
	}
	if c.err != nil {
		return
	}
	if v != 5 || len(f.b) > 0 {
		sym := usage
		if usage >= 253 {
			sym = f.u8()
		}
		if usage != 0 && f.err == nil {
			sec.add(m.sym(sym))
		}
		iv := usage != 0
		if usage == 253 {
			sec.add(m.aead(f.u8()))
		}
		if usage >= 253 {
			iv = m.s2k(f, sec)
		}
		if iv {
			name := "IV"
			if usage == 253 {
				name = "nonce for the AEAD"
			}
			sec.add(&Node{Name: name, Dump: hexdump(f.take(blockSize(sym)))})
		}
		if f.err != nil {
			c.err = f.err
			return
		}
		if v == 5 {
			m.unknownRest(f, sec)
		}
	}
	k := c // the key material
	if v == 5 {
		k = &cur{b: c.take(int(c.u32())), m: m}
		if c.err != nil || len(k.b) == 0 {
			return
		}
	}
	if usage == 0 {
		sec.Note = "s2k usage 0; plain secret-key material"
		switch family(a) {
		case fRSA:
			m.mpi(k, sec, "RSA secret exponent d")
			m.mpi(k, sec, "RSA secret prime value p")
			m.mpi(k, sec, "RSA secret prime value q (p < q)")
			m.mpi(k, sec, "RSA u, the multiplicative inverse of p, mod q")
		case fDSA:
			m.mpi(k, sec, "DSA secret exponent x")
		case fElg:
			m.mpi(k, sec, "ElGamal secret exponent x")
		case fECDH:
			m.mpi(k, sec, "ECDH secret key")
		case fECDSA:
			m.mpi(k, sec, "ECDSA secret key")
		case fEdDSA:
			m.mpi(k, sec, "EdDSA secret key")
		default:
			b := k.take(len(k.b) - 2)
			sec.add(m.raw(fmt.Sprintf("Multi-precision integers of unknown secret key (pub %d)", a), b, m.O.Debug))
		}
		if k.err != nil {
			c.err = k.err
			return
		}
		sec.add(&Node{Name: "2-octet checksum", Dump: hexdump(c.take(2))})
	} else {
		switch usage {
		case 253:
			sec.Note = "s2k usage 253; encrypted secret-key material and AEAD authentication tag"
		case 254:
			sec.Note = "s2k usage 254; encrypted secret-key material and 20-octet SHA-1 hash"
		default:
			sec.Note = fmt.Sprintf("s2k usage %d; encrypted secret-key material and 2-octet checksum", usage)
		}
		name := fmt.Sprintf("Multi-precision integers of unknown encrypted key (pub %d)", a)
		switch family(a) {
		case fRSA:
			name = "RSA encrypted key (d, p, q, u)"
		case fDSA:
			name = "DSA encrypted key"
		case fElg:
			name = "Elgamal encrypted key"
		case fECDH:
			name = "ECDH encrypted key"
		case fECDSA:
			name = "ECDSA encrypted key"
		case fEdDSA:
			name = "EdDSA encrypted key"
		}
		sec.add(m.raw(name, k.b, m.O.Debug))
		k.b = nil
	}
	if v == 5 {
		m.unknownRest(k, sec)
	}
}

func (m *Machine) compressed(c *cur, n *Node, expand bool) error {
	a := c.u8()
	if c.err != nil {
		return c.err
	}
	n.add(m.comp(a))
	if len(c.b) == 0 {
		return nil
	}
	it := n.add(m.raw("Compressed data", c.b, m.O.Debug))
	var r io.Reader
	switch a {
	case 0:
		r = nil
	case 1:
		r = flate.NewReader(bytes.NewReader(c.b))
	case 2:
		z, err := zlib.NewReader(bytes.NewReader(c.b))
		if err != nil {
			return err
		}
		r = z
	case 3:
		r = bzip2.NewReader(bytes.NewReader(c.b))
	default:
		return nil
	}
	data := c.b
	if r != nil {
		var err error
		data, err = io.ReadAll(io.LimitReader(r, MaxExpand))
		if err != nil {
			return err
		}
		if len(data) >= MaxExpand {
			it.Value = "<too laege decompressed data>"
			return nil
		}
	}
	if !expand {
		return nil
	}
	ns, err := m.stream(data, false)
	if err != nil {
		return err
	}
	n.Items = append(n.Items, ns...)
	return nil
}

func (m *Machine) literal(c *cur, n *Node) {
	f := c.u8()
	note := "unknown"
	switch f {
	case 'b':
		note = "binary"
	case 't':
		note = "text"
	case 'u':
		note = "UTF-8 text"
	case 'l', '1':
		note = "local"
	}
	n.add(&Node{Name: "Literal data format", Value: Clean(string(rune(f))), Note: note})
	fn := c.take(int(c.u8()))
	n.add(m.text("File name", fn, m.O.literal()))
	t := c.u32()
	tn := n.add(m.time("Creation time", t))
	if t == 0 {
		tn.Value = "null"
	}
	n.add(m.raw("Literal data", c.b, m.O.literal()))
}

func (m *Machine) aeadData(c *cur, n *Node) {
	defer func() { m.mode = modeNone }()
	n.add(m.version(c.u8(), 1, 0))
	n.add(m.sym(c.u8()))
	a := c.u8()
	n.add(m.aead(a))
	x := c.u8()
	size := unknown
	if x <= 57 {
		size = strconv.FormatUint(1<<(uint(x)+6), 10)
	}
	n.add(&Node{Name: "Chunk size", Value: size, Dump: hexdump([]byte{x})})
	n.add(&Node{Name: "IV", Dump: hexdump(c.take(nonceSize(a)))})
	if c.err == nil && len(c.b) > 0 {
		n.add(m.raw("Encrypted data and authentication tag", c.b, m.O.Debug))
	}
}

// ---- subpackets ------------------------------------------------------------

type sub struct {
	typ  byte
	body []byte
}

func splitSubs(d []byte) ([]sub, error) {
	var out []sub
	for len(d) > 0 {
		var l uint64
		switch b := d[0]; {
		case b < 192:
			l = uint64(b)
			d = d[1:]
		case b < 255:
			if len(d) < 2 {
				return nil, errTrunc
			}
			l = uint64(b-192)<<8 + uint64(d[1]) + 192
			d = d[2:]
		default:
			if len(d) < 5 {
				return nil, errTrunc
			}
			l = be(d[1:5])
			d = d[5:]
		}
		if l == 0 || l > uint64(len(d)) {
			return nil, errTrunc
		}
		out = append(out, sub{d[0], d[1:l]})
		d = d[l:]
	}
	return out, nil
}

func (m *Machine) subpackets(b []byte, n *Node, name string, tag int, outer *cur) {
	area := n.add(m.raw(name, b, m.O.Debug))
	subs, err := splitSubs(b)
	if err != nil {
		outer.err = err
		return
	}
	for _, s := range subs {
		m.Steps++
		it, err := m.subpacket(s, tag)
		if err != nil {
			outer.err = err
			return
		}
		area.add(it)
	}
}

func (m *Machine) flag(n *Node, v byte, text string) {
	if v != 0 {
		n.add(&Node{Name: "Flag", Value: text})
	}
}

func (m *Machine) unknownFlags(n *Node, k int, v byte) {
	m.flag(n, v, fmt.Sprintf("Unknown flag%d(0x%s)", k, hexdump([]byte{v})))
}

func (m *Machine) moreFlags(n *Node, k int, c *cur) {
	for i, f := range c.b {
		m.unknownFlags(n, k+i, f)
	}
	c.b = nil
}

// expiry: gpgpdump shows an end date for the first expiration only; showing it again is as right.
func (m *Machine) expiry(name string, c *cur, start, used *uint32) *Node {
	v := c.u32()
	n := &Node{Name: name, Value: fmt.Sprintf("%v days after", float64(v)/86400), Dump: hexIf(be4(v), m.O.Debug)}
	if start != nil && *start > 0 {
		n.Note = m.O.RFC3339(int64(*start) + int64(v))
	} else if start == nil && used != nil && *used > 0 {
		n.Alt = m.O.RFC3339(int64(*used) + int64(v))
	}
	return n
}

func (m *Machine) subpacket(s sub, tag int) (*Node, error) {
	t := s.typ & 0x7f
	name, ok := subNames[int(t)]
	if !ok {
		name = unknown
	}
	if t >= 100 && t <= 110 {
		name = "Private or experimental"
	}
	if s.typ&0x80 != 0 {
		name += " <critical>"
	}
	name = fmt.Sprintf("%s (sub %d)", name, t)
	n := m.raw(name, s.body, m.O.Debug)
	c := &cur{b: s.body, m: m}
	if tag == 17 {
		if t == 1 {
			m.image(c, n, s.body)
		}
		return n, c.err
	}
	yesno := func(no, yes string) {
		n.Value = yes
		if c.u8() == 0 {
			n.Value = no
		}
	}
	each := func(f func(byte) *Node) {
		for _, v := range c.b {
			m.Steps++
			n.add(f(v))
		}
	}
	switch t {
	case 2:
		v := c.u32()
		if c.err == nil {
			m.sigTime, m.sigUsed = &v, nil
		}
		return m.time(name, v), c.err
	case 3:
		it := m.expiry(name, c, m.sigTime, m.sigUsed)
		if m.sigTime != nil {
			m.sigTime, m.sigUsed = nil, m.sigTime
		}
		return it, c.err
	case 9:
		it := m.expiry(name, c, m.keyTime, m.keyUsed)
		if c.err == nil && m.keyTime != nil {
			m.keyTime, m.keyUsed = nil, m.keyTime
		}
		return it, c.err
	case 4:
		yesno("Not exportable", "Exportable")
		n.Dump = hexdump(c.b)
	case 5:
		n.add(&Node{Name: "Level", Value: strconv.Itoa(int(c.u8()))})
		n.add(&Node{Name: "Trust amount", Value: strconv.Itoa(int(c.u8()))})
	case 6, 24, 26, 28:
		return m.text(name, c.b, m.O.Debug), nil
	case 7:
		yesno("Not revocable", "Revocablee")
	case 11:
		each(m.sym)
	case 12:
		v := c.u8()
		it := n.add(&Node{Name: "Class", Dump: hexdump([]byte{v}), Value: unknown})
		if v&0x80 != 0 {
			it.Value = "Normal"
			if v&0x40 != 0 {
				it.Value = "Sensitive"
			}
		}
		n.add(m.pub(c.u8()))
		n.add(m.raw("Fingerprint", c.b, true))
	case 16:
		return &Node{Name: name, Value: keyID(c.take(8))}, c.err
	case 20:
		f := c.take(4)
		if c.err != nil {
			return n, c.err
		}
		m.flag(n, f[0]&0x80, "Human-readable")
		m.unknownFlags(n, 1, f[0]&0x7f)
		for i := 1; i < 4; i++ {
			m.unknownFlags(n, i+1, f[i])
		}
		nl, vl := c.u16(), c.u16()
		n.add(m.text("Name", c.take(nl), m.O.Debug))
		v := c.take(vl)
		if f[0]&0x80 != 0 {
			n.add(m.text("Value", v, m.O.Debug))
		} else {
			n.add(&Node{Name: "Value", Dump: hexdump(v)})
		}
	case 21:
		each(m.hash)
	case 22:
		each(m.comp)
	case 34:
		each(m.aead)
	case 23:
		v := c.u8()
		m.flag(n, v&0x80, "No-modify")
		m.unknownFlags(n, 1, v&0x7f)
		m.moreFlags(n, 2, c)
	case 25:
		yesno("Not primary", "Primary")
	case 27:
		v := c.u8()
		m.flag(n, v&0x01, "This key may be used to certify other keys.")
		m.flag(n, v&0x02, "This key may be used to sign data.")
		m.flag(n, v&0x04, "This key may be used to encrypt communications.")
		m.flag(n, v&0x08, "This key may be used to encrypt storage.")
		m.flag(n, v&0x10, "The private component of this key may have been split by a secret-sharing mechanism.")
		m.flag(n, v&0x20, "This key may be used for authentication.")
		m.unknownFlags(n, 1, v&0x40)
		m.flag(n, v&0x80, "The private component of this key may be in the possession of more than one person.")
		if len(c.b) > 0 {
			v := c.u8()
			m.flag(n, v&0x04, "This key may be used as an additional decryption subkey (ADSK).")
			m.flag(n, v&0x08, "This key may be used for timestamping.")
			m.unknownFlags(n, 2, v&0xf3)
		}
		m.moreFlags(n, 3, c)
	case 29:
		v := c.u8()
		r, ok := reasonNames[int(v)]
		if !ok {
			r = "Unknown reason"
		}
		if v >= 100 && v <= 110 {
			r = "(Private Use)"
		}
		n.Value = fmt.Sprintf("%s (%d)", r, v)
		if len(c.b) > 0 {
			n.add(m.text("Additional information", c.b, m.O.Debug))
		}
	case 30:
		v := c.u8()
		m.flag(n, v&0x01, "Modification Detection (packets 18 and 19)")
		m.flag(n, v&0x02, "AEAD Encrypted Data Packet (packet 20) and version 5 Symmetric-Key Encrypted Session Key Packets (packet 3)")
		m.flag(n, v&0x04, "Version 5 Public-Key Packet format and corresponding new fingerprint format")
		m.unknownFlags(n, 1, v&0xf8)
		m.moreFlags(n, 2, c)
	case 31:
		n.add(m.pub(c.u8()))
		n.add(m.hash(c.u8()))
		n.add(m.raw("Hash", c.b, true))
	case 32:
		it, err := m.packet(Packet{2, c.b}, false)
		if err != nil {
			return n, err
		}
		n.add(it)
	case 33, 35:
		v := c.u8()
		it := n.add(&Node{Name: "Version", Value: strconv.Itoa(int(v)), Note: unknown})
		switch v {
		case 4:
			it.Note = "need 20 octets length"
		case 5:
			it.Note = "need 32 octets length"
		}
		n.add(m.raw("Fingerprint", c.b, true))
	case 37:
		n.add(m.raw("certification digests", c.b, m.O.cert()))
	case 38:
		v := c.u8()
		n.add(&Node{Name: "Type", Value: strconv.Itoa(int(v))})
		it := n.add(m.raw("Key data", c.b, m.O.Debug))
		if c.err == nil && v == 0 {
			outer, used := m.keyTime, m.keyUsed
			m.keyTime, m.keyUsed = nil, nil // an embedded key block stands alone
			ns, err := m.stream(c.b, false)
			m.keyTime, m.keyUsed = outer, used
			if err != nil {
				return n, err
			}
			it.Items = ns
		}
	}
	return n, c.err
}

func (m *Machine) image(c *cur, n *Node, body []byte) {
	h := c.take(2)
	if c.err != nil {
		return
	}
	hlen := int(h[0]) | int(h[1])<<8 // little-endian for historical reasons (RFC 4880 5.12.1)
	v := c.u8()
	it := n.add(&Node{Name: "Version", Value: strconv.Itoa(int(v))})
	switch {
	case v == 1:
	case v >= 100 && v <= 110:
		it.Note = "private or experimental use"
		e := c.u8()
		en := n.add(&Node{Name: "Encoding", Note: fmt.Sprintf("(enc %d)", e), Value: unknown})
		if e == 1 {
			en.Value = "JPEG"
		}
	default:
		it.Note = unknown
	}
	if hlen > len(body) {
		c.err = errTrunc
		return
	}
	n.add(&Node{Name: "Image data", Note: nbytes(len(body) - hlen)})
}

// Equal compares two listings and describes the first difference.
func Equal(a, b []*Node, path string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%s: %d entries expected, %d found", path, len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		p := fmt.Sprintf("%s/%d", path, i)
		if y == nil {
			return p + ": nil entry"
		}
		if x.Name != y.Name {
			return fmt.Sprintf("%s: name %q expected, %q found", p, x.Name, y.Name)
		}
		if x.Value != y.Value {
			return fmt.Sprintf("%s (%s): value %q expected, %q found", p, x.Name, x.Value, y.Value)
		}
		if x.Note != y.Note && (x.Alt == "" || x.Alt != y.Note) {
			return fmt.Sprintf("%s (%s): note %q expected, %q found", p, x.Name, x.Note, y.Note)
		}
		if x.Dump != y.Dump {
			return fmt.Sprintf("%s (%s): dump %q expected, %q found", p, x.Name, clip(x.Dump), clip(y.Dump))
		}
		if d := Equal(x.Items, y.Items, p); d != "" {
			return d
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("… (%d)", len(s))
	}
	return s
}
