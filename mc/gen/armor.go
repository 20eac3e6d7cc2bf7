package gen

import (
	"bytes"
	"encoding/base64"
)

// CRC24 is the armor checksum.
func CRC24(d []byte) uint32 {
	c := uint32(0xb704ce)
	for _, b := range d {
		c ^= uint32(b) << 16
		for i := 0; i < 8; i++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return c & 0xffffff
}

// ArmorOpt describes one armored form.
type ArmorOpt struct {
	Type    string
	Headers []string
	Line    int
	EOL     string
	NoSum   bool
	// white space after the begin line, on the blank line, after the end line
	Begin, Blank, Finish string
}

// Armor returns the armored form of data; the offsets of the first base64
// character, of the checksum line and of the end line are returned too.
func Armor(d []byte, o ArmorOpt) (out []byte, body, sum, end int) {
	if o.Type == "" {
		o.Type = "MESSAGE"
	}
	if o.Line == 0 {
		o.Line = 64
	}
	if o.EOL == "" {
		o.EOL = "\n"
	}
	var b bytes.Buffer
	b.WriteString("-----BEGIN PGP " + o.Type + "-----" + o.Begin + o.EOL)
	for _, h := range o.Headers {
		b.WriteString(h + o.EOL)
	}
	b.WriteString(o.Blank + o.EOL)
	body = b.Len()
	e := base64.StdEncoding.EncodeToString(d)
	for len(e) > 0 {
		n := o.Line
		if n > len(e) {
			n = len(e)
		}
		b.WriteString(e[:n] + o.EOL)
		e = e[n:]
	}
	sum = b.Len()
	if !o.NoSum {
		c := CRC24(d)
		b.WriteString("=" + base64.StdEncoding.EncodeToString([]byte{byte(c >> 16), byte(c >> 8), byte(c)}) + o.EOL)
	}
	end = b.Len()
	b.WriteString("-----END PGP " + o.Type + "-----" + o.Finish + o.EOL)
	return b.Bytes(), body, sum, end
}
