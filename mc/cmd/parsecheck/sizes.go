package main

import (
	"fmt"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/model"
)

// bigSizes: every power of two from 2^7 to 2^top with both neighbours, and a few sizes whose low octets are zero or small.
func bigSizes(top int) []int {
	var s []int
	for k := 7; k <= top; k++ {
		s = append(s, 1<<k-1, 1<<k, 1<<k+1)
	}
	s = append(s, 0x10203, 0x20000+7, 0x1fe01, 0x30000)
	for d := 1000; d < 1<<top; d *= 10 {
		s = append(s, d-1, d, d+1)
	}
	return s
}

func fill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + 3)
	}
	return b
}

type sized struct {
	name string
	tag  int
	max  int // largest payload the fields can express (0: none)
	body func(n int) []byte
}

func n32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func j(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

// sizeSpace: every large size of each variable part, complete and one byte short, followed by a witness packet.
func sizeSpace(x *check.Ctx, vs []sized) {
	top := x.Bound(20, 24)
	sizes := bigSizes(top)
	check.Space(x, "large", check.Opt{Desc: fmt.Sprintf("every variable-size part at every power of two up to 2^%d and its neighbours, in every header kind able to carry it, complete and one byte short", top)}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		n := explore.PickFree(c, sizes)
		if v.max > 0 && n > v.max {
			return Case{}, false
		}
		kind := explore.PickFree(c, []int{gen.HNew, gen.HNew5, gen.HPartial, gen.HOld4})
		short := c.Free(2)
		b := v.body(n)
		if short == 1 {
			b = b[:len(b)-1]
		}
		if !gen.HdrOK(kind, v.tag, len(b)) {
			return Case{}, false
		}
		return Case{Data: append(gen.Pkt(kind, v.tag, b), uidZ...), O: model.Opts{UTC: true, Debug: n < 200}}, true
	}, compare, show)
}

var pub4 = []byte{4, 0x5f, 0x5e, 0x10, 0x01, 1, 0, 9, 1, 2, 0, 3, 4}
var pub5 = []byte{5, 0x5f, 0x5e, 0x10, 0x01, 1, 0, 0, 0, 7, 0, 9, 1, 2, 0, 3, 4}

// sizedSig, sizedPub, ...: the variable-size parts of each kind of packet.
func sizedSig() []sized {
	v3 := []byte{3, 5, 0, 1, 2, 3, 4, 1, 2, 3, 4, 5, 6, 7, 8, 1, 8, 0xaa, 0xbb, 0, 9, 1, 2}
	v4 := []byte{4, 0, 1, 8, 0, 0, 0, 0, 0xaa, 0xbb, 0, 9, 1, 2}
	return []sized{
		{"v3 trailing", 2, 0, func(n int) []byte { return j(v3, fill(n)) }},
		{"v4 trailing", 2, 0, func(n int) []byte { return j(v4, fill(n)) }},
		{"v5 trailing", 2, 0, func(n int) []byte { return j([]byte{5}, v4[1:], fill(n)) }},
		{"v2 opaque", 2, 0, func(n int) []byte { return j([]byte{2}, fill(n)) }},
		{"v6 opaque", 2, 0, func(n int) []byte { return j([]byte{6}, fill(n)) }},
		{"unknown algorithm", 2, 0, func(n int) []byte { return j([]byte{4, 0, 99, 8, 0, 0, 0, 0, 0xaa, 0xbb}, fill(n)) }},
		{"encryption-only algorithm", 2, 0, func(n int) []byte { return j([]byte{4, 0, 18, 8, 0, 0, 0, 0, 0xaa, 0xbb}, fill(n)) }},
	}
}

func sizedPub() []sized {
	var vs []sized
	for _, t := range []int{6, 14} {
		vs = append(vs,
			sized{"v5 unknown algorithm", t, 0, func(n int) []byte {
				return j([]byte{5, 1, 2, 3, 4, 99}, n32(n), fill(n), []byte{9})
			}},
			sized{"v5 surplus in the counted material", t, 0, func(n int) []byte {
				return j([]byte{5, 1, 2, 3, 4, 1}, n32(n+7), []byte{0, 9, 1, 2, 0, 3, 4}, fill(n), []byte{9})
			}},
			sized{"v5 trailing", t, 0, func(n int) []byte { return j(pub5, fill(n)) }},
			sized{"v4 trailing", t, 0, func(n int) []byte { return j(pub4, fill(n)) }},
			sized{"v4 unknown algorithm", t, 0, func(n int) []byte { return j([]byte{4, 1, 2, 3, 4, 99}, fill(n)) }},
			sized{"v3 unknown algorithm", t, 0, func(n int) []byte { return j([]byte{3, 1, 2, 3, 4, 0, 7, 99}, fill(n)) }},
			sized{"v2 opaque", t, 0, func(n int) []byte { return j([]byte{2}, fill(n)) }},
			sized{"v6 opaque", t, 0, func(n int) []byte { return j([]byte{6}, fill(n)) }},
			sized{"v5 four integers", t, 65535, func(n int) []byte {
				m := j([]byte{byte(n >> 8), byte(n)}, fill((n+7)/8))
				return j([]byte{5, 1, 2, 3, 4, 17}, n32(4*len(m)), m, m, m, m)
			}})
	}
	return vs
}

func sizedSec() []sized {
	var vs []sized
	for _, t := range []int{5, 7} {
		for _, u := range []byte{255, 254, 253} {
			opt := []byte{9, 3, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0x60}
			if u == 253 {
				opt = append([]byte{9, 2}, opt[1:]...)
			}
			iv := fill(16)
			opt = append(opt, iv...)
			u := u
			vs = append(vs,
				sized{"v4 encrypted", t, 0, func(n int) []byte { return j(pub4, []byte{u}, opt, fill(n)) }},
				sized{"v5 encrypted", t, 0, func(n int) []byte {
					return j(pub5, []byte{u, byte(len(opt))}, opt, n32(n), fill(n), []byte{7, 7, 7})
				}},
				sized{"v5 optional fields", t, 255, func(n int) []byte {
					o := opt
					if n > len(o) {
						o = j(o, fill(n-len(o)))
					}
					return j(pub5, []byte{u, byte(len(o))}, o, n32(5), fill(5))
				}})
		}
		vs = append(vs,
			sized{"v5 plain material, surplus", t, 0, func(n int) []byte {
				m := j([]byte{0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 1, 1}, fill(n))
				return j(pub5, []byte{0, 0}, n32(len(m)), m, []byte{0x12, 0x34})
			}},
			sized{"v5 unknown algorithm", t, 0, func(n int) []byte {
				return j([]byte{5, 1, 2, 3, 4, 99}, n32(3), fill(3), []byte{0, 0}, n32(n), fill(n), []byte{0x12, 0x34})
			}},
			sized{"v4 plain trailing", t, 0, func(n int) []byte {
				return j(pub4, []byte{0, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0x12, 0x34}, fill(n))
			}},
			sized{"v4 usage 9", t, 0, func(n int) []byte { return j(pub4, []byte{9}, fill(16+n)) }},
			sized{"card serial number", t, 255, func(n int) []byte {
				return j(pub4, []byte{255, 9, 101, 8, 'G', 'N', 'U', 2, byte(n)}, fill(n))
			}},
			sized{"card serial number, no hash", t, 255, func(n int) []byte {
				return j(pub4, []byte{255, 9, 101, 'G', 'N', 'U', 2, byte(n)}, fill(n))
			}})
	}
	return vs
}

func sizedSes() []sized {
	pk := []byte{3, 1, 2, 3, 4, 5, 6, 7, 8}
	return []sized{
		{"pk trailing", 1, 0, func(n int) []byte { return j(pk, []byte{1, 0, 9, 1, 2}, fill(n)) }},
		{"pk unknown algorithm", 1, 0, func(n int) []byte { return j(pk, []byte{99}, fill(n)) }},
		{"pk signing-only algorithm", 1, 0, func(n int) []byte { return j(pk, []byte{17}, fill(n)) }},
		{"pk ecdh field", 1, 255, func(n int) []byte { return j(pk, []byte{18, 0, 9, 0x40, 1, byte(n)}, fill(n), []byte{1}) }},
		{"pk two integers", 1, 65535, func(n int) []byte {
			m := j([]byte{byte(n >> 8), byte(n)}, fill((n+7)/8))
			return j(pk, []byte{16}, m, m)
		}},
		{"sym trailing", 3, 0, func(n int) []byte { return j([]byte{4, 9, 0, 8}, fill(n)) }},
		{"sym v5 opaque", 3, 0, func(n int) []byte { return j([]byte{5}, fill(n)) }},
		{"sym v9 opaque", 3, 0, func(n int) []byte { return j([]byte{9}, fill(n)) }},
		{"one-pass trailing", 4, 0, func(n int) []byte { return j([]byte{3, 0, 8, 1, 1, 2, 3, 4, 5, 6, 7, 8, 1}, fill(n)) }},
	}
}

func sizedData() []sized {
	vs := []sized{
		{"literal", 11, 0, func(n int) []byte { return j([]byte{'b', 1, 'x', 1, 2, 3, 4}, fill(n)) }},
		{"aead", 20, 0, func(n int) []byte { return j([]byte{1, 9, 2, 16}, fill(15+n)) }},
		{"image", 17, 0, func(n int) []byte {
			b := j([]byte{16, 0, 1, 1}, make([]byte, 12), fill(n))
			return gen.SubHdr(5, len(b)+1, 1, b)
		}},
		{"image header", 17, 65535, func(n int) []byte {
			b := j([]byte{byte(n), byte(n >> 8), 1, 1}, fill(n))
			return gen.SubHdr(5, len(b)+1, 1, b)
		}},
		{"private attribute", 17, 0, func(n int) []byte { return gen.SubHdr(5, n+1, 100, fill(n)) }},
		{"user ID", 13, 0, func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('a' + i%26)
			}
			return b
		}},
	}
	for _, t := range []int{9, 10, 12, 18, 19, 0, 15, 40, 60, 63} {
		vs = append(vs, sized{"opaque", t, 0, fill})
	}
	return vs
}
