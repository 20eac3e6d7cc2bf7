package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// memMu: the allocation counter is of the process, so nothing else may allocate in bulk while it is read.
var memMu sync.Mutex

// locked generates under memMu.
func locked(f func(*explore.Chooser) (Case, bool)) func(*explore.Chooser) (Case, bool) {
	return func(c *explore.Chooser) (Case, bool) {
		memMu.Lock()
		defer memMu.Unlock()
		return f(c)
	}
}

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// The bounds are about eight times what the code of the unchanged tree needs (DESIGN.md, C30).
const (
	memBase  = 1 << 20 // for any input
	memOctet = 5000    // per octet of small structures (packets, subpackets)
	memPlain = 1000    // per octet of long contents, which may be shown in hexadecimal
	memZip   = 48 << 20
	memPrint = 64 // per octet printed
)

var memTrace = os.Getenv("GPGPMC_MEM") != ""

type memBound struct{ base, octet uint64 }

// memShare: the share of the bound that was used, as a power of two.
func memShare(used, limit uint64) int {
	k := 1
	for used > 0 && used*2 <= limit && k < 1<<20 {
		used *= 2
		k *= 2
	}
	return k
}

func listDepth(items []*result.Item) int {
	m := 0
	for _, it := range items {
		if it != nil {
			if d := 1 + listDepth(it.Items); d > m {
				m = d
			}
		}
	}
	return m
}

// memory: what parsing allocates stays below base + octet * len(input), and what printing allocates in proportion to what is printed.
func memory(b memBound, armor bool) func(*explore.Env, Case) *explore.Violation {
	return func(e *explore.Env, c Case) *explore.Violation {
		memMu.Lock()
		defer memMu.Unlock()
		cxt := impl.Context(c.O)
		if armor {
			cxt = impl.ArmorContext(c.O)
		}
		var res impl.Result
		used := allocated(func() {
			res.Panic = impl.Guard(func() {
				p, err := parse.New(cxt, bytes.NewReader(c.Data))
				if err != nil {
					res.Err = err
					return
				}
				res.Info, res.Err = p.Parse()
			})
		})
		if res.Panic != "" {
			return viol(c, "panic: %s", res.Panic)
		}
		e.Steps(1)
		// what is nested may be shown at every level
		level := 0
		if res.Info != nil {
			level = listDepth(res.Info.Packets)
		}
		limit := b.base + b.octet*uint64(len(c.Data))*uint64(1+level/4)
		if memTrace {
			fmt.Printf("MEM %s parse %d len %d ratio %.1f of limit %.3f\n", c.Note, used, len(c.Data), float64(used)/float64(len(c.Data)+64), float64(used)/float64(limit))
		}
		e.Outcome(fmt.Sprintf("error %v, depth %d, 1/%d of the bound", res.Err != nil, level, memShare(used, limit)))
		if used > limit {
			return viol(c, "parsing %d bytes of data allocated %d bytes of memory (at most %d expected)", len(c.Data), used, limit)
		}
		if res.Info == nil {
			return nil
		}
		for k, f := range []func() io.Reader{
			func() io.Reader { return res.Info.ToString("\t") },
			func() io.Reader { r, _ := res.Info.JSON(2); return r },
		} {
			var n int64
			used := allocated(func() {
				res.Panic = impl.Guard(func() {
					if r := f(); r != nil {
						n, _ = io.Copy(io.Discard, r)
					}
				})
			})
			if res.Panic != "" {
				return viol(c, "panic: %s", res.Panic)
			}
			e.Steps(1)
			if memTrace {
				fmt.Printf("MEM %s print%d %d len %d ratio %.1f\n", c.Note, k, used, n, float64(used)/float64(n+64))
			}
			if limit := uint64(memBase) + memPrint*uint64(n); used > limit {
				return viol(c, "printing a listing of %d bytes allocated %d bytes of memory (at most %d expected)", n, used, limit)
			}
		}
		return nil
	}
}

// c30: memory in proportion to the data that is there.
func c30(x *check.Ctx) {
	small := memBound{memBase, memOctet}
	lens := []uint32{1 << 16, 1 << 20, 1<<24 - 1, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	check.Space(x, "declared-packets", check.Opt{Workers: 1, Desc: "every tag, in every header able to declare a length of 2^16 to 2^32-1 (also as the last part of a partial body and inside compressed data), with next to no data"}, locked(func(c *explore.Chooser) (Case, bool) {
		tag := c.Free(64)
		n := explore.PickFree(c, lens)
		var h []byte
		switch c.Free(4) {
		case 0:
			h = append([]byte{0xc0 | byte(tag), 255}, n32(int(n))...)
		case 1:
			if tag > 15 {
				return Case{}, false
			}
			h = append([]byte{0x80 | byte(tag)<<2 | 2}, n32(int(n))...)
		case 2:
			if n&(n-1) != 0 || n > 1<<30 {
				return Case{}, false
			}
			e := 0
			for 1<<e < n {
				e++
			}
			h = []byte{0xc0 | byte(tag), 224 + byte(e)}
		case 3:
			h = append([]byte{0xc0 | byte(tag), 224, 7, 255}, n32(int(n))...)
		}
		b := baseBody(tag)
		switch c.Free(3) {
		case 1:
			b = nil
		case 2:
			b = append(b, fill(600)...)
		}
		d := append(h, b...)
		o := explore.PickFree(c, optsSmall[:2])
		if c.Free(2) == 1 {
			return Case{Data: comp(1, d), O: o, Note: "declared-zip"}, true
		}
		return Case{Data: d, O: o, Note: "declared"}, true
	}), memory(small, false), show)

	vs := totalSamples()
	big := [][]byte{{0xff}, {0xff, 0xff}, {0x7f, 0xff}, {0x80, 0}, {0xff, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0, 0xff, 0xff, 0xff}, {0x0f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0x7f, 0xff, 0xff, 0xff}, {0xff, 0x10, 0, 0, 0}}
	check.Space(x, "declared-fields", check.Opt{Workers: 1, Desc: "every sample packet with the one to five octets at every position replaced by large counts"}, locked(func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		if len(v.body) == 0 {
			return Case{}, false
		}
		i := c.Free(len(v.body))
		w := explore.PickFree(c, big)
		if i+len(w) > len(v.body) || i > x.Bound(64, 1<<20) {
			return Case{}, false
		}
		b := append([]byte{}, v.body...)
		copy(b[i:], w)
		return Case{Data: gen.Pkt(gen.HNew, v.tag, b), O: model.Opts{Debug: c.Free(2) == 1}, Note: "fields"}, true
	}), memory(small, false), show)

	// growth: each kind of data at every power of two
	top := x.Bound(18, 22)
	kinds := append(append(append(append(sizedSig(), sizedPub()...), sizedSec()...), sizedSes()...), sizedData()...)
	check.Space(x, "growth-payload", check.Opt{Workers: 1, Desc: fmt.Sprintf("every variable-size part at every power of two up to 2^%d, complete and cut to a half, with and without dumps", top)}, locked(func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, kinds)
		n := 1 << (8 + c.Free(top-7))
		if v.max > 0 && n > v.max {
			return Case{}, false
		}
		b := v.body(n)
		kind := explore.PickFree(c, []int{gen.HNew5, gen.HPartial})
		if !gen.HdrOK(kind, v.tag, len(b)) {
			return Case{}, false
		}
		d := gen.Pkt(kind, v.tag, b)
		if c.Free(2) == 1 {
			d = d[:len(d)/2]
		}
		o := model.Opts{}
		if c.Free(2) == 1 {
			o = optSet(127)
		}
		return Case{Data: d, O: o, Note: "payload"}, true
	}), memory(memBound{memBase, memPlain}, false), show)

	mtop := x.Bound(15, 18)
	var one [][]byte
	for _, t := range []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 17, 18, 19, 20, 40, 60} {
		one = append(one, gen.Pkt(gen.HNew, t, baseBody(t)), gen.Pkt(gen.HNew, t, nil), gen.Pkt(gen.HNew, t, []byte{4}))
	}
	check.Space(x, "growth-packets", check.Opt{Workers: 1, Desc: fmt.Sprintf("every kind of packet, also empty and cut, repeated to every power of two up to 2^%d octets, with and without dumps", mtop)}, locked(func(c *explore.Chooser) (Case, bool) {
		p := explore.PickFree(c, one)
		n := 1 << (6 + c.Free(mtop-5))
		o := model.Opts{}
		if c.Free(2) == 1 {
			o = optSet(127)
		}
		return Case{Data: bytes.Repeat(p, 1+n/len(p)), O: o, Note: "packets"}, true
	}), memory(small, false), show)

	g0 := gen.New(explore.Default(), gen.Tiny)
	check.Space(x, "growth-subpackets", check.Opt{Workers: 1, Desc: "every subpacket type, complete, empty and cut, repeated to every second (thorough: every) power of two an area holds; every list subpacket with as many entries"}, locked(func(c *explore.Chooser) (Case, bool) {
		t := byte(c.Free(128))
		body := g0.SubBody(t, 0)
		n := 1 << (15 - 2*c.Free(6))
		if x.Thorough() {
			n >>= c.Free(2)
		}
		var a []byte
		switch c.Free(4) {
		case 0:
			a = bytes.Repeat(gen.SubHdr(0, len(body)+1, t, body), 1+n/(len(body)+2))
		case 1:
			a = bytes.Repeat(gen.SubHdr(0, 1, t, nil), 1+n/2)
		case 2:
			if len(body) == 0 {
				return Case{}, false
			}
			a = bytes.Repeat(gen.SubHdr(0, len(body), t, body[:len(body)-1]), 1+n/(len(body)+1))
		case 3:
			a = gen.SubHdr(5, n+1, t, bytes.Repeat([]byte{1}, n))
		}
		if len(a) > 65000 {
			return Case{}, false
		}
		o := model.Opts{}
		if c.Free(2) == 1 {
			o = optSet(127)
		}
		return Case{Data: gen.Pkt(gen.HNew, 2, g0.SigWith(4, [][]byte{a}, nil)), O: o, Note: "subs"}, true
	}), memory(small, false), show)

	check.Space(x, "growth-attributes", check.Opt{Workers: 1, Desc: fmt.Sprintf("user attributes with every kind of subpacket repeated to every power of two up to 2^%d octets", mtop)}, locked(func(c *explore.Chooser) (Case, bool) {
		t := explore.PickFree(c, []byte{0, 1, 2, 99, 100, 110, 111})
		body := explore.PickFree(c, [][]byte{nil, {1}, g0.ImageSub()})
		s := gen.SubHdr(0, len(body)+1, t, body)
		n := 1 << (6 + c.Free(mtop-5))
		o := model.Opts{}
		if c.Free(2) == 1 {
			o = optSet(127)
		}
		return Case{Data: gen.Pkt(gen.HNew5, 17, bytes.Repeat(s, 1+n/len(s))), O: o, Note: "attrs"}, true
	}), memory(small, false), show)

	check.Space(x, "growth-nesting", check.Opt{Workers: 1, Desc: "signatures and key blocks nested in each other to every depth an area holds"}, locked(func(c *explore.Chooser) (Case, bool) {
		d := 1 + c.Free(x.Bound(40, 200))
		kind := c.Free(2)
		sig := g0.SigWith(4, nil, nil)
		for i := 0; i < d; i++ {
			b := sig
			t := byte(32)
			if kind == 1 {
				b = append([]byte{0}, gen.Pkt(gen.HNew, 2, sig)...)
				t = 38
			}
			sig = g0.SigWith(4, [][]byte{gen.SubHdr(5, len(b)+1, t, b)}, nil)
			if len(sig) > 60000 {
				return Case{}, false
			}
		}
		o := model.Opts{}
		if c.Free(2) == 1 {
			o = optSet(127)
		}
		return Case{Data: gen.Pkt(gen.HNew, 2, sig), O: o, Note: "nesting"}, true
	}), memory(small, false), show)

	check.Space(x, "compressed", check.Opt{Workers: 1, Desc: "compressed data of every algorithm, expanding to every power of two up to 2^16 octets, complete, cut and with garbage, once and packed twice"}, locked(func(c *explore.Chooser) (Case, bool) {
		a := byte(c.Free(5))
		n := 1 << c.Free(17)
		in := gen.Pkt(gen.HNew5, 13, bytes.Repeat([]byte("a"), n))
		d := comp(a, in)
		switch c.Free(4) {
		case 1:
			d = comp(a, d)
		case 2:
			d = gen.Pkt(gen.HNew, 8, append([]byte{a}, fill(n)...))
		case 3:
			d = d[:len(d)/2]
		}
		return Case{Data: d, O: model.Opts{}, Note: fmt.Sprint("zip", a)}, true
	}), memory(memBound{memZip, memOctet}, false), show)

	check.Space(x, "armor", check.Opt{Workers: 1, Desc: "armored data and plain text of every power of two up to 2^20 octets, in one line or many, complete or not, in both modes"}, locked(func(c *explore.Chooser) (Case, bool) {
		n := 1 << (6 + c.Free(15))
		var t string
		switch c.Free(4) {
		case 0:
			a, _, _, _ := gen.Armor(gen.Pkt(gen.HNew5, 13, bytes.Repeat([]byte("a"), n)), gen.ArmorOpt{Line: 64})
			t = string(a)
		case 1:
			a, _, _, _ := gen.Armor(uidA, gen.ArmorOpt{Line: 64})
			t = strings.Repeat("text\n", n/5) + string(a)
		case 2:
			a, _, _, _ := gen.Armor(uidA, gen.ArmorOpt{Line: 64})
			t = strings.Repeat("t", n) + "\n" + string(a)
		case 3:
			t = "-----BEGIN PGP MESSAGE-----\n\n" + strings.Repeat("aaaa\n", n/5)
		}
		return Case{Data: []byte(t), Note: "armor"}, true
	}), memory(memBound{memBase, memPlain}, true), show)
}
