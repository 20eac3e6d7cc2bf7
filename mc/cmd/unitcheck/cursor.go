package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/impl"

	"github.com/spiegel-im-spiegel/gpgpdump/ecode"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
)

// op is one operation on the cursor.
type op struct {
	kind string
	n    int64
	w    int
}

func (o op) String() string { return fmt.Sprintf("%s(%d,%d)", o.kind, o.n, o.w) }

// mcur is the model: bytes and a position.
type mcur struct {
	b   []byte
	pos int64
}

type failWriter struct {
	n   int
	out []byte
}

var errSink = errors.New("sink full")

func (f *failWriter) Write(p []byte) (int, error) {
	k := f.n - len(f.out)
	if k >= len(p) {
		f.out = append(f.out, p...)
		return len(p), nil
	}
	f.out = append(f.out, p[:k]...)
	return k, errSink
}

func (m *mcur) read(n int64) ([]byte, error) {
	if n == 0 {
		return nil, nil
	}
	rest := int64(len(m.b)) - m.pos
	if rest == 0 {
		return nil, io.EOF
	}
	if n > rest {
		return nil, io.ErrUnexpectedEOF
	}
	r := m.b[m.pos : m.pos+n]
	m.pos += n
	return r, nil
}

func (m *mcur) seek(off int64, whence int) (int64, error) {
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = m.pos
	case io.SeekEnd:
		base = int64(len(m.b))
	default:
		return 0, ecode.ErrInvalidWhence
	}
	to := base + off
	if to < 0 || to > int64(len(m.b)) || off > 0 && to < base {
		return 0, ecode.ErrInvalidOffset
	}
	m.pos = to
	return to, nil
}

func plainHex(b []byte) string {
	var s []string
	for _, x := range b {
		s = append(s, hex.EncodeToString([]byte{x}))
	}
	return strings.Join(s, " ")
}

type curCase struct {
	size int
	ops  []op
}

func showCur(c curCase) map[string]any {
	return map[string]any{"buffer_size": c.size, "operations": fmt.Sprint(c.ops)}
}

func content(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + 0x1f)
	}
	return b
}

func same(want, got error) bool {
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	if !errors.Is(got, want) {
		return false
	}
	// end of file and unexpected end of file must not be confused
	return errors.Is(want, io.EOF) == errors.Is(got, io.EOF)
}

func checkCur(e *explore.Env, c curCase) (v *explore.Violation) {
	bad := func(format string, a ...any) *explore.Violation {
		return &explore.Violation{What: fmt.Sprintf(format, a...), Detail: showCur(c)}
	}
	m := &mcur{b: content(c.size)}
	buf := content(c.size)
	r := reader.New(buf)
	p := impl.Guard(func() {
		for i, o := range c.ops {
			e.Steps(1)
			var want, got []byte
			var we, ge error
			switch o.kind {
			case "read":
				want, we = m.read(o.n)
				q := make([]byte, o.n)
				n, err := r.Read(q)
				if n < 0 || n > len(q) {
					v = bad("operation %d %v returns the count %d for %d bytes", i, o, n, len(q))
					return
				}
				got, ge = q[:n], err
			case "readAt":
				if _, we = m.seek(o.n, io.SeekStart); we == nil {
					want, we = m.read(int64(o.w))
				}
				q := make([]byte, o.w)
				n, err := r.ReadAt(q, o.n)
				if n < 0 || n > len(q) {
					v = bad("operation %d %v returns the count %d for %d bytes", i, o, n, len(q))
					return
				}
				got, ge = q[:n], err
			case "readByte":
				want, we = m.read(1)
				x, err := r.ReadByte()
				ge = err
				if err == nil {
					got = []byte{x}
				}
			case "readBytes":
				want, we = m.read(o.n)
				got, ge = r.ReadBytes(o.n)
				if we != nil && len(got) > 0 {
					v = bad("operation %d %v returns %d bytes together with an error", i, o, len(got))
					return
				}
			case "read2EOF":
				rest := int64(len(m.b)) - m.pos
				if rest == 0 {
					we = io.EOF
				} else {
					want, we = m.read(rest)
				}
				got, ge = r.Read2EOF()
			case "seek":
				var wo int64
				wo, we = m.seek(o.n, o.w)
				off, err := r.Seek(o.n, o.w)
				ge = err
				if we == nil && err == nil && wo != off {
					v = bad("operation %d %v returns offset %d, expected %d", i, o, off, wo)
					return
				}
			case "writeTo":
				w := &failWriter{n: int(o.n)}
				n, err := r.WriteTo(w)
				ge = err
				want = m.b
				if o.n < int64(len(m.b)) {
					we = errSink
					want = m.b[:o.n]
				} else {
					m.pos = int64(len(m.b))
				}
				got = w.out
				if n != int64(len(w.out)) {
					v = bad("operation %d %v reports %d bytes, %d were written", i, o, n, len(w.out))
					return
				}
				if !same(we, ge) {
					v = bad("operation %d %v: error %v, expected %v", i, o, ge, we)
					return
				}
				if !bytes.Equal(want, got) {
					v = bad("operation %d %v wrote %d bytes %.100x, expected %d bytes %.100x", i, o, len(got), got, len(want), want)
					return
				}
				we, ge, want, got = nil, nil, nil, nil
			case "dump":
				var ws string
				if o.n < int64(len(m.b)) {
					ws = plainHex(m.b[o.n:])
				}
				if gs := r.DumpString(o.n); gs != ws {
					v = bad("operation %d %v shows %d bytes %.200q, expected %d bytes %.200q", i, o, len(gs), gs, len(ws), ws)
					return
				}
			case "body":
				want, got = m.b, r.GetBody()
			}
			if !same(we, ge) {
				v = bad("operation %d %v: error %v, expected %v", i, o, ge, we)
				return
			}
			if (o.kind == "read" || o.kind == "readAt" || o.kind == "read2EOF") && we != nil && len(got) > 0 {
				v = bad("operation %d %v returns %d bytes together with an error", i, o, len(got))
				return
			}
			if we == nil && !bytes.Equal(want, got) {
				v = bad("operation %d %v returns %d bytes %.100x, expected %d bytes %.100x", i, o, len(got), got, len(want), want)
				return
			}
			if rest := int64(len(m.b)) - m.pos; r.Rest() != rest {
				v = bad("after operation %d %v the remaining size is %d, expected %d", i, o, r.Rest(), rest)
				return
			}
			if r.Len() != len(m.b) || r.Size() != int64(len(m.b)) || !bytes.Equal(r.GetBody(), m.b) {
				v = bad("after operation %d %v the buffer has changed", i, o)
				return
			}
			// the position as a seek reports it
			if off, err := r.Seek(0, io.SeekCurrent); err != nil || off != m.pos {
				v = bad("after operation %d %v the position is %d (%v), expected %d", i, o, off, err, m.pos)
				return
			}
			if we != nil {
				e.Outcome(o.kind + " " + we.Error())
			} else {
				e.Outcome(o.kind)
			}
		}
	})
	if p != "" {
		return bad("panic: %s", p)
	}
	return v
}

func curOps(size int) []op {
	n := int64(size)
	var ops []op
	add := func(k string, v int64, w int) { ops = append(ops, op{k, v, w}) }
	for _, k := range uniq64(0, 1, 2, n-1, n, n+1) {
		add("read", k, 0)
		add("readBytes", k, 0)
	}
	add("readBytes", math.MaxInt64, 0)
	add("readBytes", math.MaxInt32, 0)
	add("readByte", 0, 0)
	add("read2EOF", 0, 0)
	for _, k := range uniq64(-1, 0, 1, n-1, n, n+1) {
		add("seek", k, 0)
		add("readAt", k, 1)
	}
	add("readAt", 0, size)
	add("readAt", 0, size+1)
	add("readAt", n, 0)
	add("readAt", 1, 2)
	for _, k := range uniq64(-n-1, -n, -1, 0, 1, n, n+1) {
		add("seek", k, 1)
		add("seek", k, 2)
	}
	for _, w := range []int{0, 1, 2} {
		add("seek", math.MaxInt64, w)
		add("seek", math.MinInt64, w)
	}
	add("seek", 0, 3)
	add("seek", 0, -1)
	add("writeTo", math.MaxInt32, 0)
	add("writeTo", 0, 0)
	add("writeTo", 1, 0)
	for _, k := range uniq64(0, 1, n-1, n, n+1) {
		add("dump", k, 0)
	}
	add("body", 0, 0)
	return ops
}

func uniq64(xs ...int64) []int64 {
	var out []int64
	for _, x := range xs {
		dup := false
		for _, y := range out {
			dup = dup || x == y
		}
		if !dup {
			out = append(out, x)
		}
	}
	var pos []int64
	for _, x := range out {
		pos = append(pos, x)
	}
	return pos
}

func c23(x *check.Ctx) {
	legal := func(o op) bool {
		switch o.kind {
		case "read", "readBytes", "dump":
			return o.n >= 0
		}
		return true
	}
	all := func(size int) []op {
		var out []op
		for _, o := range curOps(size) {
			if legal(o) {
				out = append(out, o)
			}
		}
		return out
	}
	for size := 0; size <= 4; size++ {
		ops := all(size)
		depth := x.Bound(3, 4)
		size := size
		check.Space(x, fmt.Sprintf("buffer-%d", size), check.Opt{Desc: fmt.Sprintf("every sequence of up to %d of %d operations on a buffer of %d bytes", depth, len(ops), size)}, func(c *explore.Chooser) (curCase, bool) {
			t := curCase{size: size}
			for len(t.ops) < depth {
				k := c.Free(len(ops) + 1)
				if k == 0 {
					break
				}
				t.ops = append(t.ops, ops[k-1])
			}
			return t, len(t.ops) > 0
		}, checkCur, showCur)
	}
	// a smaller alphabet, deeper
	small := []op{{"read", 1, 0}, {"readBytes", 2, 0}, {"readByte", 0, 0}, {"read2EOF", 0, 0}, {"seek", 0, 0}, {"seek", 1, 1}, {"seek", -1, 1}, {"seek", -1, 2}, {"seek", 0, 2}, {"readAt", 1, 2}, {"writeTo", 99, 0}, {"writeTo", 1, 0}}
	depth := x.Bound(5, 6)
	check.Space(x, "deep", check.Opt{Desc: "every sequence of five (thorough: six) of 12 operations on a buffer of three bytes"}, func(c *explore.Chooser) (curCase, bool) {
		t := curCase{size: 3}
		for len(t.ops) < depth {
			t.ops = append(t.ops, explore.PickFree(c, small))
		}
		return t, true
	}, checkCur, showCur)
	check.Space(x, "large", check.Opt{Desc: "every pair of operations on buffers of boundary sizes"}, func(c *explore.Chooser) (curCase, bool) {
		t := curCase{size: explore.PickFree(c, []int{15, 16, 17, 63, 64, 255, 256, 257, 1023, 1024, 4096, 65535, 65536})}
		ops := all(t.size)
		t.ops = []op{explore.PickFree(c, ops), explore.PickFree(c, ops)}
		if t.size > 5000 && (t.ops[0].kind == "dump" || t.ops[1].kind == "dump") {
			return t, false
		}
		return t, true
	}, checkCur, showCur)
	check.Space(x, "large-dumps", check.Opt{Desc: "a dump of buffers of up to 2^20 bytes, from the start and after reading some"}, func(c *explore.Chooser) (curCase, bool) {
		t := curCase{size: explore.PickFree(c, []int{8191, 8193, 10000, 16384, 32769, 65535, 65536, 65537, 100000, 131073, 262145, 1 << 20})}
		var ds, all1 []op
		for _, o := range all(t.size) {
			if o.kind == "dump" {
				ds = append(ds, o)
			} else {
				all1 = append(all1, o)
			}
		}
		t.ops = []op{explore.PickFree(c, all1), explore.PickFree(c, ds)}
		if t.size > 40000 && t.ops[0].kind != all1[0].kind {
			return t, false
		}
		return t, true
	}, checkCur, showCur)
}
