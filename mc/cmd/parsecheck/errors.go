//go:build causes

package main

import (
	"bytes"
	"compress/bzip2"
	"compress/flate"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/faults"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/ecode"
	"github.com/spiegel-im-spiegel/gpgpdump/github"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/tags"
	pgperrors "golang.org/x/crypto/openpgp/errors"
)

// only this file needs the service packages: it is built into a checker of its own
func init() { props["C29"] = c29 }

// errNames lists the known causes an error is recognised by (errors.Is / errors.As).
func errNames(err error, fault ...error) []string {
	var s []string
	for _, p := range []struct {
		n string
		e error
	}{{"io.EOF", io.EOF}, {"io.ErrUnexpectedEOF", io.ErrUnexpectedEOF}, {"ErrNullPointer", ecode.ErrNullPointer}, {"ErrArmorText", ecode.ErrArmorText},
		{"ErrInvalidWhence", ecode.ErrInvalidWhence}, {"ErrInvalidOffset", ecode.ErrInvalidOffset}, {"ErrNoKey", ecode.ErrNoKey}, {"ErrInvalidRequest", ecode.ErrInvalidRequest},
		{"HTTP status", fetch.ErrHTTPStatus}, {"context.Canceled", context.Canceled}, {"zlib.ErrHeader", zlib.ErrHeader}, {"zlib.ErrChecksum", zlib.ErrChecksum}, {"zlib.ErrDictionary", zlib.ErrDictionary},
		{"the fault", errFault}} {
		if errors.Is(err, p.e) {
			s = append(s, p.n)
		}
	}
	for _, f := range fault {
		if f != errFault && errors.Is(err, f) {
			s = append(s, "the fault")
		}
	}
	var st pgperrors.StructuralError
	if errors.As(err, &st) {
		s = append(s, "StructuralError")
	}
	var f flate.CorruptInputError
	if errors.As(err, &f) {
		s = append(s, "flate.CorruptInputError")
	}
	var b bzip2.StructuralError
	if errors.As(err, &b) {
		s = append(s, "bzip2.StructuralError")
	}
	return s
}

var errFault = faults.Plain

func has(names []string, any ...string) bool {
	for _, n := range names {
		for _, a := range any {
			if n == a {
				return true
			}
		}
	}
	return false
}

// causeOf says where the model's decoder stops on a stream: in the framing (cut or
// not a packet), in the body of a packet, or not at all.
func causeOf(d []byte, o model.Opts) string {
	_, _, werr := model.Decode(d, o)
	if werr == nil {
		return "none"
	}
	for len(d) > 0 {
		p, rest, _, err := model.NextPacket(d)
		if err != nil {
			if d[0]&0x80 == 0 {
				return "not a packet"
			}
			return "cut"
		}
		// does this packet alone fail?
		one := gen.Pkt(gen.HNew5, p.Tag, p.Body)
		if _, _, err := model.Decode(one, o); err != nil {
			if p.Tag == 8 && len(p.Body) > 0 && p.Body[0] <= 3 {
				return "compressed"
			}
			return "body"
		}
		d = rest
	}
	return "body"
}

// judgeCause parses and compares the cause of the error with where the model stops.
func judgeCause(e *explore.Env, c Case) *explore.Violation {
	got := impl.Parse(c.Data, c.O)
	if got.Panic != "" {
		return viol(c, "panic: %s", got.Panic)
	}
	cause := causeOf(c.Data, c.O)
	names := errNames(got.Err)
	ok := false
	switch cause {
	case "none":
		ok = got.Err == nil
	case "cut":
		ok = has(names, "io.ErrUnexpectedEOF")
	case "not a packet":
		ok = has(names, "StructuralError")
	case "body":
		ok = has(names, "io.ErrUnexpectedEOF", "io.EOF", "StructuralError")
	case "compressed":
		ok = has(names, "io.ErrUnexpectedEOF", "io.EOF", "StructuralError", "zlib.ErrHeader", "zlib.ErrChecksum", "zlib.ErrDictionary", "flate.CorruptInputError", "bzip2.StructuralError")
	}
	if !ok {
		return viol(c, "the decoder stops because of: %s; the error is %q, recognised as %v", cause, fmt.Sprint(got.Err), names)
	}
	if got.Err != nil && strings.TrimSpace(got.Err.Error()) == "" {
		return viol(c, "an error without a message")
	}
	e.Steps(len(got.Nodes) + 1)
	e.Outcome(fmt.Sprint(cause, names))
	return nil
}

func c29(x *check.Ctx) {
	vs := allSamples()
	check.Space(x, "cut-stream", check.Opt{Desc: "every sample packet in every header kind between two others, the stream cut at every byte: an unexpected end of data unless the cut is between packets"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		kind := c.Free(gen.NHdr)
		if !gen.HdrOK(kind, v.tag, len(v.body)) {
			return Case{}, false
		}
		d := append([]byte{}, uidA...)
		d = append(d, gen.Pkt(kind, v.tag, v.body)...)
		if kind != gen.HOldIndet {
			d = append(d, uidZ...)
		}
		return Case{Data: d[:c.Free(len(d)+1)], O: model.Opts{UTC: true}}, true
	}, judgeCause, show)
	check.Space(x, "cut-body", check.Opt{Desc: "every sample packet with its body cut at every byte, packet length adjusted"}, func(c *explore.Chooser) (Case, bool) {
		v := explore.PickFree(c, vs)
		k := c.Free(len(v.body) + 1)
		d := append([]byte{}, uidA...)
		d = append(d, gen.Pkt(gen.HNew, v.tag, v.body[:k])...)
		return Case{Data: append(d, uidZ...), O: model.Opts{UTC: true}}, true
	}, judgeCause, show)
	check.Space(x, "garbage", check.Opt{Desc: "every octet value where a packet header belongs, at the start of the stream or after a packet of each sample"}, func(c *explore.Chooser) (Case, bool) {
		var d []byte
		if k := c.Free(len(vs) + 1); k > 0 {
			d = append(d, gen.Pkt(gen.HNew, vs[k-1].tag, vs[k-1].body)...)
		}
		d = append(d, byte(c.Free(256)))
		return Case{Data: append(d, explore.PickFree(c, [][]byte{nil, uidZ})...), O: model.Opts{UTC: true}}, true
	}, judgeCause, show)
	ps := zipSamples()
	for _, a := range []byte{1, 2, 3} {
		for _, inner := range [][]byte{uidA, append(append([]byte{}, uidA...), 0x11), uidA[:5]} {
			ps = append(ps, pack(a, 2, inner))
		}
	}
	check.Space(x, "compressed", check.Opt{Desc: "compressed packets of every algorithm with the data cut at every byte or each octet changed to boundary values"}, func(c *explore.Chooser) (Case, bool) {
		b := append([]byte{}, explore.PickFree(c, ps)...)
		i := c.Free(len(b))
		if k := c.Free(6); k == 0 {
			b = b[:i]
		} else {
			b[i] ^= []byte{0, 1, 0x80, 0xff, 0x10}[k-1]
		}
		return Case{Data: append(gen.Pkt(gen.HNew, 8, b), uidZ...), O: model.Opts{UTC: true}}, true
	}, judgeCause, show)
	c29input(x)
	c29cursor(x)
	c29services(x)
}

type inputCase struct {
	Data  []byte
	At    int // the reader fails there; -1: never
	Kind  int // with this failure
	Armor bool
	Note  string
}

// c29input: what the reader says, and missing armor.
func c29input(x *check.Ctx) {
	bin := append(append([]byte{}, uidA...), uidZ...)
	arm, _, _, _ := gen.Armor(bin, gen.ArmorOpt{Type: "PUBLIC KEY BLOCK"})
	texts := [][]byte{bin, arm, append([]byte("some text before\n\n"), arm...), []byte("nothing here\n"), {}, bytes.ReplaceAll(arm, []byte("-----END"), []byte("----END"))}
	check.Space(x, "reader-faults", check.Opt{Desc: "a reader that fails after every number of bytes of binary, armored and other input, in both input modes, with each kind of read error: that failure is what is reported"}, func(c *explore.Chooser) (inputCase, bool) {
		d := explore.PickFree(c, texts)
		k := inputCase{Data: d, At: c.Free(len(d)+2) - 1, Armor: c.Free(2) == 1}
		if k.At >= 0 {
			k.Kind = c.Free(len(faults.Read))
		}
		return k, true
	}, func(e *explore.Env, k inputCase) *explore.Violation {
		c := Case{Data: k.Data, O: model.Opts{UTC: true}, Note: fmt.Sprintf("armor only %v, the reader fails after %d bytes: %v", k.Armor, k.At, faults.Read[k.Kind])}
		var r io.Reader = bytes.NewReader(k.Data)
		if k.At >= 0 {
			r = io.MultiReader(bytes.NewReader(k.Data[:k.At]), failing{faults.Read[k.Kind]})
		}
		cxt := impl.Context(c.O)
		if k.Armor {
			cxt = impl.ArmorContext(c.O)
		}
		got := impl.ParseReader(cxt, r)
		names := errNames(got.Err, faults.Read[k.Kind])
		e.Outcome(fmt.Sprint(k.Armor, names))
		if got.Panic != "" {
			return viol(c, "panic: %s", got.Panic)
		}
		complete := bytes.Contains(k.Data, []byte("-----END PGP"))
		switch {
		case k.At < 0 && k.Armor && !complete:
			if !has(names, "ErrArmorText") {
				return viol(c, "no armor to be found, but the error is %q, recognised as %v", fmt.Sprint(got.Err), names)
			}
		case k.At >= 0 && !k.Armor, k.At >= 0 && k.Armor && !complete:
			if !has(names, "the fault") {
				return viol(c, "the reader failed, but the error is %q, recognised as %v", fmt.Sprint(got.Err), names)
			}
		case k.At >= 0: // armor only: nothing after the end line is needed
			if got.Err != nil && !has(names, "the fault") {
				return viol(c, "the reader failed, but the error is %q, recognised as %v", fmt.Sprint(got.Err), names)
			}
		}
		return nil
	}, func(k inputCase) map[string]any {
		return map[string]any{"bytes": len(k.Data), "fails_after": k.At, "armor": k.Armor}
	})
	check.Space(x, "no-reader", check.Opt{Desc: "no reader at all, in both input modes, for the parser and for its packet reader; no packet reader, no parser"}, func(c *explore.Chooser) (inputCase, bool) {
		return inputCase{At: c.Free(4), Armor: c.Free(2) == 1}, true
	}, func(e *explore.Env, k inputCase) *explore.Violation {
		var err error
		p := ""
		switch k.At {
		case 1:
			p = impl.Guard(func() { _, err = tags.NewPackets(impl.Context(model.Opts{}), nil) })
		case 2:
			var ps *tags.Packets
			if k.Armor {
				p = impl.Guard(func() { err = ps.Next() })
			} else {
				p = impl.Guard(func() { _, err = ps.Parse() })
			}
		case 3:
			var ps *parse.Parser
			var i *result.Info
			p = impl.Guard(func() { i, err = ps.Parse() })
			if p != "" || err != nil || i == nil || len(i.Packets) != 0 {
				return viol(Case{}, "no parser: panic %q, error %v", p, err)
			}
			e.Outcome("no parser")
			return nil
		}
		if k.At > 0 {
			if names := errNames(err); p != "" || !has(names, "ErrNullPointer") {
				return viol(Case{}, "no packet reader: panic %q, error %q recognised as %v", p, fmt.Sprint(err), names)
			}
			e.Outcome("no packets")
			return nil
		}
		cxt := impl.Context(model.Opts{})
		if k.Armor {
			cxt = impl.ArmorContext(model.Opts{})
		}
		got := impl.ParseReader(cxt, nil)
		if names := errNames(got.Err); got.Panic != "" || !has(names, "ErrNullPointer") {
			return viol(Case{}, "no reader: panic %q, error %q recognised as %v", got.Panic, fmt.Sprint(got.Err), names)
		}
		e.Outcome("no reader")
		return nil
	}, func(k inputCase) map[string]any { return map[string]any{"armor": k.Armor} })
}

type failing struct{ err error }

func (f failing) Read([]byte) (int, error) { return 0, f.err }

type seekCase struct {
	Size   int
	At     int64
	Off    int64
	Whence int
}

// c29cursor: what the cursor refuses and why.
func c29cursor(x *check.Ctx) {
	check.Space(x, "cursor", check.Opt{Desc: "every seek and read of the byte cursor around the ends of buffers of up to 5 bytes: refused for the reason given"}, func(c *explore.Chooser) (seekCase, bool) {
		n := c.Free(6)
		at := c.Free(n + 1)
		offs := []int64{-1 << 63, -1 << 31, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 1 << 31, 1<<62 - 1}
		return seekCase{Size: n, At: int64(at), Off: explore.PickFree(c, offs), Whence: explore.PickFree(c, []int{0, 1, 2, 3, -1, 99})}, true
	}, func(e *explore.Env, k seekCase) (v *explore.Violation) {
		bad := func(format string, a ...any) *explore.Violation {
			return &explore.Violation{What: fmt.Sprintf(format, a...), Detail: map[string]any{"size": k.Size, "at": k.At, "offset": k.Off, "whence": k.Whence}}
		}
		p := impl.Guard(func() {
			r := reader.New(fill(k.Size))
			if _, err := r.Seek(k.At, io.SeekStart); err != nil {
				v = bad("seek to %d of %d bytes: %v", k.At, k.Size, err)
				return
			}
			_, err := r.Seek(k.Off, k.Whence)
			names := errNames(err)
			e.Outcome(fmt.Sprint("seek", names))
			base := []int64{0, k.At, int64(k.Size)}
			switch {
			case k.Whence < 0 || k.Whence > 2:
				if !has(names, "ErrInvalidWhence") {
					v = bad("an unknown origin gives %q, recognised as %v", fmt.Sprint(err), names)
				}
				return
			case k.Off < -10 || k.Off > 10 || base[k.Whence]+k.Off < 0 || base[k.Whence]+k.Off > int64(k.Size):
				if !has(names, "ErrInvalidOffset") {
					v = bad("a position outside gives %q, recognised as %v", fmt.Sprint(err), names)
				}
				return
			}
			if err != nil {
				v = bad("a position inside is refused: %v", err)
				return
			}
			rest := int64(k.Size) - (base[k.Whence] + k.Off)
			_, err = r.ReadBytes(rest + 1)
			names = errNames(err)
			e.Outcome(fmt.Sprint("read", names))
			want := "io.ErrUnexpectedEOF"
			if rest == 0 {
				want = "io.EOF"
			}
			if !has(names, want) {
				v = bad("reading %d bytes of %d left gives %q, recognised as %v", rest+1, rest, fmt.Sprint(err), names)
			}
		})
		if p != "" {
			return bad("panic: %s", p)
		}
		return v
	}, func(k seekCase) map[string]any {
		return map[string]any{"size": k.Size, "at": k.At, "offset": k.Off, "whence": k.Whence}
	})
}

// service: one call of a library function against a stand-in transport.
type service struct {
	Call  int // 0 github.Get, 1 github.GetKey, 2 hkp Fetch
	Fault int
	Code  int // HTTP status
	Page  int // on which page (GetKey)
	At    int // the body breaks after so many bytes
	Kind  int // with this failure
}

var callNames = []string{"github.Get", "github.GetKey", "hkp.Server.Fetch"}
var faultNames = []string{"none", "transport", "status", "body breaks", "not JSON", "cancelled", "cancelled before", "no such key", "key without text"}

type stand struct {
	s      service
	n      int
	cancel context.CancelFunc
}

func page(n int, extra string) string {
	var b strings.Builder
	b.WriteString("[")
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, `{"id":%d,"key_id":"%016X","raw_key":"k%d"}`, i, 0x1000+i, i)
	}
	if extra != "" {
		if n > 0 {
			b.WriteString(",")
		}
		b.WriteString(extra)
	}
	b.WriteString("]")
	return b.String()
}

func (t *stand) RoundTrip(r *http.Request) (*http.Response, error) {
	t.n++
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	code, body := 200, "the armored key"
	if t.s.Call == 1 {
		body = page(100, "")
		if t.n > t.s.Page {
			body = page(3, `{"id":7,"key_id":"ABCDEF0123456789","raw_key":"found"}`)
		}
	}
	hit := t.s.Call != 1 || t.n == t.s.Page+1
	var rc io.ReadCloser
	if hit {
		switch t.s.Fault {
		case 1:
			return nil, faults.Transport[t.s.Kind]
		case 2:
			code = t.s.Code
		case 3:
			rc = io.NopCloser(io.MultiReader(strings.NewReader(body[:t.s.At%len(body)]), failing{faults.Read[t.s.Kind]}))
		case 4:
			body = []string{"", "{", "[", `{"a":1}`, "[1]", `[{"key_id":5}]`, "<html>", `[{"key_id":"AB"]`}[t.s.At%8]
		case 5:
			t.cancel()
			return nil, r.Context().Err()
		case 7:
			body = page(3, "")
		case 8:
			body = page(3, `{"id":7,"key_id":"ABCDEF0123456789"}`)
		}
	}
	if rc == nil {
		rc = io.NopCloser(strings.NewReader(body))
	}
	return &http.Response{Status: strconv.Itoa(code) + " X", StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: rc, ContentLength: -1, Request: r}, nil
}

func c29services(x *check.Ctx) {
	codes := []int{}
	for c := 400; c < 600; c++ {
		codes = append(codes, c)
	}
	check.Space(x, "services", check.Opt{Desc: "the GitHub and key server calls of the library with every kind of failure (each kind of transport error, every HTTP status 400-599, body broken after every number of bytes with each kind of read error, malformed answer, cancellation, no such key) on each of the first three pages"}, func(c *explore.Chooser) (service, bool) {
		s := service{Call: c.Free(3), Fault: c.Free(len(faultNames))}
		if s.Call != 1 && (s.Fault == 4 || s.Fault > 6) {
			return s, false
		}
		if s.Call == 1 {
			s.Page = c.Free(3)
		}
		switch s.Fault {
		case 1:
			s.Kind = c.Free(len(faults.Transport))
		case 2:
			s.Code = explore.PickFree(c, codes)
		case 3:
			n := 15
			if s.Call == 1 {
				n = 150
			}
			s.At = c.Free(n)
			s.Kind = c.Free(len(faults.Read))
		case 4:
			s.At = c.Free(8)
		}
		return s, true
	}, runService, func(s service) map[string]any {
		return map[string]any{"call": callNames[s.Call], "fault": faultNames[s.Fault], "status": s.Code, "page": s.Page + 1, "after": s.At}
	})
	check.Space(x, "no-server", check.Opt{Desc: "a key server that is missing or whose name makes no URL"}, func(c *explore.Chooser) (int, bool) {
		return c.Free(1 + len(badHosts)), true
	}, func(e *explore.Env, k int) *explore.Violation {
		var s *hkp.Server
		want := "ErrNullPointer"
		name := "none"
		if k > 0 {
			s, want, name = hkp.New(badHosts[k-1]), "ErrInvalidRequest", badHosts[k-1]
		}
		var err error
		p := impl.Guard(func() {
			_, err = s.Fetch(context.Background(), fetch.New(fetch.WithHTTPClient(&http.Client{Transport: &stand{s: service{Fault: 1}}})), "x")
		})
		if names := errNames(err); p != "" || !has(names, want) {
			return &explore.Violation{What: fmt.Sprintf("key server %q: panic %q, error %q recognised as %v", name, p, fmt.Sprint(err), names), Detail: map[string]any{"host": name}}
		}
		e.Outcome(want)
		return nil
	}, func(k int) map[string]any { return map[string]any{"host": k} })
}

var badHosts = []string{"a b", "[::1", "%zz", "x\x7f", "http://"}

func runService(e *explore.Env, s service) *explore.Violation {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	t := &stand{s: s, cancel: cancel}
	if s.Fault == 6 {
		cancel()
	}
	cli := fetch.New(fetch.WithHTTPClient(&http.Client{Transport: t}))
	var data []byte
	var err error
	p := impl.Guard(func() {
		switch s.Call {
		case 0:
			data, err = github.Get(ctx, cli, "someone")
		case 1:
			data, err = github.GetKey(ctx, cli, "someone", "abcdef0123456789")
		case 2:
			var rc io.ReadCloser
			if rc, err = hkp.New("keys.example", hkp.WithPort(80)).Fetch(ctx, cli, "someone"); err == nil {
				data, err = io.ReadAll(rc)
				rc.Close()
			}
		}
	})
	d := map[string]any{"call": callNames[s.Call], "fault": faultNames[s.Fault], "status": s.Code, "page": s.Page + 1, "after": s.At}
	if p != "" {
		return &explore.Violation{What: "panic: " + p, Detail: d}
	}
	names := errNames(err)
	d["kind"] = s.Kind
	switch s.Fault {
	case 1:
		names = errNames(err, faults.Transport[s.Kind])
	case 3:
		names = errNames(err, faults.Read[s.Kind])
	}
	e.Steps(t.n)
	e.Outcome(fmt.Sprint(s.Call, s.Fault, names))
	var want []string
	switch s.Fault {
	case 0:
		if w := []string{"the armored key", "found", "the armored key"}[s.Call]; err != nil || string(data) != w {
			return &explore.Violation{What: fmt.Sprintf("got %q, %v", data, err), Detail: d}
		}
		return nil
	case 1:
		want = []string{"the fault"}
	case 2:
		want = []string{"HTTP status"}
	case 3:
		want = []string{"the fault"}
	case 4:
		want = []string{"ErrInvalidRequest"}
	case 5, 6:
		want = []string{"context.Canceled"}
	case 7, 8:
		want = []string{"ErrNoKey"}
	}
	// a request that failed is also recognisable as one
	if s.Fault <= 6 && (s.Call == 1 || s.Call == 2 && s.Fault != 3) {
		want = append(want, "ErrInvalidRequest")
	}
	for _, w := range want {
		if !has(names, w) {
			return &explore.Violation{What: fmt.Sprintf("%s with fault %q: the error is %q, recognised as %v, not as %s", callNames[s.Call], faultNames[s.Fault], fmt.Sprint(err), names, w), Detail: d}
		}
	}
	if has(names, "ErrNoKey") && s.Fault < 7 {
		return &explore.Violation{What: fmt.Sprintf("%s with fault %q is reported as a missing key: %v", callNames[s.Call], faultNames[s.Fault], err), Detail: d}
	}
	return nil
}
