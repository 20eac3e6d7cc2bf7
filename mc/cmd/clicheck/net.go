package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"strings"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/faults"
	"gpgpmc/impl"
	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"
)

// netLine is one run of a command that fetches.
type netLine struct {
	args   []string
	t      settings
	w      want
	serve  func(n int, r *http.Request) reply
	check  func([]request) string // what must hold of the requests
	either bool                   // the command may also refuse, with no request at all
	part   []byte                 // raw output of a body that breaks off
	what   string
	class  string
}

func showNet(l netLine) map[string]any { return map[string]any{"args": l.args, "what": l.what} }

// judgeNet runs the command against the stand-in transport and judges outcome and requests.
func judgeNet(e *explore.Env, l netLine) *explore.Violation {
	net0.reset(l.serve)
	e.Steps(1)
	o := runBuf(l.args, bytes.NewReader(small.data))
	reqs, open := net0.state()
	fail := func(format string, a ...any) *explore.Violation {
		d := showNet(l)
		for k, v := range o.show() {
			d[k] = v
		}
		var rs []string
		for _, r := range reqs {
			rs = append(rs, r.String())
		}
		d["requests"] = rs
		return &explore.Violation{What: fmt.Sprintf(format, a...) + fmt.Sprintf(" (arguments %q; %s)", l.args, l.what), Detail: d}
	}
	if open != 0 {
		return fail("%d response bodies were not closed", open)
	}
	if l.either && len(reqs) == 0 {
		if s := judge(o, want{fail: true}, l.t); s != "" {
			return fail("no request was made, yet %s", s)
		}
		e.Outcome("refused")
		return nil
	}
	if s := l.check(reqs); s != "" {
		return fail("%s", s)
	}
	if l.part != nil {
		// a raw body that breaks off: what arrived may have been passed on
		bad := bytes.Contains(o.err, []byte("Panic:"))
		if l.t.o.Debug {
			bad = bad || o.exit != 0 || len(o.err) > 0 || len(o.out) == 0
		} else {
			bad = bad || o.exit != 1 || len(o.err) == 0 || !bytes.HasPrefix(l.part, o.out)
		}
		if bad {
			return fail("a raw body that breaks off is not reported as it must be")
		}
	} else if s := judge(o, l.w, l.t); s != "" {
		return fail("%s", s)
	}
	e.Outcome(fmt.Sprintf("exit %d, fail %v, raw %v, %d requests %s", o.exit, l.w.fail, l.t.raw, len(reqs), l.class))
	return nil
}

// decodeQuery is a plain reading of a query string.
func decodeQuery(q string) (map[string][]string, string) {
	m := map[string][]string{}
	if q == "" {
		return m, ""
	}
	for _, p := range strings.Split(q, "&") {
		i := strings.IndexByte(p, '=')
		if i < 0 {
			return nil, fmt.Sprintf("query part %q without value", p)
		}
		k, ok1 := unescape(p[:i], true)
		v, ok2 := unescape(p[i+1:], true)
		if !ok1 || !ok2 {
			return nil, fmt.Sprintf("badly encoded query %q", q)
		}
		m[k] = append(m[k], v)
	}
	return m, ""
}

func unescape(s string, plus bool) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, l := hexval(s[i+1]), hexval(s[i+2])
			if h < 0 || l < 0 {
				return "", false
			}
			b = append(b, byte(h<<4|l))
			i += 2
		case c == '+' && plus:
			b = append(b, ' ')
		case c <= ' ' || c >= 0x7f || c == '#' || (plus && c == ';'):
			return "", false
		default:
			b = append(b, c)
		}
	}
	return string(b), true
}

func hexval(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func same(q map[string][]string, want map[string]string) bool {
	if len(q) != len(want) {
		return false
	}
	for k, v := range want {
		if len(q[k]) != 1 || q[k][0] != v {
			return false
		}
	}
	return true
}

// oneHKP is the only request a key server lookup may make.
func oneHKP(scheme, host, search string) func([]request) string {
	return func(rs []request) string {
		if len(rs) != 1 {
			return fmt.Sprintf("%d requests instead of one", len(rs))
		}
		r := rs[0]
		q, s := decodeQuery(r.Query)
		switch {
		case s != "":
			return s
		case r.Method != "GET":
			return "the method is " + r.Method
		case r.Scheme != scheme:
			return fmt.Sprintf("the scheme is %q instead of %q", r.Scheme, scheme)
		case r.Host != host:
			return fmt.Sprintf("the host is %q instead of %q", r.Host, host)
		case r.HostHeader != "" && r.HostHeader != host:
			return fmt.Sprintf("the Host header is %q instead of %q", r.HostHeader, host)
		case r.RawPath != "/pks/lookup":
			return fmt.Sprintf("the path is %q", r.RawPath)
		case r.Frag != "" || r.URL.User != nil || r.Body:
			return "the request has a fragment, a user or a body"
		case !same(q, map[string]string{"op": "get", "search": search}):
			return fmt.Sprintf("the query is %q, which does not mean op=get and search=%q", r.Query, search)
		}
		return ""
	}
}

// lookup is one library-level key server lookup.
type lookup struct {
	host, search string
	port         int
	prt          hkp.Protocol
	either       bool
}

func (l lookup) String() string {
	return fmt.Sprintf("host %q, port %d, protocol %d, search %q", l.host, l.port, int(l.prt), l.search)
}

func checkLookup(e *explore.Env, l lookup) *explore.Violation {
	e.Steps(1)
	tr := &transport{}
	tr.reset(func(int, *http.Request) reply { return ok(smallArm.data) })
	cli := fetch.New(fetch.WithHTTPClient(&http.Client{Transport: tr}))
	var rc io.ReadCloser
	var err error
	if p := impl.Guard(func() {
		rc, err = hkp.New(l.host, hkp.WithPort(l.port), hkp.WithProtocol(l.prt)).Fetch(context.Background(), cli, l.search)
	}); p != "" {
		return &explore.Violation{What: "the lookup panics: " + l.String(), Detail: map[string]any{"panic": p}}
	}
	fail := func(s string) *explore.Violation {
		d := map[string]any{"lookup": l.String()}
		for i, r := range tr.reqs {
			d[fmt.Sprint("request", i)] = r.String()
		}
		return &explore.Violation{What: s + ": " + l.String(), Detail: d}
	}
	if l.either && len(tr.reqs) == 0 && err != nil {
		e.Outcome("refused")
		return nil
	}
	if err != nil {
		return fail("the lookup fails: " + err.Error())
	}
	scheme := "http"
	if l.prt == hkp.HKPS {
		scheme = "https"
	}
	b, rerr := io.ReadAll(rc)
	rc.Close()
	if rerr != nil || !bytes.Equal(b, smallArm.data) {
		return fail("the response is not passed on")
	}
	if s := oneHKP(scheme, fmt.Sprintf("%s:%d", l.host, l.port), l.search)(tr.reqs); s != "" {
		return fail(s)
	}
	if _, open := tr.state(); open != 0 {
		return fail("closing the response leaves it open")
	}
	e.Outcome("looked up, " + scheme)
	return nil
}

func showLookup(l lookup) map[string]any { return map[string]any{"lookup": l.String()} }

var goodHosts = []string{"keys.gnupg.net", "localhost", "127.0.0.1", "[::1]", "a", "EXAMPLE.ORG", "xn--p1ai.example", "under_score.example", "h-y.0-9.example", strings.Repeat("a", 63) + ".example"}
var oddHosts = []string{"bad host", "host/path", "user@host", "host?x=1", "host#f", "::1", "host:80", "ho\x00st", "host\n", "h%6fst", "%", "[::1", "host\\x", "日本.example", "ho\tst", "a&b", "/", "?", "#", "@", ":", ".", "host/pks/lookup?op=index&x=", "http://host"}
var ports = []int{11371, 80, 443, 0, 1, 65535}
var oddPorts = []int{-1, 65536, 1 << 31, -80}

var searches = []string{"", "alice", "0x12345678", "Alice <alice@example.org>", "a&op=index", "a=b", "a+b", "a b", "%41", "%", "a%00", "#x", "?x", "/../x", "日本", "\xff\xfe", "a\nb", "\r\nHost: evil", "\x00", strings.Repeat("x", 5000), "=", "&", ";", "a;b", "+", "\"'<>", "--raw", "-h"}

func c20(x *check.Ctx) {
	// all short search texts
	n := x.Bound(2, 2)
	check.Space(x, "search-octets", check.Opt{Desc: "every search text of up to two octets (all 256 values each) over HKP and HKPS: one request, which decodes to the search text"}, func(c *explore.Chooser) (lookup, bool) {
		l := lookup{host: "keys.example", port: 11371, prt: hkp.HKP + hkp.Protocol(c.Free(2))}
		var b []byte
		for k := c.Free(n + 1); k > 0; k-- {
			b = append(b, byte(c.Free(256)))
		}
		l.search = string(b)
		return l, true
	}, checkLookup, showLookup)
	sp := []byte(" \"#%&+,/:;<=>?@[]\\^`{}|~aA0%\x00\n\r\x7f\x80\xc3\xa9\xff.-_*!'()$")
	m := x.Bound(3, 4)
	check.Space(x, "search-specials", check.Opt{Desc: "every search text of three (thorough: four) characters that mean something in a URL"}, func(c *explore.Chooser) (lookup, bool) {
		l := lookup{host: "keys.example", port: 80, prt: hkp.HKP}
		var b []byte
		for k := 0; k < m; k++ {
			b = append(b, sp[c.Free(len(sp))])
		}
		l.search = string(b)
		return l, true
	}, checkLookup, showLookup)
	check.Space(x, "search-key-ids", check.Opt{Desc: "search texts of 1 to 64 hexadecimal digits in either case, with and without 0x, blanks and an exclamation mark, decimal numbers and mail addresses of every length to 64"}, func(c *explore.Chooser) (lookup, bool) {
		n := 1 + c.Free(64)
		s := explore.PickFree(c, []string{"0123456789abcdef", "FEDCBA9876543210", "AbCdEf0123456789", "0", "9", "a", "g", "x@y.example "})
		for len(s) < n {
			s += s
		}
		s = s[:n]
		pre := explore.PickFree(c, []string{"", "0x", "0X", " ", "=", "<", "*", "#", "+"})
		post := explore.PickFree(c, []string{"", "!", ">", " ", "\n"})
		l := lookup{host: "keys.example.org", port: 11371, prt: hkp.HKP, search: pre + s + post}
		if c.Free(2) == 1 {
			l.prt = hkp.HKPS
		}
		return l, true
	}, checkLookup, showLookup)
	check.Space(x, "servers", check.Opt{Desc: "key server names (ordinary and odd), ports, protocols (also undefined ones) and search texts: an ordinary name is asked at exactly host:port, an odd one is too or is refused without any request"}, func(c *explore.Chooser) (lookup, bool) {
		var l lookup
		hosts := append(append([]string{}, goodHosts...), oddHosts...)
		i := c.Free(len(hosts))
		l.host, l.either = hosts[i], i >= len(goodHosts)
		ps := append(append([]int{}, ports...), oddPorts...)
		j := c.Free(len(ps))
		l.port = ps[j]
		l.either = l.either || j >= len(ports)
		l.prt = hkp.Protocol(c.Free(6) - 1)
		l.search = explore.PickFree(c, searches)
		return l, true
	}, checkLookup, showLookup)
	check.Space(x, "urls", check.Opt{Desc: "the server's own URL and name for every host, port and protocol"}, func(c *explore.Chooser) (lookup, bool) {
		return lookup{host: explore.PickFree(c, goodHosts), port: explore.PickFree(c, append(append([]int{}, ports...), oddPorts...)), prt: hkp.Protocol(c.Free(9) - 3)}, true
	}, func(e *explore.Env, l lookup) *explore.Violation {
		e.Steps(1)
		scheme := "http"
		if l.prt == hkp.HKPS {
			scheme = "https"
		}
		exp := fmt.Sprintf("%s://%s:%d", scheme, l.host, l.port)
		s := hkp.New(l.host, hkp.WithPort(l.port), hkp.WithProtocol(l.prt))
		if got := s.String(); got != exp {
			return &explore.Violation{What: fmt.Sprintf("the server is %q instead of %q", got, exp)}
		}
		if u := s.URL(); u == nil || u.String() != exp || u.Scheme != scheme || l.prt.String() != scheme {
			return &explore.Violation{What: fmt.Sprintf("the server's URL is %v instead of %q", u, exp)}
		}
		if got, exp := hkp.New(l.host).String(), "http://"+l.host+":11371"; got != exp {
			return &explore.Violation{What: fmt.Sprintf("the default server is %q instead of %q", got, exp)}
		}
		var nobody *hkp.Server
		if p := impl.Guard(func() {
			tr := &transport{}
			tr.reset(func(int, *http.Request) reply { return ok(smallArm.data) })
			rc, err := nobody.Fetch(context.Background(), fetch.New(fetch.WithHTTPClient(&http.Client{Transport: tr})), "alice")
			if err == nil || rc != nil || len(tr.reqs) > 0 || nobody.String() != "" || nobody.URL() != nil {
				panic("it has a URL or makes a request")
			}
		}); p != "" {
			return &explore.Violation{What: "a missing server: " + p}
		}
		e.Outcome(scheme)
		return nil
	}, showLookup)
	// the command
	serveArm := func(int, *http.Request) reply { return ok(richArm.data) }
	check.Space(x, "command-requests", serial("the command with every kind of server, port, protocol and search text, flags before and after the text: the same requests as the library"), func(c *explore.Chooser) (netLine, bool) {
		l := netLine{serve: serveArm, w: listing(richArm, settings{armor: true})}
		host, port, scheme := "keys.gnupg.net", 11371, "http"
		var fl []string
		hosts := append(append([]string{"keys.gnupg.net"}, goodHosts...), oddHosts...)
		i := c.Free(len(hosts))
		if i > 0 {
			host = hosts[i]
			if i%2 == 0 {
				fl = append(fl, "--keyserver", host)
			} else {
				fl = append(fl, "--keyserver="+host)
			}
			l.either = i > len(goodHosts)
		}
		ps := append(append([]int{11371}, ports...), oddPorts...)
		j := c.Free(len(ps))
		if j > 0 {
			port = ps[j]
			fl = append(fl, fmt.Sprintf("--port=%d", port))
			l.either = l.either || j > len(ports)
		}
		if c.Free(2) == 1 {
			scheme = "https"
			fl = append(fl, "--secure")
		}
		text := "alice"
		if i <= 2 && j <= 1 {
			text = explore.PickFree(c, searches)
		}
		l.args = append(append([]string{"hkp"}, fl...), "--", text)
		if !strings.HasPrefix(text, "-") && c.Free(2) == 1 {
			l.args = append([]string{"h", text}, fl...)
		}
		l.check = oneHKP(scheme, fmt.Sprintf("%s:%d", host, port), text)
		return l, true
	}, judgeNet, showNet)
	check.Space(x, "command-octets", serial("the command with every one-octet search text"), func(c *explore.Chooser) (netLine, bool) {
		s := string([]byte{byte(c.Free(256))})
		return netLine{args: []string{"hkp", "--", s}, serve: serveArm, w: listing(richArm, settings{armor: true}), check: oneHKP("http", "keys.gnupg.net:11371", s)}, true
	}, judgeNet, showNet)
	check.Space(x, "refusals", serial("no or several search texts, an empty server name, bad values of options: an error and no request"), func(c *explore.Chooser) (netLine, bool) {
		l := netLine{serve: serveArm, w: want{fail: true}, check: none}
		l.args = explore.PickFree(c, [][]string{{"hkp"}, {"hkp", "a", "b"}, {"hkp", "a", "b", "c"}, {"hkp", "--keyserver=", "a"}, {"hkp", "--keyserver", "", "a"}})
		if c.Free(2) == 1 {
			l.args = append(l.args, "--debug")
			l.t.o.Debug = true
		} else if c.Free(2) == 1 {
			l.args = append(l.args, "--raw")
		}
		return l, true
	}, judgeNet, showNet)
	check.Space(x, "bad-values", serial("bad values of options: an error and no request"), func(c *explore.Chooser) (netLine, bool) {
		return netLine{serve: serveArm, w: want{fail: true}, check: none, args: explore.PickFree(c, [][]string{{"hkp", "--port=x", "a"}, {"hkp", "--port=", "a"}, {"hkp", "--port=1e3", "a"}, {"hkp", "--port=99999999999999999999", "a"}, {"hkp", "--secure=perhaps", "a"}, {"hkp", "--raw=x", "a"}, {"hkp", "--bogus", "a"}})}, true
	}, judgeNet, showNet)
	check.Space(x, "secure-failures", serial("--secure with each kind of transport error, every status from 400 to 599, and the body failing with each kind of read error: an error after one request over HTTPS (no second attempt, no other protocol)"), func(c *explore.Chooser) (netLine, bool) {
		l := netLine{args: []string{"hkp", "--secure", "alice"}, w: want{fail: true}, check: oneHKP("https", "keys.gnupg.net:11371", "alice")}
		if c.Free(2) == 1 {
			l.args = []string{"hkp", "--secure", "--port=443", "--keyserver=keys.example", "alice"}
			l.check = oneHKP("https", "keys.example:443", "alice")
		}
		var r reply
		switch c.Free(3) {
		case 0:
			r = reply{err: true, fault: explore.PickFree(c, faults.Transport)}
			l.what = r.fault.Error()
		case 1:
			r = ok(richArm.data)
			r.status = 400 + c.Free(200)
			l.what = fmt.Sprint("status ", r.status)
		case 2:
			r = ok(richArm.data)
			r.fault = explore.PickFree(c, faults.Read)
			r.limit = explore.PickFree(c, []int{0, 1, len(richArm.data) / 2, len(richArm.data)})
			l.what = r.fault.Error()
		}
		l.serve = func(n int, _ *http.Request) reply {
			if n > 1 {
				return ok(richArm.data)
			}
			return r
		}
		return l, true
	}, judgeNet, showNet)
	loopSpaces(x, "hkp")
	responses(x, "hkp", []string{"hkp", "alice"}, true, oneHKP("http", "keys.gnupg.net:11371", "alice"))
	x.Assume = append(x.Assume, "the network is the stand-in transport under net/http's client; what net/http's own transport adds is trusted")
}

func none(rs []request) string {
	if len(rs) > 0 {
		return fmt.Sprintf("%d requests where none should be made", len(rs))
	}
	return ""
}

// responses runs a command against every kind of response and every break of its body.
func responses(x *check.Ctx, name string, args []string, armorOnly bool, chk func([]request) string) {
	flagsets := [][]string{nil, {"-j"}, {"-u"}, {"--debug"}, {"-cilmp"}, {"--indent=2"}, {"-j", "--indent", "3"}, {"-a"}, {"--debug", "-j"}}
	sets := []settings{{}, {json: true}, {o: model.Opts{UTC: true}}, {o: model.Opts{Debug: true}}, {o: model.Opts{Cert: true, Int: true, Literal: true, Marker: true, Private: true}}, {indent: 2}, {json: true, indent: 3}, {armor: true}, {o: model.Opts{Debug: true}, json: true}}
	setup := func(c *explore.Chooser, n int) (netLine, bool) {
		k := c.Free(n)
		l := netLine{t: sets[k], check: chk}
		l.args = append(append([]string{args[0]}, flagsets[k]...), args[1:]...)
		if c.Free(2) == 1 {
			l.t.raw = true
			l.args = append(l.args, "--raw")
		}
		return l, true
	}
	expect := func(s *sample, t settings) want {
		t.armor = t.armor || armorOnly
		return listing(s, t)
	}
	check.Space(x, "responses", serial("every sample as response (armored, in HTML, binary, text, empty, damaged), in every status class, length declared or not, in small and large pieces, under all option sets, with and without --raw"), func(c *explore.Chooser) (netLine, bool) {
		l, _ := setup(c, len(sets))
		s := explore.PickFree(c, samples)
		r := ok(s.data)
		r.status = explore.PickFree(c, []int{200, 203, 400, 404, 500, 503})
		r.chunk = explore.PickFree(c, []int{0, 1})
		r.mixed = c.Free(2) == 1
		if c.Free(2) == 1 {
			r.length = int64(len(s.data))
		}
		l.what = fmt.Sprintf("response %s, status %d, pieces %d", s.name, r.status, r.chunk)
		l.serve = func(int, *http.Request) reply { return r }
		l.w = expect(s, l.t)
		if r.status >= 400 {
			l.w = want{fail: true}
		}
		return l, true
	}, judgeNet, showNet)
	check.Space(x, "option-sets", serial("all 512 sets of the nine flags, with and without --raw, before or after the argument, x binary, armored, embedded, empty, text and damaged responses"), func(c *explore.Chooser) (netLine, bool) {
		a, t := optSet(c.Free(512))
		l := netLine{t: t, check: chk}
		s := explore.PickFree(c, []*sample{rich, richArm, html, text, empty, damaged, damagedArm})
		if c.Free(2) == 1 {
			l.t.raw = true
			a = append(a, "--raw")
		}
		if len(a)%2 == 1 {
			l.args = append(append([]string{args[0]}, a...), args[1:]...)
		} else {
			l.args = append(append([]string{}, args...), a...)
		}
		l.what = "response " + s.name
		r := ok(s.data)
		l.serve = func(int, *http.Request) reply { return r }
		l.w = expect(s, l.t)
		return l, true
	}, judgeNet, showNet)
	check.Space(x, "statuses", serial("every error status from 400 to 599 and beyond, with a good body: an error"), func(c *explore.Chooser) (netLine, bool) {
		l, _ := setup(c, 1)
		st := 400 + c.Free(203)
		if st >= 600 {
			st = []int{600, 999, 799}[st-600]
		}
		r := ok(richArm.data)
		r.status = st
		l.what = fmt.Sprintf("status %d", st)
		l.serve = func(int, *http.Request) reply { return r }
		l.w = want{fail: true}
		return l, true
	}, judgeNet, showNet)
	check.Space(x, "redirects", serial("one to twelve redirections of every kind (absolute and relative, to other hosts), then a good or bad response: up to nine are followed, in order, and the last response is what counts"), func(c *explore.Chooser) (netLine, bool) {
		l, _ := setup(c, 2)
		n := 1 + c.Free(12)
		st := explore.PickFree(c, []int{301, 302, 303, 307, 308})
		s := explore.PickFree(c, []*sample{richArm, html, rich, text, damagedArm})
		k := c.Free(3)
		locs := make([]string, n)
		for i := range locs {
			locs[i] = []string{fmt.Sprintf("https://other%d.example/key/%d?x=a%%26b", i, i), fmt.Sprintf("/moved/%d?y=1", i), fmt.Sprintf("m%d", i)}[k]
		}
		code := explore.PickFree(c, []int{200, 404})
		l.what = fmt.Sprintf("%d redirections by %d, then response %s, status %d", n, st, s.name, code)
		l.serve = func(i int, _ *http.Request) reply {
			if i <= n {
				r := ok([]byte("moved"))
				r.status, r.loc = st, locs[i-1]
				return r
			}
			r := ok(s.data)
			r.status = code
			return r
		}
		l.w = expect(s, l.t)
		if code >= 400 || n > 9 {
			l.w = want{fail: true}
		}
		l.check = func(rs []request) string {
			if len(rs) == 0 {
				return "no request"
			}
			if s := chk(rs[:1]); s != "" {
				return s
			}
			if m := n + 1; (n <= 9 && len(rs) != m) || len(rs) > m {
				return fmt.Sprintf("%d requests for %d redirections", len(rs), n)
			}
			for i, r := range rs[1:] {
				u, err := rs[i].URL.Parse(locs[i])
				if err != nil || r.Method != "GET" || r.URL.String() != u.String() {
					return fmt.Sprintf("redirection %d leads to %s", i, r)
				}
			}
			return ""
		}
		return l, true
	}, judgeNet, showNet)
	check.Space(x, "transport-errors", serial("the request itself fails with each kind of transport error, under all option sets"), func(c *explore.Chooser) (netLine, bool) {
		l, _ := setup(c, len(sets))
		f := explore.PickFree(c, faults.Transport)
		l.serve = func(int, *http.Request) reply { return reply{err: true, fault: f} }
		l.what = "transport error: " + f.Error()
		l.w = want{fail: true}
		return l, true
	}, judgeNet, showNet)
	bigSpace(x, []string{name}, true)
	big := []*sample{smallArm, richArm}
	if !armorOnly {
		big = []*sample{small, rich, richArm}
	}
	check.Space(x, "body-faults", serial("the response body breaks off after every number of bytes, with the last bytes or after them, in small and large pieces, with and without --raw and --debug: an error and no listing"), func(c *explore.Chooser) (netLine, bool) {
		l, _ := setup(c, 4)
		s := explore.PickFree(c, big)
		r := ok(s.data)
		r.chunk = explore.PickFree(c, []int{0, 1, 64})
		r.mixed = c.Free(2) == 1
		if c.Free(2) == 1 {
			r.length = int64(len(s.data))
		}
		if (r.mixed || r.length >= 0 || r.chunk == 64 || len(flagsets) < 2) && !x.Thorough() && l.t != sets[0] && !l.t.o.Debug {
			return l, false
		}
		r.limit = c.Free(len(s.data) + 1)
		l.what = fmt.Sprintf("response %s breaks off after %d bytes", s.name, r.limit)
		l.serve = func(int, *http.Request) reply { return r }
		l.w = want{fail: true}
		if l.t.raw {
			l.part = s.data[:r.limit]
			if l.part == nil {
				l.part = []byte{}
			}
		}
		return l, true
	}, judgeNet, showNet)
	check.Space(x, "body-fault-kinds", serial("the response body failing with each kind of read error at the start, inside and at the end, length declared or not, under all option sets: an error and no listing"), func(c *explore.Chooser) (netLine, bool) {
		l, _ := setup(c, len(sets))
		s := explore.PickFree(c, big)
		r := ok(s.data)
		r.fault = explore.PickFree(c, faults.Read)
		r.mixed = c.Free(2) == 1
		if c.Free(2) == 1 {
			r.length = int64(len(s.data))
		}
		n := len(s.data)
		r.limit = explore.PickFree(c, []int{0, 1, n / 2, n - 1, n})
		l.what = fmt.Sprintf("response %s fails after %d bytes: %v", s.name, r.limit, r.fault)
		l.serve = func(int, *http.Request) reply { return r }
		l.w = want{fail: true}
		if l.t.raw {
			l.part = append([]byte{}, s.data[:r.limit]...)
		}
		return l, true
	}, judgeNet, showNet)
}

// ---- fetch -------------------------------------------------------------------

func oneGet(scheme, host, uri string) func([]request) string {
	return func(rs []request) string {
		if len(rs) != 1 {
			return fmt.Sprintf("%d requests instead of one", len(rs))
		}
		r := rs[0]
		if r.Method != "GET" || r.Scheme != scheme || r.Host != host || r.URL.RequestURI() != uri || r.Body {
			return fmt.Sprintf("the request is %s %s://%s %s instead of GET %s://%s %s", r.Method, r.Scheme, r.Host, r.URL.RequestURI(), scheme, host, uri)
		}
		return ""
	}
}

func c22(x *check.Ctx) {
	type u struct{ url, scheme, host, uri string }
	good := []u{
		{"https://example.org/x", "https", "example.org", "/x"},
		{"http://example.org", "http", "example.org", "/"},
		{"http://example.org/", "http", "example.org", "/"},
		{"  https://example.org/ws \n", "https", "example.org", "/ws"},
		{"https://example.org:8443/a/b?c=d&e=%20f#frag", "https", "example.org:8443", "/a/b?c=d&e=%20f"},
		{"https://user:pw@example.org/", "https", "example.org", "/"},
		{"HTTPS://EXAMPLE.org/U", "https", "EXAMPLE.org", "/U"},
		{"https://example.org/%2F..%2Fa", "https", "example.org", "/%2F..%2Fa"},
		{"https://example.org/a b", "https", "example.org", "/a%20b"},
		{"https://example.org/日本", "https", "example.org", "/%E6%97%A5%E6%9C%AC"},
		{"http://[::1]:80/x", "http", "[::1]:80", "/x"},
		{"https://example.org?x=1", "https", "example.org", "/?x=1"},
		{"https://example.org/a//b/../c;d=e?f", "https", "example.org", "/a//b/../c;d=e?f"},
		{"https://example.org/?", "https", "example.org", "/?"},
		{"https://example.org/key.asc?a=b+c;d&&e=%26", "https", "example.org", "/key.asc?a=b+c;d&&e=%26"},
		{"http://127.0.0.1:11371/pks/lookup?op=get&search=0x1", "http", "127.0.0.1:11371", "/pks/lookup?op=get&search=0x1"},
		{"https://example.org/" + strings.Repeat("p", 3000), "https", "example.org", "/" + strings.Repeat("p", 3000)},
	}
	badURLs := []string{"", " ", "x", "/path", "example.org/x", "ftp://example.org/", "file:///etc/hostname", "://", "http://", "http:///x", "http://[::1", "http://a b/", "http://example.org/%zz", "http://exa\x7fmple.org", "http://example.org\n/", "mailto:a@b", "https:example.org", "http://example.org:port/", "gopher://x", "HTTP", "\x00", "http://exam%ple/", "//example.org/x", "data:text/plain,x", "javascript:1", "?", "#", "localhost:80/x"}
	check.Space(x, "urls", serial("a table of URLs with what must be requested for each (scheme, host, path and query), options before and after, binary and armored responses"), func(c *explore.Chooser) (netLine, bool) {
		g := explore.PickFree(c, good)
		s := explore.PickFree(c, []*sample{rich, richArm, html, small})
		l := netLine{}
		l.check = func(rs []request) string {
			if s := oneGet(g.scheme, g.host, g.uri)(rs); s != "" {
				return s
			}
			if u := rs[0].URL.User; strings.Contains(g.url, "user:pw@") != (u != nil && u.String() == "user:pw") {
				return "the user name of the URL is lost"
			}
			return ""
		}
		l.serve = func(int, *http.Request) reply { return ok(s.data) }
		m := explore.PickFree(c, []int{0, 4, 256})
		var a []string
		a, l.t = optSet(m)
		if c.Free(2) == 1 {
			a = append(a, "--raw")
			l.t.raw = true
		}
		l.w = listing(s, l.t)
		cmd := explore.PickFree(c, []string{"fetch", "fch", "f"})
		if c.Free(2) == 0 {
			l.args = append(append([]string{cmd}, a...), g.url)
		} else {
			l.args = append([]string{cmd, g.url}, a...)
		}
		return l, true
	}, judgeNet, showNet)
	check.Space(x, "path-octets", serial("every octet in the path and in the query of the URL: requested unchanged, or refused where a URL cannot hold it"), func(c *explore.Chooser) (netLine, bool) {
		b := byte(c.Free(256))
		l := netLine{serve: func(int, *http.Request) reply { return ok(richArm.data) }, w: listing(richArm, settings{})}
		q := c.Free(2) == 1
		if q {
			if b == ' ' || b >= 0x80 {
				return l, false
			}
			l.args = []string{"fetch", "https://example.org/p?a" + string([]byte{b}) + "z"}
		} else {
			l.args = []string{"fetch", "https://example.org/a" + string([]byte{b}) + "z"}
		}
		switch {
		case b < 0x20 || b == 0x7f || (b == '%' && !q):
			l.w = want{fail: true}
			l.check = none
			return l, true
		case b == '#' && q:
			l.check = oneGet("https", "example.org", "/p?a")
			return l, true
		case b == '#':
			l.check = oneGet("https", "example.org", "/a")
			return l, true
		case b == '?' && !q:
			l.check = oneGet("https", "example.org", "/a?z")
			return l, true
		case q:
			l.check = oneGet("https", "example.org", "/p?a"+string([]byte{b})+"z")
			return l, true
		}
		l.check = func(rs []request) string {
			if len(rs) != 1 {
				return fmt.Sprintf("%d requests instead of one", len(rs))
			}
			p, okk := unescape(rs[0].RawPath, false)
			if rs[0].Method != "GET" || rs[0].Host != "example.org" || rs[0].Query != "" || !okk || p != "/a"+string([]byte{b})+"z" {
				return fmt.Sprintf("the request is %s", rs[0])
			}
			return ""
		}
		return l, true
	}, judgeNet, showNet)
	check.Space(x, "refusals", serial("URLs that cannot be requested and wrong numbers of arguments: an error and no request"), func(c *explore.Chooser) (netLine, bool) {
		l := netLine{serve: func(int, *http.Request) reply { return ok(richArm.data) }, w: want{fail: true}, check: none}
		k := c.Free(len(badURLs) + 3)
		switch {
		case k < len(badURLs):
			l.args = []string{"--", badURLs[k]}
		default:
			l.args = [][]string{{}, {"https://example.org/a", "https://example.org/b"}, {"https://example.org/a", "x", "y"}}[k-len(badURLs)]
		}
		switch c.Free(3) {
		case 0:
			l.args = append([]string{"fetch"}, l.args...)
		case 1:
			l.args = append([]string{"fetch", "--raw"}, l.args...)
		case 2:
			l.args = append([]string{"fetch", "--debug"}, l.args...)
			l.t.o.Debug = true
		}
		return l, true
	}, judgeNet, showNet)
	loopSpaces(x, "fetch")
	responses(x, "fetch", []string{"fetch", "https://example.org/x"}, false, oneGet("https", "example.org", "/x"))
	x.Assume = append(x.Assume, "the network is the stand-in transport under net/http's client; what net/http's own transport adds is trusted")
}
