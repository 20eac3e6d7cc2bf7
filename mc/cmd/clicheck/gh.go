package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strconv"
	"strings"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/faults"
	"gpgpmc/gen"
	"gpgpmc/impl"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/github"
)

// ghKey is one key of the stand-in GitHub account.
type ghKey struct {
	id   string
	text string
	null bool // the element itself is null
	none bool // raw_key is null
	subs []string
	form map[string]any // other fields (absent: to be left out)
}

type absent struct{}

func (k ghKey) json() any {
	if k.null {
		return nil
	}
	subs := []any{}
	for _, s := range k.subs {
		subs = append(subs, map[string]any{"id": 2, "primary_key_id": 1, "key_id": s, "raw_key": "SUBKEY", "subkeys": []any{}, "emails": []any{}})
	}
	m := map[string]any{"id": 1, "primary_key_id": nil, "key_id": k.id, "public_key": "xjME", "raw_key": k.text,
		"emails": []any{map[string]any{"email": "a@example.org", "verified": true}}, "subkeys": subs, "can_sign": true,
		"created_at": "2020-11-09T06:29:59.000Z", "expires_at": nil}
	if k.none {
		m["raw_key"] = nil
	}
	for f, v := range k.form {
		if m[f] = v; v == (absent{}) {
			delete(m, f)
		}
	}
	return m
}

// ghRun is one run against the stand-in account.
type ghRun struct {
	user, id string
	keys     []ghKey
	badPage  int    // this page (from 1) is answered wrongly (0: none)
	how      string // error, status, body text, or cut
	badBody  []byte
	cut      int
	status   int
	chunk    int
	mixed    bool
	fault    error
	what     string
	// command
	cmd  bool
	args []string
	t    settings
}

func (g ghRun) show() map[string]any {
	m := map[string]any{"user": g.user, "keyid": g.id, "keys": len(g.keys)}
	if g.badPage > 0 {
		m["fault"] = fmt.Sprintf("page %d: %s (status %d, cut %d, %v)", g.badPage, g.how, g.status, g.cut, pick(g.fault))
	}
	if g.cmd {
		m["args"] = g.args
	}
	if g.what != "" {
		m["what"] = g.what
	}
	return m
}

func pageBody(keys []ghKey, page, per int) []byte {
	lo, hi := (page-1)*per, page*per
	if lo > len(keys) {
		lo = len(keys)
	}
	if hi > len(keys) {
		hi = len(keys)
	}
	out := []any{}
	for _, k := range keys[lo:hi] {
		out = append(out, k.json())
	}
	b, _ := json.Marshal(out)
	if len(keys) > 0 {
		switch keys[0].form["layout"] {
		case "wide":
			b, _ = json.MarshalIndent(out, "", "  ")
			b = append(append([]byte("\r\n \t"), b...), "\n\n"...)
		case "escaped":
			var e []byte
			in := false
			for i, ch := range b {
				if ch == '"' && (i == 0 || b[i-1] != '\\') {
					in = !in
				}
				if in && ch != '"' && ch != '\\' && (i == 0 || b[i-1] != '\\') && ch < 0x80 && ch != ':' {
					e = append(e, fmt.Sprintf("\\u%04x", ch)...)
				} else {
					e = append(e, ch)
				}
			}
			b = e
		}
	}
	return b
}

// server answers as GitHub does.
func (g ghRun) server() func(int, *http.Request) reply {
	return func(n int, r *http.Request) reply {
		if r.URL.Host == "github.com" {
			rp := ok([]byte(strings.Join(texts(g.keys), "")))
			rp.chunk, rp.mixed = g.chunk, g.mixed
			return rp
		}
		q, s := decodeQuery(r.URL.RawQuery)
		if s != "" {
			return reply{status: 400, limit: -1}
		}
		page, per := 1, 30
		if v := q["page"]; len(v) == 1 {
			page, _ = strconv.Atoi(v[0])
		}
		if v := q["per_page"]; len(v) == 1 {
			per, _ = strconv.Atoi(v[0])
		}
		if per > 100 {
			per = 100
		}
		if per < 1 {
			per = 30
		}
		if page < 1 {
			page = 1
		}
		if page > len(g.keys)/per+10 {
			return reply{err: true}
		}
		if page == g.badPage {
			switch g.how {
			case "error":
				return reply{err: true, fault: g.fault}
			case "status":
				return reply{status: g.status, body: []byte(`{"message": "no"}`), limit: -1, length: -1}
			case "body":
				return ok(g.badBody)
			case "cut":
				rp := ok(pageBody(g.keys, page, per))
				rp.limit, rp.chunk, rp.mixed, rp.fault = g.cut, g.chunk, g.mixed, g.fault
				return rp
			case "short":
				rp := ok(pageBody(g.keys, page, per)[:g.cut])
				rp.chunk, rp.mixed = g.chunk, g.mixed
				return rp
			}
		}
		rp := ok(pageBody(g.keys, page, per))
		rp.chunk, rp.mixed = g.chunk, g.mixed
		return rp
	}
}

func texts(ks []ghKey) (out []string) {
	for _, k := range ks {
		if !k.null && !k.none {
			out = append(out, k.text)
		}
	}
	return out
}

// expect is what the run must give: the text, or an error; and how many pages may be asked for.
func (g ghRun) expect(per int) (text string, found bool, pages int) {
	id := g.id
	if strings.HasPrefix(id, "0x") || strings.HasPrefix(id, "0X") {
		id = id[2:]
	}
	for p := 1; ; p++ {
		if p == g.badPage {
			return "", false, p
		}
		lo := (p - 1) * per
		for i := lo; i < lo+per && i < len(g.keys); i++ {
			k := g.keys[i]
			if !k.null && strings.EqualFold(k.id, id) {
				return k.text, !k.none, p
			}
		}
		if len(g.keys) < lo+per {
			return "", false, p
		}
	}
}

// segment reads an encoded path segment.
func segment(s string) (string, bool) {
	if strings.ContainsAny(s, "/?#") {
		return "", false
	}
	return unescape(s, false)
}

// checkRequests compares the requests with the right ones.
func (g ghRun) checkRequests(rs []request) (string, int) {
	per := 0
	for i, r := range rs {
		if r.Method != "GET" || r.Scheme != "https" || r.Frag != "" || r.URL.User != nil || r.Body {
			return "the request is " + r.String(), 0
		}
		if g.id == "" {
			seg, okk := "", false
			if strings.HasPrefix(r.RawPath, "/") && strings.HasSuffix(r.RawPath, ".gpg") && len(r.RawPath) >= 5 {
				seg, okk = segment(r.RawPath[1 : len(r.RawPath)-4])
			}
			if r.Host != "github.com" || r.Query != "" || !okk || seg != g.user || len(rs) != 1 {
				return fmt.Sprintf("request %d of %d is %s for user %q", i+1, len(rs), r, g.user), 0
			}
			continue
		}
		seg, okk := "", false
		if strings.HasPrefix(r.RawPath, "/users/") && strings.HasSuffix(r.RawPath, "/gpg_keys") && len(r.RawPath) >= 16 {
			seg, okk = segment(r.RawPath[7 : len(r.RawPath)-9])
		}
		q, s := decodeQuery(r.Query)
		if r.Host != "api.github.com" || !okk || seg != g.user || s != "" {
			return fmt.Sprintf("request %d of %d is %s for user %q", i+1, len(rs), r, g.user), 0
		}
		p, pp := "1", "30"
		if len(q["page"]) == 1 {
			p = q["page"][0]
		}
		if len(q["per_page"]) == 1 {
			pp = q["per_page"][0]
		}
		if p != fmt.Sprint(i+1) {
			return fmt.Sprintf("request %d is for page %s", i+1, p), 0
		}
		n, err := strconv.Atoi(pp)
		if err != nil || n < 1 || n > 100 || (per != 0 && n != per) {
			return fmt.Sprintf("request %d asks for %s keys per page", i+1, pp), 0
		}
		per = n
	}
	return "", per
}

func checkGH(e *explore.Env, g ghRun) *explore.Violation {
	e.Steps(1)
	var o outcome
	var reqs []request
	var open int
	var got []byte
	var err error
	fail := func(format string, a ...any) *explore.Violation {
		d := g.show()
		if g.cmd {
			for k, v := range o.show() {
				d[k] = v
			}
		} else {
			d["text"], d["error"] = clip(got), fmt.Sprint(err)
		}
		var rs []string
		for i, r := range reqs {
			if i < 10 {
				rs = append(rs, r.String())
			}
		}
		d["requests"] = rs
		return &explore.Violation{What: fmt.Sprintf(format, a...) + fmt.Sprintf(" (user %q, key ID %q, %d keys; %s)", g.user, g.id, len(g.keys), g.what), Detail: d}
	}
	if g.cmd {
		net0.reset(g.server())
		o = runBuf(g.args, bytes.NewReader(small.data))
		reqs, open = net0.state()
	} else {
		tr := &transport{}
		tr.reset(g.server())
		cli := fetch.New(fetch.WithHTTPClient(&http.Client{Transport: tr}))
		if p := impl.Guard(func() { got, err = github.GetKey(context.Background(), cli, g.user, g.id) }); p != "" {
			return fail("it panics: %s", p)
		}
		reqs, open = tr.state()
	}
	if open != 0 {
		return fail("%d response bodies were not closed", open)
	}
	s, per := g.checkRequests(reqs)
	if s != "" {
		return fail("%s", s)
	}
	if len(reqs) == 0 {
		return fail("no request")
	}
	var text string
	found := true
	if g.id == "" {
		text = strings.Join(texts(g.keys), "")
	} else {
		var pages int
		text, found, pages = g.expect(per)
		if len(reqs) != pages {
			return fail("%d pages are requested where %d are right (%d keys per page)", len(reqs), pages, per)
		}
	}
	if g.cmd {
		w := want{fail: true}
		if found {
			t := g.t
			t.armor = true
			w = listing(textSample(text), t)
		}
		if s := judge(o, w, g.t); s != "" {
			return fail("%s", s)
		}
	} else {
		if found && (err != nil || string(got) != text) {
			return fail("the key's text of %d bytes is not returned (%d bytes, error %v)", len(text), len(got), err)
		}
		if !found && err == nil {
			return fail("no error where there is no such key (%d bytes returned)", len(got))
		}
		if !found && len(got) > 0 {
			return fail("text is returned with an error")
		}
	}
	e.Outcome(fmt.Sprintf("found %v, %d requests, fault %s", found, len(reqs), g.how))
	return nil
}

var textSamples = map[string]*sample{}

// textSample is the sample of a key's text.
func textSample(s string) *sample {
	if t, ok := textSamples[s]; ok {
		return t
	}
	return &sample{data: []byte(s)}
}

func armorOf(bin []byte, headers ...string) string {
	a, _, _, _ := gen.Armor(bin, gen.ArmorOpt{Type: "PUBLIC KEY BLOCK", Headers: headers})
	s := string(a)
	textSamples[s] = &sample{name: "key", data: a, armored: true, bin: bin}
	return s
}

func keyList(n int) []ghKey {
	ks := make([]ghKey, n)
	for i := range ks {
		ks[i] = ghKey{id: fmt.Sprintf("%08X%08X", i+1, 0xABCDEF00+i), text: fmt.Sprintf("key %d\r\n", i), subs: []string{fmt.Sprintf("5%07X%08X", i, i)}}
	}
	return ks
}

func showGH(g ghRun) map[string]any { return g.show() }

func c21(x *check.Ctx) {
	counts := []int{0, 1, 2, 29, 30, 31, 99, 100, 101, 199, 200, 201, 250, 299, 300, 301}
	pre := map[int][]ghKey{}
	for _, n := range counts {
		pre[n] = keyList(n)
	}
	check.Space(x, "positions", check.Opt{Desc: "accounts of 0 to 301 keys (around every page boundary) x the key wanted at every position, or absent, x spelling of its ID: exactly its text, asking for exactly the pages up to it"}, func(c *explore.Chooser) (ghRun, bool) {
		n := explore.PickFree(c, counts)
		g := ghRun{user: "alice", keys: pre[n]}
		k := c.Free(n + 1)
		id := "FFFFFFFFFFFFFFFF"
		if k < n {
			id = pre[n][k].id
		}
		switch c.Free(6) {
		case 0:
			g.id = id
		case 1:
			g.id = strings.ToLower(id)
		case 2:
			g.id = "0x" + id
		case 3:
			g.id = "0X" + strings.ToLower(id)
		case 4:
			g.id = "0x" + strings.ToLower(id)
		case 5:
			g.id = strings.ToLower(id[:8]) + id[8:]
		}
		return g, true
	}, checkGH, showGH)
	large := []int{400, 401, 499, 500, 501, 600, 700, 800, 900, 999, 1000, 1001, 1099, 1100, 1101, 1200, 1500, 2000, 2500, x.Bound(3000, 10000)}
	check.Space(x, "large-accounts", check.Opt{Desc: "accounts of 400 to 3000 (thorough: 10000) keys, the key wanted being the first or last of any page (of 30 or 100), or absent"}, func(c *explore.Chooser) (ghRun, bool) {
		n := explore.PickFree(c, large)
		g := ghRun{user: "alice", keys: pre2(pre, n), id: "FFFFFFFFFFFFFFFF"}
		step := explore.PickFree(c, []int{30, 100})
		p := c.Free(n/step + 2)
		k := p * step
		if c.Free(2) == 1 {
			k--
		}
		if k < 0 || k > n {
			return g, false
		}
		if k < n {
			g.id = g.keys[k].id
		}
		return g, true
	}, checkGH, showGH)
	check.Space(x, "huge-accounts", check.Opt{Desc: "accounts whose key wanted is the first or last one of a page next to a power of two or ten up to page 1025 (thorough: 4097), or absent after it"}, func(c *explore.Chooser) (ghRun, bool) {
		pages := []int{32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 256, 257, 512, 513, 1000, 1001, 1024, 1025}
		if x.Thorough() {
			pages = append(pages, 2048, 2049, 4096, 4097)
		}
		p := explore.PickFree(c, pages)
		g := ghRun{user: "alice", id: "FFFFFFFFFFFFFFFF"}
		w := c.Free(3)
		if w > 0 && p > 257 && !x.Thorough() {
			return g, false
		}
		switch w {
		case 0: // the first key of the page, the only one there
			g.keys = keyList((p-1)*100 + 1)
			g.id = g.keys[(p-1)*100].id
		case 1: // the last key of a full page
			g.keys = keyList(p * 100)
			g.id = g.keys[p*100-1].id
		case 2:
			g.keys = keyList(p * 100)
		}
		return g, true
	}, checkGH, showGH)
	forms := []map[string]any{nil}
	for f, vs := range map[string][]any{
		"id":                  {0, 3, 1<<31 - 1, 1 << 31, 1 << 32, int64(1)<<53 + 1, absent{}},
		"primary_key_id":      {1, 1 << 31, int64(1) << 53, absent{}},
		"emails":              {nil, []any{}, []any{map[string]any{"email": "\u3042@example.org", "verified": false}, map[string]any{"email": ""}}, absent{}},
		"subkeys":             {nil, []any{}, absent{}},
		"can_sign":            {false, absent{}},
		"can_encrypt_comms":   {true, false},
		"can_encrypt_storage": {true, false},
		"can_certify":         {true, false},
		"created_at":          {nil, "2016-03-24T11:31:04-06:00", "1970-01-01T00:00:00Z", "2038-01-19T03:14:08.123456789Z", "9999-12-31T23:59:59Z", absent{}},
		"expires_at":          {"2106-02-07T06:28:16Z", "2000-02-29T00:00:00.000-07:00", absent{}},
		"public_key":          {"", strings.Repeat("A", 70000), absent{}},
		"name":                {nil, "laptop", "caf\u00e9"},
		"revoked":             {true, false},
		"url":                 {map[string]any{"key_id": "AAAAAAAAAAAAAAAA", "raw_key": "no"}, []any{[]any{}, nil}},
		"layout":              {"wide", "escaped"},
	} {
		for _, v := range vs {
			forms = append(forms, map[string]any{f: v})
		}
	}
	sort.Slice(forms, func(i, j int) bool { return fmt.Sprint(forms[i]) < fmt.Sprint(forms[j]) })
	smallText := armorOf(small.data)
	check.Space(x, "element-forms", check.Opt{Desc: "every field of a list element in every form GitHub gives it (large numbers, nulls, dates, left out, unknown fields, other layouts and escapes), in the key wanted or in one before it"}, func(c *explore.Chooser) (ghRun, bool) {
		a := ghKey{id: "AAAAAAAAAAAAAAAA", text: smallText, form: explore.PickFree(c, forms)}
		b := ghKey{id: "BBBBBBBBBBBBBBBB", text: "other\n", form: explore.PickFree(c, forms)}
		g := ghRun{user: "alice", id: explore.PickFree(c, []string{"AAAAAAAAAAAAAAAA", "BBBBBBBBBBBBBBBB", "CCCCCCCCCCCCCCCC"})}
		if c.Free(2) == 0 {
			g.keys = []ghKey{a, b}
		} else {
			g.keys = []ghKey{b, a}
		}
		return g, true
	}, checkGH, showGH)
	ktexts := []string{}
	for _, n := range bigSizes(x.Bound(1<<20, 1<<22)) {
		ktexts = append(ktexts, strings.Repeat("k", n-1)+"\n")
	}
	check.Space(x, "large-keys", check.Opt{Desc: "key texts of every size within one octet of a power of two or ten up to 2^20 (thorough: 2^22), alone or after other large keys, from the list and from the file of all keys"}, func(c *explore.Chooser) (ghRun, bool) {
		g := ghRun{user: "alice", id: "AAAAAAAAAAAAAAAA"}
		if c.Free(2) == 1 {
			g.keys = append(g.keys, ghKey{id: "CCCCCCCCCCCCCCCC", text: ktexts[len(ktexts)-1]}, ghKey{id: "BBBBBBBBBBBBBBBB", text: "b"})
		}
		g.keys = append(g.keys, ghKey{id: g.id, text: explore.PickFree(c, ktexts)})
		if c.Free(2) == 1 {
			g.id = ""
		}
		g.chunk = explore.PickFree(c, []int{0, 4096, 1000})
		return g, true
	}, checkGH, showGH)
	big := strings.Repeat("k", x.Bound(1<<27, 1<<28)) + "\n"
	check.Space(x, "huge-page", check.Opt{Workers: 1, Desc: "a key list (and a key file) of over 2^27 octets (thorough: 2^28), the key wanted being that large, or after one that is"}, func(c *explore.Chooser) (ghRun, bool) {
		g := ghRun{user: "alice", id: "AAAAAAAAAAAAAAAA", keys: []ghKey{{id: "AAAAAAAAAAAAAAAA", text: big}}}
		switch c.Free(3) {
		case 1:
			g.id = ""
		case 2:
			g.keys = append([]ghKey{{id: "CCCCCCCCCCCCCCCC", text: big}}, ghKey{id: g.id, text: "text of the key\n"})
		}
		return g, true
	}, checkGH, func(g ghRun) map[string]any { return map[string]any{"id": g.id, "keys": len(g.keys)} })
	big = ""
	check.Space(x, "near-ids", check.Opt{Desc: "IDs that are only part of a key's ID, longer than it, of a subkey, with blanks or a doubled prefix: no key is returned"}, func(c *explore.Chooser) (ghRun, bool) {
		n := explore.PickFree(c, []int{1, 2, 100, 101, 200})
		g := ghRun{user: "alice", keys: pre2(pre, n)}
		k := g.keys[explore.PickFree(c, []int{0, n - 1, n / 2})]
		id := k.id
		g.id = explore.PickFree(c, []string{id[:8], id[8:], id[1:], id[:15], id + "0", "0" + id, k.subs[0], "0x" + k.subs[0], " " + id, id + " ", "x" + id, "0x", id[:15] + "Z", "key 0", "1", "\x00", strings.Repeat(id, 2), "%" + id, id + "?page=9", "../" + id})
		return g, true
	}, checkGH, showGH)
	// shapes of the list
	shapes := []ghKey{{id: "AAAAAAAAAAAAAAAA", text: "A"}, {id: "BBBBBBBBBBBBBBBB", text: "B\r\n\u00e9\u2028<&>\"\\\x00\x1f"}, {null: true}, {id: "aaaaaaaaaaaaaaaa", text: "A2"}, {id: "AAAAAAAAAAAAAAAA", none: true}, {id: "", text: "empty id"}, {id: "AAAAAAAAAAAAAAAA", text: ""}, {id: "CCCCCCCCCCCCCCCC", text: "C", subs: []string{"AAAAAAAAAAAAAAAA"}}}
	ln := x.Bound(4, 5)
	check.Space(x, "shapes", check.Opt{Desc: "every list of up to four (thorough: five) elements from an alphabet (the key, its double, other keys, null elements, keys without text, with empty ID or text, subkeys of that ID), alone or across a page boundary"}, func(c *explore.Chooser) (ghRun, bool) {
		g := ghRun{user: "bob", id: "AAAAAAAAAAAAAAAA"}
		at := c.Free(3)
		if at > 0 {
			g.keys = append(g.keys, pre[99][:97+at]...)
		}
		for k := c.Free(ln + 1); k > 0; k-- {
			g.keys = append(g.keys, explore.PickFree(c, shapes))
		}
		return g, true
	}, checkGH, showGH)
	check.Space(x, "faults", check.Opt{Desc: "page 1 to 4 answered by a transport error, every error status, or malformed text, with the key wanted on any page: an error unless the key came before, and no further request"}, func(c *explore.Chooser) (ghRun, bool) {
		n := explore.PickFree(c, []int{0, 1, 100, 150, 200, 250, 300, 301})
		g := ghRun{user: "carol", keys: pre2(pre, n)}
		k := explore.PickFree(c, []int{0, 99, 100, 199, 200, 299, 300, -1})
		if k >= n {
			return g, false
		}
		g.id = "FFFFFFFFFFFFFFFF"
		if k >= 0 {
			g.id = g.keys[k].id
		}
		g.badPage = 1 + c.Free(4)
		bodies := []string{"", "{}", "[", "]", "null x", "[{]", "[{\"key_id\": 1}]", "{\"message\": \"Not Found\"}", "\"text\"", "1", "[1]", "[[]]", "<html>", "[{\"key_id\": \"FFFFFFFFFFFFFFFF\", \"raw_key\": 5}]", "[{\"key_id\": \"FFFFFFFFFFFFFFFF\", \"raw_key\": \"x\"}", "[,]", "\xff", "[{\"created_at\": \"never\"}]"}
		switch j := c.Free(1 + 8 + len(bodies)); {
		case j == 0:
			g.how = "error"
		case j < 9:
			g.how, g.status = "status", []int{400, 401, 403, 404, 429, 500, 502, 503}[j-1]
		default:
			g.how, g.badBody = "body", []byte(bodies[j-9])
			if string(g.badBody) == "null x" {
				g.badBody = []byte("nul")
			}
		}
		return g, true
	}, checkGH, showGH)
	check.Space(x, "fault-kinds", check.Opt{Desc: "page 1, 2 or 3 failing with each kind of transport error, answering with every status from 400 to 599, or its body with each kind of read error at the start, inside and before the end, the key wanted on any page or none: an error unless the key came before, and no further request"}, func(c *explore.Chooser) (ghRun, bool) {
		n := explore.PickFree(c, []int{1, 150, 250})
		g := ghRun{user: "carol", keys: pre2(pre, n)}
		k := explore.PickFree(c, []int{0, 100, 200, -1})
		if k >= n {
			return g, false
		}
		g.id = "FFFFFFFFFFFFFFFF"
		if k >= 0 {
			g.id = g.keys[k].id
		}
		g.badPage = 1 + c.Free(3)
		if g.badPage > n/100+1 {
			return g, false
		}
		switch c.Free(3) {
		case 0:
			g.how, g.fault = "error", explore.PickFree(c, faults.Transport)
		case 1:
			g.how, g.status = "status", 400+c.Free(200)
		case 2:
			g.how, g.fault = "cut", explore.PickFree(c, faults.Read)
			g.mixed = c.Free(2) == 1
			t := len(pageBody(g.keys, g.badPage, 100))
			g.cut = explore.PickFree(c, []int{0, 1, t / 2, t - 1})
		}
		return g, true
	}, checkGH, showGH)
	small2 := pre[2]
	cut := func(keys []ghKey, page int, step int) func(c *explore.Chooser) (ghRun, bool) {
		total := len(pageBody(keys, page, 100))
		return func(c *explore.Chooser) (ghRun, bool) {
			g := ghRun{user: "dave", keys: keys, badPage: page, how: explore.PickFree(c, []string{"cut", "short"})}
			g.id = explore.PickFree(c, []string{keys[len(keys)-1].id, "FFFFFFFFFFFFFFFF", keys[(page-1)*100].id})
			g.mixed = c.Free(2) == 1
			g.chunk = explore.PickFree(c, []int{0, 1})
			g.cut = c.Free((total-1)/step) * step
			return g, true
		}
	}
	check.Space(x, "page-cuts", check.Opt{Desc: "a page that breaks off, or just ends, after every number of bytes: an error"}, cut(small2, 1, 1), checkGH, showGH)
	check.Space(x, "second-page-cuts", check.Opt{Desc: "the second page breaking off, or ending, after every number of bytes"}, cut(append(append([]ghKey{}, pre[100]...), small2...), 2, 1), checkGH, showGH)
	check.Space(x, "full-page-cuts", check.Opt{Desc: "a full first page breaking off, or ending, after every 41st (thorough: every) byte"}, cut(pre[100], 1, x.Bound(41, 1)), checkGH, showGH)
	// user names
	check.Space(x, "user-octets", check.Opt{Desc: "every user name of up to two octets (all 256 values each), for the key file and for the key list: one path segment that decodes to the name"}, func(c *explore.Chooser) (ghRun, bool) {
		g := ghRun{keys: pre[1]}
		var b []byte
		for k := c.Free(3); k > 0; k-- {
			b = append(b, byte(c.Free(256)))
		}
		g.user = string(b)
		if c.Free(2) == 1 {
			g.id = pre[1][0].id
		}
		return g, len(b) > 0
	}, checkGH, showGH)
	sp := []byte("/?#%&+ .;:@=\\a2Ff\x00\xff~")
	m := x.Bound(4, 5)
	check.Space(x, "user-specials", check.Opt{Desc: "every user name of up to four (thorough: five) characters that mean something in a URL"}, func(c *explore.Chooser) (ghRun, bool) {
		g := ghRun{keys: pre[1], id: pre[1][0].id}
		var b []byte
		for k := 0; k < m; k++ {
			b = append(b, sp[c.Free(len(sp))])
		}
		g.user = string(b)
		return g, true
	}, checkGH, showGH)
	// the command
	var cks []ghKey
	for i := 0; i < 102; i++ {
		id := fmt.Sprintf("%016X", 0xA0+i)
		cks = append(cks, ghKey{id: id, text: armorOf(gen.Pkt(gen.HNew, 13, []byte("user "+id)), "Comment: "+id)})
	}
	cks[1].text = armorOf(rich.data)
	cks[2].none = true
	cks[3].text = "no armor at all"
	cks[4].null = true
	names := []string{"alice", "a/b", "../x", "a?b=c", "a#b", "a%2Fb", "a b", "日本", "-x", "a.gpg", "users/alice/gpg_keys?", "\xff", "..", "."}
	{
		check.Space(x, "command", serial("the command for every kind of user name and key (found, other page, absent, without text, without armor) under option sets, with and without --raw"), func(c *explore.Chooser) (ghRun, bool) {
			g := ghRun{cmd: true, keys: cks, user: explore.PickFree(c, names)}
			k := c.Free(9)
			switch k {
			case 0, 1, 2, 3, 4:
				g.id = cks[k].id
			case 5:
				g.id = "0x" + strings.ToLower(cks[101].id)
			case 6:
				g.id = "123"
			case 7:
				g.id = cks[100].id
			case 8:
				g.keys = cks[1:2]
			}
			var a []string
			a, g.t = optSet(explore.PickFree(c, []int{0, 1, 4, 8, 128, 256, 0x17a}))
			if c.Free(2) == 1 {
				a = append(a, "--raw")
				g.t.raw = true
			}
			if g.id != "" {
				if c.Free(2) == 0 {
					a = append(a, "--keyid", g.id)
				} else {
					a = append(a, "--keyid="+g.id)
				}
			}
			cmd := explore.PickFree(c, []string{"github", "gh", "g"})
			g.args = append(append([]string{cmd}, a...), "--", g.user)
			return g, true
		}, checkGH, showGH)
	}
	check.Space(x, "command-faults", serial("the command with a page failing or cut at every byte"), func(c *explore.Chooser) (ghRun, bool) {
		g := ghRun{cmd: true, keys: cks[:2], user: "alice", id: cks[1].id, badPage: 1}
		g.args = []string{"github", "--keyid", g.id, "alice"}
		if c.Free(2) == 1 {
			g.args = append(g.args, "--raw")
			g.t.raw = true
		}
		if c.Free(2) == 1 {
			g.args = append(g.args, "--debug")
			g.t.o.Debug = true
		}
		switch explore.PickFree(c, []string{"error", "status", "cut", "short"}) {
		case "error":
			g.how = "error"
		case "status":
			g.how, g.status = "status", 404
		case "cut":
			g.how, g.cut = "cut", c.Free(len(pageBody(g.keys, 1, 100)))
		case "short":
			g.how, g.cut = "short", c.Free(len(pageBody(g.keys, 1, 100)))
		}
		return g, true
	}, checkGH, showGH)
	check.Space(x, "refusals", serial("no or several user names and bad options: an error and no request"), func(c *explore.Chooser) (netLine, bool) {
		l := netLine{serve: func(int, *http.Request) reply { return ok(richArm.data) }, w: want{fail: true}, check: none}
		l.args = explore.PickFree(c, [][]string{{"github"}, {"github", "a", "b"}, {"gh", "--keyid", "1"}, {"g", "--raw", "a", "b", "c"}, {"github", "--keyid=1", "a", "b"}})
		if c.Free(2) == 1 {
			l.args = append(l.args, "--debug")
			l.t.o.Debug = true
		}
		return l, true
	}, judgeNet, showNet)
	responses(x, "github", []string{"github", "alice"}, true, oneGet("https", "github.com", "/alice.gpg"))
	x.Assume = append(x.Assume, "the stand-in account answers page and per_page as the GitHub API documents (per_page at most 100, 30 if absent)")
}

func pre2(pre map[int][]ghKey, n int) []ghKey {
	if k, ok := pre[n]; ok {
		return k
	}
	k := keyList(n)
	pre[n] = k
	return k
}
