package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// tree is a listing to be rendered.
type tree struct {
	nodes  []*model.Node
	indent int
	text   string
	null   bool
}

func showTree(t tree) map[string]any {
	b, _ := json.Marshal(t.nodes)
	s := string(b)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return map[string]any{"listing": s, "json_indent": t.indent, "text_indent": t.text}
}

func toItem(n *model.Node) *result.Item {
	it := result.NewItem(result.Name(n.Name), result.Value(n.Value), result.Note(n.Note), result.DumpStr(n.Dump))
	for _, c := range n.Items {
		it.Add(toItem(c))
		it.Add(nil)
	}
	return it
}

func checkTree(e *explore.Env, t tree) *explore.Violation {
	info := result.New()
	for _, n := range t.nodes {
		info.Add(toItem(n))
		info.Add(nil)
	}
	return checkInfo(e, t, info)
}

func checkInfo(e *explore.Env, t tree, info *result.Info) (v *explore.Violation) {
	bad := func(format string, a ...any) *explore.Violation {
		return &explore.Violation{What: fmt.Sprintf(format, a...), Detail: showTree(t)}
	}
	p := impl.Guard(func() {
		render := func(when string) *explore.Violation {
			e.Steps(1)
			r, err := info.JSON(t.indent)
			if err != nil {
				return bad("%s: JSON fails: %v", when, err)
			}
			j, err := io.ReadAll(r)
			if err != nil {
				return bad("%s: JSON cannot be read: %v", when, err)
			}
			back, err := model.ReadJSON(j)
			if err != nil {
				return bad("%s: the JSON output does not read back: %v: %s", when, err, clipB(j))
			}
			if d := model.Equal(t.nodes, back, ""); d != "" {
				return bad("%s: the JSON output reads back differently: %s", when, d)
			}
			// layout: indent size only adds white space
			r0, err := info.JSON(0)
			if err != nil {
				return bad("%s: JSON fails: %v", when, err)
			}
			j0, _ := io.ReadAll(r0)
			if t.indent > 0 {
				var w bytes.Buffer
				json.Indent(&w, j0, "", strings.Repeat(" ", t.indent))
				if w.String() != string(j) {
					return bad("%s: JSON with indent %d is not the compact form indented by %d: %s", when, t.indent, t.indent, clipB(j))
				}
			}
			if bytes.IndexByte(j0, '\n') >= 0 {
				return bad("%s: compact JSON has line breaks", when)
			}
			var b strings.Builder
			model.Text(t.nodes, t.text, 0, &b)
			buf := info.ToString(t.text)
			if g := buf.String(); g != b.String() {
				return bad("%s: text output %q, expected %q", when, clipB([]byte(g)), clipB([]byte(b.String())))
			}
			buf.WriteString("scribble")
			b.Reset()
			model.Text(t.nodes, "\t", 0, &b)
			if g := info.String(); g != b.String() {
				return bad("%s: string form %q, expected %q", when, clipB([]byte(g)), clipB([]byte(b.String())))
			}
			if d := model.Equal(t.nodes, impl.Convert(info.Packets), ""); d != "" {
				return bad("%s: rendering changed the listing: %s", when, d)
			}
			for i, it := range info.Packets {
				b.Reset()
				model.Text(t.nodes[i:i+1], "\t", 0, &b)
				if it.String() != b.String() {
					return bad("%s: entry %d printed as %q, expected %q", when, i, it.String(), b.String())
				}
			}
			return nil
		}
		if v = render("first"); v != nil {
			return
		}
		v = render("again")
	})
	if p != "" {
		return bad("panic: %s", p)
	}
	n := 0
	var cnt func(ns []*model.Node)
	cnt = func(ns []*model.Node) {
		for _, x := range ns {
			n++
			cnt(x.Items)
		}
	}
	cnt(t.nodes)
	if n > 9 {
		n = 10
	}
	e.Outcome(fmt.Sprint(n, " entries"))
	return v
}

func clipB(b []byte) string {
	if len(b) > 600 {
		return string(b[:600]) + "..."
	}
	return string(b)
}

var strDom = []string{"a", "", "b c", "a: b", "(n)", "\"q\"", "back\\slash", "<a&b>", "</script>", "\u2028\u2029", "%d%s%n", "\t", "x\ny", "x\r\ny", "\x00", "\x1b", "\x7f", "é", "日本語", "😀", "null", "{}", "[1]", "\u00a0", " lead", "trail ", "\\u0041", "\uffff", "\ufeff", "'", "`", strings.Repeat("long ", 900)}

// shape enumerates forests with at most n nodes and depth d.
func shape(c *explore.Chooser, n *int, d int) []*model.Node {
	var out []*model.Node
	for *n > 0 && c.Free(2) == 1 {
		*n--
		x := &model.Node{}
		if d > 1 {
			x.Items = shape(c, n, d-1)
		}
		out = append(out, x)
	}
	return out
}

func fillTree(c *explore.Chooser, ns []*model.Node, k *int) {
	for _, n := range ns {
		*k++
		pick := func(def string) string {
			i := c.Choose(len(strDom) + 1)
			if i == 0 {
				return def
			}
			return strDom[i-1]
		}
		n.Name = pick(fmt.Sprintf("name%d", *k))
		n.Value = pick(fmt.Sprintf("value%d", *k))
		n.Note = pick(fmt.Sprintf("note%d", *k))
		n.Dump = pick(fmt.Sprintf("%02x %02x", *k, *k+1))
		fillTree(c, n.Items, k)
	}
}

func c16(x *check.Ctx) {
	indents := []int{0, 1, 2, 3, 4, 8, 16, -1}
	texts := []string{"\t", "", " ", "  ", "    ", "--", "\t\t"}
	max := x.Bound(3, 4)
	check.Space(x, "small-trees", check.Opt{MaxDev: 1, Desc: "every forest of up to three (thorough: four) entries, each field in turn over every special string, at every JSON indent and text indent"}, func(c *explore.Chooser) (tree, bool) {
		k := c.Free(len(indents))
		t := tree{indent: indents[k], text: texts[k%len(texts)]}
		n := max
		t.nodes = shape(c, &n, 4)
		i := 0
		fillTree(c, t.nodes, &i)
		return t, true
	}, checkTree, showTree)
	check.Space(x, "field-pairs", check.Opt{MaxDev: 2, Desc: "every pair of fields of one entry with one nested entry over every pair of special strings"}, func(c *explore.Chooser) (tree, bool) {
		t := tree{indent: explore.PickFree(c, []int{0, 2}), text: "  "}
		t.nodes = []*model.Node{{Items: []*model.Node{{}}}}
		i := 0
		fillTree(c, t.nodes, &i)
		return t, true
	}, checkTree, showTree)
	check.Space(x, "presence", check.Opt{Desc: "every forest of up to four entries with every combination of empty and filled value, note and dump"}, func(c *explore.Chooser) (tree, bool) {
		t := tree{indent: 2, text: "\t"}
		n := x.Bound(3, 4)
		t.nodes = shape(c, &n, 4)
		i := 0
		var f func(ns []*model.Node)
		f = func(ns []*model.Node) {
			for _, n := range ns {
				i++
				n.Name = fmt.Sprintf("n%d", i)
				m := c.Free(8)
				if m&1 != 0 {
					n.Value = "v"
				}
				if m&2 != 0 {
					n.Note = "o"
				}
				if m&4 != 0 {
					n.Dump = "00 01"
				}
				f(n.Items)
			}
		}
		f(t.nodes)
		return t, true
	}, checkTree, showTree)
	check.Space(x, "code-points", check.Opt{Desc: "every code point (surrogates excluded) in value and note"}, func(c *explore.Chooser) (tree, bool) {
		hi := c.Free(17 * 64)
		var s strings.Builder
		lo := c.Free(64)
		for i := 0; i < 16; i++ {
			r := rune(hi*1024 + lo*16 + i)
			if r >= 0xd800 && r < 0xe000 {
				return tree{}, false
			}
			s.WriteRune(r)
		}
		return tree{indent: 2, text: "  ", nodes: []*model.Node{{Name: "n", Value: s.String(), Note: "x" + s.String()}}}, true
	}, checkTree, showTree)
	check.Space(x, "deep-and-wide", check.Opt{Desc: "nesting of every depth up to 70 and lists of boundary lengths, with and without dumps, at every indent"}, func(c *explore.Chooser) (tree, bool) {
		t := tree{indent: explore.PickFree(c, indents), text: explore.PickFree(c, texts)}
		dump := ""
		if c.Free(2) == 1 {
			dump = "aa bb"
		}
		if c.Free(2) == 0 {
			d := c.Free(70) + 1
			var root, cur *model.Node
			for i := 0; i < d; i++ {
				n := &model.Node{Name: fmt.Sprintf("level %d", i), Dump: dump, Note: "x"}
				if cur == nil {
					root = n
				} else {
					cur.Items = append(cur.Items, n)
				}
				cur = n
			}
			t.nodes = []*model.Node{root}
		} else {
			w := explore.PickFree(c, []int{5, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000})
			top := c.Free(2) == 0
			var l []*model.Node
			for i := 0; i < w; i++ {
				l = append(l, &model.Node{Name: fmt.Sprintf("item %d", i), Value: "v", Dump: dump})
			}
			if top {
				t.nodes = l
			} else {
				t.nodes = []*model.Node{{Name: "top", Items: l}}
			}
		}
		return t, true
	}, checkTree, showTree)
	big := []int{499, 500, 501, 511, 512, 513, 999, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 65537, x.Bound(100000, 1000000)}
	check.Space(x, "large", check.Opt{Desc: "nesting up to 400 (thorough: 1000) deep, lists of up to 100000 (thorough: a million) entries, and every field of boundary length up to 2^20, compact and indented"}, func(c *explore.Chooser) (tree, bool) {
		t := tree{indent: explore.PickFree(c, []int{0, 2}), text: explore.PickFree(c, []string{"\t", "  "})}
		dump := explore.PickFree(c, []string{"", "aa bb"})
		switch c.Free(4) {
		case 0:
			d := 71 + c.Free(x.Bound(330, 930))
			if d > 130 && d%10 > 1 && d&(d-1) != 0 {
				return t, false
			}
			n := &model.Node{Name: "end", Value: "v", Dump: dump}
			for i := d; i > 0; i-- {
				n = &model.Node{Name: fmt.Sprintf("level %d", i), Dump: dump, Items: []*model.Node{n}}
			}
			t.nodes = []*model.Node{n}
		case 1, 2:
			w := explore.PickFree(c, big)
			l := make([]*model.Node, w)
			for i := range l {
				l[i] = &model.Node{Name: fmt.Sprintf("item %d", i), Value: "v", Dump: dump}
			}
			t.nodes = l
			if t.indent == 0 {
				t.nodes = []*model.Node{{Name: "top", Items: l}}
			}
			if w > 70000 && (dump != "" || t.text != "\t") {
				return t, false
			}
		case 3:
			k := 6 + c.Free(15)
			s := strings.Repeat("abcdefghi<", (1<<k)/10+2)[:1<<k-1+c.Free(3)]
			n := &model.Node{Name: "n", Value: "v", Note: "o", Dump: dump}
			switch c.Free(4) {
			case 0:
				n.Name = s
			case 1:
				n.Value = s
			case 2:
				n.Note = s
			case 3:
				n.Dump = s
			}
			t.nodes = []*model.Node{n, {Name: "after"}}
		}
		return t, true
	}, checkTree, showTree)
	check.Space(x, "indents", check.Opt{Desc: "every JSON indent from -10 to 300 and boundary ones to 10000, and text indents of every length to 300 and boundary ones to 10000"}, func(c *explore.Chooser) (tree, bool) {
		k := c.Free(322) - 10
		if k > 300 {
			k = []int{511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, 10000}[k-301]
		}
		t := tree{indent: k, text: "\t"}
		if k >= 0 {
			t.text = strings.Repeat(explore.PickFree(c, []string{" ", "\t", "-", "\u3000", "%"}), k)
		}
		t.nodes = []*model.Node{{Name: "a", Value: "v", Items: []*model.Node{{Name: "b", Note: "n", Dump: "00", Items: []*model.Node{{Name: "c"}, {Name: "d", Dump: "01"}}}, {Name: "e"}}}, {Name: "f"}}
		return t, true
	}, checkTree, showTree)
	// listings of real packets
	var ds [][]byte
	for tag := 0; tag < 64; tag++ {
		ds = append(ds, gen.Pkt(gen.HNew, tag, sampleBody(tag)))
	}
	g := gen.New(explore.Default(), gen.Tiny)
	for _, t := range gen.SubTypes {
		ds = append(ds, gen.Pkt(gen.HNew, 2, g.SigWith(4, [][]byte{g.Sub(t, 1)}, nil)))
	}
	check.Space(x, "parsed-listings", check.Opt{Desc: "listings of every pair of sample packets, plain and debug, at four indents"}, func(c *explore.Chooser) (tree, bool) {
		a, b := explore.PickFree(c, ds), explore.PickFree(c, ds)
		o := model.Opts{UTC: true, Debug: c.Free(2) == 1}
		nodes, _, err := model.Decode(append(append([]byte{}, a...), b...), o)
		if err != nil {
			return tree{}, false
		}
		k := c.Free(2)
		return tree{nodes: nodes, indent: []int{0, 2, 4, 8}[k], text: []string{"\t", "  ", "    ", ""}[k]}, true
	}, func(e *explore.Env, t tree) *explore.Violation {
		return checkTree(e, t)
	}, showTree)
	check.Space(x, "missing", check.Opt{Desc: "a missing listing at every indent"}, func(c *explore.Chooser) (tree, bool) {
		return tree{null: true, indent: explore.PickFree(c, indents), text: explore.PickFree(c, texts)}, true
	}, func(e *explore.Env, t tree) (v *explore.Violation) {
		p := impl.Guard(func() {
			var info *result.Info
			r, err := info.JSON(t.indent)
			var b []byte
			if err == nil {
				b, _ = io.ReadAll(r)
			}
			info.Add(result.NewItem())
			if err != nil || len(b) > 0 || info.ToString(t.text).Len() > 0 || info.String() != "" {
				v = &explore.Violation{What: "a missing listing is not rendered as nothing", Detail: showTree(t)}
			}
		})
		if p != "" {
			return &explore.Violation{What: "panic: " + p, Detail: showTree(t)}
		}
		e.Outcome("nothing")
		return v
	}, showTree)
	// and what a parser really returns
	check.Space(x, "parser-output", check.Opt{Desc: "the listing object the parser itself returns for every sample, rendered repeatedly"}, func(c *explore.Chooser) (tree, bool) {
		return tree{indent: explore.PickFree(c, []int{0, 2}), text: string(explore.PickFree(c, ds))}, true
	}, func(e *explore.Env, t tree) *explore.Violation {
		r := impl.ParseReader(context.New(context.Set(context.DEBUG, true), context.Set(context.UTC, true)), strings.NewReader(t.text))
		if r.Err != nil || r.Panic != "" {
			return nil // decided by other properties
		}
		t.text = "\t"
		t.nodes = r.Nodes
		return checkInfo(e, t, r.Info)
	}, nil)
}
