package main

import (
	"bytes"
	"fmt"
	"strings"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/impl"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

type setOp struct {
	byName bool
	name   string
	code   int
	val    bool
}

func (o setOp) String() string {
	if o.byName {
		return fmt.Sprintf("SetByString(%q,%v)", o.name, o.val)
	}
	return fmt.Sprintf("Set(%d,%v)", o.code, o.val)
}

var optNames = []string{"armor", "cert", "debug", "gdump", "int", "literal", "marker", "private", "utc"}
var optCodes = []context.OptCode{context.ARMOR, context.CERT, context.DEBUG, context.GDUMP, context.INTEGER, context.LITERAL, context.MARKER, context.PRIVATE, context.UTC}

// index of the option an operation sets; -1 none.
func (o setOp) target() int {
	if o.byName {
		for i, n := range optNames {
			if strings.ToLower(o.name) == n {
				return i
			}
		}
		return -1
	}
	if o.code >= 1 && o.code <= 9 {
		return o.code - 1
	}
	return -1
}

type optCase struct {
	ctor, ops []setOp
	null      bool
}

func showOpt(c optCase) map[string]any {
	return map[string]any{"constructor": fmt.Sprint(c.ctor), "operations": fmt.Sprint(c.ops), "nil": c.null}
}

func (o setOp) opt() context.OptFunc {
	if o.byName {
		return context.SetByString(o.name, o.val)
	}
	return context.Set(o.codeOf(), o.val)
}

// codeOf maps 1..9 to the exported names, so that a renumbering is no alarm.
func (o setOp) codeOf() context.OptCode {
	if o.code >= 1 && o.code <= 9 {
		return optCodes[o.code-1]
	}
	return context.OptCode(o.code)
}

func checkOpt(e *explore.Env, c optCase) (v *explore.Violation) {
	bad := func(format string, a ...any) *explore.Violation {
		return &explore.Violation{What: fmt.Sprintf(format, a...), Detail: showOpt(c)}
	}
	var m [9]bool
	verify := func(x *context.Context, at string) *explore.Violation {
		dbg := m[2]
		want := [9]bool{m[0], m[1] || dbg, dbg, m[3] || dbg, m[4] || dbg, m[5] || dbg, m[6] || dbg, m[7] || dbg, m[8]}
		got := [9]bool{x.Armor(), x.Cert(), x.Debug(), x.GDump(), x.Integer(), x.Literal(), x.Marker(), x.Private(), x.UTC()}
		var s []string
		for i := range want {
			if got[i] != want[i] {
				return bad("%s: option %s reads %v, expected %v", at, optNames[i], got[i], want[i])
			}
			if g := x.Get(optCodes[i]); g != m[i] {
				return bad("%s: setting %s reads back %v, expected %v", at, optNames[i], g, m[i])
			}
			s = append(s, fmt.Sprintf("%s:%v", optNames[i], want[i]))
		}
		if x.Get(context.UNKNOWN) || x.Get(context.OptCode(-1)) {
			return bad("%s: an unknown code reads true", at)
		}
		if g := x.String(); g != strings.Join(s, ",") {
			return bad("%s: printed as %q, expected %q", at, g, strings.Join(s, ","))
		}
		e.Outcome(fmt.Sprint(want))
		return nil
	}
	p := impl.Guard(func() {
		if c.null {
			var x *context.Context
			for _, o := range c.ops {
				e.Steps(1)
				o.opt()(x)
				if !o.byName {
					x.Set(o.codeOf(), o.val)
				}
			}
			v = verify(x, "missing context")
			return
		}
		var fs []context.OptFunc
		for _, o := range c.ctor {
			fs = append(fs, o.opt())
			if t := o.target(); t >= 0 {
				m[t] = o.val
			}
		}
		x := context.New(fs...)
		other := context.New()
		if v = verify(x, "new context"); v != nil {
			return
		}
		for i, o := range c.ops {
			e.Steps(1)
			if o.byName {
				o.opt()(x)
			} else {
				x.Set(o.codeOf(), o.val)
			}
			if t := o.target(); t >= 0 {
				m[t] = o.val
			}
			if v = verify(x, fmt.Sprintf("after operation %d %v", i, o)); v != nil {
				return
			}
		}
		m = [9]bool{}
		v = verify(other, "another context")
	})
	if p != "" {
		return bad("panic: %s", p)
	}
	return v
}

func setOps(names bool) []setOp {
	var ops []setOp
	for _, val := range []bool{true, false} {
		for k := 1; k <= 9; k++ {
			ops = append(ops, setOp{code: k, val: val})
		}
		for _, k := range []int{0, -1, 10, 999} {
			ops = append(ops, setOp{code: k, val: val})
		}
		for _, n := range optNames {
			ops = append(ops, setOp{byName: true, name: n, val: val})
			if names {
				ops = append(ops, setOp{byName: true, name: strings.ToUpper(n), val: val}, setOp{byName: true, name: strings.ToUpper(n[:1]) + n[1:], val: val})
			}
		}
		for _, n := range []string{"", "unknown", "utc ", "in", "integer", "ar mor"} {
			ops = append(ops, setOp{byName: true, name: n, val: val})
		}
	}
	return ops
}

func c27(x *check.Ctx) {
	ops := setOps(true)
	check.Space(x, "sequences", check.Opt{Desc: fmt.Sprintf("every sequence of up to three of %d settings (by code, by name in three spellings, unknown codes and names), all read back after each", len(setOps(false)))}, func(c *explore.Chooser) (optCase, bool) {
		var t optCase
		al := setOps(false)
		if x.Thorough() {
			al = ops
		}
		for len(t.ops) < 3 {
			k := c.Free(len(al) + 1)
			if k == 0 {
				break
			}
			t.ops = append(t.ops, al[k-1])
		}
		return t, true
	}, checkOpt, showOpt)
	check.Space(x, "constructor", check.Opt{Desc: "every pair of settings given to the constructor followed by every setting"}, func(c *explore.Chooser) (optCase, bool) {
		var t optCase
		t.ctor = []setOp{explore.PickFree(c, ops), explore.PickFree(c, ops)}
		if x.Thorough() || c.Free(2) == 1 {
			al := setOps(false)[:26]
			t.ops = []setOp{explore.PickFree(c, al)}
		}
		return t, true
	}, checkOpt, showOpt)
	check.Space(x, "all-sets", check.Opt{Desc: "all 512 option sets, established in forward and reverse order, by code and by name, followed by any one change"}, func(c *explore.Chooser) (optCase, bool) {
		var t optCase
		k := c.Free(512)
		mode := c.Free(4)
		for i := 0; i < 9; i++ {
			j := i
			if mode&1 != 0 {
				j = 8 - i
			}
			o := setOp{code: j + 1, val: k>>j&1 != 0}
			if mode&2 != 0 {
				o = setOp{byName: true, name: optNames[j], val: o.val}
			}
			t.ops = append(t.ops, o)
		}
		t.ops = append(t.ops, setOp{code: c.Free(9) + 1, val: c.Free(2) == 1})
		return t, true
	}, checkOpt, showOpt)
	check.Space(x, "spellings", check.Opt{Desc: "every upper/lower case spelling of every option name, and every name with one letter dropped, doubled, changed or surrounded by space"}, func(c *explore.Chooser) (optCase, bool) {
		n := []byte(explore.PickFree(c, optNames))
		switch c.Free(5) {
		case 0:
			for i := range n {
				if c.Free(2) == 1 {
					n[i] -= 32
				}
			}
		case 1:
			k := c.Free(len(n))
			n = append(n[:k:k], n[k+1:]...)
		case 2:
			k := c.Free(len(n))
			n = append(append(append([]byte{}, n[:k+1]...), n[k]), n[k+1:]...)
		case 3:
			n[c.Free(len(n))]++
		case 4:
			n = []byte(explore.PickFree(c, []string{" ", "\t", "-", "--", "\x00"}) + string(n))
		}
		return optCase{ops: []setOp{{byName: true, name: string(n), val: true}}}, true
	}, checkOpt, showOpt)
	check.Space(x, "missing-context", check.Opt{Desc: "every setting on a missing context"}, func(c *explore.Chooser) (optCase, bool) {
		return optCase{null: true, ops: []setOp{explore.PickFree(c, ops)}}, true
	}, checkOpt, showOpt)
	// a parser without a context
	type pc struct{ data []byte }
	var ds [][]byte
	for tag := 0; tag < 64; tag++ {
		ds = append(ds, gen.Pkt(gen.HNew, tag, sampleBody(tag)))
	}
	armored, _, _, _ := gen.Armor(ds[13], gen.ArmorOpt{Type: "PUBLIC KEY BLOCK"})
	ds = append(ds, armored, nil, []byte("plain text"))
	check.Space(x, "parser-without-context", check.Opt{Desc: "every pair of packets parsed without a context and with an empty one"}, func(c *explore.Chooser) (pc, bool) {
		return pc{append(append([]byte{}, explore.PickFree(c, ds)...), explore.PickFree(c, ds)...)}, true
	}, func(e *explore.Env, t pc) *explore.Violation {
		e.Steps(1)
		a := impl.ParseReader(nil, bytes.NewReader(t.data))
		b := impl.ParseReader(context.New(), bytes.NewReader(t.data))
		d := map[string]any{"input": fmt.Sprintf("%x", t.data)}
		if a.Panic != b.Panic {
			return &explore.Violation{What: "parsing without a context panics: " + a.Panic, Detail: d}
		}
		if (a.Err == nil) != (b.Err == nil) {
			return &explore.Violation{What: fmt.Sprintf("without a context: %v, with an empty one: %v", a.Err, b.Err), Detail: d}
		}
		if a.Info.String() != b.Info.String() {
			return &explore.Violation{What: "the listing without a context differs from the one with an empty context", Detail: d}
		}
		e.Outcome(fmt.Sprint(a.Err == nil))
		return nil
	}, func(t pc) map[string]any { return map[string]any{"input_hex": fmt.Sprintf("%x", t.data)} })
}

func sampleBody(tag int) []byte {
	g := gen.New(explore.Default(), gen.Tiny)
	switch tag {
	case 1:
		return g.PKESK()
	case 2:
		return g.Signature(0)
	case 3:
		return g.SKESK()
	case 4:
		return g.OnePass()
	case 5, 7:
		return g.SecKey()
	case 6, 14:
		return g.PubKey()
	case 11:
		return g.Literal()
	case 17:
		b := g.ImageSub()
		return gen.SubHdr(0, len(b)+1, 1, b)
	case 20:
		return g.AEADData()
	}
	return []byte{0x51, 0x52}
}
