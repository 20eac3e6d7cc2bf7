package main

import (
	"bytes"
	"errors"
	"io"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/impl"
	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/tags"
)

type iterCase struct {
	Pkts     [][]byte
	Parsed   []bool
	Implicit bool // the first packet is parsed without being asked for
	NoCxt    bool
}

// iterator walks the packets of a stream with Next and Parse: the entries are those
// of the packets parsed, whichever others are passed over.
func iterator(x *check.Ctx, alpha [][]byte) {
	n := x.Bound(3, 4)
	check.Space(x, "iterator", check.Opt{Desc: "the packet reader itself: every stream of up to the bound of packets over the alphabet x every subset of them passed over without being parsed, the first step asked for or implied, with an empty context or none"}, func(c *explore.Chooser) (iterCase, bool) {
		k := c.Free(n + 1)
		t := iterCase{NoCxt: c.Free(2) == 1}
		for i := 0; i < k; i++ {
			al := alpha
			if i > 1 {
				al = alpha[:12]
			}
			t.Pkts = append(t.Pkts, explore.PickFree(c, al))
			t.Parsed = append(t.Parsed, c.Free(2) == 0)
		}
		if k == 0 || t.Parsed[0] {
			t.Implicit = c.Free(2) == 1
		}
		return t, true
	}, func(e *explore.Env, t iterCase) *explore.Violation {
		var in, sel []byte
		for i, p := range t.Pkts {
			in = append(in, p...)
			if t.Parsed[i] {
				sel = append(sel, p...)
			}
		}
		want, steps, werr := model.Decode(sel, model.Opts{})
		if werr != nil {
			return viol(Case{Data: sel}, "the sample does not decode: %v", werr)
		}
		e.Steps(steps)
		var items []*result.Item
		var v *explore.Violation
		bad := func(f string, a ...any) { v = viol(Case{Data: in}, f, a...) }
		p := impl.Guard(func() {
			cxt := context.New()
			if t.NoCxt {
				cxt = nil
			}
			ps, err := tags.NewPackets(cxt, bytes.NewReader(in))
			if err != nil {
				bad("no packet reader: %v", err)
				return
			}
			if len(t.Pkts) == 0 && t.Implicit {
				if it, err := ps.Parse(); it != nil || err != nil {
					bad("parsing an empty stream gives an entry or an error: %v", err)
				}
				return
			}
			for i, y := range t.Parsed {
				if i > 0 || !t.Implicit {
					if err := ps.Next(); err != nil {
						bad("packet %d is not found: %v", i, err)
						return
					}
				}
				if y {
					it, err := ps.Parse()
					if err != nil || it == nil {
						bad("packet %d is not parsed: %v", i, err)
						return
					}
					items = append(items, it)
				}
			}
			for i := 0; i < 2; i++ {
				if err := ps.Next(); !errors.Is(err, io.EOF) {
					bad("after the last packet: %v, expected the end of file", err)
					return
				}
			}
		})
		if p != "" {
			return viol(Case{Data: in}, "panic: %s", p)
		}
		if v != nil {
			return v
		}
		if d := model.Equal(want, impl.Convert(items), ""); d != "" {
			return viol(Case{Data: in}, "the entries of the packets parsed (%v) differ from the reference model at %s", t.Parsed, d)
		}
		e.Outcome(outcome(want, nil))
		return nil
	}, func(t iterCase) map[string]any {
		m := show(Case{Data: bytes.Join(t.Pkts, nil)})
		m["parsed"] = t.Parsed
		m["implicit"] = t.Implicit
		return m
	})
}
