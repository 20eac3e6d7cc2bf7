package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// cxt is a new context for the unit.
func (u *unit) cxt() *context.Context {
	if u.armor {
		return impl.ArmorContext(u.o)
	}
	return impl.Context(u.o)
}

// armUnit is the armored form of an input, inside other text.
func armUnit(bin []byte, o model.Opts, only bool, before, after string, hdr ...string) *unit {
	u := newUnit(bin, o)
	a, _, _, _ := gen.Armor(bin, gen.ArmorOpt{Headers: hdr})
	u.data = append(append([]byte(before), a...), after...)
	u.armor = only
	return u
}

// armUnits: armored inputs, whole and damaged, in both modes.
func armUnits() []*unit {
	utc, dbg := model.Opts{UTC: true}, model.Opts{UTC: true, Debug: true}
	b1 := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, 6, baseBody(6))...)
	b2 := append(gen.Pkt(gen.HNew, 13, bytes.Repeat([]byte("second "), 90)), uidZ...)
	b3 := append(comp(1, uidA, uidZ), gen.Pkt(gen.HNew, 2, baseBody(2))...)
	big := append(gen.Pkt(gen.HNew, 13, bytes.Repeat([]byte("large text "), 900)), uidA...)
	cut := append(append([]byte{}, uidA...), 0xcd, 9, 'x')
	return []*unit{
		armUnit(b1, utc, false, "", ""),
		armUnit(b2, dbg, true, "text before\n\n", "and after\n", "Comment: two"),
		armUnit(b3, utc, true, "", "", "Version: 3"),
		armUnit(big, utc, false, "", ""),
		armUnit(cut, utc, true, "", ""),
	}
}

// life is the body of a stepper that goes the whole way: the parser is made (reading
// its input in pieces), run, and its result written in both forms, a step each.
func life(s *stepper) {
	p, err := parse.New(s.u.cxt(), s)
	s.yield()
	var info *result.Info
	if err == nil {
		info, err = p.Parse()
	}
	s.err = err
	if info == nil {
		return
	}
	s.items = info.Packets
	s.yield()
	rj, err := info.JSON(2)
	if err != nil {
		s.bad = "JSON: " + err.Error()
		return
	}
	s.yield()
	rt := info.ToString("  ")
	s.yield()
	var want strings.Builder
	model.Text(s.u.nodes, "  ", 0, &want)
	b, err := io.ReadAll(rt)
	if err != nil || string(b) != want.String() {
		s.bad = fmt.Sprintf("the text output is not the one of its own listing (error %v)", err)
		return
	}
	s.yield()
	b, err = io.ReadAll(rj)
	if err != nil {
		s.bad = "JSON: " + err.Error()
		return
	}
	ns, err := model.ReadJSON(b)
	if err != nil {
		s.bad = "the JSON output cannot be read: " + err.Error()
	} else if d := model.Equal(s.u.nodes, ns, ""); d != "" {
		s.bad = "the JSON output is not the one of its own listing: " + d
	}
	s.items = info.Packets
}

func livesSpace(x *check.Ctx, us []*unit) {
	pool := append(armUnits(), us[3], us[6], us[7], us[8], us[9], us[11])
	for _, u := range pool {
		u.life, u.lifeFine = u.soloWith(life, false), u.soloWith(life, true)
	}
	// one processor: what a pool hands out depends on the schedule only
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	check.Space(x, "lives", check.Opt{Workers: 1, Desc: "every ordered pair of inputs (armored in both modes, binary, compressed, damaged) x every interleaving of: making the parser, parsing, starting the JSON and the text output, reading each"}, func(c *explore.Chooser) (weave, bool) {
		l := []*unit{explore.PickFree(c, pool), explore.PickFree(c, pool)}
		return weave{us: l, body: life, order: schedule(c, []int{l[0].life, l[1].life}, false)}, true
	}, runWeave, showWeave)
	check.Space(x, "lives-reads", check.Opt{Workers: 1, MaxDev: x.Bound(2, 3), Desc: "the same pairs, each read of the input (pieces of up to 100 octets) a step of its own, with at most two (thorough: three) preemptions"}, func(c *explore.Chooser) (weave, bool) {
		l := []*unit{explore.PickFree(c, pool), explore.PickFree(c, pool)}
		if !x.Thorough() && l[0].lifeFine+l[1].lifeFine > 60 {
			return weave{}, false
		}
		return weave{us: l, fine: true, body: life, order: schedule(c, []int{l[0].lifeFine, l[1].lifeFine}, true)}, true
	}, runWeave, showWeave)
	check.Space(x, "three-lives", check.Opt{Workers: 1, MaxDev: x.Bound(1, 2), Desc: "every triple of inputs with at most one (thorough: two) preemptions"}, func(c *explore.Chooser) (weave, bool) {
		p := pool
		if !x.Thorough() {
			p = []*unit{pool[0], pool[1], pool[2], pool[4], pool[5], pool[9]}
		}
		l := []*unit{explore.PickFree(c, p), explore.PickFree(c, p), explore.PickFree(c, p)}
		return weave{us: l, body: life, order: schedule(c, []int{l[0].life, l[1].life, l[2].life}, true)}, true
	}, runWeave, showWeave)
}
