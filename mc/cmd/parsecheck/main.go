// Command parsecheck decides the properties of the packet parser.
package main

import (
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"
)

var props = map[string]func(*check.Ctx){
	"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
	"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14,
	"C15": c15, "C17": c17, "C24": c24, "C25": c25, "C26": c26, "C30": c30,
}

// The process is not in UTC, so that a time rendered in the wrong zone shows.
func main() {
	time.Local = time.FixedZone("", 5*3600+1800)
	check.Main(props)
}

// Case is one input of the decoder.
type Case struct {
	Data []byte
	O    model.Opts
	Note string
}

func show(c Case) map[string]any {
	h := hex.EncodeToString(c.Data)
	if len(h) > 600 {
		h = h[:600] + fmt.Sprintf("... (%d bytes)", len(c.Data))
	}
	m := map[string]any{"input_hex": h, "options": optString(c.O)}
	if c.Note != "" {
		m["note"] = c.Note
	}
	return m
}

func optString(o model.Opts) string {
	var s []string
	for _, p := range []struct {
		n string
		f bool
	}{{"cert", o.Cert}, {"debug", o.Debug}, {"int", o.Int}, {"literal", o.Literal}, {"marker", o.Marker}, {"private", o.Private}, {"utc", o.UTC}} {
		if p.f {
			s = append(s, p.n)
		}
	}
	return strings.Join(s, ",")
}

func detail(c Case) map[string]any {
	return map[string]any{"input_hex": hex.EncodeToString(c.Data), "options": optString(c.O), "note": c.Note}
}

func viol(c Case, format string, a ...any) *explore.Violation {
	return &explore.Violation{What: fmt.Sprintf(format, a...), Detail: detail(c)}
}

// compare runs model and implementation on one input and compares the complete
// listings (or, on error, what was listed before it).
func compare(e *explore.Env, c Case) *explore.Violation {
	want, steps, werr := model.Decode(c.Data, c.O)
	e.Steps(steps)
	got := impl.Parse(c.Data, c.O)
	if got.Panic != "" {
		return viol(c, "panic: %s", got.Panic)
	}
	if werr != nil && got.Err == nil {
		return viol(c, "damaged input accepted: the reference model reports %q, the parser lists %d packets and no error", werr, len(got.Nodes))
	}
	if werr == nil && got.Err != nil {
		return viol(c, "well-formed input rejected: %v", got.Err)
	}
	if got.Info == nil {
		return viol(c, "no listing returned")
	}
	if d := model.Equal(want, got.Nodes, ""); d != "" {
		return viol(c, "listing differs from the reference model at %s", d)
	}
	e.Outcome(outcome(want, werr))
	return nil
}

// outcome classifies a result for the vacuity count.
func outcome(ns []*model.Node, err error) string {
	var b strings.Builder
	if err != nil {
		b.WriteString("error:")
	}
	for _, n := range ns {
		b.WriteString(n.Name[strings.LastIndex(n.Name, "("):])
		if len(n.Items) < 30 {
			fmt.Fprintf(&b, "%d", len(n.Items))
		}
	}
	return b.String()
}

// optsSmall: nothing, everything.
var optsSmall = []model.Opts{{UTC: true}, {UTC: true, Debug: true}}

var uidA = gen.Pkt(gen.HNew, 13, []byte("before"))
var uidZ = gen.Pkt(gen.HOld1, 13, []byte("after"))

// one packet of a given tag built by build, damaged or not, between two others.
func packetSpace(x *check.Ctx, name string, lvl, dev int, tags []int, desc string, build func(g *gen.G) []byte) {
	check.Space(x, name, check.Opt{MaxDev: dev, Desc: desc}, func(c *explore.Chooser) (Case, bool) {
		o := explore.PickFree(c, optsSmall)
		tag := tags[0]
		if len(tags) > 1 {
			tag = explore.PickFree(c, tags)
		}
		g := gen.New(c, lvl)
		body := g.Damage(build(g))
		d := append([]byte{}, uidA...)
		d = append(d, gen.Pkt(gen.HNew, tag, body)...)
		d = append(d, uidZ...)
		return Case{Data: d, O: o}, true
	}, compare, show)
}

// grammar explores a packet grammar at three depths.
func grammar(x *check.Ctx, name string, tags []int, build func(g *gen.G) []byte) {
	packetSpace(x, name+"/full", gen.Full, 1, tags, "every field over its full domain (all 256 octet values, boundary lengths, every truncation point), one field at a time", build)
	packetSpace(x, name+"/core", gen.Core, 2, tags, "every pair of fields over the values the format distinguishes", build)
	packetSpace(x, name+"/tiny", gen.Tiny, x.Bound(3, 4), tags, "every combination of three (thorough: four) fields over reduced domains", build)
	if x.Thorough() {
		packetSpace(x, name+"/full2", gen.Full, 2, tags, "every pair of fields over the full domains", build)
		packetSpace(x, name+"/core3", gen.Core, 3, tags, "every three fields over the values the format distinguishes", build)
	}
}
