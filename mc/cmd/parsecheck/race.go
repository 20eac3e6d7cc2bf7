package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/gen"
	"gpgpmc/impl"
	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/tags"
)

// unit is one input with what parsing it alone gives.
type unit struct {
	data  []byte
	o     model.Opts
	nodes []*model.Node
	fail  bool
	fine  int  // steps at read granularity
	pkts  int  // steps at packet granularity
	armor bool // armor-only mode

	life, lifeFine int // steps of a whole life
}

func newUnit(d []byte, o model.Opts) *unit {
	u := &unit{data: d, o: o}
	ns, _, err := model.Decode(d, o)
	u.nodes, u.fail = ns, err != nil
	return u
}

// stepper runs one real parser, stopping before every read of its input (fine)
// or before every packet, until it is told to go on.
type stepper struct {
	u      *unit
	in     []byte // private copy of the input
	fine   bool
	resume chan bool
	paused chan bool // true: finished
	pos    int
	piece  int // largest read (0: any)
	items  []*result.Item
	err    error
	panic  string
	bad    string // another complaint
	dead   bool
}

var errAbort = errors.New("abandoned")

func (s *stepper) yield() {
	if s.dead {
		return
	}
	s.paused <- false
	if !<-s.resume {
		s.dead = true
	}
}

func (s *stepper) Read(p []byte) (int, error) {
	if s.fine {
		s.yield()
	}
	if s.dead {
		return 0, errAbort
	}
	if s.pos >= len(s.in) {
		return 0, io.EOF
	}
	end := len(s.in)
	if s.piece > 0 && end > s.pos+s.piece {
		end = s.pos + s.piece
	}
	n := copy(p, s.in[s.pos:end])
	s.pos += n
	return n, nil
}

func start(u *unit, fine bool, body func(*stepper)) *stepper {
	s := &stepper{u: u, in: append([]byte{}, u.data...), fine: fine, resume: make(chan bool), paused: make(chan bool)}
	if body == nil {
		body = packets
	} else {
		s.piece = 100
	}
	go func() {
		if !<-s.resume {
			return
		}
		s.panic = impl.Guard(func() { body(s) })
		s.paused <- true
	}()
	return s
}

// packets is the body of a stepper that walks the packets.
func packets(s *stepper) {
	p, err := tags.NewPackets(impl.Context(s.u.o), s)
	if err != nil {
		s.err = err
		return
	}
	for {
		if err := p.Next(); err != nil {
			if !errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				s.err = err
			}
			return
		}
		s.yield()
		it, err := p.Parse()
		if err != nil {
			s.err = err
			return
		}
		s.items = append(s.items, it)
		if !s.fine {
			s.yield()
		}
	}
}

// step lets the parser do one step; true when it has finished.
func (s *stepper) step() bool {
	s.resume <- true
	return <-s.paused
}

// abandon ends a parser that has not finished.
func (s *stepper) abandon() {
	s.resume <- false
	for !s.dead {
		if <-s.paused {
			return
		}
		s.resume <- false
	}
	<-s.paused
}

func (s *stepper) judge(u *unit) string {
	switch {
	case s.panic != "":
		return "panic: " + s.panic
	case s.bad != "":
		return s.bad
	case (s.err != nil) != u.fail:
		return fmt.Sprintf("the error is %v, alone an error is expected: %v", s.err, u.fail)
	case !bytes.Equal(s.in, u.data):
		return "the input was written to"
	}
	if d := model.Equal(u.nodes, impl.Convert(s.items), ""); d != "" {
		return "the listing differs from the one it has alone at " + d
	}
	return ""
}

// solo counts the steps of a parser that runs alone.
func (u *unit) solo(fine bool) int { return u.soloWith(nil, fine) }

func (u *unit) soloWith(body func(*stepper), fine bool) int {
	s := start(u, fine, body)
	for n := 1; ; n++ {
		if s.step() {
			return n
		}
	}
}

// weave is a schedule of several parsers.
type weave struct {
	us    []*unit
	fine  bool
	body  func(*stepper)
	order []int
}

func showWeave(w weave) map[string]any {
	m := map[string]any{"schedule": w.order}
	for i, u := range w.us {
		m[fmt.Sprintf("input%d_hex", i)] = hex.EncodeToString(u.data)
		m[fmt.Sprintf("options%d", i)] = optString(u.o)
	}
	return m
}

func runWeave(e *explore.Env, w weave) *explore.Violation {
	ss := make([]*stepper, len(w.us))
	done := make([]bool, len(w.us))
	for i, u := range w.us {
		ss[i] = start(u, w.fine, w.body)
	}
	e.Steps(len(w.order))
	bad := ""
	for k, i := range w.order {
		if done[i] {
			bad = fmt.Sprintf("parser %d ended before step %d of its schedule: its steps depend on the others", i, k)
			break
		}
		done[i] = ss[i].step()
	}
	for i := range ss {
		if !done[i] {
			if bad == "" {
				bad = fmt.Sprintf("parser %d has not ended: its steps depend on the others", i)
			}
			ss[i].abandon()
		}
	}
	for i, u := range w.us {
		if bad == "" {
			if s := ss[i].judge(u); s != "" {
				bad = fmt.Sprintf("parser %d of %d: %s", i+1, len(w.us), s)
			}
		}
	}
	if bad != "" {
		return &explore.Violation{What: bad, Detail: showWeave(w)}
	}
	sw := 0
	for k := 1; k < len(w.order); k++ {
		if w.order[k] != w.order[k-1] {
			sw++
		}
	}
	e.Outcome(fmt.Sprintf("%d parsers, %d switches", len(w.us), sw))
	return nil
}

// schedule enumerates the orders of the steps: a switch away from a parser that
// could go on costs a deviation (bounded) or nothing (free).
func schedule(c *explore.Chooser, left []int, bounded bool) []int {
	var out []int
	cur := -1
	for {
		var alt []int
		if cur >= 0 && left[cur] > 0 {
			alt = append(alt, cur)
		}
		own := len(alt) > 0
		for i, n := range left {
			if n > 0 && i != cur {
				alt = append(alt, i)
			}
		}
		if len(alt) == 0 {
			return out
		}
		k := 0
		if len(alt) > 1 {
			if bounded && own {
				k = c.Choose(len(alt))
			} else {
				k = c.Free(len(alt))
			}
		}
		cur = alt[k]
		left[cur]--
		out = append(out, cur)
	}
}

// stateful packets, for the interleavings
func weaveUnits() []*unit {
	g := gen.New(explore.Default(), gen.Tiny)
	sub := func(t byte, b []byte) []byte { return gen.SubHdr(0, len(b)+1, t, b) }
	key := func(t uint32) []byte {
		return gen.Pkt(gen.HNew, 6, append(append([]byte{4}, u32(t)...), 1, 0, 1, 1, 0, 1, 1))
	}
	sig := func(h ...[]byte) []byte { return gen.Pkt(gen.HNew, 2, g.SigWith(4, h, nil)) }
	pk, sk := gen.Pkt(gen.HNew, 1, baseBody(1)), gen.Pkt(gen.HNew, 3, baseBody(3))
	enc := gen.Pkt(gen.HNew, 18, []byte("\x01enc"))
	utc, all := model.Opts{UTC: true}, model.Opts{UTC: true, Debug: true}
	j := func(o model.Opts, ps ...[]byte) *unit { return newUnit(bytes.Join(ps, nil), o) }
	emb := sub(32, g.SigWith(4, [][]byte{sub(2, u32(1000)), sub(3, u32(5))}, nil))
	return []*unit{
		j(utc, pk, enc, uidA),
		j(utc, sk, enc, enc),
		j(utc, enc, uidA),
		j(utc, key(1000000000), sig(sub(2, u32(1600000000)), sub(9, u32(86400))), uidA),
		j(utc, key(1200000000), sig(sub(9, u32(100))), sig(sub(3, u32(50)))),
		j(utc, sig(sub(3, u32(60))), sig(sub(2, u32(1500000000)), sub(3, u32(61)))),
		j(utc, sig(sub(2, u32(1400000000)), emb, sub(3, u32(7)))),
		j(all, uidA, gen.Pkt(gen.HNew, 11, baseBody(11)), gen.Pkt(gen.HNew, 60, []byte("private"))),
		j(utc, uidA, gen.Pkt(gen.HNew, 11, baseBody(11)), gen.Pkt(gen.HNew, 60, []byte("private"))),
		j(utc, comp(1, pk, uidA), enc),
		j(all, gen.Pkt(gen.HNew, 5, baseBody(5)), sig(sub(9, u32(77)))),
		j(utc, uidA, []byte{0xcd, 9, 'x'}),
		j(model.Opts{UTC: true, Int: true}, gen.Pkt(gen.HPartial, 13, bytes.Repeat([]byte("p"), 70)), pk),
		j(utc, gen.Pkt(gen.HNew, 17, baseBody(17)), gen.Pkt(gen.HNew, 20, baseBody(20))),
	}
}

// raceChild runs the parallel part in a build with the race detector set to stop
// at the first race, and turns its report into a violation.
func raceChild(x *check.Ctx, mode string) {
	dir, err := os.MkdirTemp("", "racecheck")
	if err != nil {
		fmt.Println(err)
		x.Exit(2)
	}
	self, _ := os.Executable()
	args := []string{"-root", dir, "-prop", "C24", "-tier", x.Tier}
	cmd := exec.Command(filepath.Join(filepath.Dir(self), "racecheck"), args...)
	cmd.Stdout = os.Stdout
	var ed bytes.Buffer
	cmd.Stderr = io.MultiWriter(os.Stderr, &ed)
	cmd.Env = append(os.Environ(), "GPGPMC_RACE="+mode, "GPGPMC_CHILD=", "GORACE=halt_on_error=1 exitcode=66 log_path="+filepath.Join(dir, "race"))
	var rd bytes.Buffer
	cmd.Stdout = &rd
	err = cmd.Run()
	code := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else if err != nil {
		fmt.Println(err)
		code = 2
	}
	for _, l := range strings.SplitAfter(rd.String(), "\n") {
		if !strings.HasPrefix(l, "VIOLATION") && !strings.Contains(l, "held on everything") {
			fmt.Print(l)
		}
	}
	done := func(code int) {
		os.RemoveAll(dir)
		x.Exit(code)
	}
	switch {
	case x.Replaying() && code == 0 && strings.HasPrefix(mode, "cold"):
		os.RemoveAll(dir)
		return
	case x.Replaying() && code != 66 && code != 1:
		done(code)
	case code == 66:
		var rep string
		fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			rep += string(b)
		}
		os.RemoveAll(dir)
		x.Violation("parallel", nil, "the race detector reports a data race between parsers", map[string]any{"report": strings.Split(rep, "\n")})
	case code == 1:
		var r check.Replay
		b, _ := os.ReadFile(filepath.Join(dir, "replay", "C24.json"))
		json.Unmarshal(b, &r)
		os.RemoveAll(dir)
		x.Violation("parallel", nil, r.What, r.Detail)
	case code != 0 && check.Blame(ed.String()):
		os.RemoveAll(dir)
		l := strings.Split(ed.String(), "\n")
		x.Violation("parallel", nil, "parsers running in parallel end the whole process: "+l[0], map[string]any{"report": l[:min(60, len(l))]})
	case code != 0:
		done(2)
	}
	var ev struct {
		Coverage struct {
			States      int64            `json:"states"`
			Transitions int64            `json:"transitions"`
			Execs       int64            `json:"traces_validated_against_impl"`
			Exhaustive  bool             `json:"exhaustive"`
			Spaces      []map[string]any `json:"spaces"`
		} `json:"coverage"`
	}
	b, _ := os.ReadFile(filepath.Join(dir, "evidence", "C24.json"))
	if err := json.Unmarshal(b, &ev); err != nil {
		fmt.Println(err)
		done(2)
	}
	os.RemoveAll(dir)
	x.AddSpaces(ev.Coverage.Spaces, ev.Coverage.States, ev.Coverage.Transitions, ev.Coverage.Execs, ev.Coverage.Exhaustive)
}

func c24(x *check.Ctx) {
	us := weaveUnits()
	if os.Getenv("GPGPMC_RACE") != "" {
		us = append(us, armUnits()...)
		c24parallel(x, us, orderUnits(us))
		return
	}
	if x.Replaying() && x.ReplaySpace() == "parallel" {
		for k := 0; k < 12; k++ {
			raceChild(x, fmt.Sprintf("cold%d", k))
		}
		raceChild(x, "all")
		return
	}
	for _, u := range us {
		u.fine, u.pkts = u.solo(true), u.solo(false)
	}
	one := check.Opt{Workers: 1}
	opt := func(dev int, desc string) check.Opt { o := one; o.MaxDev, o.Desc = dev, desc; return o }
	pick := func(c *explore.Chooser, n int) []*unit {
		var l []*unit
		for i := 0; i < n; i++ {
			l = append(l, explore.PickFree(c, us))
		}
		return l
	}
	steps := func(l []*unit, fine bool) []int {
		var o []int
		for _, u := range l {
			if fine {
				o = append(o, u.fine)
			} else {
				o = append(o, u.pkts)
			}
		}
		return o
	}
	check.Space(x, "packet-interleavings", opt(0, "every ordered pair of stateful inputs x every interleaving of their packet steps (each packet read and parsed is two steps)"), func(c *explore.Chooser) (weave, bool) {
		l := pick(c, 2)
		w := weave{us: l}
		st := steps(l, false)
		if st[0]+st[1] > x.Bound(11, 14) {
			return w, false
		}
		w.order = schedule(c, st, false)
		return w, true
	}, runWeave, showWeave)
	check.Space(x, "read-interleavings", opt(x.Bound(2, 3), "every ordered pair of stateful inputs x every interleaving of their steps (each read of the input and each packet is a step) with at most two (thorough: three) preemptions"), func(c *explore.Chooser) (weave, bool) {
		l := pick(c, 2)
		return weave{us: l, fine: true, order: schedule(c, steps(l, true), true)}, true
	}, runWeave, showWeave)
	check.Space(x, "three-parsers", opt(x.Bound(1, 2), "every triple of stateful inputs x every interleaving of their packet steps with at most one (thorough: two) preemptions"), func(c *explore.Chooser) (weave, bool) {
		l := pick(c, 3)
		return weave{us: l, order: schedule(c, steps(l, false), true)}, true
	}, runWeave, showWeave)
	livesSpace(x, us)
	// one after the other
	all := orderUnits(append(us, armUnits()...))
	check.Space(x, "orders", opt(0, "every ordered pair of inputs (every tag, algorithm, version and subpacket type) parsed one after the other in one process, the first one again after the second: the same results, the earlier result unchanged, the inputs untouched"), func(c *explore.Chooser) ([2]*unit, bool) {
		return [2]*unit{explore.PickFree(c, all), explore.PickFree(c, all)}, true
	}, func(e *explore.Env, p [2]*unit) *explore.Violation {
		e.Steps(3)
		var held impl.Result
		for k, u := range []*unit{p[0], p[1], p[0]} {
			in := append([]byte{}, u.data...)
			r := impl.ParseReader(u.cxt(), bytes.NewReader(in))
			d := ""
			switch {
			case r.Panic != "":
				d = "panic: " + r.Panic
			case (r.Err != nil) != u.fail:
				d = fmt.Sprintf("error %v", r.Err)
			case !bytes.Equal(in, u.data):
				d = "the input was written to"
			default:
				d = model.Equal(u.nodes, r.Nodes, "")
			}
			if d == "" && k == 0 {
				held = r
			}
			if d == "" && k == 2 && held.Info != nil {
				if s := model.Equal(p[0].nodes, impl.Convert(held.Info.Packets), ""); s != "" {
					d = "an earlier result has changed at " + s
				}
			}
			if d != "" {
				return &explore.Violation{What: fmt.Sprintf("parse %d of 3 in a row: %s", k+1, d), Detail: showPair(p)}
			}
		}
		e.Outcome(fmt.Sprintf("%v %v", p[0].fail, p[1].fail))
		return nil
	}, showPair)
	for k := 0; k < x.Bound(3, 12); k++ {
		raceChild(x, fmt.Sprintf("cold%d", k))
	}
	raceChild(x, "all")
	x.Assume = append(x.Assume, "between two reads or packets a parser runs alone in the controlled schedules; what happens inside is watched by the race detector in the parallel runs")
}

func orderUnits(us []*unit) (all []*unit) {
	for i, v := range allSamples() {
		o := optsSmall[i%2]
		d := append(append([]byte{}, uidA...), gen.Pkt(gen.HNew, v.tag, v.body)...)
		all = append(all, newUnit(append(d, uidZ...), o))
	}
	return append(all, us...)
}

// c24parallel is the part that runs in parallel, under the race detector.
func c24parallel(x *check.Ctx, us, all []*unit) {
	par := func(e *explore.Env, ps ...*unit) *explore.Violation {
		e.Steps(len(ps))
		out := make([]string, len(ps))
		ch := make(chan struct{}, len(ps))
		var ready atomic.Int32
		for i := range ps {
			i := i
			go func() {
				u := ps[i]
				// all at the same time: the detector does not see a race between
				// one that ended and one that began later, if the standard library
				// (its pools) happens to order them
				ready.Add(1)
				for t0 := time.Now(); int(ready.Load()) < len(ps) && time.Since(t0) < time.Second; {
				}
				out[i] = impl.Guard(func() {
					for k := 0; k < 2; k++ {
						r := impl.ParseReader(u.cxt(), bytes.NewReader(u.data))
						d := model.Equal(u.nodes, r.Nodes, "")
						if r.Panic != "" || (r.Err != nil) != u.fail {
							d = fmt.Sprintf("error %v %s", r.Err, r.Panic)
						}
						if d == "" && r.Info != nil {
							b, err := render(r.Info)
							if err != nil {
								d = err.Error()
							} else if ns, err := model.ReadJSON(b); err != nil {
								d = err.Error()
							} else {
								d = model.Equal(u.nodes, ns, "")
							}
						}
						if d != "" {
							panic(d)
						}
					}
				})
				ch <- struct{}{}
			}()
		}
		for range ps {
			<-ch
		}
		for i := range out {
			if out[i] != "" {
				return &explore.Violation{What: fmt.Sprintf("parser %d of %d in parallel: %s", i+1, len(ps), out[i]), Detail: showPair([2]*unit{ps[0], ps[1]})}
			}
		}
		e.Outcome("parallel")
		return nil
	}
	if mode := os.Getenv("GPGPMC_RACE"); strings.HasPrefix(mode, "cold") {
		k, _ := strconv.Atoi(mode[4:])
		check.Space(x, "first-use", check.Opt{Workers: 1, Desc: "every input parsed and rendered by three parsers at the same time, in a new process where nothing of its kind was parsed before (whatever is set up at the first use is set up by all three), the race detector watching; in several orders"}, func(c *explore.Chooser) (*unit, bool) {
			i := c.Free(len(all))
			if k%2 == 1 {
				i = len(all) - 1 - i
			}
			return all[(i+k/2*37)%len(all)], true
		}, func(e *explore.Env, u *unit) *explore.Violation { return par(e, u, u, u) }, func(u *unit) map[string]any { return showPair([2]*unit{u, u}) })
		return
	}
	check.Space(x, "parallel", check.Opt{Workers: 4, Desc: "every input parsed and rendered in parallel with itself and with each stateful input, four such pairs at a time, the race detector watching"}, func(c *explore.Chooser) ([2]*unit, bool) {
		i := c.Free(len(all))
		k := c.Free(len(us) + 2)
		switch {
		case k == 0:
			return [2]*unit{all[i], all[i]}, true
		case k == 1:
			return [2]*unit{all[i], all[(i+1)%len(all)]}, true
		}
		return [2]*unit{all[i], us[k-2]}, true
	}, func(e *explore.Env, p [2]*unit) *explore.Violation { return par(e, p[0], p[1]) }, showPair)
	if !raceEnabled {
		fmt.Println("the race detector is off")
		os.Exit(2)
	}
}

func render(i *result.Info) ([]byte, error) {
	r, err := i.JSON(1)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	_ = i.String()
	if !json.Valid(b) {
		return nil, errors.New("the rendering is not JSON")
	}
	return b, nil
}

func showPair(p [2]*unit) map[string]any {
	return map[string]any{"first_hex": hex.EncodeToString(p[0].data), "second_hex": hex.EncodeToString(p[1].data), "options": []string{optString(p[0].o), optString(p[1].o)}}
}
