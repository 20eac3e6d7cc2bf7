// Package check runs the explorations of one property, writes its evidence file
// and reports violations.
package check

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"time"

	"gpgpmc/explore"
)

// Replay identifies one failing execution.
type Replay struct {
	Property string         `json:"property"`
	Space    string         `json:"space"`
	Tier     string         `json:"tier"`
	Trace    []int          `json:"trace"`
	What     string         `json:"what"`
	Detail   map[string]any `json:"detail"`
	How      string         `json:"how_to_replay"`
}

// Ctx is the run of one property.
type Ctx struct {
	Prop     string
	Tier     string
	Deadline time.Time
	start    time.Time
	spaces   []map[string]any
	samples  []any
	states   int64
	steps    int64
	execs    int64
	outcomes map[string]bool
	complete bool
	viol     int
	replay   *Replay
	replayed bool
	root     string
	board    *explore.Board
	mu       sync.Mutex
	Assume   []string
	Extra    map[string]any
}

// Thorough tier?
func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// Bound picks a bound by tier.
func (x *Ctx) Bound(quick, thorough int) int {
	if x.Thorough() {
		return thorough
	}
	return quick
}

// Main is the entry point of a checker binary.
func Main(props map[string]func(*Ctx)) {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	rep := flag.String("replay", "", "replay file")
	root := flag.String("root", "/verif", "verification directory")
	secs := flag.Int("secs", 0, "time budget in seconds")
	flag.Parse()
	x := &Ctx{Prop: *prop, Tier: *tier, start: time.Now(), complete: true, outcomes: map[string]bool{}, root: *root, Extra: map[string]any{}}
	if *rep != "" {
		b, err := os.ReadFile(*rep)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		x.replay = &Replay{}
		if err := json.Unmarshal(b, x.replay); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		x.Prop, x.Tier = x.replay.Property, x.replay.Tier
	}
	if *secs == 0 {
		*secs = 600
		if x.Tier == "thorough" {
			*secs = 2400
		}
	}
	board := os.Getenv(childEnv)
	if board == "" && os.Getenv("GPGPMC_RACE") == "" {
		os.Exit(supervise(x.Prop, x.Tier, *root, *secs, *rep != ""))
	}
	if board != "" {
		var err error
		if x.board, err = explore.OpenBoard(board); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debug.SetMaxStack(256 << 20)
	}
	x.Deadline = x.start.Add(time.Duration(*secs) * time.Second)
	f, ok := props[x.Prop]
	if !ok {
		fmt.Printf("unknown property %q\n", x.Prop)
		x.Exit(2)
	}
	f(x)
	if x.replay != nil {
		if !x.replayed {
			fmt.Println("replay: no such space", x.replay.Space)
			x.Exit(2)
		}
		fmt.Println("replay: no violation")
		x.Exit(0)
	}
	x.finish()
}

func (x *Ctx) finish() {
	x.evidence()
	fmt.Printf("%s %s: held on everything explored: %d states, %d transitions, %d executions compared, %d outcome classes, exhaustive=%v, %.1f s\n",
		x.Prop, x.Tier, x.states, x.steps, x.execs, len(x.outcomes), x.complete, time.Since(x.start).Seconds())
	x.Exit(0)
}

// Exit ends the checker by its own will.
func (x *Ctx) Exit(code int) {
	x.board.Done()
	os.Exit(code)
}

func (x *Ctx) evidence() {
	cov := map[string]any{
		"states":                        x.states,
		"transitions":                   x.steps,
		"traces_validated_against_impl": x.execs,
		"samples":                       x.samples,
		"exhaustive":                    x.complete,
		"distinct_outcomes":             len(x.outcomes),
		"spaces":                        x.spaces,
	}
	for k, v := range x.Extra {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": x.Prop, "tier": x.Tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(x.start).Seconds(), "violations": x.viol,
		"assumptions": append([]string{"the Go toolchain, the standard library and golang.org/x/crypto behave as documented"}, x.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(x.root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, x.Prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		x.Exit(2)
	}
}

// Violation reports one and ends the run.
func (x *Ctx) Violation(space string, trace []int, what string, detail map[string]any) {
	x.mu.Lock() // never released: only one report
	if x.replay != nil {
		fmt.Printf("replay: VIOLATION property=%s: %s\n", x.Prop, what)
		b, _ := json.MarshalIndent(detail, "", " ")
		fmt.Println(string(b))
		x.Exit(1)
	}
	x.violate(space, trace, what, detail)
	x.Exit(1)
}

func (x *Ctx) violate(space string, trace []int, what string, detail map[string]any) {
	x.viol++
	dir := filepath.Join(x.root, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, x.Prop+".json")
	r := &Replay{Property: x.Prop, Space: space, Tier: x.Tier, Trace: trace, What: what, Detail: detail,
		How: "cd /verif && ./check.sh --replay " + path}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, b, 0o644)
	x.evidence()
	fmt.Printf("%s [%s] %s\n", x.Prop, space, what)
	fmt.Printf("VIOLATION property=%s replay=%s\n", x.Prop, path)
}

// Replaying tells whether only one recorded execution is run (in a space that has not come yet).
func (x *Ctx) Replaying() bool { return x.replay != nil && !x.replayed }

// ReplaySpace is the space of the recorded execution.
func (x *Ctx) ReplaySpace() string { return x.replay.Space }

// AddSpaces adds what a helper process explored.
func (x *Ctx) AddSpaces(sp []map[string]any, states, steps, execs int64, complete bool) {
	x.spaces = append(x.spaces, sp...)
	x.states += states
	x.steps += steps
	x.execs += execs
	x.complete = x.complete && complete
}

// Opt modifies one exploration.
type Opt struct {
	MaxDev  int
	Workers int
	Desc    string
	Hang    time.Duration // one execution may take this long (default 120 s)
	Heap    uint64        // heap limit (default 14 GB)
}

// Space explores one space of executions completely.
func Space[T any](x *Ctx, name string, o Opt, gen func(*explore.Chooser) (T, bool), chk func(*explore.Env, T) *explore.Violation, show func(T) map[string]any) {
	cfg := explore.Config{MaxDev: o.MaxDev, Workers: o.Workers, Deadline: x.Deadline, HangAfter: o.Hang, HeapMax: o.Heap}
	if x.replay != nil {
		if x.replay.Space != name {
			return
		}
		x.replayed = true
		cfg.Replay = x.replay.Trace
		if cfg.Replay == nil {
			cfg.Replay = []int{}
		}
	}
	t0 := time.Now()
	if x.replay == nil && t0.After(x.Deadline) {
		x.complete = false
		x.spaces = append(x.spaces, map[string]any{"name": name, "skipped": "time budget used up"})
		return
	}
	// one space must not use up the time of all that follow
	if d := t0.Add(x.Deadline.Sub(x.start) / 4); d.Before(cfg.Deadline) {
		cfg.Deadline = d
	}
	cfg.Board = x.board
	x.board.Space(name)
	if w, _ := strconv.Atoi(os.Getenv("GPGPMC_WORKERS")); w > 0 {
		cfg.Workers = w
	}
	st := &explore.Stats{Complete: true}
	cfg.OnHang = func(trace []int, why string) {
		x.Violation(name, trace, "the code under test does not come back: "+why, map[string]any{"trace": trace})
	}
	cnt := 0
	next := 1
	g := func(c *explore.Chooser) (T, bool) {
		t, ok := gen(c)
		if ok {
			cnt++
			if cnt == next {
				next *= 64
				if show != nil && len(x.samples) < 40 {
					m := show(t)
					m["space"] = name
					m["choices"] = c.Trace()
					x.samples = append(x.samples, m)
				}
			}
		}
		return t, ok
	}
	found := explore.Run(cfg, st, g, chk)
	if len(found) > 0 {
		f := found[0]
		x.Violation(name, f.Trace, f.V.What, f.V.Detail)
	}
	x.states += st.States
	x.steps += st.Steps
	x.execs += st.Executions
	x.complete = x.complete && st.Complete
	var oc []string
	st.Outcomes.Range(func(k, _ any) bool { oc = append(oc, k.(string)); x.outcomes[k.(string)] = true; return true })
	sort.Strings(oc)
	sp := map[string]any{"name": name, "max_deviations": o.MaxDev, "states": st.States, "transitions": st.Steps, "executions": st.Executions,
		"complete": st.Complete, "outcome_classes": len(oc), "wall_s": time.Since(t0).Seconds()}
	if o.Desc != "" {
		sp["what"] = o.Desc
	}
	x.spaces = append(x.spaces, sp)
	fmt.Printf("%s [%s] dev<=%d: %d executions, %d states, %d outcome classes, complete=%v, %.1f s\n", x.Prop, name, o.MaxDev, st.Executions, st.States, len(oc), st.Complete, time.Since(t0).Seconds())
}
