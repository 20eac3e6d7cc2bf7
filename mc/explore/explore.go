// Package explore is a stateless, deviation-bounded, exhaustive explorer.
//
// A driver asks the Chooser for every decision of the environment.  Answer 0 is
// the default; the explorer enumerates every sequence of answers that has at
// most MaxDev non-default answers at bounded choice points (Choose) while free
// choice points (Free) are always enumerated completely.  Enumeration is by
// replaying prefixes, depth first, so no state of the code under test has to be
// copied; a driver that behaves differently while a prefix is replayed is a hard
// error.
package explore

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type point struct {
	n      int
	chosen int
	free   bool
}

// Chooser hands out the decisions of one execution.
type Chooser struct {
	prefix []point
	pts    []point
	dev    int
	maxDev int
	forced []int
}

func (c *Chooser) pick(n int, free bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("explore: choice among %d", n))
	}
	i := len(c.pts)
	ch := 0
	if i < len(c.prefix) {
		p := c.prefix[i]
		if p.n != n || p.free != free {
			fmt.Fprintf(os.Stderr, "explore: divergence while replaying at point %d: had n=%d free=%v, now n=%d free=%v\n", i, p.n, p.free, n, free)
			os.Exit(3)
		}
		ch = p.chosen
	}
	if i < len(c.forced) && c.forced[i] < n {
		ch = c.forced[i]
	}
	if ch != 0 && !free {
		c.dev++
	}
	c.pts = append(c.pts, point{n, ch, free})
	return ch
}

// Choose returns 0..n-1; a non-zero answer costs one deviation.
func (c *Chooser) Choose(n int) int { return c.pick(n, false) }

// Free returns 0..n-1 at no cost: always enumerated completely.
func (c *Chooser) Free(n int) int { return c.pick(n, true) }

// Default returns a chooser that always answers 0.
func Default() *Chooser { return &Chooser{} }

// Force makes the next answers of a default chooser the given ones.
func (c *Chooser) Force(t []int) { c.forced = t }

// Bool is a two-way Choose.
func (c *Chooser) Bool() bool { return c.Choose(2) == 1 }

// Left is the number of deviations still available.
func (c *Chooser) Left() int { return c.maxDev - c.dev }

// Trace returns the answers given so far.
func (c *Chooser) Trace() []int {
	t := make([]int, len(c.pts))
	for i, p := range c.pts {
		t[i] = p.chosen
	}
	return t
}

// Pick chooses one element of a domain; element 0 is the default.
func Pick[T any](c *Chooser, dom []T) T { return dom[c.Choose(len(dom))] }

// PickFree chooses one element of a domain at no cost.
func PickFree[T any](c *Chooser, dom []T) T { return dom[c.Free(len(dom))] }

// Violation describes one failing execution.
type Violation struct {
	What   string         `json:"what"`
	Detail map[string]any `json:"detail"`
}

// Stats accumulates what was covered.
type Stats struct {
	States     int64 // nodes of the choice tree visited (distinct prefixes)
	Executions int64 // complete executions
	Steps      int64 // model transitions taken, reported by the check functions
	Outcomes   sync.Map
	Complete   bool
}

// Config of one exploration.
type Config struct {
	MaxDev   int
	Deadline time.Time
	Workers  int
	MaxViol  int
	// OnHang is called (once, from the monitor) when one execution runs longer
	// than HangAfter or the heap exceeds HeapMax while it runs.
	OnHang    func(trace []int, why string)
	HangAfter time.Duration
	HeapMax   uint64
	Board     *Board // where the executions under way are noted, or nil
	Replay    []int  // if set, only this execution is run
}

// Env is passed to the check function.
type Env struct {
	St *Stats
}

// Steps adds model transitions.
func (e *Env) Steps(n int) { atomic.AddInt64(&e.St.Steps, int64(n)) }

// Outcome records an outcome class (for the vacuity count).
func (e *Env) Outcome(k string) {
	if _, ok := e.St.Outcomes.Load(k); !ok {
		e.St.Outcomes.Store(k, true)
	}
}

// NumOutcomes counts the distinct outcome classes seen.
func (s *Stats) NumOutcomes() int {
	n := 0
	s.Outcomes.Range(func(_, _ any) bool { n++; return true })
	return n
}

type job[T any] struct {
	c     T
	trace []int
}

// Found is a violation with its choice trace.
type Found struct {
	V     *Violation
	Trace []int
}

// Run enumerates gen's executions and checks each with check (in parallel).
// gen returns false to discard an execution (not counted).
func Run[T any](cfg Config, st *Stats, gen func(*Chooser) (T, bool), check func(*Env, T) *Violation) []Found {
	if cfg.Workers == 0 {
		cfg.Workers = runtime.NumCPU()
	}
	if cfg.MaxViol == 0 {
		cfg.MaxViol = 1
	}
	const batch = 64
	jobs := make(chan []job[T], 4*cfg.Workers)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var found []Found
	var stop atomic.Bool
	env := &Env{St: st}
	type slot struct {
		mu    sync.Mutex
		trace []int
		since time.Time
	}
	slots := make([]slot, cfg.Workers)
	if cfg.OnHang != nil {
		if cfg.HangAfter == 0 {
			cfg.HangAfter = 120 * time.Second
		}
		if cfg.HeapMax == 0 {
			cfg.HeapMax = 14 << 30
		}
		quit := make(chan struct{})
		defer close(quit)
		go func() {
			tk := time.NewTicker(time.Second)
			defer tk.Stop()
			for {
				select {
				case <-quit:
					return
				case <-tk.C:
				}
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				var worst []int
				var age time.Duration
				for i := range slots {
					s := &slots[i]
					s.mu.Lock()
					if !s.since.IsZero() {
						if a := time.Since(s.since); a >= age {
							age, worst = a, s.trace
						}
					}
					s.mu.Unlock()
				}
				if worst == nil {
					continue
				}
				if age > cfg.HangAfter {
					cfg.OnHang(worst, fmt.Sprintf("no answer after %v", age.Round(time.Second)))
				}
				if ms.HeapAlloc > cfg.HeapMax {
					cfg.OnHang(worst, fmt.Sprintf("heap grew to %d MB, the oldest running execution is %v old", ms.HeapAlloc>>20, age.Round(time.Second)))
				}
			}
		}()
	}
	for w := 0; w < cfg.Workers; w++ {
		wg.Add(1)
		w, sl := w, &slots[w]
		go func() {
			defer wg.Done()
			run := func(j job[T]) *Violation {
				sl.mu.Lock()
				sl.trace, sl.since = j.trace, time.Now()
				sl.mu.Unlock()
				cfg.Board.Begin(w, j.trace)
				v := check(env, j.c)
				cfg.Board.End(w)
				sl.mu.Lock()
				sl.since = time.Time{}
				sl.mu.Unlock()
				return v
			}
			for b := range jobs {
				for _, j := range b {
					if stop.Load() {
						continue
					}
					v := run(j)
					atomic.AddInt64(&st.Executions, 1)
					if v == nil {
						continue
					}
					// re-execute before believing it
					again := 0
					for k := 0; k < 5; k++ {
						if run(j) != nil {
							again++
						}
					}
					if v.Detail == nil {
						v.Detail = map[string]any{}
					}
					v.Detail["reproduced"] = fmt.Sprintf("%d/5", again)
					if again == 0 {
						fmt.Printf("UNREPRODUCED (not counted): %s\n", v.What)
						continue
					}
					mu.Lock()
					found = append(found, Found{v, j.trace})
					if len(found) >= cfg.MaxViol {
						stop.Store(true)
					}
					mu.Unlock()
				}
			}
		}()
	}
	complete := true
	var prefix []point
	var cur []job[T]
	st.States++
	newFrom := 0
	n := 0
	if cfg.Replay != nil {
		c := &Chooser{maxDev: 1 << 30, forced: cfg.Replay}
		t, ok := gen(c)
		if ok {
			jobs <- []job[T]{{t, c.Trace()}}
		}
		close(jobs)
		wg.Wait()
		return found
	}
	for {
		c := &Chooser{prefix: prefix, maxDev: cfg.MaxDev, pts: make([]point, 0, len(prefix)+16)}
		t, ok := gen(c)
		if len(c.pts) < len(prefix) {
			fmt.Fprintf(os.Stderr, "explore: divergence: replay shorter than its prefix\n")
			os.Exit(3)
		}
		st.States += int64(len(c.pts) - newFrom)
		if ok {
			cur = append(cur, job[T]{t, c.Trace()})
			if len(cur) == batch {
				jobs <- cur
				cur = nil
			}
		}
		n++
		if stop.Load() {
			complete = false
			break
		}
		if n%256 == 0 && !cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline) {
			complete = false
			break
		}
		// next execution: the deepest point that can still be advanced
		dev := make([]int, len(c.pts)+1)
		for i, p := range c.pts {
			dev[i+1] = dev[i]
			if !p.free && p.chosen != 0 {
				dev[i+1]++
			}
		}
		i := len(c.pts) - 1
		for ; i >= 0; i-- {
			p := c.pts[i]
			if p.chosen+1 < p.n && (p.free || dev[i] < cfg.MaxDev) {
				break
			}
		}
		if i < 0 {
			break
		}
		prefix = append(prefix[:0:0], c.pts[:i+1]...)
		prefix[i].chosen++
		newFrom = i
	}
	if len(cur) > 0 {
		jobs <- cur
	}
	close(jobs)
	wg.Wait()
	if !complete {
		st.Complete = false
	}
	return found
}
