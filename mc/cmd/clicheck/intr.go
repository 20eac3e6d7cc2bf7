package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/signal"
	"sync"
	"syscall"
	"time"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/impl"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/github"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"
)

// stopper is a transport whose exchange number `page` stalls at one point until
// the context of the request is cancelled; when it stalls it calls interrupt.
type stopper struct {
	mu        sync.Mutex
	serve     func(n int, r *http.Request) reply
	page      int // which exchange stalls
	at        int // -1: before the response; n: after n bytes of its body
	interrupt func(done <-chan struct{})
	reqs      int
	opened    int
	closed    int
	stuck     bool
	late      int // requests made after the interrupt
	hit       bool
	delay     time.Duration
}

var errStuck = errors.New("the interrupt did not arrive")

// stall waits for the cancellation.
func (s *stopper) stall(ctx context.Context) error {
	s.mu.Lock()
	s.hit = true
	s.mu.Unlock()
	quit := make(chan struct{})
	go s.interrupt(quit)
	defer close(quit)
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-time.After(5 * time.Second):
		s.mu.Lock()
		s.stuck = true
		s.mu.Unlock()
		return errStuck
	}
}

func (s *stopper) RoundTrip(r *http.Request) (*http.Response, error) {
	s.mu.Lock()
	s.reqs++
	n := s.reqs
	if s.hit {
		s.late++
	}
	s.mu.Unlock()
	time.Sleep(s.delay) // a network takes time: what waits for signals is at work
	if n == s.page && s.at < 0 {
		return nil, s.stall(r.Context())
	}
	a := s.serve(n, r)
	s.mu.Lock()
	s.opened++
	s.mu.Unlock()
	b := &stopBody{s: s, data: a.body, ctx: r.Context(), at: -1}
	if n == s.page {
		b.at = s.at
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: -1, Request: r, Body: b}, nil
}

type stopBody struct {
	s      *stopper
	ctx    context.Context
	data   []byte
	at     int
	pos    int
	closed bool
	err    error
}

func (b *stopBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.err != nil {
		return 0, b.err
	}
	end := len(b.data)
	if b.at >= 0 && b.at < end {
		end = b.at
	}
	if b.pos < end {
		n := copy(p, b.data[b.pos:end])
		b.pos += n
		return n, nil
	}
	if b.at >= 0 {
		b.err = b.s.stall(b.ctx)
		return 0, b.err
	}
	return 0, io.EOF
}

func (b *stopBody) Close() error {
	if !b.closed {
		b.closed = true
		b.s.mu.Lock()
		b.s.closed++
		b.s.mu.Unlock()
	}
	return nil
}

// stopRun is one interrupted download.
type stopRun struct {
	args  []string
	serve func(n int, r *http.Request) reply
	body  []byte
	page  int
	at    int
	t     settings
	lib   int // 0: command; 1: hkp library; 2: github library; 3: github with key ID
	id    string
}

func (r stopRun) show() map[string]any {
	return map[string]any{"args": r.args, "library": r.lib, "exchange": r.page, "interrupted_at": r.at}
}

func sendInterrupt(done <-chan struct{}) {
	for {
		syscall.Kill(os.Getpid(), syscall.SIGINT)
		select {
		case <-done:
			return
		case <-time.After(3 * time.Millisecond):
		}
	}
}

func (r stopRun) judge(s *stopper) string {
	switch {
	case !s.hit:
		return "the stalled exchange was never reached"
	case s.stuck:
		return "the download goes on although it was interrupted"
	case s.late > 0:
		return fmt.Sprintf("%d further requests after the interrupt", s.late)
	case s.opened != s.closed:
		return fmt.Sprintf("%d response bodies were not closed", s.opened-s.closed)
	}
	return ""
}

func checkStopCommand(e *explore.Env, r stopRun) *explore.Violation {
	e.Steps(1)
	s := &stopper{serve: r.serve, page: r.page, at: r.at, interrupt: sendInterrupt, delay: 300 * time.Microsecond}
	old := http.DefaultTransport
	http.DefaultTransport = s
	o := runBuf(r.args, bytes.NewReader(small.data))
	http.DefaultTransport = old
	w := r.judge(s)
	if w == "" {
		switch {
		case bytes.Contains(o.err, []byte("Panic:")):
			w = "the command panicked"
		case r.t.raw && !r.t.o.Debug:
			if o.exit != 1 || len(o.err) == 0 || !bytes.HasPrefix(r.body, o.out) {
				w = "an interrupted raw download is not reported as a failure"
			}
		case r.t.raw:
			if o.exit != 0 || len(o.out) == 0 || len(o.err) > 0 {
				w = "an interrupted raw download with --debug is not printed"
			}
		default:
			w = judge(o, want{fail: true}, r.t)
		}
	}
	if w != "" {
		d := r.show()
		for k, v := range o.show() {
			d[k] = v
		}
		return &explore.Violation{What: fmt.Sprintf("%s (arguments %q, exchange %d, interrupted at byte %d)", w, r.args, r.page, r.at), Detail: d}
	}
	e.Outcome(fmt.Sprintf("exit %d, raw %v, exchange %d, body %v", o.exit, r.t.raw, r.page, r.at >= 0))
	return nil
}

func checkStopLib(e *explore.Env, r stopRun) *explore.Violation {
	e.Steps(1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := &stopper{serve: r.serve, page: r.page, at: r.at, interrupt: func(<-chan struct{}) { cancel() }}
	cli := fetch.New(fetch.WithHTTPClient(&http.Client{Transport: s}))
	var err error
	var got []byte
	p := impl.Guard(func() {
		switch r.lib {
		case 1:
			var rc io.ReadCloser
			rc, err = hkp.New("keys.example").Fetch(ctx, cli, "alice")
			if err == nil {
				_, err = io.ReadAll(rc)
				rc.Close()
			}
		default:
			got, err = github.GetKey(ctx, cli, "alice", r.id)
		}
	})
	w := r.judge(s)
	switch {
	case w != "":
	case p != "":
		w = "it panics: " + p
	case err == nil:
		w = "an interrupted download is not an error"
	case len(got) > 0:
		w = "text is returned with an error"
	}
	if w != "" {
		return &explore.Violation{What: fmt.Sprintf("%s (library call %d, exchange %d, cancelled at byte %d)", w, r.lib, r.page, r.at), Detail: r.show()}
	}
	e.Outcome(fmt.Sprintf("lib %d, exchange %d, body %v", r.lib, r.page, r.at >= 0))
	return nil
}

func c28(x *check.Ctx) {
	// the checker itself must survive its own interrupts
	keep := make(chan os.Signal, 64)
	signal.Notify(keep, os.Interrupt)
	go func() {
		for range keep {
		}
	}()
	// one body
	arm := func(int, *http.Request) reply { return ok(smallArm.data) }
	bin := func(int, *http.Request) reply { return ok(small.data) }
	rich1 := func(int, *http.Request) reply { return ok(richArm.data) }
	type cmd struct {
		args  []string
		serve func(int, *http.Request) reply
		body  []byte
	}
	cmds := []cmd{{[]string{"hkp", "alice"}, arm, smallArm.data}, {[]string{"github", "alice"}, arm, smallArm.data}, {[]string{"fetch", "https://example.org/x"}, arm, smallArm.data}, {[]string{"fetch", "https://example.org/x"}, bin, small.data}}
	{
		cmds = append(cmds, cmd{[]string{"hkp", "alice"}, rich1, richArm.data}, cmd{[]string{"github", "alice"}, rich1, richArm.data}, cmd{[]string{"fetch", "https://example.org/x"}, rich1, richArm.data})
	}
	check.Space(x, "command-interrupts", serial("SIGINT while the hkp, github and fetch commands wait for the response and after every number of bytes of its body (the whole body included), with --raw, --debug, JSON: the command ends with an error, no listing, and asks for nothing more"), func(c *explore.Chooser) (stopRun, bool) {
		k := explore.PickFree(c, cmds)
		r := stopRun{args: k.args, serve: k.serve, body: k.body, page: 1}
		switch c.Free(4) {
		case 1:
			r.args = append(append([]string{}, r.args...), "--raw")
			r.t.raw = true
		case 2:
			r.args = append(append([]string{}, r.args...), "--debug")
			r.t.o.Debug = true
		case 3:
			r.args = append(append([]string{}, r.args...), "--json")
			r.t.json = true
		}
		r.at = c.Free(len(k.body)+2) - 1
		return r, true
	}, checkStopCommand, func(r stopRun) map[string]any { return r.show() })
	// several pages
	keys := keyList(250)
	pages := func(n int, r *http.Request) reply {
		return ok(pageBody(keys, n, 100))
	}
	at := func(c *explore.Chooser, page int) int {
		n := len(pageBody(keys, page, 100))
		pts := []int{-1}
		step := x.Bound(97, 7)
		for i := 0; i < n; i += step {
			pts = append(pts, i)
		}
		for i := 0; i < 20; i++ {
			pts = append(pts, n-1-i)
		}
		return explore.PickFree(c, pts)
	}
	check.Space(x, "page-interrupts", serial("SIGINT while the github command walks the key pages: before each of three pages, and at points all over each page"), func(c *explore.Chooser) (stopRun, bool) {
		r := stopRun{args: []string{"github", "--keyid", "FFFFFFFFFFFFFFFF", "alice"}, serve: pages, page: 1 + c.Free(3)}
		r.at = at(c, r.page)
		return r, true
	}, checkStopCommand, func(r stopRun) map[string]any { return r.show() })
	check.Space(x, "library-cancels", check.Opt{Desc: "the context cancelled at the same points in the library calls"}, func(c *explore.Chooser) (stopRun, bool) {
		r := stopRun{lib: 1 + c.Free(3), page: 1, serve: rich1}
		if r.lib == 3 {
			r.id, r.serve = "FFFFFFFFFFFFFFFF", pages
			r.page = 1 + c.Free(3)
			r.at = at(c, r.page)
			return r, true
		}
		r.at = c.Free(len(richArm.data)+2) - 1
		return r, true
	}, checkStopLib, func(r stopRun) map[string]any { return r.show() })
	loopInterrupts(x)
	x.Assume = append(x.Assume, "net/http's own transport ends a request and its body reads when the request's context is cancelled (as documented); the stand-in does so")
}
