package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"sync"
	"syscall"
	"time"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/model"
)

// The built command against a real HTTP exchange over the loopback device: a server of
// our own that frames, breaks off and stalls the response as told.

type loopRun struct {
	cmd    string // hkp or fetch
	args   []string
	t      settings
	s      *sample
	frame  string // length, chunked, close
	status int
	cut    int // the connection breaks after so many bytes of the body (-1: never)
	reset  bool
	hops   int  // redirections first
	stall  bool // instead of breaking, nothing more comes and the command is interrupted
	early  bool // ... before the response
	text   string
}

func (r loopRun) show() map[string]any {
	return map[string]any{"command": r.cmd, "args": r.args, "response": r.s.name, "framing": r.frame, "status": r.status, "breaks_after": r.cut, "redirections": r.hops, "interrupted": r.stall, "before_response": r.early, "text": r.text}
}

type loopServer struct {
	r     loopRun
	l     net.Listener
	mu    sync.Mutex
	reqs  []*http.Request
	bad   string
	ready chan struct{} // the stall is reached
	quit  chan struct{}
	wg    sync.WaitGroup
}

func newLoop(r loopRun) (*loopServer, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &loopServer{r: r, l: l, ready: make(chan struct{}, 16), quit: make(chan struct{})}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				defer c.Close()
				s.serve(c)
			}()
		}
	}()
	return s, nil
}

func (s *loopServer) close() {
	close(s.quit)
	s.l.Close()
	s.wg.Wait()
}

func (s *loopServer) serve(c net.Conn) {
	c.SetDeadline(time.Now().Add(60 * time.Second))
	br := bufio.NewReader(c)
	req, err := http.ReadRequest(br)
	if err != nil {
		return // a connection without a request is no request
	}
	s.mu.Lock()
	s.reqs = append(s.reqs, req)
	n := len(s.reqs)
	s.mu.Unlock()
	if n <= s.r.hops {
		fmt.Fprintf(c, "HTTP/1.1 302 Found\r\nLocation: /hop%d\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", n)
		return
	}
	if s.r.early {
		s.ready <- struct{}{}
		<-s.quit
		return
	}
	body := s.r.s.data
	part := body
	if s.r.cut >= 0 {
		part = body[:s.r.cut]
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d X\r\nContent-Type: text/plain\r\nConnection: close\r\n", s.r.status)
	switch s.r.frame {
	case "length":
		n := len(body)
		if s.r.cut == n {
			n++
		}
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", n, part)
	case "chunked":
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for i := 0; i < len(part); i += 50 {
			p := part[i:min(len(part), i+50)]
			fmt.Fprintf(&b, "%x\r\n%s\r\n", len(p), p)
		}
		if s.r.cut < 0 {
			b.WriteString("0\r\n\r\n")
		}
	default:
		fmt.Fprintf(&b, "\r\n%s", part)
	}
	c.Write(b.Bytes())
	if s.r.stall {
		s.ready <- struct{}{}
		<-s.quit
		return
	}
	if s.r.reset {
		time.Sleep(20 * time.Millisecond) // let the bytes arrive
		c.(*net.TCPConn).SetLinger(0)
	}
}

// runLoop runs the built command once; signalled: it died by the signal.
func runLoop(r loopRun, wait time.Duration) (o outcome, s *loopServer, signalled, stuck bool, err error) {
	s, err = newLoop(r)
	if err != nil {
		return
	}
	defer s.close()
	addr := s.l.Addr().(*net.TCPAddr)
	args := append([]string{r.cmd}, r.args...)
	if r.cmd == "hkp" {
		args = append(args, "--keyserver", "127.0.0.1", fmt.Sprintf("--port=%d", addr.Port), "--", r.text)
	} else {
		args = append(args, fmt.Sprintf("http://127.0.0.1:%d/x/y?q=%%20z", addr.Port))
	}
	cmd := exec.Command(binary, args...)
	cmd.Env = []string{"HOME=" + scratch, "PATH=/usr/bin:/bin", "TZ=Etc/GMT-9"}
	cmd.Dir = scratch
	var a, b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &a, &b
	if err = cmd.Start(); err != nil {
		return
	}
	end := make(chan error, 1)
	go func() { end <- cmd.Wait() }()
	var werr error
	if r.stall {
		select {
		case <-s.ready:
			time.Sleep(wait)
			cmd.Process.Signal(os.Interrupt)
		case werr = <-end:
			end <- werr
		case <-time.After(30 * time.Second):
		}
	}
	select {
	case werr = <-end:
	case <-time.After(30 * time.Second):
		stuck = true
		cmd.Process.Kill()
		werr = <-end
	}
	o = outcome{0, a.Bytes(), b.Bytes()}
	var ee *exec.ExitError
	if errors.As(werr, &ee) {
		o.exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			signalled = true
		}
	}
	return
}

func checkLoop(e *explore.Env, r loopRun) *explore.Violation {
	e.Steps(1)
	o, s, signalled, stuck, err := runLoop(r, 50*time.Millisecond)
	if err == nil && r.stall && (signalled || stuck) { // a slow start? give it time
		o, s, signalled, stuck, err = runLoop(r, 2*time.Second)
	}
	if err != nil {
		fmt.Println("cannot run the built command against the loopback device:", err)
		os.Exit(2)
	}
	fail := func(format string, a ...any) *explore.Violation {
		d := r.show()
		for k, v := range o.show() {
			d[k] = v
		}
		return &explore.Violation{What: "built command, real connection: " + fmt.Sprintf(format, a...) + fmt.Sprintf(" (%s %q)", r.cmd, r.args), Detail: d}
	}
	switch {
	case stuck:
		return fail("it does not end")
	case signalled:
		return fail("it dies by the signal instead of reporting the interrupt")
	}
	for i, q := range s.reqs {
		path := "/x/y?q=%20z"
		if r.cmd == "hkp" {
			path = "/pks/lookup"
		}
		if i > 0 {
			path = fmt.Sprintf("/hop%d", i)
		}
		if q.Method != "GET" || (i > 0 || r.cmd == "fetch") && q.RequestURI != path || q.URL.Path != "/pks/lookup" && i == 0 && r.cmd == "hkp" {
			return fail("request %d is %s %s", i+1, q.Method, q.RequestURI)
		}
		if r.cmd == "hkp" && i == 0 {
			v := q.URL.Query()
			if len(v["search"]) != 1 || v.Get("search") != r.text || v.Get("op") != "get" || len(v["op"]) != 1 {
				return fail("the server decodes %s", q.RequestURI)
			}
		}
	}
	if len(s.reqs) != 1+r.hops {
		return fail("%d requests, %d expected", len(s.reqs), 1+r.hops)
	}
	t := r.t
	t.armor = t.armor || r.cmd == "hkp"
	w := listing(r.s, t)
	if r.cut >= 0 || r.early || r.status >= 400 {
		w = want{fail: true}
	} else if t.raw {
		w = want{isRaw: true, raw: r.s.data}
	}
	if t.raw && r.cut >= 0 && r.status < 400 {
		if t.o.Debug && (o.exit != 0 || len(o.err) > 0) || !t.o.Debug && (o.exit != 1 || len(o.err) == 0 || !bytes.HasPrefix(r.s.data, o.out)) {
			return fail("a raw download that breaks off exits %d", o.exit)
		}
	} else if x := judge(o, w, t); x != "" {
		return fail("%s", x)
	}
	e.Outcome(fmt.Sprintf("exit %d, fail %v, raw %v, %s", o.exit, w.fail, t.raw, r.frame))
	return nil
}

var loopFlags = []struct {
	args []string
	t    settings
}{{nil, settings{}}, {[]string{"-j"}, settings{json: true}}, {[]string{"--raw"}, settings{raw: true}}, {[]string{"--debug"}, settings{o: model.Opts{Debug: true}}}, {[]string{"-u", "-i", "--indent=2"}, settings{o: model.Opts{UTC: true, Int: true}, indent: 2}}, {[]string{"--raw", "--debug"}, settings{raw: true, o: model.Opts{Debug: true}}}}

func haveLoop() bool {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Println("no loopback device: the spaces with a real connection are left out:", err)
		return false
	}
	l.Close()
	return true
}

func loopSpaces(x *check.Ctx, cmd string) {
	if !haveLoop() {
		return
	}
	pick := func(c *explore.Chooser) loopRun {
		f := explore.PickFree(c, loopFlags)
		return loopRun{cmd: cmd, args: f.args, t: f.t, status: 200, cut: -1, text: "alice"}
	}
	check.Space(x, "built-loopback", check.Opt{Desc: "the built command against a real HTTP server on the loopback device: every sample, framed by length, in chunks or by the end of the connection, after 0 to 2 redirections, with error statuses, under the main options: one request (and one per redirection), the listing or an error"}, func(c *explore.Chooser) (loopRun, bool) {
		r := pick(c)
		r.s = explore.PickFree(c, samples)
		r.frame = explore.PickFree(c, []string{"length", "chunked", "close"})
		switch c.Free(3) {
		case 1:
			r.status = explore.PickFree(c, []int{400, 404, 500, 503})
		case 2:
			r.hops = 1 + c.Free(2)
		}
		if cmd == "hkp" && r.hops == 0 && r.status == 200 && r.frame == "length" {
			r.text = explore.PickFree(c, []string{"alice", "0x44ce6900e2b307a4", "a b+c&d=e%20\u3042#?", "-x"})
		}
		return r, true
	}, checkLoop, loopRun.show)
	check.Space(x, "built-loopback-breaks", check.Opt{Desc: "the connection closed or reset after 17 numbers of bytes of the body, the start and the end among them, framed by length or in chunks: an error and no listing"}, func(c *explore.Chooser) (loopRun, bool) {
		r := pick(c)
		r.s = explore.PickFree(c, []*sample{smallArm, richArm, rich})
		r.frame = explore.PickFree(c, []string{"length", "chunked"})
		r.cut = c.Free(17) * len(r.s.data) / 16
		r.reset = c.Free(2) == 1
		return r, true
	}, checkLoop, loopRun.show)
}

func loopInterrupts(x *check.Ctx) {
	if !haveLoop() {
		return
	}
	check.Space(x, "built-interrupts", check.Opt{Desc: "the built hkp and fetch commands with a real connection that stalls before the response or after 6 numbers of bytes of the body, and a real interrupt: exit status 1, a message and no listing"}, func(c *explore.Chooser) (loopRun, bool) {
		f := explore.PickFree(c, loopFlags)
		r := loopRun{cmd: explore.PickFree(c, []string{"hkp", "fetch"}), args: f.args, t: f.t, status: 200, text: "alice", stall: true}
		r.s = explore.PickFree(c, []*sample{smallArm, rich})
		r.frame = explore.PickFree(c, []string{"length", "chunked"})
		k := c.Free(7)
		if r.early = k == 6; !r.early {
			r.cut = k * len(r.s.data) / 5
		} else if r.frame != "length" || r.s != rich {
			return r, false
		}
		return r, true
	}, checkLoop, loopRun.show)
}
