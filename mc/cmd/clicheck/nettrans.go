package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"sync"
)

// request is what the transport saw.
type request struct {
	Method, Scheme, Host, Path, RawPath, Query, Frag string
	URL                                              *url.URL
	HostHeader                                       string
	Body                                             bool
}

func (r request) String() string { return fmt.Sprintf("%s %s", r.Method, r.URL) }

// reply is what the transport answers.
type reply struct {
	err    bool  // transport error
	fault  error // the error of the transport, or of the body
	status int
	body   []byte
	limit  int // body breaks off here (-1: complete)
	chunk  int
	mixed  bool
	length int64 // declared length (-1: unknown)
	loc    string
}

// transport is the controlled stand-in for the network.
type transport struct {
	mu     sync.Mutex
	serve  func(n int, r *http.Request) reply
	reqs   []request
	opened int
	closed int
}

var net0 = &transport{}

// reset starts a new exchange.
func (t *transport) reset(serve func(n int, r *http.Request) reply) {
	t.mu.Lock()
	t.serve, t.reqs, t.opened, t.closed = serve, nil, 0, 0
	t.mu.Unlock()
}

type body struct {
	faultReader
	t    *transport
	done bool
}

func (b *body) Read(p []byte) (int, error) {
	b.t.mu.Lock()
	d := b.done
	b.t.mu.Unlock()
	if d {
		return 0, fmt.Errorf("http: read on closed response body")
	}
	return b.faultReader.Read(p)
}

func (b *body) Close() error {
	b.t.mu.Lock()
	if !b.done {
		b.done = true
		b.t.closed++
	}
	b.t.mu.Unlock()
	return nil
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if r.URL == nil || (r.URL.Scheme != "http" && r.URL.Scheme != "https") {
		return nil, fmt.Errorf("unsupported protocol scheme")
	}
	if r.URL.Host == "" {
		return nil, fmt.Errorf("http: no Host in request URL")
	}
	for k, vs := range r.Header { // what net/http's own transport refuses
		if k == "" || strings.ContainsAny(k, "()<>@,;:\\\"/[]?={} \t\r\n\x00") {
			return nil, fmt.Errorf("net/http: invalid header field name %q", k)
		}
		for _, v := range vs {
			if strings.ContainsAny(v, "\r\n\x00") {
				return nil, fmt.Errorf("net/http: invalid header field value for %q", k)
			}
		}
	}
	u := *r.URL
	t.reqs = append(t.reqs, request{Method: r.Method, Scheme: u.Scheme, Host: u.Host, Path: u.Path, RawPath: u.EscapedPath(), Query: u.RawQuery, Frag: u.Fragment, URL: &u, HostHeader: r.Host, Body: r.Body != nil && r.Body != http.NoBody})
	if t.serve == nil {
		return nil, fmt.Errorf("nothing to serve")
	}
	a := t.serve(len(t.reqs), r)
	if a.err {
		return nil, pick(a.fault)
	}
	t.opened++
	h := http.Header{"Content-Type": {"text/plain"}}
	if a.loc != "" {
		h["Location"] = []string{a.loc}
	}
	return &http.Response{StatusCode: a.status, Status: fmt.Sprint(a.status, " ", http.StatusText(a.status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, ContentLength: a.length, Request: r,
		Body: &body{faultReader: faultReader{data: a.body, limit: a.limit, chunk: a.chunk, mixed: a.mixed, err: a.fault}, t: t}}, nil
}

// ok is a good answer.
func ok(b []byte) reply { return reply{status: 200, body: b, limit: -1, length: -1} }

// state returns the requests seen and the number of response bodies still open.
func (t *transport) state() ([]request, int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.reqs, t.opened - t.closed
}
