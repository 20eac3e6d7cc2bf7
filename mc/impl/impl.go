// Package impl runs the real parser and converts its result into model nodes.
package impl

import (
	"bytes"
	"fmt"
	"io"
	"runtime/debug"
	"time"

	"gpgpmc/model"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// Result of one run of the real parser.
type Result struct {
	Info  *result.Info
	Nodes []*model.Node
	Err   error
	Panic string
	Hang  bool
}

// Context builds the real context for options.
func Context(o model.Opts) *context.Context {
	return context.New(
		context.Set(context.CERT, o.Cert),
		context.Set(context.DEBUG, o.Debug),
		context.Set(context.INTEGER, o.Int),
		context.Set(context.LITERAL, o.Literal),
		context.Set(context.MARKER, o.Marker),
		context.Set(context.PRIVATE, o.Private),
		context.Set(context.UTC, o.UTC),
	)
}

// Convert turns a real listing into model nodes.
func Convert(items []*result.Item) []*model.Node {
	if len(items) == 0 {
		return nil
	}
	out := make([]*model.Node, len(items))
	for i, it := range items {
		if it == nil {
			continue
		}
		out[i] = &model.Node{Name: it.Name, Value: it.Value, Dump: it.Dump, Note: it.Note, Items: Convert(it.Items)}
	}
	return out
}

// Guard runs f, capturing a panic.
func Guard(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	f()
	return ""
}

// Timed runs f with a watchdog; false if it did not come back.
func Timed(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	default:
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// ParseReader runs the real parser on a reader.
func ParseReader(cxt *context.Context, r io.Reader) (res Result) {
	res.Panic = Guard(func() {
		p, err := parse.New(cxt, r)
		if err != nil {
			res.Err = err
			return
		}
		res.Info, res.Err = p.Parse()
	})
	if res.Panic == "" && res.Info != nil {
		res.Nodes = Convert(res.Info.Packets)
	}
	return res
}

// ParseBytes runs the real parser through NewBytes.
func ParseBytes(cxt *context.Context, data []byte) (res Result) {
	res.Panic = Guard(func() {
		p, err := parse.NewBytes(cxt, data)
		if err != nil {
			res.Err = err
			return
		}
		res.Info, res.Err = p.Parse()
	})
	if res.Panic == "" && res.Info != nil {
		res.Nodes = Convert(res.Info.Packets)
	}
	return res
}

// Parse runs the real parser on bytes.
func Parse(data []byte, o model.Opts) Result {
	return ParseReader(Context(o), bytes.NewReader(data))
}

// ArmorContext is Context with armor-only input.
func ArmorContext(o model.Opts) *context.Context {
	c := Context(o)
	c.Set(context.ARMOR, true)
	return c
}
