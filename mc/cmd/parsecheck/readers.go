package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"gpgpmc/check"
	"gpgpmc/explore"
	"gpgpmc/impl"
	"gpgpmc/model"
)

type kindCase struct {
	Data []byte
	Kind int
	Skip int // bytes already consumed before the parser gets the reader
	Dir  string
}

var readerNames = []string{"bytes.Reader", "bytes.Buffer", "strings.Reader", "bufio.Reader", "bufio.Reader of 16 bytes", "os.File", "io.Pipe", "io.SectionReader", "io.LimitedReader", "io.MultiReader", "io.TeeReader", "one byte", "half", "data with EOF", "not a pointer", "NewBytes"}

type plain struct{ r io.Reader }

func (p plain) Read(b []byte) (int, error) { return p.r.Read(b) }

// readerKinds: the same bytes through every kind of reader, at every start position of a list.
func readerKinds(x *check.Ctx, inputs [][]byte) {
	dir, err := os.MkdirTemp("", "gpgpmc-readers")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	check.Space(x, "reader-kinds", check.Opt{Desc: "every input through every kind of reader (memory, strings, buffered, file, pipe, section, limited, joined, tee, one byte at a time, ...), from the start and with bytes already consumed"}, func(c *explore.Chooser) (kindCase, bool) {
		return kindCase{Data: explore.PickFree(c, inputs), Kind: c.Free(len(readerNames)), Skip: explore.PickFree(c, []int{0, 1, 7, 100, 5000}), Dir: dir}, true
	}, func(e *explore.Env, k kindCase) *explore.Violation {
		o := model.Opts{UTC: true}
		want := impl.Parse(k.Data, o)
		pre := bytes.Repeat([]byte{0xcd}, k.Skip)
		all := append(append([]byte{}, pre...), k.Data...)
		var r io.Reader
		switch k.Kind {
		case 0:
			r = bytes.NewReader(all)
		case 1:
			r = bytes.NewBuffer(all)
		case 2:
			r = strings.NewReader(string(all))
		case 3:
			r = bufio.NewReader(bytes.NewReader(all))
		case 4:
			r = bufio.NewReaderSize(bytes.NewReader(all), 16)
		case 5:
			f, err := os.CreateTemp(k.Dir, "in")
			if err != nil {
				panic(err)
			}
			defer os.Remove(filepath.Join(f.Name()))
			defer f.Close()
			f.Write(all)
			f.Seek(0, io.SeekStart)
			r = f
		case 6:
			pr, pw := io.Pipe()
			go func() {
				pw.Write(all)
				pw.Close()
			}()
			defer pr.Close()
			r = pr
		case 7:
			r = io.NewSectionReader(bytes.NewReader(append([]byte("xyz"), all...)), 3, int64(len(all)))
		case 8:
			r = io.LimitReader(bytes.NewReader(append(append([]byte{}, all...), "beyond the limit"...)), int64(len(all)))
		case 9:
			h := len(all) / 2
			r = io.MultiReader(bytes.NewReader(all[:h]), strings.NewReader(""), bytes.NewReader(all[h:]))
		case 10:
			r = io.TeeReader(bytes.NewReader(all), io.Discard)
		case 11:
			r = iotest.OneByteReader(bytes.NewReader(all))
		case 12:
			r = iotest.HalfReader(bytes.NewReader(all))
		case 13:
			r = iotest.DataErrReader(bytes.NewReader(all))
		case 14:
			r = plain{bytes.NewReader(all)}
		}
		var got impl.Result
		if k.Kind == 15 {
			got = impl.ParseBytes(impl.Context(o), k.Data)
		} else {
			if _, err := io.ReadFull(r, make([]byte, k.Skip)); err != nil {
				panic(err)
			}
			got = impl.ParseReader(impl.Context(o), r)
		}
		c := Case{Data: k.Data, O: o, Note: fmt.Sprintf("%s with %d bytes already consumed", readerNames[k.Kind], k.Skip)}
		if got.Panic != "" {
			return viol(c, "panic: %s", got.Panic)
		}
		if (want.Err == nil) != (got.Err == nil) {
			return viol(c, "through a %s the outcome is %v, from memory it is %v", c.Note, got.Err, want.Err)
		}
		if d := model.Equal(want.Nodes, got.Nodes, ""); d != "" {
			return viol(c, "through a %s the listing differs from that from memory at %s", c.Note, d)
		}
		e.Steps(len(got.Nodes) + 1)
		e.Outcome(readerNames[k.Kind])
		return nil
	}, func(k kindCase) map[string]any {
		return map[string]any{"reader": readerNames[k.Kind], "consumed": k.Skip, "bytes": len(k.Data)}
	})
}
