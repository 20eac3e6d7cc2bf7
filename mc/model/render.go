package model

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
)

// Text is the model of the text output.
func Text(ns []*Node, indent string, lvl int, b *strings.Builder) {
	for _, n := range ns {
		b.WriteString(strings.Repeat(indent, lvl) + n.Name)
		if n.Value != "" {
			b.WriteString(": " + n.Value)
		}
		if n.Note != "" {
			b.WriteString(" (" + n.Note + ")")
		}
		b.WriteByte('\n')
		if n.Dump != "" {
			b.WriteString(strings.Repeat(indent, lvl+1) + n.Dump + "\n")
		}
		Text(n.Items, indent, lvl+1, b)
	}
}

// fromJSON reads the JSON output back, strictly.
func fromJSON(v any) ([]*Node, error) {
	l, ok := v.([]any)
	if !ok {
		return nil, fmt.Errorf("not a list: %T", v)
	}
	var out []*Node
	for _, e := range l {
		m, ok := e.(map[string]any)
		if !ok {
			return nil, fmt.Errorf("not an object: %T", e)
		}
		n := &Node{}
		if _, ok := m["name"]; !ok {
			return nil, fmt.Errorf("entry without a name")
		}
		for k, w := range m {
			if k == "Item" {
				var err error
				if n.Items, err = fromJSON(w); err != nil {
					return nil, err
				}
				continue
			}
			s, ok := w.(string)
			if !ok {
				return nil, fmt.Errorf("%q is not a string", k)
			}
			switch k {
			case "name":
				n.Name = s
			case "value":
				n.Value = s
			case "dump":
				n.Dump = s
			case "note":
				n.Note = s
			default:
				return nil, fmt.Errorf("unknown key %q", k)
			}
		}
		out = append(out, n)
	}
	return out, nil
}

// ReadJSON reads the JSON output back, strictly.
func ReadJSON(b []byte) ([]*Node, error) {
	var m map[string]any
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	for k := range m {
		if k != "Packet" {
			return nil, fmt.Errorf("unknown key %q", k)
		}
	}
	if m["Packet"] == nil {
		return nil, nil
	}
	return fromJSON(m["Packet"])
}
