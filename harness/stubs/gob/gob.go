// Package gob stands in for encoding/gob in the symbolic engine: a value
// travels as one byte that names it, so that the stream has to reach the
// decoder complete, in order and from the right position on.
package gob

import "io"

const base = 150

var table []any

type Encoder struct{ w io.Writer }
type Decoder struct{ r io.Reader }

func NewEncoder(w io.Writer) *Encoder { return &Encoder{w} }
func NewDecoder(r io.Reader) *Decoder { return &Decoder{r} }

type streamError struct{}

func (streamError) Error() string { return "gob: corrupted stream" }

func (e *Encoder) Encode(x any) error {
	table = append(table, snapshot(x))
	_, err := e.w.Write([]byte{byte(base + len(table) - 1)})
	return err
}

func (d *Decoder) Decode(x any) error {
	var b [1]byte
	if _, err := io.ReadFull(d.r, b[:]); err != nil {
		return err
	}
	if b[0] < base || int(b[0]-base) >= len(table) {
		return streamError{}
	}
	assign(x, table[b[0]-base])
	return nil
}

// snapshot is what x is at this moment; the engine supplies it.
func snapshot(x any) any { panic("snapshot") }

// assign decodes src into *dst; the engine supplies it.
func assign(dst, src any) { panic("assign") }
