HEAD = '''
package riblt

import "testing"

type demoSym uint64

func (d demoSym) XOR(t demoSym) demoSym { return d ^ t }
func (d demoSym) Hash() uint64 {
	x := uint64(d) + 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// prev returns a hash for which the generator's first output is r
func prev(r uint64) uint64 {
	const a = 0xda942042e4dd58b5
	inv := uint64(a)
	for i := 0; i < 7; i++ {
		inv *= 2 - a*inv
	}
	return r * inv
}
'''
bug("riblt-carry-over", "R02", "riblt",
    [("riblt/decoder.go", "	for didx := 0; didx < len(d.dirty); didx += 1 {", "	n := len(d.dirty)\n	for didx := 0; didx < n; didx += 1 {"),
     ("riblt/decoder.go", "		d.cs[cidx].dirty = false\n	}\n	d.dirty = d.dirty[:0]", "		d.cs[cidx].dirty = false\n	}\n	d.dirty = d.dirty[n:]")],
    "a decoding attempt in which resolving one coded symbol makes another one resolvable",
    "Coded symbols that become resolvable during a decoding attempt are left for the next attempt, so the attempt returns before everything peeling can recover is recovered.",
    HEAD + '''
func TestDemo(t *testing.T) {
	for n := 2; n < 12; n++ {
		enc := Encoder[demoSym]{}
		dec := Decoder[demoSym]{}
		for i := 0; i < n; i++ {
			enc.AddSymbol(demoSym(1000*n + i))
		}
		for i := 0; i < 20*n; i++ {
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		}
		dec.TryDecode()
		before := len(dec.Remote())
		for i := 0; i < n; i++ {
			dec.TryDecode() // nothing new was received: nothing new may be recovered
		}
		if len(dec.Remote()) != before {
			t.Fatalf("n=%d: attempt stopped at %d of %d recoverable symbols", n, before, len(dec.Remote()))
		}
	}
}
''')
bug("riblt-reset-empty-window", "R05", "riblt",
    [("riblt/encoder.go", "		e.queue = e.queue[:0]\n	}\n	e.nextIdx = 0\n", "		e.queue = e.queue[:0]\n		e.nextIdx = 0\n	}\n")],
    "a decoder that had no symbols of its own when it was reset, used again with symbols of its own",
    "Resetting a window that is empty keeps its position in the stream, so symbols added after the reset are never peeled off.",
    HEAD + '''
func TestDemo(t *testing.T) {
	dec := Decoder[demoSym]{}
	enc := Encoder[demoSym]{}
	enc.AddSymbol(1)
	for i := 0; i < 3; i++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
	}
	dec.TryDecode()
	dec.Reset()
	enc.Reset()
	enc.AddSymbol(5)
	enc.AddSymbol(6)
	dec.AddSymbol(5)
	for i := 0; i < 40; i++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		dec.TryDecode()
		if dec.Decoded() {
			break
		}
	}
	if !dec.Decoded() || len(dec.Remote()) != 1 || dec.Remote()[0].Symbol != 6 || len(dec.Local()) != 0 {
		t.Fatalf("after a reset: decoded=%v remote=%v local=%v", dec.Decoded(), dec.Remote(), dec.Local())
	}
}
''')
bug("riblt-reset-stale-dirty", "R05", "riblt",
    [("riblt/decoder.go", "	if len(d.dirty) != 0 {\n		d.dirty = d.dirty[:0]\n	}\n	d.local.reset()", "	d.local.reset()")],
    "a decoder reset after receiving a coded symbol but before the next decoding attempt",
    "Work queued before a reset survives it: the next attempt looks at coded symbols that no longer exist.",
    HEAD + '''
func TestDemo(t *testing.T) {
	dec := Decoder[demoSym]{}
	enc := Encoder[demoSym]{}
	enc.AddSymbol(1)
	for i := 0; i < 6; i++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
	}
	dec.Reset() // no attempt was made in between
	enc.Reset()
	enc.AddSymbol(7)
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic after a reset: %v", e)
		}
	}()
	dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
	dec.TryDecode()
	if !dec.Decoded() || len(dec.Remote()) != 1 {
		t.Fatalf("after a reset: decoded=%v remote=%v", dec.Decoded(), dec.Remote())
	}
}
''')
bug("riblt-sketch-last-cell", "R03", "riblt",
    [("riblt/sketch.go", "	for int(m.lastIdx) < len(s) {", "	last := len(s) - 1\n	for idx := int(m.lastIdx); idx < last || idx == 0; idx = int(m.lastIdx) {"),
     ("riblt/sketch.go", "		idx := m.lastIdx\n", "")],
    "a symbol mapped to the last cell of a sketch with more than one cell",
    "Symbols are left out of the last cell of a sketch, which therefore differs from the encoder's coded symbol of the same index.",
    HEAD + '''
func TestDemo(t *testing.T) {
	for size := 1; size < 12; size++ {
		s := make(Sketch[demoSym], size)
		enc := Encoder[demoSym]{}
		for i := 0; i < 30; i++ {
			s.AddSymbol(demoSym(i))
			enc.AddSymbol(demoSym(i))
		}
		for i := range s {
			if c := enc.ProduceNextCodedSymbol(); c != s[i] {
				t.Fatalf("size %d: cell %d is %v, the stream has %v", size, i, s[i], c)
			}
		}
	}
}
''')
bug("riblt-subtract-larger", "R06", "riblt",
    [("riblt/sketch.go", "	if len(s) != len(s2) {", "	if len(s) > len(s2) {")],
    "subtracting a larger sketch from a smaller one",
    "A sketch of a different size is accepted and silently truncated when it is the larger one.",
    HEAD + '''
func TestDemo(t *testing.T) {
	for n := 1; n < 5; n++ {
		for k := 1; k < 5; k++ {
			refused := func() (p bool) {
				defer func() { p = recover() != nil }()
				make(Sketch[demoSym], n).Subtract(make(Sketch[demoSym], k))
				return
			}()
			if refused != (n != k) {
				t.Fatalf("sizes %d and %d: refused=%v", n, k, refused)
			}
		}
	}
}
''')
bug("riblt-density-offset", "R07", "riblt",
    [("riblt/random.go", "	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))", "	// position on the continuous scale, rounded up to the next index\n	pos := (float64(s.lastIdx) + 1.5) / math.Sqrt(1-xm)\n	step := uint64(math.Ceil(pos)) - s.lastIdx - 1\n	if step == 0 {\n		step = 1\n	}\n	s.lastIdx += step")],
    "a generator output for which the continuous step is just above a whole number",
    "The step is rounded from the shifted position instead of from the step, which moves it by up to one and thins the stream differently from the designed density.",
    HEAD.replace('import "testing"', 'import (\n\t"math"\n\t"testing"\n)') + '''
func TestDemo(t *testing.T) {
	for _, j := range []uint64{0, 1, 3, 10} {
		for k := uint64(1); k < 60; k++ {
			r := k << 58
			m := randomMapping{prev(r), j}
			got := float64(m.nextIndex() - j)
			x := (float64(j) + 1.5) * (1/math.Sqrt(1-float64(r)/math.Exp2(64)) - 1)
			if got < x-1e-6 || got > x+1+1e-6 {
				t.Fatalf("from index %d, generator output %d: step %v, designed %v", j, r, got, x)
			}
		}
	}
}
''')

bug("riblt-alias-local", "R01", "riblt",
    [("riblt/decoder.go", "				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data\n				ns.Hash = h\n				m := d.applyNewSymbol(ns, add)", "				ns.Symbol = c.sum\n				ns.Hash = h\n				m := d.applyNewSymbol(ns, add)")],
    "symbols whose XOR works in place (as its contract allows) and a symbol only the decoder has",
    "A recovered local symbol shares its data with the coded symbol it came from, which is zeroed when the symbol is peeled off.",
    HEAD + '''
type demoPtr [4]byte

func (d *demoPtr) XOR(t *demoPtr) *demoPtr {
	if d == nil {
		d = &demoPtr{}
	}
	for i := range d {
		d[i] ^= t[i]
	}
	return d
}
func (d *demoPtr) Hash() uint64 {
	return demoSym(uint64(d[0]) | uint64(d[1])<<8 | uint64(d[2])<<16 | uint64(d[3])<<24).Hash()
}

func TestDemo(t *testing.T) {
	enc := Encoder[*demoPtr]{}
	dec := Decoder[*demoPtr]{}
	enc.AddSymbol(&demoPtr{1})
	dec.AddSymbol(&demoPtr{1})
	dec.AddSymbol(&demoPtr{2})
	dec.AddSymbol(&demoPtr{3})
	for i := 0; i < 60; i++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		dec.TryDecode()
		if dec.Decoded() {
			break
		}
	}
	seen := map[demoPtr]bool{}
	for _, s := range dec.Local() {
		seen[*s.Symbol] = true
	}
	if !dec.Decoded() || len(dec.Remote()) != 0 || len(dec.Local()) != 2 || !seen[demoPtr{2}] || !seen[demoPtr{3}] {
		t.Fatalf("decoded=%v local=%v", dec.Decoded(), seen)
	}
}
''')
