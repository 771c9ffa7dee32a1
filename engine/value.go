package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	uint64          concrete integer of any kind, zero extended to its width
//	bool, float64 (also float32), string
//	*Term           symbolic bool / bit-vector / double
//	*SymStr         string with symbolic bytes
//	Ptr, UPtr, *CastPtr, Slice, Struct, Array, Iface, *Map, *Chan, *Closure,
//	*ssa.Function, *ssa.Builtin, Tuple, *MapIter, complex128
type Value = any

type Ptr struct {
	c   *Value
	arr []Value // enclosing array, when the pointee is an element
	idx int
}

// UPtr is an unsafe.Pointer: the pointer and its original element type.
type UPtr struct {
	p    Ptr
	elem types.Type
	off  int // byte offset relative to the element
}

// CastPtr reinterprets memory through unsafe.
type CastPtr struct {
	p    Ptr
	from types.Type
	to   types.Type
}

type Slice []Value
type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type SymStr struct{ b []Value }

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Map struct {
	keys, vals []Value
	dead       []bool
	n          int
	idx        map[string]int // concrete keys
	nsym       int            // symbolic keys present
	id         int
}

type MapIter struct {
	m    *Map
	keys []Value
	pos  int
	str  []Value // string iteration
	isS  bool
	used []bool
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// intInfo returns the width and signedness of an integer type (0 if none).
func intInfo(t types.Type) (int, bool) {
	b := basicOf(t)
	if b == nil {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of %v", t))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

// storeInto writes v into cell, keeping the identity of nested cells.
func storeInto(cell *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*cell).(Struct); ok && len(d) == len(x) {
			// the source may alias the destination; copy first
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*cell = copyVal(v)
		return
	case Array:
		if d, ok := (*cell).(Array); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*cell = copyVal(v)
		return
	}
	*cell = v
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("const of type %v", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, _ := intInfo(t)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	panic(unsupported("const %v", c))
}

// concKey renders a fully concrete value as a map key string.
func concKey(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case uint64:
		fmt.Fprintf(sb, "i%x,", x)
	case bool:
		fmt.Fprintf(sb, "b%v,", x)
	case float64:
		fmt.Fprintf(sb, "f%x,", math.Float64bits(x+0))
	case string:
		fmt.Fprintf(sb, "s%d:%s,", len(x), x)
	case Ptr:
		fmt.Fprintf(sb, "p%p,", x.c)
	case *Chan:
		fmt.Fprintf(sb, "c%p,", x)
	case Struct:
		sb.WriteByte('{')
		for _, f := range x {
			if !concKey(f, sb) {
				return false
			}
		}
		sb.WriteByte('}')
	case Array:
		sb.WriteByte('[')
		for _, f := range x {
			if !concKey(f, sb) {
				return false
			}
		}
		sb.WriteByte(']')
	case Iface:
		if x.t == nil {
			sb.WriteString("nil,")
			return true
		}
		sb.WriteString("I" + types.TypeString(x.t, nil) + ":")
		return concKey(x.v, sb)
	default:
		return false
	}
	return true
}

func keyOf(v Value) (string, bool) {
	var sb strings.Builder
	ok := concKey(v, &sb)
	return sb.String(), ok
}

func newMap() *Map { return &Map{idx: map[string]int{}} }

// compact removes deleted entries once they dominate.
func (mp *Map) add(k, v Value) {
	if ks, ok := keyOf(k); ok {
		mp.idx[ks] = len(mp.keys)
	} else {
		mp.nsym++
	}
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, v)
	mp.dead = append(mp.dead, false)
	mp.n++
}

func (mp *Map) del(i int) {
	if mp.dead[i] {
		return
	}
	mp.dead[i] = true
	mp.n--
	if ks, ok := keyOf(mp.keys[i]); ok {
		delete(mp.idx, ks)
	} else {
		mp.nsym--
	}
}

// find returns the index of k, forking on symbolic equality; -1 if absent.
func (m *M) mapFind(mp *Map, kt types.Type, k Value) int {
	if mp == nil || mp.n == 0 {
		return -1
	}
	ks, ok := keyOf(k)
	if ok {
		if i, there := mp.idx[ks]; there {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
	}
	for i := range mp.keys {
		if mp.dead[i] {
			continue
		}
		if m.branch(m.eq(kt, k, mp.keys[i])) {
			return i
		}
	}
	return -1
}

// eq compares two values of type t; the result is bool or *Term.
func (m *M) eq(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			fa, ok1 := a.(float64)
			fb, ok2 := b.(float64)
			if ok1 && ok2 {
				return fa == fb
			}
			return m.norm(m.tm.F(OFEq, m.fterm(a), m.fterm(b)))
		}
		if u.Kind() == types.UnsafePointer {
			return a.(UPtr).p.c == b.(UPtr).p.c
		}
		if u.Info()&types.IsComplex != 0 {
			return a.(complex128) == b.(complex128)
		}
		if u.Kind() == types.UntypedNil {
			return true
		}
		return m.scalarEq(t, a, b)
	case *types.Pointer:
		return ptrCell(a) == ptrCell(b)
	case *types.Chan:
		return a.(*Chan) == b.(*Chan)
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.eq(x.t, x.v, y.v)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var ts []*Term
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r := m.eq(u.Field(i).Type(), x[i], y[i])
			if bv, ok := r.(bool); ok {
				if !bv {
					return false
				}
				continue
			}
			ts = append(ts, r.(*Term))
		}
		return m.norm(m.tm.And(ts...))
	case *types.Array:
		x, y := a.(Array), b.(Array)
		if w, _ := intInfo(u.Elem()); w == 8 && len(x)%8 == 0 && len(x) > 0 && hasSym(x, y) {
			// compare word-wise so that byte splits recombine
			var ts []*Term
			for i := 0; i < len(x); i += 8 {
				r := m.tm.Eq(m.gather(x[i:i+8]), m.gather(y[i:i+8]))
				if r == m.tm.ff {
					return false
				}
				ts = append(ts, r)
			}
			return m.norm(m.tm.And(ts...))
		}
		var ts []*Term
		for i := range x {
			r := m.eq(u.Elem(), x[i], y[i])
			if bv, ok := r.(bool); ok {
				if !bv {
					return false
				}
				continue
			}
			ts = append(ts, r.(*Term))
		}
		return m.norm(m.tm.And(ts...))
	case *types.Signature:
		return isNilFunc(a) && isNilFunc(b)
	case *types.Slice:
		return a.(Slice) == nil && b.(Slice) == nil
	case *types.Map:
		return a.(*Map) == nil && b.(*Map) == nil
	}
	panic(unsupported("eq of %v", t))
}

func hasSym(xs ...Array) bool {
	for _, x := range xs {
		for _, v := range x {
			if _, ok := v.(*Term); ok {
				return true
			}
		}
	}
	return false
}

func ptrCell(v Value) *Value {
	switch p := v.(type) {
	case Ptr:
		return p.c
	case *CastPtr:
		return p.p.c
	}
	panic(unsupported("pointer %T", v))
}

func isNilFunc(v Value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	case nil:
		return true
	}
	return false
}

// gather builds a little-endian word from bytes.
func (m *M) gather(bs []Value) *Term {
	ts := make([]*Term, len(bs))
	for i, b := range bs {
		ts[len(bs)-1-i] = m.term(b, 8)
	}
	return m.tm.Concat(ts...)
}

func (m *M) strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := range r {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(unsupported("string %T", v))
}

func mkStr(b []Value) Value {
	bs := make([]byte, len(b))
	for i, v := range b {
		c, ok := v.(uint64)
		if !ok {
			cp := make([]Value, len(b))
			copy(cp, b)
			return &SymStr{cp}
		}
		bs[i] = byte(c)
	}
	return string(bs)
}

func (m *M) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	x, y := m.strBytes(a), m.strBytes(b)
	if len(x) != len(y) {
		return false
	}
	return m.bytesEq(x, y)
}

func (m *M) bytesEq(x, y []Value) Value {
	if len(x) != len(y) {
		return false
	}
	var ts []*Term
	i := 0
	for i < len(x) {
		k := 1
		if len(x)-i >= 8 {
			k = 8
		}
		r := m.tm.Eq(m.gather(x[i:i+k]), m.gather(y[i:i+k]))
		if r == m.tm.ff {
			return false
		}
		ts = append(ts, r)
		i += k
	}
	return m.norm(m.tm.And(ts...))
}

// growCap mimics the capacity growth of the runtime's append.
var growCache sync.Map

func growCap(elem types.Type, oldLen, oldCap, need int) int {
	sz := sizeof(elem)
	type key struct{ sz, ol, oc, n int }
	k := key{int(sz), oldLen, oldCap, need}
	if v, ok := growCache.Load(k); ok {
		return v.(int)
	}
	var et reflect.Type
	if sz == 1 {
		et = reflect.TypeOf(byte(0))
	} else if sz%8 == 0 && sz > 0 {
		et = reflect.ArrayOf(int(sz/8), reflect.TypeOf(uintptr(0)))
	} else {
		et = reflect.ArrayOf(int(sz), reflect.TypeOf(byte(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), oldLen, oldCap)
	add := reflect.MakeSlice(reflect.SliceOf(et), need-oldLen, need-oldLen)
	r := reflect.AppendSlice(s, add).Cap()
	growCache.Store(k, r)
	return r
}

var sizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 { return sizes.Sizeof(t) }

func asInt(v Value) int64 {
	return int64(v.(uint64))
}

func showVal(v Value, d int) string {
	if d > 3 {
		return "..."
	}
	switch x := v.(type) {
	case uint64, bool, float64, string:
		return fmt.Sprint(x)
	case *Term:
		return x.String()
	case Struct:
		var s []string
		for _, f := range x {
			s = append(s, showVal(f, d+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case Array:
		return showVal(Slice(x), d)
	case Slice:
		var s []string
		for i, f := range x {
			if i > 8 {
				break
			}
			s = append(s, showVal(f, d+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return showVal(x.v, d+1)
	case Ptr:
		if x.c == nil {
			return "nil"
		}
		return "&" + showVal(*x.c, d+1)
	}
	return fmt.Sprintf("%T", v)
}
