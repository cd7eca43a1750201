package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: uint64, bool, *Term, float64, *Form, complex128, string,
// Ptr, Slice, *MapVal, *ChanVal, Iface, *Closure, Agg, Tuple.
type Value interface{}

// Object is an allocation, flattened to scalar cells.
type Object struct {
	id        int
	cells     []Value
	cellBytes int // >0 if homogeneous
	name      string
}

type Ptr struct {
	obj *Object
	off int
}

type Slice struct {
	obj           *Object
	off, len, cap int
	es            int
}

type Agg []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	bi   *ssa.Builtin
}

type MapVal struct {
	keys []Value
	m    map[interface{}]*mapEnt
	vt   types.Type
}
type mapEnt struct{ k, v Value }

type ChanVal struct {
	cap    int
	q      []Value
	closed bool
	nsend  int // total sends
	nrecv  int
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

type goPanic struct {
	v   Value
	msg string
}

func rtPanic(f string, a ...interface{}) { panic(goPanic{nil, fmt.Sprintf(f, a...)}) }

type pathAbort struct{ why string }

// ---- type layout ----

var cellMemo = map[types.Type]int{}

func cellCount(t types.Type) int {
	if n, ok := cellMemo[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += cellCount(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * cellCount(u.Elem())
	case *types.Tuple:
		n = u.Len()
	}
	cellMemo[t] = n
	return n
}

func fieldOffset(st *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += cellCount(st.Field(j).Type())
	}
	return n
}

func leafBytes(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return int(stdSizes.Sizeof(u))
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			b := leafBytes(u.Field(i).Type())
			if b == -1 || (n != 0 && b != n) {
				return -1
			}
			n = b
		}
		if n == 0 {
			return -1
		}
		return n
	case *types.Array:
		return leafBytes(u.Elem())
	}
	return int(stdSizes.Sizeof(t))
}

var stdSizes = types.SizesFor("gc", "amd64")

func zeroCells(t types.Type, out []Value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := cellCount(u.Field(i).Type())
			zeroCells(u.Field(i).Type(), out[o:o+n])
			o += n
		}
		return
	case *types.Array:
		n := cellCount(u.Elem())
		if n == 0 {
			return
		}
		if n == 1 {
			var one [1]Value
			zeroCells(u.Elem(), one[:])
			for i := range out {
				out[i] = one[0]
			}
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			zeroCells(u.Elem(), out[i*n:(i+1)*n])
		}
		return
	}
	out[0] = zeroScalar(t)
}

var zero64 Value = uint64(0)
var zeroF Value = float64(0)
var falseV Value = false
var trueV Value = true

func zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return falseV
		case i&types.IsInteger != 0:
			return zero64
		case i&types.IsFloat != 0:
			return zeroF
		case i&types.IsComplex != 0:
			return complex128(0)
		case i&types.IsString != 0:
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{es: cellCount(u.Elem())}
	case *types.Map:
		return (*MapVal)(nil)
	case *types.Chan:
		return (*ChanVal)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	}
	panic(unsupported("zero of " + t.String()))
}

func zeroValue(t types.Type) Value {
	n := cellCount(t)
	if tt, ok := t.(*types.Tuple); ok {
		out := make(Tuple, n)
		for i := range out {
			out[i] = zeroValue(tt.At(i).Type())
		}
		return out
	}
	out := make(Agg, n)
	zeroCells(t, out)
	return packAgg(out, n, t)
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func packAgg(c []Value, n int, t types.Type) Value {
	if n == 1 {
		return c[0]
	}
	return Agg(c)
}

// intInfo returns the width and signedness of an integer type.
func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isComplex(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// toTerm lifts an integer value to a w-bit term.
func toTerm(v Value, w int) *Term {
	switch x := v.(type) {
	case uint64:
		return tConst(w, x)
	case *Term:
		return x
	}
	panic(unsupported(fmt.Sprintf("toTerm %T", v)))
}

func toBoolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return tBool(x)
	case *Term:
		return x
	}
	panic(unsupported(fmt.Sprintf("toBoolTerm %T", v)))
}

// norm turns constant terms into concrete values.
func norm(t *Term) Value {
	switch t.op {
	case OConst:
		return t.c
	case OBConst:
		return t.c == 1
	case OFConst:
		return fval(t)
	}
	return t
}
