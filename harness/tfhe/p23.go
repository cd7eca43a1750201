//go:build verifharness

package tfhe

// vhCopies: Copy and CopyFrom give equal, independent objects; Clear zeroes.
// b has the shape of a and other contents.
func vhCopies[T TorusInt, V any](a, b V, flat func(*vhW[T], V), msg string) {
	if msg == "GadgetParameters" || msg == "Parameters" {
		return // plain values
	}
	type cp interface{ Copy() V }
	type mut interface {
		CopyFrom(V)
		Clear()
	}
	get := func(x V) *vhW[T] {
		var w vhW[T]
		flat(&w, x)
		return &w
	}
	set := func(x *V, y V) {
		m, ok := any(x).(mut)
		vAssert(ok, msg+": CopyFrom and Clear exist")
		m.CopyFrom(y)
	}
	c, ok := any(a).(cp)
	vAssert(ok, msg+": Copy exists")
	a0, b0 := get(a), get(b)
	x := c.Copy()
	vhSame(get(x), a0, msg+": Copy is equal")
	set(&x, b)
	vhSame(get(x), b0, msg+": CopyFrom copies everything")
	vhSame(get(a), a0, msg+": changing a copy leaves the original")
	vhSame(get(b), b0, msg+": CopyFrom leaves its source")
	any(&x).(mut).Clear()
	vhSame(get(b), b0, msg+": CopyFrom does not alias its source")
	w := get(x)
	for i := range w.it {
		if w.it[i].kind == 1 {
			vEqT(w.it[i].t, 0, -1, msg+": Clear zeroes every value")
		}
		if w.it[i].kind == 2 {
			vAssert(w.it[i].f == 0, msg+": Clear zeroes every value")
		}
		if w.it[i].kind == 0 {
			vAssert(w.it[i].h == b0.it[i].h, msg+": Clear keeps the shape")
		}
	}
	y := any(a).(cp).Copy()
	set(&a, b)
	vhSame(get(a), b0, msg+": CopyFrom copies everything")
	vhSame(get(y), a0, msg+": changing the original leaves the copy")
	any(&a).(mut).Clear()
	vhSame(get(y), a0, msg+": clearing the original leaves the copy")
	vhSame(get(b), b0, msg+": clearing an object leaves what it was copied from")
}

func VH_P23_scalar32() { vhSer0[uint32](vhSizes{3, 1, 16, 2}, vhSizes{3, 1, 16, 2}, 2) }
func VH_P23_scalar64() { vhSer0[uint64](vhSizes{4, 1, 16, 3}, vhSizes{4, 1, 16, 3}, 2) }
func VH_P23_poly32()   { vhSer1[uint32](vhSizes{3, 2, 16, 2}, vhSizes{3, 2, 16, 2}, 2) }
func VH_P23_poly64()   { vhSer1[uint64](vhSizes{3, 1, 32, 3}, vhSizes{3, 1, 32, 3}, 2) }
func VH_P23_fft32()    { vhSer2[uint32](vhSizes{3, 2, 16, 2}, vhSizes{3, 2, 16, 2}, 2) }
func VH_P23_fft64()    { vhSer2[uint64](vhSizes{3, 1, 32, 3}, vhSizes{3, 1, 32, 3}, 2) }
func VH_P23_keys32()   { vhSer3[uint32](vhSizes{3, 2, 16, 2}, vhSizes{3, 2, 16, 2}, 2) }
func VH_P23_keys64()   { vhSer3[uint64](vhSizes{2, 1, 16, 3}, vhSizes{2, 1, 16, 3}, 2) }
func VH_P23_lut() {
	for _, x := range []int{1, 2, 3} {
		mk := func() LookUpTable[uint32] {
			l := NewLUTCustom[uint32](x, 16)
			vhSetP(l.Value)
			return l
		}
		fl := func(w *vhW[uint32], l LookUpTable[uint32]) { w.h(len(l.Value)); w.ps(l.Value) }
		vhCopies[uint32, LookUpTable[uint32]](mk(), mk(), fl, "LookUpTable")
	}
	vEnd()
}

func (k vhGKSK[T]) Copy() vhGKSK[T]       { return vhGKSK[T]{k.GLWEKeySwitchKey.Copy()} }
func (k *vhGKSK[T]) CopyFrom(o vhGKSK[T]) { k.GLWEKeySwitchKey.CopyFrom(o.GLWEKeySwitchKey) }
