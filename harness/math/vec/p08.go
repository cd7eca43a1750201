//go:build verifharness

package vec

import "github.com/sp301415/tfhe-go/math/num"

func vhVec[T vInteger](name string, n, extra int) []T {
	v := make([]T, n+extra)
	for i := range v {
		v[i] = vT[T](name)
	}
	return v
}

// vhElementwise compares the eight elementwise kernels with their definition,
// for one length, with the output disjoint from or equal to an input, and
// checks that memory beyond the vector is not written.
func vhElementwise[T num.Integer](n int) {
	alias := vChoose("alias", 4) // 0 disjoint, 1 out=v0, 2 out=v1, 3 all equal
	pad := 3
	a := vhVec[T]("a", n, pad)
	b := vhVec[T]("b", n, pad)
	c := vT[T]("c")
	a0, b0 := append([]T(nil), a...), append([]T(nil), b...)
	for op := 0; op < 8; op++ {
		va, vb := append([]T(nil), a0...), append([]T(nil), b0...)
		vo := vhVec[T]("o", n, pad)
		switch alias {
		case 1:
			vo = va
		case 2:
			vo = vb
		case 3:
			vb = va
			vo = va
		}
		o0 := append([]T(nil), vo...)
		x, y := append([]T(nil), va...), append([]T(nil), vb...)
		name := ""
		switch op {
		case 0:
			AddTo(vo[:n], va[:n], vb[:n])
			name = "AddTo"
		case 1:
			SubTo(vo[:n], va[:n], vb[:n])
			name = "SubTo"
		case 2:
			MulTo(vo[:n], va[:n], vb[:n])
			name = "MulTo"
		case 3:
			MulAddTo(vo[:n], va[:n], vb[:n])
			name = "MulAddTo"
		case 4:
			MulSubTo(vo[:n], va[:n], vb[:n])
			name = "MulSubTo"
		case 5:
			ScalarMulTo(vo[:n], va[:n], c)
			name = "ScalarMulTo"
		case 6:
			ScalarMulAddTo(vo[:n], va[:n], c)
			name = "ScalarMulAddTo"
		case 7:
			ScalarMulSubTo(vo[:n], va[:n], c)
			name = "ScalarMulSubTo"
		}
		for i := 0; i < n+pad; i++ {
			want := o0[i]
			if i < n {
				switch op {
				case 0:
					want = x[i] + y[i]
				case 1:
					want = x[i] - y[i]
				case 2:
					want = x[i] * y[i]
				case 3:
					want = o0[i] + x[i]*y[i]
				case 4:
					want = o0[i] - x[i]*y[i]
				case 5:
					want = c * x[i]
				case 6:
					want = o0[i] + c*x[i]
				case 7:
					want = o0[i] - c*x[i]
				}
			}
			vEqT(vo[i], want, -1, name)
			if alias == 0 {
				vEqT(va[i], x[i], -1, name+" modified an input")
				vEqT(vb[i], y[i], -1, name+" modified an input")
			}
			if i == n/2 {
				vObserve(name, vo[i], -1)
			}
		}
	}
}

// Elementwise uint32 kernels, lengths 1..21, all aliasing patterns.
//
//verif:modes=purego,asm,fallback
func VH_P08_elementwise32() {
	vhElementwise[uint32](1 + vChoose("n", 21))
}

// Elementwise uint64 kernels, lengths 1..21, all aliasing patterns.
//
//verif:modes=purego,asm,fallback
func VH_P08_elementwise64() {
	vhElementwise[uint64](1 + vChoose("n", 21))
}

// Longer vectors: lengths 31..41 and 64..67.
//
//verif:modes=purego,asm,fallback
func VH_P08_elementwiseLong() {
	n := vChoose("n", 15)
	if n < 11 {
		n += 31
	} else {
		n += 64 - 11
	}
	if vChoose("w", 2) == 0 {
		vhElementwise[uint32](n)
	} else {
		vhElementwise[uint64](n)
	}
}

// Elementwise kernels on other integer types (the assembly must not be taken for them).
//
//verif:modes=purego,asm,fallback
func VH_P08_elementwiseOther() {
	n := []int{1, 7, 8, 11, 17}[vChoose("n", 5)]
	switch vChoose("type", 5) {
	case 0:
		vhElementwise[int32](n)
	case 1:
		vhElementwise[int64](n)
	case 2:
		vhElementwise[uint16](n)
	case 3:
		vhElementwise[int8](n)
	case 4:
		vhElementwise[uint](n)
	}
}

func vhMoves[T num.Integer](n int) {
	v := vhVec[T]("v", n, 0)
	v0 := append([]T(nil), v...)
	same := func(got, want []T, msg string) {
		vAssert(len(got) == len(want), msg+": length")
		for i := range want {
			vEqT(got[i], want[i], -1, msg)
		}
	}
	// out[(i+l) mod n] = v[i]
	for l := -2*n - 1; l <= 2*n+1; l++ {
		want := make([]T, n)
		for i := range v {
			want[((i+l)%n+n)%n] = v0[i]
		}
		o := vhVec[T]("o", n, 0)
		RotateTo(o, v, l)
		same(o, want, "RotateTo")
		same(Rotate(v, l), want, "Rotate")
		same(v, v0, "rotation keeps its input")
		w := append([]T(nil), v...)
		RotateInPlace(w, l)
		same(w, want, "RotateInPlace")
	}
	want := make([]T, n)
	for i := range v {
		want[n-1-i] = v0[i]
	}
	o := vhVec[T]("o", n, 0)
	ReverseTo(o, v)
	same(o, want, "ReverseTo")
	same(Reverse(v), want, "Reverse")
	w := append([]T(nil), v...)
	ReverseInPlace(w)
	same(w, want, "ReverseInPlace")
	if n&(n-1) == 0 {
		for i := range v {
			r := 0
			for b := 1; b < n; b <<= 1 {
				r <<= 1
				if i&b != 0 {
					r |= 1
				}
			}
			want[r] = v0[i]
		}
		w = append([]T(nil), v...)
		BitReverseInPlace(w)
		same(w, want, "BitReverseInPlace")
	}
	c := Copy(v)
	same(c, v0, "Copy")
	c[0]++
	same(v, v0, "Copy is independent")
	x := vT[T]("x")
	Fill(c, x)
	for i := range c {
		vEqT(c[i], x, -1, "Fill")
	}
	y := vhVec[T]("y", n, 0)
	s := T(0)
	eq := true
	for i := range v {
		s += v[i] * y[i]
		eq = eq && v[i] == y[i]
	}
	vEqT(Dot(v, y), s, -1, "Dot")
	vAssert(Equals(v, y) == eq, "Equals")
	vAssert(!Equals(v, y[:n-1]), "Equals of different lengths")
	ng := Neg(v)
	for i := range v {
		vEqT(ng[i], -v0[i], -1, "Neg")
	}
	NegTo(y, v)
	same(y, ng, "NegTo")
	NegTo(v, v)
	same(v, ng, "NegTo in place")
	same(ScalarMul(v0, x), func() []T {
		r := make([]T, n)
		for i := range r {
			r[i] = x * v0[i]
		}
		return r
	}(), "ScalarMul")
	a, b, m := Add(v0, y), Sub(v0, y), Mul(v0, y)
	for i := range v0 {
		vEqT(a[i], v0[i]+y[i], -1, "Add")
		vEqT(b[i], v0[i]-y[i], -1, "Sub")
		vEqT(m[i], v0[i]*y[i], -1, "Mul")
	}
}

// Moves, reductions and the allocating forms.
//
//verif:modes=purego,asm,fallback
func VH_P08_moves32() { vhMoves[uint32]([]int{1, 2, 3, 4, 5, 8, 9, 16}[vChoose("n", 8)]) }

//verif:modes=purego,asm,fallback
func VH_P08_moves64() { vhMoves[uint64]([]int{1, 2, 3, 4, 6, 8, 13}[vChoose("n", 7)]) }

// Casts between widths.
func VH_P08_cast() {
	n := 5
	a := vhVec[uint64]("a", n, 0)
	b := Cast[uint32](a)
	c := Cast[int64](a)
	d := make([]int8, n)
	CastTo(d, a)
	e := Cast[uint64](d)
	for i := range a {
		vAssert(b[i] == uint32(a[i]) && c[i] == int64(a[i]) && d[i] == int8(a[i]) && e[i] == uint64(int64(int8(a[i]))), "Cast")
	}
}

// Conversion to and from the four-lane complex layout.
func VH_P08_cmplx() {
	n := 4 * (1 + vChoose("n", 3))
	f := make([]float64, 2*n)
	for i := range f {
		f[i] = vReal("f")
	}
	v := make([]complex128, n)
	Float4ToCmplxTo(v, f)
	w := Float4ToCmplx(f)
	for i := range v {
		k := i/4*8 + i%4
		vEqF(real(v[i]), f[k], 0, "real part")
		vEqF(imag(v[i]), f[k+4], 0, "imaginary part")
		vEqF(real(w[i]), f[k], 0, "real part")
		vEqF(imag(w[i]), f[k+4], 0, "imaginary part")
	}
	g := make([]float64, 2*n)
	CmplxToFloat4To(g, v)
	h := CmplxToFloat4(v)
	for i := range f {
		vEqF(g[i], f[i], 0, "CmplxToFloat4To")
		vEqF(h[i], f[i], 0, "CmplxToFloat4")
	}
	vAssert(vPanics(func() { CmplxToFloat4(v[:3]) }), "length must be a multiple of four")
	vAssert(vPanics(func() { Float4ToCmplx(f[:4]) }), "length must be a multiple of eight")
}

// Mismatching lengths are rejected before anything is written.
//
//verif:modes=purego,asm,fallback
func VH_P08_lengths() {
	a, b, o := vhVec[uint64]("a", 9, 0), vhVec[uint64]("b", 9, 0), vhVec[uint64]("o", 9, 0)
	o0 := append([]uint64(nil), o...)
	for i := 0; i < 3; i++ {
		x, y, z := o, a, b
		switch i {
		case 0:
			x = o[:8]
		case 1:
			y = a[:8]
		case 2:
			z = b[:8]
		}
		vAssert(vPanics(func() { AddTo(x, y, z) }), "AddTo length")
		vAssert(vPanics(func() { SubTo(x, y, z) }), "SubTo length")
		vAssert(vPanics(func() { MulTo(x, y, z) }), "MulTo length")
		vAssert(vPanics(func() { MulAddTo(x, y, z) }), "MulAddTo length")
		vAssert(vPanics(func() { MulSubTo(x, y, z) }), "MulSubTo length")
		if i < 2 {
			vAssert(vPanics(func() { ScalarMulTo(x, y, 3) }), "ScalarMulTo length")
			vAssert(vPanics(func() { ScalarMulAddTo(x, y, 3) }), "ScalarMulAddTo length")
			vAssert(vPanics(func() { ScalarMulSubTo(x, y, 3) }), "ScalarMulSubTo length")
			vAssert(vPanics(func() { NegTo(x, y) }), "NegTo length")
			vAssert(vPanics(func() { ReverseTo(x, y) }), "ReverseTo length")
			vAssert(vPanics(func() { RotateTo(x, y, 1) }), "RotateTo length")
		}
	}
	vAssert(vPanics(func() { Dot(a, b[:8]) }), "Dot length")
	for i := range o {
		vAssert(o[i] == o0[i], "nothing written")
	}
}
