//go:build verifharness

package tfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// vhGadgets: log2 base and level.
func vhGadgets[T TorusInt]() [][2]int {
	if num.SizeT[T]() == 32 {
		return [][2]int{{1, 1}, {1, 2}, {2, 3}, {3, 5}, {4, 8}, {6, 3}, {7, 4}, {8, 4}, {10, 3}, {15, 2}, {16, 2}, {20, 1}, {31, 1}, {5, 6}}
	}
	return [][2]int{{1, 1}, {1, 3}, {2, 8}, {3, 5}, {4, 5}, {7, 2}, {7, 9}, {8, 8}, {10, 6}, {13, 3}, {16, 4}, {21, 3}, {23, 1}, {32, 2}, {31, 2}, {40, 1}, {63, 1}}
}

func vhGadget[T TorusInt]() (GadgetParameters[T], int, int) {
	gs := vhGadgets[T]()
	g := gs[vChoose("gadget", len(gs))]
	return GadgetParametersLiteral[T]{Base: T(1) << g[0], Level: g[1]}.Compile(), g[0], g[1]
}

// vhDcmpOK: the digits d of x for base 2^lb: balanced, and their weighted sum is
// x up to half of the last factor.
func vhDcmpOK[T TorusInt](d []T, x T, lb, level int, msg string) {
	w := num.SizeT[T]()
	vAssert(len(d) == level, msg+": one digit per level")
	half := T(1) << (lb - 1)
	var sum T
	for i := range d {
		vAssert(d[i]+half <= 2*half, msg+": balanced digit")
		sum += d[i] << (w - (i+1)*lb)
	}
	last := w - level*lb
	if last == 0 {
		vEqT(sum, x, -1, msg+": recomposes")
	} else {
		h := T(1) << (last - 1)
		vAssert(sum-x+h <= 2*h, msg+": recomposes up to half the last factor")
	}
}

func vhDcmpScalar[T TorusInt]() {
	g, lb, level := vhGadget[T]()
	w := num.SizeT[T]()
	vAssert(g.Base() == T(1)<<lb && g.LogBase() == lb && g.Level() == level, "gadget parameters")
	for i := 0; i < level; i++ {
		vAssert(g.LogBaseQ(i) == w-(i+1)*lb && g.BaseQ(i) == T(1)<<(w-(i+1)*lb), "gadget factors")
	}
	vAssert(g.LogFirstBaseQ() == w-lb && g.LogLastBaseQ() == w-level*lb && g.FirstBaseQ() == T(1)<<(w-lb) && g.LastBaseQ() == T(1)<<(w-level*lb), "first and last gadget factor")
	x := vT[T]("x")
	d := NewDecomposer[T](16)
	y := d.DecomposeScalar(x, g)
	vhDcmpOK(y, x, lb, level, "DecomposeScalar")
	var sum T
	for i := range y {
		sum += y[i] << (w - (i+1)*lb)
	}
	vEqT(d.RecomposeScalar(y, g), sum, -1, "RecomposeScalar")
	// into a used buffer, also after a smaller one was requested
	small := GadgetParametersLiteral[T]{Base: 4, Level: 1}.Compile()
	vAssert(len(d.ScalarBuffer(small)) == 1, "ScalarBuffer length")
	b := d.ScalarBuffer(g)
	vAssert(len(b) == level, "ScalarBuffer length")
	for i := range b {
		b[i] = vT[T]("old")
	}
	d.DecomposeScalarTo(b, x, g)
	for i := range b {
		vEqT(b[i], y[i], -1, "DecomposeScalarTo")
	}
	vAssert(len(d.ScalarBuffer(small)) == 1 && len(d.ScalarBuffer(g)) == level, "ScalarBuffer length")
}

//verif:realdecomp=1
func VH_P01_scalar32() { vhDcmpScalar[uint32]() }

//verif:realdecomp=1
func VH_P01_scalar64() { vhDcmpScalar[uint64]() }

func vhDcmpPoly[T TorusInt](N int) {
	g, lb, level := vhGadget[T]()
	w := num.SizeT[T]()
	p := vhPoly[T]("p", N)
	p0 := vhCp(p.Coeffs)
	d := NewDecomposer[T](N)
	y := d.DecomposePoly(p, g)
	vAssert(len(y) == level, "DecomposePoly: one digit per level")
	for j := range y {
		vAssert(y[j].Rank() == N, "DecomposePoly: rank")
	}
	b := d.PolyBuffer(GadgetParametersLiteral[T]{Base: 4, Level: 1}.Compile())
	vAssert(len(b) == 1, "PolyBuffer length")
	b = d.PolyBuffer(g)
	vAssert(len(b) == level, "PolyBuffer length")
	for j := range b {
		copy(b[j].Coeffs, vhVec[T]("old", N))
	}
	d.DecomposePolyTo(b, p, g)
	r := d.RecomposePoly(y, g)
	rt := vhPoly[T]("old", N)
	d.RecomposePolyTo(rt, y, g)
	vAssert(r.Rank() == N, "RecomposePoly: rank")
	for i := 0; i < N; i++ {
		x := p0[i]
		vEqT(p.Coeffs[i], x, -1, "DecomposePoly keeps its input")
		s := d.DecomposeScalar(x, g)
		var sum T
		for j := 0; j < level; j++ {
			vEqT(y[j].Coeffs[i], s[j], -1, "DecomposePoly agrees with DecomposeScalar")
			vEqT(b[j].Coeffs[i], s[j], -1, "DecomposePolyTo agrees with DecomposeScalar")
			sum += s[j] << (w - (j+1)*lb)
		}
		vEqT(r.Coeffs[i], sum, -1, "RecomposePoly")
		vEqT(rt.Coeffs[i], sum, -1, "RecomposePolyTo")
	}
}

//verif:modes=purego,asm,fallback realdecomp=1
func VH_P01_poly32() { vhDcmpPoly[uint32](16) }

//verif:modes=purego,asm,fallback realdecomp=1
func VH_P01_poly64() { vhDcmpPoly[uint64](16) }

// The assembly kernel over more than one block of vectors.
//
//verif:modes=asm realdecomp=1
func VH_P01_poly32n() { vhDcmpPoly[uint32](32) }

//verif:modes=asm realdecomp=1
func VH_P01_poly64n() { vhDcmpPoly[uint64](32) }

// The frequency-domain form is the transform of the digits.
func vhDcmpFFT[T TorusInt]() {
	g := GadgetParametersLiteral[T]{Base: 1 << 7, Level: 3}.Compile()
	p := vhPoly[T]("p", 16)
	d := NewDecomposer[T](16)
	y := d.DecomposePoly(p, g)
	f := d.FourierDecomposePoly(p, g)
	vAssert(len(f) == 3, "FourierDecomposePoly: one digit per level")
	b := d.FFTPolyBuffer(GadgetParametersLiteral[T]{Base: 4, Level: 1}.Compile())
	vAssert(len(b) == 1, "FFTPolyBuffer length")
	b = d.FFTPolyBuffer(g)
	vAssert(len(b) == 3, "FFTPolyBuffer length")
	d.FourierDecomposePolyTo(b, p, g)
	ev := poly.NewEvaluator[T](16)
	for j := range f {
		want := ev.FwdFFT(y[j])
		vAssert(len(f[j].Coeffs) == len(want.Coeffs) && len(b[j].Coeffs) == len(want.Coeffs), "FourierDecomposePoly: length")
		for i := range want.Coeffs {
			vEqF(f[j].Coeffs[i], want.Coeffs[i], 0, "FourierDecomposePoly")
			vEqF(b[j].Coeffs[i], want.Coeffs[i], 0, "FourierDecomposePolyTo")
		}
	}
}

//verif:realdecomp=1
func VH_P01_fft32() { vhDcmpFFT[uint32]() }

//verif:realdecomp=1
func VH_P01_fft64() { vhDcmpFFT[uint64]() }
