//go:build verifharness

package poly

import "github.com/sp301415/tfhe-go/math/num"

// In form mode the FFT is interpreted over the reals, so the products below
// are exact identities; natively the comparison allows the FFT's rounding.
func vhFFT[T num.Integer](N, tol int) {
	e := NewEvaluator[T](N)
	p, o := vhPoly[T]("p", N), vhPoly[T]("o", N)
	// second factor small, as every use in the library
	q := make([]T, N)
	for i := range q {
		q[i] = T(vByte("q"))
	}
	P := func(v []T) Poly[T] { return Poly[T]{Coeffs: vhCp(v)} }
	eq := func(a, b []T, msg string) {
		for i := range a {
			vEqT(a[i], b[i], tol, msg)
		}
	}
	plus := func(a, b []T) []T {
		r := make([]T, len(a))
		for i := range a {
			r[i] = a[i] + b[i]
		}
		return r
	}
	minus := func(a, b []T) []T {
		r := make([]T, len(a))
		for i := range a {
			r[i] = a[i] - b[i]
		}
		return r
	}
	pq := vhMul(p, q)
	fp := e.FwdFFT(P(p))
	fq := e.FwdFFT(P(q))
	eq(e.InvFFT(fp).Coeffs, p, "InvFFT(FwdFFT(p))")
	eq(e.InvFFT(e.MulFFTPoly(fp, fq)).Coeffs, pq, "MulFFTPoly")
	eq(e.FFTPolyMulPoly(P(p), fq).Coeffs, pq, "FFTPolyMulPoly")
	r := P(o)
	e.FFTPolyMulAddPolyTo(r, P(p), fq)
	eq(r.Coeffs, plus(o, pq), "FFTPolyMulAddPolyTo")
	r = P(o)
	e.FFTPolyMulSubPolyTo(r, P(p), fq)
	eq(r.Coeffs, minus(o, pq), "FFTPolyMulSubPolyTo")
	eq(e.InvFFT(e.PolyMulFFTPoly(fq, P(p))).Coeffs, pq, "PolyMulFFTPoly")
	fo := e.FwdFFT(P(o))
	f := fo.Copy()
	e.PolyMulAddFFTPolyTo(f, fq, P(p))
	eq(e.InvFFT(f).Coeffs, plus(o, pq), "PolyMulAddFFTPolyTo")
	f = fo.Copy()
	e.PolyMulSubFFTPolyTo(f, fq, P(p))
	eq(e.InvFFT(f).Coeffs, minus(o, pq), "PolyMulSubFFTPolyTo")
	f = fo.Copy()
	e.MulAddFFTPolyTo(f, fp, fq)
	eq(e.InvFFT(f).Coeffs, plus(o, pq), "MulAddFFTPolyTo")
	f = fo.Copy()
	e.MulSubFFTPolyTo(f, fp, fq)
	eq(e.InvFFT(f).Coeffs, minus(o, pq), "MulSubFFTPolyTo")
	f = fo.Copy()
	e.FwdFFTAddTo(f, P(p))
	eq(e.InvFFT(f).Coeffs, plus(o, p), "FwdFFTAddTo")
	f = fo.Copy()
	e.FwdFFTSubTo(f, P(p))
	eq(e.InvFFT(f).Coeffs, minus(o, p), "FwdFFTSubTo")
	eq(e.InvFFT(e.AddFFTPoly(fo, fp)).Coeffs, plus(o, p), "AddFFTPoly")
	eq(e.InvFFT(e.SubFFTPoly(fo, fp)).Coeffs, minus(o, p), "SubFFTPoly")
	eq(e.InvFFT(e.NegFFTPoly(fp)).Coeffs, minus(make([]T, N), p), "NegFFTPoly")
	// scalar multiples
	three := make([]T, N)
	for i := range p {
		three[i] = 3 * p[i]
	}
	eq(e.InvFFT(e.FloatMulFFTPoly(fp, 3)).Coeffs, three, "FloatMulFFTPoly")
	f = fo.Copy()
	e.FloatMulAddFFTPolyTo(f, fp, 3)
	eq(e.InvFFT(f).Coeffs, plus(o, three), "FloatMulAddFFTPolyTo")
	f = fo.Copy()
	e.FloatMulSubFFTPolyTo(f, fp, 3)
	eq(e.InvFFT(f).Coeffs, minus(o, three), "FloatMulSubFFTPolyTo")
	// every add/sub/unsafe inverse form
	r = P(o)
	e.InvFFTAddTo(r, fp)
	eq(r.Coeffs, plus(o, p), "InvFFTAddTo")
	r = P(o)
	e.InvFFTSubTo(r, fp)
	eq(r.Coeffs, minus(o, p), "InvFFTSubTo")
	eq(e.InvFFT(fp).Coeffs, p, "InvFFT leaves its input unchanged")
	r = P(o)
	e.InvFFTToUnsafe(r, fp.Copy())
	eq(r.Coeffs, p, "InvFFTToUnsafe")
	r = P(o)
	e.InvFFTAddToUnsafe(r, fp.Copy())
	eq(r.Coeffs, plus(o, p), "InvFFTAddToUnsafe")
	r = P(o)
	e.InvFFTSubToUnsafe(r, fp.Copy())
	eq(r.Coeffs, minus(o, p), "InvFFTSubToUnsafe")
	vObserve("coef", r.Coeffs[3], tol)
}

// FFT round trip, products and every accumulate form, uint32, rank 16.
//
//verif:modes=purego,asm,fallback weight=30
func VH_P09_fft32() { vhFFT[uint32](16, 4) }

// The same over uint64.
//
//verif:modes=purego,fallback weight=30
func VH_P09_fft64() { vhFFT[uint64](16, 30) }

//verif:modes=purego,fallback weight=60 tier=thorough
func VH_P09_fft64rank32() { vhFFT[uint64](32, 30) }

func vhFFTMono[T num.Integer](N, d, tol int) {
	e := NewEvaluator[T](N)
	p, o := vhPoly[T]("p", N), vhPoly[T]("o", N)
	P := func(v []T) Poly[T] { return Poly[T]{Coeffs: vhCp(v)} }
	fp, fo := e.FwdFFT(P(p)), e.FwdFFT(P(o))
	want := vhMono(p, d)
	got := e.InvFFT(e.MulFFTPoly(fp, e.MonomialFwdFFT(d))).Coeffs
	got1 := e.InvFFT(e.MulFFTPoly(fp, e.MonomialSubOneFwdFFT(d))).Coeffs
	for i := range p {
		vEqT(got[i], want[i], tol, "MonomialFwdFFT")
		vEqT(got1[i], want[i]-p[i], tol, "MonomialSubOneFwdFFT")
	}
	if d&1 == 1 {
		want = vhPerm(p, d)
		got = e.InvFFT(e.PermuteFFTPoly(fp, d)).Coeffs
		g := fp.Copy()
		e.PermuteFFTPolyInPlace(g, d)
		got1 = e.InvFFT(g).Coeffs
		fa, fs := fo.Copy(), fo.Copy()
		e.PermuteAddFFTPolyTo(fa, fp, d)
		e.PermuteSubFFTPolyTo(fs, fp, d)
		ga, gs := e.InvFFT(fa).Coeffs, e.InvFFT(fs).Coeffs
		for i := range p {
			vEqT(got[i], want[i], tol, "PermuteFFTPoly")
			vEqT(got1[i], want[i], tol, "PermuteFFTPolyInPlace")
			vEqT(ga[i], o[i]+want[i], tol, "PermuteAddFFTPolyTo")
			vEqT(gs[i], o[i]-want[i], tol, "PermuteSubFFTPolyTo")
		}
	} else {
		vAssert(vPanics(func() { e.PermuteFFTPoly(fp, d) }), "PermuteFFTPoly rejects even d")
	}
}

// Fourier-domain monomials and automorphisms, all d in [0,2N) and negatives, rank 16.
//
//verif:modes=purego weight=30
func VH_P09_monomialFFT() { vhFFTMono[uint32](16, vChoose("d", 64)-32, 4) }

//verif:modes=purego weight=60 tier=thorough
func VH_P09_monomialFFT32() { vhFFTMono[uint64](32, vChoose("d", 128)-64, 30) }
