//go:build verifharness

package poly

import "github.com/sp301415/tfhe-go/math/num"

func vhExactMul[T num.Integer](N int, op int) {
	e := NewEvaluator[T](N)
	p, q, o := vhPoly[T]("p", N), vhPoly[T]("q", N), vhPoly[T]("o", N)
	P := func(v []T) Poly[T] { return Poly[T]{Coeffs: vhCp(v)} }
	pq := vhMul(p, q)
	var r Poly[T]
	p0, q0 := P(p), P(q)
	switch op {
	case 0:
		r = P(o)
		e.MulPolyTo(r, p0, q0)
	case 1:
		r = P(o)
		e.MulAddPolyTo(r, p0, q0)
		for i := range pq {
			pq[i] = o[i] + pq[i]
		}
	case 2:
		r = P(o)
		e.MulSubPolyTo(r, p0, q0)
		for i := range pq {
			pq[i] = o[i] - pq[i]
		}
	case 3: // output aliases an input
		r = P(p)
		e.MulPolyTo(r, r, q0)
	}
	for i := range pq {
		vEqT(r.Coeffs[i], pq[i], -1, "exact product")
		if op < 3 {
			vEqT(p0.Coeffs[i], p[i], -1, "inputs unchanged")
			vEqT(q0.Coeffs[i], q[i], -1, "inputs unchanged")
		}
	}
	vObserve("coef", r.Coeffs[5], -1)
}

// Exact negacyclic multiplication of arbitrary uint32 polynomials, rank 16.
//
//verif:modes=purego,asm weight=40
func VH_P10_mul32() { vhExactMul[uint32](16, vChoose("op", 4)) }

// Exact negacyclic multiplication of arbitrary uint64 polynomials, rank 16.
//
//verif:modes=purego weight=60
func VH_P10_mul64() { vhExactMul[uint64](16, vChoose("op", 4)) }

func vhShortMul[T num.Integer](N int, op int) {
	e := NewEvaluator[T](N)
	p, o := vhPoly[T]("p", N), vhPoly[T]("o", N)
	q := make([]T, N)
	for i := range q {
		q[i] = T(vByte("q"))
	}
	P := func(v []T) Poly[T] { return Poly[T]{Coeffs: vhCp(v)} }
	pq := vhMul(p, q)
	fq := e.FwdFFT(P(q))
	r := P(o)
	switch op {
	case 0:
		e.ShortFFTPolyMulPolyTo(r, P(p), fq)
	case 1:
		e.ShortFFTPolyMulAddPolyTo(r, P(p), fq)
		for i := range pq {
			pq[i] = o[i] + pq[i]
		}
	case 2:
		e.ShortFFTPolyMulSubPolyTo(r, P(p), fq)
		for i := range pq {
			pq[i] = o[i] - pq[i]
		}
	}
	for i := range pq {
		vEqT(r.Coeffs[i], pq[i], -1, "exact short product")
	}
	vObserve("coef", r.Coeffs[5], -1)
}

// Exact product with a short (8-bit) Fourier-domain factor.
//
//verif:modes=purego,asm weight=30
func VH_P10_short32() { vhShortMul[uint32](16, vChoose("op", 3)) }

//verif:modes=purego weight=30
func VH_P10_short64() { vhShortMul[uint64](16, vChoose("op", 3)) }
