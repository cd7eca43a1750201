//go:build verifharness

package poly

import "github.com/sp301415/tfhe-go/math/num"

func vhPoly[T vInteger](name string, N int) []T {
	v := make([]T, N)
	for i := range v {
		v[i] = vT[T](name)
	}
	return v
}

func vhCp[T any](v []T) []T { return append([]T(nil), v...) }

// vhMono is the definition of X^d * p in Z[X]/(X^N+1).
func vhMono[T vInteger](p []T, d int) []T {
	N := len(p)
	out := make([]T, N)
	for i := 0; i < N; i++ {
		e := ((i+d)%(2*N) + 2*N) % (2 * N)
		if e < N {
			out[e] += p[i]
		} else {
			out[e-N] -= p[i]
		}
	}
	return out
}

// vhPerm is the definition of p(X^d).
func vhPerm[T vInteger](p []T, d int) []T {
	N := len(p)
	out := make([]T, N)
	for i := 0; i < N; i++ {
		e := ((i*d)%(2*N) + 2*N) % (2 * N)
		if e < N {
			out[e] += p[i]
		} else {
			out[e-N] -= p[i]
		}
	}
	return out
}

// vhMul is the schoolbook negacyclic product.
func vhMul[T vInteger](p, q []T) []T {
	N := len(p)
	out := make([]T, N)
	for i := 0; i < N; i++ {
		for j := 0; j < N; j++ {
			if i+j < N {
				out[i+j] += p[i] * q[j]
			} else {
				out[i+j-N] -= p[i] * q[j]
			}
		}
	}
	return out
}

func vhEqV[T vInteger](a, b []T, msg string) {
	vAssert(len(a) == len(b), msg+" length")
	for i := range a {
		vEqT(a[i], b[i], -1, msg)
	}
}

func vhLin[T num.Integer](N int) {
	e := NewEvaluator[T](N)
	p, q, o := vhPoly[T]("p", N), vhPoly[T]("q", N), vhPoly[T]("o", N)
	c := vT[T]("c")
	P := func(v []T) Poly[T] { return Poly[T]{Coeffs: vhCp(v)} }
	add, sub, neg, sm, sma, sms := make([]T, N), make([]T, N), make([]T, N), make([]T, N), make([]T, N), make([]T, N)
	for i := range p {
		add[i], sub[i], neg[i] = p[i]+q[i], p[i]-q[i], -p[i]
		sm[i], sma[i], sms[i] = c*p[i], o[i]+c*p[i], o[i]-c*p[i]
	}
	p0, q0 := P(p), P(q)
	vhEqV(e.AddPoly(p0, q0).Coeffs, add, "AddPoly")
	vhEqV(e.SubPoly(p0, q0).Coeffs, sub, "SubPoly")
	vhEqV(e.NegPoly(p0).Coeffs, neg, "NegPoly")
	vhEqV(e.ScalarMulPoly(p0, c).Coeffs, sm, "ScalarMulPoly")
	po := P(o)
	e.ScalarMulAddPolyTo(po, p0, c)
	vhEqV(po.Coeffs, sma, "ScalarMulAddPolyTo")
	po = P(o)
	e.ScalarMulSubPolyTo(po, p0, c)
	vhEqV(po.Coeffs, sms, "ScalarMulSubPolyTo")
	vhEqV(p0.Coeffs, p, "inputs unchanged")
	vhEqV(q0.Coeffs, q, "inputs unchanged")
	// in place
	r := P(p)
	e.AddPolyTo(r, r, q0)
	vhEqV(r.Coeffs, add, "AddPolyTo in place")
	r = P(q)
	e.SubPolyTo(r, p0, r)
	vhEqV(r.Coeffs, sub, "SubPolyTo in place")
	r = P(p)
	e.NegPolyTo(r, r)
	vhEqV(r.Coeffs, neg, "NegPolyTo in place")
	r = P(p)
	e.ScalarMulPolyTo(r, r, c)
	vhEqV(r.Coeffs, sm, "ScalarMulPolyTo in place")
	cp := p0.Copy()
	cp.Coeffs[0]++
	vEqT(p0.Coeffs[0], p[0], -1, "Copy independent")
	cp.CopyFrom(q0)
	vhEqV(cp.Coeffs, q, "CopyFrom")
	cp.Coeffs[1]++
	vEqT(q0.Coeffs[1], q[1], -1, "CopyFrom independent")
}

// Linear polynomial operations at ranks 16 and 32 over uint32 and uint64.
//
//verif:modes=purego,asm
func VH_P07_linear() {
	N := 16 << uint(vChoose("logN", 2))
	if vChoose("w", 2) == 0 {
		vhLin[uint32](N)
	} else {
		vhLin[uint64](N)
	}
}

func vhMonomial[T num.Integer](N, d int) {
	e := NewEvaluator[T](N)
	p, o := vhPoly[T]("p", N), vhPoly[T]("o", N)
	want := vhMono(p, d)
	p0 := Poly[T]{Coeffs: vhCp(p)}
	vhEqV(e.MonomialMulPoly(p0, d).Coeffs, want, "MonomialMulPoly")
	r := Poly[T]{Coeffs: vhCp(p)}
	e.MonomialMulPolyInPlace(r, d)
	vhEqV(r.Coeffs, want, "MonomialMulPolyInPlace")
	ro := Poly[T]{Coeffs: vhCp(o)}
	e.MonomialMulAddPolyTo(ro, p0, d)
	rs := Poly[T]{Coeffs: vhCp(o)}
	e.MonomialMulSubPolyTo(rs, p0, d)
	for i := range o {
		vEqT(ro.Coeffs[i], o[i]+want[i], -1, "MonomialMulAddPolyTo")
		vEqT(rs.Coeffs[i], o[i]-want[i], -1, "MonomialMulSubPolyTo")
	}
	vhEqV(p0.Coeffs, p, "inputs unchanged")
	if d&1 == 1 {
		want = vhPerm(p, d)
		vhEqV(e.PermutePoly(p0, d).Coeffs, want, "PermutePoly")
		r = Poly[T]{Coeffs: vhCp(p)}
		e.PermutePolyInPlace(r, d)
		vhEqV(r.Coeffs, want, "PermutePolyInPlace")
		ro = Poly[T]{Coeffs: vhCp(o)}
		e.PermuteAddPolyTo(ro, p0, d)
		rs = Poly[T]{Coeffs: vhCp(o)}
		e.PermuteSubPolyTo(rs, p0, d)
		for i := range o {
			vEqT(ro.Coeffs[i], o[i]+want[i], -1, "PermuteAddPolyTo")
			vEqT(rs.Coeffs[i], o[i]-want[i], -1, "PermuteSubPolyTo")
		}
		vhEqV(p0.Coeffs, p, "inputs unchanged")
	} else {
		vAssert(vPanics(func() { e.PermutePoly(p0, d) }), "PermutePoly rejects even d")
	}
}

// Monomial multiplication and automorphisms, every degree d in [-3N, 3N], rank 16 (and 32 thorough).
//
//verif:modes=purego
func VH_P07_monomial() {
	d := vChoose("d", 97) - 48
	if vChoose("w", 2) == 0 {
		vhMonomial[uint32](16, d)
	} else {
		vhMonomial[uint64](16, d)
	}
}

//verif:modes=purego,asm tier=thorough
func VH_P07_monomial32() {
	d := vChoose("d", 193) - 96
	vhMonomial[uint64](32, d)
}

// Monomial degree as an arbitrary machine integer.
//
//verif:modes=purego tier=thorough
func VH_P07_monomialAnyDegree() {
	d := vInt("d")
	N := 16
	e := NewEvaluator[uint64](N)
	p := vhPoly[uint64]("p", N)
	k := vConc(d & (2*N - 1))
	vhEqV(e.MonomialMulPoly(Poly[uint64]{Coeffs: vhCp(p)}, d).Coeffs, vhMono(p, k), "MonomialMulPoly depends on d mod 2N only")
}
