//go:build verifharness

package mktfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// Shared oracle code: everything here is written against the mathematical
// definition, without calling the code under test.

type vhP struct {
	parties, n, N, bs int
	msg               uint64
	base, level       int // log2 base of the blind rotation gadget
	kbase, klevel     int
	abase, alevel     int
	rbase, rlevel     int
	order             tfhe.BootstrapOrder
	std               float64
}

// vhParams builds small parameters; zero gadgets are exact (base^level = Q).
func vhParams[T tfhe.TorusInt](p vhP) Parameters[T] {
	w := num.SizeT[T]()
	def := func(x *int, d int) {
		if *x == 0 {
			*x = d
		}
	}
	def(&p.parties, 2)
	def(&p.n, 2)
	def(&p.N, 16)
	if p.msg == 0 {
		p.msg = 4
	}
	if p.std == 0 {
		p.std = 1e-60
	}
	g := func(b, l int) tfhe.GadgetParametersLiteral[T] {
		if b == 0 {
			b, l = w/2, 2
		}
		return tfhe.GadgetParametersLiteral[T]{Base: T(1) << uint(b), Level: l}
	}
	return ParametersLiteral[T]{
		SubParams: tfhe.ParametersLiteral[T]{
			LWEDimension: p.n, GLWERank: 1, PolyRank: p.N,
			LWEStdDev: p.std, GLWEStdDev: p.std, BlockSize: p.bs,
			MessageModulus:    T(p.msg),
			BlindRotateParams: g(p.base, p.level),
			KeySwitchParams:   g(p.kbase, p.klevel),
			BootstrapOrder:    p.order,
		},
		PartyCount:        p.parties,
		AccumulatorParams: g(p.abase, p.alevel),
		RelinKeyParams:    g(p.rbase, p.rlevel),
	}.Compile()
}

// vhTol: rounding the FFT may introduce natively for products of a w-bit
// polynomial and a factor of at most fbits bits.
func vhTol[T tfhe.TorusInt](fbits int) int {
	if vSymbolic() {
		return -1
	}
	t := num.SizeT[T]() + fbits + 8 - 52
	if t < 0 {
		t = 0
	}
	return t + 1
}

func vhVec[T tfhe.TorusInt](name string, n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = vT[T](name)
	}
	return v
}

func vhBits[T tfhe.TorusInt](name string, n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = vBit[T](name)
	}
	return v
}

func vhPoly[T tfhe.TorusInt](name string, n int) poly.Poly[T] {
	return poly.Poly[T]{Coeffs: vhVec[T](name, n)}
}

func vhCp[T any](v []T) []T { return append([]T(nil), v...) }

func vhPl[T tfhe.TorusInt](v []T) poly.Poly[T] { return poly.Poly[T]{Coeffs: v} }

func vhDot[T tfhe.TorusInt](a, b []T) T {
	var s T
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// vhMul is the schoolbook negacyclic product.
func vhMul[T tfhe.TorusInt](a, b []T) []T {
	n := len(a)
	r := make([]T, n)
	for i := range a {
		for j := range b {
			if i+j < n {
				r[i+j] += a[i] * b[j]
			} else {
				r[i+j-n] -= a[i] * b[j]
			}
		}
	}
	return r
}

func vhAdd[T tfhe.TorusInt](a, b []T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] + b[i]
	}
	return r
}

func vhSub[T tfhe.TorusInt](a, b []T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] - b[i]
	}
	return r
}

func vhScale[T tfhe.TorusInt](a []T, c T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] * c
	}
	return r
}

// vhMono multiplies by X^d in Z[X]/(X^N+1).
func vhMono[T tfhe.TorusInt](a []T, d int) []T {
	n := len(a)
	d = ((d % (2 * n)) + 2*n) % (2 * n)
	r := make([]T, n)
	for i := range a {
		j := i + d
		s := false
		for j >= n {
			j -= n
			s = !s
		}
		if s {
			r[j] = -a[i]
		} else {
			r[j] = a[i]
		}
	}
	return r
}

func vhEq[T tfhe.TorusInt](a, b []T, tol int, msg string) {
	vAssert(len(a) == len(b), msg+": length")
	for i := range a {
		vEqT(a[i], b[i], tol, msg)
	}
}

// vhKeys: per party, the GLWE key polynomial.
func vhKeys[T tfhe.TorusInt](sk []tfhe.SecretKey[T]) [][]T {
	k := make([][]T, len(sk))
	for i := range k {
		k[i] = sk[i].GLWEKey.Value[0].Coeffs
	}
	return k
}

// vhDef: the concatenated default LWE key.
func vhDef[T tfhe.TorusInt](params Parameters[T], sk []tfhe.SecretKey[T]) []T {
	var r []T
	for i := range sk {
		if params.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
			r = append(r, sk[i].LWELargeKey.Value...)
		} else {
			r = append(r, sk[i].LWEKey.Value...)
		}
	}
	return r
}

// vhPhaseLWE is b + <a, s>.
func vhPhaseLWE[T tfhe.TorusInt](ct LWECiphertext[T], s []T) T {
	return ct.Value[0] + vhDot(ct.Value[1:], s)
}

// vhPhaseGLWE is b + sum a_i s_i.
func vhPhaseGLWE[T tfhe.TorusInt](ct GLWECiphertext[T], s [][]T) []T {
	r := vhCp(ct.Value[0].Coeffs)
	for i := range s {
		r = vhAdd(r, vhMul(ct.Value[i+1].Coeffs, s[i]))
	}
	return r
}

// vhNz bounds (as a power of two) a Gaussian sample of standard deviation std.
func vhNz[T tfhe.TorusInt](std float64) int {
	q := std
	for i := 0; i < num.SizeT[T](); i++ {
		q *= 2
	}
	nb := 4
	for g := 1.0; g < q; g *= 2 {
		nb++
	}
	return nb
}

// vhMax is the larger of two tolerances, with headroom when both apply.
func vhMax(a, b int) int {
	if a < 0 {
		return b
	}
	if b < 0 {
		return a
	}
	if a > b {
		return a + 1
	}
	return b + 1
}

// vhNear checks a = b up to a noise of 2^nz (and 2^tol for the FFT), and that
// the noise is really there.
func vhNear[T tfhe.TorusInt](a, b []T, nz, tol int, msg string) {
	vAssert(len(a) == len(b), msg+": length")
	seen := false
	for i := range a {
		vEqT(a[i], b[i], vhMax(nz, tol), msg)
		if vSymbolic() {
			vMust(a[i]-b[i] != 0, msg+": noise is present")
			continue
		}
		lim := T(0)
		if tol >= 0 {
			lim = T(1) << uint(tol)
		}
		if a[i]-b[i]+lim > 2*lim {
			seen = true
		}
	}
	if !vSymbolic() {
		vAssert(seen, msg+": noise is present")
	}
}

// vhFresh checks that masks are freshly sampled: no coefficient is forced to a
// constant, and no two masks are forced to agree.
func vhFresh[T tfhe.TorusInt](masks [][]T, msg string) {
	for i := range masks {
		for k := range masks[i] {
			vMust(masks[i][k] != 0, msg+": mask coefficient is sampled")
			if k > 0 {
				vMust(masks[i][k] != masks[i][0], msg+": mask coefficients are independent")
			}
			for j := 0; j < i; j++ {
				if k < len(masks[j]) {
					vMust(masks[i][k] != masks[j][k], msg+": masks are independent")
				}
			}
		}
	}
}
