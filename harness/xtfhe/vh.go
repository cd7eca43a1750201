//go:build verifharness

package xtfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// Shared oracle code: everything here is written against the mathematical
// definition, without calling the code under test.

type vhP struct {
	n, k, N, lut, bs int
	msg              uint64
	base, level      int // log2 base
	kbase, klevel    int
	order            tfhe.BootstrapOrder
	std, gstd        float64 // LWE and GLWE noise; gstd defaults to std
}

// vhLit is a literal of small parameters; zero fields get defaults that make both
// gadgets exact (base^level = Q).
func vhLit[T tfhe.TorusInt](p vhP) tfhe.ParametersLiteral[T] {
	w := num.SizeT[T]()
	if p.n == 0 {
		p.n = 2
	}
	if p.k == 0 {
		p.k = 1
	}
	if p.N == 0 {
		p.N = 16
	}
	if p.msg == 0 {
		p.msg = 4
	}
	if p.base == 0 {
		p.base, p.level = w/2, 2
	}
	if p.kbase == 0 {
		p.kbase, p.klevel = w/2, 2
	}
	if p.std == 0 {
		p.std = 1e-60
	}
	if p.gstd == 0 {
		p.gstd = p.std
	}
	return tfhe.ParametersLiteral[T]{
		LWEDimension: p.n, GLWERank: p.k, PolyRank: p.N, LUTSize: p.lut,
		LWEStdDev: p.std, GLWEStdDev: p.gstd, BlockSize: p.bs,
		MessageModulus:    T(p.msg),
		BlindRotateParams: tfhe.GadgetParametersLiteral[T]{Base: T(1) << uint(p.base), Level: p.level},
		KeySwitchParams:   tfhe.GadgetParametersLiteral[T]{Base: T(1) << uint(p.kbase), Level: p.klevel},
		BootstrapOrder:    p.order,
	}
}

// vhTol: rounding the FFT may introduce natively for products of a w-bit
// polynomial and a factor of at most fbits bits.
func vhTol[T tfhe.TorusInt](fbits int) int {
	if vSymbolic() {
		return -1
	}
	t := num.SizeT[T]() + fbits + 8 - 52
	if t < 0 {
		t = 0
	}
	return t + 1
}

func vhVec[T tfhe.TorusInt](name string, n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = vT[T](name)
	}
	return v
}

func vhBits[T tfhe.TorusInt](name string, n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = vBit[T](name)
	}
	return v
}

func vhPoly[T tfhe.TorusInt](name string, n int) poly.Poly[T] {
	return poly.Poly[T]{Coeffs: vhVec[T](name, n)}
}

func vhCp[T any](v []T) []T { return append([]T(nil), v...) }

func vhPl[T tfhe.TorusInt](v []T) poly.Poly[T] { return poly.Poly[T]{Coeffs: v} }

func vhDot[T tfhe.TorusInt](a, b []T) T {
	var s T
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// vhMul is the schoolbook negacyclic product.
func vhMul[T tfhe.TorusInt](a, b []T) []T {
	n := len(a)
	r := make([]T, n)
	for i := range a {
		for j := range b {
			if i+j < n {
				r[i+j] += a[i] * b[j]
			} else {
				r[i+j-n] -= a[i] * b[j]
			}
		}
	}
	return r
}

func vhAdd[T tfhe.TorusInt](a, b []T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] + b[i]
	}
	return r
}

func vhSub[T tfhe.TorusInt](a, b []T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] - b[i]
	}
	return r
}

func vhScale[T tfhe.TorusInt](a []T, c T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] * c
	}
	return r
}

// vhMono multiplies by X^d in Z[X]/(X^N+1).
func vhMono[T tfhe.TorusInt](a []T, d int) []T {
	n := len(a)
	d = ((d % (2 * n)) + 2*n) % (2 * n)
	r := make([]T, n)
	for i := range a {
		j := i + d
		s := false
		for j >= n {
			j -= n
			s = !s
		}
		if s {
			r[j] = -a[i]
		} else {
			r[j] = a[i]
		}
	}
	return r
}

func vhEq[T tfhe.TorusInt](a, b []T, tol int, msg string) {
	vAssert(len(a) == len(b), msg+": length")
	for i := range a {
		vEqT(a[i], b[i], tol, msg)
	}
}

// vhKeyBits reads the secret key polynomials (negacyclic) of an encryptor.
func vhGLWEKey[T tfhe.TorusInt](sk tfhe.SecretKey[T]) [][]T {
	k := make([][]T, len(sk.GLWEKey.Value))
	for i := range k {
		k[i] = sk.GLWEKey.Value[i].Coeffs
	}
	return k
}

// vhPhaseLWE is b + <a, s>.
func vhPhaseLWE[T tfhe.TorusInt](ct tfhe.LWECiphertext[T], s []T) T {
	return ct.Value[0] + vhDot(ct.Value[1:], s)
}

// vhPhaseGLWE is b + sum a_i s_i.
func vhPhaseGLWE[T tfhe.TorusInt](ct tfhe.GLWECiphertext[T], s [][]T) []T {
	r := vhCp(ct.Value[0].Coeffs)
	for i := range s {
		r = vhAdd(r, vhMul(ct.Value[i+1].Coeffs, s[i]))
	}
	return r
}

// vhNz bounds (as a power of two) a Gaussian sample of standard deviation std.
func vhNz[T tfhe.TorusInt](std float64) int {
	q := std
	for i := 0; i < num.SizeT[T](); i++ {
		q *= 2
	}
	nb := 4
	for g := 1.0; g < q; g *= 2 {
		nb++
	}
	return nb
}

// vhMax is the larger of two tolerances, with headroom when both apply.
func vhMax(a, b int) int {
	if a < 0 {
		return b
	}
	if b < 0 {
		return a
	}
	if a > b {
		return a + 1
	}
	return b + 1
}

// vhNear checks a = b up to a noise of 2^nz (and 2^tol for the FFT), and that
// the noise is really there.
func vhNear[T tfhe.TorusInt](a, b []T, nz, tol int, msg string) {
	vAssert(len(a) == len(b), msg+": length")
	seen := false
	for i := range a {
		vEqT(a[i], b[i], vhMax(nz, tol), msg)
		if vSymbolic() {
			vMust(a[i]-b[i] != 0, msg+": noise is present")
			continue
		}
		lim := T(0)
		if tol >= 0 {
			lim = T(1) << uint(tol)
		}
		if a[i]-b[i]+lim > 2*lim {
			seen = true
		}
	}
	if !vSymbolic() {
		vAssert(seen, msg+": noise is present")
	}
}

// vhFresh checks that masks are freshly sampled: no coefficient is forced to a
// constant, and no two masks are forced to agree.
func vhFresh[T tfhe.TorusInt](masks [][]T, msg string) {
	for i := range masks {
		for k := range masks[i] {
			vMust(masks[i][k] != 0, msg+": mask coefficient is sampled")
			if k > 0 {
				vMust(masks[i][k] != masks[i][0], msg+": mask coefficients are independent")
			}
			for j := 0; j < i; j++ {
				if k < len(masks[j]) {
					vMust(masks[i][k] != masks[j][k], msg+": masks are independent")
				}
			}
		}
	}
}

// vhKey is the vector an LWE ciphertext of the default form is encrypted under.
func vhKey[T tfhe.TorusInt](params tfhe.Parameters[T], sk tfhe.SecretKey[T]) []T {
	if params.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		return sk.LWELargeKey.Value
	}
	return sk.LWEKey.Value
}

func vhGLWE[T tfhe.TorusInt](name string, params tfhe.Parameters[T]) tfhe.GLWECiphertext[T] {
	ct := tfhe.NewGLWECiphertext(params)
	for i := range ct.Value {
		ct.Value[i].Coeffs = vhVec[T](name, params.PolyRank())
	}
	return ct
}

func vhEqGLWE[T tfhe.TorusInt](a, b tfhe.GLWECiphertext[T], msg string) {
	vAssert(len(a.Value) == len(b.Value), msg)
	for i := range a.Value {
		vhEq(a.Value[i].Coeffs, b.Value[i].Coeffs, -1, msg)
	}
}
