//go:build verifharness

package tfhe

import "github.com/sp301415/tfhe-go/math/poly"

func vhGLWE[T TorusInt](name string, k, N int) GLWECiphertext[T] {
	ct := GLWECiphertext[T]{Value: make([]poly.Poly[T], k+1)}
	for i := range ct.Value {
		ct.Value[i] = vhPoly[T](name, N)
	}
	return ct
}

func vhEqGLWE[T TorusInt](a, b GLWECiphertext[T], tol int, msg string) {
	vAssert(len(a.Value) == len(b.Value), msg+": rank")
	for i := range a.Value {
		vhEq(a.Value[i].Coeffs, b.Value[i].Coeffs, tol, msg)
	}
}

// vhMapGLWE applies a coefficient-vector map to every component.
func vhMapGLWE[T TorusInt](a, b GLWECiphertext[T], f func(x, y []T) []T) GLWECiphertext[T] {
	r := GLWECiphertext[T]{}
	for i := range a.Value {
		r.Value = append(r.Value, vhPl(f(a.Value[i].Coeffs, b.Value[i].Coeffs)))
	}
	return r
}

// vhPermP is the substitution X -> X^d, d odd.
func vhPermP[T TorusInt](a []T, d int) []T {
	n := len(a)
	d = ((d % (2 * n)) + 2*n) % (2 * n)
	r := make([]T, n)
	for i := range a {
		j := (i * d) % (2 * n)
		if j < n {
			r[j] += a[i]
		} else {
			r[j-n] -= a[i]
		}
	}
	return r
}

type vhG1[T TorusInt] func(out, x GLWECiphertext[T])

// vhOps checks the plain, accumulate, subtract and in-place forms of one
// unary operation whose effect on a component is f.
type vhOp[T TorusInt] struct {
	msg          string
	ret          func(x GLWECiphertext[T]) GLWECiphertext[T]
	to, add, sub vhG1[T]
	inplace      func(x GLWECiphertext[T])
	noalias      bool
	f            func(x []T) []T
	tol          int
}

func (p vhOp[T]) check(a, o GLWECiphertext[T]) {
	orig := a.Copy()
	want := vhMapGLWE(a, a, func(x, _ []T) []T { return p.f(x) })
	if p.ret != nil {
		vhEqGLWE(p.ret(a), want, p.tol, p.msg)
	}
	if p.to != nil {
		r := o.Copy()
		p.to(r, a)
		vhEqGLWE(r, want, p.tol, p.msg+"To")
		if !p.noalias {
			r = a.Copy()
			p.to(r, r)
			vhEqGLWE(r, want, p.tol, p.msg+"To in place")
		}
	}
	if p.add != nil {
		r := o.Copy()
		p.add(r, a)
		vhEqGLWE(r, vhMapGLWE(o, want, vhAdd[T]), p.tol, p.msg+" accumulate")
	}
	if p.sub != nil {
		r := o.Copy()
		p.sub(r, a)
		vhEqGLWE(r, vhMapGLWE(o, want, vhSub[T]), p.tol, p.msg+" subtract")
	}
	if p.inplace != nil {
		r := a.Copy()
		p.inplace(r)
		vhEqGLWE(r, want, p.tol, p.msg+"InPlace")
	}
	vhEqGLWE(a, orig, -1, p.msg+" leaves its input unchanged")
}

func vhP06Linear[T TorusInt](k int) {
	params := vhParams[T](vhP{k: k})
	e := NewEvaluator(params, EvaluationKey[T]{})
	a, b, o := vhGLWE[T]("a", k, 16), vhGLWE[T]("b", k, 16), vhGLWE[T]("o", k, 16)
	pt := GLWEPlaintext[T]{Value: vhPoly[T]("pt", 16)}
	c := vT[T]("c")
	b0 := b.Copy()
	neg := func(x []T) []T { return vhScale(x, ^T(0)) }
	bin := func(msg string, ret func(x, y GLWECiphertext[T]) GLWECiphertext[T], to func(r, x, y GLWECiphertext[T]), f func(x, y []T) []T) {
		want := vhMapGLWE(a, b, f)
		vhEqGLWE(ret(a, b), want, -1, msg)
		r := o.Copy()
		to(r, a, b)
		vhEqGLWE(r, want, -1, msg+"To")
		r = a.Copy()
		to(r, r, b)
		vhEqGLWE(r, want, -1, msg+"To aliasing the first operand")
		r = b.Copy()
		to(r, a, r)
		vhEqGLWE(r, want, -1, msg+"To aliasing the second operand")
		vhEqGLWE(b, b0, -1, msg+" leaves its second input unchanged")
	}
	bin("AddGLWE", e.AddGLWE, e.AddGLWETo, vhAdd[T])
	bin("SubGLWE", e.SubGLWE, e.SubGLWETo, vhSub[T])
	vhOp[T]{msg: "NegGLWE", ret: e.NegGLWE, to: e.NegGLWETo, f: neg, tol: -1}.check(a, o)
	vhOp[T]{msg: "ScalarMulGLWE",
		ret: func(x GLWECiphertext[T]) GLWECiphertext[T] { return e.ScalarMulGLWE(x, c) },
		to:  func(r, x GLWECiphertext[T]) { e.ScalarMulGLWETo(r, x, c) },
		add: func(r, x GLWECiphertext[T]) { e.ScalarMulAddGLWETo(r, x, c) },
		sub: func(r, x GLWECiphertext[T]) { e.ScalarMulSubGLWETo(r, x, c) },
		f:   func(x []T) []T { return vhScale(x, c) }, tol: -1}.check(a, o)
	for sgn, f := range []func(ct GLWECiphertext[T], pt GLWEPlaintext[T]) GLWECiphertext[T]{e.AddPlainGLWE, e.SubPlainGLWE} {
		to := e.AddPlainGLWETo
		comb := vhAdd[T]
		if sgn == 1 {
			to, comb = e.SubPlainGLWETo, vhSub[T]
		}
		want := a.Copy()
		want.Value[0] = vhPl(comb(a.Value[0].Coeffs, pt.Value.Coeffs))
		vhEqGLWE(f(a, pt), want, -1, "plaintext addition/subtraction")
		r := o.Copy()
		to(r, a, pt)
		vhEqGLWE(r, want, -1, "plaintext addition/subtraction To")
		r = a.Copy()
		to(r, r, pt)
		vhEqGLWE(r, want, -1, "plaintext addition/subtraction in place")
	}
	vEnd()
}

//verif:modes=purego,asm
func VH_P06_linear32() { vhP06Linear[uint32](2) }

//verif:modes=purego,asm
func VH_P06_linear64() { vhP06Linear[uint64](1) }

func vhP06Mono[T TorusInt](k, d int) {
	params := vhParams[T](vhP{k: k})
	e := NewEvaluator(params, EvaluationKey[T]{})
	a, o := vhGLWE[T]("a", k, 16), vhGLWE[T]("o", k, 16)
	vhOp[T]{msg: "MonomialMulGLWE",
		ret:     func(x GLWECiphertext[T]) GLWECiphertext[T] { return e.MonomialMulGLWE(x, d) },
		to:      func(r, x GLWECiphertext[T]) { e.MonomialMulGLWETo(r, x, d) },
		add:     func(r, x GLWECiphertext[T]) { e.MonomialMulAddGLWETo(r, x, d) },
		sub:     func(r, x GLWECiphertext[T]) { e.MonomialMulSubGLWETo(r, x, d) },
		inplace: func(x GLWECiphertext[T]) { e.MonomialMulGLWEInPlace(x, d) }, noalias: true,
		f: func(x []T) []T { return vhMono(x, d) }, tol: -1}.check(a, o)
	if d&1 == 0 {
		return
	}
	vhOp[T]{msg: "PermuteGLWE",
		ret:     func(x GLWECiphertext[T]) GLWECiphertext[T] { return e.PermuteGLWE(x, d) },
		to:      func(r, x GLWECiphertext[T]) { e.PermuteGLWETo(r, x, d) },
		add:     func(r, x GLWECiphertext[T]) { e.PermuteAddGLWETo(r, x, d) },
		sub:     func(r, x GLWECiphertext[T]) { e.PermuteSubGLWETo(r, x, d) },
		inplace: func(x GLWECiphertext[T]) { e.PermuteGLWEInPlace(x, d) }, noalias: true,
		f: func(x []T) []T { return vhPermP(x, d) }, tol: -1}.check(a, o)
	vEnd()
}

// Every degree in [-2N, 2N].
func VH_P06_monomial() { vhP06Mono[uint32](2, vChoose("d", 65)-32) }

func VH_P06_monomial64() { vhP06Mono[uint64](1, vChoose("d", 65)-32) }

// Products with polynomials in coefficient and frequency form.
func vhP06Poly[T TorusInt](k int) {
	params := vhParams[T](vhP{k: k})
	e := NewEvaluator(params, EvaluationKey[T]{})
	a, o := vhGLWE[T]("a", k, 16), vhGLWE[T]("o", k, 16)
	q := make([]T, 16)
	for i := range q {
		q[i] = T(vByte("q"))
	}
	p := vhPl(q)
	tol := vhTol[T](12)
	mul := func(x []T) []T { return vhMul(x, q) }
	fp := e.PolyEvaluator.FwdFFT(p)
	vhOp[T]{msg: "PolyMulGLWE",
		ret: func(x GLWECiphertext[T]) GLWECiphertext[T] { return e.PolyMulGLWE(x, p) },
		to:  func(r, x GLWECiphertext[T]) { e.PolyMulGLWETo(r, x, p) },
		add: func(r, x GLWECiphertext[T]) { e.PolyMulAddGLWETo(r, x, p) },
		sub: func(r, x GLWECiphertext[T]) { e.PolyMulSubGLWETo(r, x, p) }, noalias: true,
		f: mul, tol: -1}.check(a, o)
	vhOp[T]{msg: "FFTPolyMulGLWE",
		ret: func(x GLWECiphertext[T]) GLWECiphertext[T] { return e.FFTPolyMulGLWE(x, fp) },
		to:  func(r, x GLWECiphertext[T]) { e.FFTPolyMulGLWETo(r, x, fp) },
		add: func(r, x GLWECiphertext[T]) { e.FFTPolyMulAddGLWETo(r, x, fp) },
		sub: func(r, x GLWECiphertext[T]) { e.FFTPolyMulSubGLWETo(r, x, fp) },
		f:   mul, tol: tol}.check(a, o)
	vEnd()
}

//verif:weight=20
func VH_P06_poly32() { vhP06Poly[uint32](1) }

//verif:weight=40
func VH_P06_poly64() { vhP06Poly[uint64](1) }

// Frequency-form ciphertext operations, observed after the inverse transform.
func vhP06FFT[T TorusInt](k int) {
	params := vhParams[T](vhP{k: k})
	e := NewEvaluator(params, EvaluationKey[T]{})
	a, b, o := vhGLWE[T]("a", k, 16), vhGLWE[T]("b", k, 16), vhGLWE[T]("o", k, 16)
	fb := e.FwdFFTGLWECiphertext(b)
	q := make([]T, 16)
	for i := range q {
		q[i] = T(vByte("q"))
	}
	p := vhPl(q)
	fp := e.PolyEvaluator.FwdFFT(p)
	tol := vhTol[T](14)
	// lift wraps a frequency-domain operation into one on coefficients
	type F = FFTGLWECiphertext[T]
	lift1 := func(f func(x F) F) func(x GLWECiphertext[T]) GLWECiphertext[T] {
		return func(x GLWECiphertext[T]) GLWECiphertext[T] {
			return e.InvFFTGLWECiphertext(f(e.FwdFFTGLWECiphertext(x)))
		}
	}
	lift := func(f func(r, x F)) vhG1[T] {
		return func(r, x GLWECiphertext[T]) {
			fr := e.FwdFFTGLWECiphertext(r)
			fx := fr
			if &r.Value[0] != &x.Value[0] {
				fx = e.FwdFFTGLWECiphertext(x)
			}
			f(fr, fx)
			e.InvFFTGLWECiphertextTo(r, fr)
		}
	}
	vhOp[T]{msg: "AddFFTGLWE", ret: lift1(func(x F) F { return e.AddFFTGLWE(x, fb) }),
		to: lift(func(r, x F) { e.AddFFTGLWETo(r, x, fb) }), f: nil, tol: tol}.check2(a, o, b, vhAdd[T])
	vhOp[T]{msg: "SubFFTGLWE", ret: lift1(func(x F) F { return e.SubFFTGLWE(x, fb) }),
		to: lift(func(r, x F) { e.SubFFTGLWETo(r, x, fb) }), f: nil, tol: tol}.check2(a, o, b, vhSub[T])
	vhOp[T]{msg: "NegFFTGLWE", ret: lift1(e.NegFFTGLWE), to: lift(e.NegFFTGLWETo),
		f: func(x []T) []T { return vhScale(x, ^T(0)) }, tol: tol}.check(a, o)
	vhOp[T]{msg: "FloatMulFFTGLWE", ret: lift1(func(x F) F { return e.FloatMulFFTGLWE(x, 5) }),
		to:  lift(func(r, x F) { e.FloatMulFFTGLWETo(r, x, 5) }),
		add: lift(func(r, x F) { e.FloatMulAddFFTGLWETo(r, x, 5) }),
		sub: lift(func(r, x F) { e.FloatMulSubFFTGLWETo(r, x, 5) }),
		f:   func(x []T) []T { return vhScale(x, 5) }, tol: tol}.check(a, o)
	// the imaginary unit is the image of X^(N/2) (up to the sign of the root)
	im := e.PolyEvaluator.InvFFT(e.PolyEvaluator.CmplxMulFFTPoly(e.PolyEvaluator.FwdFFT(vhPl(append([]T{1}, make([]T, 15)...))), 1i)).Coeffs
	for i := range im {
		if i != 8 {
			vEqT(im[i], 0, tol, "the imaginary unit is a monomial of degree N/2")
		}
	}
	vEqT(im[8]*im[8], 1, -1, "the imaginary unit has unit coefficient")
	cm := func(x []T) []T { return vhSub(vhScale(x, 2), vhMul(vhScale(im, 3), x)) }
	vhOp[T]{msg: "CmplxMulFFTGLWE", ret: lift1(func(x F) F { return e.CmplxMulFFTGLWE(x, 2-3i) }),
		to:  lift(func(r, x F) { e.CmplxMulFFTGLWETo(r, x, 2-3i) }),
		add: lift(func(r, x F) { e.CmplxMulAddFFTGLWETo(r, x, 2-3i) }),
		sub: lift(func(r, x F) { e.CmplxMulSubFFTGLWETo(r, x, 2-3i) }),
		f:   cm, tol: tol}.check(a, o)
	mul := func(x []T) []T { return vhMul(x, q) }
	vhOp[T]{msg: "PolyMulFFTGLWE", ret: lift1(func(x F) F { return e.PolyMulFFTGLWE(x, p) }),
		to:  lift(func(r, x F) { e.PolyMulFFTGLWETo(r, x, p) }),
		add: lift(func(r, x F) { e.PolyMulAddFFTGLWETo(r, x, p) }),
		sub: lift(func(r, x F) { e.PolyMulSubFFTGLWETo(r, x, p) }),
		f:   mul, tol: tol}.check(a, o)
	vhOp[T]{msg: "FFTPolyMulFFTGLWE", ret: lift1(func(x F) F { return e.FFTPolyMulFFTGLWE(x, fp) }),
		to:  lift(func(r, x F) { e.FFTPolyMulFFTGLWETo(r, x, fp) }),
		add: lift(func(r, x F) { e.FFTPolyMulAddFFTGLWETo(r, x, fp) }),
		sub: lift(func(r, x F) { e.FFTPolyMulSubFFTGLWETo(r, x, fp) }),
		f:   mul, tol: tol}.check(a, o)
	for _, d := range []int{1, 3, -1, 5, 17, 31, -7, 33} {
		d := d
		vhOp[T]{msg: "PermuteFFTGLWE", ret: lift1(func(x F) F { return e.PermuteFFTGLWE(x, d) }),
			to:  lift(func(r, x F) { e.PermuteFFTGLWETo(r, x, d) }),
			add: lift(func(r, x F) { e.PermuteAddFFTGLWETo(r, x, d) }),
			sub: lift(func(r, x F) { e.PermuteSubFFTGLWETo(r, x, d) }), noalias: true,
			inplace: func(x GLWECiphertext[T]) {
				fx := e.FwdFFTGLWECiphertext(x)
				e.PermuteFFTGLWEInPlace(fx, d)
				e.InvFFTGLWECiphertextTo(x, fx)
			},
			f: func(x []T) []T { return vhPermP(x, d) }, tol: tol}.check(a, o)
	}
	vEnd()
}

// check2 checks a binary operation with fixed second operand b.
func (p vhOp[T]) check2(a, o, b GLWECiphertext[T], f func(x, y []T) []T) {
	want := vhMapGLWE(a, b, f)
	vhEqGLWE(p.ret(a), want, p.tol, p.msg)
	r := o.Copy()
	p.to(r, a)
	vhEqGLWE(r, want, p.tol, p.msg+"To")
	r = a.Copy()
	p.to(r, r)
	vhEqGLWE(r, want, p.tol, p.msg+"To in place")
}

//verif:modes=purego,asm weight=30
func VH_P06_fft32() { vhP06FFT[uint32](1) }

//verif:weight=40
func VH_P06_fft64() { vhP06FFT[uint64](2) }
