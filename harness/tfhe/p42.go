//go:build verifharness

package tfhe

import (
	"github.com/sp301415/tfhe-go/math/poly"
)

// Conversion of whole objects between coefficient and frequency form: every
// component is transformed, by the transform of single polynomials (which is
// what P09 decides), into objects of the right shape; transforming back gives
// the object again; the argument is left alone; stale outputs are overwritten.

func vhFCp(a poly.FFTPoly) []float64 { return append([]float64(nil), a.Coeffs...) }

func vhFEq(a, b []float64, msg string) {
	vAssert(len(a) == len(b), msg+": rank")
	for i := range a {
		vEqF(a[i], b[i], 1e-6, msg)
	}
}

type vhCv[T TorusInt] struct {
	tr *GLWETransformer[T]
	ev *poly.Evaluator[T]
	N  int
}

// pair checks one polynomial against its transform.
func (c vhCv[T]) pair(p poly.Poly[T], f poly.FFTPoly, msg string) {
	vhFEq(vhFCp(f), c.ev.FwdFFT(p).Coeffs, msg)
}

func (c vhCv[T]) poly(name string) poly.Poly[T] {
	return vhPoly[T](name, c.N)
}

func (c vhCv[T]) glwe(ct GLWECiphertext[T], f FFTGLWECiphertext[T], k int, msg string) {
	vAssert(len(ct.Value) == k+1 && len(f.Value) == k+1, msg+": rank")
	for i := range ct.Value {
		c.pair(ct.Value[i], f.Value[i], msg)
	}
}

func (c vhCv[T]) glev(ct GLevCiphertext[T], f FFTGLevCiphertext[T], k int, gp GadgetParameters[T], msg string) {
	vAssert(len(ct.Value) == gp.Level() && len(f.Value) == gp.Level(), msg+": levels")
	vAssert(ct.GadgetParams == gp && f.GadgetParams == gp, msg+": gadget parameters")
	for i := range ct.Value {
		c.glwe(ct.Value[i], f.Value[i], k, msg)
	}
}

func (c vhCv[T]) ggsw(ct GGSWCiphertext[T], f FFTGGSWCiphertext[T], k int, gp GadgetParameters[T], msg string) {
	vAssert(len(ct.Value) == k+1 && len(f.Value) == k+1, msg+": rows")
	vAssert(ct.GadgetParams == gp && f.GadgetParams == gp, msg+": gadget parameters")
	for i := range ct.Value {
		c.glev(ct.Value[i], f.Value[i], k, gp, msg)
	}
}

func (c vhCv[T]) same(a, b []poly.Poly[T], tol int, msg string) {
	vAssert(len(a) == len(b), msg+": length")
	for i := range a {
		vhEq(a[i].Coeffs, b[i].Coeffs, tol, msg)
	}
}

func vhFlatGLev[T TorusInt](ct GLevCiphertext[T]) (r []poly.Poly[T]) {
	for i := range ct.Value {
		r = append(r, ct.Value[i].Value...)
	}
	return
}

func vhFlatGGSW[T TorusInt](ct GGSWCiphertext[T]) (r []poly.Poly[T]) {
	for i := range ct.Value {
		r = append(r, vhFlatGLev(ct.Value[i])...)
	}
	return
}

func vhFill[T TorusInt](name string, ps []poly.Poly[T]) {
	for i := range ps {
		for j := range ps[i].Coeffs {
			ps[i].Coeffs[j] = vT[T](name)
		}
	}
}

func vhCpPolys[T TorusInt](ps []poly.Poly[T]) (r []poly.Poly[T]) {
	for i := range ps {
		r = append(r, vhPl(vhCp(ps[i].Coeffs)))
	}
	return
}

func vhConv[T TorusInt](k, N, level int, copied bool, kind int) {
	c := vhCv[T]{tr: NewGLWETransformer[T](N), ev: poly.NewEvaluator[T](N), N: N}
	if copied {
		c.tr = c.tr.SafeCopy()
	}
	gp := GadgetParametersLiteral[T]{Base: T(1) << 5, Level: level}.Compile()
	tol := vhTol[T](0)
	switch kind {
	case 0:
		sk := NewGLWESecretKeyCustom[T](k, N)
		old := NewGLWESecretKeyCustom[T](k, N)
		for i := range sk.Value {
			for j := range sk.Value[i].Coeffs {
				sk.Value[i].Coeffs[j], old.Value[i].Coeffs[j] = vBit[T]("s"), vBit[T]("old")
			}
		}
		in := vhCpPolys(sk.Value)
		f := c.tr.FwdFFTGLWESecretKey(sk)
		g := c.tr.FwdFFTGLWESecretKey(old)
		c.tr.FwdFFTGLWESecretKeyTo(g, sk)
		vAssert(len(f.Value) == k && len(g.Value) == k, "secret key: rank")
		for i := range f.Value {
			c.pair(sk.Value[i], f.Value[i], "FwdFFTGLWESecretKey")
			c.pair(sk.Value[i], g.Value[i], "FwdFFTGLWESecretKeyTo")
		}
		r := c.tr.InvFFTGLWESecretKey(f)
		c.tr.InvFFTGLWESecretKeyTo(old, f)
		c.same(r.Value, in, 0, "InvFFTGLWESecretKey")
		c.same(old.Value, in, 0, "InvFFTGLWESecretKeyTo")
		c.same(sk.Value, in, -1, "the key is left alone")
		for i := range f.Value {
			c.pair(sk.Value[i], f.Value[i], "the frequency form is left alone")
		}
	case 1:
		ct, old := vhGLWE[T]("c", k, N), vhGLWE[T]("old", k, N)
		in := vhCpPolys(ct.Value)
		f, g := c.tr.FwdFFTGLWECiphertext(ct), c.tr.FwdFFTGLWECiphertext(old)
		c.tr.FwdFFTGLWECiphertextTo(g, ct)
		c.glwe(ct, f, k, "FwdFFTGLWECiphertext")
		c.glwe(ct, g, k, "FwdFFTGLWECiphertextTo")
		r := c.tr.InvFFTGLWECiphertext(f)
		c.tr.InvFFTGLWECiphertextTo(old, f)
		c.same(r.Value, in, tol, "InvFFTGLWECiphertext")
		c.same(old.Value, in, tol, "InvFFTGLWECiphertextTo")
		c.same(ct.Value, in, -1, "the ciphertext is left alone")
		c.glwe(ct, f, k, "the frequency form is left alone")
	case 2:
		ct, old := NewGLevCiphertextCustom(k, N, gp), NewGLevCiphertextCustom(k, N, gp)
		vhFill("c", vhFlatGLev(ct))
		vhFill("old", vhFlatGLev(old))
		in := vhCpPolys(vhFlatGLev(ct))
		f, g := c.tr.FwdFFTGLevCiphertext(ct), c.tr.FwdFFTGLevCiphertext(old)
		c.tr.FwdFFTGLevCiphertextTo(g, ct)
		c.glev(ct, f, k, gp, "FwdFFTGLevCiphertext")
		c.glev(ct, g, k, gp, "FwdFFTGLevCiphertextTo")
		r := c.tr.InvFFTGLevCiphertext(f)
		c.tr.InvFFTGLevCiphertextTo(old, f)
		vAssert(r.GadgetParams == gp, "InvFFTGLevCiphertext: gadget parameters")
		c.same(vhFlatGLev(r), in, tol, "InvFFTGLevCiphertext")
		c.same(vhFlatGLev(old), in, tol, "InvFFTGLevCiphertextTo")
		c.same(vhFlatGLev(ct), in, -1, "the ciphertext is left alone")
		c.glev(ct, f, k, gp, "the frequency form is left alone")
	case 3:
		ct, old := NewGGSWCiphertextCustom(k, N, gp), NewGGSWCiphertextCustom(k, N, gp)
		vhFill("c", vhFlatGGSW(ct))
		vhFill("old", vhFlatGGSW(old))
		in := vhCpPolys(vhFlatGGSW(ct))
		f, g := c.tr.FwdFFTGGSWCiphertext(ct), c.tr.FwdFFTGGSWCiphertext(old)
		c.tr.FwdFFTGGSWCiphertextTo(g, ct)
		c.ggsw(ct, f, k, gp, "FwdFFTGGSWCiphertext")
		c.ggsw(ct, g, k, gp, "FwdFFTGGSWCiphertextTo")
		r := c.tr.InvFFTGGSWCiphertext(f)
		c.tr.InvFFTGGSWCiphertextTo(old, f)
		vAssert(r.GadgetParams == gp && len(r.Value) == k+1, "InvFFTGGSWCiphertext: shape")
		c.same(vhFlatGGSW(r), in, tol, "InvFFTGGSWCiphertext")
		c.same(vhFlatGGSW(old), in, tol, "InvFFTGGSWCiphertextTo")
		c.same(vhFlatGGSW(ct), in, -1, "the ciphertext is left alone")
		c.ggsw(ct, f, k, gp, "the frequency form is left alone")
	}
	vEnd()
}

func VH_P42_conv32()   { vhConv[uint32](2, 16, 2, false, vChoose("kind", 4)) }
func VH_P42_conv64()   { vhConv[uint64](1, 32, 3, false, vChoose("kind", 4)) }
func VH_P42_convcopy() { vhConv[uint64](3, 16, 1, true, vChoose("kind", 4)) }
func VH_P42_convwide() { vhConv[uint32](1, 64, 4, true, 2+vChoose("kind", 2)) }

// The constructors of parameter-shaped objects give the shape of the
// parameters, all zero, each value with storage of its own.
func vhShapes[T TorusInt](n, k, N int, order BootstrapOrder) {
	params := vhParams[T](vhP{n: n, k: k, N: N, order: order})
	gp := GadgetParametersLiteral[T]{Base: T(1) << 4, Level: 3}.Compile()
	dim := n
	if order == OrderKeySwitchBlindRotate {
		dim = k * N
	}
	zero := func(v []T, want int, msg string) {
		vAssert(len(v) == want, msg+": size")
		for i := range v {
			vAssert(v[i] == 0, msg+": zero")
			v[i] = T(i) + 1 // seen again if storage were shared
		}
	}
	zf := func(v []float64, msg string) {
		vAssert(len(v) == N, msg+": size")
		for i := range v {
			vAssert(v[i] == 0, msg+": zero")
			v[i] = 1
		}
	}
	lwe := func(v LWECiphertext[T], msg string) { zero(v.Value, dim+1, msg) }
	glwe := func(v GLWECiphertext[T], msg string) {
		vAssert(len(v.Value) == k+1, msg+": rank")
		for i := range v.Value {
			zero(v.Value[i].Coeffs, N, msg)
		}
	}
	fglwe := func(v FFTGLWECiphertext[T], msg string) {
		vAssert(len(v.Value) == k+1, msg+": rank")
		for i := range v.Value {
			zf(v.Value[i].Coeffs, msg)
		}
	}
	vAssert(NewLWEPlaintext[T]().Value == 0, "NewLWEPlaintext")
	zero(NewGLWEPlaintext(params).Value.Coeffs, N, "NewGLWEPlaintext")
	zero(NewLWESecretKey(params).Value, dim, "NewLWESecretKey")
	gk := NewGLWESecretKey(params)
	vAssert(len(gk.Value) == k, "NewGLWESecretKey: rank")
	for i := range gk.Value {
		zero(gk.Value[i].Coeffs, N, "NewGLWESecretKey")
	}
	fk := NewFFTGLWESecretKey(params)
	vAssert(len(fk.Value) == k, "NewFFTGLWESecretKey: rank")
	for i := range fk.Value {
		zf(fk.Value[i].Coeffs, "NewFFTGLWESecretKey")
	}
	lwe(NewLWECiphertext(params), "NewLWECiphertext")
	lev := NewLevCiphertext(params, gp)
	vAssert(len(lev.Value) == 3 && lev.GadgetParams == gp, "NewLevCiphertext: shape")
	for i := range lev.Value {
		lwe(lev.Value[i], "NewLevCiphertext")
	}
	gsw := NewGSWCiphertext(params, gp)
	vAssert(len(gsw.Value) == dim+1 && gsw.GadgetParams == gp, "NewGSWCiphertext: shape")
	for i := range gsw.Value {
		vAssert(len(gsw.Value[i].Value) == 3 && gsw.Value[i].GadgetParams == gp, "NewGSWCiphertext: row shape")
		for j := range gsw.Value[i].Value {
			lwe(gsw.Value[i].Value[j], "NewGSWCiphertext")
		}
	}
	glwe(NewGLWECiphertext(params), "NewGLWECiphertext")
	glev := NewGLevCiphertext(params, gp)
	vAssert(len(glev.Value) == 3 && glev.GadgetParams == gp, "NewGLevCiphertext: shape")
	for i := range glev.Value {
		glwe(glev.Value[i], "NewGLevCiphertext")
	}
	ggsw := NewGGSWCiphertext(params, gp)
	vAssert(len(ggsw.Value) == k+1 && ggsw.GadgetParams == gp, "NewGGSWCiphertext: shape")
	for i := range ggsw.Value {
		vAssert(len(ggsw.Value[i].Value) == 3 && ggsw.Value[i].GadgetParams == gp, "NewGGSWCiphertext: row shape")
		for j := range ggsw.Value[i].Value {
			glwe(ggsw.Value[i].Value[j], "NewGGSWCiphertext")
		}
	}
	fglwe(NewFFTGLWECiphertext(params), "NewFFTGLWECiphertext")
	fglev := NewFFTGLevCiphertext(params, gp)
	vAssert(len(fglev.Value) == 3 && fglev.GadgetParams == gp, "NewFFTGLevCiphertext: shape")
	for i := range fglev.Value {
		fglwe(fglev.Value[i], "NewFFTGLevCiphertext")
	}
	fggsw := NewFFTGGSWCiphertext(params, gp)
	vAssert(len(fggsw.Value) == k+1 && fggsw.GadgetParams == gp, "NewFFTGGSWCiphertext: shape")
	for i := range fggsw.Value {
		vAssert(len(fggsw.Value[i].Value) == 3 && fggsw.Value[i].GadgetParams == gp, "NewFFTGGSWCiphertext: row shape")
		for j := range fggsw.Value[i].Value {
			fglwe(fggsw.Value[i].Value[j], "NewFFTGGSWCiphertext")
		}
	}
	// keys
	lk := func(v LWEKeySwitchKey[T], in, out int, g GadgetParameters[T], msg string) {
		vAssert(len(v.Value) == in && v.GadgetParams == g && v.InputLWEDimension() == in, msg+": shape")
		for i := range v.Value {
			vAssert(len(v.Value[i].Value) == g.Level() && v.Value[i].GadgetParams == g, msg+": row shape")
			for j := range v.Value[i].Value {
				zero(v.Value[i].Value[j].Value, out+1, msg)
			}
		}
	}
	gl := func(v []FFTGLevCiphertext[T], in int, g GadgetParameters[T], msg string) {
		vAssert(len(v) == in, msg+": shape")
		for i := range v {
			vAssert(len(v[i].Value) == g.Level() && v[i].GadgetParams == g, msg+": row shape")
			for j := range v[i].Value {
				fglwe(v[i].Value[j], msg)
			}
		}
	}
	brk := func(v BlindRotateKey[T], msg string) {
		vAssert(len(v.Value) == n && v.GadgetParams == params.BlindRotateParams(), msg+": shape")
		for i := range v.Value {
			vAssert(v.Value[i].GadgetParams == params.BlindRotateParams(), msg+": gadget parameters")
			gl(v.Value[i].Value, k+1, params.BlindRotateParams(), msg)
		}
	}
	ks := params.KeySwitchParams()
	lk(NewLWEKeySwitchKey(params, 5, gp), 5, dim, gp, "NewLWEKeySwitchKey")
	lk(NewLWEKeySwitchKeyCustom(5, 7, gp), 5, 7, gp, "NewLWEKeySwitchKeyCustom")
	lk(NewKeySwitchKeyForBootstrap(params), k*N-n, n, ks, "NewKeySwitchKeyForBootstrap")
	lk(NewKeySwitchKeyForBootstrapCustom(n, k, N, ks), k*N-n, n, ks, "NewKeySwitchKeyForBootstrapCustom")
	gks := NewGLWEKeySwitchKey(params, 3, gp)
	vAssert(gks.GadgetParams == gp && gks.InputGLWERank() == 3, "NewGLWEKeySwitchKey: shape")
	gl(gks.Value, 3, gp, "NewGLWEKeySwitchKey")
	gks = NewGLWEKeySwitchKeyCustom(4, k, N, gp)
	vAssert(gks.GadgetParams == gp && gks.InputGLWERank() == 4, "NewGLWEKeySwitchKeyCustom: shape")
	gl(gks.Value, 4, gp, "NewGLWEKeySwitchKeyCustom")
	brk(NewBlindRotateKey(params), "NewBlindRotateKey")
	brk(NewBlindRotateKeyCustom(n, k, N, params.BlindRotateParams()), "NewBlindRotateKeyCustom")
	evk := NewEvaluationKey(params)
	brk(evk.BlindRotateKey, "NewEvaluationKey")
	lk(evk.KeySwitchKey, k*N-n, n, ks, "NewEvaluationKey")
	evk = NewEvaluationKeyCustom(n, k, N, params.BlindRotateParams(), gp)
	brk(evk.BlindRotateKey, "NewEvaluationKeyCustom")
	lk(evk.KeySwitchKey, k*N-n, n, gp, "NewEvaluationKeyCustom")
	pub := func(pk PublicKey[T], msg string) {
		vAssert(len(pk.LWEKey.Value) == k && len(pk.GLWEKey.Value) == k, msg+": shape")
		for i := range pk.LWEKey.Value {
			glwe(pk.LWEKey.Value[i], msg)
			glwe(pk.GLWEKey.Value[i], msg)
		}
	}
	if params.IsPublicKeyEncryptable() {
		pub(NewPublicKey(params), "NewPublicKey")
	} else {
		vAssert(vPanics(func() { NewPublicKey(params) }), "NewPublicKey refuses parameters without public keys")
	}
	pub(NewPublicKeyCustom[T](k, N), "NewPublicKeyCustom")
	vEnd()
}

func VH_P42_shape32() { vhShapes[uint32](3, 2, 16, OrderKeySwitchBlindRotate) }
func VH_P42_shape64() { vhShapes[uint64](5, 1, 32, OrderBlindRotateKeySwitch) }
