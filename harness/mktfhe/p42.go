//go:build verifharness

package mktfhe

import (
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// Multi-key objects: shapes, and conversion between coefficient and frequency
// form, against the transform of single polynomials.

func vhUniPolys[T tfhe.TorusInt](ct UniEncryption[T]) (r []poly.Poly[T]) {
	for i := range ct.Value {
		for j := range ct.Value[i].Value {
			r = append(r, ct.Value[i].Value[j].Value...)
		}
	}
	return
}

func vhFUniPolys[T tfhe.TorusInt](ct FFTUniEncryption[T]) (r []poly.FFTPoly) {
	for i := range ct.Value {
		for j := range ct.Value[i].Value {
			r = append(r, ct.Value[i].Value[j].Value...)
		}
	}
	return
}

func vhCpPolys[T tfhe.TorusInt](ps []poly.Poly[T]) (r []poly.Poly[T]) {
	for i := range ps {
		r = append(r, vhPl(vhCp(ps[i].Coeffs)))
	}
	return
}

func vhPairs[T tfhe.TorusInt](ps []poly.Poly[T], fs []poly.FFTPoly, msg string) {
	vAssert(len(ps) == len(fs), msg+": shape")
	for i := range ps {
		ev := poly.NewEvaluator[T](ps[i].Rank())
		w := ev.FwdFFT(ps[i])
		vAssert(len(fs[i].Coeffs) == len(w.Coeffs), msg+": rank")
		for j := range w.Coeffs {
			vEqF(fs[i].Coeffs[j], w.Coeffs[j], 1e-6, msg)
		}
	}
}

func vhSamePolys[T tfhe.TorusInt](a, b []poly.Poly[T], tol int, msg string) {
	vAssert(len(a) == len(b), msg+": length")
	for i := range a {
		vhEq(a[i].Coeffs, b[i].Coeffs, tol, msg)
	}
}

func vhMKConv[T tfhe.TorusInt](k, N, level int, copied bool, kind int) {
	tr := NewGLWETransformer[T](N)
	if copied {
		tr = tr.SafeCopy()
	}
	gp := tfhe.GadgetParametersLiteral[T]{Base: T(1) << 5, Level: level}.Compile()
	tol := vhTol[T](0)
	switch kind {
	case 0:
		mk := func(name string) GLWECiphertext[T] {
			ct := NewGLWECiphertextCustom[T](k, N)
			vAssert(len(ct.Value) == k+1, "NewGLWECiphertextCustom: rank")
			for i := range ct.Value {
				copy(ct.Value[i].Coeffs, vhVec[T](name, N))
			}
			return ct
		}
		ct, old := mk("c"), mk("old")
		in := vhCpPolys(ct.Value)
		f, g := tr.FwdFFTGLWECiphertext(ct), tr.FwdFFTGLWECiphertext(old)
		tr.FwdFFTGLWECiphertextTo(g, ct)
		vhPairs(ct.Value, f.Value, "FwdFFTGLWECiphertext")
		vhPairs(ct.Value, g.Value, "FwdFFTGLWECiphertextTo")
		r := tr.InvGLWECiphertext(f)
		tr.InvGLWECiphertextTo(old, f)
		vhSamePolys(r.Value, in, tol, "InvGLWECiphertext")
		vhSamePolys(old.Value, in, tol, "InvGLWECiphertextTo")
		vhSamePolys(ct.Value, in, -1, "the ciphertext is left alone")
		vhPairs(ct.Value, f.Value, "the frequency form is left alone")
	case 1:
		mk := func(name string) UniEncryption[T] {
			ct := NewUniEncryptionCustom(N, gp)
			vAssert(len(ct.Value) == 2 && ct.GadgetParams == gp, "NewUniEncryptionCustom: shape")
			for _, p := range vhUniPolys(ct) {
				copy(p.Coeffs, vhVec[T](name, N))
			}
			return ct
		}
		ct, old := mk("c"), mk("old")
		in := vhCpPolys(vhUniPolys(ct))
		vAssert(len(in) == 4*level, "NewUniEncryptionCustom: shape")
		f, g := tr.FwdFFTUniEncryption(ct), tr.FwdFFTUniEncryption(old)
		tr.FwdFFTUniEncryptionTo(g, ct)
		vAssert(f.GadgetParams == gp && len(f.Value) == 2, "FwdFFTUniEncryption: shape")
		vhPairs(in, vhFUniPolys(f), "FwdFFTUniEncryption")
		vhPairs(in, vhFUniPolys(g), "FwdFFTUniEncryptionTo")
		r := tr.InvFFTUniEncryption(f)
		tr.InvFFTUniEncryptionTo(old, f)
		vAssert(r.GadgetParams == gp && len(r.Value) == 2, "InvFFTUniEncryption: shape")
		vhSamePolys(vhUniPolys(r), in, tol, "InvFFTUniEncryption")
		vhSamePolys(vhUniPolys(old), in, tol, "InvFFTUniEncryptionTo")
		vhSamePolys(vhUniPolys(ct), in, -1, "the ciphertext is left alone")
		vhPairs(in, vhFUniPolys(f), "the frequency form is left alone")
	case 2:
		sk, old := tfhe.NewGLWESecretKeyCustom[T](k, N), tfhe.NewGLWESecretKeyCustom[T](k, N)
		for i := range sk.Value {
			copy(sk.Value[i].Coeffs, vhBits[T]("s", N))
			copy(old.Value[i].Coeffs, vhBits[T]("old", N))
		}
		in := vhCpPolys(sk.Value)
		f, g := tr.FwdFFTGLWESecretKey(sk), tr.FwdFFTGLWESecretKey(old)
		tr.FwdFFTGLWESecretKeyTo(g, sk)
		vhPairs(in, f.Value, "FwdFFTGLWESecretKey")
		vhPairs(in, g.Value, "FwdFFTGLWESecretKeyTo")
		r := tr.InvFFTGLWESecretKey(f)
		tr.InvFFTGLWESecretKeyTo(old, f)
		vhSamePolys(r.Value, in, 0, "InvFFTGLWESecretKey")
		vhSamePolys(old.Value, in, 0, "InvFFTGLWESecretKeyTo")
		vhSamePolys(sk.Value, in, -1, "the key is left alone")
		vhPairs(in, f.Value, "the frequency form is left alone")
	}
	vEnd()
}

func VH_P42_mkconv32()   { vhMKConv[uint32](3, 16, 2, false, vChoose("kind", 3)) }
func VH_P42_mkconv64()   { vhMKConv[uint64](2, 32, 3, false, vChoose("kind", 3)) }
func VH_P42_mkconvcopy() { vhMKConv[uint64](4, 16, 1, true, vChoose("kind", 3)) }

func vhMKShapes[T tfhe.TorusInt](parties, n, N int, order tfhe.BootstrapOrder) {
	params := vhParams[T](vhP{parties: parties, n: n, N: N, order: order, rbase: 5, rlevel: 3})
	gp := tfhe.GadgetParametersLiteral[T]{Base: T(1) << 4, Level: 4}.Compile()
	dim := n
	if order == tfhe.OrderKeySwitchBlindRotate {
		dim = N
	}
	zero := func(v []T, want int, msg string) {
		vAssert(len(v) == want, msg+": size")
		for i := range v {
			vAssert(v[i] == 0, msg+": zero")
			v[i] = T(i) + 1 // seen again if storage were shared
		}
	}
	zf := func(v []float64, msg string) {
		vAssert(len(v) == N, msg+": size")
		for i := range v {
			vAssert(v[i] == 0, msg+": zero")
			v[i] = 1
		}
	}
	zero(NewLWECiphertext(params).Value, parties*dim+1, "NewLWECiphertext")
	zero(NewLWECiphertextCustom[T](7).Value, 8, "NewLWECiphertextCustom")
	ct := NewGLWECiphertext(params)
	vAssert(len(ct.Value) == parties+1, "NewGLWECiphertext: rank")
	for i := range ct.Value {
		zero(ct.Value[i].Coeffs, N, "NewGLWECiphertext")
	}
	fct := NewFFTGLWECiphertext(params)
	vAssert(len(fct.Value) == parties+1, "NewFFTGLWECiphertext: rank")
	for i := range fct.Value {
		zf(fct.Value[i].Coeffs, "NewFFTGLWECiphertext")
	}
	fct = NewFFTGLWECiphertextCustom[T](4, N)
	vAssert(len(fct.Value) == 5, "NewFFTGLWECiphertextCustom: rank")
	for i := range fct.Value {
		zf(fct.Value[i].Coeffs, "NewFFTGLWECiphertextCustom")
	}
	for _, u := range []UniEncryption[T]{NewUniEncryption(params, gp), NewUniEncryptionCustom(N, gp)} {
		ps := vhUniPolys(u)
		vAssert(len(u.Value) == 2 && u.GadgetParams == gp && len(ps) == 4*gp.Level(), "NewUniEncryption: shape")
		for i := range ps {
			zero(ps[i].Coeffs, N, "NewUniEncryption")
		}
	}
	funi := func(u FFTUniEncryption[T], g tfhe.GadgetParameters[T], msg string) {
		fs := vhFUniPolys(u)
		vAssert(len(u.Value) == 2 && u.GadgetParams == g && len(fs) == 4*g.Level(), msg+": shape")
		for i := range u.Value {
			vAssert(u.Value[i].GadgetParams == g, msg+": gadget parameters")
		}
		for i := range fs {
			zf(fs[i].Coeffs, msg)
		}
	}
	funi(NewFFTUniEncryption(params, gp), gp, "NewFFTUniEncryption")
	funi(NewFFTUniEncryptionCustom(N, gp), gp, "NewFFTUniEncryptionCustom")
	evk := func(k EvaluationKey[T], ks, rel tfhe.GadgetParameters[T], msg string) {
		funi(k.RelinKey, rel, msg+" relinearization key")
		vAssert(k.CRSPublicKey.GadgetParams == rel && len(k.CRSPublicKey.Value) == rel.Level(), msg+" public key: shape")
		for i := range k.CRSPublicKey.Value {
			vAssert(len(k.CRSPublicKey.Value[i].Value) == 2, msg+" public key: rank")
			zf(k.CRSPublicKey.Value[i].Value[0].Coeffs, msg)
			zf(k.CRSPublicKey.Value[i].Value[1].Coeffs, msg)
		}
		b := params.BlindRotateParams()
		vAssert(len(k.BlindRotateKey.Value) == n && k.BlindRotateKey.GadgetParams == b, msg+" blind rotation key: shape")
		for i := range k.BlindRotateKey.Value {
			vAssert(len(k.BlindRotateKey.Value[i].Value) == 2, msg+" blind rotation key: rank")
			for r := range k.BlindRotateKey.Value[i].Value {
				vAssert(len(k.BlindRotateKey.Value[i].Value[r].Value) == b.Level(), msg+" blind rotation key: levels")
			}
		}
		vAssert(len(k.KeySwitchKey.Value) == N-n && k.KeySwitchKey.GadgetParams == ks, msg+" key switching key: shape")
		for i := range k.KeySwitchKey.Value {
			vAssert(len(k.KeySwitchKey.Value[i].Value) == ks.Level(), msg+" key switching key: levels")
			for j := range k.KeySwitchKey.Value[i].Value {
				zero(k.KeySwitchKey.Value[i].Value[j].Value, n+1, msg+" key switching key")
			}
		}
	}
	evk(NewEvaluationKey(params), params.KeySwitchParams(), params.RelinKeyParameters(), "NewEvaluationKey")
	evk(NewEvaluationKeyCustom(n, N, params.BlindRotateParams(), gp, params.RelinKeyParameters()), gp, params.RelinKeyParameters(), "NewEvaluationKeyCustom")
	vEnd()
}

func VH_P42_mkshape32() { vhMKShapes[uint32](3, 2, 16, tfhe.OrderKeySwitchBlindRotate) }
func VH_P42_mkshape64() { vhMKShapes[uint64](2, 5, 32, tfhe.OrderBlindRotateKeySwitch) }
