//go:build verifharness

package xtfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/tfhe"
)

func vhFHEWParams[T tfhe.TorusInt](p vhP, sdev float64, win int) FHEWParameters[T] {
	return FHEWParametersLiteral[T]{BaseParams: vhLit[T](p), SecretKeyStdDev: sdev, WindowSize: win}.Compile()
}

// vhSD is a standard deviation of two.
func vhSD[T tfhe.TorusInt]() float64 {
	sd := 2.0
	for i := 0; i < num.SizeT[T](); i++ {
		sd /= 2
	}
	return sd
}

// vhFHEWKey: the LWE key is given, the rest of the GLWE key is any ternary one.
func vhFHEWKey[T tfhe.TorusInt](params FHEWParameters[T], lwe []int) tfhe.SecretKey[T] {
	sk := tfhe.NewSecretKey(params.BaseParams())
	for i := range sk.LWELargeKey.Value {
		if i < len(lwe) {
			sk.LWELargeKey.Value[i] = T(lwe[i])
		} else {
			sk.LWELargeKey.Value[i] = vBit[T]("sk") - vBit[T]("sn")
		}
	}
	e := NewFHEWEncryptorWithKey(params, sk)
	e.FwdFFTGLWESecretKeyTo(sk.FFTGLWEKey, sk.GLWEKey)
	return sk
}

// Secret keys: Gaussian, of the stated width, and consistent.
func vhFHEWGen[T tfhe.TorusInt](p vhP, logSD int) {
	sd := 1.0
	for i := 0; i < p.logQ()-logSD; i++ {
		sd /= 2
	}
	params := vhFHEWParams[T](p, sd, 2)
	enc := NewFHEWEncryptor(params)
	sk := enc.SecretKey
	bp := params.BaseParams()
	vAssert(len(sk.LWELargeKey.Value) == bp.GLWERank()*bp.PolyRank(), "size")
	vAssert(len(sk.LWEKey.Value) == bp.LWEDimension(), "size")
	nz := vhNz[T](sd)
	for i, x := range sk.LWELargeKey.Value {
		vEqT(x, 0, nz, "key is small")
		if vSymbolic() {
			vMust(x != 0, "key is sampled")
			vMust(x+1 == 0, "key may be negative")
		}
		if i < len(sk.LWEKey.Value) {
			vEqT(sk.LWEKey.Value[i], x, -1, "LWE key is the head of the large key")
		}
		vEqT(sk.GLWEKey.Value[i/bp.PolyRank()].Coeffs[i%bp.PolyRank()], x, -1, "GLWE key")
	}
	g := enc.InvFFTGLWESecretKey(sk.FFTGLWEKey)
	for i := range g.Value {
		vhEq(g.Value[i].Coeffs, sk.GLWEKey.Value[i].Coeffs, vhTol[T](logSD+4-p.logQ()), "FFT key")
	}
	// ciphertexts under this key carry the message
	m := vInt("m")
	vAssume(uint64(m) < p.msg)
	ct := enc.EncryptLWE(m)
	vEqT(vhPhaseLWE(ct, vhKey(bp, sk)), T(m)*bp.Scale(), vhMax(vhNz[T](p.std), vhTol[T](4)), "EncryptLWE")
	vEnd()
}

func (p vhP) logQ() int { return 64 }

func VH_P37_keygen() { vhFHEWGen[uint64](vhP{n: 3, k: 2, msg: 4, std: 1e-15}, 2) }

// Blind rotation: every table and every key tail; LWE keys, masks, bodies and
// window sizes from a grid that meets every branch.
func vhFHEWRot[T tfhe.TorusInt](p vhP, win int, lwe []int, grid [][]int, par bool) {
	p.n = len(lwe)
	params := vhFHEWParams[T](p, vhSD[T](), win)
	bp := params.BaseParams()
	sk := vhFHEWKey(params, lwe)
	enc := NewFHEWEncryptorWithKey(params, sk)
	var evk FHEWEvaluationKey[T]
	if par {
		vSchedules(false)
		evk = enc.SafeCopy().GenEvalKeyParallel()
		vNoRace()
	} else {
		evk = enc.GenEvalKey()
	}
	vAssert(len(evk.GaloisKey) == win+1, "Galois keys")
	e := NewFHEWEvaluator(params, evk)
	s := vhGLWEKey(sk)
	N := bp.PolyRank()
	unit := T(1) << (bp.LogQ() - 1) / T(N)
	lut := tfhe.NewLUT(bp)
	lut.Value[0].Coeffs = vhVec[T]("lut", N)
	l0 := vhCp(lut.Value[0].Coeffs)
	tol := vhTol[T](p.base + 12)
	for c, xs := range grid {
		ct := tfhe.LWECiphertext[T]{Value: make([]T, len(lwe)+1)}
		rot := 0
		for i, x := range xs {
			// the negated component rounds to x, then to an odd number
			ct.Value[i] = -(T(x)*unit + unit/3)
			if (i+c)%2 == 0 {
				ct.Value[i] = -(T(x)*unit - unit/3)
			}
			if i == 0 {
				rot += x | 1
			} else {
				rot += (x | 1) * lwe[i-1]
			}
		}
		want := vhMono(l0, rot)
		check := func(o tfhe.GLWECiphertext[T], msg string) {
			vhEq(vhPhaseGLWE(o, s), want, tol, msg)
			vhEq(lut.Value[0].Coeffs, l0, -1, msg+": table unchanged")
		}
		switch c % 2 {
		case 0:
			check(e.BlindRotate(ct, lut), "BlindRotate")
		default:
			o := vhGLWE("old", bp)
			e.SafeCopy().BlindRotateTo(o, ct, lut)
			check(o, "BlindRotateTo")
		}
	}
	vEnd()
}

// modulo 32 the powers of 5 are 1 5 25 29 17 21 9 13
func VH_P37_rot64() {
	vhFHEWRot[uint64](vhP{base: 32, level: 2}, 3, []int{1, -2, 3}, [][]int{{6, 1, 31, 25}, {31, 24, 9, 13}}, true)
}
func VH_P37_rot32() {
	vhFHEWRot[uint32](vhP{base: 16, level: 2}, 10, []int{-1, 2, 0, 4}, [][]int{{0, 30, 31, 11, 18}, {13, 28, 0, 27, 22}, {2, 1, 0, 25, 24}}, false)
}
func VH_P37_rotwin1() {
	vhFHEWRot[uint32](vhP{base: 16, level: 2}, 1, []int{3, -1}, [][]int{{3, 12, 2}, {21, 6, 0}}, false)
}
func VH_P37_rotk2() {
	vhFHEWRot[uint32](vhP{k: 2, base: 16, level: 2}, 4, []int{1, 1}, [][]int{{3, 19, 19}}, true)
}

// Bootstraps: every function table, LWE keys and ciphertexts from a grid.
func vhFHEWBoot[T tfhe.TorusInt](p vhP, win int, lwe []int) {
	p.n = len(lwe)
	params := vhFHEWParams[T](p, vhSD[T](), win)
	bp := params.BaseParams()
	sk := vhFHEWKey(params, lwe)
	enc := NewFHEWEncryptorWithKey(params, sk)
	e := NewFHEWEvaluator(params, enc.GenEvalKeyParallel())
	P := int(p.msg)
	sc := bp.Scale()
	s := vhKey(bp, sk)
	tab := make([]int, P)
	for i := range tab {
		tab[i] = vInt("f")
		vAssume(uint64(tab[i]) < p.msg)
	}
	f := func(x int) int { return tab[x] }
	tol := vhTol[T](p.base + 12)
	unit := T(1) << (bp.LogQ() - 1) / T(bp.PolyRank())
	// every component moves by at most one and a half units
	edge := sc / 2
	w := T(2)
	for _, x := range lwe {
		if x < 0 {
			x = -x
		}
		w += T(x)
	}
	vAssert(edge > w*unit, "slot wider than the rounding")
	edge -= w * unit
	lut := e.GenLUT(f)
	for c := 0; c < 3; c++ {
		m := (3*c + 1) % (2 * P)
		ct := tfhe.LWECiphertext[T]{Value: make([]T, len(s)+1)}
		b := T(m) * sc
		for i := range lwe {
			ct.Value[i+1] = T((5*c+3*i+1)%(2*bp.PolyRank())) * unit
			b -= ct.Value[i+1] * T(lwe[i])
		}
		if c%2 == 0 {
			b += edge
		} else {
			b -= edge
		}
		ct.Value[0] = b
		ct0 := ct.Copy()
		var want T
		if m < P {
			want = T(tab[m]) * sc
		} else {
			want = -(T(tab[m-P]) * sc)
		}
		check := func(o tfhe.LWECiphertext[T], msg string) {
			vAssert(len(o.Value) == len(s)+1, msg+": size")
			vEqT(vhPhaseLWE(o, s), want, tol, msg)
		}
		switch c {
		case 0:
			check(e.BootstrapFunc(ct, f), "BootstrapFunc")
		case 1:
			o := tfhe.LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
			e.BootstrapFuncTo(o, ct, f)
			check(o, "BootstrapFuncTo")
		case 2:
			check(e.SafeCopy().BootstrapLUT(ct, lut), "BootstrapLUT")
			o := ct.Copy()
			e.BootstrapLUTTo(o, o, lut)
			check(o, "BootstrapLUTTo in place")
		}
		vhEq(ct.Value, ct0.Value, -1, "input unchanged")
	}
	vEnd()
}

func VH_P37_bootbrks() {
	vhFHEWBoot[uint32](vhP{msg: 2, N: 16, base: 16, level: 2, order: tfhe.OrderBlindRotateKeySwitch}, 4, []int{0, -1})
}
func VH_P37_bootksbr() {
	vhFHEWBoot[uint64](vhP{msg: 2, N: 16, base: 32, level: 2, order: tfhe.OrderKeySwitchBlindRotate}, 3, []int{1, 0})
}

//verif:tier=thorough timeout=300
func VH_P37_bootn32() {
	vhFHEWBoot[uint32](vhP{msg: 2, N: 32, base: 16, level: 2, order: tfhe.OrderBlindRotateKeySwitch}, 4, []int{2, -1})
}
