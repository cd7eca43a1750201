//go:build verifharness

package tfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
)

// vhDec bounds the decomposition error of a gadget, times the n binary key
// coefficients it is multiplied with (-1 when exact).
func vhDec[T TorusInt](base, level, n int) int {
	last := num.SizeT[T]() - base*level
	if last == 0 {
		return -1
	}
	t := last - 1
	for m := 1; m < n; m *= 2 {
		t++
	}
	return t
}

// Scalar key switching from an n-bit key to the default key.
func vhKSLWE[T TorusInt](n int, order BootstrapOrder, base, level int) {
	params := vhParams[T](vhP{n: 2, order: order})
	enc := NewEncryptor(params)
	e := NewEvaluator(params, EvaluationKey[T]{})
	out, _ := vhDefKey(params, enc.SecretKey)
	in := LWESecretKey[T]{Value: vhBits[T]("in", n)}
	gp := GadgetParametersLiteral[T]{Base: T(1) << base, Level: level}.Compile()
	ksk := enc.GenLWEKeySwitchKey(in, gp)
	vAssert(ksk.InputLWEDimension() == n, "InputLWEDimension")
	tol := vhDec[T](base, level, n)
	for r := 0; r < 2; r++ {
		ct := LWECiphertext[T]{Value: vhVec[T]("ct", n+1)}
		ct0 := ct.Copy()
		want := vhPhaseLWE(ct, in.Value)
		c := e.KeySwitchLWE(ct, ksk)
		vAssert(len(c.Value) == len(out)+1, "KeySwitchLWE: size")
		vEqT(vhPhaseLWE(c, out), want, tol, "KeySwitchLWE preserves the phase")
		o := LWECiphertext[T]{Value: vhVec[T]("old", len(out)+1)}
		e.KeySwitchLWETo(o, ct, ksk)
		vhEq(o.Value, c.Value, -1, "KeySwitchLWETo agrees with KeySwitchLWE")
		vhEq(ct.Value, ct0.Value, -1, "KeySwitchLWE keeps its input")
		if n == len(out) {
			e.KeySwitchLWETo(ct, ct, ksk)
			vhEq(ct.Value, c.Value, -1, "KeySwitchLWETo in place")
		}
	}
	vEnd()
}

func VH_P12_lwe32()      { vhKSLWE[uint32](3, OrderBlindRotateKeySwitch, 8, 4) }
func VH_P12_lwe64()      { vhKSLWE[uint64](3, OrderBlindRotateKeySwitch, 16, 4) }
func VH_P12_lwesame()    { vhKSLWE[uint32](2, OrderBlindRotateKeySwitch, 16, 2) }
func VH_P12_lweone()     { vhKSLWE[uint32](1, OrderBlindRotateKeySwitch, 16, 2) }
func VH_P12_lwelarge()   { vhKSLWE[uint32](2, OrderKeySwitchBlindRotate, 16, 2) }
func VH_P12_lwelevel1()  { vhKSLWE[uint32](3, OrderBlindRotateKeySwitch, 10, 1) }
func VH_P12_lwetrunc32() { vhKSLWE[uint32](4, OrderBlindRotateKeySwitch, 4, 5) }
func VH_P12_lwetrunc64() { vhKSLWE[uint64](3, OrderBlindRotateKeySwitch, 7, 3) }

// Polynomial key switching from a rank-k key.
func vhKSGLWE[T TorusInt](kin, kout, base, level int) {
	params := vhParams[T](vhP{n: 2, k: kout})
	const N = 16
	enc := NewEncryptor(params)
	e := NewEvaluator(params, EvaluationKey[T]{})
	out := vhGLWEKey(enc.SecretKey)
	sk := NewGLWESecretKeyCustom[T](kin, N)
	in := make([][]T, kin)
	for i := range in {
		// a sparse symbolic key keeps the gadget noise-free and the terms small
		in[i] = sk.Value[i].Coeffs
		in[i][0], in[i][5+i], in[i][N-1] = vBit[T]("in"), vBit[T]("in"), vBit[T]("in")
	}
	gp := GadgetParametersLiteral[T]{Base: T(1) << base, Level: level}.Compile()
	ksk := enc.GenGLWEKeySwitchKey(sk, gp)
	vAssert(ksk.InputGLWERank() == kin, "InputGLWERank")
	tol := vhMax(vhDec[T](base, level, 3*kin), vhTol[T](base+5))
	for r := 0; r < 2; r++ {
		ct := vhGLWE[T]("ct", kin, N)
		ct0 := ct.Copy()
		want := vhPhaseGLWE(ct, in)
		c := e.KeySwitchGLWE(ct, ksk)
		vAssert(len(c.Value) == kout+1, "KeySwitchGLWE: size")
		vhEq(vhPhaseGLWE(c, out), want, tol, "KeySwitchGLWE preserves the phase")
		o := vhGLWE[T]("old", kout, N)
		e.KeySwitchGLWETo(o, ct, ksk)
		for i := range o.Value {
			vhEq(o.Value[i].Coeffs, c.Value[i].Coeffs, -1, "KeySwitchGLWETo agrees with KeySwitchGLWE")
		}
		for i := range ct.Value {
			vhEq(ct.Value[i].Coeffs, ct0.Value[i].Coeffs, -1, "KeySwitchGLWE keeps its input")
		}
		if kin == kout {
			e.KeySwitchGLWETo(ct, ct, ksk)
			for i := range ct.Value {
				vhEq(ct.Value[i].Coeffs, c.Value[i].Coeffs, -1, "KeySwitchGLWETo in place")
			}
		}
	}
	vEnd()
}

func VH_P12_glwe32()    { vhKSGLWE[uint32](1, 1, 8, 4) }
func VH_P12_glwe64()    { vhKSGLWE[uint64](1, 1, 16, 4) }
func VH_P12_glwe21()    { vhKSGLWE[uint32](2, 1, 16, 2) }
func VH_P12_glwe12()    { vhKSGLWE[uint32](1, 2, 16, 2) }
func VH_P12_glwe22()    { vhKSGLWE[uint64](2, 2, 16, 2) }
func VH_P12_glwetrunc() { vhKSGLWE[uint32](1, 1, 7, 2) }

// The default switching key, from the large key to the key of blind rotation.
func vhKSDef[T TorusInt](n, k int, order BootstrapOrder, base, level int) {
	params := vhParams[T](vhP{n: n, k: k, order: order, kbase: base, klevel: level})
	enc := NewEncryptor(params)
	ksk := enc.GenDefaultKeySwitchKey()
	e := NewEvaluator(params, EvaluationKey[T]{KeySwitchKey: ksk})
	big, small := enc.SecretKey.LWELargeKey.Value, enc.SecretKey.LWEKey.Value
	vAssert(ksk.InputLWEDimension() == k*16-n, "the default switching key covers the tail of the large key")
	tol := vhDec[T](base, level, k*16-n)
	for r := 0; r < 2; r++ {
		ct := LWECiphertext[T]{Value: vhVec[T]("ct", k*16+1)}
		ct0 := ct.Copy()
		want := vhPhaseLWE(ct, big)
		c := e.DefaultKeySwitch(ct)
		vAssert(len(c.Value) == n+1, "DefaultKeySwitch: size")
		vEqT(vhPhaseLWE(c, small), want, tol, "DefaultKeySwitch preserves the phase")
		o := LWECiphertext[T]{Value: vhVec[T]("old", n+1)}
		e.DefaultKeySwitchTo(o, ct)
		vhEq(o.Value, c.Value, -1, "DefaultKeySwitchTo agrees with DefaultKeySwitch")
		vhEq(ct.Value, ct0.Value, -1, "DefaultKeySwitch keeps its input")
	}
	vEnd()
}

func VH_P12_def32()    { vhKSDef[uint32](12, 1, OrderBlindRotateKeySwitch, 8, 4) }
func VH_P12_def64()    { vhKSDef[uint64](11, 1, OrderKeySwitchBlindRotate, 16, 4) }
func VH_P12_defk2()    { vhKSDef[uint32](28, 2, OrderBlindRotateKeySwitch, 16, 2) }
func VH_P12_deffull()  { vhKSDef[uint32](16, 1, OrderBlindRotateKeySwitch, 16, 2) }
func VH_P12_deftrunc() { vhKSDef[uint64](13, 1, OrderKeySwitchBlindRotate, 5, 4) }

//verif:tier=thorough
func VH_P12_defwide() { vhKSDef[uint32](3, 2, OrderKeySwitchBlindRotate, 4, 8) }
