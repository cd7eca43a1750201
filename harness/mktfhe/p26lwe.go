//go:build verifharness

package mktfhe

import "github.com/sp301415/tfhe-go/tfhe"

// LWE linear operations, for every ciphertext, key, scalar and plaintext.
func vhP26LWE[T tfhe.TorusInt](n int) {
	params := vhParams[T](vhP{n: n / 2, N: 16, order: tfhe.OrderBlindRotateKeySwitch})
	e := NewEvaluator(params, nil)
	s := vhBits[T]("s", n)
	mk := func(name string) LWECiphertext[T] {
		return LWECiphertext[T]{Value: vhVec[T](name, n+1)}
	}
	a, b, o := mk("a"), mk("b"), mk("o")
	a0, b0 := vhCp(a.Value), vhCp(b.Value)
	c := vT[T]("c")
	pt := tfhe.LWEPlaintext[T]{Value: vT[T]("pt")}
	pa, pb, po := vhPhaseLWE(a, s), vhPhaseLWE(b, s), vhPhaseLWE(o, s)
	type to func(out, x, y LWECiphertext[T])
	// every three-operand form, under every aliasing of the output
	three := func(msg string, ret LWECiphertext[T], f to, want T) {
		vEqT(vhPhaseLWE(ret, s), want, -1, msg)
		out := o.Copy()
		f(out, a, b)
		vhEq(out.Value, ret.Value, -1, msg+"To agrees with "+msg)
		x := a.Copy()
		f(x, x, b)
		vhEq(x.Value, ret.Value, -1, msg+"To with the output aliasing the first operand")
		y := b.Copy()
		f(y, a, y)
		vhEq(y.Value, ret.Value, -1, msg+"To with the output aliasing the second operand")
		vhEq(a.Value, a0, -1, msg+" leaves its first input unchanged")
		vhEq(b.Value, b0, -1, msg+" leaves its second input unchanged")
	}
	three("AddLWE", e.AddLWE(a, b), e.AddLWETo, pa+pb)
	three("SubLWE", e.SubLWE(a, b), e.SubLWETo, pa-pb)
	type to2 func(out, x LWECiphertext[T])
	two := func(msg string, ret LWECiphertext[T], f to2, want T) {
		vEqT(vhPhaseLWE(ret, s), want, -1, msg)
		out := o.Copy()
		f(out, a)
		vhEq(out.Value, ret.Value, -1, msg+"To agrees with "+msg)
		x := a.Copy()
		f(x, x)
		vhEq(x.Value, ret.Value, -1, msg+"To in place")
		vhEq(a.Value, a0, -1, msg+" leaves its input unchanged")
	}
	two("NegLWE", e.NegLWE(a), e.NegLWETo, -pa)
	two("ScalarMulLWE", e.ScalarMulLWE(a, c), func(out, x LWECiphertext[T]) { e.ScalarMulLWETo(out, x, c) }, c*pa)
	two("AddPlainLWE", e.AddPlainLWE(a, pt), func(out, x LWECiphertext[T]) { e.AddPlainLWETo(out, x, pt) }, pa+pt.Value)
	two("SubPlainLWE", e.SubPlainLWE(a, pt), func(out, x LWECiphertext[T]) { e.SubPlainLWETo(out, x, pt) }, pa-pt.Value)
	out := o.Copy()
	e.ScalarMulAddLWETo(out, a, c)
	vEqT(vhPhaseLWE(out, s), po+c*pa, -1, "ScalarMulAddLWETo")
	out = o.Copy()
	e.ScalarMulSubLWETo(out, a, c)
	vEqT(vhPhaseLWE(out, s), po-c*pa, -1, "ScalarMulSubLWETo")
	x := a.Copy()
	e.ScalarMulAddLWETo(x, x, c)
	vEqT(vhPhaseLWE(x, s), pa+c*pa, -1, "ScalarMulAddLWETo in place")
	x = a.Copy()
	e.ScalarMulSubLWETo(x, x, c)
	vEqT(vhPhaseLWE(x, s), pa-c*pa, -1, "ScalarMulSubLWETo in place")
	vhEq(a.Value, a0, -1, "accumulating forms leave their input unchanged")
	vObserve("phase", vhPhaseLWE(x, s), -1)
	vEnd()
}

//verif:modes=purego,asm,fallback
func VH_P26_lwe32() { vhP26LWE[uint32](10) }

//verif:modes=purego,asm,fallback
func VH_P26_lwe64() { vhP26LWE[uint64](6) }
