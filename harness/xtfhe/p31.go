//go:build verifharness

package xtfhe

import (
	"sync"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/tfhe"
)

// vhBoth runs f and g in two goroutines.
func vhBoth(f, g func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); f() }()
	go func() { defer wg.Done(); g() }()
	wg.Wait()
}

// vhHalf: a GLWE ciphertext whose coefficients are multiples of sqrt(Q), so
// that the scaled products of coefficients are integers.
func vhHalf[T tfhe.TorusInt](name string, params tfhe.Parameters[T]) tfhe.GLWECiphertext[T] {
	ct := tfhe.NewGLWECiphertext(params)
	for i := range ct.Value {
		for j := range ct.Value[i].Coeffs {
			x := vU32(name)
			if params.LogQ() == 64 {
				ct.Value[i].Coeffs[j] = T(int64(int32(x))) << 32
			} else {
				ct.Value[i].Coeffs[j] = T(int32(int16(x))) << 16
			}
		}
	}
	return ct
}

// vhDown halves the width: the value v of a coefficient v*sqrt(Q).
func vhDown[T tfhe.TorusInt](v []T, params tfhe.Parameters[T]) []T {
	r := make([]T, len(v))
	for i := range v {
		if params.LogQ() == 64 {
			r[i] = T(int64(v[i]) >> 32)
		} else {
			r[i] = T(int32(v[i]) >> 16)
		}
	}
	return r
}

// vhTensor is the definition: products of components, divided by the scale.
func vhTensor[T tfhe.TorusInt](a, b tfhe.GLWECiphertext[T], params tfhe.Parameters[T]) [][]T {
	f := T(2 * params.MessageModulus()) // Q / scale
	k := len(a.Value)
	var x, y, out [][]T
	for i := 0; i < k; i++ {
		x = append(x, vhDown(a.Value[i].Coeffs, params))
		y = append(y, vhDown(b.Value[i].Coeffs, params))
	}
	for i := 0; i < k; i++ {
		out = append(out, vhScale(vhMul(x[i], y[i]), f))
		for j := i + 1; j < k; j++ {
			out = append(out, vhScale(vhAdd(vhMul(x[i], y[j]), vhMul(x[j], y[i])), f))
		}
	}
	return out
}

// vhPhaseTensor is the phase of a tensored ciphertext under (1, s, s x s), the
// components ordered as relinearization reads them.
func vhPhaseTensor[T tfhe.TorusInt](t [][]T, s [][]T) []T {
	r := vhCp(t[0])
	k := len(s)
	for i := range s {
		r = vhAdd(r, vhMul(t[1+i], s[i]))
	}
	ii := 1 + k
	for i := 0; i < k; i++ {
		for j := i; j < k; j++ {
			r = vhAdd(r, vhMul(t[ii], vhMul(s[i], s[j])))
			ii++
		}
	}
	return r
}

func vhBFV[T tfhe.TorusInt](p vhP) (tfhe.Parameters[T], *tfhe.Encryptor[T], *BFVKeyGenerator[T], tfhe.GadgetParameters[T]) {
	params := vhLit[T](p).Compile()
	enc := tfhe.NewEncryptor(params)
	ksk := tfhe.GadgetParametersLiteral[T]{Base: T(1) << uint(p.kbase), Level: p.klevel}.Compile()
	return params, enc, NewBFVKeyGenerator(params, enc.SecretKey), ksk
}

// Tensor: the scaled products of the components.
func vhP31Tensor[T tfhe.TorusInt](p vhP) {
	params, _, _, _ := vhBFV[T](p)
	e := NewBFVEvaluator(params, BFVEvaluationKey[T]{})
	a, b := vhHalf("a", params), vhHalf("b", params)
	a0, b0 := a.Copy(), b.Copy()
	want := vhTensor(a, b, params)
	tol := -1
	if !vSymbolic() {
		tol = vhTol[T](params.LogQ() / 2)
	}
	check := func(t tfhe.GLWECiphertext[T], msg string) {
		vAssert(len(t.Value) == len(want), msg+": size")
		for i := range want {
			vhEq(t.Value[i].Coeffs, want[i], tol, msg)
		}
		vhEqGLWE(a, a0, msg+": first input unchanged")
		vhEqGLWE(b, b0, msg+": second input unchanged")
	}
	check(e.Tensor(a, b), "Tensor")
	o := tfhe.NewGLWECiphertextCustom[T](len(want)-1, params.PolyRank())
	for i := range o.Value {
		o.Value[i].Coeffs = vhVec[T]("old", params.PolyRank())
	}
	e.SafeCopy().TensorTo(o, a, b)
	check(o, "TensorTo")
	// a second product does not depend on the first
	want = vhTensor(a, a, params)
	e.TensorTo(o, a, a)
	check(o, "TensorTo square")
	vEnd()
}

func VH_P31_tensor64() { vhP31Tensor[uint64](vhP{msg: 8, kbase: 32, klevel: 2}) }
func VH_P31_tensor32() { vhP31Tensor[uint32](vhP{msg: 4, k: 2, kbase: 16, klevel: 2}) }

func VH_P31_tensor3() { vhP31Tensor[uint32](vhP{msg: 4, k: 3, kbase: 16, klevel: 2}) }

// Relinearize: the phase of any tensored ciphertext under (s, s x s) is kept.
func vhP31Relin[T tfhe.TorusInt](p vhP) {
	params, enc, kg, ksk := vhBFV[T](p)
	s := vhGLWEKey(enc.SecretKey)
	e := NewBFVEvaluator(params, kg.SafeCopy().GenEvalKey([]int{3}, ksk))
	k := params.GLWERank()
	tr := k * (k + 3) / 2
	t := tfhe.NewGLWECiphertextCustom[T](tr, params.PolyRank())
	var tv [][]T
	for i := range t.Value {
		t.Value[i].Coeffs = vhVec[T]("t", params.PolyRank())
		tv = append(tv, vhCp(t.Value[i].Coeffs))
	}
	want := vhPhaseTensor(tv, s)
	tol := vhTol[T](p.kbase + 8)
	check := func(o tfhe.GLWECiphertext[T], msg string) {
		vhEq(vhPhaseGLWE(o, s), want, tol, msg)
		for i := range tv {
			vhEq(t.Value[i].Coeffs, tv[i], -1, msg+": input unchanged")
		}
	}
	check(e.Relinearize(t), "Relinearize")
	o := vhGLWE("old", params)
	e.SafeCopy().RelinearizeTo(o, t)
	check(o, "RelinearizeTo")
	vEnd()
}

func VH_P31_relin64() { vhP31Relin[uint64](vhP{kbase: 32, klevel: 2}) }
func VH_P31_relin32() { vhP31Relin[uint32](vhP{k: 2, kbase: 8, klevel: 4}) }

// Rank three is the first where the orders of the key products differ.
func VH_P31_relin3() { vhP31Relin[uint32](vhP{k: 3, kbase: 16, klevel: 2}) }

// Mul: the phase is that of the tensor product.
func vhP31Mul[T tfhe.TorusInt](p vhP) {
	params, enc, kg, ksk := vhBFV[T](p)
	s := vhGLWEKey(enc.SecretKey)
	e := NewBFVEvaluator(params, BFVEvaluationKey[T]{RelinKey: kg.GenRelinKey(ksk)})
	a, b := vhHalf("a", params), vhHalf("b", params)
	a0, b0 := a.Copy(), b.Copy()
	want := vhPhaseTensor(vhTensor(a, b, params), s)
	tol := -1
	if !vSymbolic() {
		tol = vhTol[T](params.LogQ()/2+6) + 8
	}
	check := func(o tfhe.GLWECiphertext[T], msg string) {
		vhEq(vhPhaseGLWE(o, s), want, tol, msg)
	}
	check(e.Mul(a, b), "Mul")
	vhEqGLWE(a, a0, "Mul: first input unchanged")
	vhEqGLWE(b, b0, "Mul: second input unchanged")
	o := vhGLWE("old", params)
	e.SafeCopy().MulTo(o, b, a)
	check(o, "MulTo, operands exchanged")
	e.MulTo(a, a, b)
	check(a, "MulTo in place on the first input")
	e.MulTo(b, a0, b)
	check(b, "MulTo in place on the second input")
	vEnd()
}

func VH_P31_mul64() { vhP31Mul[uint64](vhP{msg: 8, kbase: 32, klevel: 2}) }

//verif:tier=thorough timeout=300
func VH_P31_mul32() { vhP31Mul[uint32](vhP{msg: 2, k: 2, kbase: 16, klevel: 2}) }

// vhPerm is the automorphism X -> X^d.
func vhPerm[T tfhe.TorusInt](a []T, d int) []T {
	n := len(a)
	r := make([]T, n)
	for i := range a {
		j := ((i*d)%(2*n) + 2*n) % (2 * n)
		if j < n {
			r[j] += a[i]
		} else {
			r[j-n] -= a[i]
		}
	}
	return r
}

// Permute: the phase is permuted, for every ciphertext and key.
func vhP31Perm[T tfhe.TorusInt](p vhP, ds []int) {
	params, enc, kg, ksk := vhBFV[T](p)
	s := vhGLWEKey(enc.SecretKey)
	gk := kg.GenGaloisKeys(ds[:1], ksk)
	kg.SafeCopy().GenGaloisKeysTo(gk, ds[1:], ksk)
	vAssert(len(gk) == len(ds), "one key per automorphism")
	e := NewBFVEvaluator(params, BFVEvaluationKey[T]{GaloisKeys: gk})
	ct := vhGLWE("ct", params)
	ct0 := ct.Copy()
	ph := vhPhaseGLWE(ct, s)
	tol := vhTol[T](p.kbase + 8)
	for i, d := range ds {
		want := vhPerm(ph, d)
		vhEq(vhPhaseGLWE(e.Permute(ct, d), s), want, tol, "Permute")
		vhEqGLWE(ct, ct0, "Permute: input unchanged")
		o := vhGLWE("old", params)
		if i == 0 {
			o = ct.Copy()
			e.PermuteTo(o, o, d)
		} else {
			e.SafeCopy().PermuteTo(o, ct, d)
		}
		vhEq(vhPhaseGLWE(o, s), want, tol, "PermuteTo")
	}
	vEnd()
}

func VH_P31_perm64() { vhP31Perm[uint64](vhP{k: 2, kbase: 32, klevel: 2}, []int{5, -3}) }
func VH_P31_perm32() { vhP31Perm[uint32](vhP{kbase: 8, klevel: 4}, []int{3, 17, 31}) }

// Pack: any LWE ciphertext becomes a GLWE ciphertext of its phase as constant.
func vhP31Pack[T tfhe.TorusInt](p vhP) {
	params, enc, kg, ksk := vhBFV[T](p)
	s := vhGLWEKey(enc.SecretKey)
	N := params.PolyRank()
	gk := kg.GenGaloisKeysForPack(ksk)
	for i := 0; i < params.LogPolyRank(); i++ {
		_, ok := gk[1<<(i+1)+1]
		vAssert(ok, "keys of every trace step")
	}
	e := NewBFVEvaluator(params, BFVEvaluationKey[T]{GaloisKeys: gk})
	ct := tfhe.LWECiphertext[T]{Value: vhVec[T]("ct", params.GLWERank()*N+1)}
	ct0 := ct.Copy()
	want := make([]T, N)
	want[0] = vhPhaseLWE(ct, enc.SecretKey.LWELargeKey.Value)
	tol := num.Log2(params.GLWERank()*N*params.LogPolyRank()) + 2
	if !vSymbolic() {
		tol = vhMax(tol, vhTol[T](p.kbase+10))
	}
	vhEq(vhPhaseGLWE(e.Pack(ct), s), want, tol, "Pack")
	vhEq(ct.Value, ct0.Value, -1, "Pack: input unchanged")
	o := vhGLWE("old", params)
	gk = map[int]tfhe.GLWEKeySwitchKey[T]{}
	kg.SafeCopy().GenGaloisKeysForPackTo(gk, ksk)
	e = NewBFVEvaluator(params, BFVEvaluationKey[T]{GaloisKeys: gk}).SafeCopy()
	e.PackTo(o, ct)
	vhEq(vhPhaseGLWE(o, s), want, tol, "PackTo")
	vEnd()
}

//verif:absdiv=1
func VH_P31_pack32() { vhP31Pack[uint32](vhP{kbase: 16, klevel: 2}) }

//verif:absdiv=1
func VH_P31_pack64() { vhP31Pack[uint64](vhP{k: 2, kbase: 32, klevel: 2}) }

// The rounding the contract of the division stands for, for every value.
func VH_P31_divround() {
	x, y := vU32("x"), vU64("y")
	for _, k := range []int{1, 4, 5, 6} {
		q := num.DivRoundBits(x, k)
		vAssert(q<<uint(k)-x+1<<uint(k-1) <= 1<<uint(k), "nearest, 32 bits")
		r := num.DivRoundBits(y, k)
		vAssert(r<<uint(k)-y+1<<uint(k-1) <= 1<<uint(k), "nearest, 64 bits")
	}
	vEnd()
}

// A safe copy may work while the original does.
func VH_P31_safecopy() {
	params, enc, kg, ksk := vhBFV[uint64](vhP{msg: 8, kbase: 32, klevel: 2})
	s := vhGLWEKey(enc.SecretKey)
	e := NewBFVEvaluator(params, kg.GenEvalKey([]int{5}, ksk))
	f := e.SafeCopy()
	kg2 := kg.SafeCopy()
	a := vhGLWE("a", params)
	pa := vhPerm(vhPhaseGLWE(a, s), 5)
	b := vhHalf("b", params)
	pb := vhPhaseTensor(vhTensor(b, b, params), s)
	o := [3]tfhe.GLWECiphertext[uint64]{vhGLWE("old", params), vhGLWE("old", params), vhGLWE("old", params)}
	vSchedules(false)
	vhBoth(func() { e.MulTo(o[0], b, b) }, func() { f.PermuteTo(o[1], a, 5) })
	vhBoth(func() { e.PermuteTo(o[2], a, 5) }, func() { f.MulTo(o[1], b, b) })
	vhBoth(func() { kg.GenRelinKey(ksk) }, func() { kg2.GenGaloisKeys([]int{3}, ksk) })
	vNoRace()
	tol := vhTol[uint64](45)
	vhEq(vhPhaseGLWE(o[0], s), pb, tol, "original")
	vhEq(vhPhaseGLWE(o[1], s), pb, tol, "copy")
	vhEq(vhPhaseGLWE(o[2], s), pa, tol, "original")
	vEnd()
}
