//go:build verifharness

package mktfhe

import "github.com/sp301415/tfhe-go/tfhe"

// vhProdEval is an evaluator that can multiply: it has the common reference
// string public keys and relinearization keys of the given parties.
func vhProdEval[T tfhe.TorusInt](params Parameters[T], encs []*Encryptor[T], which []int) *Evaluator[T] {
	m := map[int]EvaluationKey[T]{}
	for _, i := range which {
		m[i] = EvaluationKey[T]{CRSPublicKey: encs[i].GenCRSPublicKey(), RelinKey: encs[i].GenRelinKey()}
	}
	return NewEvaluator(params, m)
}

// vhGLWEOf is an arbitrary ciphertext under the keys of the given parties.
func vhGLWEOf[T tfhe.TorusInt](name string, P, N int, which []int) GLWECiphertext[T] {
	ct := vhGLWE[T](name, P, N)
	for i := 0; i < P; i++ {
		in := false
		for _, j := range which {
			in = in || i == j
		}
		if !in {
			ct.Value[i+1].Clear()
		}
	}
	return ct
}

func vhP28Bit[T tfhe.TorusInt](N, pos int) []T {
	b := make([]T, N)
	b[pos] = vBit[T]("b")
	return b
}

// vhP28 runs a product in every form; prod(e, ct) is the expected phase.
func vhP28[T tfhe.TorusInt](params Parameters[T], ks [][]T, which []int, b []T, name string,
	f func(ct GLWECiphertext[T]) GLWECiphertext[T],
	to, add, sub func(ct, out GLWECiphertext[T])) {
	P, N := params.PartyCount(), params.PolyRank()
	tol := vhTol[T](20)
	if params.AccumulatorParameters().LogBase() > 20 || params.RelinKeyParameters().LogBase() > 20 {
		tol = vhTol[T](38)
	}
	ct := vhGLWEOf[T]("ct", P, N, which)
	o := vhGLWE[T]("o", P, N)
	ct0 := ct.Copy()
	want := vhMul(vhPhaseGLWE(ct, ks), b)
	po := vhPhaseGLWE(o, ks)
	vhEq(vhPhaseGLWE(f(ct), ks), want, tol, name)
	c := o.Copy()
	to(ct, c)
	vhEq(vhPhaseGLWE(c, ks), want, tol, name+"To")
	vhEqGLWE(ct, ct0, -1, name+" leaves its input unchanged")
	c = o.Copy()
	add(ct, c)
	vhEq(vhPhaseGLWE(c, ks), vhAdd(po, want), tol, name+" add")
	c = o.Copy()
	sub(ct, c)
	vhEq(vhPhaseGLWE(c, ks), vhSub(po, want), tol, name+" sub")
	c = ct.Copy()
	to(c, c)
	vhEq(vhPhaseGLWE(c, ks), want, tol, name+"To in place")
}

// full: every bit of the ring keys is arbitrary, otherwise three of them.
func vhP28Hybrid[T tfhe.TorusInt](p vhP, which []int, idx int, full bool) {
	params := vhParams[T](p)
	encs, sks := vhSparseKeys(params)
	if full {
		encs, sks = vhEncs(params)
	}
	ks := vhKeys(sks)
	e := vhProdEval(params, encs, which)
	b := vhP28Bit[T](params.PolyRank(), idx*5)
	u := encs[idx].FFTUniEncryptPoly(vhPl(b), params.RelinKeyParameters())
	vhP28(params, ks, which, b, "HybridProdGLWE",
		func(ct GLWECiphertext[T]) GLWECiphertext[T] { return e.HybridProdGLWE(idx, u, ct) },
		func(ct, o GLWECiphertext[T]) { e.HybridProdGLWETo(idx, u, ct, o) },
		func(ct, o GLWECiphertext[T]) { e.HybridProdAddGLWETo(idx, u, ct, o) },
		func(ct, o GLWECiphertext[T]) { e.HybridProdSubGLWETo(idx, u, ct, o) })
	vEnd()
}

func VH_P28_hyb32() { vhP28Hybrid[uint32](vhP{}, []int{0, 1}, vChoose("idx", 2), false) }
func VH_P28_hyb64() {
	vhP28Hybrid[uint64](vhP{parties: 3, rbase: 16, rlevel: 4}, []int{0, 2}, 2, false)
}

//verif:tier=thorough
func VH_P28_hybfull() { vhP28Hybrid[uint32](vhP{rbase: 8, rlevel: 4}, []int{0, 1}, 1, true) }

func vhP28Ext[T tfhe.TorusInt](p vhP, which []int, idx int, full bool) {
	params := vhParams[T](p)
	encs, sks := vhSparseKeys(params)
	if full {
		encs, sks = vhEncs(params)
	}
	ks := vhKeys(sks)
	e := vhProdEval(params, encs, which)
	b := vhP28Bit[T](params.PolyRank(), idx*5)
	g := encs[idx].SubEncryptor.EncryptFFTGLevPoly(vhPl(b), params.AccumulatorParameters())
	vhP28(params, ks, which, b, "ExternalProdGLWE",
		func(ct GLWECiphertext[T]) GLWECiphertext[T] { return e.ExternalProdGLWE(idx, g, ct) },
		func(ct, o GLWECiphertext[T]) { e.ExternalProdGLWETo(idx, g, ct, o) },
		func(ct, o GLWECiphertext[T]) { e.ExternalProdAddGLWETo(idx, g, ct, o) },
		func(ct, o GLWECiphertext[T]) { e.ExternalProdSubGLWETo(idx, g, ct, o) })
	vEnd()
}

func VH_P28_ext32() {
	vhP28Ext[uint32](vhP{}, []int{0, 1}, vChoose("idx", 2), false)
}
func VH_P28_ext64() { vhP28Ext[uint64](vhP{parties: 3}, []int{0, 2}, 2, false) }

//verif:tier=thorough
func VH_P28_extfull() { vhP28Ext[uint32](vhP{}, []int{0, 1}, 1, true) }
