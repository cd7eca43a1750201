//go:build verifharness

package mktfhe

import "github.com/sp301415/tfhe-go/tfhe"

// vhSparseKeys are encryptors whose ring keys have a bit at the LWE positions
// and at one more position; every such bit is arbitrary.
func vhSparseKeys[T tfhe.TorusInt](params Parameters[T]) ([]*Encryptor[T], []tfhe.SecretKey[T]) {
	var encs []*Encryptor[T]
	var sks []tfhe.SecretKey[T]
	n := params.SubParams().LWEDimension()
	for i := 0; i < params.PartyCount(); i++ {
		se := tfhe.NewEncryptor(params.SubParams())
		sk := se.SecretKey
		for j := n; j < params.PolyRank(); j++ {
			if j != params.PolyRank()-1-i {
				sk.LWELargeKey.Value[j] = 0
			}
		}
		se.FwdFFTGLWESecretKeyTo(sk.FFTGLWEKey, sk.GLWEKey)
		encs = append(encs, NewEncryptorWithKey(params, i, []byte("crs"), sk))
		sks = append(sks, sk)
	}
	return encs, sks
}

// vhP29Eval: evaluators holding the keys of the given parties, obtained in
// every way.
func vhP29Eval[T tfhe.TorusInt](params Parameters[T], encs []*Encryptor[T], which []int, how int) *Evaluator[T] {
	m := map[int]EvaluationKey[T]{}
	for k, i := range which {
		if how != 1 || k > 0 {
			if how == 0 {
				m[i] = encs[i].GenEvalKeyParallel()
			} else {
				m[i] = encs[i].GenEvalKey()
			}
		}
	}
	e := NewEvaluator(params, m)
	switch how {
	case 1: // the first key is added later
		e.AddEvaluationKey(which[0], encs[which[0]].GenEvalKey())
	case 2:
		cp := e.SafeCopy()
		// the original may change afterwards
		for i := 0; i < params.PartyCount(); i++ {
			e.PartyBitMap[i] = false
			e.SubEvaluators[i] = nil
			e.EvalKey[i] = EvaluationKey[T]{}
		}
		return cp
	}
	return e
}

// vhP29Sum is the sum over the keys of the given parties (at most one bit per
// block): x plus the selected elements of step, weighted.
func vhP29Sum[T tfhe.TorusInt](params Parameters[T], sks []tfhe.SecretKey[T], which []int, nb, x int, step []int, f func(x int, ind T)) {
	n := params.SubParams().LWEDimension()
	var rec func(w, i, x int, ind T)
	rec = func(w, i, x int, ind T) {
		if i == n {
			w, i = w+1, 0
		}
		if w == len(which) {
			f(x, ind)
			return
		}
		p := which[w]
		none := T(1)
		for k := i; k < i+nb; k++ {
			b := sks[p].LWEKey.Value[k]
			none -= b
			rec(w, i+nb, x+step[p*n+k], ind*b)
		}
		rec(w, i+nb, x, ind*none)
	}
	rec(0, 0, x, 1)
}

// Blind rotation: the table is rotated by minus the phase, whatever the table,
// the keys and the parts of absent parties.
func vhP29BR[T tfhe.TorusInt](p vhP, which []int, how int) {
	params := vhParams[T](p)
	encs, sks := vhSparseKeys(params)
	ks := vhKeys(sks)
	e := vhP29Eval(params, encs, which, how)
	P, N, n := params.PartyCount(), params.PolyRank(), params.SubParams().LWEDimension()
	nb := p.bs
	if nb == 0 {
		nb = 1
	}
	unit := T(1) << (params.SubParams().LogQ() - 5) // 2N slots
	ct := LWECiphertext[T]{Value: make([]T, P*n+1)}
	x := make([]int, P*n+1)
	for i := range x {
		x[i] = (5*i + 3 + how) % (2 * N)
		ct.Value[i] = T(x[i])*unit + unit/3
	}
	lut := tfhe.NewLUT(params.SubParams())
	for i := range lut.Value[0].Coeffs {
		lut.Value[0].Coeffs[i] = vT[T]("lut")
	}
	l0, c0 := vhCp(lut.Value[0].Coeffs), ct.Copy()
	want := make([]T, N)
	vhP29Sum(params, sks, which, nb, x[0], x[1:], func(x int, ind T) {
		want = vhAdd(want, vhScale(vhMono(l0, -x), ind))
	})
	tol := vhTol[T](38)
	check := func(o GLWECiphertext[T], msg string) {
		vhEq(vhPhaseGLWE(o, ks), want, tol, msg)
		vhEq(ct.Value, c0.Value, -1, msg+": input unchanged")
		vhEq(lut.Value[0].Coeffs, l0, -1, msg+": table unchanged")
	}
	check(e.BlindRotate(ct, lut), "BlindRotate")
	o := vhGLWE[T]("old", P, N)
	e.BlindRotateTo(o, ct, lut)
	check(o, "BlindRotateTo")
	check(e.BlindRotateParallel(ct, lut), "BlindRotateParallel")
	o = vhGLWE[T]("old", P, N)
	e.BlindRotateParallelTo(o, ct, lut)
	check(o, "BlindRotateParallelTo")
	vEnd()
}

func VH_P29_br32() { vhP29BR[uint32](vhP{n: 2, bs: 2}, []int{0, 1}, vChoose("how", 3)) }
func VH_P29_brsome() {
	vhP29BR[uint32](vhP{parties: 3, n: 2, bs: 2, abase: 8, alevel: 4}, []int{2}, vChoose("how", 3))
}
func VH_P29_br64() {
	vhP29BR[uint64](vhP{parties: 3, n: 2, bs: 2}, []int{0, 2}, 0)
}
func VH_P29_brn() { vhP29BR[uint32](vhP{parties: 2, n: 2}, []int{1}, 0) }

//verif:tier=thorough
func VH_P29_brthree() { vhP29BR[uint32](vhP{parties: 3, n: 1}, []int{0, 1, 2}, 0) }

//verif:tier=thorough
func VH_P29_brn2() { vhP29BR[uint32](vhP{parties: 2, n: 2}, []int{0, 1}, 2) }

// Key switching of an arbitrary ciphertext from the long keys to the LWE keys.
func vhP29KS[T tfhe.TorusInt](p vhP, which []int, trunc int) {
	params := vhParams[T](p)
	encs, sks := vhEncs(params)
	e := vhP29Eval(params, encs, which, 0)
	P, N, n := params.PartyCount(), params.PolyRank(), params.SubParams().LWEDimension()
	ct := LWECiphertext[T]{Value: vhVec[T]("ct", P*N+1)}
	c0 := ct.Copy()
	want := ct.Value[0]
	var short []T
	in := make([]bool, P)
	for _, i := range which {
		in[i] = true
		want += vhDot(ct.Value[1+i*N:1+(i+1)*N], sks[i].LWELargeKey.Value)
	}
	for i := range sks {
		short = append(short, sks[i].LWEKey.Value...)
	}
	check := func(o LWECiphertext[T], msg string) {
		vAssert(len(o.Value) == P*n+1, msg+": length")
		vEqT(vhPhaseLWE(o, short), want, trunc, msg)
		for i := range in {
			if !in[i] {
				vhZero(o.Value[1+i*n:1+(i+1)*n], msg+": parts of absent parties are zero")
			}
		}
		vhEq(ct.Value, c0.Value, -1, msg+": input unchanged")
	}
	check(e.DefaultKeySwitch(ct), "DefaultKeySwitch")
	o := LWECiphertext[T]{Value: vhVec[T]("old", P*n+1)}
	e.DefaultKeySwitchTo(o, ct)
	check(o, "DefaultKeySwitchTo")
	check(e.SafeCopy().DefaultKeySwitch(ct), "SafeCopy DefaultKeySwitch")
	vEnd()
}

func VH_P29_ks32()   { vhP29KS[uint32](vhP{}, []int{0, 1}, -1) }
func VH_P29_ks64()   { vhP29KS[uint64](vhP{parties: 3, n: 3, kbase: 16, klevel: 4}, []int{0, 2}, -1) }
func VH_P29_kstrun() { vhP29KS[uint32](vhP{n: 14, kbase: 8, klevel: 3}, []int{1}, 11) }

// Whole bootstraps: every function table and key, ciphertexts with messages
// with and without padding bit and errors up to the edge of a slot.
func vhP29Boot[T tfhe.TorusInt](p vhP, which []int, how, form int) {
	params := vhParams[T](p)
	encs, sks := vhSparseKeys(params)
	e := vhP29Eval(params, encs, which, how)
	s := vhDef(params, sks)
	P, N, n := params.PartyCount(), params.PolyRank(), params.SubParams().LWEDimension()
	d := len(s) / P
	nb := p.bs
	if nb == 0 {
		nb = 1
	}
	M := int(params.MessageModulus())
	sc := params.Scale()
	tab := make([]int, M)
	for i := range tab {
		tab[i] = vInt("f")
		vAssume(tab[i] >= 0 && tab[i] < M)
	}
	f := func(x int) int { return tab[x] }
	lut := e.SubEvaluators[which[0]].GenLUT(f)
	unit := T(1) << (params.SubParams().LogQ() - 1) / T(N)
	edge := sc/2 - unit*T(len(which)*n+2)/2 - 1
	errs := []T{edge, -edge, unit / 3}
	tol := vhTol[T](38)
	ct := LWECiphertext[T]{Value: make([]T, len(s)+1)}
	cs := make([]int, P*n)
	m := (form*5 + 1 + how) % (2 * M)
	ct.Value[0] = T(m)*sc + errs[form%3]
	for i := range cs {
		cs[i] = (form + i*(form+2) + 1) % (2 * M)
		ct.Value[1+i/n*d+i%n] = T(cs[i])*sc + unit/5
	}
	c0 := ct.Copy()
	var want T
	vhP29Sum(params, sks, which, nb, m, cs, func(x int, ind T) {
		x %= 2 * M
		if x < M {
			want += ind * T(tab[x]) * sc
		} else {
			want -= ind * T(tab[x-M]) * sc
		}
	})
	check := func(o LWECiphertext[T], msg string) {
		vAssert(len(o.Value) == len(s)+1, msg+": length")
		vEqT(vhPhaseLWE(o, s), want, tol, msg)
	}
	o := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
	switch form {
	case 0:
		check(e.BootstrapFunc(ct, f), "BootstrapFunc")
		e.BootstrapFuncTo(o, ct, f)
		check(o, "BootstrapFuncTo")
	case 1:
		check(e.BootstrapLUT(ct, lut), "BootstrapLUT")
		e.BootstrapLUTTo(o, ct, lut)
		check(o, "BootstrapLUTTo")
	case 2:
		check(e.BootstrapFuncParallel(ct, f), "BootstrapFuncParallel")
		e.BootstrapFuncParallelTo(o, ct, f)
		check(o, "BootstrapFuncParallelTo")
	case 3:
		check(e.BootstrapLUTParallel(ct, lut), "BootstrapLUTParallel")
		e.BootstrapLUTParallelTo(o, ct, lut)
		check(o, "BootstrapLUTParallelTo")
	}
	vhEq(ct.Value, c0.Value, -1, "input unchanged")
	switch form % 2 {
	case 0:
		e.BootstrapLUTTo(ct, ct, lut)
		check(ct, "BootstrapLUTTo in place")
	case 1:
		e.BootstrapLUTParallelTo(ct, ct, lut)
		check(ct, "BootstrapLUTParallelTo in place")
	}
	vEnd()
}

func VH_P29_ksbr() {
	vhP29Boot[uint32](vhP{n: 2, bs: 2, msg: 2, order: tfhe.OrderKeySwitchBlindRotate}, []int{0, 1}, 0, vChoose("form", 4))
}
func VH_P29_brks() {
	vhP29Boot[uint32](vhP{n: 2, bs: 2, msg: 2, order: tfhe.OrderBlindRotateKeySwitch}, []int{0, 1}, 1, vChoose("form", 4))
}
func VH_P29_ksbrsome() {
	vhP29Boot[uint32](vhP{parties: 3, n: 2, bs: 2, msg: 2, order: tfhe.OrderKeySwitchBlindRotate}, []int{1}, 2, vChoose("form", 4))
}
func VH_P29_brkssome() {
	vhP29Boot[uint64](vhP{parties: 3, n: 2, msg: 2, order: tfhe.OrderBlindRotateKeySwitch}, []int{2}, 0, vChoose("form", 4))
}
