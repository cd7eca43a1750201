//go:build verifharness

package mktfhe

import (
	"sync"

	"github.com/sp301415/tfhe-go/tfhe"
)

// vhBoth runs f and g in two goroutines.
func vhBoth(f, g func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); f() }()
	go func() { defer wg.Done(); g() }()
	wg.Wait()
}

// Parallel blind rotation under every interleaving of the parties' workers.
func vhP36BR[T tfhe.TorusInt](p vhP, which []int) {
	params := vhParams[T](p)
	encs, sks := vhSparseKeys(params)
	ks := vhKeys(sks)
	e := vhP29Eval(params, encs, which, 2)
	P, N, n := params.PartyCount(), params.PolyRank(), params.SubParams().LWEDimension()
	nb := p.bs
	if nb == 0 {
		nb = 1
	}
	unit := T(1) << (params.SubParams().LogQ() - 5)
	ct := LWECiphertext[T]{Value: make([]T, P*n+1)}
	x := make([]int, P*n+1)
	for i := range x {
		x[i] = (7*i + 2) % (2 * N)
		ct.Value[i] = T(x[i]) * unit
	}
	lut := tfhe.NewLUT(params.SubParams())
	for i := range lut.Value[0].Coeffs {
		lut.Value[0].Coeffs[i] = vT[T]("lut")
	}
	l0 := vhCp(lut.Value[0].Coeffs)
	vSchedules(true)
	o := e.BlindRotateParallel(ct, lut)
	vNoRace()
	want := make([]T, N)
	vhP29Sum(params, sks, which, nb, x[0], x[1:], func(x int, ind T) {
		want = vhAdd(want, vhScale(vhMono(l0, -x), ind))
	})
	vhEq(vhPhaseGLWE(o, ks), want, vhTol[T](38), "BlindRotateParallel")
	vEnd()
}

func VH_P36_br2() { vhP36BR[uint32](vhP{n: 1}, []int{0, 1}) }
func VH_P36_br64() {
	vhP36BR[uint64](vhP{parties: 3, n: 1}, []int{0, 2})
}

//verif:tier=thorough timeout=400
func VH_P36_br3() { vhP36BR[uint32](vhP{parties: 3, n: 1}, []int{0, 1, 2}) }

// An evaluator and its safe copy working at the same time.
func vhP36Eval[T tfhe.TorusInt](p vhP, which []int) {
	params := vhParams[T](p)
	encs, sks := vhSparseKeys(params)
	e := vhP29Eval(params, encs, which, 1)
	P, N, n := params.PartyCount(), params.PolyRank(), params.SubParams().LWEDimension()
	s := vhDef(params, sks)
	d := len(s) / P
	ct := LWECiphertext[T]{Value: make([]T, len(s)+1)}
	ct.Value[0] = T(1) << uint(params.SubParams().LogQ()-2)
	for i := 0; i < P*n; i++ {
		ct.Value[1+i/n*d+i%n] = T(i*3+1) << uint(params.SubParams().LogQ()-4)
	}
	f := func(x int) int { return x ^ 1 }
	lut := e.SubEvaluators[which[0]].GenLUT(f)
	g, h := vhGLWEOf[T]("g", P, N, which), vhGLWE[T]("h", P, N)
	idx := which[0]
	m := vBit[T]("m")
	b := make([]T, N)
	b[0] = m
	uni := encs[idx].FFTUniEncryptPoly(vhPl(b), params.RelinKeyParameters())
	gl := encs[idx].SubEncryptor.EncryptFFTGLevPoly(vhPl(b), params.AccumulatorParameters())
	large := LWECiphertext[T]{Value: vhVec[T]("l", P*N+1)}
	run := func(e *Evaluator[T]) []LWECiphertext[T] {
		var r []LWECiphertext[T]
		r = append(r, e.BootstrapLUT(ct, lut), e.BootstrapFunc(ct, f), e.BootstrapFuncParallel(ct, f))
		add := func(c GLWECiphertext[T]) {
			for i := range c.Value {
				r = append(r, LWECiphertext[T]{Value: c.Value[i].Coeffs})
			}
		}
		add(e.HybridProdGLWE(idx, uni, g))
		o := h.Copy()
		e.HybridProdAddGLWETo(idx, uni, g, o)
		add(o)
		add(e.ExternalProdGLWE(idx, gl, g))
		o = h.Copy()
		e.ExternalProdSubGLWETo(idx, gl, g, o)
		add(o)
		add(e.AddGLWE(g, h))
		o = h.Copy()
		e.PermuteAddGLWETo(o, g, 3)
		add(o)
		add(e.PolyMulGLWE(g, h.Value[0]))
		r = append(r, e.DefaultKeySwitch(large))
		return r
	}
	e2, e3 := e.SafeCopy(), e.SafeCopy()
	vSchedules(false)
	var x, y []LWECiphertext[T]
	vhBoth(func() { x = run(e) }, func() { y = run(e2) })
	vNoRace()
	z := run(e3)
	for i := range z {
		vhEq(x[i].Value, z[i].Value, vhTol[T](38), "result of the original while a copy works")
		vhEq(y[i].Value, z[i].Value, vhTol[T](38), "result of the copy while the original works")
	}
	vEnd()
}

func VH_P36_eval32() {
	vhP36Eval[uint32](vhP{n: 2, bs: 2, msg: 2, order: tfhe.OrderBlindRotateKeySwitch}, []int{0, 1})
}
func VH_P36_eval64() {
	vhP36Eval[uint64](vhP{parties: 3, n: 2, bs: 2, msg: 2, order: tfhe.OrderKeySwitchBlindRotate}, []int{2})
}

// Gates on a binary evaluator and its safe copy, sequential and parallel.
func VH_P36_gates() {
	type T = uint32
	params := vhParams[T](vhP{n: 2, bs: 2, order: tfhe.OrderKeySwitchBlindRotate})
	encs, sks := vhSparseKeys(params)
	m := map[int]EvaluationKey[T]{}
	for i, e := range encs {
		m[i] = e.GenEvalKeyParallel()
	}
	e := NewBinaryEvaluator(params, m)
	s := vhDef(params, sks)
	a, b := LWECiphertext[T]{Value: make([]T, len(s)+1)}, LWECiphertext[T]{Value: make([]T, len(s)+1)}
	a.Value[0], b.Value[0] = 1<<29, 1<<29
	a.Value[1], b.Value[1+16] = 3<<30, 3<<30
	a0, b0 := a.Copy(), b.Copy()
	run := func(e *BinaryEvaluator[T]) []LWECiphertext[T] {
		return []LWECiphertext[T]{e.AND(a, b), e.XOR(a, b), e.NOT(a), e.NORParallel(b, a)}
	}
	e2, e3 := e.SafeCopy(), e.SafeCopy()
	vSchedules(false)
	var x, y []LWECiphertext[T]
	vhBoth(func() { x = run(e) }, func() { y = run(e2) })
	vNoRace()
	z := run(e3)
	for i := range z {
		vhEq(x[i].Value, z[i].Value, vhTol[T](38), "gate of the original while a copy works")
		vhEq(y[i].Value, z[i].Value, vhTol[T](38), "gate of the copy while the original works")
	}
	vhEq(a.Value, a0.Value, -1, "input unchanged")
	vhEq(b.Value, b0.Value, -1, "input unchanged")
	vEnd()
}

// Encryptors, decryptors and their safe copies; parallel key generation.
func vhP36Enc[T tfhe.TorusInt](p vhP) {
	params := vhParams[T](p)
	encs, sks := vhEncs(params)
	s, ks := vhDef(params, sks), vhKeys(sks)
	P, N := params.PartyCount(), params.PolyRank()
	tol := vhTol[T](10)
	pt := tfhe.GLWEPlaintext[T]{Value: vhPoly[T]("m", N)}
	lp := tfhe.LWEPlaintext[T]{Value: vT[T]("lp")}
	e := encs[1]
	bin := NewBinaryEncryptorWithKey(params, 1, []byte("crs"), sks[1])
	g := vhG[T](8, 2)
	type res struct {
		l   []LWECiphertext[T]
		g   []GLWECiphertext[T]
		u   FFTUniEncryption[T]
		un  UniEncryption[T]
		dec []int
	}
	type enc interface {
		EncryptLWEPlaintext(tfhe.LWEPlaintext[T]) LWECiphertext[T]
		EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]) GLWECiphertext[T]
		EncryptFFTGLWEPlaintext(tfhe.GLWEPlaintext[T]) FFTGLWECiphertext[T]
		InvGLWECiphertext(FFTGLWECiphertext[T]) GLWECiphertext[T]
	}
	type benc interface {
		EncryptLWEBool(bool) LWECiphertext[T]
	}
	small := make([]T, N)
	for i := range small {
		small[i] = T(vByte("small")) & 3
	}
	run := func(e enc, b benc) (r res) {
		r.l = append(r.l, e.EncryptLWEPlaintext(lp), b.EncryptLWEBool(true))
		r.g = append(r.g, e.EncryptGLWEPlaintext(pt), e.InvGLWECiphertext(e.EncryptFFTGLWEPlaintext(pt)))
		return
	}
	chk := func(r res, what string) {
		vEqT(vhPhaseLWE(r.l[0], s), lp.Value, tol, what+": EncryptLWEPlaintext")
		vEqT(vhPhaseLWE(r.l[1], s), T(1)<<uint(params.SubParams().LogQ()-3), tol, what+": EncryptLWEBool")
		for i := range r.g {
			vhEq(vhPhaseGLWE(r.g[i], ks), pt.Value.Coeffs, tol, what+": GLWE encryption")
		}
	}
	msgs := make([]int, N)
	for i := range msgs {
		msgs[i] = i % 3
	}
	var a, b res
	e2, b2 := e.SafeCopy(), bin.SafeCopy()
	vSchedules(false)
	uni := func(e *Encryptor[T], r *res) {
		r.u, r.un = e.FFTUniEncryptPoly(vhPl(small), g), e.UniEncryptPoly(vhPl(small), g)
		r.dec = e.UniDecrypt(e.UniEncrypt(msgs, g))
	}
	vhBoth(func() { a = run(e, bin); uni(e, &a) }, func() { b = run(e2, b2); uni(e2, &b) })
	vNoRace()
	chk(a, "original")
	chk(b, "copy")
	for i := range msgs {
		vAssert(a.dec[i] == msgs[i] && b.dec[i] == msgs[i], "UniDecrypt")
	}
	for _, r := range []res{a, b} {
		x, y := e.UniDecryptPoly(r.un), e.FFTUniDecryptPoly(r.u)
		for i := range small {
			vEqT((x.Coeffs[i]-small[i])&(g.Base()-1), 0, -1, "UniEncryptPoly")
			vEqT((y.Coeffs[i]-small[i])&(g.Base()-1), 0, -1, "FFTUniEncryptPoly")
		}
	}
	if params.SubParams().IsPublicKeyEncryptable() {
		pub := NewPublicEncryptor(params, 1, e.GenPublicKey())
		bp := bin.PublicEncryptor()
		p2, bp2 := pub.SafeCopy(), bp.SafeCopy()
		vhBoth(func() { a = run(pub, bp) }, func() { b = run(p2, bp2) })
		vNoRace()
		chk(a, "public original")
		chk(b, "public copy")
	}
	m := map[int]tfhe.SecretKey[T]{}
	for i := range sks {
		m[i] = sks[i]
	}
	d := NewDecryptor(params, m)
	d2 := d.SafeCopy()
	bd := NewBinaryDecryptor(params, m)
	bd2 := bd.SafeCopy()
	gl := vhGLWE[T]("g", P, N)
	l := LWECiphertext[T]{Value: vhVec[T]("l", len(s)+1)}
	fg := e.FwdFFTGLWECiphertext(gl)
	bl := LWECiphertext[T]{Value: make([]T, len(s)+1)}
	bl.Value[0] = T(1) << uint(params.SubParams().LogQ()-3)
	var ph, fp [2]tfhe.GLWEPlaintext[T]
	var lph [2]tfhe.LWEPlaintext[T]
	var bits [2]bool
	dec := func(i int, d *Decryptor[T], bd *BinaryDecryptor[T]) {
		ph[i], lph[i], fp[i] = d.DecryptGLWEPhase(gl), d.DecryptLWEPlaintext(l), d.DecryptFFTGLWEPhase(fg)
		bits[i] = bd.DecryptLWEBool(bl)
	}
	vhBoth(func() { dec(0, d, bd) }, func() { dec(1, d2, bd2) })
	vNoRace()
	for i := range ph {
		vhEq(ph[i].Value.Coeffs, vhPhaseGLWE(gl, ks), vhTol[T](12), "DecryptGLWEPhase")
		vhEq(fp[i].Value.Coeffs, vhPhaseGLWE(gl, ks), vhTol[T](12), "DecryptFFTGLWEPhase")
		vEqT(lph[i].Value, vhPhaseLWE(l, s), -1, "DecryptLWEPlaintext")
		vAssert(bits[i], "DecryptLWEBool")
	}
	vEnd()
}

func VH_P36_enc32() { vhP36Enc[uint32](vhP{}) }
func VH_P36_enc64() { vhP36Enc[uint64](vhP{parties: 3, order: tfhe.OrderBlindRotateKeySwitch}) }

// Keys added to a safe copy stay with the copy, and keys added to the original
// after copying stay with the original: later use of either sees only its own.
func vhP36Keys[T tfhe.TorusInt](p vhP) {
	params := vhParams[T](p)
	encs, sks := vhEncs(params)
	ks := vhKeys(sks)
	P, N := params.PartyCount(), params.PolyRank()
	// with the keys of the given parties only their masks count
	only := func(which ...int) [][]T {
		r := make([][]T, P)
		for i := range r {
			r[i] = make([]T, N)
		}
		for _, i := range which {
			r[i] = ks[i]
		}
		return r
	}
	def := func(which ...int) []T {
		z := make([]tfhe.SecretKey[T], P)
		for i := range z {
			z[i] = tfhe.NewSecretKey(params.SubParams())
		}
		for _, i := range which {
			z[i] = sks[i]
		}
		return vhDef(params, z)
	}
	gl := vhGLWE[T]("g", P, N)
	l := LWECiphertext[T]{Value: vhVec[T]("l", params.DefaultLWEDimension()+1)}
	check := func(d *Decryptor[T], msg string, which ...int) {
		var ph tfhe.GLWEPlaintext[T]
		var lp tfhe.LWEPlaintext[T]
		bad := vPanics(func() { ph, lp = d.DecryptGLWEPhase(gl), d.DecryptLWEPlaintext(l) })
		vAssert(!bad, msg+": decrypts")
		if bad {
			return
		}
		vhEq(ph.Value.Coeffs, vhPhaseGLWE(gl, only(which...)), vhTol[T](12), msg+": DecryptGLWEPhase")
		vEqT(lp.Value, vhPhaseLWE(l, def(which...)), -1, msg+": DecryptLWEPlaintext")
		for i := range d.PartyBitMap {
			has := false
			for _, j := range which {
				has = has || i == j
			}
			vAssert(d.PartyBitMap[i] == has && (d.SubDecryptors[i] != nil) == has, msg+": parties")
		}
	}
	d := NewDecryptor(params, map[int]tfhe.SecretKey[T]{0: sks[0]})
	c := d.SafeCopy()
	c.AddSecretKey(1, sks[1])
	check(d, "original after a key was added to the copy", 0)
	check(c, "copy with a key of its own", 0, 1)
	cc := c.SafeCopy()
	d.AddSecretKey(P-1, sks[P-1])
	if P > 2 {
		check(d, "original with a key of its own", 0, P-1)
	}
	check(c, "copy after a key was added to the original", 0, 1)
	check(cc, "copy of the copy", 0, 1)
	bd := NewBinaryDecryptor(params, map[int]tfhe.SecretKey[T]{0: sks[0]})
	bc := bd.SafeCopy()
	bc.Decryptor.AddSecretKey(1, sks[1])
	check(bd.Decryptor, "binary original", 0)
	check(bc.Decryptor, "binary copy", 0, 1)
	// evaluators
	k0, k1 := encs[0].GenEvalKey(), encs[1].GenEvalKey()
	e := NewEvaluator(params, map[int]EvaluationKey[T]{0: k0})
	f := e.SafeCopy()
	f.AddEvaluationKey(1, k1)
	g := f.SafeCopy()
	f.AddEvaluationKey(P-1, k1)
	parties := func(e *Evaluator[T], msg string, which ...int) {
		for i := range e.PartyBitMap {
			has := false
			for _, j := range which {
				has = has || i == j
			}
			vAssert(e.PartyBitMap[i] == has && (e.SubEvaluators[i] != nil) == has, msg+": parties")
			vAssert((len(e.EvalKey[i].BlindRotateKey.Value) > 0) == has, msg+": keys")
		}
	}
	parties(e, "evaluator after keys were added to the copy", 0)
	parties(g, "copy of the copy", 0, 1)
	parties(f, "copy with keys of its own", 0, 1, P-1)
	be := NewBinaryEvaluator(params, map[int]EvaluationKey[T]{0: k0})
	bf := be.SafeCopy()
	bf.Evaluator.AddEvaluationKey(1, k1)
	parties(be.Evaluator, "binary original", 0)
	parties(bf.Evaluator, "binary copy", 0, 1)
	vEnd()
}

func VH_P36_keys32() { vhP36Keys[uint32](vhP{parties: 3, order: tfhe.OrderKeySwitchBlindRotate}) }
func VH_P36_keys64() { vhP36Keys[uint64](vhP{parties: 2, order: tfhe.OrderBlindRotateKeySwitch}) }
