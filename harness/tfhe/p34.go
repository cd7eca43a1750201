//go:build verifharness

package tfhe

import (
	"sync"

	"github.com/sp301415/tfhe-go/math/poly"
)

// vhBoth runs f and g in two goroutines.
func vhBoth(f, g func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); f() }()
	go func() { defer wg.Done(); g() }()
	wg.Wait()
}

// Parallel key generation: the keys decrypt to the same messages as serial
// ones, and no two workers touch the same memory without synchronization.
func vhParKeys[T TorusInt](p vhP, fork bool) {
	params := vhParams[T](p)
	enc := NewEncryptor(params)
	s := vhGLWEKey(enc.SecretKey)
	sl := enc.SecretKey.LWEKey.Value
	vSchedules(fork)
	brk := enc.GenBlindRotateKeyParallel()
	if fork {
		for i := range sl {
			vAssert(len(brk.Value[i].Value) == len(s)+1, "blind rotation key shape")
			for j := range brk.Value[i].Value {
				m := sl[i]
				if j > 0 {
					m *= s[0][0]
				}
				ph := vhPhaseGLWE(enc.InvFFTGLWECiphertext(brk.Value[i].Value[j].Value[0]), s)
				vEqT(ph[0], m*params.BlindRotateParams().BaseQ(0), vhTol[T](8), "parallel blind rotation key")
			}
		}
		vNoRace()
		vEnd()
	}
	ksk := enc.GenDefaultKeySwitchKeyParallel()
	vNoRace()
	vAssert(len(brk.Value) == len(sl), "blind rotation key length")
	g := params.BlindRotateParams()
	for i := range sl {
		vAssert(len(brk.Value[i].Value) == len(s)+1, "blind rotation key shape")
		for j := range brk.Value[i].Value {
			m := make([]T, params.PolyRank())
			if j == 0 {
				m[0] = sl[i]
			} else {
				m = vhScale(s[j-1], sl[i])
			}
			for l := 0; l < g.Level(); l++ {
				vhEq(vhPhaseGLWE(enc.InvFFTGLWECiphertext(brk.Value[i].Value[j].Value[l]), s), vhScale(m, g.BaseQ(l)), vhTol[T](8), "parallel blind rotation key")
			}
		}
	}
	kg := params.KeySwitchParams()
	large := enc.SecretKey.LWELargeKey.Value[len(sl):]
	vAssert(len(ksk.Value) == len(large), "key switching key length")
	for i := range ksk.Value {
		for l := 0; l < kg.Level(); l++ {
			vEqT(vhPhaseLWE(ksk.Value[i].Value[l], sl), large[i]*kg.BaseQ(l), -1, "parallel key switching key")
		}
	}
	vEnd()
}

func VH_P34_keys32()  { vhParKeys[uint32](vhP{n: 2}, false) }
func VH_P34_keys64()  { vhParKeys[uint64](vhP{n: 3, k: 2, base: 8, level: 3}, false) }
func VH_P34_keysone() { vhParKeys[uint32](vhP{n: 1, base: 8, level: 1, kbase: 8, klevel: 1}, false) }

//verif:paths=6000 timeout=120
func VH_P34_keysched() { vhParKeys[uint32](vhP{n: 2, base: 8, level: 1, kbase: 8, klevel: 1}, true) }

// Evaluators and their safe copies, used at the same time on shared inputs.
func vhSafeEval[T TorusInt](p vhP) {
	params := vhParams[T](p)
	enc := NewEncryptor(params)
	evk := enc.GenEvalKey()
	e := NewEvaluator(params, evk)
	vSchedules(false)
	ct := NewLWECiphertext(params)
	for i := range ct.Value {
		if i <= params.LWEDimension() {
			ct.Value[i] = T(i*3+1) << uint(params.LogQ()-4)
		}
	}
	f := func(x int) int { return x ^ 1 }
	lut := e.GenLUT(f)
	g := vhGLWE[T]("g", params.GLWERank(), params.PolyRank())
	h := vhGLWE[T]("h", params.GLWERank(), params.PolyRank())
	pp := vhPoly[T]("p", params.PolyRank())
	gsw := enc.EncryptFFTGGSWPoly(vhPl(vhConst(vBit[T]("m"), params.PolyRank())), params.BlindRotateParams())
	gk := enc.GenGLWEKeySwitchKey(enc.SecretKey.GLWEKey, params.BlindRotateParams())
	lk := enc.GenLWEKeySwitchKey(enc.SecretKey.LWELargeKey, params.KeySwitchParams())
	large := LWECiphertext[T]{Value: vhVec[T]("l", params.GLWEDimension()+1)}
	run := func(e *Evaluator[T], fast bool) []LWECiphertext[T] {
		var r []LWECiphertext[T]
		r = append(r, e.BootstrapLUT(ct, lut), e.BootstrapFunc(ct, f))
		add := func(c GLWECiphertext[T]) {
			for i := range c.Value {
				r = append(r, LWECiphertext[T]{Value: c.Value[i].Coeffs})
			}
		}
		add(e.ExternalProdGLWE(gsw, g))
		add(e.CMux(gsw, g, h))
		add(e.KeySwitchGLWE(g, gk))
		add(e.AddGLWE(g, h))
		o := g.Copy()
		e.PolyMulAddGLWETo(o, h, pp)
		add(o)
		e.ExternalProdAddGLWETo(o, gsw, h)
		add(o)
		r = append(r, e.KeySwitchLWE(large, lk))
		return r
	}
	e2 := e.SafeCopy()
	var a, b []LWECiphertext[T]
	vhBoth(func() { a = run(e, false) }, func() { b = run(e2, false) })
	vNoRace()
	c := run(e.SafeCopy(), false)
	for i := range c {
		vhEq(a[i].Value, c[i].Value, vhTol[T](p.base+20), "result of the original while a copy works")
		vhEq(b[i].Value, c[i].Value, vhTol[T](p.base+20), "result of the copy while the original works")
	}
	vEnd()
}

func VH_P34_eval32() {
	vhSafeEval[uint32](vhP{n: 2, base: 8, level: 2, order: OrderBlindRotateKeySwitch})
}
func VH_P34_eval64() { vhSafeEval[uint64](vhP{n: 2, base: 8, level: 2}) }
func VH_P34_evalext() {
	vhSafeEval[uint32](vhP{n: 2, bs: 2, lut: 32, base: 8, level: 2})
}

// Encryptors and their safe copies.
func VH_P34_enc() {
	type T = uint32
	params := vhParams[T](vhP{msg: 4})
	enc := NewEncryptor(params)
	s := vhGLWEKey(enc.SecretKey)
	sd, _ := vhDefKey(params, enc.SecretKey)
	pub := NewPublicEncryptor(params, enc.GenPublicKey())
	bin := NewBinaryEncryptorWithKey(params, enc.SecretKey)
	binp := bin.PublicEncryptor()
	vSchedules(false)
	g := vhG[T](8, 2)
	m := vhPoly[T]("m", 16)
	pt := GLWEPlaintext[T]{Value: m}
	type res struct {
		l        []LWECiphertext[T]
		g        []GLWECiphertext[T]
		dec      []T
		decPhase GLWEPlaintext[T]
	}
	run := func(e *Encryptor[T], b *BinaryEncryptor[T]) (r res) {
		r.l = append(r.l, e.EncryptLWE(3), e.EncryptLWEPlaintext(LWEPlaintext[T]{Value: 5}), b.EncryptLWEBool(true))
		r.g = append(r.g, e.EncryptGLWEPlaintext(pt), e.InvFFTGLWECiphertext(e.EncryptFFTGLWEPlaintext(pt)),
			e.EncryptGGSWPoly(vhPl(vhConst(T(3), 16)), g).Value[0].Value[1], e.InvFFTGLWECiphertext(e.EncryptFFTGGSWPoly(m, g).Value[1].Value[0]))
		gl := GLWECiphertext[T]{Value: []poly.Poly[T]{vhPl(vhCp(m.Coeffs)), poly.NewPoly[T](16)}}
		r.decPhase = e.DecryptGLWEPhase(gl)
		return
	}
	chk := func(r res, what string) {
		sc := params.Scale()
		vEqT(vhPhaseLWE(r.l[0], sd), 3*sc, vhTol[T](8), what+": EncryptLWE")
		vEqT(vhPhaseLWE(r.l[1], sd), 5, vhTol[T](8), what+": EncryptLWEPlaintext")
		vEqT(vhPhaseLWE(r.l[2], sd), 1<<29, vhTol[T](8), what+": EncryptLWEBool")
		vhEq(vhPhaseGLWE(r.g[0], s), m.Coeffs, vhTol[T](8), what+": EncryptGLWEPlaintext")
		vhEq(vhPhaseGLWE(r.g[1], s), m.Coeffs, vhTol[T](8), what+": EncryptFFTGLWEPlaintext")
		w := make([]T, 16)
		w[0] = 3 << 16
		vhEq(vhPhaseGLWE(r.g[2], s), w, vhTol[T](8), what+": EncryptGGSWScalar")
		vhEq(vhPhaseGLWE(r.g[3], s), vhScale(vhMul(m.Coeffs, s[0]), 1<<24), vhTol[T](16), what+": EncryptFFTGGSWPoly")
		vhEq(r.decPhase.Value.Coeffs, m.Coeffs, vhTol[T](8), what+": DecryptGLWEPhase")
	}
	var a, b res
	e2, b2 := enc.SafeCopy(), bin.SafeCopy()
	vhBoth(func() { a = run(enc, bin) }, func() { b = run(e2, b2) })
	vNoRace()
	chk(a, "original")
	chk(b, "copy")
	p2, bp2 := pub.SafeCopy(), binp.SafeCopy()
	var l [2]LWECiphertext[T]
	var gg, fg [2]GLWECiphertext[T]
	var bb [2]LWECiphertext[T]
	runp := func(i int, p *PublicEncryptor[T], b *BinaryPublicEncryptor[T]) {
		l[i], gg[i], bb[i] = p.EncryptLWEPlaintext(LWEPlaintext[T]{Value: 7}), p.EncryptGLWEPlaintext(pt), b.EncryptLWEBool(false)
		fg[i] = p.InvFFTGLWECiphertext(p.EncryptFFTGLWEPlaintext(pt))
	}
	vhBoth(func() { runp(0, pub, binp) }, func() { runp(1, p2, bp2) })
	vNoRace()
	for i := range l {
		vEqT(vhPhaseLWE(l[i], sd), 7, vhTol[T](10), "public EncryptLWEPlaintext")
		vhEq(vhPhaseGLWE(gg[i], s), m.Coeffs, vhTol[T](10), "public EncryptGLWEPlaintext")
		vhEq(vhPhaseGLWE(fg[i], s), m.Coeffs, vhTol[T](10), "public EncryptFFTGLWEPlaintext")
		x := T(1) << 29
		vEqT(vhPhaseLWE(bb[i], sd), -x, vhTol[T](10), "public EncryptLWEBool")
	}
	vEnd()
}

// Decomposers and transformers.
func VH_P34_parts() {
	type T = uint64
	g := vhG[T](8, 3)
	d := NewDecomposer[T](16)
	d2 := d.SafeCopy()
	t := NewGLWETransformer[T](16)
	t2 := t.SafeCopy()
	x, y := vT[T]("x"), vT[T]("y")
	p, q := vhPoly[T]("p", 16), vhPoly[T]("q", 16)
	vSchedules(false)
	var r [2][]T
	run := func(i int, d *Decomposer[T], t *GLWETransformer[T], x T, p poly.Poly[T]) {
		b, pb, fb := d.ScalarBuffer(g), d.PolyBuffer(g), d.FFTPolyBuffer(g)
		d.DecomposeScalarTo(b, x, g)
		r[i] = append(r[i], b...)
		d.DecomposePolyTo(pb, p, g)
		for j := range pb {
			r[i] = append(r[i], pb[j].Coeffs...)
		}
		d.FourierDecomposePolyTo(fb, p, g)
		c := GLWECiphertext[T]{Value: []poly.Poly[T]{p, p}}
		o := t.InvFFTGLWECiphertext(t.FwdFFTGLWECiphertext(c))
		r[i] = append(r[i], o.Value[1].Coeffs...)
	}
	vhBoth(func() { run(0, d, t, x, p) }, func() { run(1, d2, t2, y, q) })
	vNoRace()
	a, b := r[0], r[1]
	r[0], r[1] = nil, nil
	run(0, NewDecomposer[T](16), NewGLWETransformer[T](16), x, p)
	run(1, NewDecomposer[T](16), NewGLWETransformer[T](16), y, q)
	vhEq(a, r[0], vhTol[T](4), "original while the copy works")
	vhEq(b, r[1], vhTol[T](4), "copy while the original works")
	vEnd()
}

func vhConst[T TorusInt](x T, N int) []T {
	r := make([]T, N)
	r[0] = x
	return r
}
