//go:build verifharness

package tfhe

import "github.com/sp301415/tfhe-go/math/poly"

func vhP13GLWE[T TorusInt](k, base, level int) {
	params := vhParams[T](vhP{n: 2, k: k, base: base, level: level})
	enc := NewEncryptor(params)
	e := NewEvaluator(params, EvaluationKey[T]{})
	s := vhGLWEKey(enc.SecretKey)
	m := vhPoly[T]("m", 16)
	o := vhPoly[T]("o", 16)
	b := make([]T, 16)
	b[vChoose("pos", 3)*7] = vBit[T]("b")
	g := enc.EncryptFFTGGSWPoly(vhPl(b), params.BlindRotateParams())
	ct := enc.EncryptGLWEPlaintext(GLWEPlaintext[T]{Value: m})
	co := enc.EncryptGLWEPlaintext(GLWEPlaintext[T]{Value: o})
	tol := vhTol[T](base + 4)
	want := vhMul(b, m.Coeffs)
	vhEq(vhPhaseGLWE(e.ExternalProdGLWE(g, ct), s), want, tol, "ExternalProdGLWE")
	c := co.Copy()
	e.ExternalProdAddGLWETo(c, g, ct)
	vhEq(vhPhaseGLWE(c, s), vhAdd(o.Coeffs, want), tol, "ExternalProdAddGLWETo")
	c = co.Copy()
	e.ExternalProdSubGLWETo(c, g, ct)
	vhEq(vhPhaseGLWE(c, s), vhSub(o.Coeffs, want), tol, "ExternalProdSubGLWETo")
	vEnd()
}

func VH_P13_ext32k1() { vhP13GLWE[uint32](1, 8, 4) }
func VH_P13_ext32k2() { vhP13GLWE[uint32](2, 16, 2) }
func VH_P13_ext64k1() { vhP13GLWE[uint64](1, 16, 4) }

// vhFFTDec transforms the decomposition of every component of ct.
func vhFFTDec[T TorusInt](e *Evaluator[T], ct GLWECiphertext[T], gp GadgetParameters[T]) [][]poly.FFTPoly {
	var r [][]poly.FFTPoly
	for i := range ct.Value {
		var row []poly.FFTPoly
		for _, d := range e.Decomposer.DecomposePoly(ct.Value[i], gp) {
			row = append(row, e.PolyEvaluator.FwdFFT(d))
		}
		r = append(r, row)
	}
	return r
}

// Gadget products: the phase of p times the encrypted small polynomial.
func vhP13Gadget[T TorusInt](k, base, level, trunc int) {
	params := vhParams[T](vhP{n: 2, k: k, base: base, level: level})
	enc := NewEncryptor(params)
	e := NewEvaluator(params, EvaluationKey[T]{})
	s := vhGLWEKey(enc.SecretKey)
	p := vhPoly[T]("p", 16)
	b := make([]T, 16)
	b[vChoose("pos", 2)*11] = vBit[T]("b")
	gp := params.BlindRotateParams()
	lv := enc.EncryptFFTGLevPoly(vhPl(b), gp)
	o := vhGLWE[T]("o", k, 16)
	po := vhPhaseGLWE(o, s)
	tol := vhMax(trunc, vhTol[T](base+4))
	want := vhMul(b, p.Coeffs)
	p0 := vhCp(p.Coeffs)
	vhEq(vhPhaseGLWE(e.GadgetProdGLWE(lv, p), s), want, tol, "GadgetProdGLWE")
	c := o.Copy()
	e.GadgetProdGLWETo(c, lv, p)
	vhEq(vhPhaseGLWE(c, s), want, tol, "GadgetProdGLWETo")
	c = o.Copy()
	e.GadgetProdAddGLWETo(c, lv, p)
	vhEq(vhPhaseGLWE(c, s), vhAdd(po, want), tol, "GadgetProdAddGLWETo")
	c = o.Copy()
	e.GadgetProdSubGLWETo(c, lv, p)
	vhEq(vhPhaseGLWE(c, s), vhSub(po, want), tol, "GadgetProdSubGLWETo")
	vhEq(p.Coeffs, p0, -1, "the gadget product leaves its polynomial unchanged")
	dec := vhFFTDec(e, GLWECiphertext[T]{Value: []poly.Poly[T]{p}}, gp)[0]
	fo := e.FwdFFTGLWECiphertext(o)
	f := fo.Copy()
	e.GadgetProdFFTGLWETo(f, lv, dec)
	vhEq(vhPhaseGLWE(e.InvFFTGLWECiphertext(f), s), want, tol, "GadgetProdFFTGLWETo")
	f = fo.Copy()
	e.GadgetProdAddFFTGLWETo(f, lv, dec)
	vhEq(vhPhaseGLWE(e.InvFFTGLWECiphertext(f), s), vhAdd(po, want), tol, "GadgetProdAddFFTGLWETo")
	f = fo.Copy()
	e.GadgetProdSubFFTGLWETo(f, lv, dec)
	vhEq(vhPhaseGLWE(e.InvFFTGLWECiphertext(f), s), vhSub(po, want), tol, "GadgetProdSubFFTGLWETo")
	vEnd()
}

func VH_P13_gadget32k1() { vhP13Gadget[uint32](1, 8, 4, -1) }
func VH_P13_gadget32k2() { vhP13Gadget[uint32](2, 16, 2, -1) }
func VH_P13_gadget64()   { vhP13Gadget[uint64](1, 16, 4, -1) }

// Truncating gadgets: one decomposition error per coefficient.
func VH_P13_gadgettrunc32() { vhP13Gadget[uint32](1, 7, 3, 11) }
func VH_P13_gadgettrunc64() { vhP13Gadget[uint64](1, 10, 3, 34) }

// External products in every output form, and the multiplexer.
func vhP13Ext[T TorusInt](k, base, level, trunc int) {
	params := vhParams[T](vhP{n: 2, k: k, base: base, level: level})
	enc := NewEncryptor(params)
	e := NewEvaluator(params, EvaluationKey[T]{})
	s := vhGLWEKey(enc.SecretKey)
	b := make([]T, 16)
	bit := vBit[T]("b")
	b[0] = bit
	gp := params.BlindRotateParams()
	g := enc.EncryptFFTGGSWPoly(vhPl(b), gp)
	ct, c1, o := vhGLWE[T]("ct", k, 16), vhGLWE[T]("c1", k, 16), vhGLWE[T]("o", k, 16)
	ct0, c10 := ct.Copy(), c1.Copy()
	m, m1, po := vhPhaseGLWE(ct, s), vhPhaseGLWE(c1, s), vhPhaseGLWE(o, s)
	tol := vhMax(trunc, vhTol[T](base+5))
	want := vhScale(m, bit)
	vhEq(vhPhaseGLWE(e.ExternalProdGLWE(g, ct), s), want, tol, "ExternalProdGLWE")
	c := o.Copy()
	e.ExternalProdGLWETo(c, g, ct)
	vhEq(vhPhaseGLWE(c, s), want, tol, "ExternalProdGLWETo")
	c = ct.Copy()
	e.ExternalProdGLWETo(c, g, c)
	vhEq(vhPhaseGLWE(c, s), want, tol, "ExternalProdGLWETo in place")
	c = o.Copy()
	e.ExternalProdAddGLWETo(c, g, ct)
	vhEq(vhPhaseGLWE(c, s), vhAdd(po, want), tol, "ExternalProdAddGLWETo")
	c = o.Copy()
	e.ExternalProdSubGLWETo(c, g, ct)
	vhEq(vhPhaseGLWE(c, s), vhSub(po, want), tol, "ExternalProdSubGLWETo")
	sel := vhAdd(m, vhScale(vhSub(m1, m), bit))
	vhEq(vhPhaseGLWE(e.CMux(g, ct, c1), s), sel, tol, "CMux")
	c = o.Copy()
	e.CMuxTo(c, g, ct, c1)
	vhEq(vhPhaseGLWE(c, s), sel, tol, "CMuxTo")
	c = ct.Copy()
	e.CMuxTo(c, g, c, c1)
	vhEq(vhPhaseGLWE(c, s), sel, tol, "CMuxTo with the output aliasing the first choice")
	dec := vhFFTDec(e, ct, gp)
	fo := e.FwdFFTGLWECiphertext(o)
	f := fo.Copy()
	e.ExternalProdFFTGLWETo(f, g, dec)
	vhEq(vhPhaseGLWE(e.InvFFTGLWECiphertext(f), s), want, tol, "ExternalProdFFTGLWETo")
	f = fo.Copy()
	e.ExternalProdAddFFTGLWETo(f, g, dec)
	vhEq(vhPhaseGLWE(e.InvFFTGLWECiphertext(f), s), vhAdd(po, want), tol, "ExternalProdAddFFTGLWETo")
	f = fo.Copy()
	e.ExternalProdSubFFTGLWETo(f, g, dec)
	vhEq(vhPhaseGLWE(e.InvFFTGLWECiphertext(f), s), vhSub(po, want), tol, "ExternalProdSubFFTGLWETo")
	vhEqGLWE(ct, ct0, -1, "products leave their inputs unchanged")
	vhEqGLWE(c1, c10, -1, "products leave their inputs unchanged")
	vEnd()
}

//verif:weight=20
func VH_P13_all32k1() { vhP13Ext[uint32](1, 8, 4, -1) }

//verif:weight=30
func VH_P13_all32k2() { vhP13Ext[uint32](2, 16, 2, -1) }

//verif:weight=20
func VH_P13_all64() { vhP13Ext[uint64](1, 16, 4, -1) }

// Truncating gadgets: 1 + kN decomposition errors of half the last factor.
//
//verif:weight=20
func VH_P13_alltrunc32() { vhP13Ext[uint32](1, 7, 3, 15) }

//verif:weight=20
func VH_P13_alltrunc64k2() { vhP13Ext[uint64](2, 12, 2, 45) }

// Products on scalar ciphertexts.
func vhP13LWE[T TorusInt](n, base, level, trunc int) {
	params := vhParams[T](vhP{n: n, base: base, level: level, order: OrderBlindRotateKeySwitch})
	enc := NewEncryptor(params)
	e := NewEvaluator(params, EvaluationKey[T]{})
	s := enc.SecretKey.LWEKey.Value
	gp := params.BlindRotateParams()
	c, bit := vT[T]("c"), vBit[T]("b")
	mk := func(name string) LWECiphertext[T] { return LWECiphertext[T]{Value: vhVec[T](name, n+1)} }
	ct, o := mk("ct"), mk("o")
	ct0 := vhCp(ct.Value)
	m, po := vhPhaseLWE(ct, s), vhPhaseLWE(o, s)
	lev := enc.EncryptLevScalar(bit, gp)
	gsw := enc.EncryptGSWScalar(bit, gp)
	ck := func(x LWECiphertext[T], want T, msg string) { vEqT(vhPhaseLWE(x, s), want, trunc, msg) }
	ck(e.GadgetProdLWE(lev, c), bit*c, "GadgetProdLWE")
	x := o.Copy()
	e.GadgetProdLWETo(x, lev, c)
	ck(x, bit*c, "GadgetProdLWETo")
	x = o.Copy()
	e.GadgetProdAddLWETo(x, lev, c)
	ck(x, po+bit*c, "GadgetProdAddLWETo")
	x = o.Copy()
	e.GadgetProdSubLWETo(x, lev, c)
	ck(x, po-bit*c, "GadgetProdSubLWETo")
	ck(e.ExternalProdLWE(gsw, ct), bit*m, "ExternalProdLWE")
	x = o.Copy()
	e.ExternalProdLWETo(x, gsw, ct)
	ck(x, bit*m, "ExternalProdLWETo")
	x = ct.Copy()
	e.ExternalProdLWETo(x, gsw, x)
	ck(x, bit*m, "ExternalProdLWETo in place")
	x = o.Copy()
	e.ExternalProdAddLWETo(x, gsw, ct)
	ck(x, po+bit*m, "ExternalProdAddLWETo")
	x = o.Copy()
	e.ExternalProdSubLWETo(x, gsw, ct)
	ck(x, po-bit*m, "ExternalProdSubLWETo")
	vhEq(ct.Value, ct0, -1, "scalar products leave their input unchanged")
	vEnd()
}

func VH_P13_lwe32()      { vhP13LWE[uint32](3, 8, 4, -1) }
func VH_P13_lwe64()      { vhP13LWE[uint64](3, 16, 4, -1) }
func VH_P13_lwetrunc32() { vhP13LWE[uint32](3, 6, 3, 15) }
func VH_P13_lwetrunc64() { vhP13LWE[uint64](4, 9, 3, 39) }
