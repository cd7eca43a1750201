//go:build verifharness

package tfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

const (
	vhStdL = 1.0 / 1024
	vhStdG = 1.0 / 8192
)

// vhDefKey returns the key a scalar ciphertext is documented to use.
func vhDefKey[T TorusInt](params Parameters[T], sk SecretKey[T]) ([]T, float64) {
	if params.BootstrapOrder() == OrderKeySwitchBlindRotate {
		return sk.LWELargeKey.Value, params.GLWEStdDev()
	}
	return sk.LWEKey.Value, params.LWEStdDev()
}

// Scalar ciphertexts and levelled scalar ciphertexts.
func vhP03LWE[T TorusInt](order BootstrapOrder, n, bs int) {
	params := vhParams[T](vhP{n: n, bs: bs, order: order, std: vhStdL, gstd: vhStdG})
	e := NewEncryptor(params)
	sk := e.SecretKey
	s, std := vhDefKey(params, sk)
	nz := vhNz[T](std)
	for _, x := range sk.LWELargeKey.Value {
		vAssert(x*x == x, "secret keys are binary")
	}
	m := vT[T]("m")
	var masks [][]T
	one := func(ct LWECiphertext[T], want T, msg string) {
		vAssert(len(ct.Value) == len(s)+1, msg+": size")
		vhNear([]T{vhPhaseLWE(ct, s)}, []T{want}, nz, -1, msg+" phase")
		vEqT(e.DecryptLWEPhase(ct).Value, vhPhaseLWE(ct, s), -1, "DecryptLWEPhase of "+msg)
		if len(masks) < 4 {
			masks = append(masks, ct.Value[1:])
		}
	}
	one(e.EncryptLWEPlaintext(LWEPlaintext[T]{Value: m}), m, "EncryptLWEPlaintext")
	to := NewLWECiphertext(params)
	e.EncryptLWEPlaintextTo(to, LWEPlaintext[T]{Value: m})
	one(to, m, "EncryptLWEPlaintextTo")
	gp := GadgetParametersLiteral[T]{Base: T(1) << 5, Level: 3}.Compile()
	lev := e.EncryptLevScalar(m, gp)
	vAssert(len(lev.Value) == 3, "Lev levels")
	for i := range lev.Value {
		one(lev.Value[i], m<<uint(num.SizeT[T]()-5*(i+1)), "Lev")
	}
	if len(s) <= 8 {
		gsw := e.EncryptGSWScalar(m, gp)
		vAssert(len(gsw.Value) == len(s)+1, "GSW rows")
		for r := range gsw.Value {
			for i := range gsw.Value[r].Value {
				w := m << uint(num.SizeT[T]()-5*(i+1))
				if r > 0 {
					w = s[r-1] * w
				}
				one(gsw.Value[r].Value[i], w, "GSW")
			}
		}
	}
	vhFresh(masks, "scalar encryption")
	vEnd()
}

func VH_P03_lwe32()    { vhP03LWE[uint32](OrderKeySwitchBlindRotate, 3, 1) }
func VH_P03_lwe64()    { vhP03LWE[uint64](OrderBlindRotateKeySwitch, 3, 1) }
func VH_P03_lweblock() { vhP03LWE[uint32](OrderBlindRotateKeySwitch, 6, 2) }

// Polynomial ciphertexts, levelled and matrix forms, coefficient and frequency.
func vhP03GLWE[T TorusInt](k int) {
	params := vhParams[T](vhP{n: 2, k: k, std: vhStdL, gstd: vhStdG})
	e := NewEncryptor(params)
	s := vhGLWEKey(e.SecretKey)
	m := vhPoly[T]("m", 16)
	tol := vhTol[T](2)
	nz := vhNz[T](vhStdG)
	var masks [][]T
	one := func(ct GLWECiphertext[T], want []T, msg string) {
		vAssert(len(ct.Value) == k+1, msg+": rank")
		vhNear(vhPhaseGLWE(ct, s), want, nz, tol, msg+" phase")
		vhEq(e.DecryptGLWEPhase(ct).Value.Coeffs, vhPhaseGLWE(ct, s), tol, "DecryptGLWEPhase of "+msg)
		if len(masks) < 6 {
			for i := 1; i <= k; i++ {
				masks = append(masks, ct.Value[i].Coeffs)
			}
		}
	}
	pt := GLWEPlaintext[T]{Value: m}
	m0 := vhCp(m.Coeffs)
	one(e.EncryptGLWEPlaintext(pt), m.Coeffs, "EncryptGLWEPlaintext")
	to := vhGLWE[T]("old", k, 16)
	e.EncryptGLWEPlaintextTo(to, pt)
	one(to, m.Coeffs, "EncryptGLWEPlaintextTo")
	fct := e.EncryptFFTGLWEPlaintext(pt)
	one(e.InvFFTGLWECiphertext(fct), m.Coeffs, "EncryptFFTGLWEPlaintext")
	vhNear(e.DecryptFFTGLWEPhase(fct).Value.Coeffs, m.Coeffs, nz, tol, "DecryptFFTGLWEPhase")
	vhEq(m.Coeffs, m0, -1, "encryption leaves the plaintext unchanged")
	vhFresh(masks, "polynomial encryption")
	vEnd()
}

func VH_P03_glwe32() { vhP03GLWE[uint32](2) }
func VH_P03_glwe64() { vhP03GLWE[uint64](1) }

func vhP03GGSW[T TorusInt](k int, which int) {
	params := vhParams[T](vhP{n: 2, k: k, std: vhStdL, gstd: vhStdG})
	e := NewEncryptor(params)
	s := vhGLWEKey(e.SecretKey)
	// gadget messages are small
	m := make([]T, 16)
	for i := range m {
		m[i] = T(vByte("m")) - 128
	}
	tol := vhTol[T](2)
	nz := vhNz[T](vhStdG)
	gp := GadgetParametersLiteral[T]{Base: T(1) << 6, Level: 2}.Compile()
	var masks [][]T
	one := func(ct GLWECiphertext[T], row, lvl int, msg string) {
		want := vhScale(m, T(1)<<uint(num.SizeT[T]()-6*(lvl+1)))
		if row > 0 {
			want = vhMul(want, s[row-1])
		}
		vhNear(vhPhaseGLWE(ct, s), want, nz, tol, msg)
		for i := 1; i <= k && len(masks) < 6; i++ {
			masks = append(masks, ct.Value[i].Coeffs)
		}
	}
	switch which {
	case 0:
		lv := e.EncryptGLevPoly(vhPl(m), gp)
		for i := range lv.Value {
			one(lv.Value[i], 0, i, "GLev")
		}
		flv := e.EncryptFFTGLevPoly(vhPl(m), gp)
		for i := range flv.Value {
			one(e.InvFFTGLWECiphertext(flv.Value[i]), 0, i, "FFTGLev")
		}
	case 1:
		g := e.EncryptGGSWPoly(vhPl(m), gp)
		vAssert(len(g.Value) == k+1, "GGSW rows")
		for r := range g.Value {
			for i := range g.Value[r].Value {
				one(g.Value[r].Value[i], r, i, "GGSW")
			}
		}
	case 2:
		g := e.EncryptFFTGGSWPoly(vhPl(m), gp)
		vAssert(len(g.Value) == k+1, "FFTGGSW rows")
		for r := range g.Value {
			for i := range g.Value[r].Value {
				one(e.InvFFTGLWECiphertext(g.Value[r].Value[i]), r, i, "FFTGGSW")
			}
		}
	}
	vhFresh(masks, "gadget encryption")
	vEnd()
}

func VH_P03_ggsw32() { vhP03GGSW[uint32](2, vChoose("kind", 3)) }
func VH_P03_ggsw64() { vhP03GGSW[uint64](1, vChoose("kind", 3)) }

// Message-level encryption and decryption, zero noise so that every message
// must come back, whatever the key and mask.
func vhP03Msg[T TorusInt](order BootstrapOrder, msg uint64) {
	params := vhParams[T](vhP{n: 2, msg: msg, order: order})
	e := NewEncryptor(params)
	mod := func(x int) int { return int(T(x) % T(msg)) }
	a := vInt("a")
	vAssume(a >= 0 && a < 1<<16)
	vAssert(e.DecryptLWE(e.EncryptLWE(a)) == mod(a), "DecryptLWE(EncryptLWE)")
	to := NewLWECiphertext(params)
	e.EncryptLWETo(to, a)
	vAssert(e.DecryptLWE(to) == mod(a), "EncryptLWETo")
	gp := GadgetParametersLiteral[T]{Base: T(1) << 5, Level: 2}.Compile()
	vAssert(e.DecryptLev(e.EncryptLev(a, gp)) == mod(a), "DecryptLev(EncryptLev)")
	lev := NewLevCiphertext(params, gp)
	e.EncryptLevTo(lev, a)
	vAssert(e.DecryptLev(lev) == mod(a), "EncryptLevTo")
	gsw := e.EncryptGSW(a, gp)
	vAssert(e.DecryptGSW(gsw) == mod(a), "DecryptGSW(EncryptGSW)")
	e.EncryptGSWTo(gsw, a)
	vAssert(e.DecryptGSW(gsw) == mod(a), "EncryptGSWTo")
	vEnd()
}

func VH_P03_msglwe32() { vhP03Msg[uint32](OrderBlindRotateKeySwitch, 8) }
func VH_P03_msglwe64() { vhP03Msg[uint64](OrderBlindRotateKeySwitch, 16) }
func VH_P03_msglwe3()  { vhP03Msg[uint32](OrderKeySwitchBlindRotate, 4) }

func vhP03MsgGLWE[T TorusInt](which int) {
	params := vhParams[T](vhP{n: 2, msg: 8})
	e := NewEncryptor(params)
	a := make([]int, 5)
	for i := range a {
		a[i] = int(vByte("a"))
	}
	gp := GadgetParametersLiteral[T]{Base: T(1) << 6, Level: 2}.Compile()
	// stale buffers must not leak into later encryptions
	e.EncryptGLWE([]int{1, 2, 3, 4, 5, 6, 7, 1, 2, 3, 4, 5, 6, 7, 1, 2})
	ck := func(got []int, msg string) {
		vAssert(len(got) == 16, msg+": length")
		for i := range got {
			w := 0
			if i < 5 {
				w = a[i] % 8
			}
			vAssert(got[i] == w, msg)
		}
	}
	out := make([]int, 16)
	switch which {
	case 0:
		ct := e.EncryptGLWE(a)
		ck(e.DecryptGLWE(ct), "GLWE")
		e.DecryptGLWETo(out, ct)
		ck(out, "DecryptGLWETo")
		e.EncryptGLWETo(ct, a)
		ck(e.DecryptGLWE(ct), "EncryptGLWETo")
		f := e.EncryptFFTGLWE(a)
		ck(e.DecryptFFTGLWE(f), "FFTGLWE")
		e.DecryptFFTGLWETo(out, f)
		ck(out, "DecryptFFTGLWETo")
		e.EncryptFFTGLWETo(f, a)
		ck(e.DecryptFFTGLWE(f), "EncryptFFTGLWETo")
	case 1:
		ct := e.EncryptGLev(a, gp)
		ck(e.DecryptGLev(ct), "GLev")
		e.DecryptGLevTo(out, ct)
		ck(out, "DecryptGLevTo")
		e.EncryptGLevTo(ct, a)
		ck(e.DecryptGLev(ct), "EncryptGLevTo")
		f := e.EncryptFFTGLev(a, gp)
		ck(e.DecryptFFTGLev(f), "FFTGLev")
		e.DecryptFFTGLevTo(out, f)
		ck(out, "DecryptFFTGLevTo")
		e.EncryptFFTGLevTo(f, a)
		ck(e.DecryptFFTGLev(f), "EncryptFFTGLevTo")
	case 2:
		ct := e.EncryptGGSW(a, gp)
		ck(e.DecryptGGSW(ct), "GGSW")
		e.DecryptGGSWTo(out, ct)
		ck(out, "DecryptGGSWTo")
		e.EncryptGGSWTo(ct, a)
		ck(e.DecryptGGSW(ct), "EncryptGGSWTo")
		f := e.EncryptFFTGGSW(a, gp)
		ck(e.DecryptFFTGGSW(f), "FFTGGSW")
		e.DecryptFFTGGSWTo(f, out)
		ck(out, "DecryptFFTGGSWTo")
		e.EncryptFFTGGSWTo(f, a)
		ck(e.DecryptFFTGGSW(f), "EncryptFFTGGSWTo")
		p := e.DecryptGGSWPoly(ct)
		q := poly.NewPoly[T](16)
		e.DecryptGGSWPolyTo(q, ct)
		vhEq(q.Coeffs, p.Coeffs, -1, "DecryptGGSWPolyTo")
	}
	vEnd()
}

func VH_P03_msgglwe32() { vhP03MsgGLWE[uint32](vChoose("kind", 3)) }
func VH_P03_msgglwe64() { vhP03MsgGLWE[uint64](vChoose("kind", 3)) }

// Messages outside [0, p), for a message modulus that is not a power of two:
// every encryption form reduces them modulo p.
func vhP03MsgRed[T TorusInt](msg uint64) {
	params := vhParams[T](vhP{n: 2, msg: msg})
	e := NewEncryptor(params)
	p := int(msg)
	r := vChoose("r", p)
	a := r + p*[]int{-1, 1, -7, 1 << 20}[vChoose("k", 4)]
	gp := GadgetParametersLiteral[T]{Base: T(1) << 5, Level: 2}.Compile()
	eq := func(got int, msg string) { vAssert(got == r, msg+" reduces the message") }
	eqs := func(got []int, msg string) {
		for i := range got {
			w := 0
			if i == 1 {
				w = r
			}
			vAssert(got[i] == w, msg+" reduces the message")
		}
	}
	eq(e.DecryptLWE(e.EncryptLWE(a)), "LWE")
	lev := e.EncryptLev(a, gp)
	eq(e.DecryptLev(lev), "EncryptLev")
	e.EncryptLevTo(lev, a)
	eq(e.DecryptLev(lev), "EncryptLevTo")
	gsw := e.EncryptGSW(a, gp)
	eq(e.DecryptGSW(gsw), "EncryptGSW")
	e.EncryptGSWTo(gsw, a)
	eq(e.DecryptGSW(gsw), "EncryptGSWTo")
	as := []int{0, a}
	eqs(e.DecryptGLWE(e.EncryptGLWE(as)), "GLWE")
	eqs(e.DecryptFFTGLWE(e.EncryptFFTGLWE(as)), "FFTGLWE")
	glev := e.EncryptGLev(as, gp)
	eqs(e.DecryptGLev(glev), "EncryptGLev")
	e.EncryptGLevTo(glev, as)
	eqs(e.DecryptGLev(glev), "EncryptGLevTo")
	fglev := e.EncryptFFTGLev(as, gp)
	eqs(e.DecryptFFTGLev(fglev), "EncryptFFTGLev")
	e.EncryptFFTGLevTo(fglev, as)
	eqs(e.DecryptFFTGLev(fglev), "EncryptFFTGLevTo")
	ggsw := e.EncryptGGSW(as, gp)
	eqs(e.DecryptGGSW(ggsw), "EncryptGGSW")
	e.EncryptGGSWTo(ggsw, as)
	eqs(e.DecryptGGSW(ggsw), "EncryptGGSWTo")
	fggsw := e.EncryptFFTGGSW(as, gp)
	eqs(e.DecryptFFTGGSW(fggsw), "EncryptFFTGGSW")
	e.EncryptFFTGGSWTo(fggsw, as)
	eqs(e.DecryptFFTGGSW(fggsw), "EncryptFFTGGSWTo")
	vEnd()
}

func VH_P03_msgred32() { vhP03MsgRed[uint32](3) }
func VH_P03_msgred64() { vhP03MsgRed[uint64](5) }
