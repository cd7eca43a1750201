//go:build verifharness

package tfhe

import "github.com/sp301415/tfhe-go/math/poly"

// vhAny: every value can be non-zero (natively: some value is).
func vhAny[T TorusInt](v []T, msg string) {
	any := false
	for i := range v {
		if vSymbolic() {
			vMust(v[i] != 0, msg)
		} else if v[i] != 0 {
			any = true
		}
	}
	if !vSymbolic() {
		vAssert(any, msg)
	}
}

// Phases of public-key encryptions, whatever the output buffers held before.
func vhP04[T TorusInt](k int, gstd float64) {
	p := vhP{n: 2, k: k, msg: 8, order: OrderKeySwitchBlindRotate}
	if gstd != 0 {
		p.gstd, p.std = gstd, gstd
	}
	params := vhParams[T](p)
	enc := NewEncryptor(params)
	s := vhGLWEKey(enc.SecretKey)
	sl := enc.SecretKey.LWELargeKey.Value
	pe := NewPublicEncryptor(params, enc.GenPublicKey())
	tol := vhTol[T](2)
	if gstd != 0 {
		// 1 + 2kN noise terms
		tol = vhMax(vhNz[T](gstd)+6+k-1, tol)
	}
	m := vhPoly[T]("m", 16)
	pt := GLWEPlaintext[T]{Value: m}
	g := func(ct GLWECiphertext[T], msg string) { vhEq(vhPhaseGLWE(ct, s), m.Coeffs, tol, msg) }
	g(pe.EncryptGLWEPlaintext(pt), "EncryptGLWEPlaintext")
	old := vhGLWE[T]("old", k, 16)
	pe.EncryptGLWEPlaintextTo(old, pt)
	g(old, "EncryptGLWEPlaintextTo into a used ciphertext")
	f := pe.EncryptFFTGLWEPlaintext(pt)
	g(enc.InvFFTGLWECiphertext(f), "EncryptFFTGLWEPlaintext")
	pe.EncryptFFTGLWEPlaintextTo(f, pt)
	g(enc.InvFFTGLWECiphertext(f), "EncryptFFTGLWEPlaintextTo again")
	c := vT[T]("c")
	l := func(ct LWECiphertext[T], msg string) {
		vAssert(len(ct.Value) == len(sl)+1, msg+": size")
		vEqT(vhPhaseLWE(ct, sl), c, tol, msg)
	}
	l(pe.EncryptLWEPlaintext(LWEPlaintext[T]{Value: c}), "EncryptLWEPlaintext")
	ol := LWECiphertext[T]{Value: vhVec[T]("oldl", 16*k+1)}
	pe.EncryptLWEPlaintextTo(ol, LWEPlaintext[T]{Value: c})
	l(ol, "EncryptLWEPlaintextTo into a used ciphertext")
	vEnd()
}

//verif:weight=10
func VH_P04_phase32k1() { vhP04[uint32](1, 0) }

//verif:weight=30
func VH_P04_phase32k2() { vhP04[uint32](2, 0) }

//verif:weight=10
func VH_P04_phase64() { vhP04[uint64](1, 0) }

// With noise: the phase is off by at most the sum of the small terms.
//
//verif:weight=10
func VH_P04_noise32() { vhP04[uint32](1, 1.0/(1<<20)) }

//verif:weight=10
func VH_P04_noise64() { vhP04[uint64](1, 1.0/(1<<30)) }

// Message level, zero noise.
func vhP04Msg[T TorusInt]() {
	params := vhParams[T](vhP{n: 2, msg: 8, order: OrderKeySwitchBlindRotate})
	enc := NewEncryptor(params)
	pe := NewPublicEncryptor(params, enc.GenPublicKey())
	a := make([]int, 4)
	for i := range a {
		a[i] = int(vByte("a"))
	}
	sk, sl := vhGLWEKey(enc.SecretKey), enc.SecretKey.LWELargeKey.Value
	want := enc.EncodeGLWE(a)
	for i := 0; i < 4; i++ {
		vEqT(want.Value.Coeffs[i], T(a[i]%8)*params.Scale(), -1, "encoding")
	}
	ck := func(ct GLWECiphertext[T], msg string) {
		vhEq(vhPhaseGLWE(ct, sk), want.Value.Coeffs, vhTol[T](2), msg)
	}
	ct := pe.EncryptGLWE([]int{1, 2, 3, 4, 5, 6})
	pe.EncryptGLWETo(ct, a)
	ck(ct, "EncryptGLWETo")
	ck(pe.EncryptGLWE(a), "EncryptGLWE")
	f := pe.EncryptFFTGLWE(a)
	ck(enc.InvFFTGLWECiphertext(f), "EncryptFFTGLWE")
	pe.EncryptFFTGLWETo(f, a)
	ck(enc.InvFFTGLWECiphertext(f), "EncryptFFTGLWETo")
	l := pe.EncryptLWE(a[0])
	vEqT(vhPhaseLWE(l, sl), enc.EncodeLWE(a[0]).Value, vhTol[T](2), "EncryptLWE")
	pe.EncryptLWETo(l, a[1])
	vEqT(vhPhaseLWE(l, sl), enc.EncodeLWE(a[1]).Value, vhTol[T](2), "EncryptLWETo")
	// the decryption is exact when no value of the message is symbolic
	l = pe.EncryptLWE(5)
	if !vSymbolic() {
		vAssert(enc.DecryptLWE(l) == 5, "DecryptLWE")
		for i, v := range enc.DecryptGLWE(ct) {
			vAssert(v == 0 && i >= 4 || i < 4 && v == a[i]%8, "DecryptGLWE")
		}
	}
	vEnd()
}

func VH_P04_msg32() { vhP04Msg[uint32]() }
func VH_P04_msg64() { vhP04Msg[uint64]() }

// Randomness: every component carries fresh noise and a fresh ephemeral key.
func VH_P04_fresh() {
	k := 2
	params := vhParams[uint32](vhP{n: 2, k: k, std: 1.0 / 1024, gstd: 1.0 / 1024, order: OrderKeySwitchBlindRotate})
	// an all-zero public key leaves exactly the sampled noise
	pk := NewPublicKey(params)
	pe := NewPublicEncryptor(params, pk)
	ct := pe.EncryptGLWEPlaintext(NewGLWEPlaintext(params))
	for i := range ct.Value {
		vhAny(ct.Value[i].Coeffs, "every component of a polynomial encryption carries noise")
	}
	l := pe.EncryptLWEPlaintext(LWEPlaintext[uint32]{})
	vMust(l.Value[0] != 0, "scalar encryption body carries noise")
	for i := 0; i < k; i++ {
		vhAny(l.Value[1+16*i:17+16*i], "scalar encryption mask carries noise")
	}
	// a constant public key without noise exposes the ephemeral key
	params = vhParams[uint32](vhP{n: 2, k: k, order: OrderKeySwitchBlindRotate})
	pe = NewPublicEncryptor(params, pk)
	for i := 0; i < k; i++ {
		for j := 0; j <= k; j++ {
			pk.GLWEKey.Value[i].Value[j].Clear()
			pk.LWEKey.Value[i].Value[j].Clear()
		}
	}
	for i := 0; i < k; i++ {
		pk.GLWEKey.Value[i].Value[i+1].Coeffs[0] = 1
		pk.LWEKey.Value[i].Value[i+1].Coeffs[0] = 1
	}
	c0 := pe.EncryptGLWEPlaintext(NewGLWEPlaintext(params))
	c1 := pe.EncryptGLWEPlaintext(NewGLWEPlaintext(params))
	l0, l1 := pe.EncryptLWEPlaintext(LWEPlaintext[uint32]{}), pe.EncryptLWEPlaintext(LWEPlaintext[uint32]{})
	for i := 1; i <= k; i++ {
		vhAny(c0.Value[i].Coeffs, "ephemeral key is sampled")
		vhAny(vhSub(c0.Value[i].Coeffs, c1.Value[i].Coeffs), "ephemeral key is sampled for each encryption")
		vhAny(l0.Value[1+16*(i-1):1+16*i], "scalar ephemeral key is sampled")
		vhAny(vhSub(l0.Value[1+16*(i-1):1+16*i], l1.Value[1+16*(i-1):1+16*i]), "scalar ephemeral key is sampled for each encryption")
	}
	vEnd()
}

// Public keys: fresh masks and noise for every row.
func VH_P04_key() {
	k := 2
	params := vhParams[uint32](vhP{n: 2, k: k, std: 1.0 / 4096, gstd: 1.0 / 4096, order: OrderKeySwitchBlindRotate})
	enc := NewEncryptor(params)
	s := vhGLWEKey(enc.SecretKey)
	pk := enc.GenPublicKey()
	vAssert(len(pk.GLWEKey.Value) == k && len(pk.LWEKey.Value) == k, "public key rows")
	zero := make([]uint32, 16)
	rev := make([][]uint32, k)
	for i := range rev {
		rev[i] = make([]uint32, 16)
		for j := range rev[i] {
			rev[i][j] = s[i][15-j]
		}
	}
	var masks [][]uint32
	for i := 0; i < k; i++ {
		vhNear(vhPhaseGLWE(pk.GLWEKey.Value[i], s), zero, vhNz[uint32](1.0/4096), vhTol[uint32](2), "polynomial public key row")
		vhNear(vhPhaseGLWE(pk.LWEKey.Value[i], rev), zero, vhNz[uint32](1.0/4096), vhTol[uint32](2), "scalar public key row")
		for j := 1; j <= k; j++ {
			masks = append(masks, pk.GLWEKey.Value[i].Value[j].Coeffs, pk.LWEKey.Value[i].Value[j].Coeffs)
		}
	}
	vhFresh(masks, "public key")
	_ = poly.Poly[uint32]{}
	vEnd()
}

// Parameters without a public-key mode are rejected.
func VH_P04_reject() {
	params := vhParams[uint32](vhP{n: 2, order: OrderBlindRotateKeySwitch})
	enc := NewEncryptor(params)
	ok := params.IsPublicKeyEncryptable()
	vAssert(!ok, "scalar ciphertexts under the short key are not public-key encryptable")
	vAssert(vPanics(func() { enc.GenPublicKey() }), "GenPublicKey rejects")
	vAssert(vPanics(func() { NewPublicKey(params) }), "NewPublicKey rejects")
	vAssert(vPanics(func() { NewLWEPublicKey(params) }), "NewLWEPublicKey rejects")
	vAssert(vPanics(func() { NewPublicEncryptor(params, PublicKey[uint32]{}) }), "NewPublicEncryptor rejects")
	vEnd()
}
