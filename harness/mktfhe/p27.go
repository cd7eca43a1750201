//go:build verifharness

package mktfhe

import (
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

func vhEncs[T tfhe.TorusInt](params Parameters[T]) ([]*Encryptor[T], []tfhe.SecretKey[T]) {
	var encs []*Encryptor[T]
	var sks []tfhe.SecretKey[T]
	for i := 0; i < params.PartyCount(); i++ {
		e := NewEncryptor(params, i, []byte("crs"))
		encs = append(encs, e)
		sks = append(sks, e.SecretKey)
	}
	return encs, sks
}

func vhZero[T tfhe.TorusInt](x []T, msg string) {
	for i := range x {
		vEqT(x[i], 0, -1, msg)
	}
}

// A fresh encryption by one party: the phase under the joint key is the message
// plus noise, and the parts of the other parties are zero.
func vhP27Enc[T tfhe.TorusInt](p vhP, pub bool) {
	params := vhParams[T](p)
	encs, sks := vhEncs(params)
	s, ks := vhDef(params, sks), vhKeys(sks)
	nz := vhNz[T](p.std)
	tol, ltol := vhTol[T](8), -1
	near := vhNear[T]
	if pub {
		ltol = tol
		near = func(a, b []T, nz, tol int, msg string) { vhEq(a, b, tol, msg) }
	}
	P := params.PartyCount()
	d := len(s) / P
	N := params.PolyRank()
	ptl := tfhe.LWEPlaintext[T]{Value: vT[T]("pt")}
	ptg := tfhe.GLWEPlaintext[T]{Value: vhPoly[T]("ptg", N)}
	pg0 := vhCp(ptg.Value.Coeffs)
	vAssert(len(s) == params.DefaultLWEDimension(), "default LWE dimension")
	type enc interface {
		EncryptLWEPlaintext(tfhe.LWEPlaintext[T]) LWECiphertext[T]
		EncryptLWEPlaintextTo(LWECiphertext[T], tfhe.LWEPlaintext[T])
		EncryptLWEBody(LWECiphertext[T])
		EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]) GLWECiphertext[T]
		EncryptGLWEPlaintextTo(GLWECiphertext[T], tfhe.GLWEPlaintext[T])
		EncryptGLWEBody(GLWECiphertext[T])
		EncryptFFTGLWEPlaintext(tfhe.GLWEPlaintext[T]) FFTGLWECiphertext[T]
		EncryptFFTGLWEPlaintextTo(FFTGLWECiphertext[T], tfhe.GLWEPlaintext[T])
	}
	for idx, e0 := range encs {
		var es []enc
		if pub {
			x := NewPublicEncryptor(params, idx, e0.GenPublicKey())
			vAssert(x.Index == idx, "index")
			es = []enc{x, x.SafeCopy()}
		} else {
			x := NewEncryptorWithKey(params, idx, []byte("crs"), sks[idx])
			vAssert(x.Index == idx && e0.Index == idx, "index")
			es = []enc{e0, e0.SafeCopy(), x}
		}
		for k, e := range es {
			if k > 0 && idx > 0 {
				continue
			}
			lwe := func(ct LWECiphertext[T], msg string) {
				vAssert(len(ct.Value) == len(s)+1, msg+": length")
				for j := 0; j < P; j++ {
					if j != idx {
						vhZero(ct.Value[1+j*d:1+(j+1)*d], msg+": parts of other parties are zero")
					}
				}
				near([]T{vhPhaseLWE(ct, s)}, []T{ptl.Value}, nz, ltol, msg)
			}
			a := e.EncryptLWEPlaintext(ptl)
			lwe(a, "EncryptLWEPlaintext")
			b := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
			e.EncryptLWEPlaintextTo(b, ptl)
			lwe(b, "EncryptLWEPlaintextTo")
			c := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
			c.Value[0] = ptl.Value
			e.EncryptLWEBody(c)
			lwe(c, "EncryptLWEBody")
			if !pub {
				vhFresh([][]T{a.Value[1+idx*d : 1+(idx+1)*d], b.Value[1+idx*d : 1+(idx+1)*d]}, "EncryptLWEPlaintext")
			}
			glwe := func(ct GLWECiphertext[T], msg string) {
				vAssert(len(ct.Value) == P+1, msg+": length")
				for j := 0; j < P; j++ {
					if j != idx {
						vhZero(ct.Value[1+j].Coeffs, msg+": parts of other parties are zero")
					}
				}
				near(vhPhaseGLWE(ct, ks), pg0, nz, tol, msg)
			}
			g := e.EncryptGLWEPlaintext(ptg)
			glwe(g, "EncryptGLWEPlaintext")
			o := vhGLWE[T]("old", P, N)
			e.EncryptGLWEPlaintextTo(o, ptg)
			glwe(o, "EncryptGLWEPlaintextTo")
			if !pub {
				vhFresh([][]T{g.Value[1+idx].Coeffs, o.Value[1+idx].Coeffs}, "EncryptGLWEPlaintext")
			}
			o = vhGLWE[T]("old", P, N)
			o.Value[0].CopyFrom(ptg.Value)
			e.EncryptGLWEBody(o)
			glwe(o, "EncryptGLWEBody")
			f := e.EncryptFFTGLWEPlaintext(ptg)
			glwe(e0.InvGLWECiphertext(f), "EncryptFFTGLWEPlaintext")
			f = e0.FwdFFTGLWECiphertext(vhGLWE[T]("old", P, N))
			e.EncryptFFTGLWEPlaintextTo(f, ptg)
			glwe(e0.InvGLWECiphertext(f), "EncryptFFTGLWEPlaintextTo")
			vhEq(ptg.Value.Coeffs, pg0, -1, "plaintext unchanged")
		}
	}
	vEnd()
}

func VH_P27_enc32() { vhP27Enc[uint32](vhP{std: 1e-4}, false) }
func VH_P27_enc64() {
	vhP27Enc[uint64](vhP{parties: 3, n: 3, std: 1e-8, order: tfhe.OrderBlindRotateKeySwitch}, false)
}
func VH_P27_pub32() { vhP27Enc[uint32](vhP{}, true) }
func VH_P27_pub64() { vhP27Enc[uint64](vhP{parties: 3}, true) }

// Decryption of any ciphertext, with the keys of all or some of the parties.
func vhP27Dec[T tfhe.TorusInt](p vhP, which []int) {
	params := vhParams[T](p)
	encs, sks := vhEncs(params)
	m := map[int]tfhe.SecretKey[T]{}
	s, ks := vhDef(params, sks), vhKeys(sks)
	P, N := params.PartyCount(), params.PolyRank()
	d := len(s) / P
	in := make([]bool, P)
	for _, i := range which {
		m[i] = sks[i]
		in[i] = true
	}
	// restricted keys: an absent party contributes nothing
	rs, rk := vhCp(s), append([][]T(nil), ks...)
	for i := range in {
		if !in[i] {
			copy(rs[i*d:(i+1)*d], make([]T, d))
			rk[i] = make([]T, N)
		}
	}
	dec := NewDecryptor(params, m)
	ct := LWECiphertext[T]{Value: vhVec[T]("ct", len(s)+1)}
	g := vhGLWE[T]("g", P, N)
	c0, g0 := ct.Copy(), g.Copy()
	tol := vhTol[T](6)
	check := func(dec *Decryptor[T], rs []T, rk [][]T, msg string) {
		vEqT(dec.DecryptLWEPlaintext(ct).Value, vhPhaseLWE(ct, rs), -1, msg+"DecryptLWEPlaintext")
		want := vhPhaseGLWE(g, rk)
		vhEq(dec.DecryptGLWEPhase(g).Value.Coeffs, want, tol, msg+"DecryptGLWEPhase")
		o := tfhe.GLWEPlaintext[T]{Value: vhPoly[T]("old", N)}
		dec.DecryptGLWEPhaseTo(o, g)
		vhEq(o.Value.Coeffs, want, tol, msg+"DecryptGLWEPhaseTo")
		fg := dec.FwdFFTGLWECiphertext(g)
		vhEq(dec.DecryptFFTGLWEPhase(fg).Value.Coeffs, want, tol, msg+"DecryptFFTGLWEPhase")
		o = tfhe.GLWEPlaintext[T]{Value: vhPoly[T]("old", N)}
		dec.DecryptFFTGLWEPhaseTo(o, fg)
		vhEq(o.Value.Coeffs, want, tol, msg+"DecryptFFTGLWEPhaseTo")
		vhEq(ct.Value, c0.Value, -1, msg+"input unchanged")
		vhEqGLWE(g, g0, -1, msg+"input unchanged")
	}
	check(dec, rs, rk, "")
	cp := dec.SafeCopy()
	check(cp, rs, rk, "SafeCopy ")
	// adding the remaining keys later
	for i := range in {
		if !in[i] {
			dec.AddSecretKey(i, sks[i])
		}
	}
	check(dec, s, ks, "after AddSecretKey ")
	check(cp, rs, rk, "SafeCopy is independent of AddSecretKey ")
	// messages: the sum of encryptions by every party decrypts to the sum
	for i, e := range encs {
		x, y := (i+1)%int(params.MessageModulus()), (i*3+2)%int(params.MessageModulus())
		vAssert(dec.DecryptLWE(e.EncryptLWE(x)) == x, "EncryptLWE then DecryptLWE")
		b := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
		e.EncryptLWETo(b, y)
		vAssert(dec.DecryptLWE(b) == y, "EncryptLWETo then DecryptLWE")
		ms := []int{x, y, 0, 1}
		got := dec.DecryptGLWE(e.EncryptGLWE(ms))
		got2 := make([]int, N)
		dec.DecryptGLWETo(got2, e.EncryptGLWE(ms))
		got3 := dec.DecryptFFTGLWE(e.EncryptFFTGLWE(ms))
		o := vhGLWE[T]("old", P, N)
		e.EncryptGLWETo(o, ms)
		got4 := make([]int, N)
		fo := e.FwdFFTGLWECiphertext(vhGLWE[T]("old", P, N))
		e.EncryptFFTGLWETo(fo, ms)
		dec.DecryptFFTGLWETo(got4, fo)
		got5 := dec.DecryptGLWE(o)
		for j := 0; j < N; j++ {
			w := 0
			if j < len(ms) {
				w = ms[j]
			}
			vAssert(got[j] == w && got2[j] == w && got3[j] == w && got4[j] == w && got5[j] == w, "EncryptGLWE then DecryptGLWE")
		}
	}
	vEnd()
}

func VH_P27_dec32() { vhP27Dec[uint32](vhP{}, []int{0, 1}) }
func VH_P27_dec64() {
	vhP27Dec[uint64](vhP{parties: 3, order: tfhe.OrderBlindRotateKeySwitch}, []int{0, 1, 2})
}
func VH_P27_decsome() {
	vhP27Dec[uint32](vhP{parties: 3, order: tfhe.OrderBlindRotateKeySwitch}, []int{2})
}
func VH_P27_decmid()  { vhP27Dec[uint64](vhP{parties: 3}, []int{1, 0}) }
func VH_P27_decnone() { vhP27Dec[uint32](vhP{parties: 2}, nil) }

// Embedding of single-key ciphertexts and extraction of coefficients.
func vhP27Embed[T tfhe.TorusInt](p vhP) {
	params := vhParams[T](p)
	_, sks := vhEncs(params)
	s, ks := vhDef(params, sks), vhKeys(sks)
	P, N := params.PartyCount(), params.PolyRank()
	d := len(s) / P
	var large []T
	for i := range ks {
		large = append(large, sks[i].LWELargeKey.Value...)
	}
	for i := 0; i < P; i++ {
		x := tfhe.LWECiphertext[T]{Value: vhVec[T]("x", d+1)}
		o := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
		o.CopyFromSubKey(x, i)
		vEqT(vhPhaseLWE(o, s), x.Value[0]+vhDot(x.Value[1:], s[i*d:(i+1)*d]), -1, "CopyFromSubKey LWE")
		for j := 0; j < P; j++ {
			if j != i {
				vhZero(o.Value[1+j*d:1+(j+1)*d], "CopyFromSubKey clears other parties")
			}
		}
		y := tfhe.GLWECiphertext[T]{Value: []poly.Poly[T]{vhPoly[T]("y", N), vhPoly[T]("y", N)}}
		g := vhGLWE[T]("old", P, N)
		g.CopyFromSubKey(y, i)
		vhEq(vhPhaseGLWE(g, ks), vhAdd(y.Value[0].Coeffs, vhMul(y.Value[1].Coeffs, ks[i])), -1, "CopyFromSubKey GLWE")
		for j := 0; j < P; j++ {
			if j != i {
				vhZero(g.Value[1+j].Coeffs, "CopyFromSubKey clears other parties")
			}
		}
	}
	g := vhGLWE[T]("g", P, N)
	ph := vhPhaseGLWE(g, ks)
	for idx := 0; idx < N; idx++ {
		l := g.AsLWECiphertext(idx)
		vAssert(len(l.Value) == P*N+1, "AsLWECiphertext length")
		vEqT(vhPhaseLWE(l, large), ph[idx], -1, "AsLWECiphertext")
		o := LWECiphertext[T]{Value: vhVec[T]("old", P*N+1)}
		g.AsLWECiphertextTo(o, idx)
		vEqT(vhPhaseLWE(o, large), ph[idx], -1, "AsLWECiphertextTo")
	}
	vEnd()
}

func VH_P27_embed32() {
	vhP27Embed[uint32](vhP{parties: 2, n: 3, order: tfhe.OrderBlindRotateKeySwitch})
}
func VH_P27_embed64() { vhP27Embed[uint64](vhP{parties: 3}) }

// UniEncryption: the first part hides the message under the auxiliary key with
// the common reference string as mask, the second the auxiliary key.
func vhP27Uni[T tfhe.TorusInt](p vhP) {
	params := vhParams[T](p)
	encs, sks := vhEncs(params)
	ks := vhKeys(sks)
	N := params.PolyRank()
	g := params.RelinKeyParameters()
	m := vhPoly[T]("m", N)
	m0 := vhCp(m.Coeffs)
	tol := vhTol[T](8)
	for idx, e := range encs {
		check := func(u UniEncryption[T], m []T, msg string) {
			vAssert(len(u.Value) == 2 && u.GadgetParams == g, msg+": shape")
			// the auxiliary key, read back from the second part
			r := make([]T, N)
			for i := 0; i < g.Level(); i++ {
				ph := vhAdd(u.Value[1].Value[i].Value[0].Coeffs, vhMul(u.Value[1].Value[i].Value[1].Coeffs, ks[idx]))
				if i == 0 {
					lb := g.LogFirstBaseQ()
					for j := range r {
						if !vSymbolic() {
							r[j] = (ph[j] + 1<<uint(lb-1)) >> uint(lb)
							continue
						}
						r[j] = vRed(ph[j]) >> uint(lb)
						vAssert(r[j] <= 1, msg+": auxiliary key is binary")
						if msg == "UniEncryptPoly" || msg == "FFTUniEncryptPoly" {
							vMust(r[j] == 1, msg+": auxiliary key is sampled")
						}
					}
				}
				vhEq(ph, vhScale(r, g.BaseQ(i)), tol, msg+": second part encrypts the auxiliary key")
			}
			for i := 0; i < g.Level(); i++ {
				vhEq(u.Value[0].Value[i].Value[1].Coeffs, e.CRS[i].Coeffs, tol, msg+": mask is the common reference string")
				ph := vhSub(u.Value[0].Value[i].Value[0].Coeffs, vhMul(u.Value[0].Value[i].Value[1].Coeffs, r))
				vhEq(ph, vhScale(m, g.BaseQ(i)), tol, msg+": first part encrypts the message")
			}
		}
		for i := range e.CRS {
			vhEq(e.CRS[i].Coeffs, encs[0].CRS[i].Coeffs, -1, "parties share the common reference string")
		}
		check(e.UniEncryptPoly(m, g), m0, "UniEncryptPoly")
		u := NewUniEncryption(params, g)
		for i := range u.Value {
			for j := range u.Value[i].Value {
				for k := range u.Value[i].Value[j].Value {
					u.Value[i].Value[j].Value[k] = vhPoly[T]("old", N)
				}
			}
		}
		fu := e.FwdFFTUniEncryption(u)
		e.UniEncryptPolyTo(u, m)
		check(u, m0, "UniEncryptPolyTo")
		check(e.InvFFTUniEncryption(e.FFTUniEncryptPoly(m, g)), m0, "FFTUniEncryptPoly")
		e.FFTUniEncryptPolyTo(fu, m)
		check(e.InvFFTUniEncryption(fu), m0, "FFTUniEncryptPolyTo")
		check(e.InvFFTUniEncryption(e.GenRelinKey()), ks[idx], "GenRelinKey")
		vhEq(m.Coeffs, m0, -1, "message unchanged")
		if idx > 0 {
			continue
		}
		// integer messages
		ms := []int{1, 2, 0, 1}
		w := make([]T, N)
		for i := range ms {
			w[i] = T(ms[i])
		}
		check(e.UniEncrypt(ms, g), w, "UniEncrypt")
		e.UniEncryptTo(u, ms, g)
		check(u, w, "UniEncryptTo")
		check(e.InvFFTUniEncryption(e.FFTUniEncrypt(ms, g)), w, "FFTUniEncrypt")
		e.FFTUniEncryptTo(fu, ms, g)
		check(e.InvFFTUniEncryption(fu), w, "FFTUniEncryptTo")
		// reduced modulo the message modulus
		p := int(params.MessageModulus())
		ms = []int{1 - 3*p, 2 + p<<10, -p, p - 1}
		copy(w, []T{1, 2, 0, T(p - 1)})
		check(e.UniEncrypt(ms, g), w, "UniEncrypt reduces the message")
		e.FFTUniEncryptTo(fu, ms, g)
		check(e.InvFFTUniEncryption(fu), w, "FFTUniEncryptTo reduces the message")
	}
	// the common reference string public key
	for idx, e := range encs {
		pk := e.SubEncryptor.InvFFTGLevCiphertext(e.GenCRSPublicKey())
		for i := range pk.Value {
			vhEq(pk.Value[i].Value[1].Coeffs, e.CRS[i].Coeffs, tol, "GenCRSPublicKey: mask is the common reference string")
			ph := vhAdd(pk.Value[i].Value[0].Coeffs, vhMul(pk.Value[i].Value[1].Coeffs, ks[idx]))
			vhEq(ph, make([]T, N), tol, "GenCRSPublicKey encrypts zero")
		}
	}
	vEnd()
}

func VH_P27_uni32() { vhP27Uni[uint32](vhP{rbase: 8, rlevel: 3}) }
func VH_P27_uni64() { vhP27Uni[uint64](vhP{msg: 3, rbase: 12, rlevel: 4}) }

// Decryption of UniEncryption.
func vhP27UniDec[T tfhe.TorusInt](p vhP) {
	params := vhParams[T](p)
	encs, _ := vhEncs(params)
	N := params.PolyRank()
	g := params.RelinKeyParameters()
	e := encs[1]
	m := make([]T, N)
	for i := range m {
		m[i] = T(vByte("m")) & 3
	}
	check := func(q poly.Poly[T], msg string) {
		lim := T(0)
		for i := range q.Coeffs {
			// modulo the base: the message is recovered from the first level
			vEqT((q.Coeffs[i]-m[i])&(g.Base()-1), lim, -1, msg)
		}
	}
	u := e.UniEncryptPoly(vhPl(m), g)
	check(e.UniDecryptPoly(u), "UniDecryptPoly")
	o := vhPoly[T]("old", N)
	e.UniDecryptPolyTo(o, u)
	check(o, "UniDecryptPolyTo")
	fu := e.FFTUniEncryptPoly(vhPl(m), g)
	check(e.FFTUniDecryptPoly(fu), "FFTUniDecryptPoly")
	o = vhPoly[T]("old", N)
	e.FFTUniDecryptPolyTo(o, fu)
	check(o, "FFTUniDecryptPolyTo")
	vEnd()
}

func VH_P27_unidec32() { vhP27UniDec[uint32](vhP{rbase: 8, rlevel: 3}) }
func VH_P27_unidec64() { vhP27UniDec[uint64](vhP{rbase: 12, rlevel: 4}) }

// Integer messages come back, whatever the key, the mask and a small noise.
func vhP27UniMsg[T tfhe.TorusInt](p vhP) {
	params := vhParams[T](p)
	encs, _ := vhEncs(params)
	N, g := params.PolyRank(), params.RelinKeyParameters()
	q := int(params.MessageModulus())
	e := encs[1]
	r := vChoose("r", q)
	ms := []int{0, r, r - 2*q}
	check := func(got []int, msg string) {
		vAssert(len(got) == N, msg+": length")
		for i := range got {
			w := 0
			if i == 1 || i == 2 {
				w = r
			}
			vAssert(got[i] == w, msg)
		}
	}
	noisy := func(u UniEncryption[T]) UniEncryption[T] {
		for i := 0; i < 4; i++ {
			u.Value[0].Value[0].Value[0].Coeffs[i] += T(vByte("noise")) - 128
		}
		return u
	}
	u := noisy(e.UniEncrypt(ms, g))
	check(e.UniDecrypt(u), "UniDecrypt(UniEncrypt)")
	out := make([]int, N)
	e.UniDecryptTo(out, u)
	check(out, "UniDecryptTo")
	f := e.FwdFFTUniEncryption(noisy(e.InvFFTUniEncryption(e.FFTUniEncrypt(ms, g))))
	check(e.FFTUniDecrypt(f), "FFTUniDecrypt(FFTUniEncrypt)")
	out = make([]int, N)
	e.FFTUniDecryptTo(out, f)
	check(out, "FFTUniDecryptTo")
	vEnd()
}

func VH_P27_unimsg32() { vhP27UniMsg[uint32](vhP{msg: 3, rbase: 8, rlevel: 3}) }
func VH_P27_unimsg64() { vhP27UniMsg[uint64](vhP{msg: 4, rbase: 12, rlevel: 4}) }

// Indices outside the parties are refused.
func VH_P27_index() {
	params := vhParams[uint32](vhP{parties: 3})
	idx := vInt("idx")
	vAssume(idx >= -1 && idx <= 5)
	sk := tfhe.NewEncryptor(params.SubParams()).SecretKey
	bad := idx < 0 || idx >= 3
	refused := vPanics(func() {
		e := NewEncryptorWithKey(params, idx, nil, sk)
		e.EncryptLWEPlaintext(tfhe.LWEPlaintext[uint32]{})
	})
	vAssert(refused == bad, "NewEncryptorWithKey accepts exactly the indices of the parties")
	vEnd()
}
