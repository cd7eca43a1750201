//go:build verifharness

package tfhe

import "github.com/sp301415/tfhe-go/math/poly"

// Extraction of every coefficient, for arbitrary ciphertexts and keys.
func vhExtract[T TorusInt](k, N int) {
	ct := vhGLWE[T]("ct", k, N)
	ct0 := ct.Copy()
	sk := NewGLWESecretKeyCustom[T](k, N)
	for i := range sk.Value {
		copy(sk.Value[i].Coeffs, vhVec[T]("s", N))
	}
	s := make([][]T, k)
	var flat []T
	for i := range s {
		s[i] = sk.Value[i].Coeffs
		flat = append(flat, s[i]...)
	}
	l := sk.AsLWEKey()
	vhEq(l.Value, flat, -1, "AsLWEKey")
	lt := LWESecretKey[T]{Value: vhVec[T]("old", k*N)}
	sk.AsLWEKeyTo(lt)
	vhEq(lt.Value, flat, -1, "AsLWEKeyTo")
	ph := vhPhaseGLWE(ct, s)
	for i := 0; i < N; i++ {
		c := ct.AsLWECiphertext(i)
		vAssert(len(c.Value) == k*N+1, "AsLWECiphertext: size")
		vEqT(vhPhaseLWE(c, flat), ph[i], -1, "extraction preserves the phase")
		c = LWECiphertext[T]{Value: vhVec[T]("old", k*N+1)}
		ct.AsLWECiphertextTo(i, c)
		vEqT(vhPhaseLWE(c, flat), ph[i], -1, "extraction into a used output preserves the phase")
	}
	for i := range ct.Value {
		vhEq(ct.Value[i].Coeffs, ct0.Value[i].Coeffs, -1, "extraction keeps its input")
	}
	// the flat key is a copy
	l.Value[0] += 1
	vEqT(sk.Value[0].Coeffs[0], flat[0], -1, "AsLWEKey is a copy")
}

func VH_P11_extract32() { vhExtract[uint32](1, 16) }
func VH_P11_extract64() { vhExtract[uint64](2, 16) }
func VH_P11_rank3()     { vhExtract[uint32](3, 16) }

//verif:tier=thorough
func VH_P11_extract128() { vhExtract[uint64](2, 64) }

// The views of one secret key, in every way a secret key comes about.
func vhViews[T TorusInt](k, n, bs int, order BootstrapOrder) {
	params := vhParams[T](vhP{n: n, k: k, bs: bs, order: order})
	N := params.PolyRank()
	ev := poly.NewEvaluator[T](N)
	check := func(sk SecretKey[T], full bool, msg string) {
		vAssert(len(sk.LWELargeKey.Value) == k*N && len(sk.LWEKey.Value) == n && len(sk.GLWEKey.Value) == k && len(sk.FFTGLWEKey.Value) == k, msg+": sizes")
		for i := range sk.LWEKey.Value {
			vEqT(sk.LWEKey.Value[i], sk.LWELargeKey.Value[i], -1, msg+": the small key is the head of the large key")
		}
		for i := range sk.GLWEKey.Value {
			vhEq(sk.GLWEKey.Value[i].Coeffs, sk.LWELargeKey.Value[i*N:(i+1)*N], -1, msg+": polynomial and flat key")
			if full {
				f := ev.FwdFFT(sk.GLWEKey.Value[i])
				for j := range f.Coeffs {
					vEqF(sk.FFTGLWEKey.Value[i].Coeffs[j], f.Coeffs[j], 1e-6, msg+": frequency form of the key")
				}
			}
		}
	}
	e := NewEncryptor(params)
	sk := e.SecretKey
	check(sk, true, "NewEncryptor")
	sk = e.GenSecretKey()
	check(sk, true, "GenSecretKey")
	for i := 0; i < n; i += bs {
		var c T
		for j := i; j < i+bs; j++ {
			c += sk.LWEKey.Value[j]
		}
		if bs > 1 {
			vAssert(c <= 1, "at most one bit of a block is set")
		}
	}
	check(NewEncryptorWithKey(params, sk).SecretKey, true, "NewEncryptorWithKey")
	check(sk.Copy(), true, "Copy")
	o := NewSecretKey(params)
	o.CopyFrom(sk)
	check(o, true, "CopyFrom")
	for i := range sk.LWELargeKey.Value {
		vEqT(o.LWELargeKey.Value[i], sk.LWELargeKey.Value[i], -1, "CopyFrom copies the key")
	}
	o = NewSecretKeyCustom[T](n, k, N)
	o.CopyFrom(sk)
	check(o, true, "NewSecretKeyCustom")
	// the views of one key share their storage
	o.LWELargeKey.Value[0] = vT[T]("x")
	o.LWELargeKey.Value[k*N-1] = vT[T]("x")
	check(o, false, "shared views")
	c := o.Copy()
	c.GLWEKey.Value[k-1].Coeffs[N-1] = vT[T]("x")
	c.LWEKey.Value[n-1] = vT[T]("x")
	check(c, false, "shared views of a copy")
	o.Clear()
	check(o, true, "Clear")
	for i := range o.LWELargeKey.Value {
		vEqT(o.LWELargeKey.Value[i], 0, -1, "Clear clears the key")
	}
	// the default key of scalar ciphertexts
	def := e.DefaultLWESecretKey()
	want, _ := vhDefKey(params, e.SecretKey)
	vhEq(def.Value, want, -1, "DefaultLWESecretKey")
	vAssert(params.DefaultLWEDimension() == len(want), "DefaultLWEDimension")
	vEnd()
}

func VH_P11_views32()   { vhViews[uint32](1, 3, 1, OrderKeySwitchBlindRotate) }
func VH_P11_views64()   { vhViews[uint64](2, 6, 2, OrderBlindRotateKeySwitch) }
func VH_P11_viewsall()  { vhViews[uint32](1, 16, 1, OrderBlindRotateKeySwitch) }
func VH_P11_viewslong() { vhViews[uint64](2, 20, 4, OrderKeySwitchBlindRotate) }
