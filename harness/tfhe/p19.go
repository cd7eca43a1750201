//go:build verifharness

package tfhe

// vhBitsLen: integers of up to 64 bits as vectors of encrypted bits; the bits
// listed in vary are arbitrary, the others follow a pattern.
func vhBitsLen[T TorusInt](p vhP, bits int, vary []int, pat uint64) {
	params := vhParams[T](p)
	enc := NewBinaryEncryptor(params)
	s, _ := vhDefKey(params, enc.Encryptor.SecretKey)
	q8 := T(1) << uint(params.LogQ()-3)
	m := pat
	for _, v := range vary {
		m ^= uint64(vBit[uint32]("m")) << uint(v)
	}
	msg := int(m)
	check := func(ct []LWECiphertext[T], dec *BinaryEncryptor[T], what string) {
		vAssert(len(ct) == bits, what+": length")
		for i := range ct {
			bit := T(m>>uint(i)) & 1
			d := vhPhaseLWE(ct[i], s) - (2*bit-1)*q8
			if params.LWEStdDev() < 1e-50 {
				vEqT(d, 0, vhTol[T](6), what+": phase of each bit")
			}
		}
		got := dec.DecryptLWEBits(ct)
		want := m
		if bits < 64 {
			want &= 1<<uint(bits) - 1
		}
		vAssert(uint64(got) == want, what+": decrypted integer")
	}
	check(enc.EncryptLWEBits(msg, bits), enc, "EncryptLWEBits")
	o := make([]LWECiphertext[T], bits)
	for i := range o {
		o[i] = LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
	}
	enc.EncryptLWEBitsTo(o, msg)
	check(o, enc, "EncryptLWEBitsTo")
	if params.IsPublicKeyEncryptable() && bits <= 6 {
		pub := enc.PublicEncryptor()
		check(pub.EncryptLWEBits(msg, bits), enc, "public EncryptLWEBits")
		for i := range o {
			o[i] = LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
		}
		pub.EncryptLWEBitsTo(o, msg)
		check(o, enc, "public EncryptLWEBitsTo")
	}
	vEnd()
}

// Single bits, with a secret and with a public key.
func vhBoolEnc[T TorusInt](p vhP) {
	params := vhParams[T](p)
	enc := NewBinaryEncryptor(params)
	s, _ := vhDefKey(params, enc.Encryptor.SecretKey)
	q8 := T(1) << uint(params.LogQ()-3)
	m := vBit[T]("m") == 1
	want := -q8
	if m {
		want = q8
	}
	check := func(ct LWECiphertext[T], what string) {
		vAssert(len(ct.Value) == len(s)+1, what+": size")
		vEqT(vhPhaseLWE(ct, s), want, vhTol[T](6), what+": phase")
		vAssert(enc.DecryptLWEBool(ct) == m, what+": decrypted bit")
	}
	old := func() LWECiphertext[T] { return LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)} }
	vEqT(enc.EncodeLWEBool(m).Value, want, -1, "EncodeLWEBool")
	x := vT[T]("x")
	vAssert(enc.DecodeLWEBool(LWEPlaintext[T]{Value: x}) == (x < T(1)<<uint(params.LogQ()-1)), "DecodeLWEBool is the sign")
	check(enc.EncryptLWEBool(m), "EncryptLWEBool")
	o := old()
	enc.EncryptLWEBoolTo(o, m)
	check(o, "EncryptLWEBoolTo")
	e2 := NewBinaryEncryptorWithKey(params, enc.Encryptor.SecretKey).SafeCopy()
	check(e2.EncryptLWEBool(m), "NewBinaryEncryptorWithKey")
	if params.IsPublicKeyEncryptable() {
		for _, pub := range []*BinaryPublicEncryptor[T]{enc.PublicEncryptor(), NewBinaryPublicEncryptor(params, enc.GenPublicKey()).SafeCopy()} {
			check(pub.EncryptLWEBool(m), "public EncryptLWEBool")
			o := old()
			pub.EncryptLWEBoolTo(o, m)
			check(o, "public EncryptLWEBoolTo")
		}
	}
	vEnd()
}

func VH_P19_bool32()    { vhBoolEnc[uint32](vhP{order: OrderKeySwitchBlindRotate}) }
func VH_P19_bool64()    { vhBoolEnc[uint64](vhP{order: OrderKeySwitchBlindRotate, k: 2}) }
func VH_P19_boolsmall() { vhBoolEnc[uint64](vhP{n: 5, order: OrderBlindRotateKeySwitch}) }

func VH_P19_none()  { vhBitsLen[uint32](vhP{}, 0, []int{0, 1}, 0) }
func VH_P19_one()   { vhBitsLen[uint32](vhP{}, 1, []int{0, 1}, 0) }
func VH_P19_five()  { vhBitsLen[uint32](vhP{}, 5, []int{0, 1, 2, 3, 4, 5}, 0) }
func VH_P19_six64() { vhBitsLen[uint64](vhP{}, 6, []int{0, 1, 2, 3, 4, 5}, 0xffffffffffffff00) }
func VH_P19_long() {
	vhBitsLen[uint32](vhP{order: OrderBlindRotateKeySwitch}, 64, []int{0, 31, 32, 62, 63}, 0x9c3f0f3305a5aa5c)
}
func VH_P19_word63() {
	vhBitsLen[uint32](vhP{order: OrderBlindRotateKeySwitch}, 63, []int{0, 30, 61, 62, 63}, 0xf0f035533aa51234)
}

//verif:tier=thorough
func VH_P19_eight() { vhBitsLen[uint32](vhP{}, 8, []int{0, 1, 2, 3, 4, 5, 6, 7, 8}, 1<<63) }
