//go:build verifharness

package mktfhe

import "github.com/sp301415/tfhe-go/tfhe"

type vhGate[T tfhe.TorusInt] struct {
	name string
	f    func(e *BinaryEvaluator[T], a, b LWECiphertext[T]) LWECiphertext[T]
	to   func(e *BinaryEvaluator[T], o, a, b LWECiphertext[T])
	t    func(a, b bool) bool
}

func vhMKGates[T tfhe.TorusInt]() []vhGate[T] {
	and := func(a, b bool) bool { return a && b }
	nand := func(a, b bool) bool { return !(a && b) }
	or := func(a, b bool) bool { return a || b }
	nor := func(a, b bool) bool { return !(a || b) }
	xor := func(a, b bool) bool { return a != b }
	xnor := func(a, b bool) bool { return a == b }
	return []vhGate[T]{
		{"AND", (*BinaryEvaluator[T]).AND, (*BinaryEvaluator[T]).ANDTo, and},
		{"NAND", (*BinaryEvaluator[T]).NAND, (*BinaryEvaluator[T]).NANDTo, nand},
		{"OR", (*BinaryEvaluator[T]).OR, (*BinaryEvaluator[T]).ORTo, or},
		{"NOR", (*BinaryEvaluator[T]).NOR, (*BinaryEvaluator[T]).NORTo, nor},
		{"XOR", (*BinaryEvaluator[T]).XOR, (*BinaryEvaluator[T]).XORTo, xor},
		{"XNOR", (*BinaryEvaluator[T]).XNOR, (*BinaryEvaluator[T]).XNORTo, xnor},
		{"ANDParallel", (*BinaryEvaluator[T]).ANDParallel, (*BinaryEvaluator[T]).ANDParallelTo, and},
		{"NANDParallel", (*BinaryEvaluator[T]).NANDParallel, (*BinaryEvaluator[T]).NANDParallelTo, nand},
		{"ORParallel", (*BinaryEvaluator[T]).ORParallel, (*BinaryEvaluator[T]).ORParallelTo, or},
		{"NORParallel", (*BinaryEvaluator[T]).NORParallel, (*BinaryEvaluator[T]).NORParallelTo, nor},
		{"XORParallel", (*BinaryEvaluator[T]).XORParallel, (*BinaryEvaluator[T]).XORParallelTo, xor},
		{"XNORParallel", (*BinaryEvaluator[T]).XNORParallel, (*BinaryEvaluator[T]).XNORParallelTo, xnor},
	}
}

// Every gate, on every pair of truth values that the keys of the parties make
// of the chosen masks and bodies, with errors up to 1/16 of the torus in sum.
func vhP35[T tfhe.TorusInt](p vhP, which []int, lo, hi int) {
	params := vhParams[T](p)
	encs, sks := vhSparseKeys(params)
	m := map[int]EvaluationKey[T]{}
	for _, i := range which {
		m[i] = encs[i].GenEvalKey()
	}
	e := NewBinaryEvaluator(params, m)
	s := vhDef(params, sks)
	P, n := params.PartyCount(), params.SubParams().LWEDimension()
	d := len(s) / P
	q8 := T(1) << uint(params.LogQ()-3)
	tol := vhTol[T](38)
	nb := p.bs
	if nb == 0 {
		nb = 1
	}
	errs := [][2]T{{0, 0}, {q8/2 - q8/256, q8 / 4}, {q8/256 - q8/2, -(q8 / 4)}, {q8 / 4, -(q8 / 4)}}
	gs := vhMKGates[T]()
	for gi := lo; gi < hi; gi++ {
		g := gs[gi]
		c := gi
		var ct [2]LWECiphertext[T]
		var step [2][]T
		for k := range ct {
			ct[k] = LWECiphertext[T]{Value: make([]T, len(s)+1)}
			step[k] = make([]T, P*n)
			for i := range step[k] {
				step[k][i] = T((i*(3+k)+c+1+2*k)%4) * 2 * q8
				ct[k].Value[1+i/n*d+i%n] = step[k][i]
			}
			b := q8
			if (c>>1+k)%2 == 1 {
				b = -q8
			}
			ct[k].Value[0] = b + errs[c%4][k]
		}
		old0, old1 := ct[0].Copy(), ct[1].Copy()
		check := func(out LWECiphertext[T], msg string) {
			msg = g.name + msg
			vAssert(len(out.Value) == len(s)+1, msg+": size")
			ph := vhPhaseLWE(out, s)
			valid := 0
			var rec func(w, i int, p0, p1, ind T)
			rec = func(w, i int, p0, p1, ind T) {
				if i == n {
					w, i = w+1, 0
				}
				if w == len(which) {
					a, b := int(p0/q8), int(p1/q8)
					if (a == 1 || a == 7) && (b == 1 || b == 7) {
						want := -q8
						if g.t(a == 1, b == 1) {
							want = q8
						}
						vEqT(ind*ph, ind*want, tol, msg)
						valid++
					}
					return
				}
				o := which[w] * n
				none := T(1)
				for k := i; k < i+nb; k++ {
					x := sks[which[w]].LWEKey.Value[k]
					none -= x
					rec(w, i+nb, p0+step[0][o+k], p1+step[1][o+k], ind*x)
				}
				rec(w, i+nb, p0, p1, ind*none)
			}
			rec(0, 0, old0.Value[0]-errs[c%4][0], old1.Value[0]-errs[c%4][1], 1)
			vCover(valid > 0, msg)
			vhEq(ct[0].Value, old0.Value, -1, msg+": first input unchanged")
			vhEq(ct[1].Value, old1.Value, -1, msg+": second input unchanged")
		}
		check(g.f(e, ct[0], ct[1]), "")
		switch gi % 3 {
		case 0:
			o := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
			g.to(e.SafeCopy(), o, ct[0], ct[1])
			check(o, "To")
		case 1:
			o := ct[0].Copy()
			g.to(e, o, o, ct[1])
			check(o, "To in place on the first input")
		case 2:
			o := ct[1].Copy()
			g.to(e, o, ct[0], o)
			check(o, "To in place on the second input")
		}
	}
	// NOT negates any phase
	a := LWECiphertext[T]{Value: vhVec[T]("a", len(s)+1)}
	b := a.Copy()
	vEqT(vhPhaseLWE(e.NOT(a), s), -vhPhaseLWE(b, s), -1, "NOT")
	vhEq(a.Value, b.Value, -1, "NOT: input unchanged")
	o := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
	e.NOTTo(o, a)
	vEqT(vhPhaseLWE(o, s), -vhPhaseLWE(b, s), -1, "NOTTo")
	e.NOTTo(a, a)
	vEqT(vhPhaseLWE(a, s), -vhPhaseLWE(b, s), -1, "NOTTo in place")
	vEnd()
}

func VH_P35_seq32() {
	vhP35[uint32](vhP{n: 2, bs: 2, order: tfhe.OrderKeySwitchBlindRotate}, []int{0, 1}, 0, 6)
}
func VH_P35_par32() {
	vhP35[uint32](vhP{n: 2, bs: 2, order: tfhe.OrderKeySwitchBlindRotate}, []int{0, 1}, 6, 12)
}
func VH_P35_brksseq() {
	vhP35[uint32](vhP{parties: 3, n: 2, bs: 2, order: tfhe.OrderBlindRotateKeySwitch}, []int{2}, 0, 6)
}
func VH_P35_brkspar() {
	vhP35[uint32](vhP{parties: 3, n: 2, order: tfhe.OrderBlindRotateKeySwitch}, []int{1}, 6, 12)
}
func VH_P35_seq64() {
	vhP35[uint64](vhP{n: 2, bs: 2, order: tfhe.OrderBlindRotateKeySwitch}, []int{0, 1}, 3, 6)
}

//verif:tier=thorough
func VH_P35_all64() {
	vhP35[uint64](vhP{n: 2, bs: 2, order: tfhe.OrderBlindRotateKeySwitch}, []int{0, 1}, 0, 12)
}

// Bits and integers as vectors of bits, encrypted by any party, decrypted with
// the keys of all.
func vhP35Bits[T tfhe.TorusInt](p vhP, bits int, vary []int, pat uint64) {
	params := vhParams[T](p)
	var encs []*BinaryEncryptor[T]
	sks := map[int]tfhe.SecretKey[T]{}
	var keys []tfhe.SecretKey[T]
	for i := 0; i < params.PartyCount(); i++ {
		e := NewBinaryEncryptor(params, i, []byte("crs"))
		encs = append(encs, e)
		sks[i] = e.Encryptor.SecretKey
		keys = append(keys, sks[i])
	}
	s := vhDef(params, keys)
	q8 := T(1) << uint(params.LogQ()-3)
	m := pat
	for _, v := range vary {
		m ^= uint64(vBit[uint32]("m")) << uint(v)
	}
	dec := NewBinaryDecryptor(params, sks)
	dec2 := dec.SafeCopy()
	check := func(ct []LWECiphertext[T], what string) {
		vAssert(len(ct) == bits, what+": length")
		for i := range ct {
			bit := T(m>>uint(i)) & 1
			vEqT(vhPhaseLWE(ct[i], s), (2*bit-1)*q8, vhTol[T](6), what+": phase of each bit")
		}
		want := m
		if bits < 64 {
			want &= 1<<uint(bits) - 1
		}
		vAssert(uint64(dec.DecryptLWEBits(ct)) == want, what+": decrypted integer")
		if bits > 0 {
			vAssert(dec2.DecryptLWEBool(ct[bits-1]) == (want>>uint(bits-1)&1 == 1), what+": decrypted bit")
		}
	}
	for i, enc := range encs {
		if i == 1 {
			enc = NewBinaryEncryptorWithKey(params, i, []byte("crs"), sks[i]).SafeCopy()
		}
		check(enc.EncryptLWEBits(int(m), bits), "EncryptLWEBits")
		o := make([]LWECiphertext[T], bits)
		for i := range o {
			o[i] = LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
		}
		enc.EncryptLWEBitsTo(o, int(m))
		check(o, "EncryptLWEBitsTo")
		if bits == 0 {
			continue
		}
		b := m&1 == 1
		o[0] = enc.EncryptLWEBool(b)
		check(o, "EncryptLWEBool")
		o[0] = LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
		enc.EncryptLWEBoolTo(o[0], b)
		check(o, "EncryptLWEBoolTo")
		if p.order == tfhe.OrderBlindRotateKeySwitch || bits > 6 || i == 0 {
			continue
		}
		pub := enc.PublicEncryptor()
		check(pub.EncryptLWEBits(int(m), bits), "public EncryptLWEBits")
		for i := range o {
			o[i] = LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
		}
		pub.SafeCopy().EncryptLWEBitsTo(o, int(m))
		check(o, "public EncryptLWEBitsTo")
		o[0] = pub.EncryptLWEBool(b)
		check(o, "public EncryptLWEBool")
		o[0] = LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
		pub.EncryptLWEBoolTo(o[0], b)
		check(o, "public EncryptLWEBoolTo")
	}
	vEnd()
}

func VH_P35_bits0() { vhP35Bits[uint32](vhP{}, 0, []int{0}, 0) }
func VH_P35_bits4() {
	vhP35Bits[uint32](vhP{order: tfhe.OrderKeySwitchBlindRotate}, 4, []int{0, 1, 2, 3, 4}, 0)
}
func VH_P35_bits3() {
	vhP35Bits[uint64](vhP{parties: 3, order: tfhe.OrderBlindRotateKeySwitch}, 3, []int{0, 1, 2, 3}, 0xffffffffffffff00)
}
func VH_P35_bits64() {
	vhP35Bits[uint32](vhP{order: tfhe.OrderBlindRotateKeySwitch}, 64, []int{0, 31, 32, 63}, 0x9c3f0f3305a5aa5c)
}
