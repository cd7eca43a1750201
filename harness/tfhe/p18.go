//go:build verifharness

package tfhe

// Every binary gate on every pair of encrypted truth values that the key makes
// of the chosen masks and bodies, with errors up to 1/16 of the torus.
func vhGates[T TorusInt](p vhP, cfgs int) {
	params := vhParams[T](p)
	enc := NewBinaryEncryptor(params)
	e := NewBinaryEvaluator(params, enc.GenEvalKeyParallel())
	s, _ := vhDefKey(params, enc.Encryptor.SecretKey)
	sl := enc.Encryptor.SecretKey.LWEKey.Value
	n := len(sl)
	q8 := T(1) << uint(params.LogQ()-3)
	q64 := q8 / 8
	tol := vhMax(vhTol[T](p.base+8), vhTol[T](p.kbase))
	if !vSymbolic() {
		tol = vhTol[T](p.base + 10)
	}
	nb := p.bs
	if nb == 0 {
		nb = 1
	}
	type gate struct {
		name string
		f    func(e *BinaryEvaluator[T], a, b LWECiphertext[T]) LWECiphertext[T]
		to   func(e *BinaryEvaluator[T], o, a, b LWECiphertext[T])
		t    func(a, b bool) bool
	}
	gates := []gate{
		{"AND", (*BinaryEvaluator[T]).AND, (*BinaryEvaluator[T]).ANDTo, func(a, b bool) bool { return a && b }},
		{"NAND", (*BinaryEvaluator[T]).NAND, (*BinaryEvaluator[T]).NANDTo, func(a, b bool) bool { return !(a && b) }},
		{"OR", (*BinaryEvaluator[T]).OR, (*BinaryEvaluator[T]).ORTo, func(a, b bool) bool { return a || b }},
		{"NOR", (*BinaryEvaluator[T]).NOR, (*BinaryEvaluator[T]).NORTo, func(a, b bool) bool { return !(a || b) }},
		{"XOR", (*BinaryEvaluator[T]).XOR, (*BinaryEvaluator[T]).XORTo, func(a, b bool) bool { return a != b }},
		{"XNOR", (*BinaryEvaluator[T]).XNOR, (*BinaryEvaluator[T]).XNORTo, func(a, b bool) bool { return a == b }},
	}
	errs := [][2]T{{0, 0}, {4*q64 - q64>>12, 3 * q64}, {q64>>12 - 4*q64, -(3 * q64)}, {3 * q64, -(3 * q64)}}
	masks := [][2][3]int{{{1, 3, 2}, {3, 2, 1}}, {{2, 1, 1}, {2, 3, 0}}, {{0, 2, 1}, {1, 1, 2}}, {{3, 0, 3}, {0, 1, 3}}}
	for c := 0; c < cfgs; c++ {
		var ct [2]LWECiphertext[T]
		for k := range ct {
			ct[k] = NewLWECiphertext(params)
			for i := 0; i < n; i++ {
				ct[k].Value[i+1] = T(masks[c%4][k][i%3]) * 2 * q8
			}
			b := q8
			if (c>>1+k)%2 == 1 {
				b = -q8
			}
			ct[k].Value[0] = b + errs[c%4][k]
		}
		old0, old1 := ct[0].Copy(), ct[1].Copy()
		// each assignment of the key that makes both inputs valid encryptions
		check := func(g gate, out LWECiphertext[T], msg string) {
			vAssert(len(out.Value) == len(s)+1, g.name+": size")
			ph := vhPhaseLWE(out, s)
			valid := 0
			var rec func(i int, p0, p1, ind T)
			rec = func(i int, p0, p1, ind T) {
				if i == n {
					// phases are odd multiples of 1/8 plus the error
					a, b := int(p0/q8), int(p1/q8)
					if (a == 1 || a == 7) && (b == 1 || b == 7) {
						want := -q8
						if g.t(a == 1, b == 1) {
							want = q8
						}
						vEqT(ind*ph, ind*want, tol, g.name+msg)
						valid++
					}
					return
				}
				none := T(1)
				for k := i; k < i+nb; k++ {
					none -= sl[k]
					rec(i+nb, p0+ct[0].Value[k+1], p1+ct[1].Value[k+1], ind*sl[k])
				}
				rec(i+nb, p0, p1, ind*none)
			}
			rec(0, old0.Value[0]-errs[c%4][0], old1.Value[0]-errs[c%4][1], 1)
			vCover(valid > 0, g.name)
			vhEq(ct[0].Value, old0.Value, -1, g.name+": first input unchanged")
			vhEq(ct[1].Value, old1.Value, -1, g.name+": second input unchanged")
		}
		for gi, g := range gates {
			check(g, g.f(e, ct[0], ct[1]), "")
			if (gi+c)%3 != 0 {
				continue
			}
			o := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
			g.to(e.SafeCopy(), o, ct[0], ct[1])
			check(g, o, "To")
			o = ct[0].Copy()
			g.to(e, o, o, ct[1])
			check(g, o, "To in place on the first input")
			o = ct[1].Copy()
			g.to(e, o, ct[0], o)
			check(g, o, "To in place on the second input")
		}
	}
	// NOT negates any phase
	a := LWECiphertext[T]{Value: vhVec[T]("a", len(s)+1)}
	b := a.Copy()
	vEqT(vhPhaseLWE(e.NOT(a), s), -vhPhaseLWE(b, s), -1, "NOT")
	vhEq(a.Value, b.Value, -1, "NOT: input unchanged")
	o := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
	e.NOTTo(o, a)
	vEqT(vhPhaseLWE(o, s), -vhPhaseLWE(b, s), -1, "NOTTo")
	e.NOTTo(a, a)
	vEqT(vhPhaseLWE(a, s), -vhPhaseLWE(b, s), -1, "NOTTo in place")
	vEnd()
}

func VH_P18_ksbr32() {
	vhGates[uint32](vhP{n: 2, base: 16, level: 2, order: OrderKeySwitchBlindRotate}, 2)
}
func VH_P18_ksbr32b() {
	vhGates[uint32](vhP{n: 2, base: 16, level: 2, order: OrderKeySwitchBlindRotate}, 4)
}
func VH_P18_brks32() {
	vhGates[uint32](vhP{n: 2, base: 16, level: 2, order: OrderBlindRotateKeySwitch}, 4)
}
func VH_P18_brks64() {
	vhGates[uint64](vhP{n: 2, base: 16, level: 4, order: OrderBlindRotateKeySwitch}, 2)
}
func VH_P18_block() {
	vhGates[uint32](vhP{n: 4, bs: 2, base: 16, level: 2, order: OrderBlindRotateKeySwitch}, 2)
}
func VH_P18_ext() {
	vhGates[uint32](vhP{n: 2, lut: 32, base: 16, level: 2, order: OrderBlindRotateKeySwitch}, 2)
}

//verif:tier=thorough
func VH_P18_dim3() {
	vhGates[uint32](vhP{n: 3, k: 2, base: 8, level: 4, order: OrderKeySwitchBlindRotate}, 4)
}
