//go:build verifharness

package tfhe

// Whole bootstraps: every key and every function table; masks and bodies from a
// grid of messages (with and without padding bit) and errors up to the edge of
// a slot.
func vhBoot[T TorusInt](p vhP, all bool) {
	params := vhParams[T](p)
	enc := NewEncryptor(params)
	e := NewEvaluator(params, enc.GenEvalKeyParallel())
	if !all {
		e = NewEvaluator(params, enc.GenEvalKey())
	}
	s, _ := vhDefKey(params, enc.SecretKey)
	sl := enc.SecretKey.LWEKey.Value
	n := len(sl)
	P := int(p.msg)
	sc := params.Scale()
	tab := make([]int, P)
	full := make([]T, P)
	for i := range tab {
		tab[i] = vInt("f")
		vAssume(uint64(tab[i]) < p.msg)
		full[i] = vT[T]("g")
	}
	f := func(x int) int { return tab[x] }
	g := func(x int) T { return full[x] }
	// errors stay below half a slot, less the rounding of every component
	L := params.LUTSize()
	unit := T(1) << (params.LogQ() - 1) / T(L)
	edge := sc/2 - unit*T(n+2)/2 - 1
	tol := vhMax(vhTol[T](p.base+8), vhTol[T](p.kbase))
	if !vSymbolic() {
		tol = vhTol[T](p.base + 10)
	}
	errs := []T{0, edge, -edge, unit / 3}
	nb := p.bs
	if nb == 0 {
		nb = 1
	}
	lut, glut := e.GenLUT(f), e.GenLUTFull(g)
	for c := 0; c < 4; c++ {
		m := (c*5 + 1) % (2 * P)
		ct := NewLWECiphertext(params)
		cs := make([]int, n)
		var rest T
		for i := range cs {
			cs[i] = (c + i*(c+2) + 1) % (2 * P)
			ct.Value[i+1] = T(cs[i])*sc + unit/5
			rest += unit / 5
		}
		_ = rest
		ct.Value[0] = T(m)*sc + errs[c]
		ct0 := ct.Copy()
		// expected value, as a sum over the keys (at most one bit per block)
		want := func(t func(x int) T) T {
			var sum T
			var rec func(i, x int, ind T)
			rec = func(i, x int, ind T) {
				if i == n {
					x %= 2 * P
					if x < P {
						sum += ind * t(x)
					} else {
						sum -= ind * t(x-P)
					}
					return
				}
				none := T(1)
				for k := i; k < i+nb; k++ {
					none -= sl[k]
					rec(i+nb, x+cs[k], ind*sl[k])
				}
				rec(i+nb, x, ind*none)
			}
			rec(0, m, 1)
			return sum
		}
		wf := want(func(x int) T { return T(tab[x]) * sc })
		check := func(out LWECiphertext[T], w T, msg string) {
			vAssert(len(out.Value) == len(s)+1, msg+": size")
			vEqT(vhPhaseLWE(out, s), w, tol, msg)
			vhEq(ct.Value, ct0.Value, -1, msg+": input unchanged")
		}
		check(e.BootstrapFunc(ct, f), wf, "BootstrapFunc")
		if c == 0 || all {
			o := LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
			e.BootstrapFuncTo(o, ct, f)
			check(o, wf, "BootstrapFuncTo")
			check(e.BootstrapLUT(ct, lut), wf, "BootstrapLUT")
			o = LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
			e.BootstrapLUTTo(o, ct, glut)
			check(o, want(func(x int) T { return full[x] }), "BootstrapLUTTo")
			o = ct.Copy()
			e.BootstrapLUTTo(o, o, lut)
			check(o, wf, "BootstrapLUTTo in place")
		}
	}
	vEnd()
}

func VH_P17_ksbr32() {
	vhBoot[uint32](vhP{n: 2, msg: 2, base: 16, level: 2, order: OrderKeySwitchBlindRotate}, false)
}
func VH_P17_brks32() {
	vhBoot[uint32](vhP{n: 2, msg: 2, base: 16, level: 2, order: OrderBlindRotateKeySwitch}, false)
}
func VH_P17_ksbr64() {
	vhBoot[uint64](vhP{n: 2, msg: 2, N: 32, base: 16, level: 4, order: OrderKeySwitchBlindRotate}, false)
}
func VH_P17_block() {
	vhBoot[uint32](vhP{n: 4, bs: 2, msg: 1, base: 16, level: 2, order: OrderBlindRotateKeySwitch}, false)
}
func VH_P17_ext() {
	vhBoot[uint32](vhP{n: 2, lut: 32, msg: 4, base: 16, level: 2, order: OrderBlindRotateKeySwitch}, false)
}
func VH_P17_extblock() {
	vhBoot[uint32](vhP{n: 2, bs: 2, lut: 64, msg: 4, base: 16, level: 2, order: OrderKeySwitchBlindRotate}, false)
}

//verif:tier=thorough
func VH_P17_all() {
	vhBoot[uint32](vhP{n: 2, msg: 2, base: 8, level: 4, order: OrderKeySwitchBlindRotate}, true)
}
