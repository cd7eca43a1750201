//go:build verifharness

package xtfhe

import "github.com/sp301415/tfhe-go/tfhe"

// vhDet makes params whose samplers still draw symbolic masks but no noise.
func vhManyParams[T tfhe.TorusInt](p vhP, count int) ManyLUTParameters[T] {
	return ManyLUTParametersLiteral[T]{BaseParams: vhLit[T](p), LUTCount: count}.Compile()
}

// vhWantRot sums, over the assignments of the key that have at most one bit per
// block, ind(key) * val(m + sum of the selected mask messages mod 2P).
func vhWantRot[T tfhe.TorusInt](sl []T, nb int, m int, cs []int, P int, val func(x int) T) T {
	var sum T
	n := len(cs)
	var rec func(i, x int, ind T)
	rec = func(i, x int, ind T) {
		if i == n {
			x %= 2 * P
			if x < P {
				sum += ind * val(x)
			} else {
				sum -= ind * val(x-P)
			}
			return
		}
		none := T(1)
		for k := i; k < i+nb; k++ {
			none -= sl[k]
			rec(i+nb, x+cs[k], ind*sl[k])
		}
		rec(i+nb, x, ind*none)
	}
	rec(0, m, 1)
	return sum
}

// Multi-value bootstraps: every table of every function and every key.
func vhMany[T tfhe.TorusInt](p vhP, count, nf int) {
	params := vhManyParams[T](p, count)
	bp := params.BaseParams()
	vAssert(params.LUTCount() == count && 1<<params.LogLUTCount() == count, "LUT count")
	enc := tfhe.NewEncryptor(bp)
	e := NewManyLUTEvaluator(params, enc.GenEvalKeyParallel())
	s := vhKey(bp, enc.SecretKey)
	sl := enc.SecretKey.LWEKey.Value
	n := len(sl)
	P := int(p.msg)
	sc := bp.Scale()
	tab := make([][]int, nf)
	full := make([][]T, nf)
	f := make([]func(int) int, nf)
	g := make([]func(int) T, nf)
	for j := range f {
		j := j
		tab[j] = make([]int, P)
		full[j] = make([]T, P)
		for i := range tab[j] {
			tab[j][i] = vInt("f")
			vAssume(uint64(tab[j][i]) < p.msg)
			full[j][i] = vT[T]("g")
		}
		f[j] = func(x int) int { return tab[j][x] }
		g[j] = func(x int) T { return full[j][x] }
	}
	// every component is rounded to a multiple of the unit
	unit := T(1) << (bp.LogQ() - 1) / T(bp.PolyRank()) * T(count)
	vAssert(sc/2 > unit*T(n+2)/2, "slot wider than the rounding")
	edge := sc/2 - unit*T(n+2)/2 - 1
	tol := vhMax(vhTol[T](p.base+8), vhTol[T](p.kbase))
	if !vSymbolic() {
		tol = vhTol[T](p.base + 10)
	}
	errs := []T{edge, -edge, 0, unit / 3}
	nb := p.bs
	if nb == 0 {
		nb = 1
	}
	lut, glut := e.GenLUT(f), e.GenLUTFull(g)
	for c := 0; c < 4; c++ {
		m := (c*5 + 1) % (2 * P)
		ct := tfhe.NewLWECiphertext(bp)
		cs := make([]int, n)
		for i := range cs {
			cs[i] = (c + i*(c+2) + 1) % (2 * P)
			ct.Value[i+1] = T(cs[i])*sc + unit/3
			if i%2 == 1 {
				ct.Value[i+1] = T(cs[i])*sc - unit/3
			}
		}
		ct.Value[0] = T(m)*sc + errs[c]
		ct0 := ct.Copy()
		check := func(out []tfhe.LWECiphertext[T], isFull bool, msg string) {
			vAssert(len(out) == count, msg+": count")
			for j := range out {
				vAssert(len(out[j].Value) == len(s)+1, msg+": size")
				var w T
				if j < nf {
					w = vhWantRot(sl, nb, m, cs, P, func(x int) T {
						if isFull {
							return full[j][x]
						}
						return T(tab[j][x]) * sc
					})
				}
				vEqT(vhPhaseLWE(out[j], s), w, tol, msg)
			}
			vhEq(ct.Value, ct0.Value, -1, msg+": input unchanged")
		}
		olds := func() []tfhe.LWECiphertext[T] {
			o := make([]tfhe.LWECiphertext[T], count)
			for j := range o {
				o[j] = tfhe.LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
			}
			return o
		}
		switch c {
		case 0:
			check(e.BootstrapFunc(ct, f), false, "BootstrapFunc")
		case 1:
			o := olds()
			e.BootstrapFuncTo(o, ct, f)
			check(o, false, "BootstrapFuncTo")
		case 2:
			check(e.SafeCopy().BootstrapLUT(ct, lut), false, "BootstrapLUT")
		case 3:
			o := olds()
			e.BootstrapLUTTo(o, ct, glut)
			check(o, true, "BootstrapLUTTo")
			o = olds()
			o[0].CopyFrom(ct)
			e.BootstrapLUTTo(o, o[0], lut)
			check(o, false, "BootstrapLUTTo in place")
		}
	}
	vEnd()
}

func VH_P32_many32() {
	vhMany[uint32](vhP{n: 2, N: 32, msg: 2, base: 16, level: 2, order: tfhe.OrderKeySwitchBlindRotate}, 2, 2)
}
func VH_P32_many64() {
	vhMany[uint64](vhP{n: 2, N: 32, msg: 1, base: 16, level: 4, order: tfhe.OrderBlindRotateKeySwitch}, 4, 4)
}
func VH_P32_manyblk() {
	vhMany[uint32](vhP{n: 4, bs: 2, N: 16, msg: 1, base: 16, level: 2, order: tfhe.OrderBlindRotateKeySwitch}, 2, 1)
}
func VH_P32_manyone() {
	vhMany[uint32](vhP{n: 2, k: 2, N: 16, msg: 2, base: 16, level: 2, order: tfhe.OrderKeySwitchBlindRotate}, 1, 1)
}

// ModSwitch rounds to the nearest multiple of the LUT count, for every value.
func VH_P32_modswitch() {
	e := NewManyLUTEvaluator(vhManyParams[uint32](vhP{n: 2, N: 64, msg: 2}, 4), tfhe.EvaluationKey[uint32]{})
	x := vU32("x")
	r := e.ModSwitch(x)
	vAssert(r%4 == 0 && r >= 0 && r <= 128, "multiple of the count")
	d := int64(x) - int64(r)<<25
	vAssert(d <= 1<<26 && d >= -(1<<26), "nearest")
	e8 := NewManyLUTEvaluator(vhManyParams[uint64](vhP{n: 2, N: 32, msg: 1}, 8), tfhe.EvaluationKey[uint64]{})
	y := vU64("y")
	q := e8.ModSwitch(y)
	vAssert(q%8 == 0 && q >= 0 && q <= 64, "multiple of the count")
	f := y - uint64(q)<<58
	vAssert(f <= 1<<60 || -f <= 1<<60, "nearest")
	vEnd()
}
