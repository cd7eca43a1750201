//go:build verifharness

package xtfhe

import (
	"math"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/tfhe"
)

// vhSan: deviations are given in units of 1/Q; zero means as good as none.
func vhSanParams[T tfhe.TorusInt](p vhP, rs, rt, ls, lt float64) SanitizationParameters[T] {
	q := math.Exp2(float64(p.logQT()))
	d := func(x float64) float64 {
		if x == 0 {
			return 1e-60
		}
		return x / q
	}
	p.order = tfhe.OrderKeySwitchBlindRotate
	return SanitizationParametersLiteral[T]{BaseParams: vhLit[T](p), RandSigma: d(rs), RandTau: d(rt), LinEvalSigma: d(ls), LinEvalTau: d(lt)}.Compile()
}

func (p vhP) logQT() int {
	if p.base+p.base*(p.level-1) > 32 {
		return 64
	}
	return 32
}

// Re-randomization: a fresh encryption of zero is added.
func vhReRand[T tfhe.TorusInt](p vhP) {
	params := vhSanParams[T](p, 2, 8, 0, 0)
	bp := params.BaseParams()
	enc := tfhe.NewEncryptor(bp)
	pk := enc.GenPublicKey()
	s := NewSanitizer(params, pk, tfhe.EvaluationKey[T]{})
	sg := vhGLWEKey(enc.SecretKey)
	sl := enc.SecretKey.LWELargeKey.Value
	// 2^5 per sample, N products with the key
	nz := 7 + vhLog(bp.PolyRank())
	tol := vhTol[T](8)
	ct := vhGLWE("ct", bp)
	ct0 := ct.Copy()
	ph := vhPhaseGLWE(ct, sg)
	fresh := func(a, b []T, msg string) {
		if !vSymbolic() {
			return
		}
		for i := range a {
			vMust(a[i] != b[i], msg+": re-randomized")
		}
	}
	for c := 0; c < 2; c++ {
		o := vhGLWE("old", bp)
		if c == 0 {
			s.ReRandGLWETo(o, ct)
			vhEqGLWE(ct, ct0, "ReRandGLWETo: input unchanged")
		} else {
			o = ct.Copy()
			s = s.SafeCopy()
			s.ReRandGLWETo(o, o)
		}
		vhEq(vhPhaseGLWE(o, sg), ph, vhMax(nz, tol), "ReRandGLWETo")
		fresh(o.Value[0].Coeffs, ct0.Value[0].Coeffs, "ReRandGLWETo body")
		fresh(o.Value[1].Coeffs, ct0.Value[1].Coeffs, "ReRandGLWETo mask")
	}
	lt := tfhe.LWECiphertext[T]{Value: vhVec[T]("lwe", len(sl)+1)}
	l0 := lt.Copy()
	pl := vhPhaseLWE(lt, sl)
	for c := 0; c < 2; c++ {
		o := tfhe.LWECiphertext[T]{Value: vhVec[T]("old", len(sl)+1)}
		if c == 0 {
			s.ReRandLWETo(o, lt)
			vhEq(lt.Value, l0.Value, -1, "ReRandLWETo: input unchanged")
		} else {
			o = lt.Copy()
			s.ReRandLWETo(o, o)
		}
		vEqT(vhPhaseLWE(o, sl), pl, vhMax(nz, tol), "ReRandLWETo")
		fresh(o.Value, l0.Value, "ReRandLWETo")
	}
	vEnd()
}

func vhLog(n int) int {
	l := 0
	for 1<<l < n {
		l++
	}
	return l
}

func VH_P38_rerand64() { vhReRand[uint64](vhP{base: 32, level: 2}) }
func VH_P38_rerand32() { vhReRand[uint32](vhP{base: 16, level: 2}) }

// Sanitizing bootstraps: every table, every key, every draw of the linear
// evaluation noise; ciphertexts from a grid.
func vhSanitize[T tfhe.TorusInt](p vhP, ls, ltau float64) {
	params := vhSanParams[T](p, 0, 0, ls, ltau)
	bp := params.BaseParams()
	enc := tfhe.NewEncryptor(bp)
	e := NewSanitizer(params, enc.GenPublicKey(), enc.GenEvalKeyParallel())
	s := enc.SecretKey.LWELargeKey.Value
	sl := enc.SecretKey.LWEKey.Value
	n := len(sl)
	P := int(p.msg)
	sc := bp.Scale()
	tab := make([]int, P)
	for i := range tab {
		tab[i] = vInt("f")
		vAssume(uint64(tab[i]) < p.msg)
	}
	f := func(x int) int { return tab[x] }
	unit := T(1) << (bp.LogQ() - 1) / T(bp.PolyRank())
	edge := sc/2 - unit*T(n+2)/2 - 1
	tol := vhMax(vhTol[T](p.base+8), vhTol[T](p.kbase))
	if !vSymbolic() {
		tol = vhTol[T](p.base+10) + 8
	}
	if ltau > 0 {
		tol = vhMax(tol, 4+vhLog(int(ltau)))
	}
	errs := []T{edge, -edge, unit / 3}
	nb := p.bs
	if nb == 0 {
		nb = 1
	}
	lut := e.GenLUT(f)
	for c := 0; c < 3; c++ {
		m := (c*5 + 1) % (2 * P)
		ct := tfhe.NewLWECiphertext(bp)
		cs := make([]int, n)
		for i := range cs {
			cs[i] = (c + i*(c+2) + 1) % (2 * P)
			ct.Value[i+1] = T(cs[i])*sc + unit/3
			if i%2 == 1 {
				ct.Value[i+1] = T(cs[i])*sc - unit/3
			}
		}
		ct.Value[0] = T(m)*sc + errs[c]
		ct0 := ct.Copy()
		want := vhWantRot(sl, nb, m, cs, P, func(x int) T { return T(tab[x]) * sc })
		check := func(o tfhe.LWECiphertext[T], msg string) {
			vAssert(len(o.Value) == len(s)+1, msg+": size")
			vEqT(vhPhaseLWE(o, s), want, tol, msg)
		}
		switch c {
		case 0:
			check(e.SanitizeFunc(ct, f), "SanitizeFunc")
		case 1:
			o := tfhe.LWECiphertext[T]{Value: vhVec[T]("old", len(s)+1)}
			e.SafeCopy().SanitizeFuncTo(o, ct, f)
			check(o, "SanitizeFuncTo")
		case 2:
			check(e.SanitizeLUT(ct, lut), "SanitizeLUT")
			o := ct.Copy()
			e.SanitizeLUTTo(o, o, lut)
			check(o, "SanitizeLUTTo in place")
		}
		vhEq(ct.Value, ct0.Value, -1, "input unchanged")
	}
	vEnd()
}

//verif:absmul=1
func VH_P38_san32() { vhSanitize[uint32](vhP{n: 1, msg: 2, N: 16, base: 16, level: 2}, 2, 0) }

//verif:absmul=1
func VH_P38_san64() { vhSanitize[uint64](vhP{n: 1, msg: 2, N: 16, base: 32, level: 2}, 1, 8) }

// The tabulated sampler: the table is the cumulative distribution, and the
// output is its inverse for every draw.
func vhCDT(c, sd float64) {
	s := NewCDTSampler[uint64](c, sd)
	vAssert(s.Center() == c && s.StdDev() == sd, "parameters")
	vAssert(len(s.table) > 0, "table")
	// P(x <= v), up to the tail
	t, v := 0.0, int64(math.Floor(c-14*sd))
	for ; v < s.offset; v++ {
		d := float64(v) - c
		t += math.Exp(-d*d/(2*sd*sd)) / (math.Sqrt(2*math.Pi) * sd)
	}
	vAssert(t < 1e-20, "lower tail")
	for i := range s.table {
		d := float64(v) - c
		t += math.Exp(-d*d/(2*sd*sd)) / (math.Sqrt(2*math.Pi) * sd)
		v++
		e := float64(s.table[i])/(1<<32)/(1<<32) - t
		if t > 1 {
			e = float64(s.table[i])/(1<<32)/(1<<32) - 1
		}
		vAssert(e < 1e-9 && e > -1e-9, "cumulative distribution")
	}
	vAssert(t > 1-1e-9, "upper tail")
	seed := []byte{vByte("seed"), vByte("seed")}
	s.baseSampler = csprng.NewUniformSamplerWithSeed[uint64](seed)
	r := csprng.NewUniformSamplerWithSeed[uint64](seed).Sample()
	x := int64(s.Sample()) - s.offset
	vAssert(x >= 0 && x <= int64(len(s.table)), "in the table")
	vAssert(x == 0 || s.table[vConc(int(x))-1] <= r, "not too large")
	vAssert(x == int64(len(s.table)) || r < s.table[vConc(int(x))], "not too small")
	vEnd()
}

//verif:realcdt=1
func VH_P38_cdt0() { vhCDT(0, 1.25) }

//verif:realcdt=1
func VH_P38_cdtneg() { vhCDT(-0.25, 1.5) }

//verif:realcdt=1
func VH_P38_cdtfar() { vhCDT(37.5, 1.25) }
