//go:build verifharness

package xtfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/tfhe"
)

type vhCB struct {
	vhP
	count          int
	ssbase, sslev  int
	trbase, trlev  int
	outbase, outlv int
}

func vhCBParams[T tfhe.TorusInt](p vhCB) CircuitBootstrapParameters[T] {
	w := num.SizeT[T]()
	g := func(b, l int) tfhe.GadgetParametersLiteral[T] {
		if b == 0 {
			b, l = w/2, 2
		}
		return tfhe.GadgetParametersLiteral[T]{Base: T(1) << uint(b), Level: l}
	}
	return CircuitBootstrapParametersLiteral[T]{
		ManyLUTParams:        ManyLUTParametersLiteral[T]{BaseParams: vhLit[T](p.vhP), LUTCount: p.count},
		SchemeSwitchParams:   g(p.ssbase, p.sslev),
		TraceKeySwitchParams: g(p.trbase, p.trlev),
		OutputParams:         g(p.outbase, p.outlv),
	}.Compile()
}

// Circuit bootstrapping: for every key, an LWE encryption of m becomes a GGSW
// encryption of m, row by row and level by level.
func vhCircuit[T tfhe.TorusInt](p vhCB, cfgs int) {
	params := vhCBParams[T](p)
	bp := params.BaseParams()
	enc := tfhe.NewEncryptor(bp)
	kg := NewCircuitBootstrapKeyGenerator(params, enc.SecretKey)
	e := NewCircuitBootstrapper(params, enc.GenEvalKeyParallel(), kg.SafeCopy().GenCircuitBootstrapKey())
	sl := enc.SecretKey.LWEKey.Value
	sg := vhGLWEKey(enc.SecretKey)
	n, N := len(sl), bp.PolyRank()
	P := int(p.msg)
	sc := bp.Scale()
	unit := T(1) << (bp.LogQ() - 1) / T(N) * T(p.count)
	edge := sc/2 - unit/2 - 1
	// N q = x + e, |e| <= N/2, per coefficient of body and masks
	tol := 2 * num.Log2(N) * (bp.GLWERank() + 1)
	if !vSymbolic() {
		tol = vhMax(tol, vhTol[T](bp.LogQ()/2+14))
	}
	nb := p.bs
	if nb == 0 {
		nb = 1
	}
	errs := []T{edge, -edge}
	for c := 0; c < cfgs; c++ {
		m := (c*3 + 1) % (2 * P)
		ct := tfhe.NewLWECiphertext(bp)
		cs := make([]int, n)
		for i := range cs {
			cs[i] = (c + i*(c+2) + 1) % (2 * P)
			ct.Value[i+1] = T(cs[i]) * sc
		}
		ct.Value[0] = T(m)*sc + errs[c%2]
		ct0 := ct.Copy()
		var out tfhe.FFTGGSWCiphertext[T]
		if c%2 == 0 {
			out = e.CircuitBootstrap(ct)
		} else {
			out = tfhe.NewFFTGGSWCiphertext(bp, params.OutputParams())
			e.SafeCopy().CircuitBootstrapTo(out, ct)
		}
		vhEq(ct.Value, ct0.Value, -1, "input unchanged")
		msg := vhWantRot(sl, nb, m, cs, P, func(x int) T { return T(x) })
		g := enc.InvFFTGGSWCiphertext(out)
		vAssert(len(g.Value) == len(sg)+1, "rows")
		for k := range g.Value {
			vAssert(len(g.Value[k].Value) == p.outlv, "levels")
			for j := range g.Value[k].Value {
				ph := vhPhaseGLWE(g.Value[k].Value[j], sg)
				b := T(1) << uint(bp.LogQ()-(j+1)*p.outbase)
				for i := range ph {
					var w T
					if k == 0 && i == 0 {
						w = msg * b
					} else if k > 0 {
						w = msg * b * sg[k-1][i]
					}
					vEqT(ph[i], w, tol, "GGSW row")
				}
			}
		}
	}
	vEnd()
}

//verif:absdiv=1
func VH_P33_brks32() {
	vhCircuit[uint32](vhCB{vhP: vhP{n: 2, msg: 2, base: 16, level: 2, order: tfhe.OrderBlindRotateKeySwitch}, count: 2, outbase: 6, outlv: 3}, 1)
}

//verif:absdiv=1
func VH_P33_ksbr32() {
	vhCircuit[uint32](vhCB{vhP: vhP{n: 2, msg: 2, base: 16, level: 2, order: tfhe.OrderKeySwitchBlindRotate}, count: 1, outbase: 8, outlv: 1}, 2)
}
