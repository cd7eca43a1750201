//go:build verifharness

package mktfhe

import "github.com/sp301415/tfhe-go/tfhe"

func vhDim(name string) int { return int(int32(vU32(name))) }

// A multi-key literal compiles exactly when its single-key literal compiles,
// has rank one and no extended table, the party count is positive and both
// further gadgets are valid; its accessors then follow from the literal.
func vhMKCompile[T tfhe.TorusInt](which int) {
	sub := tfhe.ParametersLiteral[T]{
		LWEDimension: 4, GLWERank: 1, PolyRank: 16, LUTSize: 16,
		LWEStdDev: 0.25, GLWEStdDev: 0.125, BlockSize: 2, MessageModulus: 5,
		BlindRotateParams: tfhe.GadgetParametersLiteral[T]{Base: 16, Level: 2},
		KeySwitchParams:   tfhe.GadgetParametersLiteral[T]{Base: 8, Level: 3},
		BootstrapOrder:    tfhe.OrderBlindRotateKeySwitch,
	}
	P := 3
	acc := tfhe.GadgetParametersLiteral[T]{Base: 32, Level: 4}
	rel := tfhe.GadgetParametersLiteral[T]{Base: 64, Level: 5}
	lit := ParametersLiteral[T]{SubParams: sub, PartyCount: 1, AccumulatorParams: acc, RelinKeyParams: rel}
	switch which {
	case 0:
		P = vhDim("P")
	case 1:
		sub.GLWERank = vhDim("k")
		sub.LUTSize = []int{0, 16, 32, 48, 8}[vChoose("lut", 5)]
		lit.SubParams = sub
	case 2:
		sub.LWEDimension, sub.BlockSize = vhDim("n"), []int{1, 2, 0}[vChoose("B", 3)]
		sub.PolyRank, sub.LUTSize = 64, 0
		lit.SubParams.LUTSize = 0
		lit = lit.WithSingleKeyLWEDimension(sub.LWEDimension).WithBlockSize(sub.BlockSize).WithPolyRank(64)
	case 3:
		sub.LWEStdDev, sub.GLWEStdDev = 0.5, 0.75
		sub.MessageModulus = 7
		sub.BlindRotateParams.Base, sub.KeySwitchParams.Level = 32, 2
		sub.BootstrapOrder = tfhe.BootstrapOrder(vChoose("o", 2))
		lit = lit.WithLWEStdDev(0.5).WithGLWEStdDev(0.75).WithMessageModulus(7).
			WithBlindRotateParams(sub.BlindRotateParams).WithKeySwitchParams(sub.KeySwitchParams).WithBootstrapOrder(sub.BootstrapOrder)
	case 4:
		acc.Base, acc.Level = vT[T]("ab"), vhDim("al")
		lit = lit.WithAccumulatorParams(acc)
	case 5:
		rel.Base, rel.Level = vT[T]("rb"), vhDim("rl")
		lit = lit.WithRelinKeyParams(rel)
	}
	lit = lit.WithPartyCount(P)
	var sp tfhe.Parameters[T]
	var ap, rp tfhe.GadgetParameters[T]
	bad := vPanics(func() { sp = sub.Compile() })
	bad = vPanics(func() { ap = acc.Compile() }) || bad
	bad = vPanics(func() { rp = rel.Compile() }) || bad
	if !bad {
		bad = vAny(P < 1, sub.GLWERank != 1, sp.LUTSize() != sp.PolyRank())
	}
	var p Parameters[T]
	vAssert(vPanics(func() { p = lit.Compile() }) == bad, "parameters compile exactly when valid")
	if bad {
		vEnd()
		return
	}
	vAssert(p.SubParams() == sp, "SubParams")
	vAssert(p.PartyCount() == P && p.GLWERank() == P, "PartyCount")
	vAssert(p.LWEDimension() == P*sp.LWEDimension(), "LWEDimension")
	vAssert(p.GLWEDimension() == P*sp.GLWEDimension(), "GLWEDimension")
	vAssert(p.DefaultLWEDimension() == P*sp.DefaultLWEDimension(), "DefaultLWEDimension")
	vAssert(p.PolyRank() == sp.PolyRank() && p.LogPolyRank() == sp.LogPolyRank(), "PolyRank")
	vAssert(p.LWEStdDev() == sub.LWEStdDev && p.GLWEStdDev() == sub.GLWEStdDev, "deviations")
	vAssert(p.LWEStdDevQ() == sp.LWEStdDevQ() && p.GLWEStdDevQ() == sp.GLWEStdDevQ(), "scaled deviations")
	vAssert(p.DefaultLWEStdDev() == sp.DefaultLWEStdDev() && p.DefaultLWEStdDevQ() == sp.DefaultLWEStdDevQ(), "default deviation")
	vAssert(p.BlockSize() == sp.BlockSize() && p.BlockCount() == sp.BlockCount(), "blocks")
	vAssert(p.Scale() == sp.Scale() && p.MessageModulus() == sub.MessageModulus && p.LogQ() == sp.LogQ(), "torus")
	vAssert(p.BlindRotateParams() == sub.BlindRotateParams.Compile() && p.KeySwitchParams() == sub.KeySwitchParams.Compile(), "gadgets")
	vAssert(p.AccumulatorParameters() == ap && p.RelinKeyParameters() == rp, "multi-key gadgets")
	vAssert(p.BootstrapOrder() == sub.BootstrapOrder, "order")
	l := p.Literal()
	vAssert(l.PartyCount == P && l.AccumulatorParams == acc && l.RelinKeyParams == rel && l.SubParams == sp.Literal(), "Literal")
	vAssert(l.Compile() == p, "Literal compiles to the same parameters")
	vEnd()
}

func VH_P43_mkparties() { vhMKCompile[uint32](0) }
func VH_P43_mkshape()   { vhMKCompile[uint64](1) }
func VH_P43_mkdim()     { vhMKCompile[uint64](2) }
func VH_P43_mkset()     { vhMKCompile[uint32](3) }
func VH_P43_mkacc()     { vhMKCompile[uint32](4) }
func VH_P43_mkrel()     { vhMKCompile[uint64](5) }

func VH_P43_mkdefault() {
	for _, l := range []ParametersLiteral[uint64]{ParamsBinaryParty2, ParamsBinaryParty4, ParamsBinaryParty8, ParamsBinaryParty16, ParamsBinaryParty32} {
		var p Parameters[uint64]
		vAssert(!vPanics(func() { p = l.Compile() }), "default parameters compile")
		vAssert(p.Literal().Compile() == p, "Literal compiles to the same parameters")
	}
	vEnd()
}
