//go:build verifharness

package xtfhe

import "github.com/sp301415/tfhe-go/tfhe"

func vhDim(name string) int { return int(int32(vU32(name))) }

func vhIsPow2(x int) bool {
	var c []bool
	for i := 0; i < 31; i++ {
		c = append(c, x == 1<<uint(i))
	}
	return vAny(c...)
}

func vhExtBase[T tfhe.TorusInt]() tfhe.ParametersLiteral[T] {
	return tfhe.ParametersLiteral[T]{
		LWEDimension: 4, GLWERank: 1, PolyRank: 16,
		LWEStdDev: 0.25, GLWEStdDev: 0.125, MessageModulus: 2,
		BlindRotateParams: tfhe.GadgetParametersLiteral[T]{Base: 16, Level: 2},
		KeySwitchParams:   tfhe.GadgetParametersLiteral[T]{Base: 8, Level: 3},
		BootstrapOrder:    tfhe.OrderKeySwitchBlindRotate,
	}
}

// vhExtBaseWith varies the fields of the base literal an extension restricts.
func vhExtBaseWith[T tfhe.TorusInt]() (tfhe.ParametersLiteral[T], tfhe.Parameters[T], bool) {
	b := vhExtBase[T]()
	switch vChoose("field", 5) {
	case 1:
		b.LUTSize = []int{16, 32, 8}[vChoose("lut", 3)]
	case 2:
		b.BlockSize = vDimIn("B", 0, 6)
	case 3:
		b.GLWERank = vDimIn("k", 0, 3)
	case 4:
		b.BootstrapOrder = tfhe.BootstrapOrder(vDimIn("o", 0, 3))
	}
	var p tfhe.Parameters[T]
	bad := vPanics(func() { p = b.Compile() })
	return b, p, bad
}

func vDimIn(name string, lo, hi int) int { return lo + vChoose(name, hi-lo) }

func vhManyLit[T tfhe.TorusInt]() {
	b, bp, bad := vhExtBaseWith[T]()
	c := vhDim("count")
	var p ManyLUTParameters[T]
	got := vPanics(func() { p = ManyLUTParametersLiteral[T]{BaseParams: b, LUTCount: c}.Compile() })
	if !bad {
		bad = vAny(bp.LUTSize() != bp.PolyRank(), !vhIsPow2(c))
	}
	vAssert(got == bad, "many-table parameters compile exactly when valid")
	if !got {
		vAssert(p.BaseParams() == bp && p.LUTCount() == c && 1<<uint(p.LogLUTCount()) == c, "many-table accessors")
	}
	vEnd()
}

func VH_P43_manylut32() { vhManyLit[uint32]() }
func VH_P43_manylut64() { vhManyLit[uint64]() }

func vhFHEWLit[T tfhe.TorusInt](w uint) {
	b, bp, bad := vhExtBaseWith[T]()
	q := float64(uint64(1)<<(w-1)) * 2
	win := vhDim("window")
	std := []float64{1 / q, 0, -1 / q, 16 / q, 64 / q, 0.25}[vChoose("std", 6)]
	var p FHEWParameters[T]
	got := vPanics(func() {
		p = FHEWParametersLiteral[T]{BaseParams: b, SecretKeyStdDev: std, WindowSize: win}.Compile()
	})
	if !bad {
		bad = vAny(bp.BlockSize() != 1, bp.LUTSize() != bp.PolyRank(), std <= 0, std > 32/q, win < 1)
	}
	vAssert(got == bad, "automorphism bootstrapping parameters compile exactly when valid")
	if !got {
		vAssert(p.BaseParams() == bp && p.WindowSize() == win && p.SecretKeyStdDev() == std && p.SecretKeyStdDevQ() == std*q, "automorphism bootstrapping accessors")
	}
	vEnd()
}

func VH_P43_fhew32() { vhFHEWLit[uint32](32) }
func VH_P43_fhew64() { vhFHEWLit[uint64](64) }

func vhSanLit[T tfhe.TorusInt](w uint) {
	b, bp, bad := vhExtBaseWith[T]()
	q := float64(uint64(1)<<(w-1)) * 2
	v := [4]float64{0.5, 0.25, 0.125, 0.0625}
	if i := vChoose("zero", 5); i < 4 {
		v[i] = []float64{0, -0.5, 1e-300}[vChoose("to", 3)]
	}
	var p SanitizationParameters[T]
	got := vPanics(func() {
		p = SanitizationParametersLiteral[T]{BaseParams: b, RandSigma: v[0], RandTau: v[1], LinEvalSigma: v[2], LinEvalTau: v[3]}.Compile()
	})
	if !bad {
		bad = vAny(bp.GLWERank() != 1, bp.LUTSize() != bp.PolyRank(), bp.BootstrapOrder() != tfhe.OrderKeySwitchBlindRotate,
			v[0] <= 0, v[1] <= 0, v[2] <= 0, v[3] <= 0)
	}
	vAssert(got == bad, "sanitization parameters compile exactly when valid")
	if !got {
		vAssert(p.BaseParams() == bp, "sanitization base")
		vAssert(p.RandSigma() == v[0] && p.RandTau() == v[1] && p.LinEvalSigma() == v[2] && p.LinEvalTau() == v[3], "sanitization deviations")
		vAssert(p.RandSigmaQ() == v[0]*q && p.RandTauQ() == v[1]*q && p.LinEvalSigmaQ() == v[2]*q && p.LinEvalTauQ() == v[3]*q, "scaled sanitization deviations")
	}
	vEnd()
}

func VH_P43_san32() { vhSanLit[uint32](32) }
func VH_P43_san64() { vhSanLit[uint64](64) }

func vhCircLit[T tfhe.TorusInt]() {
	c := vDimIn("count", 1, 5)
	m := ManyLUTParametersLiteral[T]{BaseParams: vhExtBase[T](), LUTCount: c}
	g := [3]tfhe.GadgetParametersLiteral[T]{{Base: 4, Level: 2}, {Base: 8, Level: 3}, {Base: 16, Level: 4}}
	if i := vChoose("gadget", 4); i < 3 {
		g[i].Base, g[i].Level = vT[T]("base"), vhDim("level")
	}
	var mp ManyLUTParameters[T]
	bad := vPanics(func() { mp = m.Compile() })
	var gp [3]tfhe.GadgetParameters[T]
	for i := range g {
		bad = vPanics(func() { gp[i] = g[i].Compile() }) || bad
	}
	var p CircuitBootstrapParameters[T]
	got := vPanics(func() {
		p = CircuitBootstrapParametersLiteral[T]{ManyLUTParams: m, SchemeSwitchParams: g[0], TraceKeySwitchParams: g[1], OutputParams: g[2]}.Compile()
	})
	vAssert(got == bad, "circuit bootstrapping parameters compile exactly when valid")
	if !got {
		vAssert(p.ManyLUTParams() == mp && p.BaseParams() == mp.BaseParams(), "circuit bootstrapping base")
		vAssert(p.SchemeSwitchParams() == gp[0] && p.TraceKeySwitchParams() == gp[1] && p.OutputParams() == gp[2], "circuit bootstrapping gadgets")
	}
	vEnd()
}

func VH_P43_circuit32() { vhCircLit[uint32]() }
func VH_P43_circuit64() { vhCircLit[uint64]() }

func VH_P43_extdefault() {
	vAssert(!vPanics(func() {
		ParamsBinaryLUT2.Compile()
		ParamsBinaryCompactLUT2.Compile()
		ParamsUint2LUT4.Compile()
		ParamsUint3LUT2.Compile()
		ParamsCircuitBootstrapMedium.Compile()
		ParamsCircuitBootstrapLarge.Compile()
		ParamsFHEWBinary.Compile()
		ParamsSanitizeBinary.Compile()
		ParamsBFVKeySwitchLogN11.Compile()
	}), "default parameters compile")
	vEnd()
}
