//go:build verifharness

package tfhe

import (
	"github.com/sp301415/tfhe-go/math/num"
)

// vhPow2 lists: x is a positive power of two.
func vhPow2(x int) bool {
	var c []bool
	for i := 0; i < 31; i++ {
		c = append(c, x == 1<<uint(i))
	}
	return vAny(c...)
}

func vhDim(name string) int {
	x := int(int32(vU32(name)))
	return x
}

// vhCompileGadget: a gadget literal compiles exactly when it is valid, for
// every base and level.
func vhCompileGadget[T TorusInt]() {
	w := num.SizeT[T]()
	base := vT[T]("base")
	level := vhDim("level")
	var g GadgetParameters[T]
	bad := vPanics(func() { g = GadgetParametersLiteral[T]{Base: base, Level: level}.Compile() })
	var ok []bool
	for l := 1; l < w; l++ {
		ok = append(ok, vAll(base == T(1)<<uint(l), level >= 1, level <= w/l))
	}
	vAssert(bad != vAny(ok...), "gadget parameters compile exactly when valid")
	if bad {
		vEnd()
		return
	}
	vAssert(g.Base() == base, "Base")
	vAssert(g.Level() == level, "Level")
	vAssert(T(1)<<uint(g.LogBase()) == base, "LogBase")
	l := g.Literal()
	vAssert(l.Base == base && l.Level == level, "Literal")
	vEnd()
}

func VH_P22_gadget32() { vhCompileGadget[uint32]() }
func VH_P22_gadget64() { vhCompileGadget[uint64]() }

// vhGadgetQ: every gadget value of every valid gadget.
func vhGadgetQ[T TorusInt]() {
	w := num.SizeT[T]()
	for lb := 1; lb < w; lb++ {
		for lv := 1; lv*lb <= w; lv++ {
			g := GadgetParametersLiteral[T]{}.WithBase(T(1) << uint(lb)).WithLevel(lv).Compile()
			vAssert(g.LogBase() == lb, "LogBase")
			for i := 0; i < lv; i++ {
				vAssert(g.LogBaseQ(i) == w-(i+1)*lb, "LogBaseQ")
				vAssert(g.BaseQ(i) == T(1)<<uint(w-(i+1)*lb), "BaseQ")
			}
			vAssert(g.FirstBaseQ() == g.BaseQ(0) && g.LogFirstBaseQ() == g.LogBaseQ(0), "FirstBaseQ")
			vAssert(g.LastBaseQ() == g.BaseQ(lv-1) && g.LogLastBaseQ() == g.LogBaseQ(lv-1), "LastBaseQ")
		}
	}
	vEnd()
}

func VH_P22_gadgetq32() { vhGadgetQ[uint32]() }
func VH_P22_gadgetq64() { vhGadgetQ[uint64]() }

// vhCompile: a literal with arbitrary dimensions compiles exactly when valid,
// and the compiled parameters say what the literal said.
func vhCompile[T TorusInt](which int) {
	w := num.SizeT[T]()
	lit := ParametersLiteral[T]{
		LWEDimension: 4, GLWERank: 1, PolyRank: 16, LUTSize: 32,
		LWEStdDev: 0.25, GLWEStdDev: 0.125, BlockSize: 2, MessageModulus: 5,
		BlindRotateParams: GadgetParametersLiteral[T]{Base: 16, Level: 2},
		KeySwitchParams:   GadgetParametersLiteral[T]{Base: 8, Level: 3},
		BootstrapOrder:    OrderBlindRotateKeySwitch,
	}
	n, k, N, L, B, o := lit.LWEDimension, lit.GLWERank, lit.PolyRank, lit.LUTSize, lit.BlockSize, 1
	stds := []float64{0.25, 1e-300, 0, -1, -1e-300, 3}
	ls, gs := 0.25, 0.125
	switch which {
	case 0: // dimensions
		n, k = vhDim("n"), vhDim("k")
		lit = lit.WithBlockSize(0)
		B = 1
		N = []int{1, 16, 24, 0, -16, 1 << 20}[vChoose("N", 6)]
		L = N
		lit = lit.WithLUTSize(0)
	case 1: // polynomial and table sizes
		N = vhDim("N")
		L = vhDim("L")
		lit = lit.WithLUTSize(L)
		if L == 0 {
			L = N
		}
		n, B = 1, 1
		lit = lit.WithBlockSize(1)
	case 2: // blocks
		n, B = vhDim("n"), vhDim("B")
		N, k = 1024, 2
		L = []int{1024, 3072, 1536, 512, 4096, -1024}[vChoose("L", 6)]
		lit = lit.WithLUTSize(L).WithBlockSize(B)
		if B == 0 {
			B = 1
		}
	case 3: // deviations and order
		ls, gs = stds[vChoose("ls", len(stds))], stds[vChoose("gs", len(stds))]
		o = vhDim("o")
	}
	lit = lit.WithLWEDimension(n).WithGLWERank(k).WithPolyRank(N).WithLWEStdDev(ls).WithGLWEStdDev(gs).WithBootstrapOrder(BootstrapOrder(o))
	var p Parameters[T]
	bad := vPanics(func() { p = lit.Compile() })
	ok := vAll(n >= 1, k >= 1, vhPow2(N), n <= k*N, B >= 1, L >= N, ls > 0, gs > 0, o >= 0, o <= 1)
	if ok {
		ok = vAll(n%B == 0, L%N == 0)
	}
	vAssert(bad == !ok, "parameters compile exactly when valid")
	if bad {
		vEnd()
		return
	}
	vAssert(vAll(p.LWEDimension() == n, p.GLWERank() == k, p.PolyRank() == N, p.LUTSize() == L, p.BlockSize() == B), "dimensions")
	vAssert(vAll(p.GLWEDimension() == k*N, p.LUTExtendFactor() == L/N, p.BlockCount() == n/B, 1<<uint(p.LogPolyRank()) == N), "derived dimensions")
	vAssert(p.LWEStdDev() == ls && p.GLWEStdDev() == gs, "deviations")
	q := 1.0
	for i := 0; i < w; i++ {
		q *= 2
	}
	vAssert(p.LWEStdDevQ() == ls*q && p.GLWEStdDevQ() == gs*q, "scaled deviations")
	vAssert(p.LogQ() == w && p.MessageModulus() == 5 && p.Scale() == vhDefScale[T](5), "torus")
	vAssert(p.BlindRotateParams() == lit.BlindRotateParams.Compile(), "blind rotation gadget")
	vAssert(p.KeySwitchParams() == lit.KeySwitchParams.Compile(), "key switching gadget")
	vAssert(p.BootstrapOrder() == BootstrapOrder(o), "order")
	d, ds := k*N, gs
	if o == int(OrderBlindRotateKeySwitch) {
		d, ds = n, ls
	}
	vAssert(p.DefaultLWEDimension() == d, "default dimension")
	vAssert(p.DefaultLWEStdDev() == ds && p.DefaultLWEStdDevQ() == ds*q, "default deviation")
	vAssert(p.IsPublicKeyEncryptable() == (o == int(OrderKeySwitchBlindRotate)), "public key encryptable")
	vAssert(p.Literal().Compile() == p, "Literal compiles to the same parameters")
	vEnd()
}

func VH_P22_dims()   { vhCompile[uint32](0) }
func VH_P22_table()  { vhCompile[uint64](1) }
func VH_P22_blocks() { vhCompile[uint64](2) }
func VH_P22_std()    { vhCompile[uint32](3) }
func VH_P22_badgadget() {
	lit := ParametersLiteral[uint32]{LWEDimension: 4, GLWERank: 1, PolyRank: 16, LWEStdDev: 0.25, GLWEStdDev: 0.25, MessageModulus: 2,
		BlindRotateParams: GadgetParametersLiteral[uint32]{Base: 16, Level: 2}, KeySwitchParams: GadgetParametersLiteral[uint32]{Base: 16, Level: 2}}
	base, level := vU32("base"), vhDim("level")
	bad := GadgetParametersLiteral[uint32]{Base: base, Level: level}
	inv := vPanics(func() { bad.Compile() })
	p1 := vPanics(func() { lit.WithBlindRotateParams(bad).Compile() })
	p2 := vPanics(func() { lit.WithKeySwitchParams(bad).Compile() })
	vAssert(p1 == inv && p2 == inv, "an invalid gadget makes the parameters invalid")
	vEnd()
}

// vhModulus: every message modulus gives the scale Q/2p rounded to nearest.
func vhModulus[T TorusInt]() {
	lit := vhParams[T](vhP{}).Literal()
	w := num.SizeT[T]()
	for _, m := range []uint64{1, 2, 3, 5, 6, 7, 11, 97, 255, 256, 257, 65535, 1<<31 - 1, 1 << 31} {
		p := lit.WithMessageModulus(T(m)).Compile()
		vAssert(p.MessageModulus() == T(m), "MessageModulus")
		vAssert(p.Scale() == vhDefScale[T](m), "Scale")
		vAssert(p.LogQ() == w, "LogQ")
	}
	vAssert(vPanics(func() { lit.WithMessageModulus(0).Compile() }), "a zero modulus does not compile")
	vEnd()
}

func VH_P22_mod32() { vhModulus[uint32]() }
func VH_P22_mod64() { vhModulus[uint64]() }

func vhDefaults[T TorusInt](ps ...ParametersLiteral[T]) {
	for _, l := range ps {
		var p Parameters[T]
		vAssert(!vPanics(func() { p = l.Compile() }), "default parameters compile")
		vAssert(p.Literal().Compile() == p, "Literal compiles to the same parameters")
		vAssert(p.PolyRank() >= 16 && p.MessageModulus() >= 2, "default parameters are usable")
		vAssert(uint64(p.LUTSize()) >= 2*uint64(p.MessageModulus()), "tables hold every message")
	}
	vEnd()
}

func VH_P22_default32() { vhDefaults(ParamsBinary, ParamsBinaryCompact, ParamsBinaryOriginal) }
func VH_P22_default64() {
	vhDefaults(ParamsUint2, ParamsUint3, ParamsUint4, ParamsUint5, ParamsUint6, ParamsUint7, ParamsUint8)
}
