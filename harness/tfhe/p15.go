//go:build verifharness

package tfhe

import (
	"math/bits"

	"github.com/sp301415/tfhe-go/math/num"
)

func vhMSEval[T TorusInt](lg, ext int) *Evaluator[T] {
	return NewEvaluator(vhParams[T](vhP{N: 1 << lg, lut: ext << lg}), EvaluationKey[T]{})
}

// Power-of-two table sizes: the exact nearest index; where the 53-bit mantissa
// cannot hold the value (64-bit torus), up to its rounding.
func vhMSPow[T TorusInt](lg, ext int) {
	e := vhMSEval[T](lg, ext)
	w := num.SizeT[T]()
	l := lg + num.Log2(ext) + 1 // 2 * LUTSize = 2^l
	x := vT[T]("x")
	r := e.ModSwitch(x)
	vAssert(r >= 0, "ModSwitch is in range")
	vAssert(r < 1<<l, "ModSwitch is in range")
	d := T(r)<<(w-l) - x
	h := T(1) << (w - l - 1)
	if w == 64 {
		h += 1 << 11
	}
	vAssert(d+h <= 2*h, "ModSwitch rounds to nearest")
	if w == 32 {
		vAssert(d != -h, "ModSwitch rounds ties up")
	}
}

//verif:fp=1 timeout=60
func VH_P15_pow32_4x1() { vhMSPow[uint32](4, 1) }

//verif:fp=1 timeout=60
func VH_P15_pow32_5x2() { vhMSPow[uint32](5, 2) }

//verif:fp=1 timeout=60
func VH_P15_pow32_8x4() { vhMSPow[uint32](8, 4) }

//verif:fp=1 timeout=60
func VH_P15_pow32_10x1() { vhMSPow[uint32](10, 1) }

//verif:fp=1 timeout=60 tier=thorough
func VH_P15_pow32_11x1() { vhMSPow[uint32](11, 1) }

//verif:fp=1 timeout=60 tier=thorough
func VH_P15_pow32_11x4() { vhMSPow[uint32](11, 4) }

//verif:fp=1 timeout=60 tier=thorough
func VH_P15_pow32_15x1() { vhMSPow[uint32](15, 1) }

//verif:fp=1 timeout=60
func VH_P15_pow64_4x1() { vhMSPow[uint64](4, 1) }

//verif:fp=1 timeout=60
func VH_P15_pow64_5x2() { vhMSPow[uint64](5, 2) }

//verif:fp=1 timeout=60
func VH_P15_pow64_8x4() { vhMSPow[uint64](8, 4) }

//verif:fp=1 timeout=60
func VH_P15_pow64_10x1() { vhMSPow[uint64](10, 1) }

//verif:fp=1 timeout=60 tier=thorough
func VH_P15_pow64_11x1() { vhMSPow[uint64](11, 1) }

//verif:fp=1 timeout=60 tier=thorough
func VH_P15_pow64_11x4() { vhMSPow[uint64](11, 4) }

//verif:fp=1 timeout=60 tier=thorough
func VH_P15_pow64_15x1() { vhMSPow[uint64](15, 1) }

// Extended tables whose size is not a power of two: r is nearest to
// x * 2L / Q, up to the rounding of the floating point product.
func vhMSOdd[T TorusInt](lg, ext int) {
	e := vhMSEval[T](lg, ext)
	w := num.SizeT[T]()
	m := uint64(2 * ext << lg)
	x := vT[T]("x")
	r := e.ModSwitch(x)
	vAssert(r >= 0, "ModSwitch is in range")
	vAssert(uint64(r) < m, "ModSwitch is in range")
	// r Q - x m in [-Q/2, Q/2] modulo m Q
	hi, lo := bits.Mul64(uint64(x), m)
	if w == 32 {
		d := uint64(r)<<32 - lo // m Q does not overflow 64 bits
		s := d + 1<<31
		vAssert(vAny(s <= 1<<32, s+m<<32 <= 1<<32), "ModSwitch rounds to nearest")
		return
	}
	// nearest index from the high word
	q := hi
	if lo >= 1<<63 {
		q++
	}
	if q == m {
		q = 0
	}
	near := vAny(uint64(r) == q, vAll(lo > 1<<63-1<<28, lo < 1<<63+1<<28))
	vAssert(near, "ModSwitch rounds to nearest")
}

//verif:fp=1 timeout=60
func VH_P15_odd32() { vhMSOdd[uint32](4, 3) }

//verif:fp=1 timeout=60
func VH_P15_odd64() { vhMSOdd[uint64](4, 3) }
