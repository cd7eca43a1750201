//go:build verifharness

package tfhe

import (
	"math/bits"

	"github.com/sp301415/tfhe-go/math/num"
)

// vhHalf is the largest error below half of the scale that is tolerable for
// messages modulo p (p*c must be Q/scale rounded): half of the scale less the
// distance of p*c*scale from the torus modulus.
func vhHalf[T TorusInt](scale T, slots uint64) T {
	gap := -(scale * T(slots)) // Q - slots*scale, mod Q
	if gap > -gap {
		gap = -gap
	}
	h := (scale - 1) / 2
	if gap >= h {
		return 0
	}
	return h - gap
}

// vhErr is any error of absolute value up to h.
func vhErr[T TorusInt](h T) T {
	e := vT[T]("e")
	vAssume(e+h <= 2*h)
	return e
}

// vhScale is the documented default scale, Q/2p rounded.
func vhDefScale[T TorusInt](p uint64) T {
	w := num.SizeT[T]()
	q, r := bits.Div64(0, 1<<(w-1), p)
	if r >= p-r {
		q++
	}
	return T(q)
}

var vhMods = []uint64{1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 64, 100, 255, 256, 1000, 1 << 10, 1 << 16}

func vhEncParams[T TorusInt](p uint64) Parameters[T] {
	return vhParams[T](vhP{msg: p})
}

// Round trip with the parameters' modulus and scale: every residue, every error.
func vhRoundLWE[T TorusInt](mods []uint64) {
	p := mods[vChoose("p", len(mods))]
	params := vhEncParams[T](p)
	sc := vhDefScale[T](p)
	vAssert(params.Scale() == sc, "Scale is Q/2p")
	vAssert(params.MessageModulus() == T(p), "MessageModulus")
	e := NewEncoder(params)
	r := vInt("r")
	vAssume(uint64(r) < p)
	err := vhErr(vhHalf(sc, 2*p))
	pt := e.EncodeLWE(r)
	vEqT(pt.Value, T(r)*sc, -1, "EncodeLWE")
	pt.Value += err
	vAssert(e.DecodeLWE(pt) == r, "DecodeLWE recovers the message")
}

//verif:timeout=60
func VH_P02_lwe32() { vhRoundLWE[uint32](vhMods) }

//verif:timeout=60
func VH_P02_lwe64() { vhRoundLWE[uint64]([]uint64{1, 2, 4, 8, 16, 64, 256, 1 << 10, 1 << 16}) }

// Every message, also negative and beyond the modulus, is reduced.
func vhReduce[T TorusInt]() {
	p := vhMods[vChoose("p", len(vhMods))]
	e := NewEncoder(vhEncParams[T](p))
	sc := vhDefScale[T](p)
	r := vInt("r")
	vAssume(uint64(r) < p)
	k := []int{0, 1, -1, 2, -3, 1 << 20, -1 << 20, 1 << 33, -1<<33 - 1}[vChoose("k", 9)]
	vEqT(e.EncodeLWE(r+k*int(p)).Value, T(r)*sc, -1, "EncodeLWE reduces the message")
	pt := e.EncodeGLWE([]int{r + k*int(p), 0, k * int(p)})
	vEqT(pt.Value.Coeffs[0], T(r)*sc, -1, "EncodeGLWE reduces the message")
	vEqT(pt.Value.Coeffs[2], 0, -1, "EncodeGLWE reduces the message")
}

//verif:timeout=60
func VH_P02_reduce32() { vhReduce[uint32]() }

//verif:timeout=60
func VH_P02_reduce64() { vhReduce[uint64]() }

// Custom modulus and scale; modulus 0 means no reduction on encoding, and the
// number of slots on decoding.
func vhCustom[T TorusInt](full bool) {
	w := num.SizeT[T]()
	// slots of the torus, then the modulus (dividing the slots)
	type c struct{ slots, mod uint64 }
	cs := []c{{2, 2}, {2, 1}, {4, 4}, {8, 4}, {16, 16}, {64, 16}, {1 << 12, 1 << 12}, {1 << 20, 1 << 5}, {1 << 30, 1 << 30}}
	if full {
		cs = append(cs, c{3, 3}, c{6, 3}, c{7, 7}, c{10, 5}, c{100, 50}, c{1000, 1000})
	}
	x := cs[vChoose("c", len(cs))]
	q, rem := bits.Div64(1>>(64-w), 1<<(w&63)&^1, x.slots)
	if w == 64 {
		q, rem = bits.Div64(1, 0, x.slots)
	}
	if rem >= x.slots-rem {
		q++
	}
	sc := T(q)
	e := NewEncoder(vhEncParams[T](4))
	r := vInt("r")
	h := vhHalf(sc, x.slots)
	vAssume(uint64(r) < x.mod)
	err := vhErr(h)
	pt := e.EncodeLWECustom(r, T(x.mod), sc)
	vEqT(pt.Value, T(r)*sc, -1, "EncodeLWECustom")
	pt.Value += err
	vAssert(e.DecodeLWECustom(pt, T(x.mod), sc) == r, "DecodeLWECustom recovers the message")
	vAssert(e.EncodeLWECustom(r, 0, sc).Value == T(r)*sc, "EncodeLWECustom without modulus")
	if x.mod == x.slots {
		vAssert(e.DecodeLWECustom(pt, 0, sc) == r, "DecodeLWECustom with the default modulus")
	}
	any := vInt("any")
	vEqT(e.EncodeLWECustom(any, 0, sc).Value, T(any)*sc, -1, "EncodeLWECustom without modulus does not reduce")

	g := e.EncodeGLWECustom([]int{r, any}, 0, sc)
	vEqT(g.Value.Coeffs[0], T(r)*sc, -1, "EncodeGLWECustom without modulus")
	vEqT(g.Value.Coeffs[1], T(any)*sc, -1, "EncodeGLWECustom without modulus does not reduce")
	g = e.EncodeGLWECustom([]int{0, r}, T(x.mod), sc)
	vAssert(g.Value.Rank() == 16, "EncodeGLWECustom: rank")
	for i := range g.Value.Coeffs {
		if i != 1 {
			vEqT(g.Value.Coeffs[i], 0, -1, "EncodeGLWECustom pads with zero")
		}
	}
	g.Value.Coeffs[1] += err
	g.Value.Coeffs[2] += err
	m := e.DecodeGLWECustom(g, T(x.mod), sc)
	vAssert(len(m) == 16, "DecodeGLWECustom: length")
	vAssert(m[1] == r, "DecodeGLWECustom recovers the message")
	vAssert(m[2] == 0, "DecodeGLWECustom recovers the padding")
	if x.mod == x.slots {
		m = e.DecodeGLWECustom(g, 0, sc)
		vAssert(m[1] == r, "DecodeGLWECustom with the default modulus")
		vAssert(m[2] == 0, "DecodeGLWECustom with the default modulus")
	}
}

//verif:timeout=60
func VH_P02_custom32() { vhCustom[uint32](true) }

//verif:timeout=60
func VH_P02_custom64() { vhCustom[uint64](false) }

// Without scaling every value decodes to itself.
func vhScale1[T TorusInt]() {
	e := NewEncoder(vhEncParams[T](4))
	x := vT[T]("x")
	vAssert(e.DecodeLWECustom(LWEPlaintext[T]{Value: x}, 0, 1) == int(x), "scale 1 decodes every value")
	pt := NewGLWEPlaintext(e.Params)
	pt.Value.Coeffs[3] = x
	vAssert(e.DecodeGLWECustom(pt, 0, 1)[3] == int(x), "scale 1 decodes every value")
}

func VH_P02_unit32() { vhScale1[uint32]() }
func VH_P02_unit64() { vhScale1[uint64]() }

// Polynomial plaintexts: fewer, as many and more messages than slots; outputs
// reused; shorter and longer outputs when decoding.
func vhRoundGLWE[T TorusInt]() {
	const N = 16
	p := uint64(8)
	params := vhEncParams[T](p)
	sc := params.Scale()
	e := NewEncoder(params)
	n := []int{0, 1, 5, N, N + 3}[vChoose("messages", 5)]
	ms := make([]int, n)
	for i := range ms {
		ms[i] = vInt("m")
		vAssume(uint64(ms[i]) < p)
	}
	pt := e.EncodeGLWE(ms)
	to := NewGLWEPlaintext(params)
	copy(to.Value.Coeffs, vhVec[T]("old", N))
	e.EncodeGLWETo(to, ms)
	cu := NewGLWEPlaintext(params)
	copy(cu.Value.Coeffs, vhVec[T]("old", N))
	e.EncodeGLWECustomTo(cu, ms, T(p), sc)
	want := func(i int) int {
		if i < n {
			return ms[i]
		}
		return 0
	}
	vAssert(pt.Value.Rank() == N, "EncodeGLWE: rank")
	for i := 0; i < N; i++ {
		vEqT(pt.Value.Coeffs[i], T(want(i))*sc, -1, "EncodeGLWE")
		vEqT(to.Value.Coeffs[i], T(want(i))*sc, -1, "EncodeGLWETo")
		vEqT(cu.Value.Coeffs[i], T(want(i))*sc, -1, "EncodeGLWECustomTo")
		if i == 0 || i == 4 || i == N-1 {
			pt.Value.Coeffs[i] += vhErr(vhHalf(sc, 2*p))
		}
	}
	d := e.DecodeGLWE(pt)
	vAssert(len(d) == N, "DecodeGLWE: length")
	for i := range d {
		vAssert(d[i] == want(i), "DecodeGLWE recovers the messages")
	}
	short := []int{-1, -1, -1}
	e.DecodeGLWETo(short, pt)
	for i := range short {
		vAssert(short[i] == want(i), "DecodeGLWETo recovers the first messages")
	}
	long := make([]int, N+2)
	long[N], long[N+1] = -5, -6
	e.DecodeGLWECustomTo(long, pt, T(p), sc)
	for i := 0; i < N; i++ {
		vAssert(long[i] == want(i), "DecodeGLWECustomTo recovers the messages")
	}
	vAssert(long[N] == -5 && long[N+1] == -6, "DecodeGLWECustomTo writes only the slots")
}

func VH_P02_glwe32() { vhRoundGLWE[uint32]() }
func VH_P02_glwe64() { vhRoundGLWE[uint64]() }

// Binary plaintexts: +-Q/8 decodes under any error below a quarter (a half of
// the distance of the two encodings).
func vhRoundBool[T TorusInt]() {
	e := NewBinaryEncoder(vhEncParams[T](4))
	w := num.SizeT[T]()
	for _, m := range []bool{false, true} {
		pt := e.EncodeLWEBool(m)
		x := T(1) << (w - 3)
		if !m {
			x = -x
		}
		vEqT(pt.Value, x, -1, "EncodeLWEBool")
		pt.Value += vhErr(T(1)<<(w-3) - 1)
		vAssert(e.DecodeLWEBool(pt) == m, "DecodeLWEBool recovers the message")
		// up to the other side of the circle
		pt = e.EncodeLWEBool(m)
		y := vT[T]("far")
		vAssume(y < T(1)<<(w-3))
		if m {
			pt.Value += 2 * y
		} else {
			pt.Value -= 2 * y
		}
		vAssert(e.DecodeLWEBool(pt) == m, "DecodeLWEBool: sign of the phase")
	}
}

func VH_P02_bool32() { vhRoundBool[uint32]() }
func VH_P02_bool64() { vhRoundBool[uint64]() }

//verif:tier=thorough timeout=120
func VH_P02_lwe64odd() { vhRoundLWE[uint64]([]uint64{3, 5, 10, 100, 1000}) }
