//go:build verifharness

package num

import "math/bits"

// vhDivRound: q is x/y rounded to nearest, ties away from zero.
func vhDivRound8[T Integer]() {
	x, y := vT[T]("x"), vT[T]("y")
	vAssume(y != 0)
	X, Y := int64(x), int64(y)
	vAssume(!(IsSigned[T]() && Y == -1 && X == MinT[T]()))
	q := int64(DivRound(x, y))
	d := 2 * (X - q*Y)
	if d < 0 {
		d = -d
	}
	a := Y
	if a < 0 {
		a = -a
	}
	vAssert(d <= a, "DivRound is nearest")
	if d == a {
		// tie: the larger magnitude
		m := 2 * q * Y
		if m < 0 {
			m = -m
		}
		n := 2 * X
		if n < 0 {
			n = -n
		}
		vAssert(m > n, "DivRound rounds ties away from zero")
	}
}

func VH_P25_divround8s() { vhDivRound8[int8]() }
func VH_P25_divround8u() { vhDivRound8[uint8]() }

// Full width, divisors chosen.
func vhDivRoundW[T Integer](ys []T) {
	x := vT[T]("x")
	y := ys[vChoose("y", len(ys))]
	q := DivRound(x, y)
	// remainder relative to the quotient, exact as |x - q y| <= |y|/2
	r := x - q*y
	if IsSigned[T]() {
		vAssume(!(y+1 == 0 && uint64(x) == uint64(MinT[T]())))
		ay, ar := y, r
		if ay < 0 {
			ay = -ay
		}
		if ar < 0 {
			ar = -ar
		}
		vAssert(uint64(ar) <= uint64(ay)-uint64(ar), "DivRound is nearest")
	} else {
		// r is a small number, positive or negative
		if r > T(MaxT[T]()/2) {
			r = -r
		}
		vAssert(r <= y-r, "DivRound is nearest")
	}
}

func VH_P25_divround16u() { vhDivRoundW([]uint16{1, 2, 3, 10, 255, 1 << 15, 1<<16 - 1}) }
func VH_P25_divround16s() { vhDivRoundW([]int16{1, -1, 2, -3, 100, -1 << 14, 1<<15 - 1}) }

// Wide values: divisors whose quotient is a shift or small.
//
//verif:timeout=120
func VH_P25_divround32u() { vhDivRoundW([]uint32{1, 2, 1 << 20, 1 << 31}) }

//verif:timeout=120
func VH_P25_divround64u() { vhDivRoundW([]uint64{1, 2, 1 << 32, 1 << 61, 1 << 63}) }

// Rounded shifts, at every width.
func vhDivBits[T Integer]() {
	x := vT[T]("x")
	n := SizeT[T]()
	b := vChoose("bits", n)
	q := DivRoundBits(x, b)
	if b == 0 {
		vAssert(q == x, "shift by zero")
		return
	}
	// floor((x + 2^(b-1)) / 2^b) without overflow
	lo := x & (T(1)<<b - 1)
	w := x >> b
	if lo >= T(1)<<(b-1) || lo < 0 || T(1)<<(b-1) < 0 && lo != lo&(T(1)<<(b-1)-1) {
		w++
	}
	vEqT(q, w, -1, "DivRoundBits rounds half up")
	vAssert(vPanics(func() { DivRoundBits(x, -1) }), "negative shift panics")
}

func VH_P25_divbits() {
	switch vChoose("type", 6) {
	case 0:
		vhDivBits[uint8]()
	case 1:
		vhDivBits[int8]()
	case 2:
		vhDivBits[uint32]()
	case 3:
		vhDivBits[uint64]()
	case 4:
		vhDivBits[int64]()
	case 5:
		vhDivBits[int32]()
	}
}

func vhBasic[T Integer](w int, signed bool) {
	x, y := vT[T]("x"), vT[T]("y")
	vAssert(SizeT[T]() == w && ByteSizeT[T]() == w/8 && IsSigned[T]() == signed, "type size and sign")
	if signed {
		vAssert(MaxT[T]() == 1<<(w-1)-1 && MinT[T]() == -1<<(w-1), "type limits")
	} else {
		vAssert(MaxT[T]() == ^uint64(0)>>(64-w) && MinT[T]() == 0, "type limits")
	}
	vAssert(x <= T(MaxT[T]()) && (!signed || x >= T(MinT[T]())), "limits bound every value")
	a := Abs(x)
	vAssert(vAny(vAll(signed, uint64(x) == uint64(MinT[T]())), vAll(a >= 0, vAny(a == x, a == -x))), "Abs")
	mx, mn := Max(x, y), Min(x, y)
	vAssert(vAll(mx >= x, mx >= y, vAny(mx == x, mx == y)), "Max")
	vAssert(vAll(mn <= x, mn <= y, vAny(mn == x, mn == y)), "Min")
	vAssert(MaxN[T]() == 0 && MinN[T]() == 0 && MaxN(x) == x && MinN(x) == x, "MaxN, MinN of few values")
	top := w
	if signed {
		top--
	}
	pow := false
	for i := 0; i < top; i++ {
		pow = vAny(pow, x == T(1)<<i)
	}
	vAssert(IsPowerOfTwo(x) == pow, "IsPowerOfTwo")
	if x > 0 {
		l := Log2(x)
		vAssert(l >= 0 && l < top && x>>l == 1, "Log2")
	} else {
		vAssert(vPanics(func() { Log2(x) }), "Log2 of a non-positive value panics")
	}
}

func vhMaxN[T Integer]() {
	x, y, z := vT[T]("x"), vT[T]("y"), vT[T]("z")
	mx, mn := MaxN(x, y, z), MinN(x, y, z)
	vAssert(vAll(mx >= x, mx >= y, mx >= z, vAny(mx == x, mx == y, mx == z)), "MaxN")
	vAssert(vAll(mn <= x, mn <= y, mn <= z, vAny(mn == x, mn == y, mn == z)), "MinN")
}

func VH_P25_basic_uint8()  { vhBasic[uint8](8, false) }
func VH_P25_basic_int8()   { vhBasic[int8](8, true) }
func VH_P25_basic_uint16() { vhBasic[uint16](16, false) }
func VH_P25_basic_int16()  { vhBasic[int16](16, true) }
func VH_P25_basic_uint32() { vhBasic[uint32](32, false) }
func VH_P25_basic_int32()  { vhBasic[int32](32, true) }
func VH_P25_basic_uint64() { vhBasic[uint64](64, false) }
func VH_P25_basic_int64()  { vhBasic[int64](64, true) }
func VH_P25_basic_uint()   { vhBasic[uint](64, false) }
func VH_P25_basic_int()    { vhBasic[int](64, true) }

func VH_P25_maxn() {
	vhMaxN[int8]()
	vhMaxN[uint32]()
}

func vhSqrt[T Integer]() {
	x := vT[T]("x")
	if x < 0 {
		vAssert(vPanics(func() { Sqrt(x) }), "Sqrt of a negative value panics")
		return
	}
	s := Sqrt(x)
	S, X := uint64(s), uint64(x)
	vAssert(s >= 0 && S <= 1<<16 && S*S <= X && (S+1)*(S+1) > X, "Sqrt")
}

func VH_P25_sqrt8()  { vhSqrt[int8]() }
func VH_P25_sqrt16() { vhSqrt[uint16]() }

// Square root at the top of the range.
func VH_P25_sqrt64() {
	r := []uint64{128, 1000, 1<<16 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}[vChoose("r", 6)]
	d := uint64(vT[uint8]("d"))
	s := Sqrt(r*r - 128 + d)
	w := r
	if d < 128 {
		w--
	}
	if r > 128 || d >= 128 {
		vAssert(s == w, "Sqrt around a square")
	}
}

// Modular inverse: every value of the type, for the listed moduli; ps are the
// prime factors of the modulus.
func vhInverse[T Integer](m T, ps ...T) {
	x := vT[T]("x")
	var r T
	p := vPanics(func() { r = ModInverse(x, m) })
	X := x % m
	if X < 0 {
		X += m
	}
	no := false
	for _, q := range ps {
		if X%q == 0 {
			no = true
		}
	}
	vAssert(p == no, "ModInverse panics exactly when there is no inverse")
	if !p {
		vAssert(r >= 0 && r < m, "ModInverse is reduced")
		vAssert(uint32(X)*uint32(r)%uint32(m) == 1%uint32(m), "ModInverse")
	}
}

func VH_P25_inverse8() {
	switch vChoose("m", 5) {
	case 0:
		vhInverse[int8](1)
	case 1:
		vhInverse[int8](2, 2)
	case 2:
		vhInverse[int8](7, 7)
	case 3:
		vhInverse[int8](12, 2, 3)
	case 4:
		vhInverse[int8](16, 2)
	}
}

func VH_P25_inverse8m127() { vhInverse[int8](127, 127) }

func VH_P25_inverse8u() {
	switch vChoose("m", 4) {
	case 0:
		vhInverse[uint8](3, 3)
	case 1:
		vhInverse[uint8](8, 2)
	case 2:
		vhInverse[uint8](30, 2, 3, 5)
	case 3:
		vhInverse[uint8](128, 2)
	}
}

func VH_P25_inverse8m251() { vhInverse[uint8](251, 251) }
func VH_P25_inverse8m255() { vhInverse[uint8](255, 3, 5, 17) }

func VH_P25_domain() {
	x, y := vT[int32]("x"), vT[int32]("y")
	m := vT[int32]("m")
	vAssume(m <= 0)
	vAssert(vPanics(func() { ModInverse(x, m) }), "ModInverse needs a positive modulus")
	vAssert(vPanics(func() { ModExp(x, y, m) }), "ModExp needs a positive modulus")
}

// Exponentiation with chosen modulus and exponent; a negative exponent is that
// power of the modular inverse (x coprime to the modulus).
func vhModExp[T Integer](ms, ys []T) {
	m := ms[vChoose("m", len(ms))]
	y := ys[vChoose("y", len(ys))]
	x := vT[T]("x")
	e, b := uint64(y), x
	var r T
	if y < 0 {
		e = -e
		var inv T
		no := vPanics(func() { inv = ModInverse(x, m) })
		vAssert(vPanics(func() { r = ModExp(x, y, m) }) == no, "ModExp with a negative exponent panics exactly when there is no inverse")
		if no {
			return
		}
		b = inv
	} else {
		r = ModExp(x, y, m)
	}
	b %= m
	if b < 0 {
		b += m
	}
	w := 1 % uint64(m)
	for i := uint64(0); i < e; i++ {
		hi, lo := bits.Mul64(w, uint64(b))
		w = bits.Rem64(hi, lo, uint64(m))
	}
	vAssert(r >= 0, "ModExp is reduced")
	vAssert(r < m, "ModExp is reduced")
	vAssert(uint64(r) == w, "ModExp")
}

func VH_P25_modexp8() {
	vhModExp([]int8{1, 2, 12, 127}, []int8{0, 1, 2, 3})
}
func VH_P25_modexp8n() {
	vhModExp([]int8{1, 3}, []int8{-1, -2, -128})
}

// Longer exponents modulo small numbers.
func VH_P25_modexp8l() {
	vhModExp([]uint8{3, 5, 8}, []uint8{7, 16, 255})
}
func VH_P25_modexp8u() {
	vhModExp([]uint8{1, 2, 9, 128, 255}, []uint8{0, 1, 2, 5, 16})
}

// Wide moduli: concrete values that overflow the naive product.
func VH_P25_modexp64() {
	ms := []uint64{1<<61 - 1, 1<<63 + 29, 1<<64 - 59, 1 << 63, 97}
	m := ms[vChoose("m", len(ms))]
	x := []uint64{2, 3, m - 1, m - 2, m / 3}[vChoose("x", 5)]
	y := []uint64{0, 1, 2, 3, 10, 33}[vChoose("y", 6)]
	w := 1 % m
	for i := uint64(0); i < y; i++ {
		hi, lo := bits.Mul64(w, x%m)
		w = bits.Rem64(hi, lo, m)
	}
	vAssert(ModExp(x, y, m) == w, "ModExp with a wide modulus")
	if m&1 == 1 || x&1 == 1 {
		var r uint64
		if !vPanics(func() { r = ModInverse(x, m) }) {
			hi, lo := bits.Mul64(r, x%m)
			vAssert(bits.Rem64(hi, lo, m) == 1%m && r < m, "ModInverse with a wide modulus")
		}
	}
}
