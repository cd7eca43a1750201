//go:build verifharness

package tfhe

// vhLUTAt checks the entry of every position that message x selects with an
// error below half a slot, for a table of L = X*N entries and p messages.
func vhLUTAt[T TorusInt](lut LookUpTable[T], X, N int, p uint64, enc func(x int) T, msg string) {
	L := X * N
	vAssert(len(lut.Value) == X, msg+": extension factor")
	for i := range lut.Value {
		vAssert(lut.Value[i].Rank() == N, msg+": rank")
	}
	P := int(p)
	slack := 0
	if L%(2*P) != 0 {
		slack = 2 * P
	}
	for x := 0; x < P; x++ {
		v := enc(x)
		for i := -L; i < L; i++ {
			d := 2*P*i - 2*x*L
			if d < 0 {
				d = -d
			}
			if d >= L-slack {
				continue
			}
			// position i of the negacyclic table
			if i >= 0 {
				vEqT(lut.Value[i%X].Coeffs[i/X], v, -1, msg+": entry")
			} else {
				j := i + L
				vEqT(-lut.Value[j%X].Coeffs[j/X], v, -1, msg+": wrapped entry")
			}
		}
	}
}

// vhLUTEdge checks every entry whatsoever: it belongs to one of the two
// messages next to its position.
func vhLUTEdge[T TorusInt](lut LookUpTable[T], X, N int, p uint64, enc func(x int) T, msg string) {
	L, P := X*N, int(p)
	for i := 0; i < L; i++ {
		x := i * P / L
		a := enc(x)
		var b T
		if x+1 < P {
			b = enc(x + 1)
		} else {
			b = -enc(0)
		}
		v := lut.Value[i%X].Coeffs[i/X]
		vAssert(vAny(v == a, v == b), msg+": every entry belongs to a neighbouring message")
	}
}

func vhOldLUT[T TorusInt](X, N int) LookUpTable[T] {
	lut := NewLUTCustom[T](X, N)
	for i := range lut.Value {
		copy(lut.Value[i].Coeffs, vhVec[T]("old", N))
	}
	return lut
}

func vhLUT[T TorusInt](N, X int, p uint64) {
	params := vhParams[T](vhP{N: N, lut: X * N, msg: p})
	e := NewEvaluator(params, EvaluationKey[T]{})
	sc := vhDefScale[T](p)
	tab := make([]int, p)
	full := make([]T, p)
	for i := range tab {
		tab[i] = vInt("f")
		vAssume(uint64(tab[i]) < p)
		full[i] = vT[T]("g")
	}
	in := true
	f := func(x int) int {
		if x < 0 || x >= int(p) {
			in = false
			return 0
		}
		return tab[x]
	}
	g := func(x int) T {
		if x < 0 || x >= int(p) {
			in = false
			return 0
		}
		return full[x]
	}
	ef := func(x int) T { return T(tab[x]) * sc }
	eg := func(x int) T { return full[x] }
	vhLUTAt(e.GenLUT(f), X, N, p, ef, "GenLUT")
	lut := vhOldLUT[T](X, N)
	e.GenLUTTo(lut, f)
	vhLUTAt(lut, X, N, p, ef, "GenLUTTo")
	vhLUTAt(e.GenLUTFull(g), X, N, p, eg, "GenLUTFull")
	lut = vhOldLUT[T](X, N)
	e.GenLUTFullTo(lut, g)
	vhLUTAt(lut, X, N, p, eg, "GenLUTFullTo")
	// other moduli than that of the parameters
	for _, q := range []uint64{1, 2, p} {
		s := vhDefScale[T](q) << 1 >> 2
		ec := func(x int) T { return T(tab[x]) % T(q) * s }
		vhLUTAt(e.GenLUTCustom(f, T(q), s), X, N, q, ec, "GenLUTCustom")
		lut = vhOldLUT[T](X, N)
		e.GenLUTCustomTo(lut, f, T(q), s)
		vhLUTAt(lut, X, N, q, ec, "GenLUTCustomTo")
		vhLUTAt(e.GenLUTCustomFull(g, T(q)), X, N, q, eg, "GenLUTCustomFull")
		lut = vhOldLUT[T](X, N)
		e.GenLUTCustomFullTo(lut, g, T(q))
		vhLUTAt(lut, X, N, q, eg, "GenLUTCustomFullTo")
	}
	// moduli that need not divide the table size, one table after another
	for _, q := range []uint64{3, 6, 7, 12, 5} {
		if uint64(X*N) < 4*q {
			continue
		}
		s := vhDefScale[T](q)
		ok := true
		fq := func(x int) int {
			if x < 0 || x >= int(q) {
				ok = false
				return 0
			}
			return x
		}
		gq := func(x int) T { return T(fq(x)+1) * full[0] }
		ec := func(x int) T { return T(x) * s }
		eg := func(x int) T { return T(x+1) * full[0] }
		both := func(lut LookUpTable[T], e func(x int) T, msg string) {
			vhLUTAt(lut, X, N, q, e, msg)
			vhLUTEdge(lut, X, N, q, e, msg)
		}
		both(e.GenLUTCustomFull(gq, T(q)), eg, "GenLUTCustomFull, other modulus")
		both(e.GenLUTCustom(fq, T(q), s), ec, "GenLUTCustom, other modulus")
		lut = vhOldLUT[T](X, N)
		e.GenLUTCustomTo(lut, fq, T(q), s)
		both(lut, ec, "GenLUTCustomTo, other modulus")
		e.GenLUTCustomFullTo(lut, gq, T(q))
		both(lut, eg, "GenLUTCustomFullTo, other modulus")
		vAssert(ok, "the function is only evaluated on messages of the modulus")
	}
	lut = e.GenLUT(f)
	vhLUTEdge(lut, X, N, p, ef, "GenLUT")
	vAssert(in, "the function is only evaluated on messages")
	// copies of tables
	c := lut.Copy()
	o := vhOldLUT[T](X, N)
	o.CopyFrom(lut)
	for i := range lut.Value {
		vhEq(c.Value[i].Coeffs, lut.Value[i].Coeffs, -1, "LookUpTable.Copy")
		vhEq(o.Value[i].Coeffs, lut.Value[i].Coeffs, -1, "LookUpTable.CopyFrom")
	}
	o.Clear()
	for i := range o.Value {
		vhEq(o.Value[i].Coeffs, make([]T, N), -1, "LookUpTable.Clear")
		vhEq(c.Value[i].Coeffs, lut.Value[i].Coeffs, -1, "LookUpTable.Copy is independent")
	}
}

func VH_P14_lut32p2() { vhLUT[uint32](16, 1, 2) }
func VH_P14_lut32p4() { vhLUT[uint32](16, 1, 4) }
func VH_P14_lut64p8() { vhLUT[uint64](32, 1, 8) }
func VH_P14_lutp3()   { vhLUT[uint32](32, 1, 3) }
func VH_P14_lutp5()   { vhLUT[uint64](64, 1, 5) }
func VH_P14_ext2()    { vhLUT[uint32](16, 2, 4) }
func VH_P14_ext3()    { vhLUT[uint32](16, 3, 4) }
func VH_P14_ext4()    { vhLUT[uint64](16, 4, 8) }
func VH_P14_ext4p3()  { vhLUT[uint64](16, 4, 3) }
func VH_P14_big()     { vhLUT[uint64](512, 1, 16) }
func VH_P14_bigext()  { vhLUT[uint32](256, 4, 32) }
func VH_P14_dense()   { vhLUT[uint32](16, 1, 8) }
