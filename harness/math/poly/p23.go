//go:build verifharness

package poly

func vhPolyCopies[T uint32 | uint64](N int) {
	a, b := vhPoly[T]("a", N), vhPoly[T]("b", N)
	p := From(a, N)
	vAssert(p.Rank() == N && len(p.Coeffs) == N, "rank of a polynomial")
	vhSameV(p.Coeffs, a, "From copies the coefficients")
	q := p.Copy()
	vhSameV(q.Coeffs, a, "Copy is equal")
	q.CopyFrom(From(b, N))
	vhSameV(q.Coeffs, b, "CopyFrom copies everything")
	vhSameV(p.Coeffs, a, "changing a copy leaves the original")
	b0 := vhCp(b)
	r := From(b, N)
	p.CopyFrom(r)
	p.Coeffs[0]++
	vhSameV(r.Coeffs, b0, "CopyFrom does not alias")
	p.Clear()
	vhSameV(p.Coeffs, make([]T, N), "Clear zeroes")
	vhSameV(r.Coeffs, b0, "Clear is local")
	b[0]++
	vhSameV(r.Coeffs, b0, "From does not alias")
	short := From(a[:N-5], N)
	vhSameV(short.Coeffs[:N-5], a[:N-5], "From extends with zeroes")
	vhSameV(short.Coeffs[N-5:], make([]T, 5), "From extends with zeroes")
	long := From(append(vhCp(a), 1, 2, 3), N)
	vhSameV(long.Coeffs, a, "From truncates")
	eq := true
	for i := range a {
		eq = eq && a[i] == b0[i]
	}
	vAssert(From(a, N).Equals(From(b0, N)) == eq, "Equals")
	vAssert(From(a, N).Equals(From(a, N)), "Equals is reflexive")
	vEnd()
}

func vhSameV[T vInteger](x, y []T, msg string) {
	vAssert(len(x) == len(y), msg)
	for i := range x {
		vEqT(x[i], y[i], -1, msg)
	}
}

//verif:paths=400
func VH_P23_mathpoly32() { vhPolyCopies[uint32](16) }

//verif:paths=400
func VH_P23_mathpoly64() { vhPolyCopies[uint64](16) }

//verif:tier=thorough paths=400
func VH_P23_mathpoly64l() { vhPolyCopies[uint64](32) }

func VH_P23_fftpoly() {
	for _, N := range []int{16, 32} {
		p, q := NewFFTPoly(N), NewFFTPoly(N)
		for i := range p.Coeffs {
			p.Coeffs[i], q.Coeffs[i] = vReal("p"), vReal("q")
		}
		p0, q0 := vhCp(p.Coeffs), vhCp(q.Coeffs)
		same := func(x, y []float64, m string) {
			vAssert(len(x) == len(y), m)
			for i := range x {
				vEqF(x[i], y[i], 0, m)
			}
		}
		vAssert(p.Rank() == N, "rank")
		r := p.Copy()
		same(r.Coeffs, p0, "Copy is equal")
		r.CopyFrom(q)
		same(r.Coeffs, q0, "CopyFrom copies everything")
		same(p.Coeffs, p0, "changing a copy leaves the original")
		r.Clear()
		same(r.Coeffs, make([]float64, N), "Clear zeroes")
		same(q.Coeffs, q0, "CopyFrom does not alias")
	}
	vEnd()
}
