//go:build verifharness

package mktfhe

import (
	"bytes"
	"io"
	"math"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// vhIt is one field of the documented encoded form.
type vhIt[T tfhe.TorusInt] struct {
	kind int // 0: 8-byte header, 1: torus value, 2: float, 3: one byte
	h    uint64
	t    T
	f    float64
}

type vhW[T tfhe.TorusInt] struct{ it []vhIt[T] }

func (w *vhW[T]) h(x ...int) {
	for _, v := range x {
		w.it = append(w.it, vhIt[T]{h: uint64(v)})
	}
}
func (w *vhW[T]) b(x byte) { w.it = append(w.it, vhIt[T]{kind: 3, h: uint64(x)}) }
func (w *vhW[T]) v(x []T) {
	for _, t := range x {
		w.it = append(w.it, vhIt[T]{kind: 1, t: t})
	}
}
func (w *vhW[T]) f(x ...float64) {
	for _, t := range x {
		w.it = append(w.it, vhIt[T]{kind: 2, f: t})
	}
}
func (w *vhW[T]) ps(x []poly.Poly[T]) {
	for _, p := range x {
		w.v(p.Coeffs)
	}
}
func (w *vhW[T]) fs(x []poly.FFTPoly) {
	for _, p := range x {
		w.f(p.Coeffs...)
	}
}
func (w *vhW[T]) gp(p tfhe.GadgetParameters[T]) { w.h(int(p.Base()), p.Level()) }

func (w *vhW[T]) bytes() []byte {
	var r []byte
	put := func(x uint64, n int) {
		for i := n - 1; i >= 0; i-- {
			r = append(r, byte(x>>(8*uint(i))))
		}
	}
	for _, x := range w.it {
		switch x.kind {
		case 0:
			put(x.h, 8)
		case 1:
			put(uint64(x.t), num.SizeT[T]()/8)
		case 2:
			put(math.Float64bits(x.f), 8)
		case 3:
			put(x.h, 1)
		}
	}
	return r
}

func vhSame[T tfhe.TorusInt](a, b *vhW[T], msg string) {
	vAssert(len(a.it) == len(b.it), msg+": shape")
	for i := range a.it {
		x, y := a.it[i], b.it[i]
		vAssert(x.kind == y.kind, msg+": shape")
		switch x.kind {
		case 1:
			vEqT(x.t, y.t, -1, msg)
		case 2:
			vAssert(math.Float64bits(x.f) == math.Float64bits(y.f), msg)
		default:
			vAssert(x.h == y.h, msg+": header")
		}
	}
}

// vhSlow delivers at most k bytes per read.
type vhSlow struct {
	b []byte
	k int
}

func (r *vhSlow) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.k
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

// vhFull accepts at most k bytes and then fails.
type vhFull struct{ k, got int }

type vhErrFull struct{}

func (vhErrFull) Error() string { return "full" }

func (w *vhFull) Write(p []byte) (int, error) {
	if w.got+len(p) > w.k {
		n := w.k - w.got
		w.got = w.k
		return n, vhErrFull{}
	}
	w.got += len(p)
	return len(p), nil
}

type vhEncV interface {
	ByteSize() int
	WriteTo(io.Writer) (int64, error)
	MarshalBinary() ([]byte, error)
}

type vhDecV[V any] interface {
	*V
	ReadFrom(io.Reader) (int64, error)
	UnmarshalBinary([]byte) error
}

func vhBytes(a, b []byte, msg string) {
	vAssert(len(a) == len(b), msg+": length")
	for i := range a {
		vAssert(a[i] == b[i], msg)
	}
}

// vhSer is the round trip of a value into a zero and into a used object.
func vhSer[T tfhe.TorusInt, V vhEncV, PV vhDecV[V]](v, used V, flat func(*vhW[T], V), msg string) {
	var it vhW[T]
	flat(&it, v)
	want := it.bytes()
	data, err := v.MarshalBinary()
	vAssert(err == nil, msg+": MarshalBinary succeeds")
	vAssert(len(data) == v.ByteSize(), msg+": MarshalBinary length is ByteSize")
	vhBytes(data, want, msg+": documented encoding")
	var bf bytes.Buffer
	n, err := v.WriteTo(&bf)
	vAssert(err == nil && n == int64(len(want)), msg+": WriteTo count")
	vhBytes(bf.Bytes(), want, msg+": WriteTo bytes")
	check := func(x V, m string) {
		var jt vhW[T]
		flat(&jt, x)
		vhSame(&it, &jt, msg+": "+m)
	}
	var z V
	vAssert(PV(&z).UnmarshalBinary(data) == nil, msg+": UnmarshalBinary succeeds")
	check(z, "UnmarshalBinary")
	vAssert(PV(&used).UnmarshalBinary(data) == nil, msg+": UnmarshalBinary succeeds")
	check(used, "UnmarshalBinary into a used object")
	// a stream of two encodings and a trailer, in pieces
	for _, k := range []int{1, 5, 4096} {
		r := &vhSlow{append(append(vhCp(data), data...), 0xaa, 0x55), k}
		var a, b V
		n, err := PV(&a).ReadFrom(r)
		vAssert(err == nil && n == int64(len(data)), msg+": ReadFrom count")
		vAssert(len(r.b) == len(data)+2, msg+": ReadFrom takes exactly one encoding")
		n, err = PV(&b).ReadFrom(r)
		vAssert(err == nil && n == int64(len(data)), msg+": ReadFrom count")
		vAssert(len(r.b) == 2 && r.b[0] == 0xaa && r.b[1] == 0x55, msg+": ReadFrom leaves the rest")
		check(a, "ReadFrom")
		check(b, "ReadFrom of the next value")
	}
	vhBytes(data, want, msg+": input unchanged")
}

// vhCut: every strict prefix is refused, and so is every writer that fails.
func vhCut[T tfhe.TorusInt, V vhEncV, PV vhDecV[V]](v V, flat func(*vhW[T], V), msg string) {
	data, err := v.MarshalBinary()
	vAssert(err == nil, msg+": MarshalBinary succeeds")
	for k := 0; k < len(data); k++ {
		if len(data) > 400 && k > 100 && k < len(data)-40 && k%7 != 0 {
			continue
		}
		var a V
		e, n := error(nil), int64(0)
		bad := vPanics(func() { n, e = PV(&a).ReadFrom(bytes.NewReader(data[:k])) })
		vAssert(!bad, msg+": truncated input does not panic")
		vAssert(e != nil, msg+": truncated input is refused")
		vAssert(n == int64(k), msg+": bytes consumed are counted on error")
		var b V
		bad = vPanics(func() { e = PV(&b).UnmarshalBinary(data[:k]) })
		vAssert(!bad && e != nil, msg+": truncated data is refused")
		w := &vhFull{k: k}
		bad = vPanics(func() { n, e = v.WriteTo(w) })
		vAssert(!bad && e != nil, msg+": write failure is reported")
		vAssert(n == int64(k), msg+": bytes written are counted on error")
	}
}

// vhObjs calls visit for every serializable type at the given sizes.
type vhSizes struct{ n, k, N, lv int }

func vhSetF(f []float64) {
	for i := range f {
		f[i] = vFloat("f")
	}
}
func vhSetP[T tfhe.TorusInt](p []poly.Poly[T]) {
	for i := range p {
		for j := range p[i].Coeffs {
			p[i].Coeffs[j] = vT[T]("c")
		}
	}
}
func vhSetFP(p []poly.FFTPoly) {
	for i := range p {
		vhSetF(p[i].Coeffs)
	}
}
func vhSetV[T tfhe.TorusInt](v []T) {
	for i := range v {
		v[i] = vT[T]("c")
	}
}

func vhG[T tfhe.TorusInt](base, level int) tfhe.GadgetParameters[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: T(1) << uint(base), Level: level}.Compile()
}

func vhRun[T tfhe.TorusInt, V vhEncV, PV vhDecV[V]](v, used V, flat func(*vhW[T], V), mode int, msg string) {
	switch mode {
	case 0:
		vhSer[T, V, PV](v, used, flat, msg)
	case 1:
		vhCut[T, V, PV](v, flat, msg)
	case 2:
		vhCopies[T, V](v, used, flat, msg)
	}
}

func vhFlatKSK[T tfhe.TorusInt](w *vhW[T], x tfhe.LWEKeySwitchKey[T]) {
	w.gp(x.GadgetParams)
	w.h(len(x.Value), len(x.Value[0].Value[0].Value)-1)
	for i := range x.Value {
		vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
		for j := range x.Value[i].Value {
			w.v(x.Value[i].Value[j].Value)
		}
	}
}

func vhFlatBRK[T tfhe.TorusInt](w *vhW[T], x tfhe.BlindRotateKey[T]) {
	w.gp(x.GadgetParams)
	w.h(len(x.Value), len(x.Value[0].Value)-1, x.Value[0].Value[0].Value[0].Value[0].Rank())
	for i := range x.Value {
		vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
		for j := range x.Value[i].Value {
			vAssert(x.Value[i].Value[j].GadgetParams == x.GadgetParams, "inner gadget parameters")
			for l := range x.Value[i].Value[j].Value {
				w.fs(x.Value[i].Value[j].Value[l].Value)
			}
		}
	}
}

// vhCopies: Copy and CopyFrom give equal, independent objects; Clear zeroes.
// b has the shape of a and other contents.
func vhCopies[T tfhe.TorusInt, V any](a, b V, flat func(*vhW[T], V), msg string) {
	if msg == "GadgetParameters" || msg == "Parameters" {
		return // plain values
	}
	type cp interface{ Copy() V }
	type mut interface {
		CopyFrom(V)
		Clear()
	}
	get := func(x V) *vhW[T] {
		var w vhW[T]
		flat(&w, x)
		return &w
	}
	set := func(x *V, y V) {
		m, ok := any(x).(mut)
		vAssert(ok, msg+": CopyFrom and Clear exist")
		m.CopyFrom(y)
	}
	c, ok := any(a).(cp)
	vAssert(ok, msg+": Copy exists")
	a0, b0 := get(a), get(b)
	x := c.Copy()
	vhSame(get(x), a0, msg+": Copy is equal")
	set(&x, b)
	vhSame(get(x), b0, msg+": CopyFrom copies everything")
	vhSame(get(a), a0, msg+": changing a copy leaves the original")
	vhSame(get(b), b0, msg+": CopyFrom leaves its source")
	any(&x).(mut).Clear()
	vhSame(get(b), b0, msg+": CopyFrom does not alias its source")
	w := get(x)
	for i := range w.it {
		if w.it[i].kind == 1 {
			vEqT(w.it[i].t, 0, -1, msg+": Clear zeroes every value")
		}
		if w.it[i].kind == 2 {
			vAssert(w.it[i].f == 0, msg+": Clear zeroes every value")
		}
		if w.it[i].kind == 0 {
			vAssert(w.it[i].h == b0.it[i].h, msg+": Clear keeps the shape")
		}
	}
	y := any(a).(cp).Copy()
	set(&a, b)
	vhSame(get(a), b0, msg+": CopyFrom copies everything")
	vhSame(get(y), a0, msg+": changing the original leaves the copy")
	any(&a).(mut).Clear()
	vhSame(get(y), a0, msg+": clearing the original leaves the copy")
	vhSame(get(b), b0, msg+": clearing an object leaves what it was copied from")
}

func vhFlatGLev[T tfhe.TorusInt](w *vhW[T], x tfhe.FFTGLevCiphertext[T]) {
	w.gp(x.GadgetParams)
	w.h(len(x.Value[0].Value)-1, x.Value[0].Value[0].Rank())
	for i := range x.Value {
		w.fs(x.Value[i].Value)
	}
}

func vhFlatUni[T tfhe.TorusInt](w *vhW[T], x FFTUniEncryption[T]) {
	w.gp(x.GadgetParams)
	w.h(x.Value[0].Value[0].Value[0].Rank())
	vAssert(len(x.Value) == 2, "two parts")
	for i := range x.Value {
		vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
		for j := range x.Value[i].Value {
			vAssert(len(x.Value[i].Value[j].Value) == 2, "two polynomials")
			w.fs(x.Value[i].Value[j].Value)
		}
	}
}

// n: LWE dimension, k: parties, N: polynomial rank, lv: levels
func vhSerCt[T tfhe.TorusInt](s, u vhSizes, mode int) {
	g, g2 := vhG[T](7, s.lv), vhG[T](9, u.lv)
	{
		mk := func(z vhSizes) LWECiphertext[T] {
			x := NewLWECiphertextCustom[T](z.n * z.k)
			vhSetV(x.Value)
			return x
		}
		fl := func(w *vhW[T], x LWECiphertext[T]) { w.h(len(x.Value) - 1); w.v(x.Value) }
		vhRun(mk(s), mk(u), fl, mode, "LWECiphertext")
	}
	{
		mk := func(z vhSizes) GLWECiphertext[T] {
			x := NewGLWECiphertextCustom[T](z.k, z.N)
			vhSetP(x.Value)
			return x
		}
		fl := func(w *vhW[T], x GLWECiphertext[T]) { w.h(len(x.Value)-1, x.Value[0].Rank()); w.ps(x.Value) }
		vhRun(mk(s), mk(u), fl, mode, "GLWECiphertext")
	}
	{
		mk := func(z vhSizes) FFTGLWECiphertext[T] {
			x := NewFFTGLWECiphertextCustom[T](z.k, z.N)
			vhSetFP(x.Value)
			return x
		}
		fl := func(w *vhW[T], x FFTGLWECiphertext[T]) { w.h(len(x.Value)-1, x.Value[0].Rank()); w.fs(x.Value) }
		vhRun(mk(s), mk(u), fl, mode, "FFTGLWECiphertext")
	}
	{
		mk := func(z vhSizes, g tfhe.GadgetParameters[T]) UniEncryption[T] {
			x := NewUniEncryptionCustom[T](z.N, g)
			for i := range x.Value {
				for j := range x.Value[i].Value {
					vhSetP(x.Value[i].Value[j].Value)
				}
			}
			return x
		}
		fl := func(w *vhW[T], x UniEncryption[T]) {
			w.gp(x.GadgetParams)
			w.h(x.Value[0].Value[0].Value[0].Rank())
			vAssert(len(x.Value) == 2, "two parts")
			for i := range x.Value {
				vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
				for j := range x.Value[i].Value {
					vAssert(len(x.Value[i].Value[j].Value) == 2, "two polynomials")
					w.ps(x.Value[i].Value[j].Value)
				}
			}
		}
		vhRun(mk(s, g), mk(u, g2), fl, mode, "UniEncryption")
	}
	vhRun(vhMkUni(s, g), vhMkUni(u, g2), vhFlatUni[T], mode, "FFTUniEncryption")
	vEnd()
}

func vhMkUni[T tfhe.TorusInt](z vhSizes, g tfhe.GadgetParameters[T]) FFTUniEncryption[T] {
	x := NewFFTUniEncryptionCustom[T](z.N, g)
	for i := range x.Value {
		for j := range x.Value[i].Value {
			vhSetFP(x.Value[i].Value[j].Value)
		}
	}
	return x
}

func vhSerKey[T tfhe.TorusInt](s, u vhSizes, mode int) {
	mk := func(z vhSizes, b int) EvaluationKey[T] {
		x := NewEvaluationKeyCustom(z.n, z.N, vhG[T](b, z.lv), vhG[T](5, z.lv+1), vhG[T](b+1, z.lv))
		for i := range x.BlindRotateKey.Value {
			for j := range x.BlindRotateKey.Value[i].Value {
				for l := range x.BlindRotateKey.Value[i].Value[j].Value {
					vhSetFP(x.BlindRotateKey.Value[i].Value[j].Value[l].Value)
				}
			}
		}
		for i := range x.KeySwitchKey.Value {
			for j := range x.KeySwitchKey.Value[i].Value {
				vhSetV(x.KeySwitchKey.Value[i].Value[j].Value)
			}
		}
		for i := range x.CRSPublicKey.Value {
			vhSetFP(x.CRSPublicKey.Value[i].Value)
		}
		x.RelinKey = vhMkUni(z, vhG[T](b+1, z.lv))
		return x
	}
	fl := func(w *vhW[T], x EvaluationKey[T]) {
		w.b(1)
		vhFlatBRK(w, x.BlindRotateKey)
		vhFlatKSK(w, x.KeySwitchKey)
		vhFlatGLev(w, x.CRSPublicKey)
		vhFlatUni(w, x.RelinKey)
	}
	vhRun(mk(s, 7), mk(u, 6), fl, mode, "EvaluationKey")
	vEnd()
}

func vhSerParams[T tfhe.TorusInt](mode int) {
	for i, p := range []vhP{
		{parties: 3, n: 3, N: 16, msg: 7, base: 6, level: 3, kbase: 2, klevel: 5, abase: 5, alevel: 2, rbase: 4, rlevel: 3, order: tfhe.OrderBlindRotateKeySwitch, std: 0.25},
		{parties: 1, n: 4, bs: 2, N: 32, msg: 16, base: 4, level: 2, kbase: 8, klevel: 1, abase: 3, alevel: 1, rbase: 9, rlevel: 2, order: tfhe.OrderKeySwitchBlindRotate, std: 1e-12},
	} {
		a, b := vhParams[T](p), vhParams[T](vhP{})
		lit := a.Literal()
		fl := func(w *vhW[T], x Parameters[T]) {
			q := x.SubParams()
			w.h(q.LWEDimension(), q.GLWERank(), q.PolyRank(), q.LUTSize())
			w.f(q.LWEStdDev(), q.GLWEStdDev())
			w.h(q.BlockSize(), int(q.MessageModulus()))
			w.gp(q.BlindRotateParams())
			w.gp(q.KeySwitchParams())
			w.b(byte(q.BootstrapOrder()))
			w.h(x.PartyCount())
			w.gp(x.AccumulatorParameters())
			w.gp(x.RelinKeyParameters())
			if x.PartyCount() == lit.PartyCount {
				vAssert(x == a, "decoded parameters are the compiled ones")
			}
		}
		if mode == 0 || i == 0 {
			vhRun(a, b, fl, mode, "Parameters")
		}
	}
	vEnd()
}

func VH_P30_ct32()     { vhSerCt[uint32](vhSizes{3, 2, 16, 2}, vhSizes{2, 1, 32, 3}, 0) }
func VH_P30_ct64()     { vhSerCt[uint64](vhSizes{2, 3, 16, 3}, vhSizes{2, 1, 32, 1}, 0) }
func VH_P30_key32()    { vhSerKey[uint32](vhSizes{3, 1, 16, 2}, vhSizes{2, 1, 32, 1}, 0) }
func VH_P30_key64()    { vhSerKey[uint64](vhSizes{2, 1, 16, 1}, vhSizes{2, 1, 16, 2}, 0) }
func VH_P30_params()   { vhSerParams[uint32](0) }
func VH_P30_params64() { vhSerParams[uint64](0) }

// reading into an object of the same shape but another gadget
func VH_P30_ctsame()  { vhSerCt[uint32](vhSizes{3, 2, 16, 2}, vhSizes{3, 2, 16, 2}, 0) }
func VH_P30_keysame() { vhSerKey[uint64](vhSizes{3, 1, 16, 2}, vhSizes{3, 1, 16, 2}, 0) }

func VH_P30_cutct32()   { vhSerCt[uint32](vhSizes{2, 2, 16, 2}, vhSizes{2, 1, 32, 3}, 1) }
func VH_P30_cutct64()   { vhSerCt[uint64](vhSizes{2, 1, 16, 1}, vhSizes{2, 1, 32, 1}, 1) }
func VH_P30_cutkey()    { vhSerKey[uint32](vhSizes{2, 1, 16, 1}, vhSizes{2, 1, 16, 1}, 1) }
func VH_P30_cutparams() { vhSerParams[uint32](1) }

func VH_P30_copyct32()  { vhSerCt[uint32](vhSizes{3, 2, 16, 2}, vhSizes{3, 2, 16, 2}, 2) }
func VH_P30_copyct64()  { vhSerCt[uint64](vhSizes{2, 1, 32, 3}, vhSizes{2, 1, 32, 3}, 2) }
func VH_P30_copykey()   { vhSerKey[uint32](vhSizes{3, 1, 16, 2}, vhSizes{3, 1, 16, 2}, 2) }
func VH_P30_copykey64() { vhSerKey[uint64](vhSizes{2, 1, 16, 1}, vhSizes{2, 1, 16, 1}, 2) }

//verif:tier=thorough
func VH_P30_ctbig() { vhSerCt[uint64](vhSizes{3, 4, 32, 4}, vhSizes{2, 1, 16, 1}, 0) }

//verif:tier=thorough
func VH_P30_keybig() { vhSerKey[uint32](vhSizes{5, 1, 32, 3}, vhSizes{2, 1, 16, 1}, 0) }
