//go:build verifharness

package tfhe

import (
	"bytes"
	"io"
	"math"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// vhIt is one field of the documented encoded form.
type vhIt[T TorusInt] struct {
	kind int // 0: 8-byte header, 1: torus value, 2: float, 3: one byte
	h    uint64
	t    T
	f    float64
}

type vhW[T TorusInt] struct{ it []vhIt[T] }

func (w *vhW[T]) h(x ...int) {
	for _, v := range x {
		w.it = append(w.it, vhIt[T]{h: uint64(v)})
	}
}
func (w *vhW[T]) b(x byte) { w.it = append(w.it, vhIt[T]{kind: 3, h: uint64(x)}) }
func (w *vhW[T]) v(x []T) {
	for _, t := range x {
		w.it = append(w.it, vhIt[T]{kind: 1, t: t})
	}
}
func (w *vhW[T]) f(x ...float64) {
	for _, t := range x {
		w.it = append(w.it, vhIt[T]{kind: 2, f: t})
	}
}
func (w *vhW[T]) ps(x []poly.Poly[T]) {
	for _, p := range x {
		w.v(p.Coeffs)
	}
}
func (w *vhW[T]) fs(x []poly.FFTPoly) {
	for _, p := range x {
		w.f(p.Coeffs...)
	}
}
func (w *vhW[T]) gp(p GadgetParameters[T]) { w.h(int(p.Base()), p.Level()) }

func (w *vhW[T]) bytes() []byte {
	var r []byte
	put := func(x uint64, n int) {
		for i := n - 1; i >= 0; i-- {
			r = append(r, byte(x>>(8*uint(i))))
		}
	}
	for _, x := range w.it {
		switch x.kind {
		case 0:
			put(x.h, 8)
		case 1:
			put(uint64(x.t), num.SizeT[T]()/8)
		case 2:
			put(math.Float64bits(x.f), 8)
		case 3:
			put(x.h, 1)
		}
	}
	return r
}

func vhSame[T TorusInt](a, b *vhW[T], msg string) {
	vAssert(len(a.it) == len(b.it), msg+": shape")
	for i := range a.it {
		x, y := a.it[i], b.it[i]
		vAssert(x.kind == y.kind, msg+": shape")
		switch x.kind {
		case 1:
			vEqT(x.t, y.t, -1, msg)
		case 2:
			vAssert(math.Float64bits(x.f) == math.Float64bits(y.f), msg)
		default:
			vAssert(x.h == y.h, msg+": header")
		}
	}
}

// vhSlow delivers at most k bytes per read.
type vhSlow struct {
	b []byte
	k int
}

func (r *vhSlow) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.k
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

// vhFull accepts at most k bytes and then fails.
type vhFull struct{ k, got int }

type vhErrFull struct{}

func (vhErrFull) Error() string { return "full" }

func (w *vhFull) Write(p []byte) (int, error) {
	if w.got+len(p) > w.k {
		n := w.k - w.got
		w.got = w.k
		return n, vhErrFull{}
	}
	w.got += len(p)
	return len(p), nil
}

type vhEncV interface {
	ByteSize() int
	WriteTo(io.Writer) (int64, error)
	MarshalBinary() ([]byte, error)
}

type vhDecV[V any] interface {
	*V
	ReadFrom(io.Reader) (int64, error)
	UnmarshalBinary([]byte) error
}

func vhBytes(a, b []byte, msg string) {
	vAssert(len(a) == len(b), msg+": length")
	for i := range a {
		vAssert(a[i] == b[i], msg)
	}
}

// vhSer is the round trip of a value into a zero and into a used object.
func vhSer[T TorusInt, V vhEncV, PV vhDecV[V]](v, used V, flat func(*vhW[T], V), msg string) {
	var it vhW[T]
	flat(&it, v)
	want := it.bytes()
	data, err := v.MarshalBinary()
	vAssert(err == nil, msg+": MarshalBinary succeeds")
	vAssert(len(data) == v.ByteSize(), msg+": MarshalBinary length is ByteSize")
	vhBytes(data, want, msg+": documented encoding")
	var bf bytes.Buffer
	n, err := v.WriteTo(&bf)
	vAssert(err == nil && n == int64(len(want)), msg+": WriteTo count")
	vhBytes(bf.Bytes(), want, msg+": WriteTo bytes")
	check := func(x V, m string) {
		var jt vhW[T]
		flat(&jt, x)
		vhSame(&it, &jt, msg+": "+m)
	}
	var z V
	vAssert(PV(&z).UnmarshalBinary(data) == nil, msg+": UnmarshalBinary succeeds")
	check(z, "UnmarshalBinary")
	vAssert(PV(&used).UnmarshalBinary(data) == nil, msg+": UnmarshalBinary succeeds")
	check(used, "UnmarshalBinary into a used object")
	// a stream of two encodings and a trailer, in pieces
	for _, k := range []int{1, 5, 4096} {
		r := &vhSlow{append(append(vhCp(data), data...), 0xaa, 0x55), k}
		var a, b V
		n, err := PV(&a).ReadFrom(r)
		vAssert(err == nil && n == int64(len(data)), msg+": ReadFrom count")
		vAssert(len(r.b) == len(data)+2, msg+": ReadFrom takes exactly one encoding")
		n, err = PV(&b).ReadFrom(r)
		vAssert(err == nil && n == int64(len(data)), msg+": ReadFrom count")
		vAssert(len(r.b) == 2 && r.b[0] == 0xaa && r.b[1] == 0x55, msg+": ReadFrom leaves the rest")
		check(a, "ReadFrom")
		check(b, "ReadFrom of the next value")
	}
	vhBytes(data, want, msg+": input unchanged")
}

// vhCut: every strict prefix is refused, and so is every writer that fails.
func vhCut[T TorusInt, V vhEncV, PV vhDecV[V]](v V, flat func(*vhW[T], V), msg string) {
	data, err := v.MarshalBinary()
	vAssert(err == nil, msg+": MarshalBinary succeeds")
	for k := 0; k < len(data); k++ {
		if len(data) > 400 && k > 100 && k < len(data)-40 && k%7 != 0 {
			continue
		}
		var a V
		e, n := error(nil), int64(0)
		bad := vPanics(func() { n, e = PV(&a).ReadFrom(bytes.NewReader(data[:k])) })
		vAssert(!bad, msg+": truncated input does not panic")
		vAssert(e != nil, msg+": truncated input is refused")
		vAssert(n == int64(k), msg+": bytes consumed are counted on error")
		var b V
		bad = vPanics(func() { e = PV(&b).UnmarshalBinary(data[:k]) })
		vAssert(!bad && e != nil, msg+": truncated data is refused")
		w := &vhFull{k: k}
		bad = vPanics(func() { n, e = v.WriteTo(w) })
		vAssert(!bad && e != nil, msg+": write failure is reported")
		vAssert(n == int64(k), msg+": bytes written are counted on error")
	}
}

// vhObjs calls visit for every serializable type at the given sizes.
type vhSizes struct{ n, k, N, lv int }

func vhSetF(f []float64) {
	for i := range f {
		f[i] = vFloat("f")
	}
}
func vhSetP[T TorusInt](p []poly.Poly[T]) {
	for i := range p {
		for j := range p[i].Coeffs {
			p[i].Coeffs[j] = vT[T]("c")
		}
	}
}
func vhSetFP(p []poly.FFTPoly) {
	for i := range p {
		vhSetF(p[i].Coeffs)
	}
}
func vhSetV[T TorusInt](v []T) {
	for i := range v {
		v[i] = vT[T]("c")
	}
}

func vhG[T TorusInt](base, level int) GadgetParameters[T] {
	return GadgetParametersLiteral[T]{Base: T(1) << uint(base), Level: level}.Compile()
}

// group 0: scalar types
func vhSer0[T TorusInt](s, u vhSizes, mode int) {
	g, g2 := vhG[T](7, s.lv), vhG[T](9, u.lv)
	{
		mk := func(z vhSizes) LWESecretKey[T] {
			x := NewLWESecretKeyCustom[T](z.n)
			vhSetV(x.Value)
			return x
		}
		fl := func(w *vhW[T], x LWESecretKey[T]) { w.h(len(x.Value)); w.v(x.Value) }
		vhRun(mk(s), mk(u), fl, mode, "LWESecretKey")
	}
	{
		mk := func(z vhSizes) LWEPlaintext[T] { return LWEPlaintext[T]{Value: vT[T]("c")} }
		fl := func(w *vhW[T], x LWEPlaintext[T]) { w.v([]T{x.Value}) }
		vhRun(mk(s), mk(u), fl, mode, "LWEPlaintext")
	}
	{
		mk := func(z vhSizes) LWECiphertext[T] {
			x := NewLWECiphertextCustom[T](z.n)
			vhSetV(x.Value)
			return x
		}
		fl := func(w *vhW[T], x LWECiphertext[T]) { w.h(len(x.Value) - 1); w.v(x.Value) }
		vhRun(mk(s), mk(u), fl, mode, "LWECiphertext")
	}
	{
		mk := func(z vhSizes, g GadgetParameters[T]) LevCiphertext[T] {
			x := NewLevCiphertextCustom[T](z.n, g)
			for i := range x.Value {
				vhSetV(x.Value[i].Value)
			}
			return x
		}
		fl := func(w *vhW[T], x LevCiphertext[T]) {
			w.gp(x.GadgetParams)
			w.h(len(x.Value[0].Value) - 1)
			for i := range x.Value {
				w.v(x.Value[i].Value)
			}
		}
		vhRun(mk(s, g), mk(u, g2), fl, mode, "LevCiphertext")
	}
	{
		mk := func(z vhSizes, g GadgetParameters[T]) GSWCiphertext[T] {
			x := NewGSWCiphertextCustom[T](z.n, g)
			for i := range x.Value {
				for j := range x.Value[i].Value {
					vhSetV(x.Value[i].Value[j].Value)
				}
			}
			return x
		}
		fl := func(w *vhW[T], x GSWCiphertext[T]) {
			w.gp(x.GadgetParams)
			w.h(len(x.Value) - 1)
			for i := range x.Value {
				vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
				for j := range x.Value[i].Value {
					w.v(x.Value[i].Value[j].Value)
				}
			}
		}
		vhRun(mk(s, g), mk(u, g2), fl, mode, "GSWCiphertext")
	}
	{
		mk := func(z vhSizes, g GadgetParameters[T]) LWEKeySwitchKey[T] {
			x := NewLWEKeySwitchKeyCustom[T](z.n+1, z.n, g)
			for i := range x.Value {
				for j := range x.Value[i].Value {
					vhSetV(x.Value[i].Value[j].Value)
				}
			}
			return x
		}
		vhRun(mk(s, g), mk(u, g2), vhFlatKSK[T], mode, "LWEKeySwitchKey")
	}
	{
		fl := func(w *vhW[T], x GadgetParameters[T]) {
			w.gp(x)
			vAssert(x == vhG[T](x.LogBase(), x.Level()), "GadgetParameters are the compiled ones")
		}
		vhRun(g, g2, fl, mode, "GadgetParameters")
		vhRun(vhG[T](num.SizeT[T]()/2, 2), g2, fl, mode, "GadgetParameters")
		vhRun(vhG[T](num.SizeT[T]()-1, 1), g2, fl, mode, "GadgetParameters")
	}
	vEnd()
}

func vhRun[T TorusInt, V vhEncV, PV vhDecV[V]](v, used V, flat func(*vhW[T], V), mode int, msg string) {
	switch mode {
	case 0:
		vhSer[T, V, PV](v, used, flat, msg)
	case 1:
		vhCut[T, V, PV](v, flat, msg)
	case 2:
		vhCopies[T, V](v, used, flat, msg)
	}
}

func vhFlatKSK[T TorusInt](w *vhW[T], x LWEKeySwitchKey[T]) {
	w.gp(x.GadgetParams)
	w.h(len(x.Value), len(x.Value[0].Value[0].Value)-1)
	for i := range x.Value {
		vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
		for j := range x.Value[i].Value {
			w.v(x.Value[i].Value[j].Value)
		}
	}
}

func vhFlatBRK[T TorusInt](w *vhW[T], x BlindRotateKey[T]) {
	w.gp(x.GadgetParams)
	w.h(len(x.Value), len(x.Value[0].Value)-1, x.Value[0].Value[0].Value[0].Value[0].Rank())
	for i := range x.Value {
		vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
		for j := range x.Value[i].Value {
			vAssert(x.Value[i].Value[j].GadgetParams == x.GadgetParams, "inner gadget parameters")
			for l := range x.Value[i].Value[j].Value {
				w.fs(x.Value[i].Value[j].Value[l].Value)
			}
		}
	}
}

// group 1: polynomial types over the torus
func vhSer1[T TorusInt](s, u vhSizes, mode int) {
	g, g2 := vhG[T](7, s.lv), vhG[T](9, u.lv)
	glwe := func(z vhSizes) GLWECiphertext[T] {
		x := NewGLWECiphertextCustom[T](z.k, z.N)
		vhSetP(x.Value)
		return x
	}
	{
		mk := func(z vhSizes) GLWESecretKey[T] {
			x := NewGLWESecretKeyCustom[T](z.k, z.N)
			vhSetP(x.Value)
			return x
		}
		fl := func(w *vhW[T], x GLWESecretKey[T]) { w.h(len(x.Value), x.Value[0].Rank()); w.ps(x.Value) }
		vhRun(mk(s), mk(u), fl, mode, "GLWESecretKey")
	}
	{
		mk := func(z vhSizes) GLWEPlaintext[T] {
			x := NewGLWEPlaintextCustom[T](z.N)
			vhSetV(x.Value.Coeffs)
			return x
		}
		fl := func(w *vhW[T], x GLWEPlaintext[T]) { w.h(x.Value.Rank()); w.v(x.Value.Coeffs) }
		vhRun(mk(s), mk(u), fl, mode, "GLWEPlaintext")
	}
	{
		fl := func(w *vhW[T], x GLWECiphertext[T]) { w.h(len(x.Value)-1, x.Value[0].Rank()); w.ps(x.Value) }
		vhRun(glwe(s), glwe(u), fl, mode, "GLWECiphertext")
	}
	pub := func(w *vhW[T], x []GLWECiphertext[T]) {
		w.h(len(x), x[0].Value[0].Rank())
		for i := range x {
			vAssert(len(x[i].Value) == len(x)+1, "public key shape")
			w.ps(x[i].Value)
		}
	}
	mkl := func(z vhSizes) LWEPublicKey[T] {
		x := NewLWEPublicKeyCustom[T](z.k, z.N)
		for i := range x.Value {
			vhSetP(x.Value[i].Value)
		}
		return x
	}
	mkg := func(z vhSizes) GLWEPublicKey[T] {
		x := NewGLWEPublicKeyCustom[T](z.k, z.N)
		for i := range x.Value {
			vhSetP(x.Value[i].Value)
		}
		return x
	}
	vhRun(mkl(s), mkl(u), func(w *vhW[T], x LWEPublicKey[T]) { pub(w, x.Value) }, mode, "LWEPublicKey")
	vhRun(mkg(s), mkg(u), func(w *vhW[T], x GLWEPublicKey[T]) { pub(w, x.Value) }, mode, "GLWEPublicKey")
	{
		mk := func(z vhSizes) PublicKey[T] { return PublicKey[T]{LWEKey: mkl(z), GLWEKey: mkg(z)} }
		vhRun(mk(s), mk(u), func(w *vhW[T], x PublicKey[T]) { pub(w, x.LWEKey.Value); pub(w, x.GLWEKey.Value) }, mode, "PublicKey")
	}
	{
		mk := func(z vhSizes, g GadgetParameters[T]) GLevCiphertext[T] {
			x := NewGLevCiphertextCustom[T](z.k, z.N, g)
			for i := range x.Value {
				vhSetP(x.Value[i].Value)
			}
			return x
		}
		fl := func(w *vhW[T], x GLevCiphertext[T]) {
			w.gp(x.GadgetParams)
			w.h(len(x.Value[0].Value)-1, x.Value[0].Value[0].Rank())
			for i := range x.Value {
				w.ps(x.Value[i].Value)
			}
		}
		vhRun(mk(s, g), mk(u, g2), fl, mode, "GLevCiphertext")
	}
	{
		mk := func(z vhSizes, g GadgetParameters[T]) GGSWCiphertext[T] {
			x := NewGGSWCiphertextCustom[T](z.k, z.N, g)
			for i := range x.Value {
				for j := range x.Value[i].Value {
					vhSetP(x.Value[i].Value[j].Value)
				}
			}
			return x
		}
		fl := func(w *vhW[T], x GGSWCiphertext[T]) {
			w.gp(x.GadgetParams)
			w.h(len(x.Value)-1, x.Value[0].Value[0].Value[0].Rank())
			for i := range x.Value {
				vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
				for j := range x.Value[i].Value {
					w.ps(x.Value[i].Value[j].Value)
				}
			}
		}
		vhRun(mk(s, g), mk(u, g2), fl, mode, "GGSWCiphertext")
	}
	vEnd()
}

// vhGKSK completes the polynomial key switching key, which only has the
// streaming interface.
type vhGKSK[T TorusInt] struct{ GLWEKeySwitchKey[T] }

func (k vhGKSK[T]) MarshalBinary() ([]byte, error) {
	var b bytes.Buffer
	_, err := k.WriteTo(&b)
	return b.Bytes(), err
}

func (k *vhGKSK[T]) UnmarshalBinary(d []byte) error {
	_, err := k.ReadFrom(bytes.NewReader(d))
	return err
}

// group 2: Fourier types
func vhSer2[T TorusInt](s, u vhSizes, mode int) {
	g, g2 := vhG[T](7, s.lv), vhG[T](9, u.lv)
	{
		mk := func(z vhSizes) FFTGLWESecretKey[T] {
			x := NewFFTGLWESecretKeyCustom[T](z.k, z.N)
			vhSetFP(x.Value)
			return x
		}
		fl := func(w *vhW[T], x FFTGLWESecretKey[T]) { w.h(len(x.Value), x.Value[0].Rank()); w.fs(x.Value) }
		vhRun(mk(s), mk(u), fl, mode, "FFTGLWESecretKey")
	}
	{
		mk := func(z vhSizes) FFTGLWECiphertext[T] {
			x := NewFFTGLWECiphertextCustom[T](z.k, z.N)
			vhSetFP(x.Value)
			return x
		}
		fl := func(w *vhW[T], x FFTGLWECiphertext[T]) { w.h(len(x.Value)-1, x.Value[0].Rank()); w.fs(x.Value) }
		vhRun(mk(s), mk(u), fl, mode, "FFTGLWECiphertext")
	}
	{
		mk := func(z vhSizes, g GadgetParameters[T]) FFTGLevCiphertext[T] {
			x := NewFFTGLevCiphertextCustom[T](z.k, z.N, g)
			for i := range x.Value {
				vhSetFP(x.Value[i].Value)
			}
			return x
		}
		fl := func(w *vhW[T], x FFTGLevCiphertext[T]) {
			w.gp(x.GadgetParams)
			w.h(len(x.Value[0].Value)-1, x.Value[0].Value[0].Rank())
			for i := range x.Value {
				w.fs(x.Value[i].Value)
			}
		}
		vhRun(mk(s, g), mk(u, g2), fl, mode, "FFTGLevCiphertext")
	}
	{
		mk := func(z vhSizes, g GadgetParameters[T]) FFTGGSWCiphertext[T] {
			x := NewFFTGGSWCiphertextCustom[T](z.k, z.N, g)
			for i := range x.Value {
				for j := range x.Value[i].Value {
					vhSetFP(x.Value[i].Value[j].Value)
				}
			}
			return x
		}
		fl := func(w *vhW[T], x FFTGGSWCiphertext[T]) {
			w.gp(x.GadgetParams)
			w.h(len(x.Value)-1, x.Value[0].Value[0].Value[0].Rank())
			for i := range x.Value {
				vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
				for j := range x.Value[i].Value {
					w.fs(x.Value[i].Value[j].Value)
				}
			}
		}
		vhRun(mk(s, g), mk(u, g2), fl, mode, "FFTGGSWCiphertext")
	}
	{
		mk := func(z vhSizes, g GadgetParameters[T]) vhGKSK[T] {
			x := NewGLWEKeySwitchKeyCustom[T](z.k+1, z.k, z.N, g)
			for i := range x.Value {
				for j := range x.Value[i].Value {
					vhSetFP(x.Value[i].Value[j].Value)
				}
			}
			return vhGKSK[T]{x}
		}
		fl := func(w *vhW[T], x vhGKSK[T]) {
			w.gp(x.GadgetParams)
			w.h(len(x.Value), len(x.Value[0].Value[0].Value)-1, x.Value[0].Value[0].Value[0].Rank())
			for i := range x.Value {
				vAssert(x.Value[i].GadgetParams == x.GadgetParams, "inner gadget parameters")
				for j := range x.Value[i].Value {
					w.fs(x.Value[i].Value[j].Value)
				}
			}
		}
		vhRun(mk(s, g), mk(u, g2), fl, mode, "GLWEKeySwitchKey")
	}
	vEnd()
}

// group 3: key bundles and parameters
func vhSer3[T TorusInt](s, u vhSizes, mode int) {
	g, g2 := vhG[T](7, s.lv), vhG[T](9, u.lv)
	{
		mk := func(z vhSizes) SecretKey[T] {
			x := NewSecretKeyCustom[T](z.n, z.k, z.N)
			vhSetV(x.LWELargeKey.Value)
			vhSetFP(x.FFTGLWEKey.Value)
			return x
		}
		fl := func(w *vhW[T], x SecretKey[T]) {
			w.h(len(x.LWEKey.Value), len(x.GLWEKey.Value), x.GLWEKey.Value[0].Rank())
			w.v(x.LWELargeKey.Value)
			vAssert(len(x.LWELargeKey.Value) == len(x.GLWEKey.Value)*x.GLWEKey.Value[0].Rank(), "large key length")
			for i, c := range x.LWEKey.Value {
				vAssert(c == x.LWELargeKey.Value[i], "LWE key is the head of the large key")
			}
			i := 0
			for _, p := range x.GLWEKey.Value {
				for _, c := range p.Coeffs {
					vAssert(c == x.LWELargeKey.Value[i], "GLWE key is the large key")
					i++
				}
			}
			w.fs(x.FFTGLWEKey.Value)
		}
		vhRun(mk(s), mk(u), fl, mode, "SecretKey")
	}
	brk := func(z vhSizes, g GadgetParameters[T]) BlindRotateKey[T] {
		x := NewBlindRotateKeyCustom[T](z.n, z.k, z.N, g)
		for i := range x.Value {
			for j := range x.Value[i].Value {
				for l := range x.Value[i].Value[j].Value {
					vhSetFP(x.Value[i].Value[j].Value[l].Value)
				}
			}
		}
		return x
	}
	vhRun(brk(s, g), brk(u, g2), vhFlatBRK[T], mode, "BlindRotateKey")
	evk := func(z vhSizes, g GadgetParameters[T], in int) EvaluationKey[T] {
		x := EvaluationKey[T]{BlindRotateKey: brk(z, g), KeySwitchKey: NewLWEKeySwitchKeyCustom[T](in, z.n, vhG[T](g.LogBase()-2, z.lv+1))}
		for i := range x.KeySwitchKey.Value {
			for j := range x.KeySwitchKey.Value[i].Value {
				vhSetV(x.KeySwitchKey.Value[i].Value[j].Value)
			}
		}
		return x
	}
	fl := func(w *vhW[T], x EvaluationKey[T]) {
		if len(x.KeySwitchKey.Value) > 0 {
			w.b(1)
			vhFlatBRK(w, x.BlindRotateKey)
			vhFlatKSK(w, x.KeySwitchKey)
			return
		}
		w.b(0)
		vhFlatBRK(w, x.BlindRotateKey)
		w.gp(x.KeySwitchKey.GadgetParams)
	}
	in := 0
	if mode == 2 {
		in = 2
	}
	vhRun(evk(s, g, 2), evk(u, g2, in), fl, mode, "EvaluationKey")
	vhRun(evk(u, g2, 0), evk(s, g, 2-in), fl, mode, "EvaluationKey without key switching key")
	// parameters
	pf := func(w *vhW[T], x Parameters[T]) {
		w.h(x.LWEDimension(), x.GLWERank(), x.PolyRank(), x.LUTSize())
		w.f(x.LWEStdDev(), x.GLWEStdDev())
		w.h(x.BlockSize(), int(x.MessageModulus()))
		w.gp(x.BlindRotateParams())
		w.gp(x.KeySwitchParams())
		w.b(byte(x.BootstrapOrder()))
	}
	for i, p := range []vhP{
		{n: 3, k: 2, N: 16, lut: 64, msg: 7, base: 6, level: 3, kbase: 2, klevel: 5, order: OrderBlindRotateKeySwitch, std: 0.25, gstd: 0.001},
		{n: 4, bs: 2, k: 1, N: 32, msg: 16, base: 4, level: 2, kbase: 8, klevel: 1, order: OrderKeySwitchBlindRotate, std: 1e-12, gstd: 3e-5},
	} {
		a, b := vhParams[T](p), vhParams[T](vhP{})
		lit := a.Literal()
		fp := func(w *vhW[T], x Parameters[T]) {
			pf(w, x)
			if x.LWEDimension() == lit.LWEDimension {
				vAssert(x == a, "decoded parameters are the compiled ones")
			}
		}
		if mode == 0 || i == 0 {
			vhRun(a, b, fp, mode, "Parameters")
		}
	}
	vEnd()
}

func VH_P20_scalar32() { vhSer0[uint32](vhSizes{3, 1, 16, 2}, vhSizes{2, 1, 32, 3}, 0) }
func VH_P20_scalar64() { vhSer0[uint64](vhSizes{4, 1, 16, 3}, vhSizes{1, 1, 32, 1}, 0) }
func VH_P20_poly32()   { vhSer1[uint32](vhSizes{3, 2, 16, 2}, vhSizes{2, 1, 32, 1}, 0) }
func VH_P20_poly64()   { vhSer1[uint64](vhSizes{3, 1, 16, 3}, vhSizes{2, 1, 32, 1}, 0) }
func VH_P20_fft32()    { vhSer2[uint32](vhSizes{3, 2, 16, 2}, vhSizes{2, 1, 32, 1}, 0) }
func VH_P20_fft64()    { vhSer2[uint64](vhSizes{3, 1, 16, 3}, vhSizes{2, 1, 32, 1}, 0) }
func VH_P20_keys32()   { vhSer3[uint32](vhSizes{3, 1, 16, 2}, vhSizes{2, 1, 32, 1}, 0) }
func VH_P20_keys64()   { vhSer3[uint64](vhSizes{2, 2, 16, 1}, vhSizes{2, 1, 16, 2}, 0) }

// reading into an object of the same shape but another gadget, and of the same
// total size but another split
func VH_P20_scalarsame() { vhSer0[uint32](vhSizes{3, 1, 16, 2}, vhSizes{3, 1, 16, 2}, 0) }
func VH_P20_polysame()   { vhSer1[uint64](vhSizes{3, 1, 16, 2}, vhSizes{3, 1, 16, 2}, 0) }
func VH_P20_fftsame()    { vhSer2[uint32](vhSizes{3, 1, 16, 2}, vhSizes{3, 1, 16, 2}, 0) }
func VH_P20_keyssame()   { vhSer3[uint64](vhSizes{3, 1, 16, 2}, vhSizes{3, 1, 16, 2}, 0) }
func VH_P20_polysplit()  { vhSer1[uint32](vhSizes{2, 2, 16, 1}, vhSizes{2, 1, 32, 1}, 0) }
func VH_P20_fftsplit()   { vhSer2[uint64](vhSizes{2, 1, 32, 2}, vhSizes{2, 2, 16, 2}, 0) }
func VH_P20_keyssplit()  { vhSer3[uint32](vhSizes{2, 2, 16, 1}, vhSizes{2, 1, 32, 1}, 0) }

//verif:tier=thorough
func VH_P20_polybig() { vhSer1[uint64](vhSizes{3, 3, 32, 4}, vhSizes{2, 1, 16, 1}, 0) }

//verif:tier=thorough
func VH_P20_fftbig() { vhSer2[uint32](vhSizes{3, 3, 32, 3}, vhSizes{2, 1, 16, 1}, 0) }

//verif:tier=thorough
func VH_P20_keysbig() { vhSer3[uint32](vhSizes{5, 2, 32, 3}, vhSizes{2, 1, 16, 1}, 0) }

func VH_P21_scalar32() { vhSer0[uint32](vhSizes{3, 1, 16, 2}, vhSizes{2, 1, 32, 3}, 1) }
func VH_P21_scalar64() { vhSer0[uint64](vhSizes{2, 1, 16, 2}, vhSizes{1, 1, 32, 1}, 1) }
func VH_P21_poly32()   { vhSer1[uint32](vhSizes{3, 1, 16, 2}, vhSizes{2, 1, 32, 1}, 1) }
func VH_P21_poly64()   { vhSer1[uint64](vhSizes{3, 1, 16, 1}, vhSizes{2, 1, 32, 1}, 1) }
func VH_P21_fft32()    { vhSer2[uint32](vhSizes{3, 1, 16, 1}, vhSizes{2, 1, 32, 1}, 1) }
func VH_P21_keys32()   { vhSer3[uint32](vhSizes{2, 1, 16, 1}, vhSizes{2, 1, 16, 1}, 1) }
