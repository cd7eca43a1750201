//go:build verifharness

package csprng

import (
	"crypto/cipher"
	"math"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// vhStream is a key stream: the given bytes, then an arithmetic pattern.
type vhStream struct {
	head []byte
	pos  int
}

func vhTail(i int) byte { return byte(i*37 + i>>8*11 + 5) }

func (s *vhStream) XORKeyStream(dst, src []byte) {
	for i := range src {
		b := vhTail(s.pos)
		if s.pos < len(s.head) {
			b = s.head[s.pos]
		}
		dst[i] = src[i] ^ b
		s.pos++
	}
}

var _ cipher.Stream = (*vhStream)(nil)

func vhBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vByte("key")
	}
	return b
}

func vhWord(b []byte) uint64 {
	r := uint64(0)
	for i := len(b) - 1; i >= 0; i-- {
		r = r<<8 | uint64(b[i])
	}
	return r
}

func vhUniform[T num.Integer](s *vhStream) *UniformSampler[T] {
	u := NewUniformSamplerWithSeed[T]([]byte("seed"))
	u.prng = s
	return u
}

// Uniform samples are the words of the key stream, each byte used once, also
// across refills of the buffer.
func vhUni[T num.Integer](head int) {
	sz := num.ByteSizeT[T]()
	st := &vhStream{head: vhBytes(head * sz)}
	u := vhUniform[T](st)
	word := func(i int) T {
		var b [8]byte
		for j := 0; j < sz; j++ {
			if i*sz+j < len(st.head) {
				b[j] = st.head[i*sz+j]
			} else {
				b[j] = vhTail(i*sz + j)
			}
		}
		return T(vhWord(b[:sz]))
	}
	vMust(u.Sample() == word(0), "first word")
	v := make([]T, head-2)
	u.SampleVecTo(v)
	for i := range v {
		vMust(v[i] == word(i+1), "SampleVecTo")
	}
	p := poly.NewPoly[T](16)
	u.SamplePolyTo(p)
	for i := range p.Coeffs {
		vMust(p.Coeffs[i] == word(head-1+i), "SamplePolyTo")
	}
	vEnd()
}

//verif:realrng=1
func VH_P24_uni64() { vhUni[uint64](12) }

//verif:realrng=1
func VH_P24_uni32() { vhUni[uint32](12) }

//verif:realrng=1
func VH_P24_uni16() { vhUni[uint16](12) }

//verif:realrng=1
func VH_P24_uni8() { vhUni[uint8](12) }

//verif:realrng=1
func VH_P24_unisigned() { vhUni[int32](12) }

// Every part of a long draw depends on key stream that no earlier one used.
func vhRefill[T num.Integer]() {
	sz := num.ByteSizeT[T]()
	u := vhUniform[T](&vhStream{})
	n := 20000 / sz
	a, b := make([]T, n), make([]T, n)
	u.SampleVecTo(a)
	// the same stream except for every byte of three words
	at := []int{0, 8192/sz - 1, 8192 / sz, 16384/sz + 1}
	st := &vhStream{head: make([]byte, 20000+8192)}
	for i := range st.head {
		st.head[i] = vhTail(i)
	}
	d := make([]T, len(at))
	for i, w := range at {
		b := vhBytes(sz)
		for j := range b {
			st.head[w*sz+j] ^= b[j]
		}
		d[i] = T(vhWord(b))
	}
	u = vhUniform[T](st)
	u.SampleVecTo(b)
	for i, w := range at {
		vMust(b[w]^a[w] == d[i] || i == 2 && b[w]^a[w] == d[i]^d[0], "word at the end of the buffer")
	}
	vMust(b[1] == a[1] && b[n-1] == a[n-1] && b[8192/sz-2] == a[8192/sz-2], "other words")
	vEnd()
}

//verif:realrng=1 steps=20000000
func VH_P24_refill64() { vhRefill[uint64]() }

//verif:realrng=1 steps=20000000
func VH_P24_refill32() { vhRefill[uint32]() }

// Bounded samples: every accepted word gives its residue, and the accepted
// words are as many for each residue.
func vhUniN(ns []uint64) {
	{
		n := ns[vChoose("n", len(ns))]
		st := &vhStream{head: vhBytes(8)}
		w := vhWord(st.head)
		r := vhUniform[uint64](st).SampleN(n)
		vMust(r < n, "SampleN: range")
		var nb [8]byte
		for j := range nb {
			nb[j] = vhTail(8 + j)
		}
		next := vhWord(nb[:])
		// the words above the last full period of n are rejected, possibly
		// with one more period
		lim := math.MaxUint64 - math.MaxUint64%n
		if w < lim-n {
			vMust(r == w%n, "SampleN: residue")
		} else if w >= lim && math.MaxUint64%n != n-1 {
			vMust(r == next%n, "SampleN: rejected")
		} else {
			vMust(r == w%n || r == next%n, "SampleN")
		}
	}
	vEnd()
}

//verif:realrng=1
func VH_P24_unin() { vhUniN([]uint64{1, 2, 3, 4, 6, 8}) }

//verif:realrng=1
func VH_P24_uninbig() { vhUniN([]uint64{1<<63 + 1, 3 << 61, 1 << 40}) }

// Binary samples: every bit is a bit of the key stream of its own.
func vhBin[T num.Integer]() {
	st := &vhStream{head: vhBytes(32)}
	b := NewBinarySamplerWithSeed[T]([]byte("seed"))
	b.baseSampler.prng = st
	vMust(b.Sample() == T(st.head[0]&1), "Sample")
	v := make([]T, 70)
	b.SampleVecTo(v)
	for i := range v {
		vMust(v[i] == T(st.head[8+i/8]>>uint(i%8)&1), "SampleVecTo")
	}
	p := poly.NewPoly[T](16)
	b.SamplePolyTo(p)
	for i := range p.Coeffs {
		vMust(p.Coeffs[i] == T(st.head[24+i/8]>>uint(i%8)&1), "SamplePolyTo")
	}
	vEnd()
}

//verif:realrng=1
func VH_P24_bin32() { vhBin[uint32]() }

//verif:realrng=1
func VH_P24_bin64() { vhBin[uint64]() }

// Block-binary samples: a block has at most one one, at a position that is
// the bounded sample of a word of its own.
func vhBlock[T num.Integer](bs, blocks int, asPoly bool) {
	// one block from any word, the others from the pattern
	st := &vhStream{head: vhBytes(8)}
	for i := 8; i < 8*blocks; i++ {
		st.head = append(st.head, vhTail(i))
	}
	b := NewBinarySamplerWithSeed[T]([]byte("seed"))
	b.baseSampler.prng = st
	v := make([]T, bs*blocks)
	for i := range v {
		v[i] = T(vU64("old"))
	}
	if asPoly {
		p := poly.NewPoly[T](len(v))
		copy(p.Coeffs, v)
		b.SampleBlockPolyTo(p, bs)
		v = p.Coeffs
	} else {
		b.SampleBlockVecTo(v, bs)
	}
	lim := math.MaxUint64 - math.MaxUint64%uint64(bs+1) - uint64(bs+1)
	for k := 0; k < blocks; k++ {
		w := vhWord(st.head[8*k : 8*k+8])
		vAssume(w < lim)
		for i := 0; i < bs; i++ {
			x := T(0)
			if w%uint64(bs+1) == uint64(i) {
				x = 1
			}
			vMust(v[k*bs+i] == x, "block")
		}
	}
	vEnd()
}

//verif:realrng=1
func VH_P24_block2() { vhBlock[uint32](2, 2, false) }

//verif:realrng=1
func VH_P24_block3() { vhBlock[uint64](3, 1, false) }

//verif:realrng=1
func VH_P24_blockpoly() { vhBlock[uint32](8, 2, true) }

//verif:realrng=1
func VH_P24_blocklen() {
	b := NewBinarySampler[uint32]()
	b.baseSampler.prng = &vhStream{}
	vAssert(vPanics(func() { b.SampleBlockVecTo(make([]uint32, 5), 2) }), "length not a multiple")
	vAssert(!vPanics(func() { b.SampleBlockVecTo(make([]uint32, 6), 2) }), "length a multiple")
	vEnd()
}

// Gaussian samples: the central strip of a layer maps a word to a multiple
// of the layer's width with the word's sign bit, for every word.
func vhGauss[T num.Integer](layers []int, sd float64) {
	for _, i := range layers {
		for t := uint32(0); t < 2; t++ {
			u := vU32("u")
			vAssume(u < kn[i])
			h := u<<8 + uint32(i)<<1 + t
			st := &vhStream{head: []byte{byte(h), byte(h >> 8), byte(h >> 16), byte(h >> 24)}}
			g := NewGaussianSamplerWithSeed[T]([]byte("seed"), 1)
			g.baseSampler.prng = st
			x := float64(u) * wn[i]
			if t > 0 {
				x = -x
			}
			w := T(int64(math.Round(x * sd)))
			vMust(g.Sample(sd) == w, "Sample")
			// every other form draws the same
			again := func() {
				st.pos = 0
				g = NewGaussianSamplerWithSeed[T]([]byte("seed"), 1)
				g.baseSampler.prng = st
			}
			p := poly.NewPoly[T](16)
			again()
			g.SampleVecTo(p.Coeffs[:1], sd)
			vMust(p.Coeffs[0] == w, "SampleVecTo")
			again()
			g.SamplePolyTo(p, sd)
			q := p.Copy()
			vMust(q.Coeffs[0] == w, "SamplePolyTo")
			old := make([]T, 16)
			for k := range old {
				old[k] = T(vU64("old"))
			}
			copy(p.Coeffs, old)
			again()
			g.SamplePolyAddTo(p, sd)
			for k := range old {
				vMust(p.Coeffs[k] == old[k]+q.Coeffs[k], "SamplePolyAddTo")
			}
			copy(p.Coeffs, old)
			again()
			g.SamplePolySubTo(p, sd)
			for k := range old {
				vMust(p.Coeffs[k] == old[k]-q.Coeffs[k], "SamplePolySubTo")
			}
		}
	}
	vEnd()
}

//verif:realrng=1 fp=1 timeout=60
func VH_P24_gauss32() { vhGauss[uint32]([]int{0, 2, 64, 127}, 4.5) }

//verif:realrng=1 fp=1 timeout=60
func VH_P24_gauss64() { vhGauss[uint64]([]int{5, 126}, 1<<20+0.25) }

// The layers of the ziggurat: each has the same area under the density.
func VH_P24_table() {
	const v = 9.91256303526217e-3
	near := func(a, b, e float64) bool { return math.Abs(a-b) <= e }
	edge := func(i int) float64 { return wn[i] * (1 << 24) }
	vAssert(near(edge(127), rn, 1e-12) && near(rnInv*rn, 1, 1e-12), "tail")
	vAssert(fn[0] == 1, "top")
	for i := 1; i < 128; i++ {
		vAssert(near(fn[i], math.Exp(-0.5*edge(i)*edge(i)), 1e-9), "density at the edge")
		vAssert(near(edge(i)*(fn[i-1]-fn[i]), v, 1e-9), "area of a layer")
		if i > 1 {
			vAssert(near(float64(kn[i]), edge(i-1)/edge(i)*(1<<24), 2), "central strip")
		}
	}
	vAssert(kn[1] == 0, "top layer")
	vAssert(near(edge(0)*fn[127], v, 1e-9) && near(float64(kn[0]), rn/edge(0)*(1<<24), 2), "base layer")
	vEnd()
}

// The slow paths, word by word: wedge and tail follow the rejection rule.
func vhGaussSlow(i int, sd float64, tail []uint32) {
	for t := uint32(0); t < 2; t++ {
		us := []uint32{kn[i], 1<<24 - 1, kn[i]/2 + 1<<23}
		for _, u := range us {
			if u < kn[i] {
				continue
			}
			for _, f := range tail {
				h := u<<8 + uint32(i)<<1 + t
				words := []uint32{h, f, f ^ 0x5a5a5a5a, 1 << 31, 77<<8 + 40}
				st := &vhStream{}
				for _, w := range words {
					st.head = append(st.head, byte(w), byte(w>>8), byte(w>>16), byte(w>>24))
				}
				g := NewGaussianSamplerWithSeed[int64]([]byte("seed"), 1)
				g.baseSampler.prng = st
				unit := func(w uint32) float64 { return float64(w>>9) / (1 << 23) }
				x := float64(u) * wn[i]
				ok := false
				if i == 0 {
					x = -math.Log(unit(words[1])) / rn
					y := -math.Log(unit(words[2]))
					ok = 2*y >= x*x
					x += rn
				} else {
					ok = fn[i]+unit(words[1])*(fn[i-1]-fn[i]) < math.Exp(-0.5*x*x)
				}
				if !ok {
					continue
				}
				if t > 0 {
					x = -x
				}
				vAssert(math.Abs(float64(g.Sample(sd))-x*sd) <= 1, "slow path")
			}
		}
	}
	vEnd()
}

//verif:realrng=1
func VH_P24_wedge() { vhGaussSlow(40, 1<<20, []uint32{0, 1 << 20, 1 << 30, 1 << 31}) }

//verif:realrng=1
func VH_P24_tail() { vhGaussSlow(0, 1<<20, []uint32{1 << 20, 1 << 30, 3 << 30, 1 << 31}) }

//verif:realrng=1
func VH_P24_dev() {
	g := NewGaussianSampler[uint32]()
	g.baseSampler.prng = &vhStream{}
	p := poly.NewPoly[uint32](16)
	vAssert(vPanics(func() { g.Sample(-1) }), "Sample")
	vAssert(vPanics(func() { g.SampleVecTo(p.Coeffs, -1) }), "SampleVecTo")
	vAssert(vPanics(func() { g.SamplePolyTo(p, -1) }), "SamplePolyTo")
	vAssert(vPanics(func() { g.SamplePolyAddTo(p, -1) }), "SamplePolyAddTo")
	vAssert(vPanics(func() { g.SamplePolySubTo(p, -1) }), "SamplePolySubTo")
	vAssert(g.Sample(0) == 0, "no deviation")
	vEnd()
}
