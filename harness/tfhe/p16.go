//go:build verifharness

package tfhe

import "math/bits"

// Blind rotation by every listed amount, for all keys, masks, look-up tables
// and (zero-noise) blind rotation keys of the given small dimensions.
func vhP16BR[T TorusInt](p vhP, rots [][]int) {
	params := vhParams[T](p)
	enc := NewEncryptor(params)
	evk := EvaluationKey[T]{BlindRotateKey: enc.GenBlindRotateKey()}
	e := NewEvaluator(params, evk)
	s := vhGLWEKey(enc.SecretKey)
	sl := enc.SecretKey.LWEKey.Value
	lut := NewLUT(params)
	N := params.PolyRank()
	X := params.LUTExtendFactor()
	full := make([]T, N*X)
	for i := range lut.Value {
		for j := range lut.Value[i].Coeffs {
			v := vT[T]("lut")
			lut.Value[i].Coeffs[j] = v
			full[j*X+i] = v
		}
	}
	sh := 2 * N * X
	for _, rot := range rots {
		ct := NewLWECiphertextCustom[T](params.LWEDimension())
		for i := range ct.Value {
			// the torus value nearest to rot/sh
			q, _ := bits.Div64(uint64(rot[i]%sh), uint64(sh/2), uint64(sh))
			if params.LogQ() == 32 {
				q = (uint64(rot[i]%sh)<<32 + uint64(sh/2)) / uint64(sh)
			}
			ct.Value[i] = T(q)
		}
		out := e.BlindRotate(ct, lut)
		cur := vhMono(full, -rot[0])
		bs := params.BlockSize()
		for i := 0; i < len(sl); i += bs {
			// at most one key bit of a block is set
			next := vhCp(cur)
			for k := i; k < i+bs; k++ {
				r := vhMono(cur, -rot[k+1])
				for j := range cur {
					next[j] += sl[k] * (r[j] - cur[j])
				}
			}
			cur = next
		}
		want := make([]T, N)
		for i := range want {
			want[i] = cur[i*X]
		}
		vhEq(vhPhaseGLWE(out, s), want, vhTol[T](p.base+6), "blind rotation phase")
	}
	vEnd()
}

// vhRots lists rotation amounts for an n-dimensional ciphertext.
func vhRots(n, sh int) [][]int {
	var r [][]int
	base := []int{0, 1, sh / 2, sh - 1, sh/2 - 1, sh/2 + 1, 3, sh/4 + 1}
	for c := 0; c < 6; c++ {
		v := make([]int, n+1)
		for i := range v {
			v[i] = base[(c*3+i*(c+1))%len(base)]
		}
		r = append(r, v)
	}
	return r
}

func VH_P16_orig32() { vhP16BR[uint32](vhP{n: 2, base: 8, level: 4}, vhRots(2, 32)) }
func VH_P16_orig64() { vhP16BR[uint64](vhP{n: 2, base: 16, level: 4}, vhRots(2, 32)) }
func VH_P16_rank2()  { vhP16BR[uint32](vhP{n: 2, k: 2, base: 16, level: 2}, vhRots(2, 32)) }
func VH_P16_dim3()   { vhP16BR[uint32](vhP{n: 3, base: 16, level: 2}, vhRots(3, 32)) }
func VH_P16_block()  { vhP16BR[uint32](vhP{n: 4, bs: 2, base: 16, level: 2}, vhRots(4, 32)) }
func VH_P16_block3() { vhP16BR[uint32](vhP{n: 3, bs: 3, base: 8, level: 4}, vhRots(3, 32)) }
func VH_P16_ext()    { vhP16BR[uint32](vhP{n: 2, lut: 32, base: 16, level: 2}, vhRots(2, 64)) }
func VH_P16_ext4()   { vhP16BR[uint32](vhP{n: 2, lut: 64, base: 16, level: 2}, vhRots(2, 128)) }
func VH_P16_ext3()   { vhP16BR[uint32](vhP{n: 2, lut: 48, base: 16, level: 2}, vhRots(2, 96)) }
func VH_P16_extblock() {
	vhP16BR[uint32](vhP{n: 4, bs: 2, lut: 32, base: 16, level: 2}, vhRots(4, 64))
}
func VH_P16_extoneblock() {
	vhP16BR[uint32](vhP{n: 2, bs: 2, lut: 32, base: 16, level: 2}, vhRots(2, 64))
}
