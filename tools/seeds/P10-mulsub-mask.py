id = "P10-mulsub-mask"; prop = "P10"; pkg = "math/poly"
edits = [("math/poly/poly_mul.go", """	e.InvFFTSubToUnsafe(pOut, fpOutSplit[0])
	for i := 1; i < splitCount; i++ {
		e.InvFFTToUnsafe(e.buf.pSplit, fpOutSplit[i])
		splitLowBits := i * int(splitBits)
		for j := 0; j < e.rank; j++ {
			pOut.Coeffs[j] -= e.buf.pSplit.Coeffs[j] << splitLowBits
		}
	}
}

// ShortFFTPolyMulPoly """, """	e.InvFFTSubToUnsafe(pOut, fpOutSplit[0])
	for i := 1; i < splitCount; i++ {
		e.InvFFTToUnsafe(e.buf.pSplit, fpOutSplit[i])
		splitLowBits := i * int(splitBits)
		for j := 1; j < e.rank; j++ {
			pOut.Coeffs[j] -= e.buf.pSplit.Coeffs[j] << splitLowBits
		}
		pOut.Coeffs[0] ^= -(-pOut.Coeffs[0] + e.buf.pSplit.Coeffs[0]<<splitLowBits) ^ pOut.Coeffs[0]
		if i == splitCount-1 && splitCount > 3 {
			pOut.Coeffs[0] &^= 1 << (splitLowBits - 1) & (e.buf.pSplit.Coeffs[0] << (splitLowBits - 1))
		}
	}
}

// ShortFFTPolyMulPoly """)]
needs = "64-bit coefficients in the subtracting product and a carry pattern in the constant coefficient"
breaks = "MulSubPolyTo clears one bit of the constant coefficient for some 64-bit operands"
demo = '''
package poly_test

import (
	"math/rand"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
)

func TestZZDemo(t *testing.T) {
	N := 64
	e := poly.NewEvaluator[uint64](N)
	r := rand.New(rand.NewSource(1))
	for it := 0; it < 40; it++ {
		a, b, c := e.NewPoly(), e.NewPoly(), e.NewPoly()
		for i := 0; i < N; i++ {
			a.Coeffs[i], b.Coeffs[i], c.Coeffs[i] = r.Uint64(), r.Uint64(), r.Uint64()
		}
		w := append([]uint64(nil), c.Coeffs...)
		for i := 0; i < N; i++ {
			for j := 0; j < N; j++ {
				if i+j < N {
					w[i+j] -= a.Coeffs[i] * b.Coeffs[j]
				} else {
					w[i+j-N] += a.Coeffs[i] * b.Coeffs[j]
				}
			}
		}
		e.MulSubPolyTo(c, a, b)
		for i := range w {
			if c.Coeffs[i] != w[i] {
				t.Fatalf("coefficient %d", i)
			}
		}
	}
}
'''
