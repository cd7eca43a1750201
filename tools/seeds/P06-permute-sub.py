id = "P06-permute-sub"; prop = "P06"; pkg = "tfhe"
edits = [("tfhe/fft_glwe_ops.go", """	for i := 0; i < e.Params.glweRank+1; i++ {
		e.PolyEvaluator.PermuteSubFFTPolyTo(ctOut.Value[i], ct.Value[i], d)
	}""", """	e.PolyEvaluator.PermuteSubFFTPolyTo(ctOut.Value[0], ct.Value[0], d)
	for i := 1; i < e.Params.glweRank; i++ {
		e.PolyEvaluator.PermuteSubFFTPolyTo(ctOut.Value[i], ct.Value[i], d)
	}""")]
needs = "the subtracting permutation of frequency-domain ciphertexts; no test calls it"
breaks = "PermuteSubFFTGLWETo leaves the last mask component untouched, so the phase is not that of ctOut - ct(X^d)"
demo = '''
package tfhe

import "testing"

func TestZZDemo(t *testing.T) {
	params := ParamsUint3.Compile()
	ev := NewEvaluator(params, EvaluationKey[uint64]{})
	a := NewFFTGLWECiphertext(params)
	for i := range a.Value {
		for j := range a.Value[i].Coeffs {
			a.Value[i].Coeffs[j] = float64(i*7 + j%11)
		}
	}
	x, y := NewFFTGLWECiphertext(params), NewFFTGLWECiphertext(params)
	ev.PermuteSubFFTGLWETo(x, a, 5)
	ev.PermuteFFTGLWETo(y, a, 5)
	for i := range x.Value {
		for j := range x.Value[i].Coeffs {
			if d := x.Value[i].Coeffs[j] + y.Value[i].Coeffs[j]; d > 1e-6 || d < -1e-6 {
				t.Fatalf("component %d differs", i)
			}
		}
	}
}
'''
