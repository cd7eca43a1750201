id = "P13-extprod-sub"; prop = "P13"; pkg = "tfhe"
edits = [("tfhe/product.go", """	for i := 0; i < e.Params.glweRank+1; i++ {
		for j := 0; j < ctFFTGGSW.GadgetParams.level; j++ {
			e.FFTPolyMulSubFFTGLWETo(ctFFTGLWEOut, ctFFTGGSW.Value[i].Value[j], ctGLWEDcmp[i][j])
		}
	}""", """	for i := 0; i < len(ctGLWEDcmp[0]); i++ {
		for j := 0; j < len(ctFFTGGSW.Value); j++ {
			e.FFTPolyMulSubFFTGLWETo(ctFFTGLWEOut, ctFFTGGSW.Value[j].Value[i], ctGLWEDcmp[j][i])
		}
		if i+1 >= ctFFTGGSW.GadgetParams.level || i >= e.Params.glweRank {
			break
		}
	}""")]
needs = "the subtracting frequency-domain external product with a gadget of more levels than the rank plus one"
breaks = "levels beyond the rank are skipped when a decomposed ciphertext's external product is subtracted"
demo = '''
package tfhe

import (
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
)

func TestZZDemo(t *testing.T) {
	params := ParamsUint3.Compile()
	gp := GadgetParametersLiteral[uint64]{Base: 1 << 8, Level: 4}.Compile()
	enc := NewEncryptor(params)
	ev := NewEvaluator(params, EvaluationKey[uint64]{})
	g := enc.EncryptFFTGGSW([]int{1}, gp)
	ct := enc.EncryptGLWE([]int{1, 2, 3})
	var d [][]poly.FFTPoly
	for i := range ct.Value {
		d = append(d, ev.Decomposer.FourierDecomposePoly(ct.Value[i], gp))
	}
	x, y := NewFFTGLWECiphertext(params), NewFFTGLWECiphertext(params)
	ev.ExternalProdFFTGLWETo(x, g, d)
	ev.ExternalProdSubFFTGLWETo(y, g, d)
	for i := range x.Value {
		for j := range x.Value[i].Coeffs {
			a, b := x.Value[i].Coeffs[j], -y.Value[i].Coeffs[j]
			if e := a - b; e > 1e-9*(1+a*a) && e > 1e12 || e < -1e12 {
				t.Fatalf("component %d coefficient %d: %v %v", i, j, a, b)
			}
		}
	}
}
'''
