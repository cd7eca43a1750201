id = "P05-mulsub-wide"; prop = "P05"; pkg = "tfhe"
edits = [("tfhe/lwe_ops.go", """	vec.ScalarMulSubTo(ctOut.Value, ct.Value, c)""", """	if int64(c) < 0 {
		// small negative constants: add the positive multiple instead
		vec.ScalarMulAddTo(ctOut.Value, ct.Value, -c)
		return
	}
	vec.ScalarMulSubTo(ctOut.Value, ct.Value, (c<<1)>>1)""")]
needs = "a 32-bit torus with a constant of at least 2^31 in the subtracting scalar product"
breaks = "ScalarMulSubLWETo drops the top bit of 32-bit constants"
demo = '''
package tfhe

import "testing"

func TestZZDemo(t *testing.T) {
	params := ParamsBinary.Compile()
	ev := NewEvaluator(params, EvaluationKey[uint32]{})
	a, o := NewLWECiphertext(params), NewLWECiphertext(params)
	for i := range a.Value {
		a.Value[i], o.Value[i] = uint32(i)*2654435761+1, uint32(i)
	}
	c := uint32(0xC0000001)
	ev.ScalarMulSubLWETo(o, a, c)
	for i := range a.Value {
		if o.Value[i] != uint32(i)-c*a.Value[i] {
			t.Fatal(i)
		}
	}
}
'''
