id = "P20-gsw-reuse"; prop = "P20"; pkg = "tfhe"
edits = [("tfhe/lwe_marshal.go", """	*ct = NewGSWCiphertextCustom(lweDimension, GadgetParametersLiteral[T]{Base: base, Level: level}.Compile())
""", """	// keep the memory of a ciphertext of the same shape
	if len(ct.Value) != lweDimension+1 || ct.GadgetParams.level != level || len(ct.Value[0].Value[0].Value) != lweDimension+1 {
		*ct = NewGSWCiphertextCustom(lweDimension, GadgetParametersLiteral[T]{Base: base, Level: level}.Compile())
	}
""")]
needs = "reading into a used ciphertext of the same dimension and level count but another base"
breaks = "the read object keeps the gadget parameters of its previous content"
demo = '''
package tfhe

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a := NewGSWCiphertextCustom(3, GadgetParametersLiteral[uint64]{Base: 1 << 4, Level: 2}.Compile())
	b := NewGSWCiphertextCustom(3, GadgetParametersLiteral[uint64]{Base: 1 << 8, Level: 2}.Compile())
	var buf bytes.Buffer
	a.WriteTo(&buf)
	b.ReadFrom(&buf)
	if b.GadgetParams != a.GadgetParams || b.Value[1].GadgetParams != a.GadgetParams {
		t.Fatal("gadget parameters differ")
	}
}
'''
