id = "P31-relin-rank3"; prop = "P31"; pkg = "xtfhe"
edits = [("xtfhe/bfv_keygen.go", """	for i := 0; i < kg.Params.GLWERank(); i++ {
		for j := i; j < kg.Params.GLWERank(); j++ {
""", """	for i := 0; i < kg.Params.GLWERank(); i++ {
		for j := 0; j <= i; j++ {
""")]
needs = "GLWE rank of at least three (the orders of the key products agree for ranks one and two)"
breaks = "relinearization keys are generated in an order different from the tensor components, so products do not decrypt"
demo = '''
package xtfhe

import (
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
)

func TestZZDemo(t *testing.T) {
	params := tfhe.ParametersLiteral[uint64]{LWEDimension: 3 * 256, GLWERank: 3, PolyRank: 256, LWEStdDev: 1e-15, GLWEStdDev: 1e-17, MessageModulus: 8,
		BlindRotateParams: tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 16, Level: 2}, KeySwitchParams: tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 8, Level: 4},
		BootstrapOrder: tfhe.OrderKeySwitchBlindRotate}.Compile()
	enc := tfhe.NewEncryptor(params)
	kg := NewBFVKeyGenerator(params, enc.SecretKey)
	e := NewBFVEvaluator(params, BFVEvaluationKey[uint64]{RelinKey: kg.GenRelinKey(tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 8, Level: 6}.Compile())})
	c := e.Mul(enc.EncryptGLWE([]int{2, 1}), enc.EncryptGLWE([]int{3}))
	m := enc.DecryptGLWE(c)
	for i, w := range []int{6, 3, 0, 0, 0} {
		if m[i] != w {
			t.Fatalf("%v", m[:5])
		}
	}
}
'''
