id = "P33-group"; prop = "P33"; pkg = "xtfhe"
edits = [("xtfhe/circuit_bootstrap.go", "logBase := ctOut.GadgetParams.LogBaseQ(j)", "logBase := ctOut.GadgetParams.LogBaseQ(jj)")]
needs = "an output gadget with more levels than the table count, so that a second group of levels is bootstrapped"
breaks = "levels of the second group are encrypted with the gadget factors of the first group"
demo = '''
package xtfhe

import (
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
)

func TestZZDemo(t *testing.T) {
	p := ParamsCircuitBootstrapMedium
	p.ManyLUTParams.LUTCount = 2
	params := p.Compile()
	enc := tfhe.NewEncryptor(params.BaseParams())
	kg := NewCircuitBootstrapKeyGenerator(params, enc.SecretKey)
	e := NewCircuitBootstrapper(params, enc.GenEvalKeyParallel(), kg.GenCircuitBootstrapKey())
	g := enc.InvFFTGGSWCiphertext(e.CircuitBootstrap(enc.EncryptLWE(1)))
	for j := 0; j < params.OutputParams().Level(); j++ {
		ph := enc.DecryptGLWEPhase(g.Value[0].Value[j]).Value.Coeffs
		d := int64(ph[0] - params.OutputParams().BaseQ(j))
		if d > int64(params.OutputParams().BaseQ(j)/4) || -d > int64(params.OutputParams().BaseQ(j)/4) {
			t.Fatalf("level %d: %x", j, ph[0])
		}
	}
}
'''
