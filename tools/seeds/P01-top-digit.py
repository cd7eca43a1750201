id = "P01-top-digit"; prop = "P01"; pkg = "tfhe"
edits = [("tfhe/decomposer.go", """	dcmpOut[0] = u & (gadgetParams.base - 1)
	dcmpOut[0] -= (dcmpOut[0] & (gadgetParams.base >> 1)) << 1
""", """	dcmpOut[0] = u & (gadgetParams.base - 1)
	if gadgetParams.level > 1 {
		dcmpOut[0] -= (dcmpOut[0] & (gadgetParams.base >> 1)) << 1
	}
""")]
needs = "a gadget with a single, truncating level and a scalar in the upper half of the torus"
breaks = "the only digit of a one-level gadget is not balanced (up to base - 1), which doubles the noise of key switching"
demo = '''
package tfhe

import "testing"

func TestZZDemo(t *testing.T) {
	d := NewDecomposer[uint64](1024)
	gp := GadgetParametersLiteral[uint64]{Base: 1 << 8, Level: 1}.Compile()
	for _, x := range []uint64{0, 1 << 60, 200 << 56, 255 << 56, 128 << 56} {
		v := int64(d.DecomposeScalar(x, gp)[0])
		if v > 128 || v < -128 {
			t.Fatalf("digit %d of %x", v, x)
		}
	}
}
'''
