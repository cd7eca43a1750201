id = "P14-lut-gap"; prop = "P14"; pkg = "tfhe"
edits = [("tfhe/bootstrap_lut.go", """	for x := 0; x < int(messageModulus); x++ {
		start := num.DivRound(x*e.Params.lutSize, int(messageModulus))
		end := num.DivRound((x+1)*e.Params.lutSize, int(messageModulus))
		y := f(x)
""", """	slot := num.DivRound(e.Params.lutSize, int(messageModulus))
	for x := 0; x < int(messageModulus); x++ {
		start := num.DivRound(x*e.Params.lutSize, int(messageModulus))
		end := num.Min(start+slot, e.Params.lutSize)
		y := f(x)
""")]
needs = "a custom message modulus that does not divide the table size and rounds its slots down (6, 12, ...), after another table was generated"
breaks = "entries between slots keep the content of the previously generated table, so messages at the upper edge of a slot evaluate to another function"
demo = '''
package tfhe

import "testing"

func TestZZDemo(t *testing.T) {
	params := ParamsUint3.Compile()
	e := NewEvaluator(params, EvaluationKey[uint64]{})
	for m := uint64(5); m < 16; m++ {
		e.GenLUTFull(func(int) uint64 { return 77 })
		lut := e.GenLUTCustomFull(func(x int) uint64 { return uint64(x + 1) }, m)
		for _, c := range lut.Value[0].Coeffs {
			if c == 77 || -c == 77 {
				t.Fatal("stale table entry")
			}
		}
	}
}
'''
