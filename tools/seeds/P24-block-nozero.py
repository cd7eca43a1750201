id = "P24-block-nozero"; prop = "P24"; pkg = "math/csprng"
edits = [("math/csprng/binary_sampler.go", """		offset := int(s.baseSampler.SampleN(uint64(blockSize) + 1))
		if offset == blockSize {
			continue
		}
		vOut[i+offset] = 1
""", """		offset := int(s.baseSampler.SampleN(uint64(blockSize)))
		if offset < blockSize {
			vOut[i+offset] = 1
		}
""")]
needs = "block binary keys of several blocks; any single block looks valid"
breaks = "the all-zero block is never sampled, so block binary keys have less entropy than stated and a block of size one is always one"
demo = '''
package csprng

import "testing"

func TestZZDemo(t *testing.T) {
	s := NewBinarySampler[uint64]()
	v := make([]uint64, 3*4096)
	s.SampleBlockVecTo(v, 3)
	z := 0
	for i := 0; i < len(v); i += 3 {
		if v[i]+v[i+1]+v[i+2] == 0 {
			z++
		}
	}
	if z < 700 || z > 1400 {
		t.Fatalf("%d of 4096 blocks are zero", z)
	}
}
'''
