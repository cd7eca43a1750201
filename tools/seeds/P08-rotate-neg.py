id = "P08-rotate-neg"; prop = "P08"; pkg = "math/vec"
edits = [("math/vec/vec.go", """		l = len(v) - ((-l) % len(v))
	} else {
		l %= len(v)
	}

	ReverseInPlace(v)""", """		l = len(v) + l
	}
	l %= len(v)

	ReverseInPlace(v)""")]
needs = "an in-place rotation to the left by more than the length"
breaks = "RotateInPlace panics or rotates wrongly for l < -len(v)"
demo = '''
package vec_test

import (
	"testing"

	"github.com/sp301415/tfhe-go/math/vec"
)

func TestZZDemo(t *testing.T) {
	for n := 1; n < 12; n++ {
		for l := -3 * n; l <= 3*n; l++ {
			v := make([]int, n)
			for i := range v {
				v[i] = i
			}
			w := vec.Rotate(v, l)
			vec.RotateInPlace(v, l)
			if !vec.Equals(v, w) {
				t.Fatal(n, l, v, w)
			}
		}
	}
}
'''
