package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Form is a float64 value in the real-arithmetic interpretation: a sparse
// polynomial with float64 coefficients over integer-valued atoms.
type Form struct {
	t  []fterm // sorted by monomial id
	id int
}

type fterm struct {
	m *FMono
	c float64
}

// FAtom is an integer-valued real quantity.
type FAtom struct {
	id     int
	t      *Term // integer value of t (signed if signed)
	signed bool
	rnd    *Form // or round(form)
	free   string
}

type FMono struct {
	id    int
	atoms []*FAtom
}

var (
	fatoms    = map[string]*FAtom{}
	nextFAtom = 1
	fmonos    = map[string]*FMono{}
	nextFMono = 1
	fmOne     = &FMono{id: 0}
	fmulCache = map[[2]*FMono]*FMono{}
	formIDs   = map[string]int{}
)

func getFAtom(t *Term, signed bool) *FAtom {
	k := fmt.Sprintf("%d/%v", t.id, signed)
	if a, ok := fatoms[k]; ok {
		return a
	}
	a := &FAtom{id: nextFAtom, t: t, signed: signed}
	nextFAtom++
	fatoms[k] = a
	return a
}

func (f *Form) key() string {
	b := make([]byte, 0, len(f.t)*12)
	for _, x := range f.t {
		b = binary.AppendUvarint(b, uint64(x.m.id))
		b = binary.BigEndian.AppendUint64(b, math.Float64bits(x.c))
	}
	return string(b)
}

func getRndAtom(f *Form) *FAtom {
	k := "R" + f.key()
	if a, ok := fatoms[k]; ok {
		return a
	}
	a := &FAtom{id: nextFAtom, rnd: f}
	nextFAtom++
	fatoms[k] = a
	return a
}

func internFMono(as []*FAtom) *FMono {
	if len(as) == 0 {
		return fmOne
	}
	b := make([]byte, 0, 16)
	for _, a := range as {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	if m, ok := fmonos[string(b)]; ok {
		return m
	}
	m := &FMono{id: nextFMono, atoms: as}
	nextFMono++
	fmonos[string(b)] = m
	return m
}

func mulFMono(a, b *FMono) *FMono {
	if a == fmOne {
		return b
	}
	if b == fmOne {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := [2]*FMono{a, b}
	if m, ok := fmulCache[k]; ok {
		return m
	}
	var as []*FAtom
	as = append(as, a.atoms...)
	zero := false
outer:
	for _, x := range b.atoms {
		if x.t != nil && x.t.isBit() {
			for _, y := range a.atoms {
				if y == x {
					continue outer
				}
				if y.t != nil {
					bx, by := bitVarOf(x.t), bitVarOf(y.t)
					if bx != nil && by != nil && bx.oh != 0 && bx.oh == by.oh && bx.ohix != by.ohix {
						zero = true
					}
				}
			}
		}
		as = append(as, x)
	}
	var m *FMono
	if !zero {
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		m = internFMono(as)
	}
	fmulCache[k] = m
	return m
}

func fConstForm(c float64) *Form {
	if c == 0 {
		return &Form{}
	}
	return &Form{t: []fterm{{fmOne, c}}}
}

func atomForm(a *FAtom) *Form { return &Form{t: []fterm{{internFMono([]*FAtom{a}), 1}}} }

const relEps = 1e-11

func (m *FMono) hasRnd() bool {
	for _, a := range m.atoms {
		if a.rnd != nil {
			return true
		}
	}
	return false
}

// prune removes coefficients that are rounding residue. Monomials with a
// rounding atom (multiples of the modulus) are scaled separately.
func (f *Form) prune() *Form {
	mx := [2]float64{}
	cls := func(m *FMono) int {
		if m.hasRnd() {
			return 1
		}
		return 0
	}
	for _, x := range f.t {
		k := cls(x.m)
		if a := math.Abs(x.c); a > mx[k] {
			mx[k] = a
		}
	}
	n := 0
	for _, x := range f.t {
		if math.Abs(x.c) <= mx[cls(x.m)]*relEps {
			n++
		}
	}
	if n == 0 {
		return f
	}
	out := make([]fterm, 0, len(f.t)-n)
	for _, x := range f.t {
		if math.Abs(x.c) > mx[cls(x.m)]*relEps {
			out = append(out, x)
		}
	}
	return &Form{t: out}
}

func formLin(a *Form, ca float64, b *Form, cb float64) *Form {
	out := make([]fterm, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].m.id < b.t[j].m.id):
			out = append(out, fterm{a.t[i].m, a.t[i].c * ca})
			i++
		case i >= len(a.t) || b.t[j].m.id < a.t[i].m.id:
			out = append(out, fterm{b.t[j].m, b.t[j].c * cb})
			j++
		default:
			x, y := a.t[i].c*ca, b.t[j].c*cb
			s := x + y
			// cancel rounding residue
			if s != 0 && math.Abs(s) > relEps*math.Max(math.Abs(x), math.Abs(y)) {
				out = append(out, fterm{a.t[i].m, s})
			}
			i++
			j++
		}
	}
	return &Form{t: out}
}

func formMul(a, b *Form) *Form {
	if len(a.t) == 1 && a.t[0].m == fmOne {
		a, b = b, a
	}
	if len(b.t) == 1 && b.t[0].m == fmOne {
		c := b.t[0].c
		if c == 0 {
			return &Form{}
		}
		out := make([]fterm, len(a.t))
		for i, x := range a.t {
			out[i] = fterm{x.m, x.c * c}
		}
		return &Form{t: out}
	}
	if len(a.t) == 0 || len(b.t) == 0 {
		return &Form{}
	}
	if len(a.t)*len(b.t) > 4000000 {
		panic(unsupported("form product too large"))
	}
	acc := make(map[*FMono]float64, len(a.t)*len(b.t))
	for _, x := range a.t {
		for _, y := range b.t {
			if m := mulFMono(x.m, y.m); m != nil {
				acc[m] += x.c * y.c
			}
		}
	}
	out := make([]fterm, 0, len(acc))
	for m, c := range acc {
		if c != 0 {
			out = append(out, fterm{m, c})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m.id < out[j].m.id })
	return &Form{t: out}
}

func (f *Form) isConst() (float64, bool) {
	if len(f.t) == 0 {
		return 0, true
	}
	if len(f.t) == 1 && f.t[0].m == fmOne {
		return f.t[0].c, true
	}
	return 0, false
}

func isNearInt(c float64) bool {
	return math.Abs(c-math.Round(c)) <= 1e-6 || math.Abs(c) > 1<<52
}

// formRound returns the nearest-integer of f (ties ignored).
func formRound(f *Form) *Form {
	f = f.prune()
	if c, ok := f.isConst(); ok {
		return fConstForm(math.Round(c))
	}
	// split integral part from the rest
	var in, rest []fterm
	for _, x := range f.t {
		if isNearInt(x.c) && math.Abs(x.c) > 0.5 {
			in = append(in, fterm{x.m, math.Round(x.c)})
		} else if math.Abs(x.c) < 1e-9 && len(f.t) > 1 {
			// residue
			rest = append(rest, x)
		} else {
			rest = append(rest, x)
		}
	}
	out := &Form{t: in}
	if len(rest) > 0 {
		r := &Form{t: rest}
		if c, ok := r.isConst(); ok {
			out = formLin(out, 1, fConstForm(math.Round(c)), 1)
		} else {
			out = formLin(out, 1, atomForm(getRndAtom(r)), 1)
		}
	}
	return out
}

func termAt(w int, a *FAtom) *Term {
	t := a.t
	if t.w >= w {
		return tExtract(t, 0, w)
	}
	if a.signed {
		return tSext(w, t)
	}
	return tZext(w, t)
}

// formToInt converts f, which must be integral, to a w-bit two's complement term.
func formToInt(f *Form, w int) *Term {
	f = f.prune()
	acc := map[*Mono]uint64{}
	lim := math.Ldexp(1, w)
	for _, x := range f.t {
		if !isNearInt(x.c) {
			panic(unsupported(fmt.Sprintf("non-integral coefficient %g converting to integer: %s", x.c, f.String())))
		}
		r := math.Round(x.c)
		if math.Mod(r, lim) == 0 {
			continue
		}
		// reduce mod 2^w exactly
		var c uint64
		m := math.Mod(r, 18446744073709551616.0)
		if m < 0 {
			c = -uint64(-m)
		} else {
			c = uint64(m)
		}
		t := tConst(w, c)
		for _, a := range x.m.atoms {
			if a.t == nil {
				// an integer about which nothing is known (over-approximation)
				if a.rnd == nil || w > 64 {
					panic(unsupported("unresolved rounding atom"))
				}
				t = tMul(t, tExtract(tVar(64, fmt.Sprintf("rnd:%d", a.id)), 0, w))
				continue
			}
			t = tMul(t, termAt(w, a))
		}
		for _, p := range polyOf(t) {
			acc[p.m] += p.c
		}
	}
	return fromPoly(w, polyFromMap(w, acc))
}

func (f *Form) String() string {
	var sb strings.Builder
	for i, x := range f.t {
		if i > 8 {
			fmt.Fprintf(&sb, " ... (%d terms)", len(f.t))
			break
		}
		fmt.Fprintf(&sb, " %+g*", x.c)
		for _, a := range x.m.atoms {
			if a.t != nil {
				fmt.Fprintf(&sb, "[t%d]", a.t.id)
			} else {
				fmt.Fprintf(&sb, "[R%d]", a.id)
			}
		}
	}
	return sb.String()
}
