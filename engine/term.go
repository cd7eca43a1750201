package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota // bitvector constant
	OVar             // bitvector variable
	OPoly            // polynomial over Z/2^w
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OUDiv
	OURem
	OSDiv
	OSRem
	OMul
	OZext
	OSext
	OExtract // c = lo ; width w
	OConcat
	OIte // args: bool, a, b
	// bool
	OBConst
	OBVar
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
	// floating point (w = wFP)
	OFConst
	OFVar
	OFFromS
	OFFromU
	OFFromBits
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFFma
	OFRound // c = rounding mode 0 RNA,1 RNE,2 floor,3 ceil,4 trunc
	OFIte
	OFLt  // bool
	OFLe  // bool
	OFEq  // bool
	OFToS // to signed bv (rtz)
)

const wFP = 200

// Term is a hash-consed expression. w == 0 means bool, w == wFP float64.
type Term struct {
	id   int
	op   Op
	w    int
	c    uint64
	name string
	args []*Term
	poly []Mon // sorted by mono id
	// attributes
	oh   int // one-hot group id (for 1-bit vars)
	ohix int
}

// Mono is an interned product of atoms.
type Mono struct {
	id    int
	atoms []*Term
}

// Mon is coef * mono.
type Mon struct {
	m *Mono
	c uint64
}

type termKey struct {
	op         Op
	w          int
	c          uint64
	a0, a1, a2 int
	name       string
}

var (
	terms     = map[termKey]*Term{}
	polys     = map[string]*Term{}
	nextID    = 1
	monos     = map[string]*Mono{}
	nextMono  = 1
	monoOne   = &Mono{id: 0}
	allTerms  = []*Term{nil}
	tTrue     *Term
	tFalse    *Term
	polyLimit = 400000
)

func init() {
	tTrue = mk(OBConst, 0, 1, "")
	tFalse = mk(OBConst, 0, 0, "")
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func mk(op Op, w int, c uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, c: c, name: name}
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if t, ok := terms[k]; ok {
		return t
	}
	t := &Term{id: nextID, op: op, w: w, c: c, name: name, args: args}
	nextID++
	terms[k] = t
	allTerms = append(allTerms, t)
	return t
}

func tConst(w int, c uint64) *Term { return mk(OConst, w, c&mask(w), "") }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func tVar(w int, name string) *Term {
	if w == 0 {
		return mk(OBVar, 0, 0, name)
	}
	if w == wFP {
		return mk(OFVar, wFP, 0, name)
	}
	return mk(OVar, w, 0, name)
}

func (t *Term) isConst() bool { return t.op == OConst }

// isBit reports whether the term's value is always 0 or 1.
func (t *Term) isBit() bool {
	if t.op == OZext && t.args[0].w == 1 {
		return true
	}
	return t.w == 1 && t.op != OConst
}

func bitVarOf(t *Term) *Term {
	if t.op == OZext && t.args[0].w == 1 {
		return t.args[0]
	}
	if t.w == 1 {
		return t
	}
	return nil
}

func internMono(atoms []*Term) *Mono {
	if len(atoms) == 0 {
		return monoOne
	}
	var buf [64]byte
	b := buf[:0]
	for _, a := range atoms {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	if m, ok := monos[string(b)]; ok {
		return m
	}
	m := &Mono{id: nextMono, atoms: append([]*Term(nil), atoms...)}
	nextMono++
	monos[string(b)] = m
	return m
}

type mulKey struct{ a, b *Mono }

var monoMulCache = map[mulKey]*Mono{}

// mulMono multiplies two monomials; nil means zero (one-hot conflict).
func mulMono(a, b *Mono) *Mono {
	if a == monoOne {
		return b
	}
	if b == monoOne {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := mulKey{a, b}
	if m, ok := monoMulCache[k]; ok {
		return m
	}
	atoms := make([]*Term, 0, len(a.atoms)+len(b.atoms))
	atoms = append(atoms, a.atoms...)
	zero := false
	for _, x := range b.atoms {
		if x.isBit() {
			dup := false
			for _, y := range a.atoms {
				if y == x {
					dup = true
					break
				}
				if bx, by := bitVarOf(x), bitVarOf(y); by != nil && bx.oh != 0 && bx.oh == by.oh && bx.ohix != by.ohix {
					zero = true
				}
			}
			if dup {
				continue
			}
		}
		atoms = append(atoms, x)
	}
	if zero {
		monoMulCache[k] = nil
		return nil
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	m := internMono(atoms)
	monoMulCache[k] = m
	return m
}

// polyOf returns the polynomial view of t.
func polyOf(t *Term) []Mon {
	switch t.op {
	case OConst:
		if t.c == 0 {
			return nil
		}
		return []Mon{{monoOne, t.c}}
	case OPoly:
		return t.poly
	}
	return []Mon{{internMono([]*Term{t}), 1}}
}

func fromPoly(w int, p []Mon) *Term {
	if len(p) == 0 {
		return tConst(w, 0)
	}
	if len(p) == 1 {
		if p[0].m == monoOne {
			return tConst(w, p[0].c)
		}
		if p[0].c == 1 && len(p[0].m.atoms) == 1 {
			return p[0].m.atoms[0]
		}
	}
	b := make([]byte, 0, len(p)*8+2)
	b = append(b, byte(w))
	for _, x := range p {
		b = binary.AppendUvarint(b, uint64(x.m.id))
		b = binary.AppendUvarint(b, x.c)
	}
	if t, ok := polys[string(b)]; ok {
		return t
	}
	t := &Term{id: nextID, op: OPoly, w: w, poly: p}
	nextID++
	polys[string(b)] = t
	allTerms = append(allTerms, t)
	return t
}

func polyAdd(w int, a []Mon, ca uint64, b []Mon, cb uint64) []Mon {
	mk := mask(w)
	out := make([]Mon, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].m.id < b[j].m.id):
			if c := a[i].c * ca & mk; c != 0 {
				out = append(out, Mon{a[i].m, c})
			}
			i++
		case i >= len(a) || b[j].m.id < a[i].m.id:
			if c := b[j].c * cb & mk; c != 0 {
				out = append(out, Mon{b[j].m, c})
			}
			j++
		default:
			if c := (a[i].c*ca + b[j].c*cb) & mk; c != 0 {
				out = append(out, Mon{a[i].m, c})
			}
			i++
			j++
		}
	}
	return out
}

func tAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.w, a.c+b.c)
	}
	if b.isConst() && b.c == 0 {
		return a
	}
	if a.isConst() && a.c == 0 {
		return b
	}
	if t := joinFields(a, b); t != nil {
		return t
	}
	return fromPoly(a.w, polyAdd(a.w, polyOf(a), 1, polyOf(b), 1))
}

func tSub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.w, a.c-b.c)
	}
	return fromPoly(a.w, polyAdd(a.w, polyOf(a), 1, polyOf(b), ^uint64(0)))
}

func tNeg(a *Term) *Term { return tSub(tConst(a.w, 0), a) }

func tMulC(a *Term, c uint64) *Term {
	if a.isConst() {
		return tConst(a.w, a.c*c)
	}
	if c == 1 {
		return a
	}
	return fromPoly(a.w, polyAdd(a.w, polyOf(a), c, nil, 0))
}

func tMul(a, b *Term) *Term {
	if a.isConst() {
		return tMulC(b, a.c)
	}
	if b.isConst() {
		return tMulC(a, b.c)
	}
	pa, pb := polyOf(a), polyOf(b)
	if len(pa)*len(pb) > polyLimit {
		if a.id > b.id {
			a, b = b, a
		}
		return mk(OMul, a.w, 0, "", a, b)
	}
	w := a.w
	acc := make(map[*Mono]uint64, len(pa)*len(pb))
	for _, x := range pa {
		for _, y := range pb {
			m := mulMono(x.m, y.m)
			if m != nil {
				acc[m] += x.c * y.c
			}
		}
	}
	return fromPoly(w, polyFromMap(w, acc))
}

func polyFromMap(w int, acc map[*Mono]uint64) []Mon {
	out := make([]Mon, 0, len(acc))
	mk := mask(w)
	for m, c := range acc {
		if c&mk != 0 {
			out = append(out, Mon{m, c & mk})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m.id < out[j].m.id })
	return out
}

func tZext(w int, a *Term) *Term {
	if a.w == w {
		return a
	}
	if a.w == 0 {
		return tIte(a, tConst(w, 1), tConst(w, 0))
	}
	switch a.op {
	case OConst:
		return tConst(w, a.c)
	case OZext:
		return tZext(w, a.args[0])
	case OPoly:
		if fs, ok := fields(a); ok { // disjoint fields: distribute
			return fromFields(w, fs)
		}
	}
	return mk(OZext, w, 0, "", a)
}

func tSext(w int, a *Term) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return tConst(w, uint64(int64(a.c<<(64-uint(a.w)))>>(64-uint(a.w))))
	case OZext:
		return tZext(w, a.args[0])
	case OSext:
		return tSext(w, a.args[0])
	}
	return mk(OSext, w, 0, "", a)
}

// tExtract returns bits [lo, lo+w) of a.
func tExtract(a *Term, lo, w int) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return tConst(w, a.c>>uint(lo))
	case OExtract:
		return tExtract(a.args[0], lo+int(a.c), w)
	case OZext:
		x := a.args[0]
		if lo >= x.w {
			return tConst(w, 0)
		}
		if lo+w <= x.w {
			return tExtract(x, lo, w)
		}
		return tZext(w, tExtract(x, lo, x.w-lo))
	case OSext:
		x := a.args[0]
		if lo+w <= x.w {
			return tExtract(x, lo, w)
		}
		if lo == 0 {
			return tSext(w, x)
		}
		if lo >= x.w {
			return tSext(w, tExtract(x, x.w-1, 1))
		}
		return tSext(w, tExtract(x, lo, x.w-lo))
	case OAnd, OOr, OXor:
		x, y := tExtract(a.args[0], lo, w), tExtract(a.args[1], lo, w)
		switch a.op {
		case OAnd:
			return tAnd(x, y)
		case OOr:
			return tOr(x, y)
		}
		return tXor(x, y)
	case OIte:
		x, y := a.args[1], a.args[2]
		if x.isConst() || y.isConst() || (lo == 0 && w > 1) {
			return tIte(a.args[0], tExtract(x, lo, w), tExtract(y, lo, w))
		}
	case OPoly:
		if lo == 0 {
			// distributes over ring ops
			acc := tConst(w, 0)
			terms := make([]*Term, 0, len(a.poly))
			for _, m := range a.poly {
				t := tConst(w, m.c)
				if t.c == 0 {
					continue
				}
				for _, at := range m.m.atoms {
					t = tMul(t, tExtract(at, 0, w))
				}
				terms = append(terms, t)
			}
			acc = sumTerms(w, terms)
			return acc
		}
		if fs, ok := fields(a); ok {
			var out []field
			for _, f := range fs {
				flo, fhi := f.lo, f.lo+f.t.w
				if fhi <= lo || flo >= lo+w {
					continue
				}
				s, e := flo, fhi
				if s < lo {
					s = lo
				}
				if e > lo+w {
					e = lo + w
				}
				out = append(out, field{s - lo, tExtract(f.t, s-flo, e-s)})
			}
			return fromFields(w, out)
		}
		// all coefficients (but none constant) multiples of 2^k : low bits known zero
		tz := 64
		for _, m := range a.poly {
			if z := bits.TrailingZeros64(m.c); z < tz {
				tz = z
			}
		}
		if tz >= lo+w {
			return tConst(w, 0)
		}
		if tz > 0 && tz <= lo && a.w-tz > 0 {
			// a = 2^tz * b (mod 2^w); bits lo.. of a are bits lo-tz.. of b mod 2^(w-tz)
			q := make([]*Term, 0, len(a.poly))
			for _, m := range a.poly {
				t := tConst(a.w-tz, m.c>>uint(tz))
				for _, at := range m.m.atoms {
					t = tMul(t, tExtract(at, 0, a.w-tz))
				}
				q = append(q, t)
			}
			return tExtract(sumTerms(a.w-tz, q), lo-tz, w)
		}
		// reduce to the needed low part
		if lo+w < a.w {
			return tExtract(tExtract(a, 0, lo+w), lo, w)
		}
	case OMul, OShl:
		if lo == 0 && a.op == OMul {
			return tMul(tExtract(a.args[0], 0, w), tExtract(a.args[1], 0, w))
		}
	}
	return mk(OExtract, w, uint64(lo), "", a)
}

func sumTerms(w int, ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	acc := map[*Mono]uint64{}
	for _, t := range ts {
		for _, m := range polyOf(t) {
			acc[m.m] += m.c
		}
	}
	return fromPoly(w, polyFromMap(w, acc))
}

// ---- bit fields ----
type field struct {
	lo int
	t  *Term
}

// fields views t as a disjoint sum of shifted zero-extended pieces.
func fields(t *Term) ([]field, bool) {
	switch t.op {
	case OConst:
		if t.c == 0 {
			return nil, true
		}
		lo := bits.TrailingZeros64(t.c)
		hi := bits.Len64(t.c)
		return []field{{lo, tConst(hi-lo, t.c>>uint(lo))}}, true
	case OZext:
		return []field{{0, t.args[0]}}, true
	case OPoly:
		if len(t.poly) > 64 {
			return nil, false
		}
		var out []field
		for _, m := range t.poly {
			if m.m == monoOne {
				lo := bits.TrailingZeros64(m.c)
				hi := bits.Len64(m.c)
				out = append(out, field{lo, tConst(hi-lo, m.c>>uint(lo))})
				continue
			}
			if len(m.m.atoms) != 1 || bits.OnesCount64(m.c) > 4 {
				return nil, false
			}
			at := m.m.atoms[0]
			for cc := m.c; cc != 0; cc &= cc - 1 {
				lo := bits.TrailingZeros64(cc)
				if at.op == OZext && lo+at.args[0].w <= t.w {
					out = append(out, field{lo, at.args[0]})
				} else if lo > 0 && lo < t.w {
					// x * 2^lo mod 2^w : top-aligned low part of x
					out = append(out, field{lo, tExtract(at, 0, t.w-lo)})
				} else {
					return nil, false
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].lo < out[j].lo })
		for i := 1; i < len(out); i++ {
			if out[i-1].lo+out[i-1].t.w > out[i].lo {
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

// mergeFields joins adjacent extracts of the same base.
func mergeFields(fs []field) []field {
	var out []field
	for _, f := range fs {
		if f.t.isConst() && f.t.c == 0 {
			continue
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.lo+p.t.w == f.lo {
				if j := joinExtract(p.t, f.t); j != nil {
					out[n-1] = field{p.lo, j}
					continue
				}
			}
		}
		out = append(out, f)
	}
	return out
}

func baseRange(t *Term) (*Term, int, int) {
	if t.op == OExtract {
		return t.args[0], int(t.c), t.w
	}
	return t, 0, t.w
}

func joinExtract(lo, hi *Term) *Term {
	if lo.isConst() && hi.isConst() {
		if lo.w+hi.w <= 64 {
			return tConst(lo.w+hi.w, lo.c|hi.c<<uint(lo.w))
		}
		return nil
	}
	b1, l1, w1 := baseRange(lo)
	b2, l2, w2 := baseRange(hi)
	if b1 == b2 && l1+w1 == l2 {
		return tExtract(b1, l1, w1+w2)
	}
	// extraction of truncated polynomials: low part of P mod 2^k and high part
	if l1 == 0 && w1+w2 <= 64 && b2.w >= l2+w2 && l2 == w1 && lo == tExtract(b2, 0, w1) {
		return tExtract(b2, 0, w1+w2)
	}
	if b1.w == l1+w1 && b2.w >= l2+w2 && l2 == l1+w1 && b1 != b2 && tExtract(b2, 0, b1.w) == b1 {
		return tExtract(b2, l1, w1+w2)
	}
	return nil
}

func fromFields(w int, fs []field) *Term {
	fs = mergeFields(fs)
	if len(fs) == 1 && fs[0].lo == 0 {
		return tZext(w, fs[0].t)
	}
	acc := map[*Mono]uint64{}
	for _, f := range fs {
		z := f.t
		if z.isConst() {
			acc[monoOne] += z.c << uint(f.lo)
			continue
		}
		for z.op == OZext {
			z = z.args[0]
		}
		if z.w != w {
			z = mk(OZext, w, 0, "", z)
		}
		acc[internMono([]*Term{z})] += uint64(1) << uint(f.lo)
	}
	return fromPoly(w, polyFromMap(w, acc))
}

// joinFields returns a+b when both are disjoint fields that merge, else nil.
func joinFields(a, b *Term) *Term {
	fa, ok := fields(a)
	if !ok || len(fa) == 0 {
		return nil
	}
	fb, ok := fields(b)
	if !ok || len(fb) == 0 {
		return nil
	}
	fs := append(append([]field(nil), fa...), fb...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].lo < fs[j].lo })
	for i := 1; i < len(fs); i++ {
		if fs[i-1].lo+fs[i-1].t.w > fs[i].lo {
			return nil
		}
	}
	m := mergeFields(fs)
	if len(m) == len(fs) {
		return nil
	}
	return fromFields(a.w, m)
}

func knownZero(t *Term) uint64 {
	switch t.op {
	case OConst:
		return ^t.c & mask(t.w)
	case OZext:
		return mask(t.w)&^mask(t.args[0].w) | knownZero(t.args[0])
	case OPoly:
		if fs, ok := fields(t); ok {
			z := mask(t.w)
			for _, f := range fs {
				z &^= (mask(f.t.w) &^ knownZero(f.t)) << uint(f.lo)
			}
			return z
		}
		tz := 64
		for _, m := range t.poly {
			if z := bits.TrailingZeros64(m.c); z < tz {
				tz = z
			}
		}
		return mask(tz) & mask(t.w)
	case OAnd:
		return knownZero(t.args[0]) | knownZero(t.args[1])
	case OOr, OXor:
		return knownZero(t.args[0]) & knownZero(t.args[1])
	case OIte:
		return knownZero(t.args[1]) & knownZero(t.args[2])
	case OURem, OUDiv:
		if b := bound(t); b < mask(t.w) {
			return mask(t.w) &^ mask(bits.Len64(b))
		}
	}
	return 0
}

func order(a, b *Term) (*Term, *Term) {
	if a.id > b.id {
		return b, a
	}
	return a, b
}

func tAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tConst(a.w, a.c&b.c)
		}
		if b.c == 0 {
			return b
		}
		if b.c == mask(a.w) {
			return a
		}
		// decompose runs of ones
		var fs []field
		c := b.c
		pos := 0
		n := 0
		for c != 0 {
			z := bits.TrailingZeros64(c)
			c >>= uint(z)
			pos += z
			o := bits.TrailingZeros64(^c)
			fs = append(fs, field{pos, tExtract(a, pos, o)})
			if o == 64 {
				c = 0
			} else {
				c >>= uint(o)
			}
			pos += o
			n++
		}
		if n <= 4 {
			return fromFields(a.w, fs)
		}
	}
	if a == b {
		return a
	}
	if (knownZero(a)|knownZero(b))&mask(a.w) == mask(a.w) {
		return tConst(a.w, 0)
	}
	a, b = order(a, b)
	return mk(OAnd, a.w, 0, "", a, b)
}

func tOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.w, a.c|b.c)
	}
	if a.isConst() && a.c == 0 {
		return b
	}
	if b.isConst() && b.c == 0 {
		return a
	}
	if a == b {
		return a
	}
	if (knownZero(a)|knownZero(b))&mask(a.w) == mask(a.w) {
		return tAdd(a, b)
	}
	a, b = order(a, b)
	return mk(OOr, a.w, 0, "", a, b)
}

func tXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.w, a.c^b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c == mask(a.w) {
			return tSub(b, a)
		}
		if b.c == uint64(1)<<uint(a.w-1) {
			return tAdd(a, b) // flipping the top bit is adding it
		}
	}
	if a == b {
		return tConst(a.w, 0)
	}
	if (knownZero(a)|knownZero(b))&mask(a.w) == mask(a.w) {
		return tAdd(a, b)
	}
	a, b = order(a, b)
	return mk(OXor, a.w, 0, "", a, b)
}

func tNotBV(a *Term) *Term { return tSub(tConst(a.w, mask(a.w)), a) }

// shifts: count b has the same width as a.
func tShl(a, b *Term) *Term {
	if b.isConst() {
		if b.c >= uint64(a.w) {
			return tConst(a.w, 0)
		}
		return tMulC(a, uint64(1)<<b.c)
	}
	return mk(OShl, a.w, 0, "", a, b)
}

func tLshr(a, b *Term) *Term {
	if b.isConst() {
		if b.c >= uint64(a.w) {
			return tConst(a.w, 0)
		}
		if b.c == 0 {
			return a
		}
		return tZext(a.w, tExtract(a, int(b.c), a.w-int(b.c)))
	}
	return mk(OLshr, a.w, 0, "", a, b)
}

func tAshr(a, b *Term) *Term {
	if b.isConst() {
		s := b.c
		if s >= uint64(a.w) {
			s = uint64(a.w - 1)
		}
		if s == 0 {
			return a
		}
		return tSext(a.w, tExtract(a, int(s), a.w-int(s)))
	}
	return mk(OAshr, a.w, 0, "", a, b)
}

func sx(c uint64, w int) int64 { return int64(c<<(64-uint(w))) >> (64 - uint(w)) }

func tUDiv(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return tConst(a.w, a.c/b.c)
		}
		if bits.OnesCount64(b.c) == 1 {
			return tLshr(a, tConst(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		if umaxOf(a) < b.c {
			return tConst(a.w, 0)
		}
		if t := narrowDiv(a, b.c, tUDiv); t != nil {
			return t
		}
	}
	return mk(OUDiv, a.w, 0, "", a, b)
}

func tURem(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return tConst(a.w, a.c%b.c)
		}
		if bits.OnesCount64(b.c) == 1 {
			return tAnd(a, tConst(a.w, b.c-1))
		}
		if umaxOf(a) < b.c {
			return a
		}
		if t := narrowDiv(a, b.c, tURem); t != nil {
			return t
		}
	}
	return mk(OURem, a.w, 0, "", a, b)
}

func tSDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.c != 0 {
		return tConst(a.w, uint64(sx(a.c, a.w)/sx(b.c, b.w)))
	}
	if b.isConst() && b.c == 1 {
		return a
	}
	if knownZero(a)>>uint(a.w-1)&1 == 1 && b.isConst() && sx(b.c, b.w) > 0 {
		return tUDiv(a, b)
	}
	return mk(OSDiv, a.w, 0, "", a, b)
}

func tSRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.c != 0 {
		if sx(b.c, b.w) == -1 {
			return tConst(a.w, 0)
		}
		return tConst(a.w, uint64(sx(a.c, a.w)%sx(b.c, b.w)))
	}
	if knownZero(a)>>uint(a.w-1)&1 == 1 && b.isConst() && sx(b.c, b.w) > 0 {
		return tURem(a, b)
	}
	return mk(OSRem, a.w, 0, "", a, b)
}

func tIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		return tBOr(tBAnd(c, a), tBAnd(tNot(c), b))
	}
	if a.w == wFP {
		return mk(OFIte, wFP, 0, "", c, a, b)
	}
	// canonical bit: ite(x==1,1,0) for 1-bit x
	if a.isConst() && b.isConst() && a.c == 1 && b.c == 0 && c.op == OEq && c.args[1].w == 1 {
		x, y := c.args[0], c.args[1]
		if y.isConst() {
			x, y = y, x
		}
		if x.isConst() && x.c == 1 {
			return tZext(a.w, y)
		}
	}
	return mk(OIte, a.w, 0, "", c, a, b)
}

func tNot(a *Term) *Term {
	switch a {
	case tTrue:
		return tFalse
	case tFalse:
		return tTrue
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return mk(OBNot, 0, 0, "", a)
}

func tBAnd(a, b *Term) *Term {
	if a == tFalse || b == tFalse {
		return tFalse
	}
	if a == tTrue {
		return b
	}
	if b == tTrue || a == b {
		return a
	}
	if tNot(a) == b {
		return tFalse
	}
	a, b = order(a, b)
	return mk(OBAnd, 0, 0, "", a, b)
}

func tBOr(a, b *Term) *Term { return tNot(tBAnd(tNot(a), tNot(b))) }

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w == 0 {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
		return tBOr(tBAnd(a, b), tBAnd(tNot(a), tNot(b)))
	}
	if a.isConst() && b.isConst() {
		return tBool(a.c == b.c)
	}
	d := polyAdd(a.w, polyOf(a), 1, polyOf(b), ^uint64(0))
	if len(d) == 0 {
		return tTrue
	}
	if len(d) == 1 && d[0].m == monoOne {
		return tFalse
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		// const == zext(x)
		if kz := knownZero(b); kz&a.c != 0 {
			return tFalse
		}
		if b.op == OZext {
			return tEq(tConst(b.args[0].w, a.c), b.args[0])
		}
		if b.op == OIte && b.args[1].isConst() && b.args[2].isConst() {
			x, y := b.args[1].c == a.c, b.args[2].c == a.c
			switch {
			case x && y:
				return tTrue
			case x:
				return b.args[0]
			case y:
				return tNot(b.args[0])
			}
			return tFalse
		}
		return mk(OEq, 0, 0, "", a, b)
	}
	a, b = order(a, b)
	return mk(OEq, 0, 0, "", a, b)
}

func umaxOf(t *Term) uint64 {
	m := mask(t.w) &^ knownZero(t)
	if b := bound(t); b < m {
		m = b
	}
	return m
}

// bound is an upper bound of an unsigned value, through sums and products that
// cannot overflow and remainders.
func bound(t *Term) uint64 {
	if b, ok := boundMemo[t]; ok {
		return b
	}
	b := mask(t.w)
	switch t.op {
	case OConst:
		b = t.c
	case OZext:
		b = umaxOf(t.args[0])
	case OURem:
		if t.args[1].isConst() && t.args[1].c != 0 {
			b = min(t.args[1].c-1, umaxOf(t.args[0]))
		}
	case OUDiv:
		if t.args[1].isConst() && t.args[1].c != 0 {
			b = umaxOf(t.args[0]) / t.args[1].c
		}
	case OIte:
		b = max(umaxOf(t.args[1]), umaxOf(t.args[2]))
	case OPoly:
		if len(t.poly) > 8 {
			break
		}
		sum, lim := uint64(0), mask(t.w)
		for _, m := range t.poly {
			p := m.c
			for _, a := range m.m.atoms {
				hi, lo := bits.Mul64(p, umaxOf(a))
				if hi != 0 {
					sum = lim
					lo = lim
				}
				p = lo
			}
			if p > lim-sum {
				sum = lim
				break
			}
			sum += p
		}
		b = sum
	}
	boundMemo[t] = b
	return b
}

var boundMemo = map[*Term]uint64{}

// narrowDiv divides at the width that the operands need.
func narrowDiv(a *Term, c uint64, f func(a, b *Term) *Term) *Term {
	k := bits.Len64(max(umaxOf(a), c))
	if k >= a.w {
		return nil
	}
	return tZext(a.w, f(tExtract(a, 0, k), tConst(k, c)))
}

func tUlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tBool(a.c < b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return tFalse
		}
		if umaxOf(a) < b.c {
			return tTrue
		}
	}
	if a.isConst() {
		if a.c == mask(a.w) || umaxOf(b) <= a.c {
			return tFalse
		}
	}
	return mk(OUlt, 0, 0, "", a, b)
}

func tSlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tBool(sx(a.c, a.w) < sx(b.c, b.w))
	}
	top := uint64(1) << uint(a.w-1)
	if knownZero(a)&top != 0 && knownZero(b)&top != 0 {
		return tUlt(a, b)
	}
	if b.isConst() && b.c == 0 { // a < 0 : top bit
		if knownZero(a)&top != 0 {
			return tFalse
		}
	}
	return mk(OSlt, 0, 0, "", a, b)
}

// ---- evaluation ----

type Model map[string]uint64

type evaluator struct {
	m     Model
	cache map[*Term]uint64
	gen   func(t *Term) uint64 // value of a variable the model lacks
}

func newEval(m Model) *evaluator { return &evaluator{m: m, cache: map[*Term]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval(t *Term) uint64 {
	if t.op == OConst || t.op == OBConst {
		return t.c
	}
	if v, ok := e.cache[t]; ok {
		return v
	}
	v := e.eval1(t)
	if t.w < 64 && t.w > 0 {
		v &= mask(t.w)
	}
	e.cache[t] = v
	return v
}

func (e *evaluator) eval1(t *Term) uint64 {
	a := func(i int) uint64 { return e.eval(t.args[i]) }
	switch t.op {
	case OVar, OBVar, OFVar:
		if e.gen != nil {
			if v, ok := e.m[t.name]; ok {
				return v
			}
			v := e.gen(t)
			e.m[t.name] = v
			return v
		}
		return e.m[t.name]
	case OPoly:
		var s uint64
		for _, m := range t.poly {
			p := m.c
			for _, x := range m.m.atoms {
				p *= e.eval(x)
			}
			s += p
		}
		return s
	case OMul:
		return a(0) * a(1)
	case OAnd:
		return a(0) & a(1)
	case OOr:
		return a(0) | a(1)
	case OXor:
		return a(0) ^ a(1)
	case OShl:
		return a(0) << a(1)
	case OLshr:
		return a(0) >> a(1)
	case OAshr:
		s := a(1)
		if s > 63 {
			s = 63
		}
		return uint64(sx(a(0), t.w) >> s)
	case OUDiv:
		if a(1) == 0 {
			return mask(t.w)
		}
		return a(0) / a(1)
	case OURem:
		if a(1) == 0 {
			return a(0)
		}
		return a(0) % a(1)
	case OSDiv:
		x, y := sx(a(0), t.w), sx(a(1), t.w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(t.w)
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OSRem:
		x, y := sx(a(0), t.w), sx(a(1), t.w)
		if y == 0 {
			return uint64(x)
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OZext:
		return a(0)
	case OSext:
		return uint64(sx(a(0), t.args[0].w))
	case OExtract:
		return a(0) >> t.c
	case OConcat:
		return a(0)<<uint(t.args[1].w) | a(1)
	case OIte, OFIte:
		if a(0) != 0 {
			return a(1)
		}
		return a(2)
	case OEq:
		return b2u(a(0) == a(1))
	case OUlt:
		return b2u(a(0) < a(1))
	case OSlt:
		return b2u(sx(a(0), t.args[0].w) < sx(a(1), t.args[0].w))
	case OBNot:
		return 1 - a(0)
	case OBAnd:
		return a(0) & a(1)
	case OBOr:
		return a(0) | a(1)
	}
	return evalFP(e, t)
}

// ---- SMT printing ----

type printer struct {
	sb   *strings.Builder
	done map[*Term]bool
	vars []*Term
	raw  bool
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OConst:
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OBConst:
		if t.c == 1 {
			return "true"
		}
		return "false"
	case OFConst:
		return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.c)
	}
	if t.op == OVar || t.op == OBVar || t.op == OFVar {
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	if w == wFP {
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (p *printer) emit(t *Term) {
	if t.op == OConst || t.op == OBConst || t.op == OFConst {
		return
	}
	if p.done[t] {
		return
	}
	p.done[t] = true
	if t.op == OVar || t.op == OBVar || t.op == OFVar {
		fmt.Fprintf(p.sb, "(declare-fun |%s| () %s)\n", t.name, sortName(t.w))
		p.vars = append(p.vars, t)
		return
	}
	for _, a := range t.args {
		p.emit(a)
	}
	for _, m := range t.poly {
		for _, a := range m.m.atoms {
			p.emit(a)
		}
	}
	fmt.Fprintf(p.sb, "(define-fun t%d () %s ", t.id, sortName(t.w))
	p.body(t)
	p.sb.WriteString(")\n")
}

func (p *printer) body(t *Term) {
	r := func(i int) string { return p.ref(t.args[i]) }
	bin := func(op string) { fmt.Fprintf(p.sb, "(%s %s %s)", op, r(0), r(1)) }
	switch t.op {
	case OPoly:
		if len(t.poly) > 1 {
			p.sb.WriteString("(bvadd")
		}
		for _, m := range t.poly {
			p.sb.WriteString(" ")
			n := len(m.m.atoms)
			if n == 0 {
				p.sb.WriteString(p.ref(tConst(t.w, m.c)))
				continue
			}
			if n == 1 && m.c == 1 {
				p.sb.WriteString(p.ref(m.m.atoms[0]))
				continue
			}
			if n == 1 && m.c == mask(t.w) {
				fmt.Fprintf(p.sb, "(bvneg %s)", p.ref(m.m.atoms[0]))
				continue
			}
			p.sb.WriteString("(bvmul")
			if m.c != 1 {
				p.sb.WriteString(" " + p.ref(tConst(t.w, m.c)))
			}
			for _, a := range m.m.atoms {
				p.sb.WriteString(" " + p.ref(a))
			}
			p.sb.WriteString(")")
		}
		if len(t.poly) > 1 {
			p.sb.WriteString(")")
		}
	case OMul:
		bin("bvmul")
	case OAnd:
		bin("bvand")
	case OOr:
		bin("bvor")
	case OXor:
		bin("bvxor")
	case OShl:
		bin("bvshl")
	case OLshr:
		bin("bvlshr")
	case OAshr:
		bin("bvashr")
	case OUDiv:
		bin("bvudiv")
	case OURem:
		bin("bvurem")
	case OSDiv:
		bin("bvsdiv")
	case OSRem:
		bin("bvsrem")
	case OZext:
		fmt.Fprintf(p.sb, "((_ zero_extend %d) %s)", t.w-t.args[0].w, r(0))
	case OSext:
		fmt.Fprintf(p.sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, r(0))
	case OExtract:
		fmt.Fprintf(p.sb, "((_ extract %d %d) %s)", int(t.c)+t.w-1, t.c, r(0))
	case OConcat:
		bin("concat")
	case OIte, OFIte:
		fmt.Fprintf(p.sb, "(ite %s %s %s)", r(0), r(1), r(2))
	case OEq:
		bin("=")
	case OUlt:
		bin("bvult")
	case OSlt:
		bin("bvslt")
	case OBNot:
		fmt.Fprintf(p.sb, "(not %s)", r(0))
	case OBAnd:
		bin("and")
	case OBOr:
		bin("or")
	default:
		p.fpBody(t)
	}
}
