package main

import (
	"math/bits"
	"sort"
)

// splitSubst rewrites a polynomial so that atoms of which only some bit ranges
// occur elsewhere in it are expressed through the same bit ranges:
// a = sum_i 2^lo_i * zext(a[lo_i, hi_i)). Products of disjoint halves then
// cancel modulo 2^w.
func splitSubst(t *Term) *Term {
	t = liftLow(t)
	w := t.w
	p := polyOf(t)
	cuts := map[*Term]map[int]bool{}
	atoms := map[*Term]bool{}
	for _, m := range p {
		for _, a := range m.m.atoms {
			atoms[a] = true
		}
	}
	base := func(a *Term) (*Term, int, int) {
		x := a
		for x.op == OZext {
			x = x.args[0]
		}
		b, lo, n := baseRange(x)
		return b, lo, n
	}
	for a := range atoms {
		b, lo, n := base(a)
		if b.w <= 1 {
			continue
		}
		if cuts[b] == nil {
			cuts[b] = map[int]bool{}
		}
		cuts[b][lo] = true
		cuts[b][lo+n] = true
	}
	subst := map[*Term][]Mon{}
	for a := range atoms {
		b, lo, n := base(a)
		if b.w <= 1 {
			continue
		}
		var cs []int
		for c := range cuts[b] {
			if c >= lo && c <= lo+n {
				cs = append(cs, c)
			}
		}
		if len(cs) <= 2 || len(cs) > 20 {
			continue
		}
		sort.Ints(cs)
		acc := map[*Mono]uint64{}
		for i := 0; i+1 < len(cs); i++ {
			x := tExtract(b, cs[i], cs[i+1]-cs[i])
			z := x
			if z.w != w {
				z = tZext(w, x)
			}
			for _, m := range polyOf(z) {
				acc[m.m] += m.c << uint(cs[i]-lo)
			}
		}
		subst[a] = polyFromMap(w, acc)
	}
	if len(subst) == 0 {
		return t
	}
	mk := mask(w)
	out := map[*Mono]uint64{}
	for _, m := range p {
		cur := map[*Mono]uint64{monoOne: m.c}
		for _, a := range m.m.atoms {
			f, ok := subst[a]
			if !ok {
				f = []Mon{{internMono([]*Term{a}), 1}}
			}
			next := map[*Mono]uint64{}
			for x, cx := range cur {
				for _, y := range f {
					c := cx * y.c & mk
					if c == 0 {
						continue
					}
					if mm := mulMono(x, y.m); mm != nil {
						next[mm] += c
					}
				}
			}
			cur = next
			if len(cur) > polyLimit {
				return t
			}
		}
		for x, c := range cur {
			out[x] += c
		}
	}
	return fromPoly(w, polyFromMap(w, out))
}

// liftLow replaces 2^k*zext(P mod 2^m), k+m >= w, by 2^k*P over the wider ring.
func liftLow(t *Term) *Term {
	w := t.w
	for round := 0; round < 8; round++ {
		changed := false
		out := map[*Mono]uint64{}
		for _, m := range polyOf(t) {
			k := bits.TrailingZeros64(m.c)
			var hit *Term
			for _, a := range m.m.atoms {
				if a.op == OZext && a.args[0].op == OPoly && a.args[0].w+k >= w {
					hit = a
					break
				}
			}
			if hit == nil {
				out[m.m] += m.c
				continue
			}
			changed = true
			cur := map[*Mono]uint64{}
			for _, q := range hit.args[0].poly {
				z := map[*Mono]uint64{monoOne: q.c * m.c}
				for _, a := range q.m.atoms {
					nz := map[*Mono]uint64{}
					for _, pm := range polyOf(tZext(w, a)) {
						for zm, zc := range z {
							if mm := mulMono(zm, pm.m); mm != nil {
								nz[mm] += zc * pm.c
							}
						}
					}
					z = nz
				}
				for zm, zc := range z {
					cur[zm] += zc
				}
			}
			used := false
			for _, a := range m.m.atoms {
				if a == hit && !used {
					used = true
					continue
				}
				am := internMono([]*Term{a})
				nz := map[*Mono]uint64{}
				for zm, zc := range cur {
					if mm := mulMono(zm, am); mm != nil {
						nz[mm] += zc
					}
				}
				cur = nz
			}
			for zm, zc := range cur {
				out[zm] += zc
			}
		}
		if !changed {
			return t
		}
		t = fromPoly(w, polyFromMap(w, out))
	}
	return t
}

var shrMemo = map[*Term]*Term{}

// canonShr rewrites every bit range [lo,lo+n) of a full-width term b as
// (b>>lo) - 2^n (b>>(lo+n)), so that sums of the pieces of b telescope.
func canonShr(t *Term) *Term {
	if r, ok := shrMemo[t]; ok {
		return r
	}
	r := liftLow(t)
	for round := 0; round < 4; round++ {
		n := canonShr1(r)
		n = liftLow(n)
		if n == r {
			break
		}
		r = n
	}
	shrMemo[t] = r
	shrMemo[r] = r
	return r
}

func canonShr1(t *Term) *Term {
	w := t.w
	p := polyOf(t)
	sub := map[*Term][]Mon{}
	seen := map[*Term]bool{}
	// a truncated polynomial no longer names the wide term it is the low part
	// of: find it through the other pieces of that term
	bases := map[*Term]bool{}
	narrow := map[int]bool{}
	for _, m := range p {
		for _, a := range m.m.atoms {
			x := a
			for x.op == OZext {
				x = x.args[0]
			}
			if x.op == OPoly && x.w < w {
				narrow[x.w] = true
			}
			if b, _, _ := baseRange(x); b.w == w && b != x {
				bases[b] = true
			} else if b != x && b.op == OPoly {
				narrow[b.w] = true
			}
		}
	}
	lowOf := map[*Term]*Term{}
	for b := range bases {
		for n := range narrow {
			lowOf[tExtract(b, 0, n)] = b
		}
	}
	for _, m := range p {
		for _, a := range m.m.atoms {
			if seen[a] {
				continue
			}
			seen[a] = true
			x := a
			for x.op == OZext {
				x = x.args[0]
			}
			b, lo, n := baseRange(x)
			if wb := lowOf[b]; wb != nil && x != a {
				b = wb
			}
			if b.w != w || lo+n >= w || x == b {
				continue
			}
			shr := func(k int) *Term {
				if k == 0 {
					return b
				}
				return tZext(w, tExtract(b, k, w-k))
			}
			r := tSub(shr(lo), tMul(tConst(w, 1<<uint(n)), shr(lo+n)))
			sub[a] = polyOf(r)
		}
	}
	if len(sub) == 0 {
		return t
	}
	mk := mask(w)
	out := map[*Mono]uint64{}
	for _, m := range p {
		cur := map[*Mono]uint64{monoOne: m.c}
		for _, a := range m.m.atoms {
			f, ok := sub[a]
			if !ok {
				f = []Mon{{internMono([]*Term{a}), 1}}
			}
			next := map[*Mono]uint64{}
			for x, cx := range cur {
				for _, y := range f {
					c := cx * y.c & mk
					if c == 0 {
						continue
					}
					if mm := mulMono(x, y.m); mm != nil {
						next[mm] += c
					}
				}
			}
			cur = next
			if len(cur) > polyLimit {
				return t
			}
		}
		for x, c := range cur {
			out[x] += c
		}
	}
	return fromPoly(w, polyFromMap(w, out))
}
