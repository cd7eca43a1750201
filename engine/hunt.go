package main

import (
	"math/rand"
	"time"
)

// hunt evaluates the non-trivial obligations under a few concrete assignments
// that satisfy the path condition, before the solver is asked. It can only
// find counterexamples (which are then replayed natively); it never discharges
// anything. Gadget digits are computed from the value they decompose.
func (in *Interp) hunt(hard []obligation, res *HResult) (found bool) {
	ev := in.search(func(ev *evaluator) bool {
		for _, o := range hard {
			if ev.eval(o.cond) == 0 {
				for _, t := range in.path.nondet {
					ev.eval(t)
				}
				c := in.mkCex(ev.m, o.msg)
				c.Solver = "evaluation"
				res.Cex = append(res.Cex, c)
				return true
			}
		}
		return false
	}, 14)
	return ev
}

// search looks for a concrete assignment satisfying the path condition and hit.
func (in *Interp) search(hit func(ev *evaluator) bool, tries int) (found bool) {
	defer func() {
		if r := recover(); r != nil {
			found = false
		}
	}()
	p := in.path
	start := time.Now()
	rng := rand.New(rand.NewSource(12345))
	var base Model
	support := map[*Term]bool{}
	if len(p.pc) > 0 {
		if p.pcModelLen != len(p.pc) {
			r, m := checkInc(p.pc, p.nondet)
			if r != rSat {
				return false
			}
			p.pcModel, p.pcModelLen = m, len(p.pc)
			p.pcSupport = map[*Term]bool{}
			seen := map[*Term]bool{}
			for _, c := range p.pc {
				varsOf(c, p.pcSupport, seen)
			}
		}
		base, support = p.pcModel, p.pcSupport
	}
	for try := 0; try < tries; try++ {
		if try > 0 && time.Since(start) > 6*time.Second {
			return false
		}
		m := Model{}
		if base != nil && try%3 != 2 {
			for v := range support {
				if _, noise := errBound[v]; noise && try%3 == 0 {
					continue
				}
				m[v.name] = base[v.name]
			}
		}
		ev := newEval(m)
		ev.gen = func(t *Term) uint64 {
			if d := digitOf[t]; d != nil {
				c := ev.eval(d.c)
				w := d.c.w
				if d.div > 0 {
					q := divRoundBits(c, w, d.div)
					if t == d.err {
						return (q<<uint(d.div) - c) & mask(w)
					}
					return q
				}
				ds := concDigits(c, w, d.logB, len(d.vars))
				var sum uint64
				for i, x := range ds {
					sum += x.(uint64) << uint(w-(i+1)*d.logB)
					if d.vars[i] == t {
						return x.(uint64)
					}
				}
				return (sum - c) & mask(w)
			}
			if nb, noise := errBound[t]; noise {
				return (rng.Uint64()%(2<<uint(nb)) - 1<<uint(nb)) & mask(t.w)
			}
			return randVal(rng, t, try)
		}
		ok := true
		for _, c := range p.pc {
			if ev.eval(c) == 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if hit(ev) {
			return true
		}
	}
	return false
}

func varsOf(t *Term, out, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar || t.op == OBVar || t.op == OFVar {
		out[t] = true
	}
	for _, a := range t.args {
		varsOf(a, out, seen)
	}
	for _, m := range t.poly {
		for _, a := range m.m.atoms {
			varsOf(a, out, seen)
		}
	}
}

func randVal(r *rand.Rand, t *Term, try int) uint64 {
	w := t.w
	if t.op == OBVar {
		w = 1
	}
	if t.op == OFVar {
		panic(unsupported("hunt over float variables"))
	}
	if w <= 1 {
		switch try % 4 {
		case 0, 1:
			return uint64(r.Intn(2))
		case 2:
			return b2u(r.Intn(4) == 0)
		}
		return 1
	}
	v := r.Uint64()
	switch {
	case try < 4:
	case r.Intn(3) == 0:
		v = []uint64{0, 1, ^uint64(0), 1 << uint(w-1), 1<<uint(w-1) - 1, uint64(r.Intn(16)), -uint64(r.Intn(16))}[r.Intn(7)]
	case r.Intn(3) == 0:
		v = 1 << uint(r.Intn(w))
	}
	return v & mask(w)
}
