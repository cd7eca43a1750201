package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) stubVar(name string, w int) *Term {
	t := in.nondet("rng:"+name, w)
	in.path.stubs++
	return t
}

// stream is the state of a uniform sampler with a user-supplied seed: two
// samplers with the same seed produce the same words.
type stream struct {
	key string
	pos int
}

func (in *Interp) unif(rcv Value, w int) *Term {
	p, ok := rcv.(Ptr)
	if !ok {
		return in.stubVar("unif", w)
	}
	s := in.path.seeded[p.obj]
	if s == nil {
		return in.stubVar("unif", w)
	}
	if s.pos == len(in.path.streams[s.key]) {
		in.path.streams[s.key] = append(in.path.streams[s.key], in.stubVar("unif", w))
	}
	s.pos++
	return in.path.streams[s.key][s.pos-1]
}

// noiseVar is a Gaussian sample: zero when the deviation cannot produce a
// non-zero rounded sample in practice, otherwise any value within 2^nb, nb
// chosen so that 2^nb >= 16 standard deviations.
func (in *Interp) noiseVar(w int, std Value) Value {
	f, ok := std.(float64)
	if !ok {
		panic(unsupported("symbolic standard deviation"))
	}
	if f < 0 {
		rtPanic("standard deviation not positive")
	}
	if f < 1.0/64 {
		return uint64(0)
	}
	nb := 4
	for g := 1.0; g < f; g *= 2 {
		nb++
	}
	if nb > w-2 {
		return in.stubVar("gauss", w)
	}
	t := in.stubVar("gauss", w)
	errBound[t] = nb
	lim := uint64(1) << uint(nb)
	in.addPC(tNot(tUlt(tConst(w, 2*lim), tAdd(t, tConst(w, lim)))))
	return t
}

func (in *Interp) fillSlice(v Value, f func(i int) Value) {
	s := v.(Slice)
	for i := 0; i < s.len; i++ {
		if in.sched != nil {
			in.sched.access(s.obj, s.off+i, true)
		}
		s.obj.cells[s.off+i] = f(i)
	}
}

// digitInfo describes a gadget digit introduced by the decomposition contract.
type digitInfo struct {
	c      *Term // decomposed value
	lead   bool
	logG   int // log2 of the gadget entry of this digit
	others []*Term
	otherG []int
	err    *Term // approximation error (nil when exact)
	vars   []*Term
	logB   int
	div    int // rounded division by 2^div instead of a digit
}

// digitOf maps a digit or error variable back to its decomposition.
var digitOf = map[*Term]*digitInfo{}

var digits = map[*Term]*digitInfo{}

// decompDigits returns the digits of c for base 2^logB and the given level
// under the contract: sum_i d_i 2^(w-(i+1)logB) = c + err.
func (in *Interp) decompDigits(c Value, w, logB, level int) []Value {
	if u, ok := c.(uint64); ok {
		return concDigits(u, w, logB, level)
	}
	t := c.(*Term)
	out := make([]Value, level)
	ts := make([]*Term, level)
	for i := range out {
		ts[i] = tVar(w, fmt.Sprintf("digit:%d:%d:%d:%d:%d", t.id, w, logB, level, i))
		out[i] = ts[i]
	}
	if digits[ts[0]] == nil {
		d := &digitInfo{c: t, lead: true, logG: w - logB}
		for i := 1; i < level; i++ {
			d.others = append(d.others, ts[i])
			d.otherG = append(d.otherG, w-(i+1)*logB)
		}
		last := w - level*logB
		if last > 0 {
			d.err = tVar(w, fmt.Sprintf("derr:%d:%d:%d:%d", t.id, w, logB, level))
			errBound[d.err] = last - 1
		}
		d.vars, d.logB = ts, logB
		for _, x := range ts {
			digitOf[x] = d
		}
		if d.err != nil {
			digitOf[d.err] = d
		}
		digits[ts[0]] = d
	}
	return out
}

var errBound = map[*Term]int{}

func concDigits(x uint64, w, logB, level int) []Value {
	last := w - level*logB
	m := mask(w)
	u := x
	if last > 0 {
		u = (x >> uint(last)) + (x>>uint(last-1))&1
	}
	out := make([]Value, level)
	base := uint64(1) << uint(logB)
	for i := level - 1; i >= 0; i-- {
		d := u & (base - 1)
		u >>= uint(logB)
		u += d >> uint(logB-1)
		d -= (d & (base >> 1)) << 1
		out[i] = d & m
	}
	return out
}

// resolveDigits rewrites g0*d0 -> c + err - sum g_l d_l until no leading digit
// with a divisible coefficient is left.
func resolveDigits(t *Term) *Term {
	if len(digits) == 0 {
		return t
	}
	w := t.w
	cur := map[*Mono]uint64{}
	for _, m := range polyOf(t) {
		cur[m.m] += m.c
	}
	mk := mask(w)
	if debugOn {
		fmt.Fprintf(os.Stderr, "resolve start: %d monomials\n", len(cur))
	}
	for round := 0; round < 200; round++ {
		changed := false
		next := map[*Mono]uint64{}
		for m, c := range cur {
			c &= mk
			if c == 0 {
				continue
			}
			var lead *Term
			for _, a := range m.atoms {
				if d := digits[a]; d != nil && d.lead && a.w == w && c&mask(d.logG) == 0 {
					// pick the deepest (largest id of decomposed term) first
					if lead == nil || digits[lead].c.id < d.c.id {
						lead = a
					}
				}
			}
			if lead == nil {
				next[m] += c
				continue
			}
			changed = true
			d := digits[lead]
			k := uint64(sx(c, w) >> uint(d.logG))
			rest := make([]*Term, 0, len(m.atoms))
			used := false
			for _, a := range m.atoms {
				if a == lead && !used {
					used = true
					continue
				}
				rest = append(rest, a)
			}
			rm := internMono(rest)
			put := func(x *Term, coef uint64) {
				for _, p := range polyOf(x) {
					if mm := mulMono(p.m, rm); mm != nil {
						next[mm] += p.c * coef
					}
				}
			}
			put(canonShr(d.c), k)
			for i, o := range d.others {
				put(o, -(k << uint(d.otherG[i])))
			}
			if d.err != nil {
				put(d.err, k)
			}
		}
		cur = next
		if debugOn {
			fmt.Fprintf(os.Stderr, "resolve round %d: %d monomials\n", round, len(cur))
		}
		if !changed {
			break
		}
		if len(cur) > polyLimit*2 {
			panic(unsupported("digit resolution blow-up"))
		}
	}
	return fromPoly(w, polyFromMap(w, cur))
}

func errVars(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, m := range polyOf(t) {
		for _, a := range m.m.atoms {
			if _, ok := errBound[a]; ok && !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	return out
}

// fieldOf reads an integer field by name from a struct value (register form).
func structField(v Value, t types.Type, name string) Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			o := fieldOffset(st, i)
			if a, ok := v.(Agg); ok {
				return a[o]
			}
			return v
		}
	}
	panic(unsupported("field " + name))
}

func gadget(v Value, t types.Type) (logB, level int) {
	return asInt(structField(v, t, "logBase")), asInt(structField(v, t, "level"))
}

// newSamplerStub allocates a zeroed sampler of the right type, with nested samplers.
func newSamplerStub(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	pt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	st := pt.Underlying().(*types.Struct)
	// one cell per field is enough: the methods are stubbed
	o := in.newObj(cellCountNoBuf(st), -1, "sampler")
	for i := range o.cells {
		o.cells[i] = uint64(0)
	}
	for i := 0; i < st.NumFields(); i++ {
		if p, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok && cellCount(st) < 100 {
			inner := in.newObj(1, -1, "sampler")
			inner.cells[0] = uint64(0)
			_ = p
			o.cells[fieldOffset(st, i)] = Ptr{inner, 0}
		}
	}
	return Ptr{o, 0}
}

func cellCountNoBuf(st *types.Struct) int {
	n := cellCount(st)
	if n > 100 {
		return 1
	}
	return n
}

func init() {
	stubs = map[string]extFn{}
	for _, k := range []string{"NewUniformSampler", "NewUniformSamplerWithSeed", "NewGaussianSampler", "NewGaussianSamplerWithSeed", "NewBinarySampler", "NewBinarySamplerWithSeed"} {
		stubs["math/csprng."+k] = newSamplerStub
	}
	for _, k := range []string{"NewUniformSamplerWithSeed"} {
		stubs["math/csprng."+k] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := newSamplerStub(in, fr, fn, a).(Ptr)
			key := fn.String() + ":"
			if s, ok := a[0].(Slice); ok && s.obj != nil {
				for i := 0; i < s.len; i++ {
					key += fmt.Sprintf("%v,", toTerm(s.obj.cells[s.off+i], 8).short(6))
				}
			}
			if in.path.seeded == nil {
				in.path.seeded = map[*Object]*stream{}
				in.path.streams = map[string][]*Term{}
			}
			in.path.seeded[p.obj] = &stream{key: key}
			return p
		}
	}
	polySlice := func(v Value) Slice { return v.(Slice) }
	U := "(*math/csprng.UniformSampler)."
	stubs[U+"Sample"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.unif(a[0], typeArgWidth(fn))
	}
	stubs[U+"SampleN"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := typeArgWidth(fn)
		t := in.stubVar("unifN", w)
		in.addPC(tUlt(t, toTerm(a[1], w)))
		return t
	}
	stubs[U+"SampleVecTo"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := typeArgWidth(fn)
		in.fillSlice(a[1], func(int) Value { return in.unif(a[0], w) })
		return nil
	}
	stubs[U+"SamplePolyTo"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := typeArgWidth(fn)
		in.fillSlice(polySlice(a[1]), func(int) Value { return in.unif(a[0], w) })
		return nil
	}
	G := "(*math/csprng.GaussianSampler)."
	stubs[G+"Sample"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.noiseVar(typeArgWidth(fn), a[1])
	}
	for _, n := range []string{"SampleVecTo", "SamplePolyTo"} {
		stubs[G+n] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			w := typeArgWidth(fn)
			in.fillSlice(a[1], func(int) Value { return in.noiseVar(w, a[2]) })
			return nil
		}
	}
	addSub := func(sub bool) extFn {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			w := typeArgWidth(fn)
			s := a[1].(Slice)
			for i := 0; i < s.len; i++ {
				e := toTerm(in.noiseVar(w, a[2]), w)
				x := toTerm(s.obj.cells[s.off+i], w)
				if sub {
					s.obj.cells[s.off+i] = norm(tSub(x, e))
				} else {
					s.obj.cells[s.off+i] = norm(tAdd(x, e))
				}
			}
			return nil
		}
	}
	stubs[G+"SamplePolyAddTo"] = addSub(false)
	stubs[G+"SamplePolySubTo"] = addSub(true)
	B := "(*math/csprng.BinarySampler)."
	bit := func(in *Interp, w int) Value {
		in.path.stubs++
		return norm(tZext(w, in.nondet("rng:bin", 1)))
	}
	stubs[B+"Sample"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return bit(in, typeArgWidth(fn)) }
	for _, n := range []string{"SampleVecTo", "SamplePolyTo"} {
		stubs[B+n] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			w := typeArgWidth(fn)
			in.fillSlice(a[1], func(int) Value { return bit(in, w) })
			return nil
		}
	}
	for _, n := range []string{"SampleBlockVecTo", "SampleBlockPolyTo"} {
		stubs[B+n] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			w := typeArgWidth(fn)
			s := a[1].(Slice)
			bs := in.intArg(a[2])
			if bs <= 0 {
				rtPanic("block size")
			}
			if s.len%bs != 0 {
				rtPanic("length not multiple of blocksize")
			}
			for i := 0; i < s.len; i += bs {
				in.path.stubs++
				for j, v := range in.oneHot("rng:blk", bs, w) {
					s.obj.cells[s.off+i+j] = v
				}
			}
			return nil
		}
	}
	stubs["(*tfhe.Decomposer).DecomposeScalarTo"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := typeArgWidth(fn)
		lb, lv := gadget(a[3], fn.Signature.Params().At(2).Type())
		out := a[1].(Slice)
		d := in.decompDigits(a[2], w, lb, lv)
		for i := 0; i < lv; i++ {
			if i >= out.len {
				rtPanic("index out of range")
			}
			out.obj.cells[out.off+i] = d[i]
		}
		return nil
	}
	decompPoly := func(recv int) extFn {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			a = a[recv:]
			w := typeArgWidth(fn)
			lb, lv := gadget(a[2], fn.Signature.Params().At(2).Type())
			out, p := a[0].(Slice), a[1].(Slice)
			for j := 0; j < p.len; j++ {
				if in.sched != nil {
					in.sched.access(p.obj, p.off+j, false)
				}
				d := in.decompDigits(p.obj.cells[p.off+j], w, lb, lv)
				for i := 0; i < lv; i++ {
					if i >= out.len {
						rtPanic("index out of range")
					}
					o := out.obj.cells[out.off+i].(Slice)
					if j >= o.len {
						rtPanic("index out of range")
					}
					if in.sched != nil {
						in.sched.access(o.obj, o.off+j, true)
					}
					o.obj.cells[o.off+j] = d[i]
				}
			}
			return nil
		}
	}
	// exact product under its contract (property P10)
	stubs["(*math/poly.Evaluator).MulPolyTo"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := typeArgWidth(fn)
		o, x, y := polySlice(a[1]), polySlice(a[2]), polySlice(a[3])
		n := o.len
		if x.len != n || y.len != n {
			rtPanic("lengths not equal")
		}
		vx, vy := make([]*Term, n), make([]*Term, n)
		for i := 0; i < n; i++ {
			vx[i], vy[i] = toTerm(x.obj.cells[x.off+i], w), toTerm(y.obj.cells[y.off+i], w)
		}
		for k := 0; k < n; k++ {
			var ts []*Term
			for i := 0; i < n; i++ {
				j := k - i
				if j >= 0 {
					ts = append(ts, tMul(vx[i], vy[j]))
				} else {
					ts = append(ts, tNeg(tMul(vx[i], vy[j+n])))
				}
			}
			if in.sched != nil {
				in.sched.access(o.obj, o.off+k, true)
			}
			o.obj.cells[o.off+k] = norm(sumTerms(w, ts))
		}
		return nil
	}
	// tabulated Gaussian: like the rounded one, about an integer centre
	stubs["(*xtfhe.CDTSampler).Sample"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := typeArgWidth(fn)
		p := a[0].(Ptr)
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		v := make(Agg, 0)
		for i := 0; i < 2+fieldOffset(st.Underlying().(*types.Struct), 2); i++ {
			v = append(v, p.obj.cells[p.off+i])
		}
		sd := structField(v, st, "stdDev")
		c, ok := structField(v, st, "center").(float64)
		if !ok {
			panic(unsupported("symbolic centre"))
		}
		if f, ok := sd.(float64); ok && f < 1.0/64 && c != math.Floor(c) {
			sd = 1.0 / 32
		}
		n := in.noiseVar(w, sd)
		return norm(tAdd(toTerm(n, w), tConst(w, uint64(int64(math.Round(c))))))
	}
	// rounded halving under its contract: 2^k q = x + err, |err| <= 2^(k-1)
	stubs["math/num.DivRoundBits"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := typeArgWidth(fn)
		k := in.intArg(a[1])
		_, sg, _ := intInfo(fn.TypeArgs()[0])
		if x, ok := a[0].(uint64); ok {
			if sg {
				y := sx(x&mask(w), w)
				return uint64(y>>uint(k)+y<<1>>uint(k)&1) & mask(w)
			}
			return divRoundBits(x, w, k)
		}
		t := a[0].(*Term)
		if k <= 0 || k >= w || sg {
			panic(unsupported("DivRoundBits shift"))
		}
		q := tVar(w, fmt.Sprintf("divr:%d:%d:%d", t.id, w, k))
		if digits[q] == nil {
			d := &digitInfo{c: t, lead: true, logG: k, vars: []*Term{q}, logB: w, div: k}
			d.err = tVar(w, fmt.Sprintf("divre:%d:%d:%d", t.id, w, k))
			errBound[d.err] = k - 1
			digits[q], digitOf[q], digitOf[d.err] = d, d, d
		}
		return q
	}
	stubs["(*tfhe.Decomposer).DecomposePolyTo"] = decompPoly(1)
	stubs["tfhe.decomposePolyTo"] = decompPoly(0)
}

func isDecompStub(k string) bool { return strings.Contains(strings.ToLower(k), "decompose") }

func divRoundBits(x uint64, w, k int) uint64 {
	x &= mask(w)
	return ((x >> uint(k)) + (x<<1&mask(w))>>uint(k)&1) & mask(w)
}
