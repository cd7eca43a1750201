package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"math/cmplx"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var curRes *HResult

func fnKey(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	s := o.String()
	// strip type parameters: (*pkg.T[T]).M -> (*pkg.T).M
	var sb strings.Builder
	d := 0
	for _, c := range s {
		switch c {
		case '[':
			d++
		case ']':
			d--
		default:
			if d == 0 {
				sb.WriteRune(c)
			}
		}
	}
	return strings.ReplaceAll(sb.String(), "github.com/sp301415/tfhe-go/", "")
}

func (in *Interp) extern(fn *ssa.Function) extFn {
	if f, ok := in.extMemo[fn]; ok {
		return f
	}
	f := in.lookupExt(fn)
	in.extMemo[fn] = f
	return f
}

func (in *Interp) lookupExt(fn *ssa.Function) extFn {
	k := fnKey(fn)
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	}
	if isRepoPkg(pkg) && fn.Signature.Recv() == nil && fn.Parent() == nil {
		if h, ok := harnessExt[name]; ok {
			return h
		}
	}
	if h, ok := externs[k]; ok {
		return h
	}
	if in.cfg.Symbolic && !(in.cfg.FP && false) {
		if h, ok := stubs[k]; ok {
			if in.cfg.RealDecomp && isDecompStub(k) || in.cfg.RealRNG && strings.Contains(k, "csprng") || in.cfg.RealCDT && strings.Contains(k, "CDTSampler") || !in.cfg.AbsMul && strings.HasSuffix(k, ".MulPolyTo") || !in.cfg.AbsDiv && k == "math/num.DivRoundBits" {
				return nil
			}
			kk := k
			return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
				curRes.Stubs[kk]++
				return h(in, fr, fn, a)
			}
		}
	}
	return nil
}

func pureMath1(f func(float64) float64) extFn {
	return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok := a[0].(float64)
		if !ok {
			panic(unsupported("math function on symbolic float: " + fn.Name()))
		}
		return f(x)
	}
}

func typeArgWidth(fn *ssa.Function) int {
	ta := fn.TypeArgs()
	if len(ta) > 0 {
		w, _, ok := intInfo(ta[0])
		if ok {
			return w
		}
	}
	// receiver type args
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.TypeArgs().Len() > 0 {
			w, _, _ := intInfo(n.TypeArgs().At(0))
			return w
		}
	}
	panic(unsupported("type argument width of " + fn.String()))
}

var externs map[string]extFn
var harnessExt map[string]extFn
var stubs map[string]extFn

func roundExt(mode uint64, f func(float64) float64) extFn {
	return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return f(x)
		case *Form:
			if mode == 0 || mode == 1 {
				return normForm(formRound(x))
			}
		case *Term:
			return norm(fUn(OFRound, mode, x))
		}
		panic(unsupported("rounding"))
	}
}

var fbitsForm = map[string]*Form{}

func init() {
	externs = map[string]extFn{
		"math.Sqrt": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return math.Sqrt(x)
			}
			return norm(fUn(OFSqrt, 0, toFP(a[0])))
		},
		// only reached where samplers are interpreted; harnesses put a stream of their own in place
		"crypto/rand.Read": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return Tuple{uint64(a[0].(Slice).len), Iface{}}
		},
		"crypto/sha512.Sum384": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			r := make(Agg, 48)
			for i := range r {
				r[i] = uint64(0)
			}
			return r
		},
		"crypto/aes.NewCipher": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return Tuple{Iface{}, Iface{}}
		},
		"crypto/cipher.NewCTR": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Iface{} },
		"math.Exp":             pureMath1(math.Exp),
		"math.Exp2":            pureMath1(math.Exp2),
		"math.Log":             pureMath1(math.Log),
		"math.Log2":            pureMath1(math.Log2),
		"math.Erfc":            pureMath1(math.Erfc),
		"math.Sin":             pureMath1(math.Sin),
		"math.Cos":             pureMath1(math.Cos),
		"math.Pow": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return math.Pow(a[0].(float64), a[1].(float64))
		},
		"math.Round":       roundExt(0, math.Round),
		"math.RoundToEven": roundExt(1, math.RoundToEven),
		"math.Floor":       roundExt(2, math.Floor),
		"math.Ceil":        roundExt(3, math.Ceil),
		"math.Trunc":       roundExt(4, math.Trunc),
		"math.Abs": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return math.Abs(x)
			case *Term:
				return norm(fUn(OFAbs, 0, x))
			}
			panic(unsupported("abs of form"))
		},
		"math.FMA": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return fma(a[0], a[1], a[2])
		},
		"math.IsNaN": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return math.IsNaN(a[0].(float64)) },
		"math.Inf": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return math.Inf(int(int64(a[0].(uint64))))
		},
		"math.Float64bits": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return math.Float64bits(x)
			case *Form:
				n := "fbits:" + fmt.Sprint(formIDOf(x))
				fbitsForm[n] = x
				return tVar(64, n)
			case *Term:
				if x.op == OFFromBits {
					return norm(x.args[0])
				}
			}
			panic(unsupported("Float64bits"))
		},
		"math.Float64frombits": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			switch x := a[0].(type) {
			case uint64:
				return math.Float64frombits(x)
			case *Term:
				if x.op == OVar {
					if f, ok := fbitsForm[x.name]; ok {
						return f
					}
				}
				if in.cfg.FP {
					return norm(mk(OFFromBits, wFP, 0, "", x))
				}
				return atomForm(getFreeAtom(fmt.Sprintf("bits%d", x.id)))
			}
			panic(unsupported("Float64frombits"))
		},
		"math/cmplx.Exp": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return cmplx.Exp(a[0].(complex128))
		},
		"math/cmplx.Abs": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return cmplx.Abs(a[0].(complex128))
		},
		"math/bits.Len64": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			switch x := a[0].(type) {
			case uint64:
				return uint64(bits.Len64(x))
			case *Term:
				return norm(symLen(x))
			}
			return nil
		},
		"math/bits.Len": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			switch x := a[0].(type) {
			case uint64:
				return uint64(bits.Len64(x))
			case *Term:
				return norm(symLen(x))
			}
			return nil
		},
		"math/bits.TrailingZeros64": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return uint64(bits.TrailingZeros64(in.concv(a[0])))
		},
		"math/bits.Reverse64": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return bits.Reverse64(in.concv(a[0]))
		},
		"math/bits.Mul64": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			x, ok1 := a[0].(uint64)
			y, ok2 := a[1].(uint64)
			if ok1 && ok2 {
				h, l := bits.Mul64(x, y)
				return Tuple{h, l}
			}
			h, l := in.mul64(toTerm(a[0], 64), toTerm(a[1], 64))
			return Tuple{norm(h), norm(l)}
		},
		"math/bits.Add64": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y, c := toTerm(a[0], 64), toTerm(a[1], 64), toTerm(a[2], 64)
			s := tAdd(tAdd(x, y), c)
			one := tConst(64, 1)
			o := tOr(tAnd(x, y), tAnd(tOr(x, y), tNotBV(s)))
			return Tuple{norm(s), norm(tAnd(tLshr(o, tConst(64, 63)), one))}
		},
		"fmt.Sprintf":        func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "fmt" },
		"fmt.Sprint":         func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "fmt" },
		"fmt.Println":        func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{uint64(0), Iface{}} },
		"runtime.NumCPU":     func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return uint64(in.numCPU()) },
		"runtime.GOMAXPROCS": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return uint64(in.numCPU()) },
		"(*sync.WaitGroup).Add": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.ensureSched()
			in.wg(a[0].(Ptr)).n += int(int64(a[1].(uint64)))
			return nil
		},
		"(*sync.WaitGroup).Done": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.ensureSched()
			w := in.wg(a[0].(Ptr))
			w.n--
			if w.n < 0 {
				rtPanic("sync: negative WaitGroup counter")
			}
			g := in.sched.cur
			w.vc = joinVC(w.vc, g.vc)
			g.tick()
			return nil
		},
		"(*sync.WaitGroup).Wait": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.ensureSched()
			w := in.wg(a[0].(Ptr))
			in.block(func() bool { return w.n == 0 })
			in.sched.cur.join(w.vc)
			return nil
		},
		"(*sync.WaitGroup).Go": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.ensureSched()
			w := in.wg(a[0].(Ptr))
			w.n++
			cl := a[1].(*Closure)
			in.goStart(func() Value {
				in.call(nil, cl.fn, nil, cl.bind)
				w.n--
				w.vc = joinVC(w.vc, in.sched.cur.vc)
				in.sched.cur.tick()
				return nil
			})
			return nil
		},
		"(*sync.Mutex).Lock":   func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.lock(a[0].(Ptr)) },
		"(*sync.Mutex).Unlock": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.unlock(a[0].(Ptr)) },
		"(*sync.Once).Do": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			k := fmt.Sprintf("once%d/%d", p.obj.id, p.off)
			if in.path.names[k] == 0 {
				in.path.names[k] = 1
				cl := a[1].(*Closure)
				in.call(fr, cl.fn, nil, cl.bind)
			}
			return nil
		},
		"sort.Search": nil,
	}
	delete(externs, "sort.Search")
}

func (in *Interp) numCPU() int { return 2 }

var wgs = map[string]*wgState{}

func (in *Interp) wg(p Ptr) *wgState {
	k := fmt.Sprintf("wg%d/%d", p.obj.id, p.off)
	w := wgs[k]
	if w == nil {
		w = &wgState{}
		wgs[k] = w
	}
	return w
}
func joinVC(a, b []int) []int {
	for i, v := range b {
		for len(a) <= i {
			a = append(a, 0)
		}
		if a[i] < v {
			a[i] = v
		}
	}
	return a
}

func (in *Interp) lock(p Ptr) Value {
	in.ensureSched()
	w := in.wg(p)
	in.block(func() bool { return w.n == 0 })
	w.n = 1
	in.sched.cur.join(w.vc)
	return nil
}
func (in *Interp) unlock(p Ptr) Value {
	w := in.wg(p)
	w.n = 0
	w.vc = joinVC(w.vc, in.sched.cur.vc)
	in.sched.cur.tick()
	return nil
}

// provable reports that c holds on the whole current path.
func (in *Interp) provable(c *Term) bool {
	if c == tTrue {
		return true
	}
	r, _ := checkInc(append(append([]*Term(nil), in.path.pc...), tNot(c)), nil)
	return r == rUnsat
}

// mul64 is the full 128-bit product.
func (in *Interp) mul64(x, y *Term) (h, l *Term) {
	l = tMul(x, y)
	lim := tConst(64, 1<<32)
	if in.provable(tBAnd(tUlt(x, lim), tUlt(y, lim))) {
		return tConst(64, 0), l
	}
	lo := func(t *Term) *Term { return tZext(64, tExtract(t, 0, 32)) }
	hi := func(t *Term) *Term { return tZext(64, tExtract(t, 32, 32)) }
	x0, x1, y0, y1 := lo(x), hi(x), lo(y), hi(y)
	t := tAdd(tMul(x1, y0), hi(tMul(x0, y0)))
	w := tAdd(lo(t), tMul(x0, y1))
	return tAdd(tAdd(tMul(x1, y1), hi(t)), hi(w)), l
}

func symLen(x *Term) *Term {
	r := tConst(64, 0)
	for i := 0; i < x.w; i++ {
		r = tIte(tEq(tExtract(x, i, 1), tConst(1, 1)), tConst(64, uint64(i+1)), r)
	}
	return r
}

func (in *Interp) concv(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *Term:
		return in.concretize(x)
	}
	panic(unsupported("concv"))
}

var formIDMap = map[string]int{}

func formIDOf(f *Form) int {
	k := f.key()
	if i, ok := formIDMap[k]; ok {
		return i
	}
	i := len(formIDMap) + 1
	formIDMap[k] = i
	return i
}

func getFreeAtom(name string) *FAtom {
	k := "F" + name
	if a, ok := fatoms[k]; ok {
		return a
	}
	a := &FAtom{id: nextFAtom, free: name}
	nextFAtom++
	fatoms[k] = a
	return a
}

func fma(a, b, c Value) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	z, ok3 := c.(float64)
	if ok1 && ok2 && ok3 {
		return math.FMA(x, y, z)
	}
	if isFPTerm(a) || isFPTerm(b) || isFPTerm(c) {
		return norm(mk(OFFma, wFP, 0, "", toFP(a), toFP(b), toFP(c)))
	}
	return normForm(formLin(formMul(toForm(a), toForm(b)), 1, toForm(c), 1))
}

// ---- harness intrinsics ----

func (in *Interp) concreteOr(name string, w int) uint64 {
	// concrete mode: read the value from the model
	n := in.uniq(name)
	return in.cfg.Model[n] & mask(w)
}

func (in *Interp) nd(name string, w int) Value {
	if !in.cfg.Symbolic {
		return in.concreteOr(name, w)
	}
	return in.nondet(name, w)
}

func (in *Interp) bitVal(name string, w int) Value {
	if !in.cfg.Symbolic {
		return in.concreteOr(name, w) & 1
	}
	return norm(tZext(w, in.nondet(name, 1)))
}

var nextOH = 1
var ohCache = map[string]int{}

func (in *Interp) oneHot(name string, n, w int) []Value {
	out := make([]Value, n)
	if !in.cfg.Symbolic {
		for i := range out {
			out[i] = in.concreteOr(name, w) & 1
		}
		return out
	}
	var ts []*Term
	for range out {
		t := in.nondet(name, 1)
		ts = append(ts, t)
	}
	gk := ts[0].name
	g, ok := ohCache[gk]
	if !ok {
		g = nextOH
		nextOH++
		ohCache[gk] = g
	}
	for i, t := range ts {
		t.oh, t.ohix = g, i
		out[i] = norm(tZext(w, t))
	}
	for i := range ts {
		for j := 0; j < i; j++ {
			in.addPC(tNot(tBAnd(tEq(tConst(1, 1), ts[i]), tEq(tConst(1, 1), ts[j]))))
		}
	}
	return out
}

func mkSliceVal(in *Interp, vals []Value, bytes int) Slice {
	o := in.newObj(len(vals), bytes, "nd")
	copy(o.cells, vals)
	return Slice{o, 0, len(vals), len(vals), 1}
}

func (in *Interp) obligate(cond, a, b *Term, msg string) {
	in.path.obl = append(in.path.obl, obligation{cond, a, b, msg})
}

func nearCond(a, b *Term, tol int) *Term {
	w := a.w
	if tol < 0 {
		return tEq(a, b)
	}
	d := tSub(a, b)
	if tol >= w-2 {
		return tTrue
	}
	lim := uint64(1) << uint(tol)
	return tNot(tUlt(tConst(w, 2*lim), tAdd(d, tConst(w, lim))))
}

func (in *Interp) obligateNear(x, y *Term, tol int, msg string) {
	c := tEq(x, y)
	if c != tTrue {
		d := tSub(x, y)
		if len(digits) > 0 {
			d = resolveDigits(canonShr(d))
		}
		if d.isConst() && d.c == 0 {
			c = tTrue
		} else if d2 := splitSubst(d); d2 != d && d2.isConst() && d2.c == 0 {
			c = tTrue
		} else if d3 := canonShr(d); d3.isConst() && d3.c == 0 {
			c = tTrue
		} else {
			d = d2
			if d3 != d && len(polyOf(d3)) < len(polyOf(d2)) {
				d = d3
			}
			if debugOn {
				fmt.Fprintf(os.Stderr, "residual %s: %s\n", msg, d.short(4))
				if os.Getenv("VSYM_DEBUG") == "3" {
					for _, m := range d.poly {
						fmt.Fprintf(os.Stderr, "  %x", m.c)
						for _, a := range m.m.atoms {
							fmt.Fprint(os.Stderr, " * ", a.short(3))
						}
						fmt.Fprintln(os.Stderr)
					}
					os.Exit(1)
				}
			}
			if linBound(d, tol) {
				curRes.BySolver++
				in.obligate(tTrue, nil, nil, msg)
				return
			}
			c = nearCond(d, tConst(d.w, 0), tol)
			for _, e := range errVars(d) {
				in.addPC(nearCond(e, tConst(e.w, 0), errBound[e]))
			}
		}
	}
	in.obligate(c, x, y, msg)
}

func str(v Value) string { s, _ := v.(string); return s }

func init() {
	harnessExt = map[string]extFn{
		"vSymbolic": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.cfg.Symbolic },
		"vMust": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.must(toBoolTerm(a[0]), str(a[1]))
			return nil
		},
		"vU64":  func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.nd(str(a[0]), 64) },
		"vU32":  func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.nd(str(a[0]), 32) },
		"vByte": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.nd(str(a[0]), 8) },
		"vInt":  func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.nd(str(a[0]), 64) },
		"vT": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.nd(str(a[0]), typeArgWidth(fn))
		},
		"vBit": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.bitVal(str(a[0]), typeArgWidth(fn))
		},
		"vOneHot": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			w := typeArgWidth(fn)
			return mkSliceVal(in, in.oneHot(str(a[0]), in.intArg(a[1]), w), w/8)
		},
		"vBool": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if !in.cfg.Symbolic {
				return in.concreteOr(str(a[0]), 1) == 1
			}
			t := in.nondet(str(a[0]), 1)
			return norm(tEq(tConst(1, 1), t))
		},
		"vFloat": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if !in.cfg.Symbolic {
				return math.Float64frombits(in.concreteOr(str(a[0]), 64))
			}
			t := in.nondet(str(a[0]), 64)
			if in.cfg.FP {
				return norm(mk(OFFromBits, wFP, 0, "", t))
			}
			f := atomForm(getFreeAtom(t.name))
			fbitsForm[t.name] = f
			return f
		},
		// vReal: an arbitrary real, natively ((v as int24)/1024)
		"vReal": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if !in.cfg.Symbolic {
				x := in.concreteOr(str(a[0]), 64)
				return float64(int64(x<<40)>>40) / 1024
			}
			t := in.nondet(str(a[0]), 64)
			if in.cfg.FP {
				return norm(mk(OFFromBits, wFP, 0, "", t))
			}
			f := atomForm(getFreeAtom(t.name))
			fbitsForm[t.name] = f
			return f
		},
		"vChoose": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			n := in.intArg(a[1])
			nm := in.uniq(str(a[0]))
			if !in.cfg.Symbolic {
				return in.cfg.Model[nm]
			}
			v := in.choose(n)
			in.path.choices[nm] = uint64(v)
			return uint64(v)
		},
		"vAssume": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.assume(toBoolTerm(a[0]), curRes)
			return nil
		},
		"vAssert": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.obligate(toBoolTerm(a[0]), nil, nil, str(a[1]))
			return nil
		},
		"vAll": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			c, s := tTrue, a[0].(Slice)
			for i := 0; i < s.len; i++ {
				c = tBAnd(c, toBoolTerm(s.obj.cells[s.off+i]))
			}
			return norm(c)
		},
		"vAny": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			c, s := tFalse, a[0].(Slice)
			for i := 0; i < s.len; i++ {
				c = tBOr(c, toBoolTerm(s.obj.cells[s.off+i]))
			}
			return norm(c)
		},
		"vEqT": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			w := typeArgWidth(fn)
			x, y := toTerm(a[0], w), toTerm(a[1], w)
			in.obligateNear(x, y, int(int64(a[2].(uint64))), str(a[3]))
			return nil
		},
		"vEqF": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return vEqF(in, a)
		},
		"vObserve": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if w, _, ok := intInfo(fn.Signature.Params().At(1).Type()); ok {
				in.path.obs = append(in.path.obs, observation{in.uniq("obs:" + str(a[0])), toTerm(a[1], w), int(int64(a[2].(uint64)))})
			}
			return nil
		},
		"vCover": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			c := toBoolTerm(a[0])
			nm := str(a[1])
			if _, ok := curRes.Covers[nm]; !ok {
				curRes.Covers[nm] = false
			}
			if !curRes.Covers[nm] && c != tFalse {
				r, _ := checkInc(append(append([]*Term(nil), in.path.pc...), c), nil)
				if r == rUnknown {
					r, _, _ = solveFresh(append(append([]*Term(nil), in.path.pc...), c), in.cfg.Timeout)
				}
				if r != rUnsat {
					curRes.Covers[nm] = true
				}
			}
			return nil
		},
		"vPanics": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) (ret Value) {
			cl := a[0].(*Closure)
			d := in.depth
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(goPanic); ok {
						in.depth = d
						ret = true
						return
					}
					panic(r)
				}
			}()
			in.call(fr, cl.fn, nil, cl.bind)
			return false
		},
		"vEnd": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { panic(pathAbort{"end"}) },
		"vSchedules": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.ensureSched()
			in.sched.races = true
			in.sched.fork = a[0].(bool)
			return nil
		},
		"vNoRace": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			m := ""
			if in.sched != nil {
				m = in.sched.raceMsg
			}
			in.obligate(tBool(m == ""), nil, nil, "no data race: "+m)
			return nil
		},
		"vConc": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return uint64(in.intArg(a[0]))
		},
		// vRed rewrites a value to its reduced polynomial form (same value).
		"vRed": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			x := toTerm(a[0], typeArgWidth(fn))
			if x.isConst() {
				return a[0]
			}
			if len(digits) > 0 {
				x = resolveDigits(canonShr(x))
			}
			return norm(splitSubst(x))
		},
		"vRealDecomp": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return nil
		},
	}
}

func vEqF(in *Interp, a []Value) Value {
	x, y := a[0], a[1]
	msg := str(a[3])
	fx, ok1 := x.(float64)
	fy, ok2 := y.(float64)
	if ok1 && ok2 {
		tol := a[2].(float64)
		in.obligate(tBool(fx == fy || math.Abs(fx-fy) <= tol), nil, nil, msg)
		return nil
	}
	if isFPTerm(x) || isFPTerm(y) {
		in.obligate(tEqFPBits(toFP(x), toFP(y)), nil, nil, msg)
		return nil
	}
	d := formLin(toForm(x), 1, toForm(y), -1)
	mx := 0.0
	for _, f := range []*Form{toForm(x), toForm(y)} {
		for _, t := range f.t {
			mx = math.Max(mx, math.Abs(t.c))
		}
	}
	bad := false
	for _, t := range d.t {
		if math.Abs(t.c) > 1e-9*mx && math.Abs(t.c) > 1e-12 {
			bad = true
		}
	}
	if !bad {
		in.obligate(tTrue, nil, nil, msg)
		return nil
	}
	// two different polynomials over the reals: separated by the solver in
	// linear/non-linear real arithmetic
	r := formSeparable(d)
	if r == rUnsat {
		in.obligate(tTrue, nil, nil, msg)
	} else {
		in.obligate(tFalse, nil, nil, msg)
	}
	return nil
}

func tEqFPBits(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return tBAnd(fCmp(OFLe, a, b), fCmp(OFLe, b, a))
}
