package main

import (
	"fmt"
	"math"
)

func fConst(f float64) *Term { return mk(OFConst, wFP, math.Float64bits(f), "") }
func fval(t *Term) float64   { return math.Float64frombits(t.c) }

func fFromS(t *Term) *Term {
	if t.isConst() {
		return fConst(float64(sx(t.c, t.w)))
	}
	return mk(OFFromS, wFP, 0, "", t)
}
func fFromU(t *Term) *Term {
	if t.isConst() {
		return fConst(float64(t.c))
	}
	return mk(OFFromU, wFP, 0, "", t)
}
func fBin(op Op, a, b *Term) *Term {
	if a.op == OFConst && b.op == OFConst {
		x, y := fval(a), fval(b)
		switch op {
		case OFAdd:
			return fConst(x + y)
		case OFSub:
			return fConst(x - y)
		case OFMul:
			return fConst(x * y)
		case OFDiv:
			return fConst(x / y)
		}
	}
	return mk(op, wFP, 0, "", a, b)
}
func fUn(op Op, c uint64, a *Term) *Term {
	t := mk(op, wFP, c, "", a)
	if a.op == OFConst {
		e := newEval(nil)
		return mk(OFConst, wFP, e.eval1(t), "")
	}
	return t
}
func fCmp(op Op, a, b *Term) *Term {
	if a.op == OFConst && b.op == OFConst {
		x, y := fval(a), fval(b)
		switch op {
		case OFLt:
			return tBool(x < y)
		case OFLe:
			return tBool(x <= y)
		case OFEq:
			return tBool(x == y)
		}
	}
	return mk(op, 0, 0, "", a, b)
}

// fToS converts to a signed w-bit integer with the amd64 behaviour
// (out of range gives 1<<(w-1)).
func fToS(a *Term, w int) *Term {
	t := mk(OFToS, w, 0, "", a)
	if a.op == OFConst {
		return tConst(w, newEval(nil).eval1(t))
	}
	return t
}

func goF2S(f float64, w int) uint64 {
	lim := math.Ldexp(1, w-1)
	if f != f || f >= lim || f <= -lim-1 {
		return uint64(1) << uint(w-1)
	}
	return uint64(int64(f)) & mask(w)
}

func evalFP(e *evaluator, t *Term) uint64 {
	f := func(i int) float64 {
		x := t.args[i]
		if x.op == OFConst {
			return fval(x)
		}
		return math.Float64frombits(e.eval(x))
	}
	r := math.Float64bits
	switch t.op {
	case OFConst:
		return t.c
	case OFFromS:
		return r(float64(sx(e.eval(t.args[0]), t.args[0].w)))
	case OFFromU:
		return r(float64(e.eval(t.args[0])))
	case OFFromBits:
		return e.eval(t.args[0])
	case OFAdd:
		return r(f(0) + f(1))
	case OFSub:
		return r(f(0) - f(1))
	case OFMul:
		return r(f(0) * f(1))
	case OFDiv:
		return r(f(0) / f(1))
	case OFNeg:
		return r(-f(0))
	case OFAbs:
		return r(math.Abs(f(0)))
	case OFSqrt:
		return r(math.Sqrt(f(0)))
	case OFFma:
		return r(math.FMA(f(0), f(1), f(2)))
	case OFRound:
		switch t.c {
		case 0:
			return r(math.Round(f(0)))
		case 1:
			return r(math.RoundToEven(f(0)))
		case 2:
			return r(math.Floor(f(0)))
		case 3:
			return r(math.Ceil(f(0)))
		case 4:
			return r(math.Trunc(f(0)))
		}
	case OFLt:
		return b2u(f(0) < f(1))
	case OFLe:
		return b2u(f(0) <= f(1))
	case OFEq:
		return b2u(f(0) == f(1))
	case OFToS:
		return goF2S(f(0), t.w)
	}
	panic(fmt.Sprintf("evalFP op %d", t.op))
}

func (p *printer) fpBody(t *Term) {
	r := func(i int) string { return p.ref(t.args[i]) }
	bin := func(op string) { fmt.Fprintf(p.sb, "(%s RNE %s %s)", op, r(0), r(1)) }
	switch t.op {
	case OFFromS:
		fmt.Fprintf(p.sb, "((_ to_fp 11 53) RNE %s)", r(0))
	case OFFromU:
		fmt.Fprintf(p.sb, "((_ to_fp_unsigned 11 53) RNE %s)", r(0))
	case OFFromBits:
		fmt.Fprintf(p.sb, "((_ to_fp 11 53) %s)", r(0))
	case OFAdd:
		bin("fp.add")
	case OFSub:
		bin("fp.sub")
	case OFMul:
		bin("fp.mul")
	case OFDiv:
		bin("fp.div")
	case OFNeg:
		fmt.Fprintf(p.sb, "(fp.neg %s)", r(0))
	case OFAbs:
		fmt.Fprintf(p.sb, "(fp.abs %s)", r(0))
	case OFSqrt:
		fmt.Fprintf(p.sb, "(fp.sqrt RNE %s)", r(0))
	case OFFma:
		fmt.Fprintf(p.sb, "(fp.fma RNE %s %s %s)", r(0), r(1), r(2))
	case OFRound:
		fmt.Fprintf(p.sb, "(fp.roundToIntegral %s %s)", []string{"RNA", "RNE", "RTN", "RTP", "RTZ"}[t.c], r(0))
	case OFLt:
		fmt.Fprintf(p.sb, "(fp.lt %s %s)", r(0), r(1))
	case OFLe:
		fmt.Fprintf(p.sb, "(fp.leq %s %s)", r(0), r(1))
	case OFEq:
		fmt.Fprintf(p.sb, "(fp.eq %s %s)", r(0), r(1))
	case OFToS:
		// in range: fp.to_sbv ; otherwise the amd64 "integer indefinite" value
		lim := fConst(math.Ldexp(1, t.w-1))
		nlim := fConst(-math.Ldexp(1, t.w-1))
		lo := fmt.Sprintf("(fp.leq %s %s)", p.ref(nlim), r(0))
		if t.w < 52 {
			lo = fmt.Sprintf("(fp.lt %s %s)", p.ref(fConst(-math.Ldexp(1, t.w-1)-1)), r(0))
		}
		fmt.Fprintf(p.sb, "(ite (and (fp.lt %s %s) %s) ((_ fp.to_sbv %d) RTZ %s) (_ bv%d %d))", r(0), p.ref(lim), lo, t.w, r(0), uint64(1)<<uint(t.w-1), t.w)
	default:
		panic(fmt.Sprintf("print op %d", t.op))
	}
}
