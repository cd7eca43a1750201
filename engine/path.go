package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// RunCfg configures the execution of one harness.
type RunCfg struct {
	Harness       string
	Pkg           string // package path suffix
	Asm           bool   // interpret the AVX2 assembly
	Mode          string
	FP            bool // IEEE bit-precise floats through the SMT FP theory
	Symbolic      bool
	MaxSteps      int64
	MaxPaths      int
	Timeout       time.Duration // per obligation query
	Budget        time.Duration // whole harness
	FloatEqOpaque bool
	ExactNoise    bool
	RealDecomp    bool
	RealCDT       bool // interpret the tabulated Gaussian sampler itself
	AbsMul        bool // integer polynomial products under their contract
	AbsDiv        bool // rounded division by powers of two under its contract
	RealRNG       bool
	Model         Model // for concrete runs
	Races         bool
}

type obligation struct {
	cond *Term
	a, b *Term // when an equality
	msg  string
}

// Path is one execution.
type Path struct {
	pc      []*Term
	pcSet   map[*Term]bool
	prefix  []int
	dec     []int
	alts    [][]int
	obl     []obligation
	names   map[string]int
	nondet  []*Term
	choices map[string]uint64
	obs     []observation
	stubs   int
	seeded  map[*Object]*stream // uniform samplers with a known seed
	streams map[string][]*Term

	pcModel    Model
	pcModelLen int
	pcSupport  map[*Term]bool
	sampled    []*Term
	noiseOf    map[*Term]float64
}

type observation struct {
	name string
	t    *Term
	tol  int
}

// HResult aggregates a harness run.
type HResult struct {
	Harness, Mode string
	Paths         int
	Vacuous       int
	Obligations   int
	Discharged    int
	BySolver      int
	Trivial       int
	Unknown       int
	Incomplete    []string
	Cex           []Cex
	Witness       []Cex
	Covers        map[string]bool
	CoverModels   map[string]map[string]uint64
	Funcs         map[string]bool
	AsmFuncs      map[string]bool
	Steps         int64
	Stubs         map[string]int
	Stats         SolverStats
	Wall          float64
	Samples       []string
	MaxPathsHit   bool
	Terms         int
	Assumes       int
}

type Cex struct {
	Harness string            `json:"harness"`
	Mode    string            `json:"mode"`
	Msg     string            `json:"msg"`
	Values  map[string]uint64 `json:"values"`
	Obs     map[string]uint64 `json:"obs,omitempty"`
	Tols    map[string]int    `json:"tols,omitempty"`
	Solver  string            `json:"solver,omitempty"`
	Cover   string            `json:"cover,omitempty"`
}

func (in *Interp) uniq(name string) string {
	n := in.path.names[name]
	in.path.names[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func (in *Interp) nondet(name string, w int) *Term {
	t := tVar(w, in.uniq(name))
	in.path.nondet = append(in.path.nondet, t)
	return t
}

func (in *Interp) addPC(c *Term) {
	if c == tTrue {
		return
	}
	if !in.path.pcSet[c] {
		in.path.pcSet[c] = true
		in.path.pc = append(in.path.pc, c)
	}
}

func (in *Interp) decide(c *Term) bool {
	if c == tTrue {
		return true
	}
	if c == tFalse {
		return false
	}
	p := in.path
	if p.pcSet[c] {
		return true
	}
	nc := tNot(c)
	if p.pcSet[nc] {
		return false
	}
	if !in.cfg.Symbolic {
		panic(unsupported("symbolic branch in concrete mode"))
	}
	k := len(p.dec)
	if k < len(p.prefix) {
		d := p.prefix[k]
		p.dec = append(p.dec, d)
		if d == 1 {
			in.addPC(c)
			return true
		}
		in.addPC(nc)
		return false
	}
	rt, _ := checkInc(append(append([]*Term(nil), p.pc...), c), nil)
	rf := rSat
	if rt != rUnsat {
		rf, _ = checkInc(append(append([]*Term(nil), p.pc...), nc), nil)
	}
	switch {
	case rt == rUnsat:
		p.dec = append(p.dec, 0)
		in.addPC(nc)
		return false
	case rf == rUnsat:
		p.dec = append(p.dec, 1)
		in.addPC(c)
		return true
	}
	p.alts = append(p.alts, append(append([]int(nil), p.dec...), 0))
	p.dec = append(p.dec, 1)
	in.addPC(c)
	return true
}

// choose forks over 0..n-1.
func (in *Interp) choose(n int) int {
	p := in.path
	k := len(p.dec)
	if k < len(p.prefix) {
		d := p.prefix[k]
		p.dec = append(p.dec, d)
		return d
	}
	for i := n - 1; i > 0; i-- {
		p.alts = append(p.alts, append(append([]int(nil), p.dec...), i))
	}
	p.dec = append(p.dec, 0)
	return 0
}

// concretize forks over the feasible values of t.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.c
	}
	for i := 0; i < 5000; i++ {
		// a value is needed only if we are past the recorded prefix; the value
		// sequence must be reproducible, so derive it from the solver
		// deterministically and cache it by (path condition, term).
		v, ok := in.pickValue(t)
		if !ok {
			panic(unsupported("concretize: no value"))
		}
		if in.decide(tEq(t, tConst(t.w, v))) {
			return v
		}
	}
	panic(unsupported("concretize: too many values"))
}

var pickCache = map[string]uint64{}

func (in *Interp) pickValue(t *Term) (uint64, bool) {
	key := fmt.Sprintf("%d|", t.id)
	ids := make([]int, 0, len(in.path.pc))
	for _, c := range in.path.pc {
		ids = append(ids, c.id)
	}
	sort.Ints(ids)
	key += fmt.Sprint(ids)
	if v, ok := pickCache[key]; ok {
		return v, true
	}
	r, m := checkInc(in.path.pc, []*Term{t})
	if r != rSat {
		return 0, false
	}
	name := t.name
	if t.op != OVar {
		name = fmt.Sprintf("t%d", t.id)
	}
	pickCache[key] = m[name]
	return m[name], true
}

func (in *Interp) assume(c *Term, res *HResult) {
	in.flush(res)
	res.Assumes++
	if c == tFalse {
		panic(pathAbort{"assume"})
	}
	if c == tTrue {
		return
	}
	if !in.cfg.Symbolic {
		panic(pathAbort{"assume"})
	}
	r, _ := checkInc(append(append([]*Term(nil), in.path.pc...), c), nil)
	if r == rUnsat {
		panic(pathAbort{"assume"})
	}
	in.addPC(c)
}

func termSize(t *Term) int { return len(t.poly) }

// flush discharges the pending obligations of the current path.
func (in *Interp) flush(res *HResult) {
	p := in.path
	obs := p.obl
	p.obl = nil
	if len(obs) == 0 {
		return
	}
	res.Obligations += len(obs)
	var hard []obligation
	var triv []obligation
	for _, o := range obs {
		if o.cond == tTrue {
			res.Trivial++
			if o.a != nil && termSize(o.a) < 2000 && len(triv) < 400 {
				triv = append(triv, o)
			} else {
				res.Discharged++
			}
		} else {
			hard = append(hard, o)
		}
	}
	// equal normal forms: the solver still confirms that no assignment separates the sides
	if len(triv) > 0 {
		seen := map[*Term]bool{}
		var parts []*Term
		for _, o := range triv {
			if o.a.isConst() || seen[o.a] {
				continue
			}
			seen[o.a] = true
			parts = append(parts, o.a)
		}
		if len(parts) > 0 {
			r := checkDistinctSelf(parts)
			if r == rUnsat {
				res.BySolver += len(triv)
			}
		}
		res.Discharged += len(triv)
	}
	if len(hard) == 0 {
		return
	}
	if in.cfg.Symbolic && in.hunt(hard, res) {
		return
	}
	neg := tFalse
	for _, o := range hard {
		neg = tBOr(neg, tNot(o.cond))
	}
	var r int
	var m Model
	var name string
	if neg == tTrue {
		r, m, name = in.modelOfPC()
	} else {
		r, m = checkInc(append(append([]*Term(nil), p.pc...), neg), p.nondet)
		name = "z3"
		if r == rUnknown {
			r, m, name = solveFresh(append(append([]*Term(nil), p.pc...), neg), in.obTimeout(curRes))
		}
	}
	if os.Getenv("VSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "hard: %d obligations, first %q result %d solver %s: %s\n", len(hard), hard[0].msg, r, name, hard[0].cond.short(6))
	}
	switch r {
	case rUnsat:
		res.Discharged += len(hard)
		res.BySolver += len(hard)
		return
	case rSat:
		ev := newEval(m)
		for _, o := range hard {
			if ev.eval(o.cond) == 0 {
				c := in.mkCex(m, o.msg)
				c.Solver = name
				res.Cex = append(res.Cex, c)
				// look for a second, more extreme model as well
				return
			}
		}
		res.Incomplete = append(res.Incomplete, "solver model does not falsify any obligation: "+hard[0].msg)
		return
	}
	// unknown: individually
	for _, o := range hard {
		if len(hard) == 1 {
			res.Unknown++
			res.Incomplete = append(res.Incomplete, "solver unknown: "+o.msg)
			return
		}
		r, m, name := solveFresh(append(append([]*Term(nil), p.pc...), tNot(o.cond)), in.obTimeout(res))
		switch r {
		case rUnsat:
			res.Discharged++
			res.BySolver++
		case rSat:
			c := in.mkCex(m, o.msg)
			c.Solver = name
			res.Cex = append(res.Cex, c)
			return
		default:
			res.Unknown++
			res.Incomplete = append(res.Incomplete, "solver unknown: "+o.msg)
			if res.Unknown > 6 {
				return
			}
		}
	}
}

func (in *Interp) modelOfPC() (int, Model, string) {
	r, m := checkInc(in.path.pc, in.path.nondet)
	if r == rSat && m == nil {
		m = Model{}
	}
	if r == rUnknown {
		return solveFresh(in.path.pc, in.cfg.Timeout)
	}
	return r, m, "z3"
}

func (in *Interp) mkCex(m Model, msg string) Cex {
	c := Cex{Harness: in.cfg.Harness, Mode: in.cfg.Mode, Msg: msg, Values: map[string]uint64{}}
	for _, t := range in.path.nondet {
		c.Values[t.name] = m[t.name]
	}
	for k, v := range in.path.choices {
		c.Values[k] = v
	}
	return c
}

// checkDistinctSelf asks whether any of the (already normalised) pairs differ.
func checkDistinctSelf(parts []*Term) int {
	neg := make([]*Term, 0, len(parts))
	_ = neg
	if inc == nil {
		inc = startInc()
	}
	return checkRaw(parts)
}

func (t *Term) short(d int) string {
	if t == nil {
		return "nil"
	}
	switch t.op {
	case OConst, OBConst:
		return fmt.Sprintf("%x", t.c)
	case OVar, OBVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	if t.op == OPoly {
		var sb strings.Builder
		sb.WriteString("(")
		for i, m := range t.poly {
			if i > 8 {
				fmt.Fprintf(&sb, " ...%d", len(t.poly))
				break
			}
			fmt.Fprintf(&sb, " +%x", m.c)
			for _, a := range m.m.atoms {
				sb.WriteString("*" + a.short(d-1))
			}
		}
		return sb.String() + ")"
	}
	s := fmt.Sprintf("[op%d/%d:%x", t.op, t.w, t.c)
	for _, a := range t.args {
		s += " " + a.short(d-1)
	}
	return s + "]"
}

// must checks that cond is satisfiable on this path: for example that a sampled
// mask can be non-zero.
func (in *Interp) must(c *Term, msg string) {
	in.flush(curRes)
	res := curRes
	res.Obligations++
	if c == tTrue {
		res.Trivial++
		res.Discharged++
		return
	}
	r := rUnsat
	if c != tFalse && in.search(func(ev *evaluator) bool { return ev.eval(c) != 0 }, 6) {
		r = rSat
	} else if c != tFalse {
		r, _ = checkInc(append(append([]*Term(nil), in.path.pc...), c), nil)
	}
	switch r {
	case rSat:
		res.Discharged++
		res.BySolver++
	case rUnsat:
		_, m, _ := in.modelOfPC()
		x := in.mkCex(m, msg)
		x.Solver = "z3"
		res.Cex = append(res.Cex, x)
	default:
		res.Unknown++
		res.Incomplete = append(res.Incomplete, "solver unknown: "+msg)
	}
}

// obTimeout shortens the solver limit once a harness has undecided obligations.
func (in *Interp) obTimeout(res *HResult) time.Duration {
	if res != nil && res.Unknown >= 2 && in.cfg.Timeout > 10*time.Second {
		return 10 * time.Second
	}
	return in.cfg.Timeout
}
