package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is a list of harness runs sharing one loaded program.
type Job struct {
	Mode      string
	Pkgs      []string
	Harnesses []string
	Tier      string
	Budget    float64 // seconds per harness
}

func workerMain(args []string) {
	var job Job
	b, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(b, &job)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if r := os.Getenv("VERIF_DIR"); r != "" {
		verifDir = r
	}
	t0 := time.Now()
	pr, err := loadProgram(job.Pkgs, job.Mode)
	if err != nil {
		out, _ := json.Marshal(map[string]string{"error": err.Error()})
		os.WriteFile(args[1], out, 0644)
		return
	}
	if os.Getenv("VSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "load", time.Since(t0))
	}
	hs, err := allHarnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if f := os.Getenv("VSYM_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	var results []*HResult
	for _, name := range job.Harnesses {
		for _, h := range hs {
			if h.Name == name {
				r := runHarness(pr, h, job)
				results = append(results, r)
				isKnown := false
				for _, k := range loadKnown() {
					isKnown = isKnown || k.Harness == name
				}
				if len(r.Cex) > 0 && !isKnown {
					os.WriteFile(args[1]+".cex", []byte("1"), 0644)
				}
				out, _ := json.Marshal(map[string]interface{}{"results": results})
				os.WriteFile(args[1], out, 0644)
			}
		}
	}
	out, _ := json.Marshal(map[string]interface{}{"results": results})
	os.WriteFile(args[1], out, 0644)
	killInc()
}

func optInt(h HarnessInfo, tier, k string, def int) int {
	for _, key := range []string{k + "." + tier, k} {
		if v, ok := h.Opts[key]; ok {
			n, err := strconv.Atoi(v)
			if err == nil {
				return n
			}
		}
	}
	return def
}

func resetTerms() {
	terms = map[termKey]*Term{}
	polys = map[string]*Term{}
	monos = map[string]*Mono{}
	monoMulCache = map[mulKey]*Mono{}
	nextID, nextMono = 1, 1
	allTerms = []*Term{nil}
	tTrue = mk(OBConst, 0, 1, "")
	tFalse = mk(OBConst, 0, 0, "")
	fatoms = map[string]*FAtom{}
	fmonos = map[string]*FMono{}
	fmulCache = map[[2]*FMono]*FMono{}
	nextFAtom, nextFMono = 1, 1
	formIDMap = map[string]int{}
	fbitsForm = map[string]*Form{}
	ohCache = map[string]int{}
	digits = map[*Term]*digitInfo{}
	digitOf = map[*Term]*digitInfo{}
	errBound = map[*Term]int{}
	pickCache = map[string]uint64{}
	killInc()
}

func runHarness(pr *Program, h HarnessInfo, job Job) *HResult {
	resetTerms()
	stats = SolverStats{}
	res := &HResult{Harness: h.Name, Mode: job.Mode, Covers: map[string]bool{}, CoverModels: map[string]map[string]uint64{}, Funcs: map[string]bool{}, AsmFuncs: map[string]bool{}, Stubs: map[string]int{}}
	curRes = res
	t0 := time.Now()
	sp := pr.pkgs[h.Pkg]
	fn := sp.Func(h.Name)
	if fn == nil {
		res.Incomplete = append(res.Incomplete, "harness function not found")
		return res
	}
	cfg := &RunCfg{Harness: h.Name, Mode: job.Mode, Asm: job.Mode == "asm", Symbolic: true,
		MaxSteps: int64(optInt(h, job.Tier, "steps", 400)) * 1000000,
		MaxPaths: optInt(h, job.Tier, "paths", 20000),
		Timeout:  time.Duration(optInt(h, job.Tier, "timeout", 60)) * time.Second,
		Budget:   time.Duration(job.Budget * float64(time.Second)),
		FP:       h.Opts["fp"] == "1", RealDecomp: h.Opts["realdecomp"] == "1", RealRNG: h.Opts["realrng"] == "1",
		RealCDT: h.Opts["realcdt"] == "1",
		AbsMul:  h.Opts["absmul"] == "1",
		AbsDiv:  h.Opts["absdiv"] == "1",
	}
	var asm *AsmDB
	if job.Mode != "purego" {
		var err error
		asm, err = loadAsm()
		if err != nil {
			res.Incomplete = append(res.Incomplete, "asm parse: "+err.Error())
			return res
		}
	}
	stack := [][]int{nil}
	funcs := map[*ssa.Function]*cfunc{}
	visited := map[*ssa.Function]bool{}
	ext := map[*ssa.Function]extFn{}
	for len(stack) > 0 {
		if res.Paths >= cfg.MaxPaths || (cfg.Budget > 0 && time.Since(t0) > cfg.Budget) {
			res.MaxPathsHit = true
			res.Incomplete = append(res.Incomplete, fmt.Sprintf("path/time budget reached with %d paths pending", len(stack)))
			break
		}
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		in := &Interp{prog: pr.prog, funcs: funcs, globals: map[*ssa.Global]*Object{}, inited: map[*ssa.Package]bool{}, asm: asm, cfg: cfg, visited: visited, asmUsed: res.AsmFuncs, extMemo: ext}
		in.path = &Path{prefix: prefix, pcSet: map[*Term]bool{}, names: map[string]int{}, choices: map[string]uint64{}}
		wgs = map[string]*wgState{}
		runPath(in, fn, res)
		res.Paths++
		res.Steps += in.steps
		stack = append(stack, in.path.alts...)
		if len(res.Cex) >= 3 {
			break
		}
		if len(res.Incomplete) > 20 {
			break
		}
	}
	for f := range visited {
		if f.Pkg != nil && isRepoPkg(f.Pkg.Pkg.Path()) || f.Origin() != nil && f.Origin().Pkg != nil && isRepoPkg(f.Origin().Pkg.Pkg.Path()) {
			k := fnKey(f)
			if !strings.Contains(k, ".VH_") && !strings.Contains(k, ".vh") && !strings.Contains(k, "init") {
				res.Funcs[k] = true
			}
		}
	}
	res.Stats = stats
	res.Wall = time.Since(t0).Seconds()
	res.Terms = nextID
	return res
}

func runPath(in *Interp, fn *ssa.Function, res *HResult) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case pathAbort:
			if x.why == "assume" {
				return
			}
		case goPanic:
			in.flushSafe(res)
			// uncaught panic is a violation
			res.Obligations++
			rr, m, name := in.modelOfPC()
			if rr == rUnsat {
				return
			}
			c := in.mkCex(m, "unexpected panic: "+x.msg)
			c.Solver = name
			if os.Getenv("VSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "panic:", x.msg, x.v)
			}
			res.Cex = append(res.Cex, c)
			return
		case unsupportedErr:
			in.flushSafe(res)
			res.Incomplete = append(res.Incomplete, "unsupported: "+x.msg)
			if os.Getenv("VSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "unsupported:", x.msg)
				if os.Getenv("VSYM_DEBUG") == "2" {
					debug.PrintStack()
				}
			}
			return
		default:
			if os.Getenv("VSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "engine panic:", r)
				debug.PrintStack()
			}
			res.Incomplete = append(res.Incomplete, fmt.Sprintf("engine: %v", r))
			return
		}
		in.flush(res)
		in.witness(res)
	}()
	in.call(nil, fn, nil, nil)
}

func (in *Interp) flushSafe(res *HResult) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				res.Incomplete = append(res.Incomplete, "unsupported: "+u.msg)
				return
			}
			panic(r)
		}
	}()
	in.flush(res)
}

// witness records a satisfying assignment of a completed path (vacuity check)
// with the values the encoding predicts for the observations.
func (in *Interp) witness(res *HResult) {
	n := len(res.Witness)
	if n >= 4 && res.Paths%37 != 0 || n >= 12 {
		return
	}
	r, m, _ := in.modelOfPC()
	if r == rUnsat {
		res.Vacuous++
		return
	}
	if r != rSat {
		return
	}
	// diversify unconstrained inputs
	m2 := Model{}
	cands := make(Model)
	for k, v := range m {
		m2[k] = v
		cands[k] = v
	}
	seed := uint64(n+1)*0x9E3779B97F4A7C15 + 12345
	for _, t := range in.path.nondet {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		v := seed & mask(t.w)
		if t.w == 0 {
			v = seed & 1
		}
		cands[t.name] = v
	}
	ev := newEval(cands)
	ok := true
	for _, c := range in.path.pc {
		if !safeEvalBool(ev, c) {
			ok = false
			break
		}
	}
	if ok {
		m2 = cands
	}
	c := in.mkCex(m2, "witness")
	ev = newEval(m2)
	c.Obs = map[string]uint64{}
	c.Tols = map[string]int{}
	for _, o := range in.path.obs {
		if dependsOnStub(o.t) {
			continue
		}
		c.Obs[o.name] = ev.eval(o.t)
		c.Tols[o.name] = o.tol
	}
	res.Witness = append(res.Witness, c)
	if len(res.Samples) < 3 {
		b, _ := json.Marshal(c.Values)
		s := string(b)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		res.Samples = append(res.Samples, h2s(c)+" "+s)
	}
}

func h2s(c Cex) string { return c.Harness + "/" + c.Mode }

func safeEvalBool(ev *evaluator, c *Term) (b bool) {
	defer func() {
		if recover() != nil {
			b = false
		}
	}()
	return ev.eval(c) == 1
}

var depMemo = map[*Term]bool{}

func dependsOnStub(t *Term) bool {
	if v, ok := depMemo[t]; ok {
		return v
	}
	r := false
	if (t.op == OVar || t.op == OBVar) && (strings.HasPrefix(t.name, "rng:") || strings.HasPrefix(t.name, "digit:") || strings.HasPrefix(t.name, "derr:")) {
		r = true
	}
	for _, a := range t.args {
		r = r || dependsOnStub(a)
	}
	for _, m := range t.poly {
		for _, a := range m.m.atoms {
			r = r || dependsOnStub(a)
		}
	}
	depMemo[t] = r
	return r
}
