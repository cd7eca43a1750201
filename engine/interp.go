package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions ----

type opnd struct {
	slot int // >=0 register
	val  Value
	g    *ssa.Global
}

type cinstr struct {
	in     ssa.Instruction
	dst    int
	a      []opnd
	w      int // operand width
	signed bool
	kind   int // binop class
	aux    int
	aux2   int
	fn     *ssa.Function
}

const (
	kInt = iota
	kFloat
	kComplex
	kString
	kBool
	kOther
)

type cblock struct {
	ins  []cinstr
	phis []cinstr
	b    *ssa.BasicBlock
	pure int // 0 unknown 1 pure 2 not
}

type cfunc struct {
	fn     *ssa.Function
	nregs  int
	blocks []*cblock
}

type frame struct {
	cf      *cfunc
	regs    []Value
	defers  []func()
	result  Value
	caller  *frame
	rec     *goPanic // in-flight panic for recover()
	curIn   ssa.Instruction
	recOver bool
}

type Interp struct {
	prog    *ssa.Program
	funcs   map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*Object
	inited  map[*ssa.Package]bool
	nobj    int
	path    *Path
	steps   int64
	depth   int
	asm     *AsmDB
	cfg     *RunCfg
	sched   *Sched
	visited map[*ssa.Function]bool
	asmUsed map[string]bool
	top     *frame
	extMemo map[*ssa.Function]extFn
	pkgOf   map[string]*ssa.Package
}

type extFn func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value

func (in *Interp) newObj(n int, cb int, name string) *Object {
	in.nobj++
	return &Object{id: in.nobj, cells: make([]Value, n), cellBytes: cb, name: name}
}

func (in *Interp) allocType(t types.Type, name string) *Object {
	n := cellCount(t)
	o := in.newObj(n, leafBytes(t), name)
	zeroCells(t, o.cells)
	return o
}

func (in *Interp) compile(fn *ssa.Function) *cfunc {
	if cf, ok := in.funcs[fn]; ok {
		return cf
	}
	if fn.Blocks == nil {
		return nil
	}
	cf := &cfunc{fn: fn}
	slots := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) int { slots[v] = n; n++; return n - 1 }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	cf.nregs = n
	mkop := func(v ssa.Value) opnd {
		if s, ok := slots[v]; ok {
			return opnd{slot: s}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{slot: -1, val: constVal(x)}
		case *ssa.Function:
			return opnd{slot: -1, val: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{slot: -1, val: &Closure{bi: x}}
		case *ssa.Global:
			return opnd{slot: -2, g: x}
		}
		panic(unsupported(fmt.Sprintf("operand %T", v)))
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			if _, ok := i.(*ssa.Phi); ok {
				for _, e := range i.(*ssa.Phi).Edges {
					ci.a = append(ci.a, mkop(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			}
			var rands [16]*ssa.Value
			for _, r := range i.Operands(rands[:0]) {
				if r == nil || *r == nil {
					ci.a = append(ci.a, opnd{slot: -1})
					continue
				}
				ci.a = append(ci.a, mkop(*r))
			}
			switch x := i.(type) {
			case *ssa.BinOp:
				classify(&ci, x.X.Type())
				if x.Op == token.SHL || x.Op == token.SHR {
					w, s, _ := intInfo(x.Y.Type())
					ci.aux = w
					if s {
						ci.aux2 = 1
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					ci.aux = cellCount(x.Type())
				} else {
					classify(&ci, x.X.Type())
				}
			case *ssa.Store:
				ci.aux = cellCount(x.Val.Type())
			case *ssa.FieldAddr:
				st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				ci.aux = fieldOffset(st, x.Field)
			case *ssa.Field:
				st := x.X.Type().Underlying().(*types.Struct)
				ci.aux = fieldOffset(st, x.Field)
				ci.aux2 = cellCount(x.Type())
				ci.w = cellCount(x.X.Type())
			case *ssa.IndexAddr:
				switch u := x.X.Type().Underlying().(type) {
				case *types.Slice:
					ci.aux = cellCount(u.Elem())
				case *types.Pointer:
					a := u.Elem().Underlying().(*types.Array)
					ci.aux = cellCount(a.Elem())
					ci.aux2 = int(a.Len())
				}
				ci.w, ci.signed, _ = intInfo(x.Index.Type())
			case *ssa.Index:
				ci.w, ci.signed, _ = intInfo(x.Index.Type())
			}
			cb.ins = append(cb.ins, ci)
		}
		cf.blocks = append(cf.blocks, cb)
	}
	in.funcs[fn] = cf
	return cf
}

func classify(ci *cinstr, t types.Type) {
	switch {
	case isFloat(t):
		ci.kind = kFloat
		if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			ci.aux2 = 32
		}
	case isComplex(t):
		ci.kind = kComplex
	case isString(t):
		ci.kind = kString
	case isBoolT(t):
		ci.kind = kBool
	default:
		if w, s, ok := intInfo(t); ok {
			ci.kind, ci.w, ci.signed = kInt, w, s
		} else {
			ci.kind = kOther
		}
	}
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.Underlying().(*types.Tuple); ok {
			return nil
		}
		return zeroValue(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	i := b.Info()
	switch {
	case i&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case i&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		w, _, _ := intInfo(t)
		if u, ok := constant.Uint64Val(v); ok {
			return u & mask(w)
		}
		s, _ := constant.Int64Val(v)
		return uint64(s) & mask(w)
	case i&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case i&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case i&types.IsString != 0:
		return constant.StringVal(c.Value)
	}
	panic(unsupported("const " + t.String()))
}

func (in *Interp) global(g *ssa.Global) Value {
	o, ok := in.globals[g]
	if !ok {
		// lazily initialise the owning package
		if g.Pkg != nil && !in.inited[g.Pkg] {
			in.initPkg(g.Pkg)
			if o, ok = in.globals[g]; ok {
				return Ptr{o, 0}
			}
		}
		o = in.allocType(g.Type().Underlying().(*types.Pointer).Elem(), g.Name())
		in.globals[g] = o
		in.globalOverride(g, o)
	}
	return Ptr{o, 0}
}

func (in *Interp) globalOverride(g *ssa.Global, o *Object) {
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "golang.org/x/sys/cpu" && g.Name() == "X86" {
		st := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "HasAVX", "HasAVX2", "HasFMA":
				o.cells[fieldOffset(st, i)] = in.cfg.Asm
			}
		}
	}
}

var skipInit = map[string]bool{
	"golang.org/x/sys/cpu": true, "runtime": true, "internal/cpu": true, "os": true, "syscall": true,
	"sync": true, "reflect": true, "time": true, "unicode": true, "internal/godebug": true, "crypto/rand": true,
	"math/rand": true, "internal/poll": true, "fmt": true,
}

func (in *Interp) initPkg(p *ssa.Package) {
	if in.inited[p] {
		return
	}
	in.inited[p] = true
	if skipInit[p.Pkg.Path()] || strings.HasPrefix(p.Pkg.Path(), "crypto/") || strings.HasPrefix(p.Pkg.Path(), "internal/") {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	in.call(nil, f, nil, nil)
}

func (in *Interp) get(fr *frame, o *opnd) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.slot == -2 {
		return in.global(o.g)
	}
	return o.val
}

// call runs fn with args.
func (in *Interp) call(caller *frame, fn *ssa.Function, args []Value, bind []Value) Value {
	if ext := in.extern(fn); ext != nil {
		return ext(in, caller, fn, args)
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn == fn.Pkg.Func("init") && caller != nil {
		// package initialisers are run lazily; only the packages under test are chained eagerly
		if !isRepoPkg(fn.Pkg.Pkg.Path()) {
			return nil
		}
		in.initPkg2(fn.Pkg)
		return nil
	}
	cf := in.compile(fn)
	if cf == nil {
		if in.asm != nil {
			if in.asm.has(fn) {
				in.asmUsed[fn.Name()] = true
				in.asm.call(in, fn, args)
				return nil
			}
		}
		panic(unsupported("no body: " + fn.String()))
	}
	if !in.visited[fn] {
		in.visited[fn] = true
	}
	in.depth++
	if in.depth > 2000 {
		panic(unsupported("call depth"))
	}
	fr := &frame{cf: cf, regs: make([]Value, cf.nregs), caller: caller}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], bind)
	defer func(d int) { in.depth = d }(in.depth - 1)
	if fn.Recover != nil || hasDefer(cf) {
		return in.runWithDefers(fr)
	}
	return in.run(fr)
}

func (in *Interp) initPkg2(p *ssa.Package) {
	if in.inited[p] {
		return
	}
	in.initPkg(p)
}

func isRepoPkg(path string) bool { return strings.HasPrefix(path, "github.com/sp301415/tfhe-go") }

var deferMemo = map[*cfunc]bool{}

func hasDefer(cf *cfunc) bool {
	if v, ok := deferMemo[cf]; ok {
		return v
	}
	r := false
	for _, b := range cf.blocks {
		for i := range b.ins {
			if _, ok := b.ins[i].in.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	deferMemo[cf] = r
	return r
}

func (in *Interp) runWithDefers(fr *frame) (res Value) {
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			r := recover()
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			fr.rec = &gp
		}()
		res = in.run(fr)
		done = true
	}()
	if !done {
		// panicking: run remaining defers
		in.runDefers(fr)
		if fr.rec != nil {
			panic(*fr.rec)
		}
		// recovered
		if fr.cf.fn.Recover != nil {
			for bi, b := range fr.cf.fn.Blocks {
				_ = bi
				_ = b
			}
			return in.runFrom(fr, fr.cf.fn.Recover)
		}
		return zeroValue(fr.cf.fn.Signature.Results())
	}
	return res
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d()
	}
}

func (in *Interp) run(fr *frame) Value { return in.runBlocks(fr, 0) }

func (in *Interp) runFrom(fr *frame, b *ssa.BasicBlock) Value {
	// Recover block is not part of Blocks list ordering guarantee; it is in Blocks by index
	return in.runBlocks(fr, b.Index)
}

var traceOn = os.Getenv("VSYM_TRACE") != ""

func (in *Interp) runBlocks(fr *frame, start int) Value {
	cf := fr.cf
	bi := start
	prev := -1
	for {
		cb := cf.blocks[bi]
		if len(cb.phis) > 0 && prev >= 0 {
			pi := -1
			for k, p := range cb.b.Preds {
				if p.Index == prev {
					pi = k
					break
				}
			}
			if len(cb.phis) == 1 {
				ph := &cb.phis[0]
				fr.regs[ph.dst] = in.get(fr, &ph.a[pi])
			} else {
				tmp := make([]Value, len(cb.phis))
				for k := range cb.phis {
					tmp[k] = in.get(fr, &cb.phis[k].a[pi])
				}
				for k := range cb.phis {
					fr.regs[cb.phis[k].dst] = tmp[k]
				}
			}
		}
		in.steps += int64(len(cb.ins))
		if in.steps > in.cfg.MaxSteps {
			panic(unsupported("step limit"))
		}
		next := -1
		for k := range cb.ins {
			ci := &cb.ins[k]
			switch x := ci.in.(type) {
			case *ssa.If:
				c := in.get(fr, &ci.a[0])
				switch b := c.(type) {
				case bool:
					if b {
						next = cb.b.Succs[0].Index
					} else {
						next = cb.b.Succs[1].Index
					}
				case *Term:
					if j, ok := in.tryIfConv(fr, cb, b); ok {
						// phis of the join were assigned; continue after them
						bi = j
						next = -2
					} else if in.decide(b) {
						next = cb.b.Succs[0].Index
					} else {
						next = cb.b.Succs[1].Index
					}
				}
			case *ssa.Jump:
				next = cb.b.Succs[0].Index
			case *ssa.Return:
				switch len(ci.a) {
				case 0:
					return nil
				case 1:
					return in.get(fr, &ci.a[0])
				}
				out := make(Tuple, len(ci.a))
				for i := range ci.a {
					out[i] = in.get(fr, &ci.a[i])
				}
				return out
			case *ssa.Panic:
				v := in.get(fr, &ci.a[0])
				panic(goPanic{v, panicMsg(v)})
			default:
				fr.curIn = x
				in.exec(fr, ci)
			}
		}
		if next == -2 {
			prev = -1 // phis already assigned
			continue
		}
		if next < 0 {
			panic(unsupported("fallthrough"))
		}
		prev = bi
		bi = next
	}
}

func panicMsg(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(string); ok {
			return s
		}
		return fmt.Sprintf("%v", i.t)
	}
	return "panic"
}

// tryIfConv merges pure diamonds/triangles under a symbolic condition.
func (in *Interp) tryIfConv(fr *frame, cb *cblock, c *Term) (int, bool) {
	cf := fr.cf
	t, f := cb.b.Succs[0], cb.b.Succs[1]
	pureJump := func(b *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
		if len(b.Preds) != 1 {
			return nil, false
		}
		x := cf.blocks[b.Index]
		if len(x.phis) > 0 || len(x.ins) == 0 || len(x.ins) > 12 {
			return nil, false
		}
		if _, ok := x.ins[len(x.ins)-1].in.(*ssa.Jump); !ok {
			return nil, false
		}
		for i := range x.ins[:len(x.ins)-1] {
			if !pureInstr(&x.ins[i]) {
				return nil, false
			}
		}
		return b.Succs[0], true
	}
	var join *ssa.BasicBlock
	tj, tp := pureJump(t)
	fj, fp := pureJump(f)
	var tPred, fPred int
	switch {
	case tp && fp && tj == fj:
		join, tPred, fPred = tj, t.Index, f.Index
	case tp && tj == f:
		join, tPred, fPred = f, t.Index, cb.b.Index
		fp = false
	case fp && fj == t:
		join, tPred, fPred = t, cb.b.Index, f.Index
		tp = false
	default:
		return 0, false
	}
	jb := cf.blocks[join.Index]
	if len(jb.phis) == 0 {
		return 0, false
	}
	// both phi values must be mergeable scalars; run both sides speculatively
	if tp && tPred == t.Index {
		for i := range cf.blocks[t.Index].ins[:len(cf.blocks[t.Index].ins)-1] {
			in.exec(fr, &cf.blocks[t.Index].ins[i])
		}
	}
	if fp && fPred == f.Index {
		for i := range cf.blocks[f.Index].ins[:len(cf.blocks[f.Index].ins)-1] {
			in.exec(fr, &cf.blocks[f.Index].ins[i])
		}
	}
	ti, fi := -1, -1
	for k, p := range join.Preds {
		if p.Index == tPred {
			ti = k
		}
		if p.Index == fPred {
			fi = k
		}
	}
	vals := make([]Value, len(jb.phis))
	for k := range jb.phis {
		a, b := in.get(fr, &jb.phis[k].a[ti]), in.get(fr, &jb.phis[k].a[fi])
		v, ok := mergeVal(c, a, b, jb.phis[k].in.(*ssa.Phi).Type())
		if !ok {
			return 0, false
		}
		vals[k] = v
	}
	for k := range jb.phis {
		fr.regs[jb.phis[k].dst] = vals[k]
	}
	return join.Index, true
}

func mergeVal(c *Term, a, b Value, t types.Type) (Value, bool) {
	if w, _, ok := intInfo(t); ok {
		return norm(tIte(c, toTerm(a, w), toTerm(b, w))), true
	}
	if isBoolT(t) {
		return norm(tIte(c, toBoolTerm(a), toBoolTerm(b))), true
	}
	if isFloat(t) {
		x, ok1 := a.(*Term)
		y, ok2 := b.(*Term)
		if fa, ok := a.(float64); ok {
			x, ok1 = fConst(fa), true
		}
		if fb, ok := b.(float64); ok {
			y, ok2 = fConst(fb), true
		}
		if ok1 && ok2 {
			return norm(tIte(c, x, y)), true
		}
	}
	return nil, false
}

func pureInstr(ci *cinstr) bool {
	switch x := ci.in.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			if ci.kind == kFloat {
				return true
			}
			return len(ci.a) == 2 && ci.a[1].slot == -1 && ci.a[1].val != Value(uint64(0))
		case token.SHL, token.SHR:
			return ci.aux2 == 0 || ci.a[1].slot == -1
		}
		return true
	case *ssa.UnOp:
		return x.Op == token.SUB || x.Op == token.NOT || x.Op == token.XOR
	case *ssa.Convert:
		_, _, ok := intInfo(x.Type())
		_, _, ok2 := intInfo(x.X.Type())
		return ok && ok2
	case *ssa.ChangeType:
		return true
	}
	return false
}

func asInt(v Value) int { return int(int64(v.(uint64))) }

func (in *Interp) exec(fr *frame, ci *cinstr) {
	switch x := ci.in.(type) {
	case *ssa.BinOp:
		a, b := in.get(fr, &ci.a[0]), in.get(fr, &ci.a[1])
		fr.regs[ci.dst] = in.binop(x.Op, ci, a, b, x)
	case *ssa.UnOp:
		a := in.get(fr, &ci.a[0])
		switch x.Op {
		case token.MUL:
			p := a.(Ptr)
			fr.regs[ci.dst] = in.load(p, ci.aux)
		case token.ARROW:
			v, ok := in.chanRecv(a.(*ChanVal), x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				fr.regs[ci.dst] = Tuple{v, ok}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			fr.regs[ci.dst] = in.unop(x.Op, ci, a)
		}
	case *ssa.Store:
		in.store(in.get(fr, &ci.a[0]).(Ptr), in.get(fr, &ci.a[1]), ci.aux)
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		fr.regs[ci.dst] = Ptr{in.allocType(t, x.Comment), 0}
	case *ssa.FieldAddr:
		p := in.get(fr, &ci.a[0]).(Ptr)
		if p.obj == nil {
			rtPanic("nil pointer dereference")
		}
		fr.regs[ci.dst] = Ptr{p.obj, p.off + ci.aux}
	case *ssa.Field:
		v := in.get(fr, &ci.a[0])
		if ag, ok := v.(Agg); ok && ci.w != 1 {
			if ci.aux2 == 1 {
				fr.regs[ci.dst] = ag[ci.aux]
			} else {
				fr.regs[ci.dst] = ag[ci.aux : ci.aux+ci.aux2 : ci.aux+ci.aux2]
			}
		} else {
			fr.regs[ci.dst] = v
		}
	case *ssa.IndexAddr:
		base := in.get(fr, &ci.a[0])
		iv := in.get(fr, &ci.a[1])
		var n int
		var obj *Object
		var off int
		switch b := base.(type) {
		case Slice:
			n, obj, off = b.len, b.obj, b.off
		case Ptr:
			if b.obj == nil {
				rtPanic("nil pointer dereference")
			}
			n, obj, off = ci.aux2, b.obj, b.off
		}
		i := in.index(iv, ci.w, ci.signed, n)
		fr.regs[ci.dst] = Ptr{obj, off + i*ci.aux}
	case *ssa.Index:
		base := in.get(fr, &ci.a[0])
		iv := in.get(fr, &ci.a[1])
		switch b := base.(type) {
		case string:
			i := in.index(iv, ci.w, ci.signed, len(b))
			fr.regs[ci.dst] = uint64(b[i])
		default:
			at := x.X.Type().Underlying().(*types.Array)
			i := in.index(iv, ci.w, ci.signed, int(at.Len()))
			es := cellCount(at.Elem())
			ag, ok := base.(Agg)
			if !ok {
				fr.regs[ci.dst] = base
			} else if es == 1 {
				fr.regs[ci.dst] = ag[i]
			} else {
				fr.regs[ci.dst] = ag[i*es : (i+1)*es : (i+1)*es]
			}
		}
	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(in.get(fr, &ci.a[0]), x.X.Type(), x.Type(), fr)
	case *ssa.ChangeType:
		fr.regs[ci.dst] = in.get(fr, &ci.a[0])
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = in.get(fr, &ci.a[0])
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{x.X.Type(), in.get(fr, &ci.a[0])}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(in.get(fr, &ci.a[0]).(Iface), x)
	case *ssa.Extract:
		fr.regs[ci.dst] = in.get(fr, &ci.a[0]).(Tuple)[x.Index]
	case *ssa.Slice:
		fr.regs[ci.dst] = in.slice(fr, x, ci)
	case *ssa.MakeSlice:
		st := x.Type().Underlying().(*types.Slice)
		n, c := in.intArg(in.get(fr, &ci.a[0])), in.intArg(in.get(fr, &ci.a[1]))
		fr.regs[ci.dst] = in.makeSlice(st.Elem(), n, c)
	case *ssa.MakeMap:
		fr.regs[ci.dst] = &MapVal{m: map[interface{}]*mapEnt{}, vt: x.Type().Underlying().(*types.Map).Elem()}
	case *ssa.MakeChan:
		fr.regs[ci.dst] = &ChanVal{cap: in.intArg(in.get(fr, &ci.a[0]))}
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for i := range x.Bindings {
			c.bind = append(c.bind, in.get(fr, &ci.a[1+i]))
		}
		fr.regs[ci.dst] = c
	case *ssa.Call:
		fr.regs[ci.dst] = in.doCall(fr, &x.Call, ci)
	case *ssa.Defer:
		f := in.prepCall(fr, &x.Call, ci)
		fr.defers = append(fr.defers, func() { f() })
	case *ssa.Go:
		f := in.prepCall(fr, &x.Call, ci)
		in.goStart(f)
	case *ssa.RunDefers:
		in.runDefers(fr)
	case *ssa.Send:
		in.chanSend(in.get(fr, &ci.a[0]).(*ChanVal), in.get(fr, &ci.a[1]))
	case *ssa.Lookup:
		fr.regs[ci.dst] = in.lookup(in.get(fr, &ci.a[0]), in.get(fr, &ci.a[1]), x)
	case *ssa.MapUpdate:
		m := in.get(fr, &ci.a[0]).(*MapVal)
		if m == nil {
			rtPanic("assignment to entry in nil map")
		}
		k := in.mapKey(in.get(fr, &ci.a[1]))
		v := in.get(fr, &ci.a[2])
		if e, ok := m.m[k]; ok {
			e.v = v
		} else {
			m.m[k] = &mapEnt{k, v}
			m.keys = append(m.keys, k)
		}
	case *ssa.Range:
		switch m := in.get(fr, &ci.a[0]).(type) {
		case *MapVal:
			it := &mapIter{m: m}
			if m != nil {
				it.keys = append([]Value(nil), m.keys...)
			}
			fr.regs[ci.dst] = it
		case string:
			fr.regs[ci.dst] = &strIter{s: m}
		}
	case *ssa.Next:
		switch it := in.get(fr, &ci.a[0]).(type) {
		case *mapIter:
			for {
				if it.i >= len(it.keys) {
					tt := x.Type().(*types.Tuple)
					z := Tuple{false, nil, nil}
					for q := 1; q < 3; q++ {
						if b, ok := tt.At(q).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
							z[q] = zeroValue(tt.At(q).Type())
						}
					}
					fr.regs[ci.dst] = z
					break
				}
				k := it.keys[it.i]
				it.i++
				if e, ok := it.m.m[k]; ok {
					fr.regs[ci.dst] = Tuple{true, e.k, e.v}
					break
				}
			}
		case *strIter:
			if it.i >= len(it.s) {
				fr.regs[ci.dst] = Tuple{false, uint64(0), uint64(0)}
			} else {
				for j, r := range it.s[it.i:] {
					if j == 0 {
						fr.regs[ci.dst] = Tuple{true, uint64(it.i), uint64(r)}
						it.i += len(string(r))
					}
					break
				}
			}
		}
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, &ci.a[0]).(Slice)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if s.len < int(at.Len()) {
			rtPanic("slice to array pointer: length")
		}
		fr.regs[ci.dst] = Ptr{s.obj, s.off}
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = in.convert(in.get(fr, &ci.a[0]), x.X.Type(), x.Type(), fr)
	default:
		panic(unsupported(fmt.Sprintf("instr %T", ci.in)))
	}
}

type mapIter struct {
	m    *MapVal
	keys []Value
	i    int
}
type strIter struct {
	s string
	i int
}

func (in *Interp) mapKey(v Value) Value {
	switch x := v.(type) {
	case *Term:
		return in.concretize(x)
	case Iface:
		return in.mapKey(x.v)
	}
	return v
}

func (in *Interp) lookup(m, k Value, x *ssa.Lookup) Value {
	switch mm := m.(type) {
	case string:
		w, s, _ := intInfo(x.Index.Type())
		i := in.index(k, w, s, len(mm))
		return uint64(mm[i])
	case *MapVal:
		var v Value
		found := false
		if mm != nil {
			if e, ok := mm.m[in.mapKey(k)]; ok {
				v, found = e.v, true
			}
		}
		if !found {
			v = zeroValue(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{v, found}
		}
		return v
	}
	panic(unsupported("lookup"))
}

func (in *Interp) intArg(v Value) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		return int(int64(in.concretize(x)))
	case nil:
		return 0
	}
	panic(unsupported(fmt.Sprintf("intArg %T", v)))
}

func (in *Interp) makeSlice(elem types.Type, n, c int) Value {
	if n < 0 || n > 1<<40 {
		rtPanic("makeslice: len out of range")
	}
	if c < n || c > 1<<40 {
		rtPanic("makeslice: cap out of range")
	}
	es := cellCount(elem)
	if c*es > 1<<26 {
		panic(unsupported("huge allocation"))
	}
	o := in.newObj(c*es, leafBytes(elem), "make")
	if es == 1 {
		z := zeroScalar1(elem)
		for i := range o.cells {
			o.cells[i] = z
		}
	} else {
		for i := 0; i < c; i++ {
			zeroCells(elem, o.cells[i*es:(i+1)*es])
		}
	}
	return Slice{o, 0, n, c, es}
}

func zeroScalar1(t types.Type) Value {
	var c [1]Value
	zeroCells(t, c[:])
	return c[0]
}

// index checks bounds and returns a concrete index.
func (in *Interp) index(v Value, w int, signed bool, n int) int {
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if signed {
			i = sx(x, w)
		}
		if i < 0 || i >= int64(n) {
			rtPanic("index out of range [%d] with length %d", i, n)
		}
		return int(i)
	case *Term:
		t := x
		if signed {
			t = tSext(64, t)
		} else {
			t = tZext(64, t)
		}
		if !in.decide(tUlt(t, tConst(64, uint64(n)))) {
			rtPanic("index out of range (symbolic) with length %d", n)
		}
		return int(in.concretize(x))
	}
	panic(unsupported("index"))
}

func (in *Interp) load(p Ptr, n int) Value {
	if p.obj == nil {
		rtPanic("nil pointer dereference")
	}
	if p.off < 0 || p.off+n > len(p.obj.cells) {
		if n == 0 {
			return Agg{}
		}
		rtPanic("memory read out of bounds of %s[%d]+%d (len %d)", p.obj.name, p.off, n, len(p.obj.cells))
	}
	if n == 1 {
		if in.sched != nil {
			in.sched.access(p.obj, p.off, false)
		}
		return p.obj.cells[p.off]
	}
	if in.sched != nil {
		for i := 0; i < n; i++ {
			in.sched.access(p.obj, p.off+i, false)
		}
	}
	a := make(Agg, n)
	copy(a, p.obj.cells[p.off:p.off+n])
	return a
}

func (in *Interp) store(p Ptr, v Value, n int) {
	if p.obj == nil {
		rtPanic("nil pointer dereference")
	}
	if n == 0 {
		return
	}
	if p.off < 0 || p.off+n > len(p.obj.cells) {
		rtPanic("memory write out of bounds of %s[%d]+%d (len %d)", p.obj.name, p.off, n, len(p.obj.cells))
	}
	if in.sched != nil {
		for i := 0; i < n; i++ {
			in.sched.access(p.obj, p.off+i, true)
		}
	}
	if n == 1 {
		if a, ok := v.(Agg); ok {
			v = a[0]
		}
		p.obj.cells[p.off] = v
		return
	}
	copy(p.obj.cells[p.off:p.off+n], v.(Agg))
}

func (in *Interp) slice(fr *frame, x *ssa.Slice, ci *cinstr) Value {
	// operands: X, Low, High, Max (nil allowed)
	base := in.get(fr, &ci.a[0])
	k := 1
	opt := func(v ssa.Value) (int, bool) {
		if v == nil {
			k++
			return 0, false
		}
		r := in.intArg(in.get(fr, &ci.a[k]))
		k++
		return r, true
	}
	lo, _ := opt(x.Low)
	hi, hasHi := opt(x.High)
	mx, hasMax := opt(x.Max)
	switch b := base.(type) {
	case string:
		if !hasHi {
			hi = len(b)
		}
		if lo < 0 || hi < lo || hi > len(b) {
			rtPanic("slice bounds out of range")
		}
		return b[lo:hi]
	case Slice:
		if !hasHi {
			hi = b.len
		}
		c := b.cap
		if hasMax {
			if mx < 0 || mx > b.cap {
				rtPanic("slice bounds out of range [::%d] with capacity %d", mx, b.cap)
			}
			c = mx
		}
		if lo < 0 || hi < lo || hi > c {
			rtPanic("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c)
		}
		if b.obj == nil {
			return b
		}
		return Slice{b.obj, b.off + lo*b.es, hi - lo, c - lo, b.es}
	case Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if b.obj == nil {
			rtPanic("nil pointer dereference")
		}
		n := int(at.Len())
		if !hasHi {
			hi = n
		}
		c := n
		if hasMax {
			c = mx
		}
		if lo < 0 || hi < lo || hi > c || c > n {
			rtPanic("slice bounds out of range")
		}
		es := cellCount(at.Elem())
		return Slice{b.obj, b.off + lo*es, hi - lo, c - lo, es}
	}
	panic(unsupported("slice"))
}

func (in *Interp) typeAssert(v Iface, x *ssa.TypeAssert) Value {
	ok := false
	var res Value
	if v.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.t, it)
			res = v
		} else {
			ok = types.Identical(v.t, x.AssertedType)
			res = v.v
		}
	}
	if !ok {
		if !x.CommaOk {
			rtPanic("interface conversion: %v is not %v", v.t, x.AssertedType)
		}
		res = zeroValue(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{res, ok}
	}
	return res
}

func (in *Interp) prepCall(fr *frame, c *ssa.CallCommon, ci *cinstr) func() Value {
	if c.IsInvoke() {
		recv := in.get(fr, &ci.a[0]).(Iface)
		if recv.t == nil {
			rtPanic("nil interface method call")
		}
		fn := in.prog.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(unsupported("method " + c.Method.Name()))
		}
		args := make([]Value, 0, len(ci.a))
		args = append(args, recv.v)
		for i := range c.Args {
			args = append(args, in.get(fr, &ci.a[1+i]))
		}
		return func() Value { return in.call(fr, fn, args, nil) }
	}
	f := in.get(fr, &ci.a[0])
	args := make([]Value, len(c.Args))
	for i := range c.Args {
		args[i] = in.get(fr, &ci.a[1+i])
	}
	cl, _ := f.(*Closure)
	if cl == nil {
		rtPanic("nil function call")
	}
	if cl.bi != nil {
		return func() Value { return in.builtin(fr, cl.bi, args, c) }
	}
	return func() Value { return in.call(fr, cl.fn, args, cl.bind) }
}

func (in *Interp) doCall(fr *frame, c *ssa.CallCommon, ci *cinstr) Value {
	return in.prepCall(fr, c, ci)()
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return uint64(x.len)
		case string:
			return uint64(len(x))
		case *MapVal:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.m))
		case *ChanVal:
			return uint64(len(x.q))
		}
	case "cap":
		if x, ok := args[0].(Slice); ok {
			return uint64(x.cap)
		}
	case "copy":
		d := args[0].(Slice)
		if s, ok := args[1].(string); ok {
			n := len(s)
			if d.len < n {
				n = d.len
			}
			for i := 0; i < n; i++ {
				d.obj.cells[d.off+i] = uint64(s[i])
			}
			return uint64(n)
		}
		s := args[1].(Slice)
		n := d.len
		if s.len < n {
			n = s.len
		}
		if n > 0 {
			if in.sched != nil {
				for i := 0; i < n*d.es; i++ {
					in.sched.access(s.obj, s.off+i, false)
					in.sched.access(d.obj, d.off+i, true)
				}
			}
			copy(d.obj.cells[d.off:d.off+n*d.es], s.obj.cells[s.off:s.off+n*s.es])
		}
		return uint64(n)
	case "append":
		d := args[0].(Slice)
		var src []Value
		var n int
		switch s := args[1].(type) {
		case string:
			n = len(s)
			for i := 0; i < n; i++ {
				src = append(src, uint64(s[i]))
			}
		case Slice:
			n = s.len
			if n > 0 {
				src = s.obj.cells[s.off : s.off+n*s.es]
			}
		}
		if n == 0 {
			return d
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		es := cellCount(et)
		if d.len+n <= d.cap {
			copy(d.obj.cells[d.off+d.len*es:], src)
			return Slice{d.obj, d.off, d.len + n, d.cap, es}
		}
		nc := d.cap * 2
		if nc < d.len+n {
			nc = d.len + n
		}
		ns := in.makeSlice(et, d.len+n, nc).(Slice)
		if d.len > 0 {
			copy(ns.obj.cells, d.obj.cells[d.off:d.off+d.len*es])
		}
		copy(ns.obj.cells[d.len*es:], src)
		return ns
	case "delete":
		m := args[0].(*MapVal)
		if m != nil {
			k := in.mapKey(args[1])
			if _, ok := m.m[k]; ok {
				delete(m.m, k)
				for i, q := range m.keys {
					if q == k {
						m.keys = append(append([]Value(nil), m.keys[:i]...), m.keys[i+1:]...)
						break
					}
				}
			}
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				zeroCells(et, x.obj.cells[x.off+i*x.es:x.off+(i+1)*x.es])
			}
		case *MapVal:
			x.m = map[interface{}]*mapEnt{}
			x.keys = nil
		}
		return nil
	case "close":
		args[0].(*ChanVal).closed = true
		return nil
	case "panic":
		panic(goPanic{args[0], panicMsg(args[0])})
	case "recover":
		for f := fr; f != nil; f = f.caller {
			if f.rec != nil {
				v := f.rec.v
				if v == nil {
					v = Iface{types.Typ[types.String], f.rec.msg}
				}
				f.rec = nil
				return v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "real":
		return cpxOf(args[0]).re
	case "imag":
		return cpxOf(args[0]).im
	case "complex":
		return mkCpx(args[0], args[1])
	case "min", "max":
		if w, s, ok := intInfo(c.Args[0].Type()); ok {
			r := toTerm(args[0], w)
			for _, a := range args[1:] {
				y := toTerm(a, w)
				var lt *Term
				if s {
					lt = tSlt(y, r)
				} else {
					lt = tUlt(y, r)
				}
				if b.Name() == "min" {
					r = tIte(lt, y, r)
				} else {
					r = tIte(lt, r, y)
				}
			}
			return norm(r)
		}
		if x, ok := args[0].(float64); ok {
			for _, a := range args[1:] {
				if b.Name() == "min" {
					x = math.Min(x, a.(float64))
				} else {
					x = math.Max(x, a.(float64))
				}
			}
			return x
		}
	case "Sizeof":
		return uint64(stdSizes.Sizeof(c.Args[0].Type()))
	case "Alignof":
		return uint64(stdSizes.Alignof(c.Args[0].Type()))
	case "Add": // unsafe.Add
		p := args[0].(Ptr)
		n := in.intArg(args[1])
		if n == 0 {
			return p
		}
		if p.obj == nil {
			rtPanic("unsafe.Add on nil")
		}
		if p.obj.cellBytes <= 0 || n%p.obj.cellBytes != 0 {
			panic(unsupported("unsafe.Add misaligned on " + p.obj.name))
		}
		return Ptr{p.obj, p.off + n/p.obj.cellBytes}
	case "Slice", "SliceData", "String", "StringData":
		if b.Name() == "SliceData" {
			s := args[0].(Slice)
			return Ptr{s.obj, s.off}
		}
		if b.Name() == "Slice" {
			p := args[0].(Ptr)
			n := in.intArg(args[1])
			et := c.Args[0].Type().Underlying().(*types.Pointer).Elem()
			return Slice{p.obj, p.off, n, n, cellCount(et)}
		}
	case "ssa:wrapnilchk":
		if args[0].(Ptr).obj == nil {
			rtPanic("nil receiver")
		}
		return args[0]
	}
	panic(unsupported("builtin " + b.Name()))
}

func (in *Interp) unop(op token.Token, ci *cinstr, a Value) Value {
	switch op {
	case token.NOT:
		switch x := a.(type) {
		case bool:
			return !x
		case *Term:
			return norm(tNot(x))
		}
	case token.SUB:
		switch x := a.(type) {
		case uint64:
			return -x & mask(ci.w)
		case float64:
			return -x
		case complex128:
			return -x
		case *cpx:
			n := func(v Value) Value {
				if f, ok := v.(float64); ok {
					return -f
				}
				return formMul(toForm(v), fConstForm(-1))
			}
			return mkCpx(n(x.re), n(x.im))
		case *Form:
			return formMul(x, fConstForm(-1))
		case *Term:
			if x.w == wFP {
				return norm(fUn(OFNeg, 0, x))
			}
			return norm(tNeg(x))
		}
	case token.XOR:
		switch x := a.(type) {
		case uint64:
			return ^x & mask(ci.w)
		case *Term:
			return norm(tNotBV(x))
		}
	}
	panic(unsupported(fmt.Sprintf("unop %s on %T", op, a)))
}

func (in *Interp) binop(op token.Token, ci *cinstr, a, b Value, x *ssa.BinOp) Value {
	switch ci.kind {
	case kInt:
		ua, ok1 := a.(uint64)
		ub, ok2 := b.(uint64)
		if ok1 && ok2 {
			return intConc(op, ua, ub, ci)
		}
		return in.intSym(op, a, b, ci)
	case kFloat:
		fa, ok1 := a.(float64)
		fb, ok2 := b.(float64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				fa += fb
			case token.SUB:
				fa -= fb
			case token.MUL:
				fa *= fb
			case token.QUO:
				fa /= fb
			case token.EQL:
				return fa == fb
			case token.NEQ:
				return fa != fb
			case token.LSS:
				return fa < fb
			case token.LEQ:
				return fa <= fb
			case token.GTR:
				return fa > fb
			case token.GEQ:
				return fa >= fb
			}
			if ci.aux2 == 32 {
				fa = float64(float32(fa))
			}
			return fa
		}
		return in.floatSym(op, a, b)
	case kComplex:
		if _, ok := a.(*cpx); ok {
			return in.cpxOp(op, cpxOf(a), cpxOf(b))
		}
		if _, ok := b.(*cpx); ok {
			return in.cpxOp(op, cpxOf(a), cpxOf(b))
		}
		ca, cb := a.(complex128), b.(complex128)
		switch op {
		case token.ADD:
			return ca + cb
		case token.SUB:
			return ca - cb
		case token.MUL:
			return ca * cb
		case token.QUO:
			return ca / cb
		case token.EQL:
			return ca == cb
		case token.NEQ:
			return ca != cb
		}
	case kString:
		sa, sb := a.(string), b.(string)
		switch op {
		case token.ADD:
			return sa + sb
		case token.EQL:
			return sa == sb
		case token.NEQ:
			return sa != sb
		case token.LSS:
			return sa < sb
		case token.GTR:
			return sa > sb
		case token.LEQ:
			return sa <= sb
		case token.GEQ:
			return sa >= sb
		}
	case kBool:
		switch op {
		case token.EQL:
			return norm(tEq(toBoolTerm(a), toBoolTerm(b)))
		case token.NEQ:
			return norm(tNot(tEq(toBoolTerm(a), toBoolTerm(b))))
		case token.AND, token.LAND:
			return norm(tBAnd(toBoolTerm(a), toBoolTerm(b)))
		case token.OR, token.LOR:
			return norm(tBOr(toBoolTerm(a), toBoolTerm(b)))
		}
	case kOther:
		eq := valEq(a, b, x.X.Type())
		if op == token.EQL {
			return norm(eq)
		}
		return norm(tNot(eq))
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T,%T", op, a, b)))
}

func valEq(a, b Value, t types.Type) *Term {
	switch x := a.(type) {
	case Ptr:
		return tBool(x == b.(Ptr))
	case Slice:
		y := b.(Slice)
		if x.obj == nil || y.obj == nil {
			return tBool(x.obj == nil && y.obj == nil)
		}
	case *MapVal:
		return tBool(x == b.(*MapVal))
	case *ChanVal:
		return tBool(x == b.(*ChanVal))
	case *Closure:
		y, _ := b.(*Closure)
		return tBool(x == y)
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return tBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		return valEq(x.v, y.v, x.t)
	case Agg:
		y := b.(Agg)
		r := tTrue
		for i := range x {
			r = tBAnd(r, valEq(x[i], y[i], nil))
		}
		return r
	case uint64:
		switch y := b.(type) {
		case uint64:
			return tBool(x == y)
		case *Term:
			return tEq(tConst(y.w, x), y)
		}
	case *Term:
		switch y := b.(type) {
		case uint64:
			return tEq(tConst(x.w, y), x)
		case *Term:
			return tEq(x, y)
		case bool:
			return tEq(x, tBool(y))
		}
	case bool:
		return tEq(tBool(x), toBoolTerm(b))
	case string:
		return tBool(x == b.(string))
	case float64:
		if y, ok := b.(float64); ok {
			return tBool(x == y)
		}
	}
	panic(unsupported(fmt.Sprintf("== on %T %T", a, b)))
}

func intConc(op token.Token, a, b uint64, ci *cinstr) Value {
	m := mask(ci.w)
	switch op {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO, token.REM:
		if b == 0 {
			rtPanic("integer divide by zero")
		}
		if ci.signed {
			x, y := sx(a, ci.w), sx(b, ci.w)
			if y == -1 {
				if op == token.QUO {
					return uint64(-x) & m
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(x/y) & m
			}
			return uint64(x%y) & m
		}
		if op == token.QUO {
			return a / b
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL, token.SHR:
		if ci.aux2 == 1 && sx(b, ci.aux) < 0 {
			rtPanic("negative shift amount")
		}
		if op == token.SHL {
			if b >= uint64(ci.w) {
				return uint64(0)
			}
			return a << b & m
		}
		if ci.signed {
			if b > 63 {
				b = 63
			}
			return uint64(sx(a, ci.w)>>b) & m
		}
		if b >= uint64(ci.w) {
			return uint64(0)
		}
		return a >> b
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	}
	var lt, eq bool
	eq = a == b
	if ci.signed {
		lt = sx(a, ci.w) < sx(b, ci.w)
	} else {
		lt = a < b
	}
	switch op {
	case token.LSS:
		return lt
	case token.LEQ:
		return lt || eq
	case token.GTR:
		return !lt && !eq
	case token.GEQ:
		return !lt
	}
	panic(unsupported("int op " + op.String()))
}

func (in *Interp) intSym(op token.Token, av, bv Value, ci *cinstr) Value {
	w := ci.w
	a := toTerm(av, w)
	if op == token.SHL || op == token.SHR {
		b := toTerm(bv, ci.aux)
		if ci.aux2 == 1 && !b.isConst() {
			if in.decide(tSlt(b, tConst(b.w, 0))) {
				rtPanic("negative shift amount")
			}
		}
		// normalise count to width w (saturating)
		if b.isConst() {
			c := b.c
			if ci.aux2 == 1 && sx(c, b.w) < 0 {
				rtPanic("negative shift amount")
			}
			if c >= uint64(w) {
				if op == token.SHR && ci.signed {
					return norm(tAshr(a, tConst(w, uint64(w-1))))
				}
				return uint64(0)
			}
			b = tConst(w, c)
		} else if b.w > w {
			big := tNot(tUlt(b, tConst(b.w, uint64(w))))
			b = tIte(big, tConst(w, uint64(w)), tExtract(b, 0, w))
		} else {
			b = tZext(w, b)
		}
		switch {
		case op == token.SHL:
			return norm(tShl(a, b))
		case ci.signed:
			return norm(tAshr(a, b))
		default:
			return norm(tLshr(a, b))
		}
	}
	b := toTerm(bv, w)
	switch op {
	case token.ADD:
		return norm(tAdd(a, b))
	case token.SUB:
		return norm(tSub(a, b))
	case token.MUL:
		return norm(tMul(a, b))
	case token.QUO, token.REM:
		if b.isConst() {
			if b.c == 0 {
				rtPanic("integer divide by zero")
			}
		} else if in.decide(tEq(b, tConst(w, 0))) {
			rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && ci.signed:
			return norm(tSDiv(a, b))
		case op == token.QUO:
			return norm(tUDiv(a, b))
		case ci.signed:
			return norm(tSRem(a, b))
		default:
			return norm(tURem(a, b))
		}
	case token.AND:
		return norm(tAnd(a, b))
	case token.OR:
		return norm(tOr(a, b))
	case token.XOR:
		return norm(tXor(a, b))
	case token.AND_NOT:
		return norm(tAnd(a, tNotBV(b)))
	case token.EQL:
		return norm(tEq(a, b))
	case token.NEQ:
		return norm(tNot(tEq(a, b)))
	}
	lt := func(x, y *Term) *Term {
		if ci.signed {
			return tSlt(x, y)
		}
		return tUlt(x, y)
	}
	switch op {
	case token.LSS:
		return norm(lt(a, b))
	case token.GTR:
		return norm(lt(b, a))
	case token.LEQ:
		return norm(tNot(lt(b, a)))
	case token.GEQ:
		return norm(tNot(lt(a, b)))
	}
	panic(unsupported("sym int op " + op.String()))
}

func toForm(v Value) *Form {
	switch x := v.(type) {
	case float64:
		return fConstForm(x)
	case *Form:
		return x
	}
	panic(unsupported(fmt.Sprintf("toForm %T", v)))
}

func toFP(v Value) *Term {
	switch x := v.(type) {
	case float64:
		return fConst(x)
	case *Term:
		return x
	}
	panic(unsupported(fmt.Sprintf("toFP %T", v)))
}

func normForm(f *Form) Value {
	if c, ok := f.isConst(); ok {
		return c
	}
	return f
}

func isFPTerm(v Value) bool {
	t, ok := v.(*Term)
	return ok && t.w == wFP
}

func (in *Interp) floatSym(op token.Token, a, b Value) Value {
	if isFPTerm(a) || isFPTerm(b) {
		x, y := toFP(a), toFP(b)
		switch op {
		case token.ADD:
			return norm(fBin(OFAdd, x, y))
		case token.SUB:
			return norm(fBin(OFSub, x, y))
		case token.MUL:
			return norm(fBin(OFMul, x, y))
		case token.QUO:
			return norm(fBin(OFDiv, x, y))
		case token.LSS:
			return norm(fCmp(OFLt, x, y))
		case token.LEQ:
			return norm(fCmp(OFLe, x, y))
		case token.GTR:
			return norm(fCmp(OFLt, y, x))
		case token.GEQ:
			return norm(fCmp(OFLe, y, x))
		case token.EQL:
			return norm(fCmp(OFEq, x, y))
		case token.NEQ:
			return norm(tNot(fCmp(OFEq, x, y)))
		}
	}
	x, y := toForm(a), toForm(b)
	switch op {
	case token.ADD:
		return normForm(formLin(x, 1, y, 1))
	case token.SUB:
		return normForm(formLin(x, 1, y, -1))
	case token.MUL:
		return normForm(formMul(x, y))
	case token.QUO:
		if c, ok := y.isConst(); ok && c != 0 {
			return normForm(formMul(x, fConstForm(1/c)))
		}
	case token.EQL, token.NEQ:
		d := formLin(x, 1, y, -1).prune()
		if len(d.t) == 0 {
			return op == token.EQL
		}
		if _, ok := d.isConst(); ok {
			return op == token.NEQ
		}
		if in.cfg.FloatEqOpaque {
			return op == token.NEQ
		}
	}
	panic(unsupported("real-form op " + op.String()))
}

func (in *Interp) inPolyPkg(fr *frame) bool {
	for f := fr; f != nil; f = f.caller {
		fn := f.cf.fn
		if fn.Origin() != nil {
			fn = fn.Origin()
		}
		if fn.Pkg != nil {
			return strings.HasSuffix(fn.Pkg.Pkg.Path(), "math/poly")
		}
	}
	return false
}

func (in *Interp) convert(v Value, from, to types.Type, fr *frame) Value {
	// unsafe pointers
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, ok := to.Underlying().(*types.Pointer); ok {
			return v
		}
		panic(unsupported("unsafe.Pointer to " + to.String()))
	}
	if wt, _, ok := intInfo(to); ok {
		if wf, sf, ok := intInfo(from); ok {
			switch x := v.(type) {
			case uint64:
				if sf && wt > wf {
					return uint64(sx(x, wf)) & mask(wt)
				}
				return x & mask(wt)
			case *Term:
				switch {
				case wt < wf:
					return norm(tExtract(x, 0, wt))
				case wt == wf:
					return x
				case sf:
					return norm(tSext(wt, x))
				default:
					return norm(tZext(wt, x))
				}
			}
		}
		if isFloat(from) {
			_, st, _ := intInfo(to)
			return in.floatToInt(v, wt, st)
		}
	}
	if isFloat(to) {
		if wf, sf, ok := intInfo(from); ok {
			return in.intToFloat(v, wf, sf, fr)
		}
		if isFloat(from) {
			if f, ok := v.(float64); ok {
				if to.Underlying().(*types.Basic).Kind() == types.Float32 {
					return float64(float32(f))
				}
			}
			return v
		}
	}
	if isComplex(to) && isComplex(from) {
		return v
	}
	if isString(to) {
		if s, ok := v.(Slice); ok {
			b := make([]byte, s.len)
			for i := range b {
				u, ok := s.obj.cells[s.off+i].(uint64)
				if !ok {
					panic(unsupported("symbolic string"))
				}
				b[i] = byte(u)
			}
			return string(b)
		}
		if u, ok := v.(uint64); ok {
			return string(rune(u))
		}
		return v
	}
	if st, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		s := v.(string)
		ns := in.makeSlice(st.Elem(), len(s), len(s)).(Slice)
		for i := 0; i < len(s); i++ {
			ns.obj.cells[i] = uint64(s[i])
		}
		return ns
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	panic(unsupported("convert " + from.String() + " -> " + to.String()))
}

func (in *Interp) intToFloat(v Value, w int, signed bool, fr *frame) Value {
	switch x := v.(type) {
	case uint64:
		if in.cfg.Symbolic && !in.cfg.FP && in.inPolyPkg(fr) {
			var m uint64 = x
			if signed && sx(x, w) < 0 {
				m = uint64(-sx(x, w))
			}
			if m > 1<<24 {
				return atomForm(getFAtom(tConst(w, x), signed))
			}
		}
		if signed {
			return float64(sx(x, w))
		}
		return float64(x)
	case *Term:
		if in.cfg.FP {
			if signed {
				return norm(fFromS(x))
			}
			return norm(fFromU(x))
		}
		return intForm(x, w, signed)
	}
	panic(unsupported("intToFloat"))
}

// intForm is the real value of an integer term.
func intForm(x *Term, w int, signed bool) Value {
	// canonicalise: small known-nonnegative values and bits are unsigned==signed
	if x.op == OZext {
		return atomForm(getFAtom(x.args[0], false))
	}
	if x.op == OSext && signed {
		return atomForm(getFAtom(x.args[0], true))
	}
	// c * ext(v) that does not overflow
	if x.op == OPoly && len(x.poly) == 1 && len(x.poly[0].m.atoms) == 1 {
		c, a := sx(x.poly[0].c, w), x.poly[0].m.atoms[0]
		if (a.op == OZext || a.op == OSext) && a.args[0].w <= 52 && (signed || c > 0) && (signed || a.op == OZext) {
			sw, sg := a.args[0].w, a.op == OSext
			room := w - sw
			if signed && !sg {
				room--
			}
			if k := bits.Len64(uint64(abs64(c)) - 1); k <= room {
				return formLin(atomForm(getFAtom(a.args[0], sg)), float64(c), fConstForm(0), 0)
			}
			if signed && !sg && c == 1<<uint(w-sw) {
				return formLin(atomForm(getFAtom(a.args[0], true)), float64(c), fConstForm(0), 0)
			}
		}
	}
	return atomForm(getFAtom(x, signed))
}

func abs64(c int64) int64 {
	if c < 0 {
		return -c
	}
	return c
}

func (in *Interp) floatToInt(v Value, w int, signed bool) Value {
	switch f := v.(type) {
	case float64:
		if signed {
			if w < 64 {
				// amd64: int32 conversions use CVTTSD2SL, narrower truncate
				if w == 32 {
					return goF2S(f, 32)
				}
				return goF2S(f, 32) & mask(w)
			}
			return goF2S(f, 64)
		}
		if w == 64 {
			if f < 9223372036854775808.0 {
				return goF2S(f, 64)
			}
			return goF2S(f-9223372036854775808.0, 64) ^ (1 << 63)
		}
		return goF2S(f, 64) & mask(w)
	case *Form:
		return norm(formToInt(f, w))
	case *Term:
		if signed {
			if w == 64 {
				return norm(fToS(f, 64))
			}
			return norm(tExtract(fToS(f, 32), 0, w))
		}
		if w == 64 {
			lim := fConst(9223372036854775808.0)
			a := fToS(f, 64)
			b := tXor(fToS(fBin(OFSub, f, lim), 64), tConst(64, 1<<63))
			return norm(tIte(fCmp(OFLt, f, lim), a, b))
		}
		return norm(tExtract(fToS(f, 64), 0, w))
	}
	panic(unsupported("floatToInt"))
}

// cpx is a complex value with a symbolic part.
type cpx struct{ re, im Value }

func cpxOf(v Value) *cpx {
	switch x := v.(type) {
	case complex128:
		return &cpx{real(x), imag(x)}
	case *cpx:
		return x
	}
	panic(unsupported("complex value"))
}

func mkCpx(re, im Value) Value {
	a, ok1 := re.(float64)
	b, ok2 := im.(float64)
	if ok1 && ok2 {
		return complex(a, b)
	}
	return &cpx{re, im}
}

func (in *Interp) cpxOp(op token.Token, a, b *cpx) Value {
	f := func(op token.Token, x, y Value) Value {
		fx, ok1 := x.(float64)
		fy, ok2 := y.(float64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return fx + fy
			case token.SUB:
				return fx - fy
			case token.MUL:
				return fx * fy
			}
		}
		return in.floatSym(op, x, y)
	}
	switch op {
	case token.ADD, token.SUB:
		return mkCpx(f(op, a.re, b.re), f(op, a.im, b.im))
	case token.MUL:
		return mkCpx(f(token.SUB, f(token.MUL, a.re, b.re), f(token.MUL, a.im, b.im)), f(token.ADD, f(token.MUL, a.re, b.im), f(token.MUL, a.im, b.re)))
	}
	panic(unsupported("complex operation " + op.String()))
}
