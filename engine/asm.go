package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AsmDB holds the parsed Plan 9 assembly of the repository.
type AsmDB struct {
	funcs map[string]*asmFunc // pkgdir.name
	data  map[string]uint64
}

type asmFunc struct {
	name   string
	ins    []asmIns
	labels map[string]int
}

type asmIns struct {
	op   string
	args []string
	line string
}

func loadAsm() (*AsmDB, error) {
	db := &AsmDB{funcs: map[string]*asmFunc{}, data: map[string]uint64{}}
	for _, d := range []string{"math/vec", "math/poly", "tfhe", "mktfhe", "xtfhe", "math/num", "math/csprng"} {
		fs, _ := filepath.Glob(filepath.Join(repoDir, d, "*_amd64.s"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			if err := db.parse(d, string(b)); err != nil {
				return nil, fmt.Errorf("%s: %v", f, err)
			}
		}
	}
	return db, nil
}

func splitArgs(s string) []string {
	var out []string
	d := 0
	cur := ""
	for _, c := range s {
		switch {
		case c == '(':
			d++
			cur += "("
		case c == ')':
			d--
			cur += ")"
		case c == ',' && d == 0:
			out = append(out, strings.TrimSpace(cur))
			cur = ""
		default:
			cur += string(c)
		}
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, strings.TrimSpace(cur))
	}
	return out
}

func (db *AsmDB) parse(dir, src string) error {
	var cur *asmFunc
	for _, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		f := strings.Fields(t)
		switch {
		case f[0] == "DATA":
			name := f[1][:strings.Index(f[1], "<>")]
			v := strings.TrimPrefix(f[2], "$")
			if strings.HasPrefix(v, "(") {
				x, err := strconv.ParseFloat(strings.Trim(v, "()"), 64)
				if err != nil {
					return err
				}
				db.data[dir+"."+name] = math.Float64bits(x)
			} else {
				x, err := strconv.ParseUint(v, 0, 64)
				if err != nil {
					return err
				}
				db.data[dir+"."+name] = x
			}
		case f[0] == "GLOBL":
		case f[0] == "TEXT":
			n := strings.TrimPrefix(f[1], "·")
			n = n[:strings.Index(n, "(")]
			cur = &asmFunc{name: n, labels: map[string]int{}}
			db.funcs[dir+"."+n] = cur
		case strings.HasSuffix(t, ":"):
			cur.labels[strings.TrimSuffix(t, ":")] = len(cur.ins)
		default:
			rest := strings.TrimSpace(strings.TrimPrefix(t, f[0]))
			cur.ins = append(cur.ins, asmIns{op: f[0], args: splitArgs(rest), line: t})
		}
	}
	return nil
}

func pkgDir(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return ""
	}
	return strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
}

func (db *AsmDB) has(fn *ssa.Function) bool {
	return db.funcs[pkgDir(fn)+"."+fn.Name()] != nil
}

// aptr is a byte-granular pointer.
type aptr struct {
	obj *Object
	b   int
}

type vreg struct {
	w int // lane width 32 or 64
	l []Value
}

type amach struct {
	in   *Interp
	gp   map[string]Value // uint64 / aptr / *Term
	vr   [16]vreg
	args map[int]Value
	db   *AsmDB
	dir  string
	cx   Value
	cy   Value
}

func (db *AsmDB) call(in *Interp, fn *ssa.Function, args []Value) {
	f := db.funcs[pkgDir(fn)+"."+fn.Name()]
	m := &amach{in: in, gp: map[string]Value{}, args: map[int]Value{}, db: db, dir: pkgDir(fn)}
	off := 0
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		al := int(stdSizes.Alignof(t))
		off = (off + al - 1) / al * al
		switch v := args[i].(type) {
		case Slice:
			if v.obj == nil {
				m.args[off] = uint64(0)
			} else {
				m.args[off] = aptr{v.obj, v.off * v.obj.cellBytes}
			}
			m.args[off+8] = uint64(v.len)
			m.args[off+16] = uint64(v.cap)
		case Ptr:
			m.args[off] = aptr{v.obj, v.off * v.obj.cellBytes}
		default:
			if _, ok := t.Underlying().(*types.Struct); ok {
				// struct with several slices / scalars: flatten
				m.flatten(off, t, v)
			} else {
				m.args[off] = v
				switch args[i].(type) {
				case complex128, *cpx:
					c := cpxOf(args[i])
					m.args[off] = c.re
					m.args[off+8] = c.im
				}
			}
		}
		off += int(stdSizes.Sizeof(t))
	}
	for i := range m.vr {
		m.vr[i] = vreg{64, []Value{zero64, zero64, zero64, zero64}}
	}
	m.run(f)
}

func (m *amach) flatten(off int, t types.Type, v Value) {
	st := t.Underlying().(*types.Struct)
	fields := make([]*types.Var, st.NumFields())
	for i := range fields {
		fields[i] = st.Field(i)
	}
	offs := stdSizes.Offsetsof(fields)
	for i := range fields {
		var fv Value
		if a, ok := v.(Agg); ok {
			o := fieldOffset(st, i)
			n := cellCount(fields[i].Type())
			if n == 1 {
				fv = a[o]
			} else {
				fv = a[o : o+n]
			}
		} else {
			fv = v
		}
		o := off + int(offs[i])
		switch x := fv.(type) {
		case Slice:
			m.args[o] = aptr{x.obj, x.off * x.obj.cellBytes}
			m.args[o+8] = uint64(x.len)
			m.args[o+16] = uint64(x.cap)
		default:
			m.args[o] = fv
		}
	}
}

// memory operand -> address
type addr struct {
	kind string // "arg","data","mem"
	off  int
	data uint64
	p    aptr
}

func (m *amach) addr(s string) addr {
	if strings.HasSuffix(s, "(SB)") {
		n := s[:strings.Index(s, "<>")]
		rest := strings.TrimSuffix(s[strings.Index(s, "<>")+2:], "(SB)")
		o, _ := strconv.Atoi(rest)
		if o != 0 {
			panic(unsupported("asm data offset"))
		}
		d, ok := m.db.data[m.dir+"."+n]
		if !ok {
			panic(unsupported("asm data " + n))
		}
		return addr{kind: "data", data: d}
	}
	if strings.HasSuffix(s, "(FP)") {
		q := strings.TrimSuffix(s, "(FP)")
		i := strings.LastIndexAny(q, "+")
		o, _ := strconv.Atoi(q[i+1:])
		return addr{kind: "arg", off: o}
	}
	// off(BASE)(IDX*S)
	i := strings.Index(s, "(")
	disp := 0
	if i > 0 {
		d, err := strconv.ParseInt(s[:i], 0, 64)
		if err != nil {
			panic(unsupported("asm addr " + s))
		}
		disp = int(d)
	}
	parts := strings.Split(strings.Trim(s[i:], "()"), ")(")
	base := m.gp[parts[0]]
	var p aptr
	switch b := base.(type) {
	case aptr:
		p = b
	case uint64:
		if b == 0 && base != nil {
			p = aptr{}
		} else {
			panic(unsupported("asm base not a pointer: " + s))
		}
	default:
		panic(unsupported(fmt.Sprintf("asm base %T in %s", base, s)))
	}
	if len(parts) > 1 {
		rs := strings.Split(parts[1], "*")
		sc := 1
		if len(rs) > 1 {
			sc, _ = strconv.Atoi(rs[1])
		}
		iv, ok := m.gp[rs[0]].(uint64)
		if !ok {
			panic(unsupported("asm index"))
		}
		disp += int(int64(iv)) * sc
	}
	p.b += disp
	return addr{kind: "mem", p: p}
}

func isMem(s string) bool { return strings.Contains(s, "(") }

func (m *amach) cell(p aptr) (*Object, int, int) {
	if p.obj == nil {
		rtPanic("asm nil dereference")
	}
	cb := p.obj.cellBytes
	if cb <= 0 {
		panic(unsupported("asm access to mixed object"))
	}
	i := p.b / cb
	r := p.b % cb
	if p.b < 0 || i >= len(p.obj.cells) {
		rtPanic("asm memory access out of bounds of %s at byte %d", p.obj.name, p.b)
	}
	return p.obj, i, r
}

func (m *amach) loadQ(a addr, bytes int) Value {
	switch a.kind {
	case "arg":
		v, ok := m.args[a.off]
		if !ok {
			panic(unsupported(fmt.Sprintf("asm arg offset %d", a.off)))
		}
		return v
	case "data":
		return a.data
	}
	o, i, r := m.cell(a.p)
	if s, ok := o.cells[i].(Slice); ok {
		switch r {
		case 0:
			if s.obj == nil {
				return uint64(0)
			}
			return aptr{s.obj, s.off * s.obj.cellBytes}
		case 8:
			return uint64(s.len)
		case 16:
			return uint64(s.cap)
		}
	}
	if c, ok := o.cells[i].(complex128); ok && bytes == 8 && o.cellBytes == 16 {
		if r == 0 {
			return real(c)
		} else if r == 8 {
			return imag(c)
		}
	}
	if r != 0 || o.cellBytes != bytes {
		panic(unsupported(fmt.Sprintf("asm scalar load of %d bytes from %d-byte cells", bytes, o.cellBytes)))
	}
	return o.cells[i]
}

func (m *amach) storeQ(a addr, v Value, bytes int) {
	if a.kind != "mem" {
		panic(unsupported("asm store"))
	}
	o, i, r := m.cell(a.p)
	if r != 0 || o.cellBytes != bytes {
		panic(unsupported("asm scalar store size"))
	}
	o.cells[i] = v
}

func (m *amach) loadV(s string, bytes int) vreg {
	a := m.addr(s)
	if a.kind != "mem" {
		panic(unsupported("asm vector load " + s))
	}
	o, i, r := m.cell(a.p)
	if r == 0 && o.cellBytes == 16 {
		if _, ok := o.cells[i].(complex128); ok {
			n := bytes / 16
			if i+n > len(o.cells) {
				rtPanic("asm memory read out of bounds of %s", o.name)
			}
			out := vreg{64, nil}
			for k := 0; k < n; k++ {
				c := o.cells[i+k].(complex128)
				out.l = append(out.l, real(c), imag(c))
			}
			return m.widen(out)
		}
	}
	if r != 0 || (o.cellBytes != 4 && o.cellBytes != 8) {
		panic(unsupported("asm vector load cell size"))
	}
	n := bytes / o.cellBytes
	if i+n > len(o.cells) {
		rtPanic("asm memory read out of bounds of %s", o.name)
	}
	out := vreg{o.cellBytes * 8, make([]Value, n)}
	copy(out.l, o.cells[i:i+n])
	return m.widen(out)
}

// widen pads an XMM-sized value with zero lanes.
func (m *amach) widen(v vreg) vreg {
	n := 256 / v.w
	for len(v.l) < n {
		v.l = append(v.l, zero64)
	}
	return v
}

func (m *amach) storeV(s string, v vreg, bytes int) {
	a := m.addr(s)
	o, i, r := m.cell(a.p)
	if r != 0 {
		panic(unsupported("asm vector store align"))
	}
	w := o.cellBytes * 8
	if w == 32 {
		v = m.as32(v)
	} else if w == 64 {
		v = m.as64(v)
	} else {
		panic(unsupported("asm vector store cell size"))
	}
	n := bytes / o.cellBytes
	if i+n > len(o.cells) {
		rtPanic("asm memory write out of bounds of %s", o.name)
	}
	isF := false
	if n > 0 {
		switch x := o.cells[i].(type) {
		case float64, *Form:
			isF = true
		case *Term:
			isF = x.w == wFP
		}
	}
	for k := 0; k < n; k++ {
		if isF {
			o.cells[i+k] = m.toF(v.l[k])
		} else {
			o.cells[i+k] = m.toI(v.l[k])
		}
	}
}

func (m *amach) as64(v vreg) vreg {
	if v.w == 64 {
		return v
	}
	out := vreg{64, make([]Value, len(v.l)/2)}
	for i := range out.l {
		lo, hi := toTerm(v.l[2*i], 32), toTerm(v.l[2*i+1], 32)
		out.l[i] = norm(tAdd(tZext(64, lo), tMulC(tZext(64, hi), 1<<32)))
	}
	return out
}

func (m *amach) as32(v vreg) vreg {
	if v.w == 32 {
		return v
	}
	out := vreg{32, make([]Value, len(v.l)*2)}
	for i, x := range v.l {
		t := toTerm(m.toI(x), 64)
		out.l[2*i] = norm(tExtract(t, 0, 32))
		out.l[2*i+1] = norm(tExtract(t, 32, 32))
	}
	return out
}

// toI reinterprets a 64-bit lane as an integer.
func (m *amach) toI(v Value) Value {
	switch x := v.(type) {
	case float64:
		return math.Float64bits(x)
	case *Term:
		if x.w == wFP {
			if x.op == OFFromBits {
				return norm(x.args[0])
			}
			panic(unsupported("bits of computed float"))
		}
	case *Form:
		panic(unsupported("bits of real form"))
	}
	return v
}

// toF reinterprets a 64-bit lane as a float.
func (m *amach) toF(v Value) Value {
	switch x := v.(type) {
	case uint64:
		return math.Float64frombits(x)
	case *Term:
		if x.w == wFP {
			return x
		}
		if m.in.cfg.FP {
			return norm(mk(OFFromBits, wFP, 0, "", x))
		}
		if f := magicFloat(x); f != nil {
			return f
		}
		panic(unsupported("float reinterpretation of integer lane"))
	}
	return v
}

// magicFloat recognises integers stored in the mantissa of 2^52 / 2^84.
func magicFloat(t *Term) *Form {
	hi := tExtract(t, 52, 12)
	if !hi.isConst() {
		return nil
	}
	mant := tExtract(t, 0, 52)
	scale := 1.0
	base := 0.0
	switch hi.c {
	case 0x433:
		base, scale = math.Ldexp(1, 52), 1
	case 0x453:
		base, scale = math.Ldexp(1, 84), math.Ldexp(1, 32)
	default:
		return nil
	}
	// mantissa value as unsigned integer; must fit 32 bits
	if knownZero(mant)>>32 != (1<<20)-1 {
		return nil
	}
	lo := tExtract(mant, 0, 32)
	f := u32Form(lo)
	return formLin(formMul(f, fConstForm(scale)), 1, fConstForm(base), 1)
}

// u32Form gives the unsigned value of a 32-bit term in terms of signed 64-bit
// base values where possible.
func u32Form(lo *Term) *Form {
	if lo.isConst() {
		return fConstForm(float64(lo.c))
	}
	// top bit flipped: unsigned value = signed value of the rest + 2^31
	if lo.op == OPoly {
		p := lo.poly
		for _, mm := range p {
			if mm.m == monoOne && mm.c == 1<<31 {
				rest := tSub(lo, tConst(32, 1<<31))
				return formLin(atomForm(getFAtom(rest, true)), 1, fConstForm(2147483648), 1)
			}
		}
	}
	if lo.op == OExtract && lo.c == 0 && lo.args[0].w == 64 {
		x := lo.args[0]
		hi := tExtract(x, 32, 32)
		return formLin(atomForm(getFAtom(x, true)), 1, atomForm(getFAtom(hi, true)), -4294967296)
	}
	return atomForm(getFAtom(lo, false))
}

func (m *amach) reg(s string) (int, bool, bool) {
	if len(s) >= 2 && (s[0] == 'Y' || s[0] == 'X') {
		if n, err := strconv.Atoi(s[1:]); err == nil {
			return n, s[0] == 'Y', true
		}
	}
	return 0, false, false
}

func (m *amach) getV(s string, bytes int) vreg {
	if n, y, ok := m.reg(s); ok {
		v := m.vr[n]
		if !y {
			h := len(v.l) / 2
			return vreg{v.w, v.l[:h:h]}
		}
		return v
	}
	return m.loadV(s, bytes)
}

func (m *amach) setV(s string, v vreg) {
	n, _, ok := m.reg(s)
	if !ok {
		panic(unsupported("asm dst " + s))
	}
	m.vr[n] = m.widen(v)
}

func imm(s string) (uint64, bool) {
	if !strings.HasPrefix(s, "$") {
		return 0, false
	}
	v := strings.TrimPrefix(s, "$")
	if u, err := strconv.ParseUint(v, 0, 64); err == nil {
		return u, true
	}
	if i, err := strconv.ParseInt(v, 0, 64); err == nil {
		return uint64(i), true
	}
	panic(unsupported("asm imm " + s))
}

func (m *amach) getQ(s string, bytes int) Value {
	if v, ok := imm(s); ok {
		return v & mask(bytes*8)
	}
	if isMem(s) {
		return m.loadQ(m.addr(s), bytes)
	}
	v, ok := m.gp[s]
	if !ok {
		panic(unsupported("asm reg " + s))
	}
	return v
}

func (m *amach) setQ(s string, v Value, bytes int) {
	if isMem(s) {
		m.storeQ(m.addr(s), v, bytes)
		return
	}
	m.gp[s] = v
}

func tr(v Value, bytes int) *Term {
	switch x := v.(type) {
	case uint64:
		return tConst(bytes*8, x)
	case *Term:
		if x.w == bytes*8 {
			return x
		}
		if x.w > bytes*8 {
			return tExtract(x, 0, bytes*8)
		}
		return tZext(bytes*8, x)
	}
	panic(unsupported(fmt.Sprintf("asm scalar %T", v)))
}

func (m *amach) map1(a vreg, w int, f func(x *Term) *Term) vreg {
	if w == 32 {
		a = m.as32(a)
	} else {
		a = m.as64(a)
	}
	out := vreg{w, make([]Value, len(a.l))}
	for i := range a.l {
		out.l[i] = norm(f(toTerm(m.toI(a.l[i]), w)))
	}
	return out
}

func (m *amach) map2(a, b vreg, w int, f func(x, y *Term) *Term) vreg {
	if w == 32 {
		a, b = m.as32(a), m.as32(b)
	} else {
		a, b = m.as64(a), m.as64(b)
	}
	out := vreg{w, make([]Value, len(a.l))}
	for i := range a.l {
		out.l[i] = norm(f(toTerm(m.toI(a.l[i]), w), toTerm(m.toI(b.l[i]), w)))
	}
	return out
}

func (m *amach) fl(v vreg) []Value {
	v = m.as64f(v)
	out := make([]Value, len(v.l))
	for i, x := range v.l {
		out[i] = m.toF(x)
	}
	return out
}

func (m *amach) as64f(v vreg) vreg {
	if v.w == 64 {
		return v
	}
	return m.as64(v)
}

func (m *amach) fop(op string, a, b Value) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		}
	}
	if isFPTerm(a) || isFPTerm(b) {
		o := map[string]Op{"+": OFAdd, "-": OFSub, "*": OFMul}[op]
		return norm(fBin(o, toFP(a), toFP(b)))
	}
	f, g := toForm(a), toForm(b)
	switch op {
	case "+":
		return normForm(formLin(f, 1, g, 1))
	case "-":
		return normForm(formLin(f, 1, g, -1))
	}
	return normForm(formMul(f, g))
}

func (m *amach) fneg(a Value) Value {
	switch x := a.(type) {
	case float64:
		return -x
	case *Form:
		return formMul(x, fConstForm(-1))
	case *Term:
		return norm(fUn(OFNeg, 0, x))
	}
	panic(unsupported("fneg"))
}

func (m *amach) run(f *asmFunc) {
	pc := 0
	for {
		if pc >= len(f.ins) {
			panic(unsupported("asm fallthrough in " + f.name))
		}
		m.in.steps++
		if m.in.steps > m.in.cfg.MaxSteps {
			panic(unsupported("step limit (asm)"))
		}
		i := f.ins[pc]
		pc++
		a := i.args
		n := len(a)
		switch i.op {
		case "RET":
			return
		case "JMP", "JL", "JGE", "JLE", "JG", "JE", "JEQ", "JNE", "JZ", "JNZ", "JLT":
			take := true
			if i.op != "JMP" {
				x, ok1 := m.cx.(uint64)
				y, ok2 := m.cy.(uint64)
				if !ok1 || !ok2 {
					panic(unsupported("asm symbolic compare"))
				}
				sxv, syv := int64(x), int64(y)
				switch i.op {
				case "JL", "JLT":
					take = sxv < syv
				case "JGE":
					take = sxv >= syv
				case "JLE":
					take = sxv <= syv
				case "JG":
					take = sxv > syv
				case "JE", "JEQ", "JZ":
					take = x == y
				case "JNE", "JNZ":
					take = x != y
				}
			}
			if take {
				p, ok := f.labels[a[0]]
				if !ok {
					panic(unsupported("asm label " + a[0]))
				}
				pc = p
			}
		case "CMPQ":
			m.cx, m.cy = m.getQ(a[0], 8), m.getQ(a[1], 8)
		case "MOVQ":
			m.setQ(a[1], m.getQ(a[0], 8), 8)
		case "MOVL":
			v := m.getQ(a[0], 4)
			if u, ok := v.(uint64); ok {
				v = u & mask(32)
			}
			m.setQ(a[1], v, 4)
		case "ADDQ", "SUBQ", "IMULQ", "XORQ", "ADDL", "SUBL", "IMULL", "XORL", "ANDQ", "ORQ":
			b := 8
			if strings.HasSuffix(i.op, "L") {
				b = 4
			}
			if strings.HasPrefix(i.op, "XOR") && a[0] == a[1] {
				m.gp[a[1]] = uint64(0)
				break
			}
			src, dst := m.getQ(a[0], b), m.getQ(a[1], b)
			if i.op == "IMULQ" && n == 3 {
				dst = m.getQ(a[1], b)
			}
			if p, ok := dst.(aptr); ok && (i.op == "ADDQ" || i.op == "SUBQ") {
				d, ok := src.(uint64)
				if !ok {
					panic(unsupported("asm pointer arithmetic"))
				}
				if i.op == "SUBQ" {
					d = -d
				}
				m.setQ(a[n-1], aptr{p.obj, p.b + int(int64(d))}, b)
				break
			}
			if p, ok := src.(aptr); ok && i.op == "ADDQ" {
				d, ok := dst.(uint64)
				if !ok {
					panic(unsupported("asm pointer arithmetic"))
				}
				m.setQ(a[n-1], aptr{p.obj, p.b + int(int64(d))}, b)
				break
			}
			x, y := tr(dst, b), tr(src, b)
			var r *Term
			switch i.op[:3] {
			case "ADD":
				r = tAdd(x, y)
			case "SUB":
				r = tSub(x, y)
			case "IMU":
				r = tMul(x, y)
			case "XOR":
				r = tXor(x, y)
			case "AND":
				r = tAnd(x, y)
			default:
				r = tOr(x, y)
			}
			m.setQ(a[n-1], norm(r), b)
		case "SHLQ", "SHRQ", "SARQ", "SHLL", "SHRL":
			b := 8
			if strings.HasSuffix(i.op, "L") {
				b = 4
			}
			var c *Term
			cv := m.getQ(a[0], b)
			if a[0] == "CX" || a[0] == "CL" {
				cv = m.gp["CX"]
			}
			cu, ok := cv.(uint64)
			if !ok {
				panic(unsupported("asm symbolic shift"))
			}
			c = tConst(b*8, cu&uint64(b*8-1))
			x := tr(m.getQ(a[n-1], b), b)
			var r *Term
			switch i.op[:3] {
			case "SHL":
				r = tShl(x, c)
			case "SHR":
				r = tLshr(x, c)
			default:
				r = tAshr(x, c)
			}
			m.setQ(a[n-1], norm(r), b)
		case "INCQ", "DECQ":
			x := tr(m.getQ(a[0], 8), 8)
			if i.op == "INCQ" {
				m.setQ(a[0], norm(tAdd(x, tConst(64, 1))), 8)
			} else {
				m.setQ(a[0], norm(tSub(x, tConst(64, 1))), 8)
			}
		case "VMOVUPD", "VMOVDQU", "VMOVAPD", "VMOVUPS", "VMOVDQA":
			m.vmov(a[0], a[1])
		case "VZEROUPPER":
		case "VBROADCASTSD", "VPBROADCASTQ", "VPBROADCASTD":
			w := 64
			if i.op == "VPBROADCASTD" {
				w = 32
			}
			var v Value
			if isMem(a[0]) {
				v = m.loadQ(m.addr(a[0]), w/8)
			} else if _, _, ok := m.reg(a[0]); ok {
				r := m.getV(a[0], 16)
				if w == 32 {
					v = m.as32(r).l[0]
				} else {
					v = m.as64f(r).l[0]
				}
			} else {
				panic(unsupported("asm broadcast"))
			}
			_, y, _ := m.reg(a[1])
			k := 128 / w
			if y {
				k = 256 / w
			}
			out := vreg{w, make([]Value, k)}
			for j := range out.l {
				out.l[j] = v
			}
			m.setV(a[1], out)
		default:
			m.vec(i)
		}
	}
}

func (m *amach) vbytes(s string) int {
	if _, y, ok := m.reg(s); ok && y {
		return 32
	}
	return 16
}

func (m *amach) vmov(src, dst string) {
	if _, _, ok := m.reg(dst); ok {
		m.setV(dst, m.getV(src, m.vbytes(dst)))
		return
	}
	m.storeV(dst, m.getV(src, 0), m.vbytes(src))
}

func (m *amach) vec(i asmIns) {
	a := i.args
	n := len(a)
	dst := a[n-1]
	by := m.vbytes(dst)
	g := func(k int) vreg { return m.getV(a[k], by) }
	fl := func(k int) []Value { return m.fl(g(k)) }
	setF := func(l []Value) { m.setV(dst, vreg{64, l}) }
	switch i.op {
	case "VPADDQ", "VPADDD", "VPSUBQ", "VPSUBD", "VPMULLD", "VPAND", "VANDPD", "VPOR", "VORPD", "VPXOR", "VXORPD", "VPMULUDQ", "VPANDN", "VANDNPD":
		w := 64
		switch i.op {
		case "VPADDD", "VPSUBD", "VPMULLD":
			w = 32
		}
		if (i.op == "VPXOR" || i.op == "VXORPD") && a[0] == a[1] {
			k := by * 8 / 64
			z := make([]Value, k)
			for j := range z {
				z[j] = zero64
			}
			m.setV(dst, vreg{64, z})
			return
		}
		x, y := g(1), g(0) // dst = x op y
		if w == 64 && x.w == 32 && y.w == 32 && !strings.HasSuffix(i.op, "Q") {
			w = 32
		}
		m.setV(dst, m.map2(x, y, w, func(p, q *Term) *Term {
			switch i.op {
			case "VPADDQ", "VPADDD":
				return tAdd(p, q)
			case "VPSUBQ", "VPSUBD":
				return tSub(p, q)
			case "VPMULLD":
				return tMul(p, q)
			case "VPAND", "VANDPD":
				return tAnd(p, q)
			case "VPANDN", "VANDNPD":
				return tAnd(tNotBV(p), q)
			case "VPOR", "VORPD":
				return tOr(p, q)
			case "VPXOR", "VXORPD":
				return tXor(p, q)
			case "VPMULUDQ":
				return tMul(tZext(64, tExtract(p, 0, 32)), tZext(64, tExtract(q, 0, 32)))
			}
			return nil
		}))
	case "VPSRLQ", "VPSLLQ", "VPSRLD", "VPSLLD":
		w := 64
		if strings.HasSuffix(i.op, "D") {
			w = 32
		}
		var cnt uint64
		if c, ok := imm(a[0]); ok {
			cnt = c
		} else {
			v := m.as64(m.getV(a[0], 16))
			c, ok := m.toI(v.l[0]).(uint64)
			if !ok {
				panic(unsupported("asm symbolic vector shift"))
			}
			cnt = c
		}
		m.setV(dst, m.map1(g(1), w, func(x *Term) *Term {
			if cnt >= uint64(w) {
				return tConst(w, 0)
			}
			if i.op[3] == 'L' || strings.HasPrefix(i.op, "VPSLL") {
				return tShl(x, tConst(w, cnt))
			}
			return tLshr(x, tConst(w, cnt))
		}))
	case "VPSRLVQ", "VPSRLVD", "VPSLLVQ", "VPSLLVD":
		w := 64
		if strings.HasSuffix(i.op, "D") {
			w = 32
		}
		left := strings.HasPrefix(i.op, "VPSLL")
		m.setV(dst, m.map2(g(1), g(0), w, func(x, c *Term) *Term {
			if left {
				return tShl(x, c)
			}
			return tLshr(x, c)
		}))
	case "VPBLENDVB":
		mk, s2, s1 := m.as64(g(0)), m.as64(g(1)), m.as64(g(2))
		out := vreg{64, make([]Value, len(s1.l))}
		for j := range out.l {
			out.l[j] = norm(blendBytes(toTerm(m.toI(mk.l[j]), 64), toTerm(m.toI(s2.l[j]), 64), toTerm(m.toI(s1.l[j]), 64)))
		}
		m.setV(dst, out)
	case "VPBLENDD":
		im, _ := imm(a[0])
		s2, s1 := m.as32(g(1)), m.as32(g(2))
		out := vreg{32, make([]Value, len(s1.l))}
		for j := range out.l {
			if im>>uint(j)&1 == 1 {
				out.l[j] = s2.l[j]
			} else {
				out.l[j] = s1.l[j]
			}
		}
		m.setV(dst, out)
	case "VPSHUFD":
		im, _ := imm(a[0])
		s := m.as32(g(1))
		out := vreg{32, make([]Value, len(s.l))}
		for j := range out.l {
			out.l[j] = s.l[j/4*4+int(im>>uint(2*(j%4))&3)]
		}
		m.setV(dst, out)
	case "VSHUFPD":
		im, _ := imm(a[0])
		s2, s1 := m.as64f(g(1)), m.as64f(g(2))
		out := vreg{64, make([]Value, len(s1.l))}
		for j := 0; j < len(out.l); j++ {
			b := int(im >> uint(j) & 1)
			if j%2 == 0 {
				out.l[j] = s1.l[j/2*2+b]
			} else {
				out.l[j] = s2.l[j/2*2+b]
			}
		}
		m.setV(dst, out)
	case "VUNPCKLPD", "VUNPCKHPD":
		s2, s1 := m.as64f(g(0)), m.as64f(g(1))
		h := 0
		if i.op == "VUNPCKHPD" {
			h = 1
		}
		out := vreg{64, make([]Value, len(s1.l))}
		for j := 0; j < len(out.l); j += 2 {
			out.l[j] = s1.l[j+h]
			out.l[j+1] = s2.l[j+h]
		}
		m.setV(dst, out)
	case "VPERM2F128":
		im, _ := imm(a[0])
		s2, s1 := m.as64f(g(1)), m.as64f(g(2))
		sel := func(c uint64) []Value {
			if c&8 != 0 {
				return []Value{zero64, zero64}
			}
			switch c & 3 {
			case 0:
				return s1.l[0:2]
			case 1:
				return s1.l[2:4]
			case 2:
				return s2.l[0:2]
			}
			return s2.l[2:4]
		}
		setF(append(append([]Value{}, sel(im)...), sel(im>>4)...))
	case "VMULPD", "VADDPD", "VSUBPD":
		y, x := fl(0), fl(1)
		op := map[string]string{"VMULPD": "*", "VADDPD": "+", "VSUBPD": "-"}[i.op]
		out := make([]Value, len(x))
		for j := range x {
			out[j] = m.fop(op, x[j], y[j])
		}
		setF(out)
	case "VADDSUBPD":
		y, x := fl(0), fl(1)
		out := make([]Value, len(x))
		for j := range x {
			if j%2 == 0 {
				out[j] = m.fop("-", x[j], y[j])
			} else {
				out[j] = m.fop("+", x[j], y[j])
			}
		}
		setF(out)
	case "VHADDPD":
		y, x := fl(0), fl(1)
		out := make([]Value, len(x))
		for j := 0; j < len(x); j += 2 {
			out[j] = m.fop("+", x[j], x[j+1])
			out[j+1] = m.fop("+", y[j], y[j+1])
		}
		setF(out)
	case "VFMADD231PD", "VFNMADD231PD", "VFMADDSUB231PD", "VFMSUB231PD", "VFMSUBADD231PD":
		z, y, x := fl(0), fl(1), fl(2)
		out := make([]Value, len(x))
		for j := range x {
			switch i.op {
			case "VFMADD231PD":
				out[j] = fma(y[j], z[j], x[j])
			case "VFNMADD231PD":
				out[j] = fma(m.fneg(y[j]), z[j], x[j])
			case "VFMSUB231PD":
				out[j] = fma(y[j], z[j], m.fneg(x[j]))
			case "VFMADDSUB231PD":
				if j%2 == 0 {
					out[j] = fma(y[j], z[j], m.fneg(x[j]))
				} else {
					out[j] = fma(y[j], z[j], x[j])
				}
			case "VFMSUBADD231PD":
				if j%2 == 1 {
					out[j] = fma(y[j], z[j], m.fneg(x[j]))
				} else {
					out[j] = fma(y[j], z[j], x[j])
				}
			}
		}
		setF(out)
	case "VROUNDPD":
		im, _ := imm(a[0])
		x := fl(1)
		out := make([]Value, len(x))
		for j := range x {
			out[j] = m.round(x[j], im&3)
		}
		setF(out)
	case "VCVTPD2DQY", "VCVTTPD2DQY":
		x := m.fl(m.getV(a[0], 32))
		out := vreg{32, make([]Value, 4)}
		for j := range x {
			r := x[j]
			if i.op == "VCVTPD2DQY" {
				r = m.round(r, 0)
			}
			switch f := r.(type) {
			case float64:
				out.l[j] = goF2S(f, 32)
			case *Form:
				out.l[j] = norm(formToInt(f, 32))
			case *Term:
				out.l[j] = norm(fToS(f, 32))
			}
		}
		m.setV(dst, out)
	case "VCVTDQ2PD":
		x := m.as32(m.getV(a[0], 16))
		out := make([]Value, 4)
		for j := range out {
			switch v := x.l[j].(type) {
			case uint64:
				if m.in.cfg.Symbolic && !m.in.cfg.FP && v != 0 {
					out[j] = atomForm(getFAtom(tConst(32, v), true))
				} else {
					out[j] = float64(sx(v, 32))
				}
			case *Term:
				if m.in.cfg.FP {
					out[j] = norm(fFromS(v))
				} else {
					out[j] = intForm(v, 32, true)
				}
			}
		}
		setF(out)
	default:
		panic(unsupported("asm instruction " + i.line))
	}
}

func (m *amach) round(v Value, mode uint64) Value {
	switch x := v.(type) {
	case float64:
		switch mode {
		case 0:
			return math.RoundToEven(x)
		case 1:
			return math.Floor(x)
		case 2:
			return math.Ceil(x)
		}
		return math.Trunc(x)
	case *Form:
		if mode == 0 {
			return normForm(formRound(x))
		}
	case *Term:
		return norm(fUn(OFRound, []uint64{1, 2, 3, 4}[mode], x))
	}
	panic(unsupported("asm round"))
}

func blendBytes(mk, s2, s1 *Term) *Term {
	if mk.isConst() {
		r := tConst(64, 0)
		for j := 0; j < 8; j++ {
			src := s1
			if mk.c>>uint(8*j+7)&1 == 1 {
				src = s2
			}
			r = tAdd(r, tMulC(tZext(64, tExtract(src, 8*j, 8)), 1<<uint(8*j)))
		}
		return r
	}
	// mask of the form -bit (all ones or zero)
	if b := negBit(mk); b != nil {
		return tIte(tEq(tConst(1, 1), b), s2, s1)
	}
	r := tConst(64, 0)
	for j := 0; j < 8; j++ {
		c := tEq(tConst(1, 1), tExtract(mk, 8*j+7, 1))
		r = tAdd(r, tMulC(tZext(64, tIte(c, tExtract(s2, 8*j, 8), tExtract(s1, 8*j, 8))), 1<<uint(8*j)))
	}
	return r
}

func negBit(t *Term) *Term {
	if t.op == OPoly && len(t.poly) == 1 && t.poly[0].c == ^uint64(0) && len(t.poly[0].m.atoms) == 1 {
		return bitVarOf(t.poly[0].m.atoms[0])
	}
	return nil
}
