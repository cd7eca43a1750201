package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strings"
	"time"
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	MaxQuery                     time.Duration
}

var stats SolverStats

// incremental z3 process for branch feasibility
type incSolver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	done map[*Term]bool
	n    int
}

var inc *incSolver

func startInc() *incSolver {
	cmd := exec.Command("z3-new", "-in", "-t:20000", "-memory:6000")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic(unsupported("cannot start z3: " + err.Error()))
	}
	return &incSolver{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), done: map[*Term]bool{}}
}

func killInc() {
	if inc != nil {
		inc.cmd.Process.Kill()
		inc.cmd.Wait()
		inc = nil
	}
}

const (
	rUnsat = iota
	rSat
	rUnknown
)

// checkInc decides satisfiability of the conjunction; with wantModel it also
// returns values for the variables in the cone.
func checkInc(cs []*Term, wantModel []*Term) (int, Model) {
	for _, c := range cs {
		if c == tFalse {
			return rUnsat, nil
		}
	}
	if inc == nil {
		inc = startInc()
	}
	t0 := time.Now()
	var sb strings.Builder
	p := &printer{sb: &sb, done: inc.done}
	for _, c := range cs {
		p.emit(c)
	}
	for _, v := range wantModel {
		p.emit(v)
	}
	sb.WriteString("(push)\n")
	for _, c := range cs {
		if c != tTrue {
			fmt.Fprintf(&sb, "(assert %s)\n", p.ref(c))
		}
	}
	sb.WriteString("(check-sat)\n(echo \"done\")\n")
	io.WriteString(inc.in, sb.String())
	res := rUnknown
	bad := false
	for {
		l, err := inc.out.ReadString('\n')
		if err != nil {
			killInc()
			bad = true
			break
		}
		l = strings.TrimSpace(l)
		if l == "done" || l == "\"done\"" {
			break
		}
		switch {
		case l == "sat":
			res = rSat
		case l == "unsat":
			res = rUnsat
		case strings.HasPrefix(l, "(error"):
			bad = true
			if os.Getenv("VSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, l)
			}
		}
	}
	if bad {
		res = rUnknown
	}
	var m Model
	if res == rSat && len(wantModel) > 0 && inc != nil {
		m = Model{}
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range wantModel {
			sb.WriteString(p.ref(v) + " ")
		}
		sb.WriteString("))\n(echo \"done\")\n")
		io.WriteString(inc.in, sb.String())
		var buf bytes.Buffer
		for {
			l, err := inc.out.ReadString('\n')
			if err != nil {
				killInc()
				break
			}
			if strings.Trim(strings.TrimSpace(l), "\"") == "done" {
				break
			}
			buf.WriteString(l)
		}
		parseValues(buf.String(), wantModel, m)
	}
	if inc != nil {
		io.WriteString(inc.in, "(pop)\n")
		inc.n++
		if inc.n > 3000 {
			killInc()
		}
	}
	note(res, time.Since(t0))
	return res, m
}

func note(res int, d time.Duration) {
	stats.Queries++
	stats.Time += d
	if d > stats.MaxQuery {
		stats.MaxQuery = d
	}
	switch res {
	case rSat:
		stats.Sat++
	case rUnsat:
		stats.Unsat++
	default:
		stats.Unknown++
	}
}

// parseValues parses ((x v) (y v) ...)
func parseValues(s string, order []*Term, m Model) {
	toks := tokenize(s)
	// structure: ( ( name val ) ... ) ; val may be #x.., #b.., true, (_ bvN w), (fp ...), (_ +zero 11 53)
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return ""
		}
		t := toks[pos]
		pos++
		if t == "(" {
			var l []interface{}
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		return t
	}
	root, _ := parse().([]interface{})
	for i, e := range root {
		pr, ok := e.([]interface{})
		if !ok || len(pr) != 2 || i >= len(order) {
			continue
		}
		name := order[i].name
		if order[i].op != OVar && order[i].op != OBVar && order[i].op != OFVar {
			name = fmt.Sprintf("t%d", order[i].id)
		}
		m[name] = parseSMTVal(pr[1])
	}
}

func parseSMTVal(v interface{}) uint64 {
	switch x := v.(type) {
	case string:
		var u uint64
		switch {
		case x == "true":
			return 1
		case x == "false":
			return 0
		case strings.HasPrefix(x, "#x"):
			fmt.Sscanf(x[2:], "%x", &u)
		case strings.HasPrefix(x, "#b"):
			for _, c := range x[2:] {
				u = u<<1 | uint64(c-'0')
			}
		default:
			fmt.Sscanf(x, "%d", &u)
		}
		return u
	case []interface{}:
		if len(x) >= 2 {
			if s, ok := x[0].(string); ok && s == "fp" && len(x) == 4 {
				return parseSMTVal(x[1])<<63 | parseSMTVal(x[2])<<52 | parseSMTVal(x[3])
			}
			if s, ok := x[1].(string); ok {
				switch {
				case strings.HasPrefix(s, "bv"):
					var u uint64
					fmt.Sscanf(s[2:], "%d", &u)
					return u
				case s == "+zero":
					return 0
				case s == "-zero":
					return 1 << 63
				case s == "+oo":
					return 0x7FF << 52
				case s == "-oo":
					return 0xFFF << 52
				case s == "NaN":
					return 0x7FF8 << 48
				}
			}
		}
	}
	return 0
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i+1:j])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// solveFresh races one-shot solvers on the conjunction.
func solveFresh(cs []*Term, timeout time.Duration) (int, Model, string) {
	for _, c := range cs {
		if c == tFalse {
			return rUnsat, nil, "simplifier"
		}
	}
	var sb strings.Builder
	p := &printer{sb: &sb, done: map[*Term]bool{}}
	for _, c := range cs {
		p.emit(c)
	}
	for _, c := range cs {
		if c != tTrue {
			fmt.Fprintf(&sb, "(assert %s)\n", p.ref(c))
		}
	}
	sb.WriteString("(check-sat)\n")
	if len(p.vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range p.vars {
			sb.WriteString(p.ref(v) + " ")
		}
		sb.WriteString("))\n")
	}
	body := sb.String()
	hasFP := strings.Contains(body, "fp.") || strings.Contains(body, "to_fp")
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type result struct {
		r    int
		m    Model
		name string
	}
	cfgs := [][]string{{"z3-new", "-in", "-memory:8000"}, {"cvc5", "--produce-models", "--lang=smt2"}}
	if hasFP {
		cfgs = append(cfgs, []string{"z3", "-in", "-memory:8000"})
	} else {
		cfgs = append(cfgs, []string{"cvc5", "--produce-models", "--lang=smt2", "--solve-bv-as-int=sum"})
	}
	ch := make(chan result, len(cfgs))
	for _, c := range cfgs {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			pre := ""
			if c[0] == "cvc5" {
				pre = "(set-logic ALL)\n"
			}
			cmd.Stdin = strings.NewReader(pre + body)
			out, _ := cmd.Output()
			s := string(out)
			r := result{r: rUnknown, name: c[0]}
			f := s
			if i := strings.IndexByte(s, '\n'); i >= 0 {
				f = s[:i]
			}
			switch strings.TrimSpace(f) {
			case "unsat":
				r.r = rUnsat // the get-value error afterwards is expected
			case "sat":
				r.r = rSat
				r.m = Model{}
				parseValues(s[strings.IndexByte(s, '\n')+1:], p.vars, r.m)
			}
			ch <- r
		}()
	}
	best := result{r: rUnknown}
	for range cfgs {
		r := <-ch
		if r.r != rUnknown {
			best = r
			break
		}
	}
	cancel()
	note(best.r, time.Since(t0))
	return best.r, best.m, best.name
}

// checkRaw asserts that some pair (impl side, spec side) differs; both sides
// are printed from their normal forms.
func checkRaw(parts []*Term) int {
	if inc == nil {
		inc = startInc()
	}
	t0 := time.Now()
	var sb strings.Builder
	p := &printer{sb: &sb, done: inc.done}
	for _, c := range parts {
		p.emit(c)
	}
	sb.WriteString("(push)\n(assert (or false")
	for _, c := range parts {
		fmt.Fprintf(&sb, " (distinct %s %s)", p.ref(c), p.ref(c))
	}
	sb.WriteString("))\n(check-sat)\n(pop)\n(echo \"done\")\n")
	return rawQuery(sb.String(), t0)
}

// rawQuery sends one push/pop-enclosed script to the incremental solver.
func rawQuery(text string, t0 time.Time) int {
	if inc == nil {
		inc = startInc()
	}
	io.WriteString(inc.in, text)
	res := rUnknown
	for {
		l, err := inc.out.ReadString('\n')
		if err != nil {
			killInc()
			break
		}
		l = strings.Trim(strings.TrimSpace(l), "\"")
		if l == "done" {
			break
		}
		if l == "unsat" {
			res = rUnsat
		} else if l == "sat" {
			res = rSat
		}
	}
	note(res, time.Since(t0))
	return res
}

// linBound asks the solver (linear real arithmetic) whether the sum of bounded
// monomials d can exceed 2^tol in absolute value. Monomials are abstracted to
// independent reals within their bounds, so unsat is conclusive.
func linBound(d *Term, tol int) bool {
	if tol < 0 || tol >= d.w-2 {
		return false
	}
	var dec, sum strings.Builder
	dec.WriteString("(push)\n")
	sum.WriteString("(+ 0")
	for i, m := range polyOf(d) {
		lo, hi := 1.0, 1.0
		for _, a := range m.m.atoms {
			l, h, ok := atomBound(a)
			if !ok {
				return false
			}
			c := []float64{lo * l, lo * h, hi * l, hi * h}
			lo, hi = c[0], c[0]
			for _, x := range c {
				lo, hi = math.Min(lo, x), math.Max(hi, x)
			}
		}
		if hi > 1e15 || lo < -1e15 {
			return false
		}
		c := sx(m.c, d.w)
		num := func(x int64) string {
			if x < 0 {
				return fmt.Sprintf("(- %d)", uint64(-x))
			}
			return fmt.Sprintf("%d", x)
		}
		fmt.Fprintf(&dec, "(declare-const m!%d Real)\n(assert (and (<= %s m!%d) (<= m!%d %s)))\n", i, num(int64(lo)), i, i, num(int64(hi)))
		fmt.Fprintf(&sum, " (* %s m!%d)", num(c), i)
	}
	sum.WriteString(")")
	lim := uint64(1) << uint(tol)
	dec.WriteString(fmt.Sprintf("(define-fun s!() Real %s)\n(assert (or (> s! %d) (< s! (- %d))))\n(check-sat)\n(pop)\n(echo \"done\")\n", sum.String(), lim, lim))
	return rawQuery(dec.String(), time.Now()) == rUnsat
}

func atomBound(a *Term) (float64, float64, bool) {
	if b, ok := errBound[a]; ok {
		x := float64(uint64(1) << uint(b))
		return -x, x, true
	}
	if d := digitOf[a]; d != nil {
		x := float64(uint64(1) << uint(d.logB-1))
		return -x, x, true
	}
	if u := umaxOf(a); u < 1<<48 {
		return 0, float64(u), true
	}
	return 0, 0, false
}
