package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type nativeCase struct {
	Harness string            `json:"harness"`
	Values  map[string]uint64 `json:"values,omitempty"`
	Random  bool              `json:"random"`
	Seed    uint64            `json:"seed"`
}

type nativeRes struct {
	Index   int               `json:"index"`
	Start   bool              `json:"start"`
	Fails   []string          `json:"fails"`
	Panic   string            `json:"panic"`
	Skipped bool              `json:"skipped"`
	Obs     map[string]uint64 `json:"obs"`
	Covers  map[string]bool   `json:"covers"`
	Used    map[string]uint64 `json:"used"`
	Ran     bool              `json:"-"`
}

func (r *nativeRes) bad() string {
	if r == nil || !r.Ran || r.Skipped {
		return ""
	}
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if len(r.Fails) > 0 {
		return r.Fails[0]
	}
	return ""
}

// nativeBins builds and runs the native replay binaries.
type nativeBins struct {
	dir string
	mu  sync.Mutex
	bin map[string]string
	err map[string]error
	hs  []HarnessInfo
	n   int
}

func buildKind(mode string) string {
	if mode == "purego" {
		return "purego"
	}
	return "default"
}

func (nb *nativeBins) build(pkg, mode string) (string, error) {
	nb.mu.Lock()
	defer nb.mu.Unlock()
	kind := buildKind(mode)
	key := pkg + "|" + kind
	if b, ok := nb.bin[key]; ok {
		return b, nb.err[key]
	}
	b, err := nb.build1(pkg, kind)
	nb.bin[key], nb.err[key] = b, err
	return b, err
}

func (nb *nativeBins) build1(pkg, kind string) (string, error) {
	id := strings.ReplaceAll(pkg, "/", "_") + "_" + kind
	d := filepath.Join(nb.dir, id)
	os.MkdirAll(d, 0755)
	ov, err := harnessFiles(map[string]bool{pkg: true})
	if err != nil {
		return "", err
	}
	repl := map[string]string{}
	i := 0
	for dst, b := range ov {
		f := filepath.Join(d, fmt.Sprintf("f%d.go", i))
		i++
		os.WriteFile(f, b, 0644)
		repl[dst] = f
	}
	// the package's own tests are not part of the replay binary
	ents, _ := os.ReadDir(filepath.Join(repoDir, pkg))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			repl[filepath.Join(repoDir, pkg, e.Name())] = ""
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "//go:build verifharness\n\npackage %s\n\nimport \"testing\"\n\nfunc TestVerifReplay(t *testing.T) {\n\tvRunAll(map[string]func(){\n", filepath.Base(pkg))
	for _, h := range nb.hs {
		if h.Pkg == pkg {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", h.Name, h.Name)
		}
	}
	sb.WriteString("\t})\n}\n")
	tf := filepath.Join(d, "zz_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0644)
	repl[filepath.Join(repoDir, pkg, "zz_verif_test.go")] = tf
	oj, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	of := filepath.Join(d, "overlay.json")
	os.WriteFile(of, oj, 0644)
	bin := filepath.Join(d, "replay.test")
	tags := "verifharness"
	if kind == "purego" {
		tags += ",purego"
	}
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-tags="+tags, "-overlay="+of, "-o", bin, "./"+pkg)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build %s/%s: %v\n%s", pkg, kind, err, out)
	}
	return bin, nil
}

// run executes cases natively; a crashing or hanging case is reported as a panic.
func (nb *nativeBins) run(pkg, mode string, cases []nativeCase, perCase time.Duration, deadline time.Time) ([]*nativeRes, error) {
	res := make([]*nativeRes, len(cases))
	for i := range res {
		res[i] = &nativeRes{}
	}
	if len(cases) == 0 {
		return res, nil
	}
	bin, err := nb.build(pkg, mode)
	if err != nil {
		return nil, err
	}
	base := 0
	crashes := 0
	for base < len(cases) && crashes < 6 {
		nb.mu.Lock()
		nb.n++
		n := nb.n
		nb.mu.Unlock()
		cf := filepath.Join(nb.dir, fmt.Sprintf("cases%d.json", n))
		of := filepath.Join(nb.dir, fmt.Sprintf("out%d.json", n))
		b, _ := json.Marshal(cases[base:])
		os.WriteFile(cf, b, 0644)
		os.Remove(of)
		cmd := exec.Command(bin, "-test.run=TestVerifReplay$", "-test.timeout=0")
		cmd.Dir = nb.dir
		env := append(goEnv(), "VERIF_CASES="+cf, "VERIF_OUT="+of)
		if mode == "fallback" {
			env = append(env, "GODEBUG=cpu.all=off")
		}
		cmd.Env = env
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var eb strings.Builder
		cmd.Stderr = &limWriter{w: &eb, n: 4000}
		cmd.Stdout = cmd.Stderr
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		budget := perCase * time.Duration(len(cases)-base)
		if budget > 120*time.Second {
			budget = 120 * time.Second
		}
		if r := time.Until(deadline); budget > r {
			budget = r
		}
		hung := false
		var werr error
		select {
		case werr = <-done:
		case <-time.After(budget):
			hung = true
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
		started, ended := -1, -1
		if data, err := os.ReadFile(of); err == nil {
			for _, ln := range strings.Split(string(data), "\n") {
				var r nativeRes
				if json.Unmarshal([]byte(ln), &r) != nil {
					continue
				}
				if r.Start {
					started = r.Index
					continue
				}
				ended = r.Index
				r.Ran = true
				rr := r
				res[base+r.Index] = &rr
			}
		}
		if !hung && werr == nil {
			break
		}
		if hung {
			// a hang is not treated as a violation; give up on the rest
			break
		}
		crashes++
		if started > ended {
			msg := "process crashed"
			for _, ln := range strings.Split(eb.String(), "\n") {
				if strings.HasPrefix(ln, "panic:") || strings.HasPrefix(ln, "fatal error:") || strings.HasPrefix(ln, "unexpected fault") {
					msg = ln
					break
				}
			}
			res[base+started] = &nativeRes{Ran: true, Panic: msg}
			base += started + 1
		} else {
			return res, fmt.Errorf("replay binary failed: %v %s", werr, eb.String())
		}
	}
	return res, nil
}

type limWriter struct {
	w *strings.Builder
	n int
}

func (l *limWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.w.Write(q)
	}
	return len(p), nil
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown() []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		return nil
	}
	for _, k := range f.Findings {
		if k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

type hrun struct {
	h    HarnessInfo
	mode string
	res  *HResult
}

func tierSel(h HarnessInfo, tier string) bool {
	if t, ok := h.Opts["tier"]; ok && t != tier {
		return false
	}
	return true
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	only := fs.String("only", "", "substring of harness names")
	modesF := fs.String("modes", "", "restrict modes")
	verbose := fs.Bool("v", false, "verbose")
	noEv := fs.Bool("noevidence", false, "do not write evidence")
	workers := fs.Int("workers", 8, "worker processes")
	fs.Parse(args)
	if r := os.Getenv("VERIF_DIR"); r != "" {
		verifDir = r
	}
	t0 := time.Now()
	total := 780 * time.Second
	if *tier == "thorough" {
		total = 840 * time.Second
		if s := os.Getenv("VERIF_THOROUGH_S"); s != "" {
			if n, err := strconv.Atoi(s); err == nil {
				total = time.Duration(n) * time.Second
			}
		}
	}
	deadline := t0.Add(total)
	symDeadline := t0.Add(total - 150*time.Second)
	if *tier == "thorough" {
		symDeadline = t0.Add(total - 200*time.Second)
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	hs, err := allHarnesses()
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	scratch, err := os.MkdirTemp("", "vsym-")
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	cleanup := func() { os.RemoveAll(scratch) }
	nb := &nativeBins{dir: scratch, bin: map[string]string{}, err: map[string]error{}, hs: hs}

	var runs []*hrun
	for _, h := range hs {
		if h.Prop != *prop || !tierSel(h, *tier) || *only != "" && !strings.Contains(h.Name, *only) {
			continue
		}
		for _, m := range h.Modes {
			if *modesF != "" && !strings.Contains(","+*modesF+",", ","+m+",") {
				continue
			}
			runs = append(runs, &hrun{h: h, mode: m})
		}
	}
	if len(runs) == 0 {
		fmt.Println("ERROR no harness for", *prop)
		cleanup()
		os.Exit(2)
	}
	// start native builds in the background
	var bwg sync.WaitGroup
	seenB := map[string]bool{}
	for _, r := range runs {
		k := r.h.Pkg + "|" + buildKind(r.mode)
		if !seenB[k] {
			seenB[k] = true
			bwg.Add(1)
			go func(p, m string) { defer bwg.Done(); nb.build(p, m) }(r.h.Pkg, r.mode)
		}
	}
	// group into jobs: same mode and package
	groups := map[string][]*hrun{}
	var gk []string
	for _, r := range runs {
		k := r.mode + "|" + r.h.Pkg
		if _, ok := groups[k]; !ok {
			gk = append(gk, k)
		}
		groups[k] = append(groups[k], r)
	}
	sort.Strings(gk)
	weight := func(r *hrun) int { return optInt(r.h, *tier, "weight", 10) }
	totalW := 0
	for _, r := range runs {
		totalW += weight(r) + 1
	}
	target := totalW / *workers + 1
	type jobT struct {
		runs []*hrun
		mode string
		pkgs []string
		w    int
	}
	var jobs []*jobT
	for _, k := range gk {
		rs := groups[k]
		sort.SliceStable(rs, func(i, j int) bool { return weight(rs[i]) > weight(rs[j]) })
		sum := 0
		for _, r := range rs {
			sum += weight(r)
		}
		nj := (sum + target - 1) / target
		if nj < 1 {
			nj = 1
		}
		if nj > len(rs) {
			nj = len(rs)
		}
		js := make([]*jobT, nj)
		for i := range js {
			js[i] = &jobT{mode: rs[0].mode, pkgs: []string{rs[0].h.Pkg}}
		}
		for _, r := range rs {
			b := js[0]
			for _, j := range js {
				if j.w < b.w {
					b = j
				}
			}
			b.runs = append(b.runs, r)
			b.w += weight(r)
		}
		jobs = append(jobs, js...)
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].w > jobs[j].w })
	budget := symDeadline.Sub(time.Now()).Seconds()
	jc := make(chan *jobT, len(jobs))
	for _, j := range jobs {
		jc <- j
	}
	close(jc)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var engineErrs []string
	njob := 0
	var graceAt time.Time
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jc {
				mu.Lock()
				njob++
				id := njob
				mu.Unlock()
				rem := time.Until(symDeadline).Seconds()
				mu.Lock()
				if !graceAt.IsZero() {
					rem = minf(rem, time.Until(graceAt).Seconds())
				}
				mu.Unlock()
				if rem < 5 {
					continue
				}
				job := Job{Mode: j.mode, Pkgs: j.pkgs, Tier: *tier, Budget: minf(budget*0.6, rem*0.8)}
				for _, r := range j.runs {
					job.Harnesses = append(job.Harnesses, r.h.Name)
				}
				jf := filepath.Join(scratch, fmt.Sprintf("job%d.json", id))
				of := filepath.Join(scratch, fmt.Sprintf("res%d.json", id))
				b, _ := json.Marshal(job)
				os.WriteFile(jf, b, 0644)
				exe, _ := os.Executable()
				cmd := exec.Command(exe, "worker", jf, of)
				cmd.Env = append(os.Environ(), "GOGC=200", "GOMEMLIMIT=6GiB")
				cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
				var eb strings.Builder
				stopAt := func() time.Time {
					mu.Lock()
					defer mu.Unlock()
					if !graceAt.IsZero() && graceAt.Before(symDeadline) {
						return graceAt
					}
					return symDeadline
				}
				lw := &limWriter{w: &eb, n: 20000}
				if *verbose {
					cmd.Stderr = os.Stderr
				} else {
					cmd.Stderr = lw
				}
				err := cmd.Start()
				if err == nil {
					done := make(chan error, 1)
					go func() { done <- cmd.Wait() }()
				wait:
					for {
						select {
						case err = <-done:
							break wait
						case <-time.After(500 * time.Millisecond):
							if time.Now().After(stopAt()) {
								syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
								<-done
								err = fmt.Errorf("worker stopped at the time limit")
								break wait
							}
							// a counterexample ends the exploration soon after
							if b, e := os.ReadFile(of + ".cex"); e == nil && len(b) > 0 {
								mu.Lock()
								if graceAt.IsZero() {
									graceAt = time.Now().Add(60 * time.Second)
								}
								mu.Unlock()
							}
						}
					}
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				var out struct {
					Error   string     `json:"error"`
					Results []*HResult `json:"results"`
				}
				rb, _ := os.ReadFile(of)
				json.Unmarshal(rb, &out)
				mu.Lock()
				if err != nil {
					msg := err.Error()
					if i := strings.Index(eb.String(), "panic:"); i >= 0 {
						s := eb.String()[i:]
						msg += " " + s[:min(len(s), 300)]
					}
					engineErrs = append(engineErrs, msg)
				}
				if out.Error != "" {
					engineErrs = append(engineErrs, out.Error)
				}
				for _, x := range out.Results {
					for _, r := range j.runs {
						if r.h.Name == x.Harness && r.mode == x.Mode {
							r.res = x
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	bwg.Wait()
	symWall := time.Since(t0).Seconds()

	type viol struct {
		run    *hrun
		msg    string
		values map[string]uint64
		random bool
		seed   uint64
		how    string
	}
	var viols []viol
	var notes []string
	unconfirmed := 0
	validated := 0
	mismatched := 0
	incomplete := 0
	for k, e := range nb.err {
		if e != nil {
			notes = append(notes, "native build failed for "+k+": "+firstLines(e.Error(), 6))
		}
	}
	for _, r := range runs {
		res := r.res
		if res == nil {
			res = &HResult{Harness: r.h.Name, Mode: r.mode, Incomplete: []string{"not run to completion by the worker"}}
			r.res = res
		}
		var cases []nativeCase
		type tagT struct {
			kind string
			idx  int
		}
		var tags []tagT
		for i, c := range res.Cex {
			reps := 8
			for k := 0; k < reps; k++ {
				cases = append(cases, nativeCase{Harness: r.h.Name, Values: c.Values})
				tags = append(tags, tagT{"cex", i})
			}
		}
		if len(res.Cex) > 0 {
			for k := 0; k < 120; k++ {
				cases = append(cases, nativeCase{Harness: r.h.Name, Random: true, Seed: uint64(seed)*1000 + uint64(k)})
				tags = append(tags, tagT{"rand", k})
			}
		}
		for i, c := range res.Witness {
			if len(c.Values) == 0 && i > 0 {
				break
			}
			cases = append(cases, nativeCase{Harness: r.h.Name, Values: c.Values})
			tags = append(tags, tagT{"wit", i})
		}
		missing := false
		for _, ok := range res.Covers {
			missing = missing || !ok
		}
		if len(res.Cex) == 0 && (len(res.Incomplete) > 0 || missing) {
			incomplete++
			for k := 0; k < 60; k++ {
				cases = append(cases, nativeCase{Harness: r.h.Name, Random: true, Seed: uint64(seed)*1000 + uint64(k)})
				tags = append(tags, tagT{"inc", k})
			}
		}
		nres, err := nb.run(r.h.Pkg, r.mode, cases, 20*time.Second, deadline)
		if err != nil {
			notes = append(notes, firstLines(err.Error(), 6))
			if nres == nil {
				unconfirmed += len(res.Cex)
				continue
			}
		}
		found := map[string]bool{}
		covers := map[string]bool{}
		nran := 0
		anyCex := false
		for i, nr := range nres {
			if nr.Ran && !nr.Skipped {
				nran++
			}
			for c := range nr.Covers {
				covers[c] = true
			}
			bad := nr.bad()
			switch tags[i].kind {
			case "cex":
				if bad != "" {
					anyCex = true
					c := res.Cex[tags[i].idx]
					if !found[bad] {
						found[bad] = true
						viols = append(viols, viol{run: r, msg: bad, values: c.Values, how: "solver counterexample (" + c.Msg + "), replayed natively"})
					}
				}
			case "rand":
				if bad != "" && !anyCex && !found[bad] && len(found) < 3 {
					found[bad] = true
					viols = append(viols, viol{run: r, msg: bad, values: nr.Used, random: nr.Used == nil, seed: cases[i].Seed, how: "solver counterexample (" + res.Cex[0].Msg + "), confirmed natively on a concrete input"})
				}
			case "wit":
				c := res.Witness[tags[i].idx]
				if bad != "" {
					if !found[bad] {
						found[bad] = true
						viols = append(viols, viol{run: r, msg: bad, values: c.Values, how: "native replay of a solver witness fails the assertion"})
					}
					continue
				}
				if nr.Ran && !nr.Skipped {
					ok := true
					for k, v := range c.Obs {
						got, have := nr.Obs[k]
						if !have || !obsClose(got, v, c.Tols[k]) {
							ok = false
							if mismatched < 5 {
								notes = append(notes, fmt.Sprintf("witness mismatch %s/%s %s: encoding %x native %x (present %v)", r.h.Name, r.mode, k, v, got, have))
							}
							break
						}
					}
					if ok {
						validated++
					} else {
						mismatched++
					}
				} else if nr.Ran && nr.Skipped {
					notes = append(notes, fmt.Sprintf("witness %s/%s skipped natively", r.h.Name, r.mode))
					mismatched++
				}
			case "inc":
				if bad != "" && !found[bad] && len(found) < 3 {
					found[bad] = true
					viols = append(viols, viol{run: r, msg: bad, values: nr.Used, random: nr.Used == nil, seed: cases[i].Seed, how: "encoding incomplete; concrete execution of the harness fails the assertion"})
				}
			}
		}
		if len(res.Cex) > 0 && len(found) == 0 {
			unconfirmed++
			notes = append(notes, fmt.Sprintf("counterexample of %s/%s not reproduced natively: %s", r.h.Name, r.mode, res.Cex[0].Msg))
		}
		if missing && len(res.Incomplete) == 0 && len(res.Cex) == 0 {
			for c, ok := range res.Covers {
				if !ok && !covers[c] && nran > 20 {
					viols = append(viols, viol{run: r, msg: "required outcome unreachable: " + c, values: map[string]uint64{}, how: "solver: no assignment reaches this outcome; native runs neither"})
				}
			}
		}
	}
	// report
	known := loadKnown()
	replayDir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(replayDir, 0755)
	nviol := 0
	var evViol []map[string]interface{}
	printedKnown := map[string]bool{}
	perH := map[string]int{}
	for i, v := range viols {
		isKnown := false
		for _, k := range known {
			if k.Property == *prop && k.Harness == v.run.h.Name && (k.Msg == "" || strings.HasPrefix(v.msg, k.Msg)) {
				isKnown = true
				if !printedKnown[k.What] {
					printedKnown[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				}
				break
			}
		}
		if isKnown {
			continue
		}
		if perH[v.run.h.Name+v.run.mode]++; perH[v.run.h.Name+v.run.mode] > 4 {
			continue
		}
		rp := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%s-%d.json", *prop, v.run.h.Name, v.run.mode, i))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "harness": v.run.h.Name, "pkg": v.run.h.Pkg, "mode": v.run.mode, "values": v.values, "random": v.random, "seed": v.seed, "message": v.msg, "how": v.how}, "", " ")
		os.WriteFile(rp, b, 0644)
		fmt.Printf("%s [%s] %s: %s\n", v.run.h.Name, v.run.mode, v.how, v.msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		evViol = append(evViol, map[string]interface{}{"property": *prop, "replay": rp})
		nviol++
	}
	if *verbose || nviol == 0 {
		for _, n := range notes {
			fmt.Println("note:", n)
		}
	}
	for _, e := range engineErrs {
		fmt.Println("engine:", firstLines(e, 4))
	}
	ev := makeEvidence(*prop, *tier, seed, runs, validated, mismatched, unconfirmed, engineErrs, notes, time.Since(t0).Seconds())
	if evViol != nil {
		ev["violations"] = evViol
	}
	if !*noEv && *only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
		os.WriteFile(filepath.Join(verifDir, "evidence", *prop+".json"), b, 0644)
	}
	ob, dis, unk, paths := 0, 0, 0, 0
	for _, r := range runs {
		ob += r.res.Obligations
		dis += r.res.Discharged
		unk += r.res.Unknown
		paths += r.res.Paths
		if *verbose || len(r.res.Incomplete) > 0 {
			fmt.Printf("  %-44s %-8s paths=%d obl=%d dis=%d triv=%d unk=%d vac=%d wit=%d cex=%d steps=%dk terms=%d q=%d solver=%.1fs wall=%.1fs %s\n", r.h.Name, r.mode, r.res.Paths, r.res.Obligations, r.res.Discharged, r.res.Trivial, r.res.Unknown, r.res.Vacuous, len(r.res.Witness), len(r.res.Cex), r.res.Steps/1000, r.res.Terms, r.res.Stats.Queries, r.res.Stats.Time.Seconds(), r.res.Wall, strings.Join(uniqStr(r.res.Incomplete), " | "))
			for c, ok := range r.res.Covers {
				if !ok {
					fmt.Printf("    cover not reached: %s\n", c)
				}
			}
		}
	}
	fmt.Printf("%s %s: harness runs=%d paths=%d obligations=%d discharged=%d unknown=%d incomplete=%d witnesses validated=%d mismatched=%d unconfirmed=%d violations=%d sym=%.0fs wall=%.0fs\n", *prop, *tier, len(runs), paths, ob, dis, unk, incomplete, validated, mismatched, unconfirmed, nviol, symWall, time.Since(t0).Seconds())
	cleanup()
	if nviol > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func obsClose(a, b uint64, tol int) bool {
	if a == b {
		return true
	}
	if tol < 0 {
		return false
	}
	d := int64(a - b)
	if d < 0 {
		d = -d
	}
	d32 := int64(int32(uint32(a) - uint32(b)))
	if d32 < 0 {
		d32 = -d32
	}
	lim := int64(1) << uint(tol)
	return d <= lim || a>>32 == 0 && b>>32 == 0 && d32 <= lim
}

func minf(a, b float64) float64 {
	if a < b {
		return a
	}
	return b
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "; ")
}

func uniqStr(a []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range a {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func makeEvidence(prop, tier string, seed int, runs []*hrun, validated, mismatched, unconfirmed int, errs, notes []string, wall float64) map[string]interface{} {
	funcs, asmf := map[string]bool{}, map[string]bool{}
	stubs := map[string]int{}
	ob, dis, by, triv, unk, paths, q := 0, 0, 0, 0, 0, 0, 0
	steps := int64(0)
	var st time.Duration
	var samples []string
	var hl []map[string]interface{}
	for _, r := range runs {
		x := r.res
		ob += x.Obligations
		dis += x.Discharged
		by += x.BySolver
		triv += x.Trivial
		unk += x.Unknown
		paths += x.Paths
		steps += x.Steps
		q += x.Stats.Queries
		st += x.Stats.Time
		for f := range x.Funcs {
			funcs[f] = true
		}
		for f := range x.AsmFuncs {
			asmf[f] = true
		}
		for s, n := range x.Stubs {
			stubs[s] += n
		}
		if len(samples) < 8 && len(x.Samples) > 0 {
			samples = append(samples, x.Samples[0])
		}
		m := map[string]interface{}{"harness": r.h.Name, "mode": r.mode, "doc": strings.TrimSpace(r.h.Doc), "paths": x.Paths, "obligations": x.Obligations, "discharged": x.Discharged, "solver_queries": x.Stats.Queries, "solver_s": round2(x.Stats.Time.Seconds()), "wall_s": round2(x.Wall)}
		if len(x.Incomplete) > 0 {
			m["incomplete"] = uniqStr(x.Incomplete)
		}
		hl = append(hl, m)
	}
	if len(samples) == 0 {
		samples = []string{"none: no completed path"}
	}
	cov := map[string]interface{}{
		"explanation": "Symbolic execution of the Go SSA (and Plan 9 AVX2 assembly) of the functions listed, regenerated from the current tree; every assertion instance is decided over all values of the symbolic inputs within the harness bounds by normal-form reduction modulo 2^w followed by an SMT query (z3, raced with cvc5); counterexamples and witnesses are replayed against the compiled code.",
		"harnesses":   hl, "functions_encoded": sortedKeys(funcs), "asm_functions_encoded": sortedKeys(asmf),
		"obligations": ob, "discharged": dis, "discharged_with_solver": by, "equal_normal_forms": triv, "unknown": unk, "states_are": "completed symbolic execution paths", "transitions_are": "SSA/assembly instructions executed symbolically",
		"solver_queries": q, "solver_s": round2(st.Seconds()), "stubs": stubs, "witness_mismatches": mismatched, "unconfirmed_counterexamples": unconfirmed,
		"states": paths, "transitions": int(steps), "traces_validated_against_impl": validated, "samples": samples,
	}
	if len(errs) > 0 {
		cov["engine_errors"] = errs
	}
	if len(notes) > 0 {
		cov["notes"] = notes[:min(len(notes), 20)]
	}
	return map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round2(wall),
		"assumptions": []string{
			"bounds are those of each harness (ring degrees, dimensions, loop counts) as stated in its doc text; values outside are not claimed",
			"float64 arithmetic in the FFT is interpreted over the reals in form mode (coefficients within 1e-9 relative are identified); IEEE rounding error is outside the claim except in fp=1 harnesses",
			"random samplers are replaced by fresh arbitrary values (uniform), arbitrary bits (binary), or zero/bounded noise (gaussian)",
		}}
}

func round2(x float64) float64 { return float64(int64(x*100+0.5)) / 100 }

func sortedKeys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
