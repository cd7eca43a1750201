package main

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// VSYM_REPO (development only, never set by a registered command) points at a scratch copy.
var repoDir = envOr("VSYM_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var verifDir = "/verif"

const modPath = "github.com/sp301415/tfhe-go"

// HarnessInfo is one harness function.
type HarnessInfo struct {
	Name  string
	Prop  string
	Pkg   string // e.g. "tfhe", "math/vec"
	File  string
	Modes []string
	Opts  map[string]string
	Doc   string
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

// harnessFiles maps overlay path in the repository to contents.
func harnessFiles(pkgs map[string]bool) (map[string][]byte, error) {
	out := map[string][]byte{}
	rt, err := os.ReadFile(filepath.Join(verifDir, "harness", "rt.go.txt"))
	if err != nil {
		return nil, err
	}
	root := filepath.Join(verifDir, "harness")
	err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		dir := filepath.Dir(rel)
		if pkgs != nil && !pkgs[dir] {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out[filepath.Join(repoDir, dir, "zz_verif_"+filepath.Base(rel))] = b
		r := strings.Replace(string(rt), "package PKG", "package "+filepath.Base(dir), 1)
		out[filepath.Join(repoDir, dir, "zz_verif_rt.go")] = []byte(r)
		return nil
	})
	return out, err
}

func allHarnesses() ([]HarnessInfo, error) {
	var hs []HarnessInfo
	root := filepath.Join(verifDir, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		f, err := parseFile(p)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "VH_") {
				continue
			}
			parts := strings.SplitN(fd.Name.Name, "_", 3)
			h := HarnessInfo{Name: fd.Name.Name, Prop: parts[1], Pkg: filepath.Dir(rel), File: p, Modes: []string{"purego"}, Opts: map[string]string{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if strings.HasPrefix(t, "verif:") {
						for _, kv := range strings.Fields(strings.TrimPrefix(t, "verif:")) {
							k, v, _ := strings.Cut(kv, "=")
							if k == "modes" {
								h.Modes = strings.Split(v, ",")
							} else {
								h.Opts[k] = v
							}
						}
					} else {
						h.Doc += strings.TrimSpace(t) + " "
					}
				}
			}
			hs = append(hs, h)
		}
		return nil
	})
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs, err
}

type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by suffix
	dirs map[string]string
}

func loadProgram(pkgDirs []string, mode string) (*Program, error) {
	set := map[string]bool{}
	var pats []string
	for _, d := range pkgDirs {
		set[d] = true
		pats = append(pats, "./"+d)
	}
	ov, err := harnessFiles(set)
	if err != nil {
		return nil, err
	}
	tags := "verifharness"
	if mode == "purego" {
		tags += ",purego"
	}
	cfg := &packages.Config{
		Mode:       packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repoDir,
		Env:        goEnv(),
		BuildFlags: []string{"-tags=" + tags},
		Overlay:    ov,
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !isRepoPkg(p.PkgPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	pr := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, dirs: map[string]string{}}
	for _, sp := range prog.AllPackages() {
		if isRepoPkg(sp.Pkg.Path()) {
			pr.pkgs[strings.TrimPrefix(strings.TrimPrefix(sp.Pkg.Path(), modPath), "/")] = sp
		}
	}
	return pr, nil
}
