package main

// Loading: /repo's current working tree, type-checked and built into SSA on every run.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	fns  map[string]*ssa.Function // "pkg.F", "pkg.(*T).M", "pkg.T.M"
}

const go124 = "/opt/veriftools/go1.24.13/bin"

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOMODCACHE", "GOCACHE", "HOME", "GOWORK":
			continue
		}
		out = append(out, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat(go124); err == nil {
		path = go124 + ":" + path
	}
	return append(out, "PATH="+path, "HOME=/root", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build")
}

func load(repo string) (*Prog, error) {
	for _, e := range goEnv() {
		kv := strings.SplitN(e, "=", 2)
		os.Setenv(kv[0], kv[1])
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir: repo,
		Env: goEnv(),
	}
	// dependencies are loaded from export data: no NeedDeps bodies are needed for them
	cfg.Mode &^= packages.NeedDeps
	pats := []string{".", "./plugin/tfd", "./internal/...", "./cmd/ratelimiter-api"}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{}}
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		P.pkgs[p.Pkg.Path()] = p
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.fns[fnName(m)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for j := 0; j < ms.Len(); j++ {
						if f := prog.MethodValue(ms.At(j)); f != nil && f.Synthetic == "" && f.Blocks != nil {
							P.fns[fnName(f)] = f
						}
					}
				}
			}
		}
	}
	return P, nil
}

// fnName gives "path.F" or "path.(*T).M" / "path.T.M".
func fnName(f *ssa.Function) string { return f.RelString(nil) }

// normName drops the parentheses and pointer of a receiver, so that a contract keeps its target
// when a method's receiver kind changes.
func normName(s string) string {
	s = strings.ReplaceAll(s, "(*", "")
	s = strings.ReplaceAll(s, "(", "")
	return strings.ReplaceAll(s, ")", "")
}

func (p *Prog) lookup(name string) *ssa.Function {
	if f := p.fns[name]; f != nil {
		return f
	}
	n := normName(name)
	var ks []string
	for k := range p.fns {
		if normName(k) == n {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		return p.fns[ks[0]]
	}
	return nil
}

func (p *Prog) typ(name string) types.Type {
	if n, ok := strings.CutPrefix(name, "*"); ok {
		if t := p.typ(n); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil
	}
	pk := p.prog.ImportedPackage(name[:i])
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name[i+1:])
	if o == nil {
		return nil
	}
	return o.Type()
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(exe)
		for i := 0; i < 4; i++ {
			if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
				return d
			}
			d = filepath.Dir(d)
		}
	}
	return "/verif"
}
