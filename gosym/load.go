package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA of the repository (plus overlay packages), built from the
// working tree at load time.
type Program struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	module string
	repo   string
	over   map[string]string // overlay: virtual path -> real path
	errs   []string
}

// overlayFiles maps harness directories into the repository's module.
// hdir/<pkg>/*.go  -> repo/zzverif/<pkg>/*.go
// hdir/inpkg/<dir>/*.go -> repo/<dir>/*.go   (only when requested)
// app: the program itself (package main of the repository's root) as the
// importable package zzverif/app, next to the harness's hdir/app/*.go
func overlayFiles(hdir, repo, tmp string, dirs []string) (map[string]string, error) {
	out := map[string]string{}
	add := func(src, dst string) {
		fs, _ := filepath.Glob(filepath.Join(src, "*.go"))
		for _, f := range fs {
			out[filepath.Join(dst, filepath.Base(f))] = f
		}
	}
	for _, d := range dirs {
		if strings.HasPrefix(d, "inpkg/") {
			// inpkg/<name>:<repo dir>
			src, dst := d, ""
			if i := strings.Index(d, ":"); i >= 0 {
				src, dst = d[:i], d[i+1:]
			}
			add(filepath.Join(hdir, src), filepath.Join(repo, dst))
		} else {
			add(filepath.Join(hdir, d), filepath.Join(repo, "zzverif", d))
		}
		if d != "app" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(repo, "*.go"))
		for i, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			t := token.NewFileSet()
			a, err := parser.ParseFile(t, f, src, parser.PackageClauseOnly)
			if err != nil {
				return nil, err
			}
			if a.Name.Name != "main" {
				continue
			}
			at, end := t.Position(a.Name.Pos()).Offset, t.Position(a.Name.End()).Offset
			nw := filepath.Join(tmp, fmt.Sprintf("app%d.go", i))
			if err := os.WriteFile(nw, []byte(string(src[:at])+"app"+string(src[end:])), 0644); err != nil {
				return nil, err
			}
			out[filepath.Join(repo, "zzverif", "app", "zz_"+filepath.Base(f))] = nw
		}
	}
	return out, nil
}

func loadProgram(repo, hdir, tmp string, dirs []string, pats []string) (*Program, error) {
	over, err := overlayFiles(hdir, repo, tmp, dirs)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for v, r := range over {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOWORK=off"),
	}
	if len(pats) == 0 {
		for _, d := range dirs {
			if !strings.HasPrefix(d, "inpkg/") {
				pats = append(pats, "./zzverif/"+d)
			}
		}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Program{pkgs: map[string]*ssa.Package{}, repo: repo, over: over}
	packages.Visit(ps, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			p.errs = append(p.errs, e.Error())
		}
	})
	if len(p.errs) > 0 {
		sort.Strings(p.errs)
		return p, fmt.Errorf("load: %s", strings.Join(p.errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p.prog = prog
	for _, q := range prog.AllPackages() {
		p.pkgs[q.Pkg.Path()] = q
	}
	for _, q := range ps {
		if q.Module != nil {
			p.module = q.Module.Path
		}
	}
	if p.module == "" {
		p.module = "uniswap-simulator"
	}
	return p, nil
}

func (p *Program) inModule(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && (pk.Pkg.Path() == p.module || strings.HasPrefix(pk.Pkg.Path(), p.module+"/"))
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg
		}
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return fn.Prog.Package(o.Pkg())
	}
	return nil
}

func fnName(fn *ssa.Function) string { return fn.String() }

var _ = types.Typ
