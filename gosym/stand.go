package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var standRe = regexp.MustCompile(`sym\.Stand\("([A-Za-z0-9_]+)"`)

// standOverlay returns, for native replays, copies of the repository's files
// in which every function the harness stands in for asks package hook first.
// The bodies are otherwise as in the working tree.
func standOverlay(repo, module, dir string, over map[string]string, pkgs []string) (map[string]string, error) {
	names := map[string]bool{}
	for _, r := range over {
		use := false
		for _, p := range pkgs {
			use = use || filepath.Base(filepath.Dir(r)) == p
		}
		if !use {
			continue
		}
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		for _, m := range standRe.FindAllSubmatch(b, -1) {
			names[string(m[1])] = true
		}
	}
	out := map[string]string{}
	if len(names) == 0 {
		return out, nil
	}
	n := 0
	put := func(p string, src []byte) error {
		nw, err := rewriteStand(src, names, module)
		if err != nil || nw == nil {
			return err
		}
		n++
		f := filepath.Join(dir, fmt.Sprintf("stand%d.go", n))
		if err := os.WriteFile(f, nw, 0644); err != nil {
			return err
		}
		out[p] = f
		return nil
	}
	for v, r := range over {
		if b := filepath.Base(v); strings.HasPrefix(b, "zz_") && filepath.Base(filepath.Dir(v)) == "app" {
			src, err := os.ReadFile(r)
			if err != nil {
				return nil, err
			}
			if err := put(v, src); err != nil {
				return nil, err
			}
		}
	}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := filepath.Base(p); p != repo && (strings.HasPrefix(b, ".") || b == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if _, ok := over[p]; ok {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return put(p, src)
	})
	return out, err
}

func rewriteStand(src []byte, names map[string]bool, module string) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil // the compiler will say why
	}
	type ins struct {
		at   int
		text string
	}
	var is []ins
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || !names[fd.Name.Name] {
			continue
		}
		var args []string
		good := true
		fields := func(fl *ast.FieldList) {
			if fl == nil {
				return
			}
			for _, x := range fl.List {
				if len(x.Names) == 0 {
					good = false
				}
				for _, nm := range x.Names {
					if nm.Name == "_" {
						good = false
					}
					args = append(args, nm.Name)
				}
			}
		}
		fields(fd.Recv)
		fields(fd.Type.Params)
		if !good {
			return nil, fmt.Errorf("cannot stand in for %s: unnamed parameter", fd.Name.Name)
		}
		var rets []string
		if fd.Type.Results != nil {
			for _, x := range fd.Type.Results.List {
				k := len(x.Names)
				if k == 0 {
					k = 1
				}
				for i := 0; i < k; i++ {
					rets = append(rets, fmt.Sprintf("zzr[%d].(%s)", len(rets), text(x.Type)))
				}
			}
		}
		bind := "zzr"
		if len(rets) == 0 {
			bind = "_"
		}
		t := fmt.Sprintf(" if %s, zzok := zzhook.Call(%q, %s); zzok { return %s }; ", bind, fd.Name.Name, strings.Join(args, ", "), strings.Join(rets, ", "))
		is = append(is, ins{off(fd.Body.Lbrace) + 1, t})
	}
	if len(is) == 0 {
		return nil, nil
	}
	is = append(is, ins{off(f.Name.End()), fmt.Sprintf("; import zzhook %q", module+"/zzverif/hook")})
	sort.Slice(is, func(a, b int) bool { return is[a].at < is[b].at })
	var w bytes.Buffer
	last := 0
	for _, i := range is {
		w.Write(src[last:i.at])
		w.WriteString(i.text)
		last = i.at
	}
	w.Write(src[last:])
	return w.Bytes(), nil
}
