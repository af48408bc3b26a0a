package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Instrumentation for C21: copies of the packages' source in which mcsched.Y is called before every statement,
// laid over /repo for one build. Nothing in /repo changes.

const modPath, schedPath = "github.com/google/codesearch", "verifmc/inst/mcsched"

type goPkg struct {
	Dir        string
	ImportPath string
	GoFiles    []string
	SFiles     []string
}

func goTool(cgo bool, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = verifDir()
	c := "CGO_ENABLED=0"
	if cgo {
		c = "CGO_ENABLED=1"
	}
	cmd.Env = append(os.Environ(), c)
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func listPkg(path string) goPkg {
	out, err := goTool(false, "list", "-json=Dir,ImportPath,GoFiles,SFiles", path)
	if err != nil {
		panic(harnessErr("go list " + path + ": " + out))
	}
	var p goPkg
	if err := json.Unmarshal([]byte(out), &p); err != nil {
		panic(harnessErr("go list " + path + ": " + err.Error()))
	}
	return p
}

type insertion struct {
	at   int
	text string
}

// instrumentFile returns the file with Y before every statement (numbered from first), and the package-level variables it declares.
func instrumentFile(name string, isMain bool, first int) (src string, vars []string, stmts, serves int) {
	b := mustRead(name)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, b, parser.ParseComments)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins = append(ins, insertion{off(f.Name.End()), `; import mcsched "` + schedPath + `"`})
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			ins = append(ins, insertion{off(s.Pos()), fmt.Sprintf("mcsched.Y(%d); ", first+stmts)})
			stmts++
		}
	}
	type repl struct{ from, to int }
	var reps []repl
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && isMain {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "http" && s.Sel.Name == "ListenAndServe" {
					reps = append(reps, repl{off(s.Pos()), off(s.End())})
					serves++
				}
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			for _, n := range s.(*ast.ValueSpec).Names {
				if n.Name != "_" {
					vars = append(vars, n.Name)
				}
			}
		}
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
	var out strings.Builder
	pos := 0
	for _, i := range ins {
		for len(reps) > 0 && reps[0].from < i.at && reps[0].from >= pos {
			out.Write(b[pos:reps[0].from])
			out.WriteString("mcsched.Serve")
			pos = reps[0].to
			reps = reps[1:]
		}
		out.Write(b[pos:i.at])
		out.WriteString(i.text)
		pos = i.at
	}
	for _, r := range reps {
		out.Write(b[pos:r.from])
		out.WriteString("mcsched.Serve")
		pos = r.to
	}
	out.Write(b[pos:])
	out.WriteString("\nvar _ = mcsched.Y\n")
	return out.String(), vars, stmts, serves
}

// instrument builds the controlled programs into dir: mcops and csweb, also with the race detector.
// It returns a description, or an error if the present source cannot be instrumented.
func instrument(dir string, race bool) (desc string, serves int, err error) {
	overlay := map[string]string{}
	total := 0
	var nvars int
	src := filepath.Join(dir, "src")
	for _, path := range []string{"regexp", "index", "sparse", "cmd/csweb"} {
		p := listPkg(modPath + "/" + path)
		isMain := strings.HasPrefix(path, "cmd/")
		var vars []string
		for _, f := range p.GoFiles {
			s, v, n, sv := instrumentFile(filepath.Join(p.Dir, f), isMain, total)
			out := filepath.Join(src, path, f)
			mustWrite(out, []byte(s))
			overlay[filepath.Join(p.Dir, f)] = out
			vars = append(vars, v...)
			total += n
			serves += sv
		}
		nvars += len(vars)
		var b strings.Builder
		name := filepath.Base(path)
		if isMain {
			name = "main"
		}
		fmt.Fprintf(&b, "package %s\nimport mcsched %q\nfunc init() { mcsched.OnReset(func() func() {\n", name, schedPath)
		b.WriteString("fs := []func(){\n")
		for _, v := range vars {
			fmt.Fprintf(&b, "mcsched.SaveVar(&%s),\n", v)
		}
		b.WriteString("}\nreturn func() {\nfor _, f := range fs {\nf()\n}\n}\n})\n}\n")
		out := filepath.Join(src, path, "zz_mcreset.go")
		mustWrite(out, []byte(b.String()))
		overlay[filepath.Join(p.Dir, "zz_mcreset.go")] = out
	}
	b, _ := json.Marshal(map[string]any{"Replace": overlay})
	ov := filepath.Join(dir, "overlay.json")
	mustWrite(ov, b)
	args := []string{"build", "-overlay", ov}
	if race {
		args = append(args, "-race")
	}
	for pk, path := range map[string]string{"mcops": "verifmc/inst/mcops", "csweb": modPath + "/cmd/csweb"} {
		if out, e := goTool(race, append(args, "-o", filepath.Join(dir, pk), path)...); e != nil {
			return "", 0, fmt.Errorf("%s: %s", pk, trunc(out, 1500))
		}
	}
	return fmt.Sprintf("%d statements, %d package variables", total, nvars), serves, nil
}

func init() {
	subcommands["instrument"] = func(args []string) {
		d, n, err := instrument(args[0], len(args) > 1)
		fmt.Println(d, n, err)
	}
}
