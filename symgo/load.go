package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded SSA form of the code under test and everything it imports.
type Program struct {
	prog         *ssa.Program
	rtErrType    types.Type
	plainErrType types.Type
	rtypePtr     types.Type
	repo         string
}

// overlay maps paths inside the repository to harness files.
func overlayFiles(repo, verif string) map[string]string {
	m := map[string]string{}
	add := func(dir, sub string) {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", sub, "*.go"))
		for _, f := range fs {
			m[filepath.Join(repo, dir, filepath.Base(f))] = f
		}
	}
	add(".", "socketio")
	add("engine", "engine")
	add("zzsym", "zzsym")
	return m
}

func buildEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOEXPERIMENT=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOWORK=off", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOEXPERIMENT=nojsonv2", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
}

var goDirective = regexp.MustCompile(`(?m)^\s*go\s+[0-9]`)

// writeModfile makes a copy of the repository's go.mod in dir with the websocket stub substituted.
func writeModfile(repo, verif, dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	s := string(b)
	if !goDirective.MatchString(s) {
		// the go command takes a module without a go directive to be written in Go 1.16, where the
		// iterations of a loop share its variables; go/types would take it to be the newest version
		s = strings.TrimRight(s, "\n") + "\n\ngo 1.16\n"
	}
	s += "\nreplace github.com/gorilla/websocket => " + filepath.Join(verif, "wsstub") + "\n"
	mod := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(mod, []byte(s), 0o644); err != nil {
		return "", err
	}
	if b, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dir, "go.sum"), b, 0o644)
	}
	return mod, nil
}

// readOverlay reads the harness files, by their paths inside the repository.
func readOverlay(repo, verif string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(repo, verif) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	return ov, nil
}

type loadError []string

func (e loadError) Error() string {
	if len(e) > 10 {
		e = e[:10]
	}
	return "load: " + strings.Join(e, "\n")
}

func loadProgram(repo, verif, scratch string) (*Program, error) {
	ov, err := readOverlay(repo, verif)
	if err != nil {
		return nil, err
	}
	return loadProgramWith(repo, verif, scratch, ov)
}

// loadRobust loads the program; declarations of the harness that do not type-check against this tree
// are left out, with those that need them. ov is what was loaded, dropped names what was left out.
func loadRobust(repo, verif, scratch string) (p *Program, ov map[string][]byte, dropped []string, err error) {
	if ov, err = readOverlay(repo, verif); err != nil {
		return
	}
	for i := 0; i < 40; i++ {
		p, err = loadProgramWith(repo, verif, scratch, ov)
		le, ok := err.(loadError)
		if !ok {
			return
		}
		names := prune(ov, le)
		if len(names) == 0 {
			return
		}
		dropped = append(dropped, names...)
	}
	return
}

var errorPos = regexp.MustCompile(`^(?:-: )?(\S+\.go):(\d+)(?::\d+)?: (.*)`)

// prune blanks the declarations of harness files that the errors are about, and returns their names.
func prune(ov map[string][]byte, errs []string) (names []string) {
	lines := map[string]map[int]string{}
	for _, e := range errs {
		for _, l := range strings.Split(e, "\n") {
			if m := errorPos.FindStringSubmatch(strings.TrimSpace(l)); m != nil && ov[m[1]] != nil {
				if lines[m[1]] == nil {
					lines[m[1]] = map[int]string{}
				}
				n, _ := strconv.Atoi(m[2])
				lines[m[1]][n] = m[3]
			}
		}
	}
	for f, ls := range lines {
		fset := token.NewFileSet()
		src := append([]byte(nil), ov[f]...)
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			delete(ov, f)
			names = append(names, filepath.Base(f))
			continue
		}
		blank := func(n ast.Node, name string) bool {
			from, to := fset.Position(n.Pos()), fset.Position(n.End())
			for l := range ls {
				if from.Line <= l && l <= to.Line {
					for i := from.Offset; i < to.Offset; i++ {
						if src[i] != '\n' {
							src[i] = ' '
						}
					}
					names = append(names, name)
					return true
				}
			}
			return false
		}
		for _, d := range file.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				blank(d, d.Name.Name)
			case *ast.GenDecl:
				if d.Tok == token.IMPORT && d.Lparen.IsValid() {
					for _, sp := range d.Specs {
						blank(sp, "import "+sp.(*ast.ImportSpec).Path.Value)
					}
				} else {
					blank(d, fmt.Sprintf("%s:%d", filepath.Base(f), fset.Position(d.Pos()).Line))
				}
			}
		}
		ov[f] = src
	}
	sort.Strings(names)
	return
}

func loadProgramWith(repo, verif, scratch string, ov map[string][]byte) (*Program, error) {
	mod, err := writeModfile(repo, verif, scratch)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule, // the language version decides what a loop variable is
		Dir:        repo,
		Env:        buildEnv(),
		Overlay:    ov,
		BuildFlags: []string{"-tags=purego,verif", "-modfile=" + mod},
	}
	pkgs, err := packages.Load(cfg, ".", "./engine")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, loadError(errs)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, repo: repo}
	mk := func(name string, rt bool) types.Type {
		tn := types.NewTypeName(token.NoPos, types.NewPackage("runtime", "runtime"), name, nil)
		n := types.NewNamed(tn, types.Typ[types.String], nil)
		recv := types.NewVar(token.NoPos, nil, "e", n)
		res := types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.String]))
		n.AddMethod(types.NewFunc(token.NoPos, tn.Pkg(), "Error", types.NewSignatureType(recv, nil, nil, nil, res, false)))
		if rt {
			n.AddMethod(types.NewFunc(token.NoPos, tn.Pkg(), "RuntimeError", types.NewSignatureType(recv, nil, nil, nil, nil, false)))
		}
		return n
	}
	p.rtErrType = mk("rtError", true)
	p.plainErrType = mk("plainError", false)
	if r := prog.ImportedPackage("reflect"); r != nil {
		p.rtypePtr = types.NewPointer(r.Type("rtype").Type())
	}
	return p, nil
}

func (p *Program) pkg(path string) *ssa.Package {
	return p.prog.ImportedPackage(path)
}

func (p *Program) lookup(pkg, name string) *ssa.Function {
	if q := p.pkg(pkg); q != nil {
		return q.Func(name)
	}
	return nil
}

func (p *Program) lookupType(pkg, name string) types.Type {
	q := p.pkg(pkg)
	if q == nil || q.Type(name) == nil {
		panic("no type " + pkg + "." + name)
	}
	return q.Type(name).Type()
}
