package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const repoPath = "github.com/johnnadratowski/golang-neo4j-bolt-driver"

// Program is the loaded repository.
type Program struct {
	root   string
	fset   *token.FileSet
	std    types.Importer
	pkgs   map[string]*types.Package
	infos  map[string]*types.Info
	files  map[string][]*ast.File
	ssa    *ssa.Program
	spkg   map[string]*ssa.Package
	stdpkg *ssa.Package
	funcs  map[string]*ssa.Function // "pkg.(Recv).Name" -> function
	order  []string
	loops  map[*ssa.Function]*loopInfo
}

func (p *Program) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == repoPath || strings.HasPrefix(path, repoPath+"/") {
		return p.load(path)
	}
	return p.std.Import(path)
}

func (p *Program) load(path string) (*types.Package, error) {
	if pk, ok := p.pkgs[path]; ok {
		return pk, nil
	}
	dir := filepath.Join(p.root, strings.TrimPrefix(strings.TrimPrefix(path, repoPath), "/"))
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var fs []*ast.File
	sort.Strings(bp.GoFiles)
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(p.fset, filepath.Join(dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		fs = append(fs, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{Importer: p}
	pk, err := conf.Check(path, p.fset, fs, info)
	if err != nil {
		return nil, err
	}
	p.pkgs[path] = pk
	p.infos[path] = info
	p.files[path] = fs
	p.order = append(p.order, path)
	return pk, nil
}

func LoadProgram(root string) (*Program, error) {
	os.Setenv("GO111MODULE", "off")
	build.Default.CgoEnabled = false
	fset := token.NewFileSet()
	p := &Program{root: root, fset: fset, pkgs: map[string]*types.Package{}, infos: map[string]*types.Info{}, files: map[string][]*ast.File{}, spkg: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, loops: map[*ssa.Function]*loopInfo{}}
	p.std = importer.ForCompiler(fset, "source", nil)
	if _, err := p.load(repoPath); err != nil {
		return nil, err
	}
	p.ssa = ssa.NewProgram(fset, ssa.GlobalDebug|ssa.BareInits|ssa.InstantiateGenerics)
	var created = map[*types.Package]bool{}
	var createAll func(pk *types.Package)
	createAll = func(pk *types.Package) {
		if created[pk] {
			return
		}
		created[pk] = true
		for _, i := range pk.Imports() {
			createAll(i)
		}
		if _, ok := p.pkgs[pk.Path()]; !ok {
			p.ssa.CreatePackage(pk, nil, nil, true)
		}
	}
	for _, path := range p.order {
		createAll(p.pkgs[path])
	}
	for _, path := range p.order {
		p.spkg[path] = p.ssa.CreatePackage(p.pkgs[path], p.files[path], p.infos[path], true)
	}
	if err := p.loadStd(); err != nil {
		return nil, err
	}
	for _, path := range p.order {
		p.spkg[path].Build()
	}
	for _, path := range p.order {
		sp := p.spkg[path]
		short := shortPkg(path)
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.funcs[short+"."+m.Name()] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.ssa.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.ssa.MethodValue(ms.At(i))
						if f == nil || f.Synthetic != "" {
							continue
						}
						p.funcs[short+".("+m.Name()+")."+f.Name()] = f
					}
				}
			}
		}
	}
	return p, nil
}

func shortPkg(path string) string {
	if path == repoPath {
		return "bolt"
	}
	if i := strings.LastIndex(path, "/"); i >= 0 {
		return path[i+1:]
	}
	return path
}

// inRepo reports whether the function has a body in the repository.
func (p *Program) inRepo(f *ssa.Function) bool {
	if f.Pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			_, ok := p.pkgs[f.Object().Pkg().Path()]
			return ok && len(f.Blocks) > 0
		}
		return len(f.Blocks) > 0 // wrappers
	}
	_, ok := p.pkgs[f.Pkg.Pkg.Path()]
	return ok && len(f.Blocks) > 0
}

func (p *Program) fname(f *ssa.Function) string {
	for _, s := range []string{repoPath + "/"} {
		n := strings.ReplaceAll(f.RelString(nil), s, "")
		n = strings.ReplaceAll(n, repoPath, "bolt")
		return n
	}
	return f.String()
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return ""
	}
	q := p.fset.Position(ps)
	r, err := filepath.Rel(p.root, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// --- loops ---

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	latch  map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	heads map[*ssa.BasicBlock]*loop
}

var loopsMu sync.Mutex

func (p *Program) loopsOf(f *ssa.Function) *loopInfo {
	loopsMu.Lock()
	defer loopsMu.Unlock()
	if li, ok := p.loops[f]; ok {
		return li
	}
	li := &loopInfo{heads: map[*ssa.BasicBlock]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}, latch: map[*ssa.BasicBlock]bool{}}
					li.heads[s] = l
				}
				l.latch[b] = true
				var st = []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	p.loops[f] = li
	return li
}

// loadStd takes functions of the standard library from its source, to be
// executed where they call back into the repository.
func (p *Program) loadStd() error {
	src, err := os.ReadFile(filepath.Join(build.Default.GOROOT, "src/io/io.go"))
	if err != nil {
		return err
	}
	f, err := parser.ParseFile(token.NewFileSet(), "io.go", src, 0)
	if err != nil {
		return err
	}
	text := "package std\n\nimport . \"io\"\n\n"
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && (fd.Name.Name == "ReadFull" || fd.Name.Name == "ReadAtLeast") {
			text += string(src[int(fd.Pos())-1:int(fd.End())-1]) + "\n\n"
		}
	}
	text = strings.ReplaceAll(strings.ReplaceAll(text, "ReadFull(", "stdReadFull("), "ReadAtLeast(", "stdReadAtLeast(")
	af, err := parser.ParseFile(p.fset, filepath.Join(p.root, "std/io.go"), text, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{Importer: p}
	pk, err := conf.Check("std", p.fset, []*ast.File{af}, info)
	if err != nil {
		return err
	}
	p.stdpkg = p.ssa.CreatePackage(pk, []*ast.File{af}, info, true)
	p.stdpkg.Build()
	for _, n := range []string{"stdReadFull", "stdReadAtLeast"} {
		p.funcs["std."+n] = p.stdpkg.Func(n)
	}
	return nil
}
