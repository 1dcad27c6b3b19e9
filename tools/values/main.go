// vc DIR OUTDIR: instruments the package's files with value probes.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off int
	ins string
}

func main() {
	dir := os.Args[1]
	first := 0
	fmt.Sscan(os.Args[2], &first)
	table, _ := os.OpenFile(os.Args[3], os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	g, _ := filepath.Glob(dir + "/*.go")
	pkg := ""
	for _, p := range g {
		if strings.HasSuffix(p, "_test.go") || strings.HasPrefix(filepath.Base(p), "zz") {
			continue
		}
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		names = append(names, p)
		pkg = f.Name.Name
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	conf.Check("p", fset, files, info)
	id := first
	for i, f := range files {
		src, _ := os.ReadFile(names[i])
		base := filepath.Base(names[i])
		text := func(x ast.Node) string {
			return string(src[fset.Position(x.Pos()).Offset:fset.Position(x.End()).Offset])
		}
		var edits []edit
		ast.Inspect(f, func(nd ast.Node) bool { return true })
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			// every block start is a site: the variables in scope there
			ast.Inspect(fd, func(nd ast.Node) bool {
				var list []ast.Stmt
				var at token.Pos
				switch x := nd.(type) {
				case *ast.BlockStmt:
					list, at = x.List, x.Lbrace+1
				case *ast.CaseClause:
					list, at = x.Body, x.Colon+1
				}
				_ = list
				// sites: block start, and after each declaration/assignment statement
				sites := []token.Pos{at}
				for _, s := range list {
					switch s.(type) {
					case *ast.AssignStmt, *ast.DeclStmt, *ast.IncDecStmt:
						sites = append(sites, s.End())
					}
				}
				if at == 0 {
					return true
				}
				for k, pos := range sites {
					cands := map[string]bool{}
					if k == 0 {
						ast.Inspect(fd, func(nd ast.Node) bool {
							switch x := nd.(type) {
							case *ast.Ident:
								o := info.Uses[x]
								if o == nil {
									o = info.Defs[x]
								}
								v, ok := o.(*types.Var)
								if !ok || v.IsField() || v.Parent() == nil || v.Name() == "_" || v.Pos() > pos || !v.Parent().Contains(pos) || v.Parent().Parent() == types.Universe {
									return true
								}
								if v.Parent().Parent() == nil || v.Pkg().Scope() == v.Parent() {
									return true
								}
								add(cands, x.Name, v.Type())
								return true
							case *ast.SelectorExpr:
								id, ok := x.X.(*ast.Ident)
								if !ok {
									return true
								}
								if o, ok := info.Uses[id].(*types.Var); ok && !o.IsField() && o.Parent() != nil && o.Parent().Contains(pos) && o.Pos() < pos {
									if tv, ok := info.Types[x]; ok {
										add(cands, text(x), tv.Type)
									}
								}
							}
							return true
						})
					} else {
						// just the assigned variables
						var lhs []ast.Expr
						for _, s := range list {
							if s.End() == pos {
								switch a := s.(type) {
								case *ast.AssignStmt:
									lhs = a.Lhs
								case *ast.IncDecStmt:
									lhs = []ast.Expr{a.X}
								case *ast.DeclStmt:
									if gd, ok := a.Decl.(*ast.GenDecl); ok {
										for _, sp := range gd.Specs {
											if vs, ok := sp.(*ast.ValueSpec); ok {
												for _, n := range vs.Names {
													lhs = append(lhs, n)
												}
											}
										}
									}
								}
							}
						}
						for _, e := range lhs {
							var t types.Type
							if idn, ok := e.(*ast.Ident); ok {
								if idn.Name == "_" {
									continue
								}
								if o := info.Defs[idn]; o != nil {
									t = o.Type()
								} else if o := info.Uses[idn]; o != nil {
									t = o.Type()
								}
							} else if tv, ok := info.Types[e]; ok {
								if _, ok := e.(*ast.SelectorExpr); !ok {
									continue
								}
								t = tv.Type
							}
							if t != nil {
								add(cands, text(e), t)
							}
						}
					}
					var ks []string
					for k := range cands {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					ins := ""
					for _, k := range ks {
						ins += fmt.Sprintf("zzV(%d, int64(%s));", id, k)
						fmt.Fprintf(table, "%d\t%s:%d\t%s\t%s\n", id, base, fset.Position(pos).Line, fd.Name.Name, k)
						id++
					}
					if ins != "" {
						edits = append(edits, edit{fset.Position(pos).Offset, ";" + ins})
					}
				}
				return true
			})
		}
		sort.SliceStable(edits, func(a, b int) bool { return edits[a].off > edits[b].off })
		out := string(src)
		for _, e := range edits {
			out = out[:e.off] + e.ins + out[e.off:]
		}
		os.WriteFile(names[i], []byte(strings.ReplaceAll(out, "{;", "{ ")), 0o644)
	}
	os.WriteFile(dir+"/zz_probe.go", []byte(strings.Replace(helper, "PKG", pkg, 1)), 0o644)
	fmt.Println(id)
}

const helper = `package PKG

import (
	"math/bits"
	"os"
	"syscall"
)

const zzW = 2304 // 0..2047 exact, 64 bit lengths x 4 (2^k, 2^k-1, 2^k+1, other)

var zzMem []byte

func init() {
	f, err := os.OpenFile(os.Getenv("ZZMAP"), os.O_RDWR, 0)
	if err != nil {
		return
	}
	st, _ := f.Stat()
	zzMem, _ = syscall.Mmap(int(f.Fd()), 0, int(st.Size()), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	f.Close()
}
func zzV(id int, v int64) {
	if zzMem == nil {
		return
	}
	m := zzMem[id*zzW:]
	if v >= 0 && v < 2048 {
		if m[v] == 0 { m[v] = 1 }
		return
	}
	neg := v < 0
	if neg {
		m[2303] = 1
		return
	}
	k := bits.Len64(uint64(v)) - 1
	j := 3
	switch {
	case v == 1<<k:
		j = 0
	case v == 1<<(k+1)-1:
		j = 1
	case v == 1<<k+1:
		j = 2
	}
	if p := &m[2048+4*k+j]; *p == 0 { *p = 1 }
}
`

func add(m map[string]bool, name string, t types.Type) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 && b.Info()&types.IsUntyped == 0 {
			m[name] = true
		}
		if b.Info()&types.IsString != 0 {
			m["len("+name+")"] = true
		}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		m["len("+name+")"] = true
	}
}
