// Command rewrite produces instrumented copies of the packages under check: every
// synchronisation operation, clock read and shared memory access becomes a call into
// the model checker's runtime (zzmc/rt). The copies reach the build through an overlay;
// nothing is written to the repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/pojol/braid"
const rtPath = module + "/zzmc/rt"
const grpcPath = module + "/zzmc/mcgrpc"

type pkgJSON struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Error      *struct{ Err string }
	Module     *struct{ Path, Dir string }
}

var (
	fOut            = flag.String("out", "", "output directory")
	fRepo           = flag.String("repo", "/repo", "repository")
	fVerif          = flag.String("mc", "/verif/mc", "directory with rt, mcredis, mcgrpc, harness")
	fNoMem          = flag.Bool("nomem", false, "do not instrument memory accesses")
	siteBase uint32 = 1
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(3)
}

// packages that stay as they are
func skipPkg(path string) bool {
	rel := strings.TrimPrefix(path, module+"/")
	switch rel {
	case "lib/log", "3rd/mgo", "def":
		return true
	}
	return strings.HasPrefix(rel, "tests") || strings.HasPrefix(rel, "zzmc/rt") || strings.HasPrefix(rel, "zzmc/mcredis") || strings.HasPrefix(rel, "zzmc/mcgrpc") || strings.HasPrefix(rel, "zzmc/mcmongo")
}

func syncOnly(path string) bool {
	rel := strings.TrimPrefix(path, module+"/")
	return *fNoMem || rel == "router" || rel == "lib/grpc/mock" || !strings.HasPrefix(path, module+"/")
}

func main() {
	flag.Parse()
	out := *fOut
	if out == "" {
		die("need -out")
	}
	os.MkdirAll(out, 0o755)
	overlay := map[string]string{}
	for _, d := range []string{"rt", "mcredis", "mcgrpc", "mcmongo", "netconf", "conform", "harness"} {
		fs, _ := filepath.Glob(filepath.Join(*fVerif, d, "*.go"))
		for _, f := range fs {
			overlay[filepath.Join(*fRepo, "zzmc", d, filepath.Base(f))] = f
		}
	}
	base := filepath.Join(out, "base.json")
	writeOverlay(base, overlay)

	args := []string{"list", "-overlay", base, "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Standard,Error,Module", "./zzmc/harness"}
	cmd := exec.Command("go", args...)
	cmd.Dir = *fRepo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pk := map[string]*pkgJSON{}
	var order []string
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkgJSON{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pk[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}
	sort.Strings(order)
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pk[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})

	remap := map[string]string{}
	if p := pk["golang.org/x/sync/errgroup"]; p != nil {
		remap["golang.org/x/sync/errgroup"] = module + "/zzmc/errgroup"
	}
	for _, path := range order {
		p := pk[path]
		target := ""
		if strings.HasPrefix(path, module) && !skipPkg(path) {
			target = p.Dir
		} else if r, ok := remap[path]; ok {
			target = filepath.Join(*fRepo, strings.TrimPrefix(r, module+"/"))
		} else {
			continue
		}
		rewritePkg(fset, imp, p, target, out, overlay, remap)
	}
	writeOverlay(filepath.Join(out, "overlay.json"), overlay)
}

func writeOverlay(path string, m map[string]string) {
	b, _ := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

type rw struct {
	fset      *token.FileSet
	info      *types.Info
	pkg       *types.Package
	src       []byte
	file      *ast.File
	tf        *token.File
	mem       bool
	sites     []string
	funcs     []string
	fname     string
	curFunc   string
	captured  map[types.Object]bool
	kept      map[string]int // import path -> uses left
	usedGrpc  bool
	tmp       int
	remap     map[string]string
	noGlobals bool
}

func rewritePkg(fset *token.FileSet, imp types.Importer, p *pkgJSON, target, out string, overlay, remap map[string]string) {
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		if r, ok := overlay[path]; ok {
			path = r
		}
		b, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, path, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, b)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type-check %s: %v", p.ImportPath, err)
	}
	r := &rw{fset: fset, info: info, pkg: tp, mem: !syncOnly(p.ImportPath), remap: remap}
	r.findCaptured(files)
	dir := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_"))
	os.MkdirAll(dir, 0o755)
	first := siteBase
	for i, f := range files {
		r.file, r.src = f, srcs[i]
		r.tf = fset.File(f.Pos())
		text := r.renderFile()
		op := filepath.Join(dir, filepath.Base(p.GoFiles[i]))
		if err := os.WriteFile(op, []byte(text), 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(target, p.GoFiles[i])] = op
	}
	// sites and package-level variables
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport zzrt %q\n\nfunc init() {\n\tzzrt.Sites(%d, []string{\n", tp.Name(), rtPath, first)
	for _, s := range r.sites {
		fmt.Fprintf(&b, "%q,\n", s)
	}
	b.WriteString("}, []string{\n")
	for _, s := range r.funcs {
		fmt.Fprintf(&b, "%q,\n", s)
	}
	b.WriteString("})\n")
	if strings.HasPrefix(p.ImportPath, module) && !strings.Contains(p.ImportPath, "/zzmc/") {
		sc := tp.Scope()
		for _, name := range sc.Names() {
			if _, ok := sc.Lookup(name).(*types.Var); !ok || name == "_" || strings.HasPrefix(name, "file_") || strings.HasPrefix(name, "fileDescriptor") {
				continue
			}
			fmt.Fprintf(&b, "\tzzrt.RegisterGlobal(%q, &%s)\n", module, name)
		}
	}
	b.WriteString("}\n")
	op := filepath.Join(dir, "zz_mc_sites.go")
	os.WriteFile(op, []byte(b.String()), 0o644)
	overlay[filepath.Join(target, "zz_mc_sites.go")] = op
	siteBase = first + uint32(len(r.sites))
}

// findCaptured finds the local variables that are used in a function literal other than the
// one they are declared in: only those can be shared between goroutines.
func (r *rw) findCaptured(files []*ast.File) {
	r.captured = map[types.Object]bool{}
	for _, f := range files {
		var stack []ast.Node // enclosing functions
		decl := map[types.Object]ast.Node{}
		var walk func(n ast.Node)
		walk = func(n ast.Node) {
			ast.Inspect(n, func(c ast.Node) bool {
				switch c := c.(type) {
				case *ast.FuncLit:
					if c == n {
						return true
					}
					stack = append(stack, c)
					walk(c)
					stack = stack[:len(stack)-1]
					return false
				case *ast.FuncDecl:
					if c == n {
						return true
					}
					stack = append(stack, c)
					walk(c)
					stack = stack[:len(stack)-1]
					return false
				case *ast.Ident:
					if o := r.info.Defs[c]; o != nil {
						if len(stack) > 0 {
							decl[o] = stack[len(stack)-1]
						}
					}
				}
				return true
			})
		}
		walk(f)
		stack = nil
		var walk2 func(n ast.Node)
		walk2 = func(n ast.Node) {
			ast.Inspect(n, func(c ast.Node) bool {
				switch c := c.(type) {
				case *ast.FuncLit:
					if c == n {
						return true
					}
					stack = append(stack, c)
					walk2(c)
					stack = stack[:len(stack)-1]
					return false
				case *ast.FuncDecl:
					if c == n {
						return true
					}
					stack = append(stack, c)
					walk2(c)
					stack = stack[:len(stack)-1]
					return false
				case *ast.Ident:
					if o := r.info.Uses[c]; o != nil && len(stack) > 0 {
						if d, ok := decl[o]; ok && d != stack[len(stack)-1] {
							r.captured[o] = true
						}
					}
				}
				return true
			})
		}
		walk2(f)
	}
}

func (r *rw) site(p token.Pos) string {
	pos := r.fset.Position(p)
	name := pos.Filename
	if i := strings.Index(name, "/repo/"); i >= 0 {
		name = name[i+6:]
	} else {
		name = filepath.Base(filepath.Dir(name)) + "/" + filepath.Base(name)
	}
	r.sites = append(r.sites, fmt.Sprintf("%s:%d:%d", name, pos.Line, pos.Column))
	r.funcs = append(r.funcs, r.pkg.Name()+"."+r.curFunc)
	return fmt.Sprint(siteBase + uint32(len(r.sites)) - 1)
}

func (r *rw) off(p token.Pos) int { return r.tf.Offset(p) }
func (r *rw) raw(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}
