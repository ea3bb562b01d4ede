package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type mode int

const (
	mRead mode = iota
	mWrite
	mAddr // the address is taken, or the surrounding access covers it
)

// names replaced by the runtime's
var mapped = map[string]string{
	"sync.Mutex": "zzrt.Mutex", "sync.RWMutex": "zzrt.RWMutex", "sync.WaitGroup": "zzrt.WaitGroup",
	"sync.Once": "zzrt.Once", "sync.Map": "zzrt.Map", "sync.Pool": "zzrt.Pool", "sync.Cond": "zzrt.Cond", "sync.NewCond": "zzrt.NewCond",
	"sync.OnceFunc": "zzrt.OnceFunc", "sync.OnceValue": "zzrt.OnceValue",
	"time.Now": "zzrt.Now", "time.Since": "zzrt.Since", "time.Until": "zzrt.Until", "time.Sleep": "zzrt.Sleep",
	"time.After": "zzrt.After", "time.AfterFunc": "zzrt.AfterFunc", "time.NewTimer": "zzrt.NewTimer", "time.NewTicker": "zzrt.NewTicker",
	"time.Tick": "zzrt.Tick", "time.Timer": "zzrt.Timer", "time.Ticker": "zzrt.Ticker",
	"context.WithCancel": "zzrt.WithCancel", "context.WithTimeout": "zzrt.WithTimeout", "context.WithDeadline": "zzrt.WithDeadline",
	"context.WithCancelCause": "zzrt.WithCancelCause", "context.WithTimeoutCause": "zzrt.WithTimeoutCause", "context.WithDeadlineCause": "zzrt.WithDeadlineCause",
	"context.Cause": "zzrt.Cause", "context.WithoutCancel": "zzrt.WithoutCancel", "context.AfterFunc": "zzrt.CtxAfterFunc",
	"github.com/google/uuid.New": "zzrt.UUIDNew", "github.com/google/uuid.NewString": "zzrt.UUIDNewString",
	"crypto/rand.Read": "zzrt.CryptoRead",
	"math/rand.Seed":   "zzrt.RandSeed", "math/rand.Intn": "zzrt.RandIntn", "math/rand.Int31n": "zzrt.RandInt31n", "math/rand.Int63n": "zzrt.RandInt63n",
	"math/rand.Int": "zzrt.RandInt", "math/rand.Float64": "zzrt.RandFloat64", "math/rand.Perm": "zzrt.RandPerm", "math/rand.Shuffle": "zzrt.RandShuffle",
	"math/rand.Int31": "zzrt.RandInt31", "math/rand.Int63": "zzrt.RandInt63", "math/rand.Uint32": "zzrt.RandUint32", "math/rand.Uint64": "zzrt.RandUint64",
	"math/rand.Float32": "zzrt.RandFloat32", "math/rand.NormFloat64": "zzrt.RandNorm", "math/rand.ExpFloat64": "zzrt.RandNorm", "math/rand.Read": "zzrt.CryptoRead",
	"math/rand/v2.Int": "zzrt.RandInt", "math/rand/v2.IntN": "zzrt.RandIntn", "math/rand/v2.Int32": "zzrt.RandInt31", "math/rand/v2.Int32N": "zzrt.RandInt31n",
	"math/rand/v2.Int64": "zzrt.RandInt63", "math/rand/v2.Int64N": "zzrt.RandInt63n", "math/rand/v2.Uint32": "zzrt.RandUint32", "math/rand/v2.Uint64": "zzrt.RandUint64",
	"math/rand/v2.Uint": "zzrt.RandUint", "math/rand/v2.UintN": "zzrt.RandUintN", "math/rand/v2.Uint32N": "zzrt.RandUint32N", "math/rand/v2.Uint64N": "zzrt.RandUint64N",
	"math/rand/v2.Float64": "zzrt.RandFloat64", "math/rand/v2.Float32": "zzrt.RandFloat32", "math/rand/v2.NormFloat64": "zzrt.RandNorm", "math/rand/v2.ExpFloat64": "zzrt.RandNorm",
	"math/rand/v2.Perm": "zzrt.RandPerm", "math/rand/v2.Shuffle": "zzrt.RandShuffle", "math/rand/v2.N": "zzrt.RandN",
	"crypto/rand.Reader": "zzrt.CryptoReader", "crypto/rand.Text": "zzrt.CryptoText", "crypto/rand.Int": "zzrt.CryptoInt",
	"github.com/google/uuid.NewRandom": "zzrt.UUIDNewRandom", "github.com/google/uuid.NewV7": "zzrt.UUIDNewRandom", "github.com/google/uuid.NewUUID": "zzrt.UUIDNewRandom",
	"sync.OnceValues": "zzrt.OnceValues", "maps.Keys": "zzrt.MapKeys", "maps.Values": "zzrt.MapValues", "maps.All": "zzrt.MapAll",
	"os/signal.NotifyContext": "zzrt.SignalNotifyContext",
	"fmt.Print":               "zzrt.Print", "fmt.Println": "zzrt.Println", "fmt.Printf": "zzrt.Printf", "fmt.Fprintf": "zzrt.Fprintf",
	"runtime.Gosched": "zzrt.Gosched", "runtime.Stack": "zzrt.Stack", "runtime/debug.Stack": "zzrt.DebugStack",
	"os.Exit": "zzrt.OSExit", "os/signal.Notify": "zzrt.SignalNotify", "os/signal.Stop": "zzrt.SignalStop",
	"net.Listen":                         "zzgrpc.Listen",
	"google.golang.org/grpc.DialContext": "zzgrpc.DialContext", "google.golang.org/grpc.Dial": "zzgrpc.Dial", "google.golang.org/grpc.NewClient": "zzgrpc.NewClient",
	"google.golang.org/grpc.NewServer": "zzgrpc.NewServer", "google.golang.org/grpc.Server": "zzgrpc.Server",
	"google.golang.org/grpc.UnaryInterceptor": "zzgrpc.UnaryInterceptor", "google.golang.org/grpc.ChainUnaryInterceptor": "zzgrpc.ChainUnaryInterceptor",
	"google.golang.org/grpc.MaxRecvMsgSize": "zzgrpc.MaxRecvMsgSize", "google.golang.org/grpc.MaxMsgSize": "zzgrpc.MaxMsgSize",
	"google.golang.org/grpc.MaxSendMsgSize": "zzgrpc.MaxSendMsgSize", "google.golang.org/grpc.MaxConcurrentStreams": "zzgrpc.MaxConcurrentStreams",
}

// methods replaced by functions of the runtime
var methods = map[string]string{
	"(*google.golang.org/grpc.ClientConn).GetState":            "zzgrpc.GetState",
	"(*google.golang.org/grpc.ClientConn).ResetConnectBackoff": "zzgrpc.ResetConnectBackoff",
}

func init() {
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, op := range []string{"Load", "Store", "Swap", "Add", "CompareAndSwap"} {
			if t == "Pointer" && op == "Add" {
				continue
			}
			mapped["sync/atomic."+op+t] = "zzrt." + op + t
			if t != "Pointer" {
				mapped["sync/atomic.And"+t] = "zzrt.And" + t
				mapped["sync/atomic.Or"+t] = "zzrt.Or" + t
			}
		}
		mapped["sync/atomic."+t] = "zzrt." + t
	}
	mapped["sync/atomic.Bool"] = "zzrt.Bool"
	mapped["sync/atomic.Value"] = "zzrt.Value"
}

func (r *rw) renderFile() string {
	r.kept = map[string]int{}
	r.usedGrpc = false
	f := r.file
	var body strings.Builder
	pos := f.Name.End()
	// decls other than imports first, to learn which imports are still used
	type piece struct {
		from, to token.Pos
		text     string
	}
	var ps []piece
	var imports []*ast.GenDecl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			imports = append(imports, g)
			ps = append(ps, piece{g.Pos(), g.End(), ""})
			continue
		}
		ps = append(ps, piece{d.Pos(), d.End(), r.decl(d)})
	}
	head := string(r.src[:r.off(f.Name.End())])
	fmt.Fprintf(&body, "%s\n\nimport zzrt %q\nvar _ = zzrt.Active\n", head, rtPath)
	imp := ""
	for _, g := range imports {
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			}
			if name != "_" && name != "." && r.kept[path] == 0 {
				name = "_"
			}
			if m, ok := r.remap[path]; ok {
				path = m
			}
			imp += fmt.Sprintf("import %s %q\n", name, path)
		}
	}
	if r.usedGrpc {
		imp += fmt.Sprintf("import zzgrpc %q\n", grpcPath)
	}
	out := body.String()
	out = strings.Replace(out, "var _ = zzrt.Active\n", imp+"var _ = zzrt.Active\n", 1)
	var b strings.Builder
	b.WriteString(out)
	for _, p := range ps {
		b.Write(r.src[r.off(pos):r.off(p.from)])
		b.WriteString(p.text)
		pos = p.to
	}
	b.Write(r.src[r.off(pos):])
	return b.String()
}

func (r *rw) decl(d ast.Decl) string {
	switch d := d.(type) {
	case *ast.FuncDecl:
		r.curFunc = d.Name.Name
		if d.Recv != nil && len(d.Recv.List) > 0 {
			t := d.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if id, ok := t.(*ast.Ident); ok {
				r.curFunc = id.Name + "." + d.Name.Name
			}
		}
		var kids []ast.Node
		if d.Recv != nil {
			kids = append(kids, d.Recv)
		}
		if d.Type.TypeParams != nil {
			kids = append(kids, d.Type.TypeParams)
		}
		if d.Type.Params != nil {
			kids = append(kids, d.Type.Params)
		}
		if d.Type.Results != nil {
			kids = append(kids, d.Type.Results)
		}
		if d.Body != nil {
			kids = append(kids, d.Body)
		}
		s := r.splice(d, kids)
		r.curFunc = ""
		return s
	}
	return r.node(d)
}

func children(n ast.Node) []ast.Node {
	var out []ast.Node
	ast.Inspect(n, func(c ast.Node) bool {
		if c == n {
			return true
		}
		if c == nil {
			return false
		}
		switch c.(type) {
		case *ast.CommentGroup, *ast.Comment:
			return false
		}
		out = append(out, c)
		return false
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// splice copies n's text, replacing the given children.
func (r *rw) splice(n ast.Node, kids []ast.Node) string {
	texts := make([]string, len(kids))
	for i, k := range kids {
		texts[i] = r.node(k)
	}
	return r.spliceT(n, kids, texts)
}

func (r *rw) spliceT(n ast.Node, kids []ast.Node, texts []string) string {
	var b strings.Builder
	pos := n.Pos()
	for i, k := range kids {
		if k.Pos() < pos {
			continue
		}
		b.Write(r.src[r.off(pos):r.off(k.Pos())])
		b.WriteString(texts[i])
		pos = k.End()
	}
	b.Write(r.src[r.off(pos):r.off(n.End())])
	return b.String()
}

func (r *rw) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	t := r.info.TypeOf(e)
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

func under(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		return tp.Underlying()
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }
func isPtr(t types.Type) bool  { _, ok := under(t).(*types.Pointer); return ok }
func isIface(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok
}

// node renders any node in its default mode.
func (r *rw) node(n ast.Node) string {
	switch n := n.(type) {
	case ast.Expr:
		return r.expr(n, mRead)
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.SendStmt:
		return fmt.Sprintf("zzrt.SendTo(%s, %s)(%s)", r.expr(n.Chan, mRead), r.site(n.Arrow), r.expr(n.Value, mRead))
	case *ast.SelectStmt:
		return r.selectStmt(n, "")
	case *ast.LabeledStmt:
		switch s := n.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(s, n.Label.Name)
		case *ast.RangeStmt:
			if isChan(r.typeOf(s.X)) || isMap(r.typeOf(s.X)) {
				return r.rangeStmt(s, n.Label.Name)
			}
		}
		return n.Label.Name + ":\n" + r.node(n.Stmt)
	case *ast.RangeStmt:
		return r.rangeStmt(n, "")
	case *ast.AssignStmt:
		return r.assign(n)
	case *ast.IncDecStmt:
		text := r.expr(n.X, mWrite)
		if args, ok := written(text); ok && !calls(n.X) && !r.harness() {
			return fmt.Sprintf("zzrt.Set(%s)(*zzrt.R(%s) %s 1)", args, args, n.Tok.String()[:1])
		}
		return text + n.Tok.String()
	case *ast.BranchStmt:
		return r.raw(n)
	case *ast.CommClause:
		return r.raw(n)
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				t := ""
				if n.Type != nil {
					t = " " + r.node(n.Type)
				}
				return fmt.Sprintf("%s, %s%s = zzrt.Recv2(%s, %s)", n.Names[0].Name, n.Names[1].Name, t, r.expr(u.X, mRead), r.site(u.OpPos))
			}
		}
		var kids []ast.Node
		if n.Type != nil {
			kids = append(kids, n.Type)
		}
		for _, v := range n.Values {
			kids = append(kids, v)
		}
		return r.splice(n, kids)
	case *ast.TypeSpec:
		var kids []ast.Node
		if n.TypeParams != nil {
			kids = append(kids, n.TypeParams)
		}
		kids = append(kids, n.Type)
		return r.splice(n, kids)
	case *ast.Field:
		return r.splice(n, []ast.Node{n.Type})
	case *ast.ImportSpec:
		return r.raw(n)
	case *ast.TypeSwitchStmt:
		var kids []ast.Node
		if n.Init != nil {
			kids = append(kids, n.Init)
		}
		kids = append(kids, n.Assign, n.Body)
		return r.splice(n, kids)
	case *ast.CaseClause:
		var kids []ast.Node
		for _, e := range n.List {
			kids = append(kids, e)
		}
		for _, s := range n.Body {
			kids = append(kids, s)
		}
		return r.splice(n, kids)
	}
	return r.splice(n, children(n))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) shared(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	if v.Pkg() == nil || !strings.HasPrefix(v.Pkg().Path(), module) || skipPkg(v.Pkg().Path()) {
		return false
	}
	if v.Parent() == v.Pkg().Scope() {
		return true
	}
	return r.captured[v]
}

func (r *rw) wrap(text string, m mode, p token.Pos) string {
	f := "R"
	if m == mWrite {
		f = "W"
	}
	return fmt.Sprintf("(*zzrt.%s(&%s, %s))", f, text, r.site(p))
}

// opaque types are synchronisation objects: accesses to them are not plain memory accesses
func opaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

func (r *rw) expr(e ast.Expr, m mode) string {
	tv := r.info.Types[e]
	if tv.IsType() {
		return r.typ(e)
	}
	if tv.Value != nil {
		// constant expressions stay as they are (but imports they use stay too)
		return r.plain(e)
	}
	switch e := e.(type) {
	case *ast.Ident:
		o := r.info.Uses[e]
		if o == nil || !r.mem || m == mAddr || !r.shared(o) || opaque(o.Type()) {
			return e.Name
		}
		if !tv.Addressable() {
			return e.Name
		}
		return r.wrap(e.Name, m, e.Pos())
	case *ast.ParenExpr:
		return "(" + r.expr(e.X, m) + ")"
	case *ast.SelectorExpr:
		return r.selector(e, m)
	case *ast.StarExpr:
		x := r.expr(e.X, mRead)
		if !r.mem || m == mAddr || opaque(r.typeOf(e)) {
			return "*" + x
		}
		f := "R"
		if m == mWrite {
			f = "W"
		}
		return fmt.Sprintf("(*zzrt.%s(%s, %s))", f, x, r.site(e.Pos()))
	case *ast.IndexExpr:
		return r.index(e, m)
	case *ast.IndexListExpr:
		return r.splice(e, children(e))
	case *ast.UnaryExpr:
		switch e.Op {
		case token.ARROW:
			return fmt.Sprintf("zzrt.Recv(%s, %s)", r.expr(e.X, mRead), r.site(e.OpPos))
		case token.AND:
			return "&" + r.expr(e.X, mAddr)
		}
		return e.Op.String() + r.expr(e.X, mRead)
	case *ast.BinaryExpr:
		return r.splice(e, []ast.Node{e.X, e.Y})
	case *ast.CallExpr:
		return r.call(e)
	case *ast.CompositeLit:
		return r.composite(e)
	case *ast.FuncLit:
		return r.splice(e, []ast.Node{e.Type, e.Body})
	case *ast.SliceExpr:
		var kids []ast.Node
		var texts []string
		add := func(x ast.Expr, m mode) {
			if x != nil {
				kids = append(kids, x)
				texts = append(texts, r.expr(x, m))
			}
		}
		bm := mRead
		if _, ok := under(r.typeOf(e.X)).(*types.Array); ok {
			bm = mAddr
		}
		add(e.X, bm)
		add(e.Low, mRead)
		add(e.High, mRead)
		add(e.Max, mRead)
		return r.spliceT(e, kids, texts)
	case *ast.TypeAssertExpr:
		if e.Type == nil {
			return r.expr(e.X, mRead) + ".(type)"
		}
		return r.expr(e.X, mRead) + ".(" + r.typ(e.Type) + ")"
	case *ast.KeyValueExpr:
		return r.expr(e.Key, mRead) + ": " + r.expr(e.Value, mRead)
	case *ast.BasicLit, *ast.Ellipsis:
		return r.splice(e, children(e))
	}
	return r.splice(e, children(e))
}

// plain renders an expression or type with only the package-level name mapping applied.
func (r *rw) plain(n ast.Node) string {
	if s, ok := n.(*ast.SelectorExpr); ok {
		return r.selector(s, mAddr)
	}
	kids := children(n)
	texts := make([]string, len(kids))
	for i, k := range kids {
		texts[i] = r.plain(k)
	}
	return r.spliceT(n, kids, texts)
}

func (r *rw) typ(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.FuncType:
		var kids []ast.Node
		if t.TypeParams != nil {
			kids = append(kids, t.TypeParams)
		}
		kids = append(kids, t.Params)
		if t.Results != nil {
			kids = append(kids, t.Results)
		}
		return r.splice(t, kids)
	case *ast.SelectorExpr:
		return r.selector(t, mAddr)
	case *ast.StructType:
		return r.splice(t, []ast.Node{t.Fields})
	case *ast.InterfaceType:
		return r.splice(t, []ast.Node{t.Methods})
	case *ast.Ident:
		return t.Name
	}
	kids := children(e)
	texts := make([]string, len(kids))
	for i, k := range kids {
		if x, ok := k.(ast.Expr); ok {
			texts[i] = r.typ(x)
		} else {
			texts[i] = r.node(k)
		}
	}
	return r.spliceT(e, kids, texts)
}

func (r *rw) selector(e *ast.SelectorExpr, m mode) string {
	if id, ok := e.X.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			path := pn.Imported().Path()
			if to, ok := mapped[path+"."+e.Sel.Name]; ok && !(path == "fmt" && r.fmtKeep(e)) {
				if strings.HasPrefix(to, "zzgrpc.") {
					if strings.Contains(r.pkg.Path(), "/zzmc/") && !strings.HasSuffix(r.pkg.Path(), "/harness") && !strings.HasSuffix(r.pkg.Path(), "/netconf") {
						r.kept[path]++
						return r.raw(e)
					}
					r.usedGrpc = true
				}
				return to
			}
			r.kept[path]++
			if o := r.info.Uses[e.Sel]; r.mem && m != mAddr && r.shared(o) && !opaque(o.Type()) {
				return r.wrap(id.Name+"."+e.Sel.Name, m, e.Pos())
			}
			return id.Name + "." + e.Sel.Name
		}
	}
	sel := r.info.Selections[e]
	if sel == nil {
		return r.expr(e.X, mRead) + "." + e.Sel.Name
	}
	xt := r.typeOf(e.X)
	baseMode := mRead
	if !isPtr(xt) && !isIface(xt) && r.info.Types[e.X].Addressable() {
		baseMode = mAddr
	}
	switch sel.Kind() {
	case types.FieldVal:
		base := r.expr(e.X, baseMode)
		text := base + "." + e.Sel.Name
		if !r.mem || m == mAddr || !r.info.Types[e].Addressable() || opaque(sel.Type()) {
			return text
		}
		// only memory reached through a pointer or a shared variable can be shared
		if !r.reach(e.X) {
			return text
		}
		return r.wrap(text, m, e.Sel.Pos())
	case types.MethodVal:
		if baseMode == mAddr {
			if f, ok := sel.Obj().(*types.Func); ok {
				sig := f.Type().(*types.Signature)
				if sig.Recv() != nil && !isPtr(sig.Recv().Type()) && len(sel.Index()) == 1 {
					baseMode = mRead
				}
			}
		}
		return r.expr(e.X, baseMode) + "." + e.Sel.Name
	}
	return r.expr(e.X, mRead) + "." + e.Sel.Name // method expression
}

// fmtKeep: nothing of fmt is kept apart today.
func (r *rw) fmtKeep(e *ast.SelectorExpr) bool { return false }

// reach reports whether the memory selected from e may be shared.
func (r *rw) reach(e ast.Expr) bool {
	t := r.typeOf(e)
	if isPtr(t) {
		return true
	}
	switch e := unparen(e).(type) {
	case *ast.Ident:
		o := r.info.Uses[e]
		return o != nil && r.shared(o)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				return r.shared(r.info.Uses[e.Sel])
			}
		}
		return r.reach(e.X)
	case *ast.IndexExpr:
		if _, ok := under(r.typeOf(e.X)).(*types.Slice); ok {
			return true
		}
		return r.reach(e.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

func (r *rw) index(e *ast.IndexExpr, m mode) string {
	if tv, ok := r.info.Types[e.X]; ok {
		if _, ok := tv.Type.Underlying().(*types.Signature); ok || tv.IsType() {
			return r.expr(e.X, mRead) + "[" + r.typ(e.Index) + "]"
		}
	}
	if id, ok := unparen(e.X).(*ast.Ident); ok {
		if _, ok := r.info.Instances[id]; ok {
			return r.expr(e.X, mAddr) + "[" + r.typ(e.Index) + "]"
		}
	}
	t := under(r.typeOf(e.X))
	idx := r.expr(e.Index, mRead)
	switch t := t.(type) {
	case *types.Map:
		if !r.mem || m == mAddr {
			return r.expr(e.X, mRead) + "[" + idx + "]"
		}
		f := "MR"
		if m == mWrite {
			f = "MW"
		}
		return fmt.Sprintf("zzrt.%s(%s, %s)[%s]", f, r.expr(e.X, mRead), r.site(e.Lbrack), idx)
	case *types.Slice:
		text := r.expr(e.X, mRead) + "[" + idx + "]"
		if !r.mem || m == mAddr {
			return text
		}
		return r.wrap(text, m, e.Lbrack)
	case *types.Pointer: // to array
		text := r.expr(e.X, mRead) + "[" + idx + "]"
		if !r.mem || m == mAddr {
			return text
		}
		return r.wrap(text, m, e.Lbrack)
	case *types.Array:
		_ = t
		if r.info.Types[e.X].Addressable() {
			text := r.expr(e.X, mAddr) + "[" + idx + "]"
			if !r.mem || m == mAddr || !r.reach(e.X) {
				return text
			}
			return r.wrap(text, m, e.Lbrack)
		}
	}
	return r.expr(e.X, mRead) + "[" + idx + "]"
}

func (r *rw) composite(e *ast.CompositeLit) string {
	var kids []ast.Node
	var texts []string
	if e.Type != nil {
		kids = append(kids, e.Type)
		texts = append(texts, r.typ(e.Type))
	}
	t := r.typeOf(e)
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	_, isStruct := under(t).(*types.Struct)
	for _, el := range e.Elts {
		kids = append(kids, el)
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			k := ""
			if isStruct {
				k = r.raw(kv.Key)
			} else {
				k = r.expr(kv.Key, mRead)
			}
			texts = append(texts, k+": "+r.expr(kv.Value, mRead))
			continue
		}
		texts = append(texts, r.expr(el, mRead))
	}
	return r.spliceT(e, kids, texts)
}

func (r *rw) builtin(e *ast.CallExpr) string {
	id, ok := unparen(e.Fun).(*ast.Ident)
	if !ok {
		return ""
	}
	b, ok := r.info.Uses[id].(*types.Builtin)
	if !ok {
		return ""
	}
	return b.Name()
}

func (r *rw) call(e *ast.CallExpr) string {
	switch r.builtin(e) {
	case "close":
		return fmt.Sprintf("zzrt.Close(%s, %s)", r.expr(e.Args[0], mRead), r.site(e.Pos()))
	case "len":
		if c, ok := under(r.typeOf(e.Args[0])).(*types.Chan); ok {
			f := "Len"
			if c.Dir() == types.SendOnly {
				f = "LenS"
			}
			return fmt.Sprintf("zzrt.%s(%s, %s)", f, r.expr(e.Args[0], mRead), r.site(e.Pos()))
		}
		if isMap(r.typeOf(e.Args[0])) && r.mem {
			return fmt.Sprintf("len(zzrt.MR(%s, %s))", r.expr(e.Args[0], mRead), r.site(e.Pos()))
		}
	case "delete":
		return fmt.Sprintf("zzrt.MapDel(%s, %s, %s)", r.expr(e.Args[0], mRead), r.expr(e.Args[1], mRead), r.site(e.Pos()))
	case "clear":
		if isMap(r.typeOf(e.Args[0])) {
			return fmt.Sprintf("zzrt.MapClear(%s, %s)", r.expr(e.Args[0], mRead), r.site(e.Pos()))
		}
	case "new", "make":
		var kids []ast.Node
		var texts []string
		for i, a := range e.Args {
			kids = append(kids, a)
			if i == 0 {
				texts = append(texts, r.typ(a))
			} else {
				texts = append(texts, r.expr(a, mRead))
			}
		}
		return r.spliceT(e, kids, texts)
	}
	if sel, ok := unparen(e.Fun).(*ast.SelectorExpr); ok {
		if s := r.info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
			if f, ok := s.Obj().(*types.Func); ok {
				// only where the receiver is the pointer itself
				if to := methods[f.FullName()]; to != "" && types.Identical(r.typeOf(sel.X), f.Type().(*types.Signature).Recv().Type()) {
					if strings.HasPrefix(to, "zzgrpc.") {
						r.usedGrpc = true
					}
					args := []string{r.expr(sel.X, mRead)}
					for _, a := range e.Args {
						args = append(args, r.expr(a, mRead))
					}
					return fmt.Sprintf("%s(%s)", to, strings.Join(args, ", "))
				}
			}
		}
	}
	var kids []ast.Node
	var texts []string
	kids = append(kids, e.Fun)
	fun := ""
	if r.isType(e.Fun) {
		fun = r.typ(e.Fun)
	} else {
		fun = r.expr(e.Fun, mRead)
	}
	texts = append(texts, fun)
	for _, a := range e.Args {
		kids = append(kids, a)
		texts = append(texts, r.expr(a, mRead))
	}
	return r.spliceT(e, kids, texts)
}

func (r *rw) fresh(p string) string {
	r.tmp++
	return fmt.Sprintf("zz%s%d", p, r.tmp)
}

func (r *rw) goStmt(n *ast.GoStmt) string {
	c := n.Call
	var pre []string
	fun := ""
	if r.builtin(c) != "" {
		return fmt.Sprintf("zzrt.Go(%s, func() { %s })", r.site(n.Pos()), r.call(c))
	}
	fun = r.expr(c.Fun, mRead)
	if _, lit := unparen(c.Fun).(*ast.FuncLit); !lit || len(c.Args) > 0 {
		_, generic := unparen(c.Fun).(*ast.IndexExpr)
		isPkgFunc := false
		switch f := unparen(c.Fun).(type) {
		case *ast.Ident:
			if o, ok := r.info.Uses[f].(*types.Func); ok && o != nil {
				isPkgFunc = true
			}
		case *ast.SelectorExpr:
			if id, ok := f.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.PkgName); ok {
					isPkgFunc = true
				}
			}
		}
		if !generic && !isPkgFunc {
			v := r.fresh("f")
			pre = append(pre, v+" := "+fun)
			fun = v
		}
	}
	if len(c.Args) == 0 && len(pre) == 0 {
		if _, lit := unparen(c.Fun).(*ast.FuncLit); lit && r.noResults(c) {
			return fmt.Sprintf("zzrt.Go(%s, %s)", r.site(n.Pos()), fun)
		}
		return fmt.Sprintf("zzrt.Go(%s, func() { %s() })", r.site(n.Pos()), fun)
	}
	var args []string
	for _, a := range c.Args {
		tv := r.info.Types[a]
		t := r.expr(a, mRead)
		if tv.Value != nil || tv.IsNil() {
			args = append(args, t)
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			args = append(args, t)
			continue
		}
		v := r.fresh("a")
		pre = append(pre, v+" := "+t)
		args = append(args, v)
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	return fmt.Sprintf("{ %s; zzrt.Go(%s, func() { %s(%s%s) }) }", strings.Join(pre, "; "), r.site(n.Pos()), fun, strings.Join(args, ", "), dots)
}

func (r *rw) noResults(c *ast.CallExpr) bool {
	sig, ok := under(r.typeOf(c.Fun)).(*types.Signature)
	return ok && sig.Results().Len() == 0
}

// written returns the arguments of the zzrt.W that an expression written to is wrapped in.
func written(text string) (string, bool) {
	const pre, post = "(*zzrt.W(", "))"
	if !strings.HasPrefix(text, pre) || !strings.HasSuffix(text, post) {
		return "", false
	}
	return text[len(pre) : len(text)-len(post)], true
}

// harness says whether this is the harness, whose counters are no part of what is checked.
func (r *rw) harness() bool { return strings.HasSuffix(r.pkg.Path(), "/harness") }

// calls says whether evaluating e does more than reading memory.
func calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			found = found || n.Op == token.ARROW
		}
		return !found
	})
	return found
}

func (r *rw) assign(n *ast.AssignStmt) string {
	if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
		if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			l := make([]string, 2)
			for i, e := range n.Lhs {
				if n.Tok == token.DEFINE {
					l[i] = r.raw(e)
				} else {
					l[i] = r.expr(e, mWrite)
				}
			}
			return fmt.Sprintf("%s, %s %s zzrt.Recv2(%s, %s)", l[0], l[1], n.Tok, r.expr(u.X, mRead), r.site(u.OpPos))
		}
	}
	if n.Tok == token.ASSIGN && len(n.Lhs) == 1 && len(n.Rhs) == 1 {
		if ix, ok := unparen(n.Lhs[0]).(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) {
			return fmt.Sprintf("zzrt.MapSet(%s, %s)(%s, %s)", r.expr(ix.X, mRead), r.site(ix.Lbrack), r.expr(ix.Index, mRead), r.expr(n.Rhs[0], mRead))
		}
	}
	if n.Tok != token.DEFINE && len(n.Lhs) == 1 && len(n.Rhs) == 1 && !r.harness() {
		// the right side is evaluated first, whatever it takes, and then written
		if args, ok := written(r.expr(n.Lhs[0], mWrite)); ok {
			if n.Tok != token.ASSIGN {
				if !calls(n.Lhs[0]) {
					return fmt.Sprintf("zzrt.Set(%s)(*zzrt.R(%s) %s (%s))", args, args, strings.TrimSuffix(n.Tok.String(), "="), r.expr(n.Rhs[0], mRead))
				}
			} else if r.info.Types[n.Rhs[0]].Value == nil {
				return fmt.Sprintf("zzrt.Set(%s)(%s)", args, r.expr(n.Rhs[0], mRead))
			}
		}
	}
	if c, ok := unparen(n.Rhs[0]).(*ast.CallExpr); ok && n.Tok == token.ASSIGN && len(n.Lhs) > 1 && len(n.Rhs) == 1 && !r.harness() {
		var vs, sets []string
		n1 := 0
		for _, e := range n.Lhs {
			if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
				vs = append(vs, "_")
				continue
			}
			v, text := r.fresh("v"), r.expr(e, mWrite)
			vs = append(vs, v)
			if args, ok := written(text); ok {
				n1++
				sets = append(sets, fmt.Sprintf("zzrt.Set(%s)(%s)", args, v))
			} else {
				sets = append(sets, text+" = "+v)
			}
			if calls(e) {
				n1 = -len(n.Lhs)
			}
		}
		if n1 > 0 {
			return fmt.Sprintf("func() { %s := %s; %s }()", strings.Join(vs, ", "), r.expr(c, mRead), strings.Join(sets, "; "))
		}
	}
	var kids []ast.Node
	var texts []string
	for _, e := range n.Lhs {
		kids = append(kids, e)
		if n.Tok == token.DEFINE {
			texts = append(texts, r.raw(e))
		} else if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			texts = append(texts, "_")
		} else {
			texts = append(texts, r.expr(e, mWrite))
		}
	}
	for _, e := range n.Rhs {
		kids = append(kids, e)
		texts = append(texts, r.expr(e, mRead))
	}
	return r.spliceT(n, kids, texts)
}

func (r *rw) rangeStmt(n *ast.RangeStmt, label string) string {
	lab := ""
	if label != "" {
		lab = label + ":\n"
	}
	t := r.typeOf(n.X)
	if isChan(t) {
		k := "_"
		if n.Key != nil {
			k = r.raw(n.Key)
		}
		ch, v, ok := r.fresh("ch"), r.fresh("v"), r.fresh("ok")
		asg := ""
		if k != "_" {
			tok := ":="
			if n.Tok == token.ASSIGN {
				tok = "="
				k = r.expr(n.Key, mWrite)
			}
			asg = fmt.Sprintf("%s %s %s; ", k, tok, v)
		} else {
			asg = "_ = " + v + "; "
		}
		return fmt.Sprintf("{ %s := %s\n%sfor { %s, %s := zzrt.Recv2(%s, %s); if !%s { break }; %s\n%s } }", ch, r.expr(n.X, mRead), lab, v, ok, ch, r.site(n.For), ok, asg, r.blockBody(n.Body))
	}
	if isMap(t) {
		m := r.fresh("m")
		k := r.fresh("k")
		head := fmt.Sprintf("{ %s := %s\n%sfor _, %s := range zzrt.Keys(%s, %s) { if !zzrt.MapHas(%s, %s) { continue }; ", m, r.expr(n.X, mRead), lab, k, m, r.site(n.For), m, k)
		tok := n.Tok.String()
		bind := func(e ast.Expr, val string) string {
			if e == nil {
				return ""
			}
			if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
				return ""
			}
			if n.Tok == token.DEFINE {
				return fmt.Sprintf("%s %s %s; ", r.raw(e), tok, val)
			}
			return fmt.Sprintf("%s %s %s; ", r.expr(e, mWrite), tok, val)
		}
		if n.Key != nil {
			head += bind(n.Key, k)
		}
		if n.Value != nil {
			head += bind(n.Value, m+"["+k+"]")
		}
		return head + "\n" + r.blockBody(n.Body) + " } }"
	}
	var kids []ast.Node
	var texts []string
	add := func(e ast.Expr, m mode) {
		if e != nil {
			kids = append(kids, e)
			if n.Tok == token.DEFINE && e != n.X {
				texts = append(texts, r.raw(e))
			} else {
				texts = append(texts, r.expr(e, m))
			}
		}
	}
	add(n.Key, mWrite)
	add(n.Value, mWrite)
	add(n.X, mRead)
	kids = append(kids, n.Body)
	texts = append(texts, r.node(n.Body))
	return lab + r.spliceT(n, kids, texts)
}

func (r *rw) blockBody(b *ast.BlockStmt) string {
	s := r.node(b)
	return s[1 : len(s)-1]
}

func (r *rw) selectStmt(n *ast.SelectStmt, label string) string {
	var pre, names []string
	var body strings.Builder
	hasD := "false"
	idx := 0
	for _, cl := range n.Body.List {
		c := cl.(*ast.CommClause)
		stmts := func() string {
			var b strings.Builder
			for _, s := range c.Body {
				b.WriteString(r.node(s))
				b.WriteString("\n")
			}
			return b.String()
		}
		if c.Comm == nil {
			hasD = "true"
			fmt.Fprintf(&body, "case -1:\n%s", stmts())
			continue
		}
		v := r.fresh("c")
		names = append(names, v)
		bind := ""
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, fmt.Sprintf("%s := zzrt.SendCase(%s)(%s)", v, r.expr(s.Chan, mRead), r.expr(s.Value, mRead)))
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			pre = append(pre, fmt.Sprintf("%s := zzrt.RecvCase(%s)", v, r.expr(u.X, mRead)))
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, fmt.Sprintf("%s := zzrt.RecvCase(%s)", v, r.expr(u.X, mRead)))
			var l []string
			for _, e := range s.Lhs {
				if s.Tok == token.DEFINE {
					l = append(l, r.raw(e))
				} else if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
					l = append(l, "_")
				} else {
					l = append(l, r.expr(e, mWrite))
				}
			}
			f := "Val"
			if len(l) == 2 {
				f = "Val2"
			}
			bind = fmt.Sprintf("%s %s %s.%s()\n", strings.Join(l, ", "), s.Tok, v, f)
		}
		fmt.Fprintf(&body, "case %d:\n%s%s", idx, bind, stmts())
		idx++
	}
	lab := ""
	if label != "" {
		lab = label + ":\n"
	}
	args := ""
	if len(names) > 0 {
		args = ", " + strings.Join(names, ", ")
	}
	p := strings.Join(pre, "\n")
	if p != "" {
		p += "\n"
	}
	return fmt.Sprintf("{\n%s%sswitch zzrt.Select(%s, %s%s) {\n%sdefault:\npanic(\"unreachable select\")\n}\n}", p, lab, r.site(n.Pos()), hasD, args, body.String())
}
