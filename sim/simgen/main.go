// simgen copies the repository's modules into a scratch tree and rewrites them so that every source of nondeterminism goes
// through package simrt. It works on the type-checked program: what it replaces is decided by the object an identifier
// resolves to, not by how the code is laid out.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
)

const prefix = "github.com/ConsenSys/fc-retrieval/"

var modules = []string{"common", "client", "gateway-admin", "provider-admin", "gateway", "provider", "register"}

// replaced symbols: package path + "." + name
var symbols = map[string]string{}

func init() {
	add := func(path, names string) {
		for _, n := range strings.Fields(names) {
			to := n
			if i := strings.IndexByte(n, '='); i > 0 {
				n, to = n[:i], n[i+1:]
			}
			symbols[path+"."+n] = to
		}
	}
	add("sync", "Mutex RWMutex Once WaitGroup Cond NewCond Pool Map=SyncMap")
	add("time", "Now Since Until Sleep After AfterFunc NewTimer Timer NewTicker Ticker Tick")
	add("net", "Dial DialTimeout Listen Interfaces")
	add("net/http", "ListenAndServe")
	add("os", "Getenv LookupEnv Hostname MkdirAll Exit")
	add("os/signal", "Notify")
	add("log", "Fatal=LogFatal Fatalf=LogFatalf Fatalln=LogFatalln")
	add("context", "WithTimeout WithDeadline")
	add("crypto/rand", "Read=CryptoRead Reader=CryptoRand")
	add("crypto/ecdsa", "GenerateKey=ECDSAGenerateKey")
	add("math/rand", "Int63=RandInt63 Int31=RandInt31 Int=RandInt Uint32=RandUint32 Uint64=RandUint64 Float64=RandFloat64 Float32=RandFloat32 Intn=RandIntn Int31n=RandInt31n Int63n=RandInt63n Perm=RandPerm Read=RandRead Seed=RandSeed Shuffle=RandShuffle")
	add("github.com/filecoin-project/go-jsonrpc", "NewMergeClient=ext.NewMergeClient NewClient=ext.NewJSONRPCClient")
	add("github.com/go-redis/redis/v8", "NewClient=ext.NewRedisClient")
	add(sqlPkg, "Open=ext.SQLOpen")
	add("math/rand/v2", "IntN=RandIntn")
}

// replaced methods: receiver type + method
var methods = map[string]string{
	"(*github.com/spf13/viper.Viper).AutomaticEnv": "ext.ViperAutomaticEnv",
}

// functions whose bodies are replaced (the logging back end)
var logLevels = map[string]int{"Trace": 0, "Debug": 1, "Info": 2, "Warn": 3, "Error": 4, "Fatal": 5, "Panic": 6}

// packages left as they are: generated wiring without state, time or concurrency
func plain(path string) bool {
	r := strings.TrimPrefix(path, prefix)
	return strings.HasPrefix(r, "register/restapi") || strings.HasPrefix(r, "register/models") || strings.HasPrefix(r, "common/pkg/utest")
}

func skipPkg(path string) bool {
	r := strings.TrimPrefix(path, prefix)
	return strings.Contains(r, "/scripts/") || strings.HasSuffix(r, "/scripts") || r == "register/cmd/register-server" || strings.Contains(r, "mock")
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Standard   bool
	Error      *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	src := flag.String("src", "/verif/sim", "")
	out := flag.String("out", "", "")
	flag.Parse()
	if *out == "" {
		die("no -out")
	}
	h := filepath.Join(*out, "h")
	for _, m := range modules {
		copyTree(filepath.Join(*repo, m), filepath.Join(*out, m), func(p string) bool {
			b := filepath.Base(p)
			if strings.HasSuffix(b, "_test.go") {
				return false
			}
			return strings.HasSuffix(b, ".go") || b == "go.mod" || b == "go.sum"
		})
	}
	copyTree(*src, h, func(p string) bool {
		b := filepath.Base(p)
		return (strings.HasSuffix(b, ".go") || strings.HasSuffix(b, ".c") || strings.HasSuffix(b, ".h")) && !strings.Contains(p, "/simgen/") && !strings.Contains(p, "/bridge/")
	})
	// the harness itself is written in a later language version than the repository's modules
	filepath.Walk(h, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			b, _ := os.ReadFile(p)
			os.WriteFile(p, append([]byte("//go:build go1.22\n\n"), b...), 0o644)
		}
		return nil
	})
	copySQL(*out)
	writeMod(h, *out)
	pkgs, ext := load(h)
	gen(pkgs, ext, h, *out)
	// bridges
	copyTree(filepath.Join(*src, "bridge"), *out, func(p string) bool { return strings.HasSuffix(p, ".go") })
	writeSites(h)
}

// sqlPkg is a copy of the standard library's database/sql, rewritten like the repository's own code: its pool, its
// goroutines and its random choices become the simulator's.
const sqlPkg = prefix + "common/pkg/zzsql"

func copySQL(out string) {
	o, err := exec.Command("go", "list", "-json=Dir,GoFiles", "database/sql").Output()
	if err != nil {
		die("go list database/sql: %v", err)
	}
	var lp listPkg
	if err := json.Unmarshal(o, &lp); err != nil {
		die("go list database/sql: %v", err)
	}
	d := filepath.Join(out, "common/pkg/zzsql")
	os.MkdirAll(d, 0o755)
	for _, n := range lp.GoFiles {
		b, err := os.ReadFile(filepath.Join(lp.Dir, n))
		if err != nil {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(d, n), b, 0o644)
	}
	for _, m := range modules {
		filepath.Walk(filepath.Join(out, m), func(p string, fi os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, ".go") {
				b, _ := os.ReadFile(p)
				if bytes.Contains(b, []byte(`"database/sql"`)) {
					os.WriteFile(p, bytes.ReplaceAll(b, []byte(`"database/sql"`), []byte(`"`+sqlPkg+`"`)), 0o644)
				}
			}
			return nil
		})
	}
}

func copyTree(from, to string, want func(string) bool) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if b == ".git" || b == "node_modules" || b == "testdata" || b == "docs" {
				return filepath.SkipDir
			}
			return nil
		}
		if !fi.Mode().IsRegular() || !want(p) {
			return nil
		}
		r, _ := filepath.Rel(from, p)
		d := filepath.Join(to, r)
		os.MkdirAll(filepath.Dir(d), 0o755)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(d, b, 0o644)
	})
	if err != nil {
		die("%v", err)
	}
}

func writeMod(h, out string) {
	var b bytes.Buffer
	b.WriteString("module sim.local/h\n\ngo 1.16\n\nrequire (\n")
	for _, m := range modules {
		fmt.Fprintf(&b, "\t%s%s v0.0.0-00010101000000-000000000000\n", prefix, m)
	}
	b.WriteString(")\n\n")
	for _, m := range modules {
		fmt.Fprintf(&b, "replace %s%s => %s\n", prefix, m, filepath.Join(out, m))
	}
	os.WriteFile(filepath.Join(h, "go.mod"), b.Bytes(), 0o644)
	lines := map[string]bool{}
	for _, m := range modules {
		s, _ := os.ReadFile(filepath.Join(out, m, "go.sum"))
		for _, l := range strings.Split(string(s), "\n") {
			if l != "" {
				lines[l] = true
			}
		}
	}
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	os.WriteFile(filepath.Join(h, "go.sum"), []byte(strings.Join(ls, "\n")+"\n"), 0o644)
}

func goList(dir string, args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list", "-e", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,Imports,Standard,Error"}, args...)...)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	d := json.NewDecoder(bytes.NewReader(o))
	var r []*listPkg
	for {
		p := &listPkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		r = append(r, p)
	}
	return r
}

func load(h string) ([]*listPkg, map[string]string) {
	var pats []string
	for _, m := range modules {
		pats = append(pats, prefix+m+"/...")
	}
	all := goList(h, pats...)
	var ours []*listPkg
	byPath := map[string]*listPkg{}
	extSet := map[string]bool{}
	for _, p := range all {
		if skipPkg(p.ImportPath) || len(p.GoFiles) == 0 {
			continue
		}
		if p.Error != nil {
			die("package %s: %s", p.ImportPath, p.Error.Err)
		}
		byPath[p.ImportPath] = p
	}
	for _, p := range byPath {
		for _, i := range p.Imports {
			if byPath[i] == nil && i != "C" && i != "unsafe" {
				extSet[i] = true
			}
		}
	}
	// dependency order
	state := map[string]int{}
	var visit func(p *listPkg)
	var paths []string
	for k := range byPath {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	visit = func(p *listPkg) {
		if state[p.ImportPath] != 0 {
			return
		}
		state[p.ImportPath] = 1
		for _, i := range p.Imports {
			if q := byPath[i]; q != nil {
				visit(q)
			}
		}
		ours = append(ours, p)
	}
	for _, k := range paths {
		visit(byPath[k])
	}
	var exts []string
	for k := range extSet {
		if strings.HasPrefix(k, prefix) {
			die("import of skipped package %s", k)
		}
		exts = append(exts, k)
	}
	sort.Strings(exts)
	exp := map[string]string{}
	for _, p := range goList(h, append([]string{"-export", "-deps"}, exts...)...) {
		if p.Export != "" {
			exp[p.ImportPath] = p.Export
		}
	}
	return ours, exp
}

type imp struct {
	src map[string]*types.Package
	gc  types.Importer
}

func (i *imp) Import(path string) (*types.Package, error) {
	if p := i.src[path]; p != nil {
		return p, nil
	}
	return i.gc.Import(path)
}

type pkgData struct {
	lp    *listPkg
	files []*ast.File
	names []string
	info  *types.Info
	pkg   *types.Package
}

// package-level variables that become per-process state
var perNode = map[types.Object]bool{}

var sites []string
var siteMu sync.Mutex

func site(s string) int {
	sites = append(sites, s)
	return len(sites) - 1
}

func gen(ours []*listPkg, exp map[string]string, h, out string) {
	fset := token.NewFileSet()
	im := &imp{src: map[string]*types.Package{}}
	im.gc = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exp[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	var ds []*pkgData
	for _, lp := range ours {
		if len(lp.CgoFiles) > 0 {
			die("package %s uses cgo", lp.ImportPath)
		}
		d := &pkgData{lp: lp}
		for _, n := range lp.GoFiles {
			fn := filepath.Join(lp.Dir, n)
			f, err := parser.ParseFile(fset, fn, nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			d.files = append(d.files, f)
			d.names = append(d.names, fn)
		}
		d.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		gov := "go1.16"
		if lp.ImportPath == sqlPkg {
			gov = "go1.23"
		}
		cfg := types.Config{Importer: im, GoVersion: gov, Sizes: types.SizesFor("gc", "amd64")}
		p, err := cfg.Check(lp.ImportPath, fset, d.files, d.info)
		if err != nil {
			die("type check %s: %v", lp.ImportPath, err)
		}
		d.pkg = p
		im.src[lp.ImportPath] = p
		ds = append(ds, d)
		if !plain(lp.ImportPath) {
			for _, n := range p.Scope().Names() {
				if v, ok := p.Scope().Lookup(n).(*types.Var); ok {
					perNode[v] = true
				}
			}
		}
	}
	for _, d := range ds {
		if plain(d.lp.ImportPath) {
			continue
		}
		rewritePkg(fset, d)
	}
}

func rewritePkg(fset *token.FileSet, d *pkgData) {
	var fields []string
	inits := map[types.Object]string{} // var -> init func name
	nInit := 0
	var userInits []string
	for fi, f := range d.files {
		r := &rewriter{fset: fset, d: d, file: f, used: map[string]bool{}, needExt: false}
		rel := strings.TrimPrefix(d.names[fi], "/")
		if i := strings.Index(d.lp.ImportPath, prefix); i == 0 {
			rel = strings.TrimPrefix(d.lp.ImportPath, prefix) + "/" + filepath.Base(d.names[fi])
		}
		r.rel = rel
		// package-level variables
		var decls []ast.Decl
		for _, dc := range f.Decls {
			gd, ok := dc.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				decls = append(decls, dc)
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				keep := false
				for _, n := range vs.Names {
					if n.Name == "_" {
						keep = true
					}
				}
				if keep {
					decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{vs}})
					continue
				}
				var lhs []ast.Expr
				for _, n := range vs.Names {
					obj := d.info.Defs[n]
					tn := "zzt_" + n.Name
					var te ast.Expr
					if vs.Type != nil {
						te = r.exprCopy(vs.Type)
					} else {
						te = r.typeExpr(obj.Type())
					}
					decls = append(decls, &ast.GenDecl{Tok: token.TYPE, Specs: []ast.Spec{&ast.TypeSpec{Name: ast.NewIdent(tn), Assign: 1, Type: te}}})
					fields = append(fields, n.Name+" "+tn)
					lhs = append(lhs, &ast.SelectorExpr{X: ast.NewIdent("zzg"), Sel: ast.NewIdent(n.Name)})
				}
				if len(vs.Values) == 0 {
					continue
				}
				mk := func(l []ast.Expr, v []ast.Expr, objs []*ast.Ident) {
					fn := fmt.Sprintf("zzi_%d", nInit)
					nInit++
					decls = append(decls, &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{ast.NewIdent("zzg")}, Type: &ast.StarExpr{X: ast.NewIdent("ZzgT")}}}}},
						Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: v}}}})
					for _, o := range objs {
						inits[d.info.Defs[o]] = fn
					}
				}
				if len(vs.Values) == len(vs.Names) {
					for i := range vs.Names {
						mk(lhs[i:i+1], vs.Values[i:i+1], vs.Names[i:i+1])
					}
				} else {
					mk(lhs, vs.Values, vs.Names)
				}
			}
		}
		f.Decls = decls
		for _, dc := range f.Decls {
			if fd, ok := dc.(*ast.FuncDecl); ok && fd.Recv == nil {
				if fd.Name.Name == "init" {
					fd.Name = ast.NewIdent(fmt.Sprintf("zzuserinit_%d", len(userInits)))
					userInits = append(userInits, fd.Name.Name)
				}
				if fd.Name.Name == "main" && d.pkg.Name() == "main" {
					fd.Name = ast.NewIdent("Main")
				}
				if lv, ok := logLevels[fd.Name.Name]; ok && d.lp.ImportPath == prefix+"common/pkg/logging" && fd.Type.Params.NumFields() == 2 {
					var args []ast.Expr
					args = append(args, &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(lv)})
					for _, p := range fd.Type.Params.List {
						for _, n := range p.Names {
							args = append(args, ast.NewIdent(n.Name))
						}
					}
					fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: r.rt("Log"), Args: args, Ellipsis: 1}}}}
					r.noY = append(r.noY, fd)
				}
			}
		}
		if d.pkg.Name() == "main" {
			f.Name = ast.NewIdent("simmain")
		}
		r.run()
		r.write(d.names[fi])
	}
	if len(fields) == 0 && len(userInits) == 0 {
		return
	}
	var b bytes.Buffer
	name := d.pkg.Name()
	if name == "main" {
		name = "simmain"
	}
	fmt.Fprintf(&b, "//go:build go1.18\n\npackage %s\n\nimport simrt \"sim.local/h/simrt\"\n\ntype ZzgT struct {\n", name)
	for _, f := range fields {
		fmt.Fprintf(&b, "\t%s\n", f)
	}
	fmt.Fprintf(&b, "}\n\nfunc Zzg() *ZzgT { return simrt.Globals[ZzgT](%q, zzInit) }\n\nfunc zzInit(g *ZzgT) {\n", d.lp.ImportPath)
	done := map[string]bool{}
	order := d.initOrder()
	for _, o := range order {
		if fn := inits[o]; fn != "" && !done[fn] {
			done[fn] = true
			fmt.Fprintf(&b, "\t%s(g)\n", fn)
		}
	}
	for _, u := range userInits {
		fmt.Fprintf(&b, "\t%s()\n", u)
	}
	b.WriteString("}\n")
	os.WriteFile(filepath.Join(d.lp.Dir, "zz_globals.go"), b.Bytes(), 0o644)
}

func (d *pkgData) initOrder() []types.Object {
	var r []types.Object
	for _, i := range d.info.InitOrder {
		for _, v := range i.Lhs {
			r = append(r, v)
		}
	}
	return r
}

type mapAcc struct {
	node  ast.Node // *ast.IndexExpr, *ast.CallExpr (delete) or *ast.RangeStmt
	write bool
}

type rewriter struct {
	captured map[ast.Stmt]bool
	fset     *token.FileSet
	d        *pkgData
	file     *ast.File
	rel      string
	used     map[string]bool
	needExt  bool
	tmp      int
	commRecv map[ast.Node]bool
	recv2    map[ast.Node]bool
	acc      map[ast.Stmt][]mapAcc
	noY      []*ast.FuncDecl
	fn       string
	addImps  map[string]string
	rangeT   map[*ast.RangeStmt]types.Type
	goConst  map[ast.Expr]bool
}

func (r *rewriter) rt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) fresh(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.tmp))
}

func (r *rewriter) typeExpr(t types.Type) ast.Expr {
	if r.addImps == nil {
		r.addImps = map[string]string{}
	}
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.d.pkg {
			return ""
		}
		if p.Path() == "sync" {
			return "simrt"
		}
		a := r.addImps[p.Path()]
		if a == "" {
			a = fmt.Sprintf("zzimp%d", len(r.addImps))
			r.addImps[p.Path()] = a
		}
		return a
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		die("%s: can not write type %s: %v", r.rel, s, err)
	}
	return e
}

func (r *rewriter) exprCopy(e ast.Expr) ast.Expr { return e }

// generic bottom-up rewriting through reflection
var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

func (r *rewriter) walk(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		r.walkVal(n, v.Type().Field(i).Name, v.Field(i))
	}
}

func (r *rewriter) walkVal(parent ast.Node, name string, f reflect.Value) {
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		if c, ok := f.Interface().(ast.Node); ok {
			r.node(parent, name, c, func(x ast.Node) { f.Set(reflect.ValueOf(x)) })
		}
	case reflect.Ptr:
		if f.IsNil() {
			return
		}
		if c, ok := f.Interface().(ast.Node); ok {
			if _, isObj := f.Interface().(*ast.Object); isObj {
				return
			}
			r.node(parent, name, c, func(x ast.Node) {
				if reflect.TypeOf(x) == f.Type() {
					f.Set(reflect.ValueOf(x))
				}
			})
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.walkVal(parent, name, f.Index(i))
		}
	}
}

func (r *rewriter) node(parent ast.Node, field string, n ast.Node, set func(ast.Node)) {
	switch x := n.(type) {
	case *ast.CommentGroup, *ast.Comment, *ast.ImportSpec, *ast.BasicLit:
		return
	case *ast.Ident:
		// only rewrite identifiers in expression position
		if o, ok := r.d.info.Uses[x]; ok && perNode[o] {
			if p, isSel := parent.(*ast.SelectorExpr); isSel && field == "Sel" {
				_ = p
				return // handled with the selector
			}
			set(&ast.SelectorExpr{X: &ast.CallExpr{Fun: ast.NewIdent("Zzg")}, Sel: ast.NewIdent(x.Name)})
		}
		return
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.d.info.Uses[id].(*types.PkgName); ok {
				key := pn.Imported().Path() + "." + x.Sel.Name
				if to, ok := symbols[key]; ok {
					set(r.symbol(to))
					return
				}
				if o := r.d.info.Uses[x.Sel]; o != nil && perNode[o] {
					set(&ast.SelectorExpr{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: x.X, Sel: ast.NewIdent("Zzg")}}, Sel: ast.NewIdent(x.Sel.Name)})
				}
				return
			}
		}
		r.walkVal(x, "X", reflect.ValueOf(x).Elem().FieldByName("X"))
		return
	case *ast.CallExpr:
		if se, ok := x.Fun.(*ast.SelectorExpr); ok {
			if sel := r.d.info.Selections[se]; sel != nil {
				if fo, ok := sel.Obj().(*types.Func); ok {
					if to, ok := methods[fo.FullName()]; ok {
						r.walk(x)
						set(&ast.CallExpr{Fun: r.symbol(to), Args: append([]ast.Expr{se.X}, x.Args...), Ellipsis: x.Ellipsis})
						return
					}
				}
			}
		}
		if id, ok := x.Fun.(*ast.Ident); ok {
			if b, ok := r.d.info.Uses[id].(*types.Builtin); ok && len(x.Args) == 1 {
				if _, isCh := under(r.d.info.TypeOf(x.Args[0])).(*types.Chan); isCh {
					switch b.Name() {
					case "close":
						r.walk(x)
						set(r.call("Close", x.Args...))
						return
					case "len":
						r.walk(x)
						set(r.call("Len", x.Args...))
						return
					}
				}
			}
		}
		r.walk(x)
		return
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			comm, two := r.commRecv[x], r.recv2[x]
			r.walk(x)
			if comm {
				return
			}
			if two {
				set(r.call("Recv2", x.X))
			} else {
				set(r.call("Recv", x.X))
			}
			return
		}
		r.walk(x)
		return
	case *ast.KeyValueExpr:
		// a struct literal's field name is not a variable
		if id, ok := x.Key.(*ast.Ident); ok {
			if v, isVar := r.d.info.Uses[id].(*types.Var); isVar && v.IsField() {
				r.walkVal(x, "Value", reflect.ValueOf(x).Elem().FieldByName("Value"))
				return
			}
		}
		r.walk(x)
		return
	case *ast.FuncDecl:
		old := r.fn
		r.fn = x.Name.Name
		r.walk(x)
		r.fn = old
		return
	case *ast.BlockStmt:
		r.walk(x)
		x.List = r.stmts(x.List)
		return
	case *ast.CaseClause:
		r.walk(x)
		x.Body = r.stmts(x.Body)
		return
	case *ast.CommClause:
		r.walk(x)
		x.Body = r.stmts(x.Body)
		return
	}
	r.walk(n)
}

func (r *rewriter) symbol(to string) ast.Expr {
	if strings.HasPrefix(to, "ext.") {
		r.needExt = true
		return &ast.SelectorExpr{X: ast.NewIdent("simext"), Sel: ast.NewIdent(to[4:])}
	}
	if to == "CryptoRand" {
		return &ast.CompositeLit{Type: r.rt("CryptoReader")}
	}
	return r.rt(to)
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// prescan records type facts about nodes before anything is replaced.
func (r *rewriter) prescan() {
	r.commRecv = map[ast.Node]bool{}
	r.recv2 = map[ast.Node]bool{}
	r.acc = map[ast.Stmt][]mapAcc{}
	r.rangeT = map[*ast.RangeStmt]types.Type{}
	r.goConst = map[ast.Expr]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CommClause:
			switch c := x.Comm.(type) {
			case *ast.ExprStmt:
				if u, ok := unparen(c.X).(*ast.UnaryExpr); ok {
					r.commRecv[u] = true
				}
			case *ast.AssignStmt:
				if u, ok := unparen(c.Rhs[0]).(*ast.UnaryExpr); ok {
					r.commRecv[u] = true
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv2[u] = true
				}
			}
		case *ast.RangeStmt:
			r.rangeT[x] = r.d.info.TypeOf(x.X)
		case *ast.GoStmt:
			for _, a := range x.Call.Args {
				tv := r.d.info.Types[a]
				if tv.Value != nil || tv.IsNil() || tv.IsType() {
					r.goConst[a] = true
				}
			}
		}
		switch x := n.(type) {
		case *ast.BlockStmt:
			for _, s := range x.List {
				r.mapUses(s)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				r.mapUses(s)
			}
		case *ast.CommClause:
			for _, s := range x.Body {
				r.mapUses(s)
			}
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// mapUses finds the map accesses in the head of a statement.
func (r *rewriter) mapUses(s ast.Stmt) {
	var acc []mapAcc
	isMap := func(e ast.Expr) bool {
		_, ok := under(r.d.info.TypeOf(e)).(*types.Map)
		return ok
	}
	add := func(e ast.Expr, n ast.Node, w bool) {
		if r.simple(e, s.Pos()) {
			acc = append(acc, mapAcc{n, w})
		}
	}
	var scan func(n ast.Node)
	scan = func(n ast.Node) {
		if n == nil || reflect.ValueOf(n).IsNil() {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.IndexExpr:
				if isMap(x.X) {
					add(x.X, x, false)
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "delete" && len(x.Args) == 2 {
					if _, ok := r.d.info.Uses[id].(*types.Builtin); ok {
						add(x.Args[0], x, true)
					}
				}
			}
			return true
		})
	}
	lhs := func(e ast.Expr) {
		if ix, ok := unparen(e).(*ast.IndexExpr); ok && isMap(ix.X) {
			add(ix.X, ix, true)
			return
		}
		scan(e)
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		for _, e := range x.Rhs {
			scan(e)
		}
		for _, e := range x.Lhs {
			lhs(e)
		}
	case *ast.IncDecStmt:
		lhs(x.X)
	case *ast.ExprStmt:
		scan(x.X)
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			scan(e)
		}
	case *ast.IfStmt:
		if x.Init != nil {
			scan(x.Init)
		}
		scan(x.Cond)
	case *ast.SwitchStmt:
		if x.Init != nil {
			scan(x.Init)
		}
		if x.Tag != nil {
			scan(x.Tag)
		}
	case *ast.RangeStmt:
		if isMap(x.X) {
			add(x.X, x, false)
		} else {
			scan(x.X)
		}
	case *ast.LabeledStmt:
		if rs, ok := x.Stmt.(*ast.RangeStmt); ok && isMap(rs.X) {
			add(rs.X, rs, false)
		}
	case *ast.DeclStmt:
		scan(x.Decl)
	}
	if len(acc) > 0 {
		r.acc[s] = acc
	}
}

func (r *rewriter) simple(e ast.Expr, before token.Pos) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case nil, *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr, *ast.IndexExpr, *ast.BasicLit:
		case *ast.Ident:
			o := r.d.info.Uses[x]
			if o == nil {
				ok = false
			} else if v, isV := o.(*types.Var); isV && !v.IsField() && o.Parent() != r.d.pkg.Scope() && o.Pos() >= before {
				ok = false
			} else if _, isF := o.(*types.Func); isF {
				ok = false
			}
		default:
			ok = false
		}
		return ok
	})
	return ok
}

func (r *rewriter) print(n ast.Node) string {
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), n); err != nil {
		die("%s: print: %v", r.rel, err)
	}
	return b.String()
}

func (r *rewriter) run() {
	r.prescan()
	r.findCaptured()
	for _, dc := range r.file.Decls {
		skip := false
		for _, n := range r.noY {
			if n == dc {
				skip = true
			}
		}
		if skip {
			continue
		}
		if gd, ok := dc.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		r.node(r.file, "Decls", dc, func(ast.Node) {})
	}
}

func (r *rewriter) yield(s ast.Stmt) ast.Stmt {
	pos := r.fset.Position(s.Pos())
	n := site(fmt.Sprintf("%s:%d %s", r.rel, pos.Line, r.fn))
	return &ast.ExprStmt{X: r.call("Y", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)})}
}

// split takes an update of a shared variable that reads it as well (x++, x += y, x = append(x, y)) apart into the reading and
// the writing, with a scheduling point in between: without a lock, another thread's update may fall there.
func (r *rewriter) split(orig, s ast.Stmt) ast.Stmt {
	var l, rhs ast.Expr
	switch x := s.(type) {
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		l, rhs = x.X, &ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
			return s
		}
		l, rhs = x.Lhs[0], x.Rhs[0]
		if x.Tok != token.ASSIGN {
			op, ok := assignOps[x.Tok]
			if !ok {
				return s
			}
			rhs = &ast.BinaryExpr{X: l, Op: op, Y: &ast.ParenExpr{X: rhs}}
		} else {
			ls, found := r.print(l), false
			ast.Inspect(rhs, func(n ast.Node) bool {
				if _, lit := n.(*ast.FuncLit); lit {
					return false
				}
				if e, ok := n.(ast.Expr); ok && !found && r.print(e) == ls {
					found = true
				}
				return !found
			})
			if !found {
				return s
			}
		}
	default:
		return s
	}
	switch x := unparen(l).(type) {
	case *ast.Ident:
		if !r.captured[orig] {
			return s
		}
	case *ast.SelectorExpr, *ast.StarExpr:
	case *ast.IndexExpr:
		pure := true
		ast.Inspect(x, func(n ast.Node) bool {
			if _, isC := n.(*ast.CallExpr); isC {
				pure = false
			}
			return true
		})
		if !pure {
			return s
		}
	default:
		return s
	}
	v := r.fresh("u")
	return &ast.BlockStmt{List: []ast.Stmt{define([]ast.Expr{v}, rhs), r.yield(orig), &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}}
}

var assignOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR}

// findCaptured marks the assignments in function literals to variables of the function around them.
func (r *rewriter) findCaptured() {
	r.captured = map[ast.Stmt]bool{}
	var lits []*ast.FuncLit
	var stack []ast.Node
	ast.Inspect(r.file, func(n ast.Node) bool {
		if n == nil {
			if _, ok := stack[len(stack)-1].(*ast.FuncLit); ok {
				lits = lits[:len(lits)-1]
			}
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		var l ast.Expr
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
		case *ast.AssignStmt:
			if len(x.Lhs) == 1 {
				l = x.Lhs[0]
			}
		case *ast.IncDecStmt:
			l = x.X
		}
		if id, ok := l.(*ast.Ident); ok && len(lits) > 0 {
			if o := r.d.info.Uses[id]; o != nil && (o.Pos() < lits[len(lits)-1].Pos() || o.Pos() > lits[len(lits)-1].End()) {
				r.captured[n.(ast.Stmt)] = true
			}
		}
		return true
	})
}

func (r *rewriter) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		}
		orig := s
		if r.d.lp.ImportPath == sqlPkg {
			pre, s2 := r.stmt(s)
			out = append(out, append(pre, s2)...)
			continue
		}
		out = append(out, r.yield(s))
		for _, a := range r.acc[orig] {
			var e ast.Expr
			switch x := a.node.(type) {
			case *ast.IndexExpr:
				e = x.X
			case *ast.CallExpr:
				e = x.Args[0]
			case *ast.RangeStmt:
				e = x.X
			}
			src := r.print(e)
			f, err := parser.ParseExpr("func() any { return " + src + " }")
			if err != nil {
				die("%s: %s: %v", r.rel, src, err)
			}
			clearPos(f)
			name := "MapR"
			if a.write {
				name = "MapW"
			}
			out = append(out, &ast.ExprStmt{X: r.call(name, f)})
		}
		pre, s2 := r.stmt(s)
		out = append(out, pre...)
		out = append(out, r.split(orig, s2))
	}
	return out
}

func clearPos(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n).Elem()
		if v.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() == reflect.TypeOf(token.Pos(0)) && v.Type().Field(i).Name != "Ellipsis" && v.Type().Field(i).Name != "Assign" {
				v.Field(i).SetInt(0)
			}
		}
		return true
	})
}

func define(l []ast.Expr, v ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: v}
}

// stmt rewrites the statement kinds with scheduling meaning; children are already done.
func (r *rewriter) stmt(s ast.Stmt) (pre []ast.Stmt, _ ast.Stmt) {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		p, inner := r.stmt(x.Stmt)
		x.Stmt = inner
		return p, x
	case *ast.GoStmt:
		call := x.Call
		var list []ast.Stmt
		if _, lit := call.Fun.(*ast.FuncLit); !lit || len(call.Args) > 0 {
			if _, isB := unparen(call.Fun).(*ast.Ident); !isB || !r.builtin(call.Fun) {
				f := r.fresh("f")
				list = append(list, define([]ast.Expr{f}, call.Fun))
				call = &ast.CallExpr{Fun: f, Args: append([]ast.Expr{}, call.Args...), Ellipsis: call.Ellipsis}
			}
			for i, a := range call.Args {
				if r.goConst[x.Call.Args[i]] {
					continue
				}
				v := r.fresh("a")
				list = append(list, define([]ast.Expr{v}, a))
				call.Args[i] = v
			}
		}
		fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
		list = append(list, &ast.ExprStmt{X: r.call("Go", fl)})
		return nil, &ast.BlockStmt{List: list}
	case *ast.SendStmt:
		return nil, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", x.Chan), Args: []ast.Expr{x.Value}}}
	case *ast.RangeStmt:
		switch t := under(r.rangeT[x]).(type) {
		case *types.Chan:
			_ = t
			ok := r.fresh("ok")
			var first ast.Stmt
			if x.Key == nil {
				first = define([]ast.Expr{ast.NewIdent("_"), ok}, r.call("Recv2", x.X))
			} else if x.Tok == token.DEFINE {
				first = define([]ast.Expr{x.Key, ok}, r.call("Recv2", x.X))
			} else {
				v := r.fresh("v")
				body := []ast.Stmt{define([]ast.Expr{v, ok}, r.call("Recv2", x.X)), breakUnless(ok), &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}
				return nil, &ast.ForStmt{Body: &ast.BlockStmt{List: append(body, x.Body.List...)}}
			}
			return nil, &ast.ForStmt{Body: &ast.BlockStmt{List: append([]ast.Stmt{first, breakUnless(ok)}, x.Body.List...)}}
		case *types.Map:
			it := r.fresh("it")
			blank := func(e ast.Expr) bool {
				if e == nil {
					return true
				}
				id, ok := e.(*ast.Ident)
				return ok && id.Name == "_"
			}
			k, v := x.Key, x.Value
			addr := func(e ast.Expr) ast.Expr {
				if blank(e) {
					return ast.NewIdent("nil")
				}
				return &ast.UnaryExpr{Op: token.AND, X: e}
			}
			next := &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(k), addr(v)}}
			var init ast.Stmt
			if x.Tok == token.DEFINE {
				switch {
				case blank(k) && blank(v):
					init = define([]ast.Expr{it}, r.call("MapIter", x.X))
				case blank(v):
					init = define([]ast.Expr{it, k}, r.call("MapStartK", x.X))
				case blank(k):
					init = define([]ast.Expr{it, v}, r.call("MapStartV", x.X))
				default:
					init = define([]ast.Expr{it, k, v}, r.call("MapStart", x.X))
				}
			} else {
				init = define([]ast.Expr{it}, r.call("MapIter", x.X))
			}
			return nil, &ast.ForStmt{Init: init, Cond: next, Body: x.Body}
		}
	case *ast.SelectStmt:
		if len(x.Body.List) == 0 {
			return nil, &ast.ExprStmt{X: r.call("BlockForever")}
		}
		sel := r.fresh("sel")
		hasDef := "false"
		args := []ast.Expr{nil}
		sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("I")}, Body: &ast.BlockStmt{}}
		idx := 0
		// r.stmts added yields in the select's body list? no: CommClauses are not statements of a plain list
		for _, cs := range x.Body.List {
			cc, ok := cs.(*ast.CommClause)
			if !ok {
				continue // an inserted yield
			}
			if cc.Comm == nil {
				hasDef = "true"
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
				continue
			}
			lit := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}
			idx++
			body := cc.Body
			ch := r.fresh("c")
			switch c := cc.Comm.(type) {
			case *ast.SendStmt:
				v := r.fresh("c")
				pre = append(pre, define([]ast.Expr{v}, &ast.CallExpr{Fun: r.call("CSend", c.Chan), Args: []ast.Expr{c.Value}}))
				args = append(args, v)
			case *ast.ExprStmt:
				pre = append(pre, define([]ast.Expr{ch}, unparen(c.X).(*ast.UnaryExpr).X))
				args = append(args, r.call("CRecv", ch))
			case *ast.AssignStmt:
				pre = append(pre, define([]ast.Expr{ch}, unparen(c.Rhs[0]).(*ast.UnaryExpr).X))
				args = append(args, r.call("CRecv", ch))
				fn := "SelVal"
				if len(c.Lhs) == 2 {
					fn = "SelVal2"
				}
				body = append([]ast.Stmt{&ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: []ast.Expr{r.call(fn, sel, ch)}}}, body...)
			}
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lit}, Body: body})
		}
		args[0] = ast.NewIdent(hasDef)
		sw.Init = define([]ast.Expr{sel}, r.call("Select", args...))
		return pre, sw
	}
	return nil, s
}

func breakUnless(ok ast.Expr) ast.Stmt {
	return &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
}

func (r *rewriter) builtin(e ast.Expr) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	_, b := r.d.info.Uses[id].(*types.Builtin)
	return b
}

func (r *rewriter) write(fn string) {
	// which imports are still used
	used := map[string]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok {
				if pn, ok := r.d.info.Uses[id].(*types.PkgName); ok {
					used[pn.Imported().Path()+" "+id.Name] = true
				}
			}
		}
		return true
	})
	var specs []ast.Spec
	var decls []ast.Decl
	for _, dc := range r.file.Decls {
		gd, ok := dc.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			decls = append(decls, dc)
			continue
		}
		for _, sp := range gd.Specs {
			is := sp.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
				if strings.Contains(path, "godotenv") {
					continue
				}
				specs = append(specs, is)
				continue
			}
			keep := false
			for k := range used {
				if strings.HasPrefix(k, path+" ") {
					keep = true
				}
			}
			if keep {
				specs = append(specs, is)
			}
		}
	}
	add := func(name, path string) {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
	}
	add("simrt", "sim.local/h/simrt")
	if r.needExt {
		add("simext", "sim.local/h/simext")
	}
	var ks []string
	for k := range r.addImps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		add(r.addImps[k], k)
	}
	for _, s := range specs {
		is := s.(*ast.ImportSpec)
		is.Path.ValuePos = 0
		if is.Name != nil {
			is.Name.NamePos = 0
		}
	}
	r.file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 2}}, decls...)
	r.file.Decls = append(r.file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{r.rt("Y")}}}})
	var b bytes.Buffer
	if r.d.lp.ImportPath == sqlPkg {
		b.WriteString("//go:build go1.23\n\n")
	} else {
		b.WriteString("//go:build go1.18\n\n")
	}
	// positions are meaningless after the rewrite: print without them
	clearPos(r.file)
	restoreParens(r.file)
	if err := format.Node(&b, token.NewFileSet(), r.file); err != nil {
		die("%s: %v", fn, err)
	}
	if err := os.WriteFile(fn, b.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
}

// restoreParens puts back the positions that carry meaning (a parenthesised declaration group).
func restoreParens(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if len(x.Specs) != 1 || x.Tok == token.IMPORT {
				x.Lparen, x.Rparen = 1, 2
			}
		case *ast.TypeSpec:
		}
		return true
	})
}

func writeSites(h string) {
	b, _ := json.Marshal(sites)
	os.WriteFile(filepath.Join(h, "sites.json"), b, 0o644)
}
