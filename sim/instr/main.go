// instr rewrites the non-test Go sources of a repository so that every source of
// nondeterminism goes through package vsim, and writes a go build -overlay file.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "repository")
	out     = flag.String("out", "", "output directory")
	vsim    = flag.String("vsim", "", "directory of package vsim")
	harness = flag.String("harness", "", "directory of the harness main package")
	goroot  = flag.String("goroot", "", "GOROOT, for the sync.Pool overlay")
	withCLI = flag.Bool("cli", false, "include cmd/nightlight and internal/rest")
)

const modPath = "github.com/mlnoga/nightlight"
const vsimPath = modPath + "/internal/zzverif/vsim"

// selector renames: import path -> name -> vsim name
var ren = map[string]map[string]string{
	"sync": same("Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Pool", "Map", "Locker", "OnceFunc", "OnceValue", "OnceValues"),
	"sync/atomic": {"Int32": "AtomicInt32", "Int64": "AtomicInt64", "Uint32": "AtomicUint32", "Uint64": "AtomicUint64", "Uintptr": "AtomicUintptr",
		"Bool": "AtomicBool", "Value": "AtomicValue", "Pointer": "AtomicPointer"},
	"context": {"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "WithDeadline": "WithDeadline", "WithTimeout": "WithTimeout",
		"Cause": "CtxCause", "AfterFunc": "CtxAfterFunc"},
	"os": same("Open", "Create", "OpenFile", "File", "Stdin", "Stdout", "Stderr", "Args", "Stat", "Lstat", "ReadDir",
		"Remove", "RemoveAll", "Rename", "Mkdir", "MkdirAll", "Truncate", "Chmod", "Chtimes", "Getwd", "Chdir", "TempDir", "CreateTemp", "MkdirTemp", "SameFile", "Getuid", "Geteuid", "Getgid", "Getegid",
		"ReadFile", "WriteFile", "Exit"),
	"io/ioutil":     {"ReadFile": "ReadFile", "WriteFile": "WriteFile", "ReadDir": "ReadDirInfo", "TempFile": "CreateTemp", "TempDir": "MkdirTemp"},
	"path/filepath": same("Glob", "Walk", "WalkDir", "Abs", "EvalSymlinks"),
	"time":          same("Now", "Since", "Until", "Sleep", "After", "Timer", "NewTimer", "AfterFunc", "Ticker", "NewTicker"),
	"math/rand": {"Uint32": "Uint32", "Int": "RandInt", "Int63": "RandInt63", "Uint64": "RandUint64", "Int31": "RandInt31", "Intn": "RandIntn",
		"Int31n": "RandInt31n", "Int63n": "RandInt63n", "Float64": "RandFloat64", "Float32": "RandFloat32", "Seed": "RandSeed",
		"Shuffle": "RandShuffle", "Perm": "RandPerm"},
	"github.com/valyala/fastrand": same("RNG", "Uint32", "Uint32n"),
	"runtime":                     {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "GC": "GC", "Gosched": "Yield", "NumGoroutine": "NumGoroutine"},
	"runtime/debug":               same("FreeOSMemory", "SetGCPercent"),
	"github.com/pbnjay/memory":    same("TotalMemory", "FreeMemory"),
	"flag":                        {"Parse": "FlagParse"},
	"net/http":                    {"ListenAndServe": "ListenAndServe", "Serve": "HTTPServeOn", "Server": "HTTPServer", "Dir": "HTTPDir"},
	"net":                         {"Listen": "NetListen"},
	"syscall":                     same("Chroot", "Setuid", "Setgid", "Setreuid", "Setregid", "Setresuid", "Setresgid", "Setgroups", "Getuid", "Geteuid", "Getgid", "Getegid", "Chdir"),
	"fmt":                         same("Printf", "Println", "Print"),
	"log": {"Printf": "LogPrintf", "Println": "LogPrintln", "Print": "LogPrint", "Fatalf": "LogFatalf", "Fatal": "LogFatal",
		"Fatalln": "LogFatal"},
}

func same(n ...string) map[string]string {
	m := map[string]string{}
	for _, x := range n {
		m[x] = x
	}
	return m
}

type pkg struct {
	dir, path string
	files     []*ast.File
	names     []string
	src       map[string][]byte
	tp        *types.Package
	info      *types.Info
	busy      bool
}

var (
	fset = token.NewFileSet()
	pkgs = map[string]*pkg{}
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	overlay := map[string]string{}
	ctx := build.Default
	ctx.BuildTags = []string{"race"}
	ctx.CgoEnabled = true
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		if fi.IsDir() {
			b := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "zzverif") {
				return filepath.SkipDir
			}
			if !*withCLI && (rel == "cmd" || rel == "web" || rel == "internal/rest") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if ok, err := ctx.MatchFile(filepath.Dir(p), filepath.Base(p)); err != nil || !ok {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		dir := filepath.Dir(rel)
		ip := modPath
		if dir != "." {
			ip = modPath + "/" + filepath.ToSlash(dir)
		}
		k := pkgs[ip]
		if k == nil {
			k = &pkg{dir: filepath.Dir(p), path: ip, src: map[string][]byte{}}
			pkgs[ip] = k
		}
		k.files = append(k.files, f)
		k.names = append(k.names, p)
		k.src[p] = src
		return nil
	})
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	os.MkdirAll(*out, 0755)
	n := 0
	stats := map[string]int{}
	for _, p := range paths {
		k := pkgs[p]
		check(k)
		for i, f := range k.files {
			txt, changed := rewrite(k, f, k.src[k.names[i]], stats)
			if p == modPath+"/cmd/nightlight" {
				// the command becomes an importable package
				txt = strings.Replace(txt, "package main", "package nlmain", 1)
				txt = strings.Replace(txt, "func main()", "func Main()", 1)
				dst := filepath.Join(*out, fmt.Sprintf("cli_%d.go", i))
				os.WriteFile(dst, []byte(txt), 0644)
				overlay[filepath.Join(*repo, "internal/zzverif/nlmain", filepath.Base(k.names[i]))] = dst
				continue
			}
			if !changed {
				continue
			}
			n++
			dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, filepath.Base(k.names[i])))
			if err := os.WriteFile(dst, []byte(txt), 0644); err != nil {
				die("%v", err)
			}
			overlay[k.names[i]] = dst
		}
	}
	add := func(dir, at string) {
		es, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				overlay[filepath.Join(*repo, "internal/zzverif", at, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
	}
	add(*vsim, "vsim")
	add(*harness, "harness")
	if *goroot != "" {
		p := filepath.Join(*goroot, "src/sync/pool.go")
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		a1, a2 := "func (p *Pool) Put(x any) {\n", "func (p *Pool) Get() any {\n"
		if !strings.Contains(s, a1) || !strings.Contains(s, a2) {
			die("unexpected sync/pool.go")
		}
		// A pool that always misses: pooled scratch buffers of the standard library would
		// otherwise order unrelated goroutines for the race detector, at random.
		s = strings.Replace(s, a1, a1+"\tif race.Enabled {\n\t\treturn\n\t}\n", 1)
		s = strings.Replace(s, a2, a2+"\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n", 1)
		dst := filepath.Join(*out, "pool.go")
		os.WriteFile(dst, []byte(s), 0644)
		overlay[p] = dst
	}
	if *withCLI {
		stub := filepath.Join(*out, "webstub.go")
		os.WriteFile(stub, []byte(webStub), 0644)
		overlay[filepath.Join(*repo, "web/static.go")] = stub
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
	sb, _ := json.Marshal(stats)
	os.WriteFile(filepath.Join(*out, "instr.json"), sb, 0644)
}

const webStub = `package web

import "net/http"

var IndexHTML = []byte("<html></html>")

func JavascriptFS() http.FileSystem { return http.Dir("/nonexistent") }
func BlocklyFS() http.FileSystem    { return http.Dir("/nonexistent") }
func IconsFS() http.FileSystem      { return http.Dir("/nonexistent") }
`

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if k := pkgs[path]; k != nil {
		check(k)
		return k.tp, nil
	}
	base := path[strings.LastIndex(path, "/")+1:]
	p := types.NewPackage(path, base)
	p.MarkComplete()
	return p, nil
}

func check(k *pkg) {
	if k.tp != nil || k.busy {
		return
	}
	k.busy = true
	k.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: imp{}, Error: func(error) {}, FakeImportC: true}
	k.tp, _ = cfg.Check(k.path, fset, k.files, k.info)
}

type edit struct {
	off, del int
	ins      string
	seq      int
}

func rewrite(k *pkg, f *ast.File, src []byte, stats map[string]int) (string, bool) {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	rep := func(a, b token.Pos, s string) { edits = append(edits, edit{off(a), off(b) - off(a), s, len(edits)}) }
	ins := func(a token.Pos, s string) { edits = append(edits, edit{off(a), 0, s, len(edits)}) }
	info := k.info
	pkgOf := func(x ast.Expr) string {
		id, ok := x.(*ast.Ident)
		if !ok {
			return ""
		}
		if pn, ok := info.Uses[id].(*types.PkgName); ok {
			return pn.Imported().Path()
		}
		return ""
	}
	isChan := func(x ast.Expr) bool {
		t := info.TypeOf(x)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Chan)
		return ok
	}
	isMap := func(x ast.Expr) bool {
		t := info.TypeOf(x)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Map)
		return ok
	}
	uses := map[string]int{}  // import path -> remaining uses
	moved := map[string]int{} // import path -> renamed uses
	labelOf := map[ast.Node]string{}
	skipRecv := map[ast.Node]bool{}
	cnt := 0
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	builtin := func(id *ast.Ident) bool {
		_, ok := info.Uses[id].(*types.Builtin)
		return ok
	}

	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			if p := pkgOf(x.X); p != "" {
				if v, ok := ren[p][x.Sel.Name]; ok {
					rep(x.Pos(), x.End(), "vsim."+v)
					moved[p]++
					stats[p+"."+x.Sel.Name]++
					return false
				}
				uses[p]++
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && pkgOf(s.X) == "sync/atomic" && len(x.Args) > 0 {
				ins(x.Args[0].Pos(), "vsim.YP(")
				ins(x.Args[0].End(), ")")
				stats["atomic"]++
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Run" || s.Sel.Name == "RunListener") && strings.HasSuffix(k.path, "/internal/rest") && pkgOf(s.X) == "" && len(x.Args) > 0 {
				// the server's only contact with the network
				rep(x.Pos(), x.Args[0].Pos(), "vsim."+s.Sel.Name+"Engine("+text(s.X)+", ")
				for _, a := range x.Args {
					ast.Inspect(a, walk)
				}
				stats["listen"]++
				return false
			}
			if id, ok := x.Fun.(*ast.Ident); ok && builtin(id) && len(x.Args) >= 1 && isChan(x.Args[0]) {
				switch id.Name {
				case "close":
					rep(id.Pos(), id.End(), "vsim.Close")
					stats["close"]++
				case "len":
					rep(id.Pos(), id.End(), "vsim.Len")
				}
			}
		case *ast.SendStmt:
			ins(x.Pos(), "vsim.Send(")
			rep(x.Arrow, x.Arrow+2, ",")
			ins(x.End(), ")")
			stats["send"]++
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !skipRecv[x] {
				rep(x.OpPos, x.OpPos+2, "vsim.Recv(")
				ins(x.End(), ")")
				stats["recv"]++
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					skipRecv[u] = true
					rep(u.OpPos, u.OpPos+2, "vsim.Recv2(")
					ins(u.End(), ")")
					stats["recv"]++
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					skipRecv[u] = true
					rep(u.OpPos, u.OpPos+2, "vsim.Recv2(")
					ins(u.End(), ")")
				}
			}
		case *ast.RangeStmt:
			if isChan(x.X) {
				cnt++
				v := fmt.Sprintf("vsv%d", cnt)
				// one loop variable for all iterations, as in the language version the module names
				var head string
				switch {
				case x.Key == nil || text(x.Key) == "_":
					head = fmt.Sprintf("for _, %sok := vsim.Recv2(%s); %sok; _, %sok = vsim.Recv2(%s) {", v, text(x.X), v, v, text(x.X))
				case x.Tok == token.DEFINE:
					k := text(x.Key)
					head = fmt.Sprintf("for %s, %sv, %sok := vsim.Recv3(%s); %sok; %sv, %sok = vsim.Recv2(%s) { %s = %sv; ", k, v, v, text(x.X), v, v, v, text(x.X), k, v)
				default:
					head = fmt.Sprintf("for %sv, %sok := vsim.Recv2(%s); %sok; %sv, %sok = vsim.Recv2(%s) { %s = %sv; ", v, v, text(x.X), v, v, v, text(x.X), text(x.Key), v)
				}
				rep(x.Pos(), x.Body.Lbrace+1, head)
				ast.Inspect(x.Body, walk)
				stats["rangechan"]++
				return false
			}
			if isMap(x.X) {
				cnt++
				v := fmt.Sprintf("vsk%d", cnt)
				kn, vn := x.Key != nil && text(x.Key) != "_", x.Value != nil && text(x.Value) != "_"
				var head string
				if x.Tok == token.DEFINE {
					ks, vs := "_", "_"
					if kn {
						ks = text(x.Key)
					}
					if vn {
						vs = text(x.Value)
					}
					head = fmt.Sprintf("for %sm, %s, %s := vsim.MapIter(%s); %sm.Next(); {", v, ks, vs, text(x.X), v)
				} else {
					head = fmt.Sprintf("for %sm, _, _ := vsim.MapIter(%s); %sm.Next(); {", v, text(x.X), v)
				}
				if kn {
					head += fmt.Sprintf(" %s = %sm.K;", text(x.Key), v)
				}
				if vn {
					head += fmt.Sprintf(" %s = %sm.V;", text(x.Value), v)
				}
				rep(x.Pos(), x.Body.Lbrace+1, head)
				ast.Inspect(x.Body, walk)
				stats["rangemap"]++
				return false
			}
		case *ast.GoStmt:
			c := x.Call
			cnt++
			fn := fmt.Sprintf("vsf%d", cnt)
			rep(x.Pos(), c.Fun.Pos(), "{ "+fn+" := ")
			ast.Inspect(c.Fun, walk)
			prev := c.Fun.End()
			var names []string
			for i, a := range c.Args {
				if bl, ok := a.(*ast.BasicLit); ok {
					rep(prev, a.End(), "")
					names = append(names, bl.Value)
				} else if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
					rep(prev, a.End(), "")
					names = append(names, id.Name)
				} else {
					nm := fmt.Sprintf("vsa%d_%d", cnt, i)
					rep(prev, a.Pos(), "; "+nm+" := ")
					ast.Inspect(a, walk)
					names = append(names, nm)
				}
				prev = a.End()
			}
			ell := ""
			if c.Ellipsis.IsValid() {
				ell = "..."
			}
			rep(prev, c.End(), "; vsim.Go(func() { "+fn+"("+strings.Join(names, ", ")+ell+") }) }")
			stats["go"]++
			return false
		case *ast.LabeledStmt:
			if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
				// the label moves to the switch that the select becomes
				labelOf[sel] = x.Label.Name + ": "
				rep(x.Pos(), x.Colon+1, "")
			}
		case *ast.SelectStmt:
			cnt++
			base := fmt.Sprintf("vss%d", cnt)
			pre := "{ "
			var args []string
			hasDef := false
			for i, cl := range x.Body.List {
				cc := cl.(*ast.CommClause)
				nm := fmt.Sprintf("%s_%d", base, i)
				switch cm := cc.Comm.(type) {
				case nil:
					hasDef = true
					rep(cc.Pos(), cc.Colon+1, "default:")
				case *ast.SendStmt:
					pre += fmt.Sprintf("%s := vsim.SelSend(%s, %s); ", nm, text(cm.Chan), text(cm.Value))
					rep(cc.Pos(), cc.Colon+1, fmt.Sprintf("case %d:", len(args)))
					args = append(args, nm)
				case *ast.ExprStmt:
					u := unparen(cm.X).(*ast.UnaryExpr)
					pre += fmt.Sprintf("%s := vsim.SelRecv(%s); ", nm, text(u.X))
					rep(cc.Pos(), cc.Colon+1, fmt.Sprintf("case %d:", len(args)))
					args = append(args, nm)
				case *ast.AssignStmt:
					u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
					pre += fmt.Sprintf("%s := vsim.SelRecv(%s); ", nm, text(u.X))
					get := "Get"
					lhs := text(cm.Lhs[0])
					if len(cm.Lhs) == 2 {
						get = "Get2"
						lhs += ", " + text(cm.Lhs[1])
					}
					rep(cc.Pos(), cc.Colon+1, fmt.Sprintf("case %d: %s %s %s.%s();", len(args), lhs, cm.Tok.String(), nm, get))
					args = append(args, nm)
				}
				for _, s := range cc.Body {
					ast.Inspect(s, walk)
				}
			}
			a := ""
			if len(args) > 0 {
				a = ", " + strings.Join(args, ", ")
			}
			rep(x.Pos(), x.Body.Lbrace+1, fmt.Sprintf("%s%sswitch vsim.Select(%v%s) {", pre, labelOf[x], hasDef, a))
			if hasDef {
				ins(x.End(), " }")
			} else {
				// a select ends its function when all its cases do
				sep := ";"
				if len(x.Body.List) == 0 {
					sep = ""
				}
				rep(x.Body.Rbrace, x.Body.Rbrace+1, sep+" default: panic(\"unreachable\") } }")
			}
			stats["select"]++
			return false
		}
		return true
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, walk)
	}
	if len(edits) == 0 {
		return string(src), false
	}
	// imports whose every use was renamed become blank
	for _, is := range f.Imports {
		p := strings.Trim(is.Path.Value, `"`)
		if moved[p] > 0 && uses[p] == 0 && (is.Name == nil || is.Name.Name != "_") {
			if is.Name != nil {
				rep(is.Name.Pos(), is.Name.End(), "_")
			} else {
				ins(is.Path.Pos(), "_ ")
			}
		}
	}
	ins(f.Name.End(), "; import vsim \""+vsimPath+"\"")
	// order: by offset; at equal offsets closers (")") come before openers
	sort.SliceStable(edits, func(i, j int) bool {
		a, b := edits[i], edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		ca, cb := a.del == 0 && strings.HasPrefix(a.ins, ")"), b.del == 0 && strings.HasPrefix(b.ins, ")")
		if ca != cb {
			return ca
		}
		if (a.del == 0) != (b.del == 0) {
			return a.del == 0
		}
		return a.seq < b.seq
	})
	var sb strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			die("%s: overlapping edits near offset %d (%q)", fset.Position(f.Pos()).Filename, e.off, e.ins)
		}
		sb.Write(src[pos:e.off])
		// keep line numbers: preserve newlines of deleted text
		sb.WriteString(e.ins)
		if nl := strings.Count(string(src[e.off:e.off+e.del]), "\n"); nl > 0 && !strings.Contains(e.ins, "\n") {
			sb.WriteString(strings.Repeat("\n", nl))
		}
		pos = e.off + e.del
	}
	sb.Write(src[pos:])
	sb.WriteString("\nvar _ = vsim.Active\n")
	return sb.String(), true
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
