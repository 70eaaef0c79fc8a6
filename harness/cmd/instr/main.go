// Command instr writes a go build overlay for the sources of the library under test and of its Kafka client:
// sync.Mutex/RWMutex become vsync ones, and (library only) perturbation points are inserted before synchronisation
// operations. It works on syntax alone, so it follows whatever the current sources look like.
//
//	instr -out DIR -vsync vsync.go.txt -repo /repo/streams -client MODULEDIR
//
// DIR receives overlay.json for the library and DIR/franz-go, a copy of the client module with its mutexes replaced
// (the go command refuses overlays inside the module cache).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// vsync lives in the instrumented copy of the client module, so that both can import it.
const vsyncImport = "github.com/twmb/franz-go/pkg/vsync"

type edit struct {
	off  int
	del  int
	text string
}

var site uint32

func main() {
	out := flag.String("out", "", "")
	vs := flag.String("vsync", "", "")
	repo := flag.String("repo", "", "")
	client := flag.String("client", "", "module directory of the Kafka client")
	flag.Parse()
	overlay := map[string]string{}
	must(os.RemoveAll(*out))
	must(os.MkdirAll(*out, 0o755))
	src, err := os.ReadFile(*vs)
	must(err)
	n := 0
	for _, d := range []string{"", "sak", "stores"} {
		n += doDir(filepath.Join(*repo, d), *out, overlay)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	c := copyClient(*client, filepath.Join(*out, "franz-go"))
	vdir := filepath.Join(*out, "franz-go", "pkg", "vsync")
	must(os.MkdirAll(vdir, 0o755))
	must(os.WriteFile(filepath.Join(vdir, "vsync.go"), src, 0o644))
	fmt.Printf("files=%d client=%d sites=%d\n", n, c, site)
}

func copyClient(from, to string) (n int) {
	must(filepath.WalkDir(from, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			switch rel {
			case "examples", "generate", "docs", ".github", "plugin", "pkg/kadm", "pkg/kmsg", "pkg/sr", "pkg/kfake":
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || strings.HasPrefix(d.Name(), "go.")) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if strings.HasPrefix(rel, "pkg/kgo/") && strings.HasSuffix(p, ".go") {
			if d.Name() == "source.go" {
				b = lostWakeup(b)
			}
			if res, ok := rewrite(p, b, false); ok {
				b = res
				n++
			}
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	}))
	return
}

// lostWakeup corrects a race of franz-go v1.8.0 in the copy: if the consumer session is replaced while a fetch loop is
// about to begin, the request of the new session to fetch is dropped when the loop finds that its session is gone, and
// the source is never fetched from again. The race is not the library's, and the monitors would report it as a stall.
func lostWakeup(b []byte) []byte {
	for _, old := range []string{
		"	if session == noConsumerSession {\n		s.fetchState.hardFinish()\n",
		"	select {\n	case <-session.ctx.Done():\n		s.fetchState.hardFinish()\n		return\n	default:\n",
	} {
		if !strings.Contains(string(b), old) {
			return b // another version of the client
		}
		b = []byte(strings.Replace(string(b), old, strings.Replace(old, "s.fetchState.hardFinish()\n",
			"s.fetchState.hardFinish()\n if consumer.loadSession() != session { s.maybeConsume() }\n", 1), 1))
	}
	return b
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func doDir(dir, out string, overlay map[string]string) int {
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	must(err)
	sort.Strings(fs)
	n := 0
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		must(err)
		res, changed := rewrite(f, src, true)
		if !changed {
			continue
		}
		dst := filepath.Join(out, fmt.Sprintf("%03d_%s", len(overlay), filepath.Base(f)))
		must(os.WriteFile(dst, res, 0o644))
		overlay[f] = dst
		n++
	}
	return n
}

func rewrite(name string, src []byte, yields bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	syncName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	usesOther := false
	usedV := false
	if syncName != "" {
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == syncName && id.Obj == nil {
					if s.Sel.Name == "Mutex" || s.Sel.Name == "RWMutex" || s.Sel.Name == "Once" {
						edits = append(edits, edit{off(id.Pos()), len(id.Name), "vsync"})
						usedV = true
					} else {
						usesOther = true
					}
				}
			}
			return true
		})
	}
	if yields {
		y := func(p token.Pos) {
			site++
			edits = append(edits, edit{off(p), 0, fmt.Sprintf("vsync.Y(%d); ", site)})
			usedV = true
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				if hasOp(s) {
					y(s.Pos())
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				if len(x.Body) > 0 && !hasOp(x.Body[0]) {
					y(x.Body[0].Pos())
				}
				stmts(x.Body)
			case *ast.FuncDecl:
				if x.Recv != nil && x.Body != nil && len(x.Body.List) > 0 && !hasOp(x.Body.List[0]) && heavy(x.Body) {
					y(x.Body.List[0].Pos())
				}
			case *ast.GoStmt:
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(fl.Body.List) > 0 && !hasOp(fl.Body.List[0]) {
					y(fl.Body.List[0].Pos())
				}
			}
			return true
		})
	}
	if len(edits) == 0 {
		return nil, false
	}
	if usedV {
		// after the package clause
		edits = append(edits, edit{off(f.Name.End()), 0, "; import vsync \"" + vsyncImport + "\""})
		if syncName != "" && !usesOther {
			// keep the original import used
			edits = append(edits, edit{len(src), 0, "\nvar _ " + syncName + ".Locker\n"})
		}
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.off])
		b.WriteString(e.text)
		last = e.off + e.del
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}

var syncCalls = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "Add": true, "Done": true, "Wait": true,
	"Halt": true, "Do": true, "Signal": true, "Broadcast": true, "Store": true, "Load": true, "Swap": true, "CompareAndSwap": true, "Stop": true, "Reset": true}

// hasOp reports whether s itself (not nested blocks or function literals) performs a synchronisation operation.
func hasOp(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.DeferStmt, *ast.BlockStmt, *ast.DeclStmt:
		return false
	case *ast.SelectStmt, *ast.GoStmt:
		return true
	case *ast.LabeledStmt:
		return hasOp(s.(*ast.LabeledStmt).Stmt)
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			switch fn := x.Fun.(type) {
			case *ast.SelectorExpr:
				if syncCalls[fn.Sel.Name] {
					found = true
				}
				if id, ok := fn.X.(*ast.Ident); ok && id.Name == "atomic" {
					found = true
				}
			case *ast.Ident:
				if fn.Name == "close" {
					found = true
				}
			}
		}
		return true
	})
	return found
}

// heavy reports whether a function body contains any synchronisation operation or statement block worth a point at entry.
func heavy(b *ast.BlockStmt) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		if s, ok := n.(ast.Stmt); ok && s != ast.Stmt(b) {
			if _, isBlock := s.(*ast.BlockStmt); !isBlock && hasOp(s) {
				found = true
			}
			if _, isDefer := s.(*ast.DeferStmt); isDefer {
				found = true
			}
		}
		return !found
	})
	return found
}
