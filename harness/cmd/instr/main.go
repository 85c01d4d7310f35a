// Command instr weaves monitor calls into packages of the module under test.
//
// For every statement of every non-test source file of the given package
// directories it inserts a call zzvyield.P(site) in front of the statement
// (textually, on the same line, so that line numbers stay what they are) and
// writes the result, together with the zzvyield package itself, as an overlay
// for 'go build -overlay'. The sources under -repo are only read.
//
// What a call to P does is decided by the harness at run time: count executed
// statements, bound them, perturb the schedule, or hand control to a
// controlled scheduler.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const imp = "github.com/unsafe-risk/utilx/zzvyield"

func main() {
	repo := flag.String("repo", "/repo", "module under test")
	out := flag.String("out", "", "output directory")
	clock := flag.String("clock", "", "directory of the standard time package: make its wall clock adjustable (time.ZZShift)")
	flag.Parse()
	replace := map[string]string{}
	var names []string
	for _, dir := range flag.Args() {
		files, err := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		if err != nil {
			fatal(err)
		}
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fatal(err)
			}
			rel, _ := filepath.Rel(*repo, f)
			res, ok := rewrite(rel, src, &names)
			if !ok {
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal(err)
			}
			replace[f] = dst
		}
	}
	if *clock != "" {
		f := filepath.Join(*clock, "time.go")
		src, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		const call = "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n"
		if !strings.Contains(string(src), call) {
			fatal(fmt.Errorf("%s does not look as expected", f))
		}
		res := strings.Replace(string(src), call, "// ZZShift moves the wall clock, and only it, by so many nanoseconds.\nvar ZZShift int64\n\n// ZZFreeze stops Now.\nvar ZZFreeze = func() bool { _, ok := syscall.Getenv(\"ZZFREEZE\"); return ok }()\n\n"+call+
			"\tif ZZFreeze {\n\t\tsec, nsec, mono = 1700000000, 0, 1\n\t}\n"+
			"\tif ZZShift != 0 {\n\t\tw := sec*1e9 + int64(nsec) + ZZShift\n\t\tsec, nsec = w/1e9, int32(w%1e9)\n\t}\n", 1)
		if !strings.Contains(res, "\n\t\"syscall\"\n") {
			res = strings.Replace(res, "import (\n", "import (\n\t\"syscall\"\n", 1)
		}
		dst := filepath.Join(*out, "time__time.go")
		if err := os.WriteFile(dst, []byte(res), 0o644); err != nil {
			fatal(err)
		}
		replace[f] = dst
		// The general-purpose generators become deterministic when the clock
		// can be stopped: what is left to vary is cryptographic randomness.
		for _, v := range []string{"rand.go", "v2/rand.go"} {
			f := filepath.Join(filepath.Dir(*clock), "math", "rand", v)
			src, err := os.ReadFile(f)
			if err != nil {
				fatal(err)
			}
			const decl = "//go:linkname runtime_rand runtime.rand\nfunc runtime_rand() uint64\n"
			if !strings.Contains(string(src), decl) {
				fatal(fmt.Errorf("%s does not look as expected", f))
			}
			res := strings.Replace(string(src), decl, "//go:linkname zzruntime_rand runtime.rand\nfunc zzruntime_rand() uint64\n\n// ZZFixed makes the generator predictable.\nvar ZZFixed = func() bool { _, ok := syscall.Getenv(\"ZZFREEZE\"); return ok }()\n\nvar zzstate uint64\n\n"+
				"func runtime_rand() uint64 {\n\tif !ZZFixed {\n\t\treturn zzruntime_rand()\n\t}\n\tzzstate += 0x9e3779b97f4a7c15\n\tz := zzstate\n\tz = (z ^ z>>30) * 0xbf58476d1ce4e5b9\n\tz = (z ^ z>>27) * 0x94d049bb133111eb\n\treturn z ^ z>>31\n}\n", 1)
			res = strings.Replace(res, "import (\n", "import (\n\t\"syscall\"\n", 1)
			dst := filepath.Join(*out, "mathrand__"+strings.ReplaceAll(v, "/", "__"))
			if err := os.WriteFile(dst, []byte(res), 0o644); err != nil {
				fatal(err)
			}
			replace[f] = dst
		}
	}
	dst := filepath.Join(*out, "zzvyield.go")
	if err := os.WriteFile(dst, []byte(support(names)), 0o644); err != nil {
		fatal(err)
	}
	replace[filepath.Join(*repo, "zzvyield", "zzvyield.go")] = dst
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

func rewrite(rel string, src []byte, names *[]string) ([]byte, bool) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr: left alone:", err)
		return nil, false
	}
	type ins struct {
		off  int
		text string
	}
	var all []ins
	pkg := file.Name.Name
	if strings.HasPrefix(rel, "zzvyield") {
		return nil, false
	}
	add := func(pos token.Pos) {
		p := fset.Position(pos)
		id := len(*names)
		*names = append(*names, fmt.Sprintf("%s:%d", rel, p.Line))
		all = append(all, ins{fset.PositionFor(pos, false).Offset, fmt.Sprintf("zzvyield.P(%d); ", id)})
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos())
		}
	}
	clauses := map[*ast.BlockStmt]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			clauses[n.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[n.Body] = true
		case *ast.SelectStmt:
			clauses[n.Body] = true
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				add(n.Body.Lbrace + 1)
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				add(n.Body.Lbrace + 1)
			}
		case *ast.BlockStmt:
			if !clauses[n] {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(all) == 0 {
		return nil, false
	}
	_ = pkg
	all = append(all, ins{fset.PositionFor(file.Name.End(), false).Offset, "; import zzvyield \"" + imp + "\""})
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	var b strings.Builder
	last := 0
	for _, x := range all {
		b.Write(src[last:x.off])
		b.WriteString(x.text)
		last = x.off
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}

func support(names []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "// Package zzvyield is generated by the verification harness.\npackage zzvyield\n\n")
	fmt.Fprintf(&b, "// N is the number of instrumented statements.\nconst N = %d\n\n", len(names))
	b.WriteString(`// Hook, when set before the workload starts, is called at every statement.
var Hook func(site uint32)

// Hit records the sites that were executed.
var Hit [N + 1]bool

//go:norace
func P(site uint32) {
	Hit[site] = true
	if h := Hook; h != nil {
		h(site)
	}
}

`)
	b.WriteString("var Names = [...]string{\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t%q,\n", n)
	}
	b.WriteString("\t\"\",\n}\n")
	return b.String()
}
