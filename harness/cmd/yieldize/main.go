// Command yieldize writes copies of a package's sources with a yield point
// before every statement, and an overlay file for go build that puts them in
// the place of the originals.
//
//	yieldize OUTDIR OVERLAY.json PKGDIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	out, overlay := os.Args[1], os.Args[2]
	repl := map[string]string{}
	for _, dir := range os.Args[3:] {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		die(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			die(err)
			b, changed, err := rewrite(f, src)
			die(err)
			if !changed {
				continue
			}
			dst := filepath.Join(out, filepath.Base(dir)+"_"+filepath.Base(f))
			die(os.WriteFile(dst, b, 0o644))
			repl[f] = dst
		}
	}
	b, err := json.Marshal(map[string]any{"Replace": repl})
	die(err)
	die(os.WriteFile(overlay, b, 0o644))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// rewrite inserts text at statement starts, so that everything else, comments
// and directives included, stays byte for byte.
func rewrite(name string, src []byte) ([]byte, bool, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	at := map[int]bool{}
	mark := func(list []ast.Stmt) {
		for _, s := range list {
			if l, ok := s.(*ast.LabeledStmt); ok {
				at[fset.Position(l.Pos()).Offset] = true
				continue
			}
			at[fset.Position(s.Pos()).Offset] = true
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			// the clauses of a switch are no statements of their own
			if len(b.List) > 0 {
				switch b.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			mark(b.List)
		case *ast.CaseClause:
			mark(b.Body)
		case *ast.CommClause:
			mark(b.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, false, nil
	}
	imp := fset.Position(file.Name.End()).Offset
	var out []byte
	for i := range src {
		if i == imp {
			out = append(out, "; import verifyield \"verif/yield\""...)
		}
		if at[i] {
			out = append(out, "verifyield.Point(); "...)
		}
		out = append(out, src[i])
	}
	if _, err := format.Source(out); err != nil {
		return nil, false, err
	}
	return out, true, nil
}
