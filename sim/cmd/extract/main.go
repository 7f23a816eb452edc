// Command extract collects the Puppet sources in the tests of the repository and writes them as the
// corpus that the workload generators start from. The result is committed as gen/corpus.json.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/lyraproj/issue/issue"
)

type entry struct {
	Src string `json:"s"`
	Epp bool   `json:"e,omitempty"`
	Wf  bool   `json:"w,omitempty"`
	Tsk bool   `json:"t,omitempty"`
	One bool   `json:"o,omitempty"`
}

func main() {
	var r []entry
	seen := map[string]bool{}
	for _, f := range []string{"parser/parser_test.go", "parser/json_test.go", "validator/checker_test.go", "validator/tasks_checker_test.go", "validator/workflow_checker_test.go"} {
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, filepath.Join(os.Args[1], f), nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.HasPrefix(fd.Name.Name, "Test") {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				id, ok := c.Fun.(*ast.Ident)
				if !ok || !strings.HasPrefix(id.Name, "expect") || len(c.Args) < 2 {
					return true
				}
				var s string
				switch x := c.Args[1].(type) {
				case *ast.BasicLit:
					s, _ = strconv.Unquote(x.Value)
				case *ast.CallExpr:
					if len(x.Args) == 1 {
						if b, ok := x.Args[0].(*ast.BasicLit); ok {
							s, _ = strconv.Unquote(b.Value)
							s = issue.Unindent(s)
						}
					}
				}
				e := entry{Src: s}
				for _, a := range c.Args {
					if i, ok := a.(*ast.Ident); ok {
						switch i.Name {
						case "EppMode":
							e.Epp = true
						case "WorkflowEnabled":
							e.Wf = true
						case "TasksEnabled":
							e.Tsk = true
						}
					}
				}
				n1 := id.Name
				e.Epp = e.Epp || strings.Contains(n1, "EPP") || strings.Contains(n1, "Epp")
				e.Wf = e.Wf || strings.Contains(n1, "Workflow") || strings.Contains(f, "workflow")
				e.Tsk = e.Tsk || strings.Contains(n1, "Task") || strings.Contains(f, "tasks") || strings.Contains(s, "plan ")
				e.One = strings.Contains(n1, "Expr") || n1 == "expectDump" || n1 == "expectDumpX"
				k, _ := json.Marshal(e)
				if s != "" && !seen[string(k)] {
					seen[string(k)] = true
					r = append(r, e)
				}
				return true
			})
		}
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.Stdout.Write(append(b, '\n'))
}
