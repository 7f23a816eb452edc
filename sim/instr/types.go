package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// chanRanges returns the positions ("file:offset") of the loops that receive from a channel. Types are needed
// to tell, but only when the code has channels at all
func chanRanges(root string, files []string) map[string]bool {
	r := make(map[string]bool)
	fset := token.NewFileSet()
	chans, loops := false, false
	dirs := make(map[string][]*ast.File)
	for _, path := range files {
		f, err := parser.ParseFile(fset, path, nil, 0)
		if err != nil {
			return r
		}
		dirs[filepath.Dir(path)] = append(dirs[filepath.Dir(path)], f)
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ChanType:
				chans = true
			case *ast.RangeStmt:
				loops = loops || n.Value == nil
			}
			return true
		})
	}
	if !chans || !loops {
		return r
	}
	c := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export", "./...")
	c.Dir = root
	c.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	out, err := c.Output()
	if err != nil {
		return r
	}
	exports := make(map[string]string)
	for d := json.NewDecoder(bytes.NewReader(out)); ; {
		var p struct{ ImportPath, Export string }
		if d.Decode(&p) != nil {
			break
		}
		exports[p.ImportPath] = p.Export
	}
	im := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	for _, fs := range dirs {
		by := make(map[string][]*ast.File)
		for _, f := range fs {
			by[f.Name.Name] = append(by[f.Name.Name], f)
		}
		for name, fs := range by {
			info := &types.Info{Types: make(map[ast.Expr]types.TypeAndValue)}
			conf := types.Config{Importer: im, Error: func(error) {}}
			conf.Check(name, fset, fs, info)
			for _, f := range fs {
				ast.Inspect(f, func(n ast.Node) bool {
					if n, ok := n.(*ast.RangeStmt); ok {
						if t := info.TypeOf(n.X); t != nil {
							if _, ok := t.Underlying().(*types.Chan); ok {
								p := fset.Position(n.Pos())
								r[fmt.Sprintf("%s:%d", p.Filename, p.Offset)] = true
							}
						}
					}
					return true
				})
			}
		}
	}
	return r
}

func isSource(n string) bool { return strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") }
