// Package instr instruments the code under test so that a simulator controls it. The instrumented
// sources never replace the originals: they are given to the compiler with -overlay. Insertions are
// textual and stay on the line of the statement, so that line numbers are those of the original.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Site describes a scheduling point
type Site struct {
	File string
	Line int
	Func string
}

// GoStmts is the number of go statements in the code that was instrumented last
var GoStmts int

type edit struct {
	off  int // replace src[off:end] by text
	end  int
	text string
	seq  int
}

// Repo instruments all library packages found below root and writes the result in out. It returns
// the overlay and the sites
func Repo(root, out string) (map[string]string, []Site, error) {
	overlay := make(map[string]string)
	GoStmts = 0
	var sites []Site
	var dirs []string
	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			n := info.Name()
			if path != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, path)
		}
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	sort.Strings(dirs)
	var files []string
	for _, dir := range dirs {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return nil, nil, err
		}
		for _, ent := range ents {
			n := ent.Name()
			if ent.IsDir() || !isSource(n) {
				continue
			}
			if ok, err := build.Default.MatchFile(dir, n); err != nil || !ok {
				continue
			}
			files = append(files, filepath.Join(dir, n))
		}
	}
	ranges := chanRanges(root, files)
	for _, path := range files {
		src, err := os.ReadFile(path)
		if err != nil {
			return nil, nil, err
		}
		res, ok, err := file(path, src, &sites, ranges)
		if err != nil {
			return nil, nil, err
		}
		if !ok {
			continue
		}
		rel, _ := filepath.Rel(root, path)
		to := filepath.Join(out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err = os.WriteFile(to, res, 0644); err != nil {
			return nil, nil, err
		}
		overlay[path] = to
	}
	return overlay, sites, nil
}

func file(path string, src []byte, sites *[]Site, ranges map[string]bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	if f.Name.Name == "main" {
		return nil, false, nil
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(o int, t string) { edits = append(edits, edit{o, o, t, len(edits)}) }
	fn := ""
	point := func(p token.Pos) string {
		*sites = append(*sites, Site{path, fset.Position(p).Line, fn})
		return fmt.Sprintf("vY.P(%d); ", len(*sites)-1)
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			t := point(s.Pos())
			if blocks(s) {
				t += "vY.Block(); "
			}
			ins(off(s.Pos()), t)
		}
	}
	used := false
	generic := false
	for _, d := range f.Decls {
		fn = ""
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
		}
		skip := make(map[*ast.BlockStmt]bool)
		two := make(map[ast.Expr]bool)
		var quoted [][2]token.Pos // arguments that have been copied
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if !skip[n] {
					stmts(n.List)
				}
				used = true
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.AssignStmt:
				if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
					two[unparen(n.Rhs[0])] = true
				}
			case *ast.ValueSpec:
				if len(n.Names) == 2 && len(n.Values) == 1 {
					two[unparen(n.Values[0])] = true
				}
			case *ast.SendStmt:
				if !inside(quoted, n.Pos()) {
					ins(off(n.Pos()), "vY.Sender(")
					edits = append(edits, edit{off(n.Arrow), off(n.Arrow) + 2, ")(", len(edits)})
					ins(off(n.End()), ")")
					used, generic = true, true
				}
			case *ast.UnaryExpr:
				if n.Op == token.ARROW && !inside(quoted, n.Pos()) {
					t := "vY.Recv("
					if two[n] {
						t = "vY.Recv2("
					}
					edits = append(edits, edit{off(n.OpPos), off(n.OpPos) + 2, t, len(edits)})
					ins(off(n.End()), ")")
					used, generic = true, true
				}
			case *ast.SwitchStmt:
				skip[n.Body] = true
			case *ast.TypeSwitchStmt:
				skip[n.Body] = true
			case *ast.SelectStmt:
				skip[n.Body] = true
				if n.Body == nil || len(n.Body.List) == 0 {
					return false
				}
				// Becomes a switch over the index of the operation that is performed
				text := func(a ast.Node) string { return string(src[off(a.Pos()):off(a.End())]) }
				var vars, vals []string
				def := false
				last := -1
				for i, c := range n.Body.List {
					if c.(*ast.CommClause).Comm == nil {
						def = true
					} else {
						last = i
					}
				}
				for i, c := range n.Body.List {
					cc := c.(*ast.CommClause)
					if cc.Comm != nil {
						v := "vS" + strconv.Itoa(len(vars))
						get := ""
						switch m := cc.Comm.(type) {
						case *ast.SendStmt:
							vals = append(vals, "vY.CaseSend("+text(m.Chan)+")("+text(m.Value)+")")
						case *ast.ExprStmt:
							vals = append(vals, "vY.CaseRecv("+text(unparen(m.X).(*ast.UnaryExpr).X)+")")
						case *ast.AssignStmt:
							vals = append(vals, "vY.CaseRecv("+text(unparen(m.Rhs[0]).(*ast.UnaryExpr).X)+")")
							get = " " + text(m.Lhs[0])
							if len(m.Lhs) == 2 {
								get += ", " + text(m.Lhs[1]) + " " + m.Tok.String() + " " + v + ".V, " + v + ".OK;"
							} else {
								get += " " + m.Tok.String() + " " + v + ".V;"
							}
						}
						label := "case " + strconv.Itoa(len(vars)) + ":"
						if !def && i == last {
							label = "default:"
						}
						edits = append(edits, edit{off(cc.Case), off(cc.Colon) + 1, label + get, len(edits)})
						vars = append(vars, v)
					}
					stmts(cc.Body)
					for _, b := range cc.Body {
						ast.Inspect(b, visit)
					}
				}
				init := ""
				if len(vars) > 0 {
					init = strings.Join(vars, ", ") + " := " + strings.Join(vals, ", ") + "; "
				}
				call := "vY.Select(" + strings.Join(append([]string{strconv.FormatBool(def)}, vars...), ", ") + ")"
				edits = append(edits, edit{off(n.Select), off(n.Body.Lbrace) + 1, "switch " + init + call + " {", len(edits)})
				used, generic = true, true
				return false
			case *ast.ForStmt:
				ins(off(n.Body.Lbrace)+1, " "+point(n.Body.Lbrace))
			case *ast.RangeStmt:
				if ranges[fmt.Sprintf("%s:%d", path, off(n.Pos()))] {
					recv := "_, vOk :="
					if n.Key != nil {
						recv = string(src[off(n.Key.Pos()):off(n.Key.End())]) + ", vOk :="
						if n.Tok == token.ASSIGN {
							recv = "var vOk bool; " + strings.TrimSuffix(recv, ":=") + "="
						}
					}
					edits = append(edits, edit{off(n.Pos()), off(n.X.Pos()), "for vC := ", len(edits)})
					edits = append(edits, edit{off(n.X.End()), off(n.Body.Lbrace) + 1, "; ; { " + recv +
						" vY.Recv2(vC); if !vOk { break }; {", len(edits)})
					ins(off(n.Body.Rbrace), "}")
					generic = true
				}
				ins(off(n.Body.Lbrace)+1, " "+point(n.Body.Lbrace))
			case *ast.GoStmt:
				GoStmts++
				// The function value and the arguments are evaluated by the go statement
				call := n.Call
				var pre, args []string
				pre = append(pre, "vF := "+string(src[off(call.Fun.Pos()):off(call.Fun.End())]))
				for i, a := range call.Args {
					v := "vA" + strconv.Itoa(i)
					pre = append(pre, v+" := "+string(src[off(a.Pos()):off(a.End())]))
					if i == len(call.Args)-1 && call.Ellipsis.IsValid() {
						v += "..."
					}
					args = append(args, v)
				}
				if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
					edits = append(edits, edit{off(n.Go), off(fl.Pos()), "vY.Go(", len(edits)})
					edits = append(edits, edit{off(fl.End()), off(n.End()), ")", len(edits)})
				} else if ok {
					quoted = append(quoted, [2]token.Pos{call.Lparen, n.End()})
					// func literal with arguments: keep the literal's text so that its body is instrumented
					edits = append(edits, edit{off(n.Go), off(fl.Pos()), "{ vF := ", len(edits)})
					edits = append(edits, edit{off(fl.End()), off(n.End()), "; " + strings.Join(pre[1:], "; ") +
						"; vY.Go(func() { vF(" + strings.Join(args, ", ") + ") }) }", len(edits)})
				} else {
					edits = append(edits, edit{off(n.Go), off(n.End()), "{ " + strings.Join(pre, "; ") +
						"; vY.Go(func() { vF(" + strings.Join(args, ", ") + ") }) }", len(edits)})
					return false
				}
			}
			return true
		}
		ast.Inspect(d, visit)
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := ""
			if im.Name == nil {
				name = "sync "
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), name + `"verif.local/sim/simsync"`, len(edits)})
		}
	}
	if used {
		ins(off(f.Name.End()), `; import vY "verif.local/sim/yield"`)
		edits = append(edits, edit{len(src), len(src), "\nvar _ = vY.P\n", len(edits)})
	} else if len(edits) == 0 {
		return nil, false, nil
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	at := 0
	for _, e := range edits {
		if e.off < at {
			return nil, false, fmt.Errorf("%s: overlapping edits", path)
		}
		b.Write(src[at:e.off])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	res := b.String()
	if generic {
		// The language version of the module may be too old for what has been inserted
		if i := strings.Index(res, "//go:build "); i >= 0 && i < off(f.Package) {
			j := i + strings.IndexByte(res[i:], '\n')
			i += len("//go:build ")
			res = res[:i] + "(" + strings.TrimSpace(res[i:j]) + ") && go1.18" + res[j:]
		} else {
			res = "//go:build go1.18\n\n//line " + path + ":1\n" + res
		}
	}
	return []byte(res), true, nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func inside(l [][2]token.Pos, p token.Pos) bool {
	for _, r := range l {
		if p >= r[0] && p < r[1] {
			return true
		}
	}
	return false
}

// blocks tells if the statement itself (not statements nested in it) may wait in a select
func blocks(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		if found {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			return n == nil
		case *ast.FuncLit, *ast.GoStmt:
			return false
		case *ast.SelectStmt:
			if len(n.Body.List) == 0 {
				found = true
			}
			return false
		}
		return true
	})
	return found
}

// WriteOverlay writes the overlay file
func WriteOverlay(file string, overlay map[string]string) error {
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0644)
}
