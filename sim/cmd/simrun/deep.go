package main

import (
	"bytes"
	"errors"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	ppjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"

	"verif.local/sim/obs"
	"verif.local/sim/scen"
)

// deep is consume for sources that are nested deeply, and for long ones. Consumers see the tree as a
// whole only, since the sum of the sizes of all subtrees is quadratic.
func deep(it *scen.Item, w *obs.W) (class string, steps int64) {
	src := string(it.Src)
	n := len(src)
	budget := 20000 + 2000*int64(n) + int64(n)*int64(n)
	var x parser.Expression
	var err error
	opts := options(it.Opts)
	steps = guard("Parse", budget, func() {
		x, err = parser.CreateParser(opts...).Parse(it.File, src, it.One)
	})
	if err != nil {
		if x != nil {
			fail("both", "Parse returns both a tree and the error %s", err.Error())
		}
		guard("rendering the error", budget, func() {
			if r, ok := err.(issue.Reported); ok {
				class = string(r.Code())
				if r.Location() == nil {
					fail("position", "the error has no location: %s", err.Error())
				}
				checkIssue(r, it.File, it.Src)
			} else {
				class = "invalid text"
				var o interface{ Offset() int }
				if errors.As(err, &o) && (o.Offset() < 0 || o.Offset() > n) {
					fail("position", "error at offset %d of %d: %s", o.Offset(), n, err.Error())
				}
			}
		})
		return
	}
	class = "accepted"
	if x == nil {
		fail("neither", "Parse returns neither a tree nor an error")
	}
	if !utf8.ValidString(src) || strings.IndexByte(src, 0) >= 0 {
		fail("invalid", "a source that is not valid text is accepted")
	}
	guard("traversal", budget, func() {
		checkNode(x, n)
		x.AllContents(nil, func(_ []parser.Expression, c parser.Expression) {
			checkNode(c, n)
			if c.Line() < 1 || c.Pos() < 1 {
				fail("position", "%s is at %d:%d", c.Label(), c.Line(), c.Pos())
			}
		})
	})
	guard("ToPN", budget, func() { w.S(x.ToPN().String()) })
	data := x.ToPN().ToData()
	if depth(data) < 9999 {
		guard("ToJson", budget, func() { toJson(data) })
	} else if fl := attempt(func() { guard("ToJson", budget, func() { toJson(data) }) }); fl != nil {
		// encoding/json has a limit
		if !strings.Contains(fl.text, "exceeded max depth") {
			panic(*fl)
		}
		class = "too deep for JSON"
	}
	guard("literal extraction", budget, func() { literal.ToLiteral(x) })
	for _, kind := range []string{"puppet", "tasks", "workflow"} {
		guard("validation", budget, func() {
			v := newValidator(kind, int(validator.StrictError))
			validator.Validate(v, x)
			is := v.Issues()
			for i, r := range is {
				if i < 20 {
					checkIssue(r, it.File, it.Src)
				}
			}
		})
	}
	return
}

func toJson(data interface{}) {
	b := &bytes.Buffer{}
	ppjson.ToJson(data, b)
	if b.Len() == 0 {
		fail("json", "no JSON output")
	}
}

// depth of nested lists and maps
func depth(x interface{}) int {
	n := 0
	switch x := x.(type) {
	case []interface{}:
		for _, y := range x {
			if d := depth(y); d >= n {
				n = d + 1
			}
		}
		if n == 0 {
			n = 1
		}
	case map[string]interface{}:
		for _, y := range x {
			if d := depth(y); d >= n {
				n = d + 1
			}
		}
		if n == 0 {
			n = 1
		}
	}
	return n
}
