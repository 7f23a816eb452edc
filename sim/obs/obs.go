// Package obs observes results of the code under test through its public API only. It uses neither
// reflection nor formatted printing, because the caches and pools of these would synchronise
// concurrent observers.
package obs

import (
	"math"
	"sort"
	"strconv"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
)

// W collects an observation
type W struct {
	B     []byte
	NoLen bool // leave out the lengths of nodes
}

func (w *W) S(s string) *W { w.B = append(w.B, s...); return w }
func (w *W) I(n int) *W    { w.B = strconv.AppendInt(w.B, int64(n), 10); return w }
func (w *W) Q(s string) *W { w.B = strconv.AppendQuote(w.B, s); return w }

// Digest returns a digest of the bytes (two independent 64 bit FNV-like hashes)
func Digest(b []byte) string {
	h1, h2 := uint64(14695981039346656037), uint64(0x9ae16a3b2f90404f)
	for _, c := range b {
		h1 = (h1 ^ uint64(c)) * 1099511628211
		h2 = (h2 + uint64(c) + 1) * 0xc6a4a7935bd1e995
		h2 ^= h2 >> 29
	}
	return strconv.FormatUint(h1, 16) + "." + strconv.FormatUint(h2, 16) + "." + strconv.Itoa(len(b))
}

// Value writes a data value
func (w *W) Value(v interface{}) {
	switch v := v.(type) {
	case nil:
		w.S("nil")
	case string:
		w.Q(v)
	case bool:
		if v {
			w.S("true")
		} else {
			w.S("false")
		}
	case int:
		w.S("int ").I(v)
	case int64:
		w.S("int64 ")
		w.B = strconv.AppendInt(w.B, v, 10)
	case float64:
		w.S("float ")
		w.B = strconv.AppendUint(w.B, math.Float64bits(v), 16)
	case issue.Code:
		w.S("code ").S(string(v))
	case parser.Default, *parser.Default:
		w.S("default")
	case []interface{}:
		w.S("[")
		for i, e := range v {
			if i > 0 {
				w.S(",")
			}
			w.Value(e)
		}
		w.S("]")
	case map[string]interface{}:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		w.S("{")
		for i, k := range ks {
			if i > 0 {
				w.S(",")
			}
			w.Q(k)
			w.S(":")
			w.Value(v[k])
		}
		w.S("}")
	case map[interface{}]interface{}:
		es := make([]string, 0, len(v))
		for k, e := range v {
			x := &W{}
			x.Value(k)
			x.S(":")
			x.Value(e)
			es = append(es, string(x.B))
		}
		sort.Strings(es)
		w.S("{")
		for i, e := range es {
			if i > 0 {
				w.S(",")
			}
			w.S(e)
		}
		w.S("}")
	case parser.Expression:
		w.Ref(v)
	case error:
		w.S("error ").Q(v.Error())
	default:
		w.S("unknown value")
	}
}

// Ref writes a reference to a node
func (w *W) Ref(e parser.Expression) {
	if e == nil {
		w.S("nil")
		return
	}
	w.S(e.Label())
	if w.NoLen && e.IsNop() {
		// Stands for something that is not there
		return
	}
	w.S("@").I(e.ByteOffset())
	if !w.NoLen {
		w.S("+").I(e.ByteLength())
	}
}

func (w *W) refs(es []parser.Expression) {
	if es == nil {
		w.S("none")
		return
	}
	w.S("(")
	for i, e := range es {
		if i > 0 {
			w.S(" ")
		}
		w.Ref(e)
	}
	w.S(")")
}

// Accessors writes all that the node tells about itself
// Methods calls what Accessors leaves out
func (w *W) Methods(e parser.Expression) {
	w.Ref(e)
	if x, ok := e.(interface{ ToDefinition() parser.Definition }); ok {
		w.S(" definition ")
		w.Ref(x.ToDefinition())
	}
	if x, ok := e.(interface{ ToLiteralValue() parser.LiteralValue }); ok {
		w.S(" literal ")
		w.Value(x.ToLiteralValue().Value())
	}
	if x, ok := e.(interface{ ToUnaryExpression() parser.UnaryExpression }); ok {
		w.S(" unary ")
		w.Ref(x.ToUnaryExpression().Expr())
	}
	if x, ok := e.(interface{ ToQueryExpression() parser.QueryExpression }); ok {
		w.S(" query ")
		w.Ref(x.ToQueryExpression().Expr())
	}
	if x, ok := e.(interface {
		ToBooleanExpression() parser.BooleanExpression
	}); ok {
		w.S(" boolean ")
		w.Ref(x.ToBooleanExpression())
	}
	if x, ok := e.(interface{ Future() bool }); ok {
		w.S(" future ")
		w.Value(x.Future())
	}
	if x, ok := e.(interface{ Location() issue.Location }); ok {
		l := x.Location()
		w.S(" at ").S(l.File()).S(":").I(l.Line()).S(":").I(l.Pos())
	}
	if x, ok := e.(*parser.LiteralHash); ok {
		for _, k := range []string{"a", "b", "type", "ensure", "x", "A", "File", "true", ""} {
			w.S(" ").S(k).S("=")
			w.Ref(x.Get(k))
		}
	}
	w.S("\n")
}

func (w *W) Accessors(e parser.Expression) {
	if x, ok := e.(interface{ Lhs() parser.Expression }); ok {
		w.S(" lhs ")
		w.Ref(x.Lhs())
	}
	if x, ok := e.(interface{ Rhs() parser.Expression }); ok {
		w.S(" rhs ")
		w.Ref(x.Rhs())
	}
	if x, ok := e.(interface{ Expr() parser.Expression }); ok {
		w.S(" expr ")
		w.Ref(x.Expr())
	}
	if x, ok := e.(interface{ Body() parser.Expression }); ok {
		w.S(" body ")
		w.Ref(x.Body())
	}
	if x, ok := e.(interface{ Value() interface{} }); ok {
		w.S(" value ")
		w.Value(x.Value())
	}
	if x, ok := e.(interface{ Value() parser.Expression }); ok {
		w.S(" value ")
		w.Ref(x.Value())
	}
	if x, ok := e.(interface{ Name() string }); ok {
		w.S(" name ").Q(x.Name())
	}
	if x, ok := e.(interface{ Name() (string, bool) }); ok {
		n, k := x.Name()
		w.S(" name ").Q(n)
		w.Value(k)
	}
	if x, ok := e.(interface{ Index() (int64, bool) }); ok {
		n, k := x.Index()
		w.S(" index ").I(int(n))
		w.Value(k)
	}
	if x, ok := e.(interface{ Operator() string }); ok {
		w.S(" op ").S(x.Operator())
	}
	if x, ok := e.(interface{ Operations() []parser.Expression }); ok {
		w.S(" operations ")
		w.refs(x.Operations())
	}
	if x, ok := e.(interface{ Type() parser.Expression }); ok {
		w.S(" type ")
		w.Ref(x.Type())
	}
	if x, ok := e.(interface{ Then() parser.Expression }); ok {
		w.S(" then ")
		w.Ref(x.Then())
	}
	if x, ok := e.(interface{ Test() parser.Expression }); ok {
		w.S(" test ")
		w.Ref(x.Test())
	}
	if x, ok := e.(interface{ Else() parser.Expression }); ok {
		w.S(" else ")
		w.Ref(x.Else())
	}
	if x, ok := e.(interface{ ReturnType() parser.Expression }); ok {
		w.S(" returns ")
		w.Ref(x.ReturnType())
	}
	if x, ok := e.(interface{ Parameters() []parser.Expression }); ok {
		w.S(" params ")
		w.refs(x.Parameters())
	}
	if x, ok := e.(interface{ Int() int64 }); ok {
		w.S(" int ")
		w.Value(x.Int())
	}
	if x, ok := e.(interface{ Float() float64 }); ok {
		w.S(" float ")
		w.Value(x.Float())
	}
	if x, ok := e.(interface{ Values() []parser.Expression }); ok {
		w.S(" values ")
		w.refs(x.Values())
	}
	if x, ok := e.(interface{ TypeRef() parser.Expression }); ok {
		w.S(" typeref ")
		w.Ref(x.TypeRef())
	}
	if x, ok := e.(interface{ TypeName() parser.Expression }); ok {
		w.S(" typename ")
		w.Ref(x.TypeName())
	}
	if x, ok := e.(interface{ Title() parser.Expression }); ok {
		w.S(" title ")
		w.Ref(x.Title())
	}
	if x, ok := e.(interface{ Text() parser.Expression }); ok {
		w.S(" text ")
		w.Ref(x.Text())
	}
	if x, ok := e.(interface{ Syntax() string }); ok {
		w.S(" syntax ").Q(x.Syntax())
	}
	if x, ok := e.(interface{ Style() parser.StepStyle }); ok {
		w.S(" style ").Q(string(x.Style()))
	}
	if x, ok := e.(interface{ StringValue() string }); ok {
		w.S(" string ").Q(x.StringValue())
	}
	if x, ok := e.(interface{ Statements() []parser.Expression }); ok {
		w.S(" statements ")
		w.refs(x.Statements())
	}
	if x, ok := e.(interface{ Selectors() []parser.Expression }); ok {
		w.S(" selectors ")
		w.refs(x.Selectors())
	}
	if x, ok := e.(interface{ Segments() []parser.Expression }); ok {
		w.S(" segments ")
		w.refs(x.Segments())
	}
	if x, ok := e.(interface{ RvalRequired() bool }); ok {
		w.S(" rval ")
		w.Value(x.RvalRequired())
	}
	if x, ok := e.(interface{ Resources() parser.Expression }); ok {
		w.S(" resources ")
		w.Ref(x.Resources())
	}
	if x, ok := e.(interface{ ResourceType() parser.Expression }); ok {
		w.S(" restype ")
		w.Ref(x.ResourceType())
	}
	if x, ok := e.(interface{ Radix() int }); ok {
		w.S(" radix ").I(x.Radix())
	}
	if x, ok := e.(interface{ Query() parser.Expression }); ok {
		w.S(" query ")
		w.Ref(x.Query())
	}
	if x, ok := e.(interface{ Properties() parser.Expression }); ok {
		w.S(" properties ")
		w.Ref(x.Properties())
	}
	if x, ok := e.(interface{ PatternString() string }); ok {
		w.S(" pattern ").Q(x.PatternString())
	}
	if x, ok := e.(interface{ ParentClass() string }); ok {
		w.S(" parentclass ").Q(x.ParentClass())
	}
	if x, ok := e.(interface{ Parent() string }); ok {
		w.S(" parent ").Q(x.Parent())
	}
	if x, ok := e.(interface{ Parent() parser.Expression }); ok {
		w.S(" parent ")
		w.Ref(x.Parent())
	}
	if x, ok := e.(interface{ ParametersSpecified() bool }); ok {
		w.S(" specified ")
		w.Value(x.ParametersSpecified())
	}
	if x, ok := e.(interface{ Options() []parser.Expression }); ok {
		w.S(" options ")
		w.refs(x.Options())
	}
	if x, ok := e.(interface{ Operand() parser.Expression }); ok {
		w.S(" operand ")
		w.Ref(x.Operand())
	}
	if x, ok := e.(interface{ NameOrIndex() interface{} }); ok {
		w.S(" nameorindex ")
		w.Value(x.NameOrIndex())
	}
	if x, ok := e.(interface{ Matching() parser.Expression }); ok {
		w.S(" matching ")
		w.Ref(x.Matching())
	}
	if x, ok := e.(interface{ Mappings() []parser.Expression }); ok {
		w.S(" mappings ")
		w.refs(x.Mappings())
	}
	if x, ok := e.(interface{ Mapping() parser.Expression }); ok {
		w.S(" mapping ")
		w.Ref(x.Mapping())
	}
	if x, ok := e.(interface{ Lambda() parser.Expression }); ok {
		w.S(" lambda ")
		w.Ref(x.Lambda())
	}
	if x, ok := e.(interface{ Kind() string }); ok {
		w.S(" kind ").Q(x.Kind())
	}
	if x, ok := e.(interface{ Keys() []parser.Expression }); ok {
		w.S(" keys ")
		w.refs(x.Keys())
	}
	if x, ok := e.(interface{ Key() parser.Expression }); ok {
		w.S(" key ")
		w.Ref(x.Key())
	}
	if x, ok := e.(interface{ HostMatches() []parser.Expression }); ok {
		w.S(" hosts ")
		w.refs(x.HostMatches())
	}
	if x, ok := e.(interface{ Functor() parser.Expression }); ok {
		w.S(" functor ")
		w.Ref(x.Functor())
	}
	if x, ok := e.(interface{ Form() parser.ResourceForm }); ok {
		w.S(" form ").Q(string(x.Form()))
	}
	if x, ok := e.(interface{ Entries() []parser.Expression }); ok {
		w.S(" entries ")
		w.refs(x.Entries())
	}
	if x, ok := e.(interface{ Elements() []parser.Expression }); ok {
		w.S(" elements ")
		w.refs(x.Elements())
	}
	if x, ok := e.(interface{ DowncasedName() string }); ok {
		w.S(" downcased ").Q(x.DowncasedName())
	}
	if x, ok := e.(interface{ Definitions() []parser.Definition }); ok {
		w.S(" definitions (")
		for _, d := range x.Definitions() {
			w.Ref(d)
			w.S(" ")
			if nd, ok := d.(interface{ Name() string }); ok {
				w.Q(nd.Name())
			}
		}
		w.S(")")
	}
	if x, ok := e.(interface{ Definition() parser.Expression }); ok {
		w.S(" definition ")
		w.Ref(x.Definition())
	}
	if x, ok := e.(interface{ Component() parser.Expression }); ok {
		w.S(" component ")
		w.Ref(x.Component())
	}
	if x, ok := e.(interface{ CapturesRest() bool }); ok {
		w.S(" rest ")
		w.Value(x.CapturesRest())
	}
	if x, ok := e.(interface{ Capability() string }); ok {
		w.S(" capability ").Q(x.Capability())
	}
	if x, ok := e.(interface{ Bool() bool }); ok {
		w.S(" bool ")
		w.Value(x.Bool())
	}
	if x, ok := e.(interface{ Bodies() []parser.Expression }); ok {
		w.S(" bodies ")
		w.refs(x.Bodies())
	}
	if x, ok := e.(interface{ Arguments() []parser.Expression }); ok {
		w.S(" args ")
		w.refs(x.Arguments())
	}
}

// Node writes what there is to know about a single node
func (w *W) Node(e parser.Expression) {
	w.Ref(e)
	if w.NoLen && e.IsNop() {
		w.S(" nop")
		return
	}
	w.S(" ").Q(e.File()).S(":").I(e.Line()).S(":").I(e.Pos())
	if e.IsNop() {
		w.S(" nop")
	}
	w.Accessors(e)
}

// Tree writes the complete tree with the path of each node
func (w *W) Tree(e parser.Expression) {
	w.Node(e)
	w.S("\n")
	e.AllContents(nil, func(path []parser.Expression, x parser.Expression) {
		for _, p := range path {
			w.S(" ").I(p.ByteOffset()).S(":").I(p.ByteLength())
		}
		w.S(" > ")
		w.Node(x)
		w.S(" ").Q(x.String()).S("\n")
	})
}

// Dump writes everything that can be observed of a tree
func (w *W) Dump(e parser.Expression) {
	if e == nil {
		w.S("no tree")
		return
	}
	w.Tree(e)
	w.S("text ").Q(e.String()).S("\n")
	p := e.ToPN()
	w.S("pn ").S(p.String()).S("\ndata ")
	w.Value(p.ToData())
	w.S("\n")
}

// Subtree writes a node and what it contains
func (w *W) Subtree(e parser.Expression) {
	w.Node(e)
	w.S("\n")
	e.AllContents(nil, func(path []parser.Expression, x parser.Expression) {
		w.I(len(path)).S(" ")
		w.Node(x)
		w.S("\n")
	})
	w.S(pn.ToString(e.ToPN()))
}

// Error writes an error that was returned by the parser
func (w *W) Error(err error) {
	if err == nil {
		w.S("no error")
		return
	}
	if r, ok := err.(issue.Reported); ok {
		w.Issue(r)
		return
	}
	w.S("error ").Q(err.Error())
	if o, ok := err.(interface{ Offset() int }); ok {
		w.S(" at ").I(o.Offset())
	}
}

// Issue writes a reported issue
func (w *W) Issue(r issue.Reported) {
	if r == nil {
		w.S("no issue")
		return
	}
	w.S("issue ").S(string(r.Code())).S(" severity ").I(int(r.Severity())).S(" ").Q(r.Error()).S(" ").Q(r.String())
	if l := r.Location(); l != nil {
		w.S(" ").Q(l.File()).S(":").I(l.Line()).S(":").I(l.Pos())
	}
	w.S(" data ")
	w.Value(pn.ReportedToPN(r).ToData())
}

// Issues writes a list of issues
func (w *W) Issues(rs []issue.Reported) {
	w.I(len(rs)).S(" issues\n")
	for _, r := range rs {
		w.Issue(r)
		w.S("\n")
	}
}
