package gen

import "bytes"

// What a disk returns that is stuck: the same block again and again, more often than a stack or a
// quadratic algorithm may like

type Nest struct{ Name, Pre, Open, Mid, Close, Post string }

// Nests are constructs that contain themselves
var Nests = []Nest{
	{"parentheses", "$x = ", "(", "1", ")", ""},
	{"list", "$x = ", "[", "1", "]", ""},
	{"list of two", "$x = ", "[1, ", "1", ", 2]", ""},
	{"hash", "$x = ", "{1 => ", "1", "}", ""},
	{"hash key", "$x = ", "{", "1", " => 1}", ""},
	{"not", "$x = ", "!", "$y", "", ""},
	{"minus", "$x = ", "-(", "$y", ")", ""},
	{"splat", "$x = ", "*[", "$y", "]", ""},
	{"sum", "$x = ", "1 + ", "1", "", ""},
	{"and or", "$x = ", "$a and $b or ", "1", "", ""},
	{"power of other operators", "$x = ", "1 << 2 * 3 - 4 == 5 =~ 6 in ", "7", "", ""},
	{"assignment", "", "$x = ", "1", "", ""},
	{"append", "", "$x += ", "1", "", ""},
	{"if", "", "if 1 { ", "2", " }", ""},
	{"if condition", "", "if if ", "1", " { 2 } { 3 }", ""},
	{"else", "", "if 1 { } else { ", "2", "}", ""},
	{"elsif", "if 1 { }", " elsif 1 { 2 }", "", "", ""},
	{"unless", "", "unless 1 { ", "2", " }", ""},
	{"case", "", "case 1 { 2: { ", "3", " } }", ""},
	{"case test", "", "case ", "3", " { 2: { } }", ""},
	{"relation", "A[1] ", "-> A[1] ", "", "", ""},
	{"index", "$x = $y", "[1]", "", "", ""},
	{"index in index", "$x = ", "$y[", "1", "]", ""},
	{"type", "$x = ", "A[", "B", "]", ""},
	{"dot", "$x = $y", ".a", "", "", ""},
	{"calls", "$x = $y", ".a(1)", "", "", ""},
	{"lambdas", "", "$y.each |$z| { ", "1", " }", ""},
	{"chain of lambdas", "$x = $y", ".map |$z| { 1 }", "", "", ""},
	{"call", "$x = ", "f(", "1", ")", ""},
	{"statement call", "", "notice ", "1", "", ""},
	{"statement calls", "", "notice f(1), ", "1", "", ""},
	{"include", "include a", ", b", "", "", ""},
	{"interpolation", "$x = ", "\"${", "1", "}\"", ""},
	{"interpolation with text", "$x = ", "\"a ${[", "1", "]} b\"", ""},
	{"selector", "$x = 1", " ? { 1 => 1", "", "}", ""},
	{"selectors", "$x = 1", " ? { 1 => 1 }", "", "", ""},
	{"class", "", "class a { ", "1", " }", ""},
	{"define", "", "define a() { ", "1", " }", ""},
	{"function", "", "function a() { ", "1", " }", ""},
	{"node", "", "node a { ", "1", " }", ""},
	{"resource", "", "a { b: c => ", "1", " }", ""},
	{"resource title", "", "a { [", "1", "]: c => 1 }", ""},
	{"bodies", "a { ", "b: c => 1; ", "", "", "}"},
	{"attributes", "a { b: ", "c => 1, ", "", "", "}"},
	{"override", "", "A[", "1", "] { b => 1 }", ""},
	{"defaults", "", "A { b => ", "1", " }", ""},
	{"collector", "A <| ", "(", "a == 1", ")", " |>"},
	{"query", "A <| ", "a == 1 and ", "a == 1", "", " |>"},
	{"virtual", "", "@a { b: c => ", "1", " }", ""},
	{"parameters", "class a(", "$b = [1], ", "$c", "", ") { }"},
	{"default of a parameter", "class a($b = ", "f() |$x = ", "1", "| { }", ") { }"},
	{"typed parameters", "class a(", "A[B] $b, ", "C $c", "", ") { }"},
	{"type alias", "type A = ", "B[", "C", "]", ""},
	{"type with braces", "type A = ", "{ a => ", "C", "}", ""},
	{"Object type", "type A = ", "Object[{ a => ", "C", "}]", ""},
	{"qualified name", "$x = a", "::b", "", "", ""},
	{"qualified type", "$x = A", "::B", "", "", ""},
	{"variable", "$a", "::b", "", "", " = 1"},
	{"comments", "", "/* ", "", "*/", "1"},
	{"line comments", "", "# a\n", "1", "", ""},
	{"white space", "", " \n\t", "1", "", ""},
	{"semicolons", "", "1; ", "1", "", ""},
	{"statements", "", "$x = 1\n", "1", "", ""},
	{"heredocs", "", "$x = @(A)\n a\n | A\n", "1", "", ""},
	{"heredocs of a line", "notice(", "@(A), ", "1", "", ")\na\nA\n"},
	{"heredoc with interpolation", "", "$x = @(\"A\")\n ${a} ${[1]} b\n | A\n", "1", "", ""},
	{"escapes", "$x = \"", "\\n\\t\\u00e9", "", "", "\""},
	{"backslashes", "$x = '", "\\\\", "", "", "'"},
	{"variables in a string", "$x = \"", "$a ${b} $c::d[1] ", "", "", "\""},
	{"characters of four bytes", "$x = '", "\U0001f600", "", "", "'"},
	{"digits", "$x = 1", "0", "", "", ""},
	{"hexadecimal digits", "$x = 0x1", "f", "", "", ""},
	{"digits of a fraction", "$x = 1.1", "0", "", "", ""},
	{"regexp", "$x =~ /", "(a|b)", "", "", "/"},
	{"times", "$x = 1", " /a/", "", "", ""},
	{"caret and bars", "$x = f() ", "|$a| { ", "1", "}", ""},
	{"reserved", "", "plan a() { ", "1", " }", ""},
	{"return", "", "return(", "1", ")", ""},
	{"unless else", "", "unless 1 { } else { ", "1", " }", ""},
	{"application", "", "application a() { ", "1", " }", ""},
	{"site", "", "site { ", "1", " }", ""},
	{"many definitions", "", "class a { } function b() { } define c() { } ", "1", "", ""},
	{"statement call of a hash", "", "notice {a => ", "1", "}", ""},
	{"statement call of a hash key", "", "include {", "1", " => 1}", ""},
	{"hash after a name", "", "a {b => ", "1", "}", ""},
	{"hash after a type", "", "A {b => ", "1", "}", ""},
	{"calls of calls", "", "f(1)", "", "", ""},
	{"call with hash", "", "f({ a => ", "1", "})", ""},
	{"call with lambda", "", "f(1) |$x| { ", "1", "}", ""},
	{"relations in lists", "", "[A[1] -> ", "A[2]", "]", ""},
	{"case in a selector", "$x = ", "$y ? { default => ", "1", "}", ""},
	{"if in an assignment", "", "$x = if 1 { ", "1", "}", ""},
	{"heredoc in a block", "", "if 1 { $x = @(A)\n a\n | A\n", "1", "}", ""},
	{"collector in a block", "", "if 1 { A <| |> ", "1", "}", ""},
	{"produces", "", "A produces B { a => ", "1", "}", ""},
	{"splat of a resource", "", "a { b: * => {c => ", "1", "}}", ""},
	{"same titles", "", "a { 'b': } ", "1", "", ""},
}

var EppNests = []Nest{
	{"tags", "", "<% 1 %>", "", "", ""},
	{"values", "", "a <%= 1 %>", "", "", ""},
	{"ifs", "", "<% if 1 { %>a", "b", "<% } %>", ""},
	{"loops", "", "<% $x.each |$y| { -%>\n", "b", "<%- } -%>\n", ""},
	{"tag comments", "", "<%# a %>", "b", "", ""},
	{"doubled percent signs", "", "<%% a %%>", "b", "", ""},
	{"text", "", "a\n\n ", "b", "", ""},
	{"parameter list", "<%- | ", "$a = 1, ", "$b", "", " | %>b"},
	{"interpolations", "<%= ", "\"${", "1", "}\"", "%>"},
}

var WorkflowNests = []Nest{
	{"workflows", "", "workflow a { } { ", "", " }", ""},
	{"steps", "workflow a { } { ", "resource b { } { a => 1 } ", "", "", "}"},
	{"step names", "workflow a { } { ", "resource b { type => [", "1", "] } { a => 1 }", "}"},
	{"iterations", "workflow a { } { ", "resource b { } times(1) |$x| { a => 1 } ", "", "", "}"},
	{"actions", "workflow a { } { ", "action b { returns => ($x) } { 1 } ", "", "", "}"},
	{"returns", "workflow a { returns => (", "$a, ", "$b", "", ") } { }"},
	{"each", "workflow a { } { resource b { } each(", "[", "1", "]", ") |$x| { } }"},
}

// Source returns the construct at the given depth, complete or torn
func (n Nest) Source(depth int, torn bool) []byte {
	b := []byte(n.Pre)
	b = append(b, bytes.Repeat([]byte(n.Open), depth)...)
	if torn {
		return b
	}
	b = append(b, n.Mid...)
	b = append(b, bytes.Repeat([]byte(n.Close), depth)...)
	return append(b, n.Post...)
}

// Stuck returns a source in which a block of another one is repeated very often
func Stuck(r *Rand) Source {
	s := Any(r)
	if r.P(3) {
		s = Mixed(r)
	}
	t := s.Text
	if len(t) > 1500 {
		t = t[:1500]
	}
	if len(t) == 0 {
		t = []byte("x")
	}
	p := r.Intn(len(t))
	m := 3 + r.Intn(40)
	q := p + 1 + r.Intn(m)
	if q > len(t) {
		q = len(t)
	}
	n := 300 + r.Intn(2000)
	if x := 16000 / (q - p); n > x {
		n = x
	}
	s.Text = cat(t[:p], bytes.Repeat(t[p:q], n), t[q:])
	return s
}
