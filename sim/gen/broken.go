package gen

import "sync"

// Snippets that fail, at least one for each place where the lexer or the parser gives up. The options
// that a snippet needs come first.
var brokenSnips = []struct {
	opts string
	s    string
}{
	{"", "$x = 12ab"}, {"", "$x = 1.x"}, {"", "$x = 1.5e"}, {"", "$x = 1.5ex"}, {"", "$x = 1e99999"}, {"", "$x = 1.5q"}, {"", "-1e999"},
	{"", ":: x"}, {"", "::9"}, {"", "~ x"}, {"", "$x ~ 1"}, {"", "$: x"}, {"", "$X"}, {"", "$:X"}, {"", "$::"}, {"", "0xg"}, {"", "0x1z"}, {"", "089"}, {"", "07a"},
	{"", "a::"}, {"", "A::b"}, {"", "$a::_b::c"}, {"", "a::B"}, {"", "&"}, {"", "\\"}, {"", "x `y`"}, {"", "^"},
	{"", "/* open"}, {"", "/* open *"}, {"", "'open"}, {"", "'open\\"}, {"", "\"open"}, {"", "\"open\\"}, {"", "\"${x"}, {"", "\"${x\""}, {"", "\"$\""}, {"", "\"$X\""}, {"", "\"a ${[1,} b\""},
	{"1", "`open"}, {"1", "`"}, {"2", "\"\\xz\""}, {"2", "\"\\x1z\""}, {"2", "\"\\x"}, {"", "\"\\uzz\""}, {"", "\"\\u12z4\""}, {"", "\"\\u{1\""}, {"", "\"\\u{}\""}, {"", "\"\\u{1234567}\""}, {"", "\"\\u"},
	{"", "@(E"}, {"", "@(E\n"}, {"", "@(\"E"}, {"", "@(\"E\n"}, {"", "@()"}, {"", "@()\nx\n"}, {"", "@(\"\")\nx\n"}, {"", "@(E:a:b)\nE\n"}, {"", "@(E/t/n)\nE\n"}, {"", "@(E\"F\")\nE\n"},
	{"", "@(\"E\"\"F\")\nE\n"}, {"", "@(E/q)\nE\n"}, {"", "@(E/tx)\nE\n"}, {"", "@(E)"}, {"", "@(E)\ntext"}, {"", "@(E)\ntext\n E x\n"}, {"", "@(E)\ntext\n | "}, {"", "@(\"E\")\n ${x\n E\n"},
	{"", "@(\"E\"/u)\n \\uzzzz\n E\n"}, {"", "@(E/u)\n \\u{x}\n | E\n"}, {"", "[@(A), @(B)]\na\nA\nb\n"}, {"", "[@(A), @(B)\na\nA\nb\nB\n"}, {"", "f(@(A)) { x\na\nA\n"}, {"", "@(A) ) x\na\nA\n"},
	{"5", "<% $x"}, {"5", "a <% $x -%"}, {"5", "<% $x -% y %>"}, {"5", "<%# open"}, {"5", "a <%= $x"}, {"5", "<%= ) %>"}, {"5", "text <%- | $a | -%> b"}, {"5", "<%- | $a -%> b"}, {"5", "<%- | a | -%>"}, {"5", "<% if $x { %> open"},
	{"5", "<% } %>"}, {"5", "<%| $x = @(E) |%>\nE"}, {"5", "<% 'open %>"}, {"5", "<%= \"${x\" %>"}, {"5", "<% /* %>"},
	{"", "a, b"}, {"", "notice(1) , 2"}, {"", "[1 2]"}, {"", "f(1 2)"}, {"", "{a => 1 b => 2}"}, {"", "{a}"}, {"", "{a => }"}, {"", "+ x"}, {"", ")"}, {"", "}"}, {"", "]"}, {"", "=> 1"},
	{"", "if x"}, {"", "if x { } else"}, {"", "if x { } else x"}, {"", "unless x { } elsif y { }"}, {"", "if x { } elsif"}, {"", "case x"}, {"", "case x { }"}, {"", "case x { 1 }"}, {"", "case x { 1: }"}, {"", "case x { 1: { }"},
	{"", "$x ?"}, {"", "$x ? { 1 }"}, {"", "$x ? { 1 => 2"}, {"", "foo { x }"}, {"", "foo { a => b }"}, {"", "$x { a => b }"}, {"", "[1] { a => 1 }"}, {"", "foo { 'a': x }"}, {"", "foo { 'a': 1 => 2 }"},
	{"", "foo { 'a': x => 1; 'b' x => 1 }"}, {"", "foo { 'a': x => 1"}, {"", "foo { 'a': * 1 }"}, {"", "@foo"}, {"", "@@foo 1"}, {"", "@foo { x }"}, {"", "Foo { x }"}, {"", "Foo { x => 1"}, {"", "Foo[1] { x"},
	{"", "Foo <| x"}, {"", "Foo <<| x |>"}, {"", "Foo <| |> { x }"}, {"", "Foo <| |> { x => 1"}, {"", "type Foo"}, {"", "type Foo[1]"}, {"", "type Foo[1] x"}, {"", "type Foo = "}, {"", "type Foo = Bar { x }"},
	{"", "type Foo inherits x"}, {"", "type Foo inherits Bar"}, {"", "type Foo { x"}, {"", "type Foo x"}, {"", "function"}, {"", "function 1"}, {"", "function f(x)"}, {"", "function f($a"}, {"", "function f($a, 1) { }"}, {"", "function f($a = ) { }"},
	{"", "function f() >> x { }"}, {"", "function f() >> Foo[ { }"}, {"", "function f() { x"}, {"3", "plan"}, {"3", "plan 1"}, {"3", "plan p(x) { }"}, {"3", "plan p { x"}, {"3", "plan p { function f { } "},
	{"", "node"}, {"", "node { }"}, {"", "node a. { }"}, {"", "node a, { "}, {"", "node a inherits { }"}, {"", "node \"x${y\" { }"}, {"", "class"}, {"", "class 1"}, {"", "class 'x' { }"}, {"", "class a inherits"}, {"", "class a inherits 1 { }"},
	{"", "class a { class b"}, {"", "class a { class b { class c { ) } } }"}, {"", "class a($x) { $x = @(E) }"}, {"", "class class { }"}, {"", "define"}, {"", "define d("}, {"", "define d($x) { x"}, {"", "define 'x' { }"}, {"", "application a"}, {"", "site"}, {"", "site { x"},
	{"", "class a { define b { node c"}, {"", "x.1."}, {"", "x.y(z"}, {"", "x.y |$a| z"}, {"", "f |x| { }"}, {"", "f |$x { }"}, {"", "f |$x| >> y { }"}, {"", "f |$x| { x"}, {"", "f(*)"}, {"", "x -> "}, {"", "x = "}, {"", "x + "}, {"", "!"}, {"", "-"}, {"", "a in"}, {"", "a =~ /x"},
	{"", "(1"}, {"", "(1 2)"}, {"", "x["}, {"", "x[1"}, {"", "x[1 2]"}, {"", "A produces"}, {"", "A produces B"}, {"", "A produces B {"}, {"", "A consumes B { x }"}, {"", "A produces B { x => }"},
	{"4", "workflow w"}, {"4", "workflow w {"}, {"4", "workflow w { x }"}, {"4", "workflow w { 1 => 2 }"}, {"4", "workflow w { parameters => ($x }"}, {"4", "workflow w { parameters => (x) } { }"}, {"4", "workflow w { returns => (x) } { }"},
	{"4", "workflow w { returns => ($x = 1) } { }"}, {"4", "workflow w { returns => ($1) } { }"}, {"4", "workflow w { } { x }"}, {"4", "workflow w { } { resource }"}, {"4", "workflow w { } { resource 1 }"}, {"4", "workflow w { } { resource r { } { x } }"},
	{"4", "workflow w { } { resource r { } { 1 } }"}, {"4", "workflow w { } { resource r { } $x 1 }"}, {"4", "workflow w { } { resource r { } $1 = each($x) |$y| { } }"}, {"4", "workflow w { } { resource r { } foo($x) |$y| { } }"}, {"4", "workflow w { } { resource r { } each($x) |y| { } }"},
	{"4", "workflow w { } { action a { } }"}, {"4", "workflow w { } { action a { } { x } "}, {"4", "workflow w { } { workflow v { } { resource r { }"}, {"4", "workflow w { } { workflow v { } { ) } }"}, {"4", "action a { } { function read {"},
	{"4", "workflow w { } { resource r { } { a => f( } }"}, {"4", "workflow w { returns => ($a = ) } { }"}, {"4", "workflow w { returns => ($a = (b, 1)) } { }"}, {"4", "workflow w { returns => (Foo[ $a) } { }"}, {"4", "workflow w { foo => 1 } { }"}, {"4", "workflow w { } { action a { } { function foo { } } }"}, {"4", "workflow w { } { action a { } { function read($a { } } }"}, {"4", "workflow w { } { function x"}, {"4", "workflow w { } { resource"}, {"4", "resource x { } { a => "},
	{"", "type A = Object { a"}, {"", "type A = [{ a => 1"}, {"", "type A[1] = "}, {"", "type A = Foo { 1 } 2"}, {"", "function f() >>"}, {"", "function f($a = "}, {"", "class a($b = "}, {"", "class a(Foo[ $b) { }"}, {"", "class a(String) { }"}, {"", "define a(*$) { }"}, {"", "notice["}, {"", "$x = \"${a.\""}, {"", "\"${a[}\""}, {"", "\"${}\""}, {"", "\"${1 2}\""}, {"", "\"${'\""}, {"", "\"a ${\"b ${\"c\""},
	{"", "a\x00b"}, {"", "'a\x00b'"}, {"", "# \x00"}, {"", "'\xff'"}, {"", "x\xc3"}, {"", "# \xe2\x82"}, {"", "@(E)\n\xff\nE\n"}, {"", "@(E\xff)\nE\n"}, {"", "1\x00"}, {"", "-\xff"}, {"5", "a\x00"}, {"5", "<%\xff"}, {"5", "<\x00"}, {"1", "`\x00`"}, {"", "$\xff"}, {"", ":\x00"},
}

// Broken generates a source that the parser gives up somewhere in
func Broken(r *Rand) Source {
	e := brokenSnips[r.Intn(len(brokenSnips))]
	s := Source{File: "/src/broken.pp"}
	if e.opts != "" {
		s.Opts = []int{int(e.opts[0] - '0')}
	}
	if r.P(4) {
		s.Opts = append(s.Opts, 1+r.Intn(4))
	}
	t := e.s
	if e.opts != "5" {
		for n := r.Intn(3); n > 0; n-- {
			t = repl(r, issueStmts[r.Intn(len(issueStmts))]) + "\n" + t
		}
		if r.P(3) {
			// Inside of something
			t = r.Pick("class a::b($x = '1') { ", "if $x { ", "$y.each |$z| { ", "notice(", "[1, ", "{ a => ", "foo { 'a': b => ", "\"x ${", "node n { ", "function f() { ", "$h = @(H)\n text\n | H\n", "f(@(H), ", "File <| a == ") + t
		}
		if r.P(3) {
			t += r.Pick("\n", "\n}", "\nnotice(1)\n", " ", "\n'", ")", "\n | E\n", "\n\n\n")
		}
	} else if r.P(2) {
		t = r.Pick("head\n", "<%= $a %>", "<% if $b { %>x<% } %>\n", "<%- | $p | -%>\n", "  ") + t
	}
	s.Text = []byte(t)
	return s
}

// Known returns every source that this package has by heart: those that fail, those for which validators have
// something to say, and those from the tests of the repository
func Known() []Source {
	knownOnce.Do(func() {
		r := New(1)
		known = append(known, Corpus()...)
		for _, e := range brokenSnips {
			s := Source{File: "/src/broken.pp", Text: []byte(e.s)}
			if e.opts != "" {
				s.Opts = []int{int(e.opts[0] - '0')}
			}
			known = append(known, s)
		}
		for _, t := range issueStmts {
			known = append(known, Source{File: "/src/issues.pp", Text: []byte(repl(r, t) + "\n")})
		}
	})
	return known
}

var (
	known     []Source
	knownOnce sync.Once
)

// Sweep returns the known sources that are not long in an order of its own
func Sweep(r *Rand) (l []Source) {
	for _, s := range Known() {
		if len(s.Text) < 400 {
			l = append(l, s)
		}
	}
	for i := len(l) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return
}
