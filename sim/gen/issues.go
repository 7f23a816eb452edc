package gen

import (
	"bytes"
	"strings"
)

// Statements for which validators have something to say, and some for which they have not
var issueStmts = []string{
	"$h%d = { a => 1, a => 2, 'a' => 3, b => 4, b => 5 }", "'idem%d'", "$x%d", "1 + %d", "[1, %d]", "foo({ 'a' => %d })",
	"class c%d($x, $x, $y, $y) { 'x' }", "define d%d($name, $title, $title) { }", "function f%d(*$a, $b) { 1; 2; 3 }",
	"$a::b%d = 1", "$%d = 1", "$x[%d] = 1", "$x += %d", "$x -= %d", "[$a, $b::c] = [1, %d]", "$y = ($z = %d)",
	"file { 'a%d': mode +> 1 }", "file { 'a%d': * => $a, * => $b }", "@File { mode => %d }", "@@File['x'] { mode => %d }",
	"case $x { default: { %d } default: { 2 } default: { 3 } }", "$x ? { default => 1, default => %d }",
	"node 'a b%d' { }", "node \"a${x}%d\" { }", "node a_b%d { class q%d { } }", "if true { class r%d { } define s%d { } node t { } }",
	"type X::Y%d = 1", "type X%d = String", "function g%d() { class inner { } }", "class any%d { class nested { define deep { class deeper { } } } }",
	"File <| a == 1 and b == %d or c =~ d |>", "private", "$attr%d = private", "type = %d",
	"site { $a = %d }", "application app%d { }", "class Bar%d::Baz { }", "define any() { }", "class string%d inherits Foo { }",
	"/a%d/", "$x =~ /a%d/", "Integer[%d]", "include foo%d", "notice(%d)", "$ok%d = 1", "unless $x { %d } else { 3 }", "a%d -> b", "File[a] -> { 'x' => %d }",
	"-%d", "!$x%d", "*$x%d", "with(%d) |$a, $a| { $b }", "\"${x}%d\"", "'x' in $y%d", "undef", "default", "true", "import 'x%d'",
	"function h%d($a) >> Integer { $a }", "$x = @(E)\n%d\nE\n", "Foo::Bar { a => 1, a => %d }", "node default, /x%d/ { $x }", "if $x { 1 } elsif $y { %d } else { }",
	"break()", "return(%d)", "realize(File[%d])", "tag 'a%d'", "$x.each |$i| { %d }", "class inh%d inherits inh%d { }", "$trusted = %d", "$facts%d = 1", "each(%d)",
	"type T%d = { a => 1 }", "type T%d = [{ a => %d }]", "type T%d = Object { a => 1 }", "type T%d = Foo { a => %d }", "type T%d inherits B { a => 1 }", "type T%d = [A, B]", "type A[B%d] = C", "type A[B] = [/x%d/, 'y']", "type /x%d/ = B",
	"notice[%d]", "notice foo(%d)", "include foo, bar%d", "class np($%d) { }", "class np($0a%d) { }", "define pn($a_B%d, $_x) { }", "function f%d() >> Foo[%d] { 1 }", "function r%d(Integer $a = 1, Optional[String] *$b) { $a }",
	"node \"lit%d\" { }", "node \"a.${b}\", 'x%d' inherits y { }", "node 1.2.%d { }", "node a-b.c%d { }", "\"a ${b['c'].d[%d]} ${x.y} ${::z::q} ${1} ${if %d { 'a' }} $w-x\"", "$h%d = @(\"E\":json/tn)\n  ${a} \\t\n  | E\n", "$u%d = \"\\u{1f60%d}\\u00e9\"",
	"attr%d", "$plan%d = plan", "Foo[%d].bar(1)", "$x.y.z(%d) |$q| { }", "$a[%d][2, 3]", "$a <- $b ~> %d -> $c", "File['a'] <~ Foo <| |> -> @x { y%d: }", "Foo <<| a == %d |>> { b => c, d +> e }", "class Foo%d { }", "class a::B%d { }", "define 'a'%d() { }",
	"$v = $x%d ? { undef => 1, 'a' => 2, /b/ => 3, Foo => 4, default => fail(5) }", "!!$a%d and !$b or ($c != 1)", "$a%d = -$b * +1 + (2 % 3) << 4 >> 5 / 6 - 7", "$a !~ /b%d/", "$a%d in [1] == true", "lookup('x') |$y%d| { fail($y) }", "# only a comment %d", "/* %d */", "return()", "next(%d)", "1 2 %d", "'a%d' 'b' [1] { 2 => 3 }",
	"function x::y%d::z() { }", "function Foo%d() { }", "class c%d::c%d inherits ::d::e { include ::f }", "%d: x", "contain 'a%d'", "$_%d = 1", "$x::Y = %d", "user { default: a => %d; ['b', 'c']: d => e; $f: * => $g, }", "create_resources('a', { b => %d })", "Class['a%d'] -> B['c']", "assert_type(Foo, %d)",
}

// Issues generates a source for which validators have much to say
func Issues(r *Rand) Source {
	s := Source{File: "/src/issues.pp"}
	if r.P(5) {
		s.Opts = append(s.Opts, 3)
	}
	for n := 1 + r.Intn(7); n > 0; n-- {
		st := issueStmts[r.Intn(len(issueStmts))]
		s.Text = append(s.Text, repl(r, st)...)
		s.Text = append(s.Text, '\n')
	}
	if r.P(3) {
		// All of it in another context
		w := r.Pick("class w%s { ", "define w%s() { ", "function w%s() { ", "if $q { ", "node w { ", "$q.each |$z| { ")
		t := []byte{}
		for i := 0; i < len(w); i++ {
			if w[i] == '%' {
				i++
				t = append(t, byte('a'+r.Intn(4)))
				continue
			}
			t = append(t, w[i])
		}
		s.Text = append(append(t, s.Text...), "}\n"...)
	}
	return s
}

// Variant makes a source that is close to another one, as versions of a file are
func Variant(r *Rand, s Source) Source {
	v := Source{File: s.File, Opts: s.Opts, Text: append([]byte{}, s.Text...)}
	switch r.Intn(10) {
	case 6: // the same offsets, other lines
		for i, c := range v.Text {
			if (c == ' ' || c == '\n') && r.P(2) {
				v.Text[i] = " \n"[r.Intn(2)]
			}
		}
	case 7: // one of the white space characters
		for k := 0; k < 8 && len(v.Text) > 0; k++ {
			if i := r.Intn(len(v.Text)); v.Text[i] == ' ' || v.Text[i] == '\n' {
				v.Text[i] ^= ' ' ^ '\n'
				break
			}
		}
	case 8: // parts change places
		i := r.Intn(len(v.Text) + 1)
		v.Text = append(append([]byte{}, s.Text[i:]...), s.Text[:i]...)
	case 9: // line ends of another kind
		if bytes.Contains(v.Text, []byte("\r\n")) {
			v.Text = bytes.Replace(v.Text, []byte("\r\n"), []byte("\n"), -1)
		} else {
			v.Text = bytes.Replace(v.Text, []byte("\n"), []byte("\r\n"), -1)
		}
	case 0: // same length
		for k := 0; k < 3 && len(v.Text) > 0; k++ {
			i := r.Intn(len(v.Text))
			for n := 0; n < len(v.Text); n++ {
				if c := v.Text[i]; c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
					v.Text[i] = c ^ 1
					if c == 'z' || c == '`' || c == 'a' {
						v.Text[i] = 'q'
					}
					break
				}
				i = (i + 1) % len(v.Text)
			}
		}
	case 1: // cut
		v.Text = v.Text[:r.Intn(len(v.Text)+1)]
	case 2:
		v.Text = append(v.Text, s.Text...)
	case 3: // moved
		v.Text = append([]byte(r.Pick(" ", "\n", "# c\n", "\n\n\n", "$x = 1\n")), v.Text...)
	case 4: // damaged
		v.Text, _ = Damage(r, v.Text, func() []byte { return Any(r).Text }, 2)
	case 5: // another file name
		v.File = r.Pick("/src/other.pp", "/src/a.epp", "", "/src/manifest.pp")
	}
	return v
}

var tinyToks = strings.Fields("foo bar $x $y 1 23 0x1f 1.5 'a' \"b\" Foo Bar a::b A::B undef true default [1] {a=>1} ( ) { } [ ] , = + - ; : . => | foo() $x.y f($x) \"${x}\" /r/ @ if class x{ @(E) E <% %> <%= -%>")

// Tiny generates a source of a few tokens at offsets that another tiny source has too
func Tiny(r *Rand) Source {
	s := Source{File: "/src/tiny.pp"}
	if r.P(8) {
		s.Opts = []int{5}
	}
	w := 4 + 4*r.Intn(2)
	for n := 1 + r.Intn(5); n > 0; n-- {
		t := tinyToks[r.Intn(10)]
		if r.P(2) {
			t = tinyToks[r.Intn(len(tinyToks))]
		}
		if r.P(3) {
			t = r.Pick(" ", "\n", "#\n", "# ") + t
		}
		s.Text = append(s.Text, t...)
		for len(s.Text)%w != 0 {
			s.Text = append(s.Text, "  \n"[r.Intn(3)])
		}
	}
	return s
}

// Mixed generates sources of all kinds
func Mixed(r *Rand) Source {
	switch r.Intn(9) {
	case 0, 1:
		return Issues(r)
	case 3:
		return Broken(r)
	case 2:
		s := Any(r)
		s.Text, _ = Damage(r, s.Text, func() []byte { return Any(r).Text }, 2)
		return s
	}
	return Any(r)
}

// Step returns a workflow step
func Workflow(r *Rand) Source {
	s := Source{File: "/src/w.pp", Opts: []int{4}}
	t := "workflow w%d {\n  parameters => (String $a = 'x', Integer[0] $b),\n  returns => (String $c, $d)\n} {\n"
	t = repl(r, t)
	for n := r.Intn(4); n > 0; n-- {
		t += repl(r, r.Pick(
			"  resource r%d {\n    type => Foo::Bar\n  } {\n    a => $a, b => %d\n  }\n",
			"  resource r%d {\n    parameters => ($a),\n    returns => ($x%d),\n    when => $a == 'x'\n  } {\n    a => $a\n  }\n",
			"  resource e%d { type => Foo } each($y) |$x| {\n    x => $x, z => %d\n  }\n",
			"  resource e%d { type => Foo } $v = times($n) |$x| {\n    x => $x\n  }\n",
			"  resource e%d { } range($a, $b) |$x| { }\n",
			"  action c%d { parameters => ($x), returns => ($y), guard => true } {\n    function read { notice(%d) }\n    function delete { true }\n  }\n",
			"  function f%d ($x, $y) { $x + %d }\n",
			"  action s%d { } { function read($x) >> Foo { $x } function upsert { } }\n",
			"  workflow n%d { } { resource q%d { } { } }\n",
			"  resource d%d { type => Foo } {\n    a => f(%d), b => Foo(1), c => [g($x), { h => i(2) }], d => $e[1], f => \"x${y}\"\n  }\n",
			"  action x%d { returns => (String $a = b, $c = (d, e), Integer $f) } { function delete() >> Foo { } function read($a, $b = 1) >> Bar[%d] { $a } }\n",
			"  workflow y%d { parameters => (String *$a), returns => ($b = c) } { action z { } { function read() { } } }\n",
			"  function t%d() >> Foo[%d] { 1 }\n", "  $x%d = 1\n", "  foo%d { }\n", "  resource q%d\n", "  resource w%d { type => Foo, when => a and !b or (c) } { }\n", "  type T%d = Foo\n",
			"  resource m%d { type => Foo } $v%d = each($a, 3) |$k, $v| {\n    a => $k, b => $v\n  }\n",
			"  stateHandler h%d { } { function create($a) { $a } }\n"))
	}
	s.Text = []byte(t + "}\n")
	return s
}

func repl(r *Rand, s string) string {
	b := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+1 < len(s) && s[i+1] == 'd' {
			b = append(b, byte('1'+r.Intn(9)))
			i++
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}
