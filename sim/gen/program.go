package gen

import (
	"bytes"
	"fmt"
	"strings"
)

// Open says that a file that is cut at offset c, Lo <= c < Hi, ends inside of a construct
type Open struct {
	Lo, Hi int
	Kind   string
}

// Span of a top level statement. A heredoc that the statement contains is part of it.
type Span struct{ Start, End int }

// Program is a generated source and what is known about all of its prefixes
type Program struct {
	Source
	Opens []Open
	Stmts []Span
}

// OpenAt returns the construct that is open when the source is cut at c
func (p *Program) OpenAt(c int) string {
	k := ""
	for _, o := range p.Opens {
		if o.Lo <= c && c < o.Hi {
			if o.Kind != "?" {
				return o.Kind
			}
			k = "?"
		}
	}
	return k
}

// Complete returns the number of statements that are complete in a source cut at c, and if c is at a
// point between statements
func (p *Program) Complete(c int) (n int, between bool) {
	for n < len(p.Stmts) && p.Stmts[n].End <= c {
		n++
	}
	return n, n == len(p.Stmts) || c <= p.Stmts[n].Start
}

type bld struct {
	r       *Rand
	b       []byte
	opens   []Open
	stmts   []Span
	pending []hd
	depth   int
	budget  int
	noHd    int // heredocs cannot start here
	inEpp   bool
	opts    map[int]bool
	last    int // end of last heredoc
	label   int
	oper    int // operands of an operator
}

type hd struct {
	tag    string
	lo     int
	interp bool
}

func (b *bld) w(s string)                   { b.b = append(b.b, s...) }
func (b *bld) f(s string, a ...interface{}) { b.w(fmt.Sprintf(s, a...)) }

// in writes a construct. It is open from the end of its start token until the end of its end token
func (b *bld) in(kind, start, end string, f func()) {
	at := len(b.b)
	b.w(start)
	lo := len(b.b)
	if lo > at+1 {
		// Nothing is said about a start token that is cut itself
		b.opens = append(b.opens, Open{at + 1, lo, "?"})
	}
	f()
	b.w(end)
	b.opens = append(b.opens, Open{lo, len(b.b), kind})
}

// nl writes a line break, followed by the heredocs that start on the line
func (b *bld) nl() {
	b.w("\n")
	if len(b.pending) == 0 {
		return
	}
	p := b.pending
	b.pending = nil
	for _, h := range p {
		for n := b.r.Intn(4); n > 0; n-- {
			b.w(b.r.Pick("", "  ", "    "))
			b.w(b.r.Pick("text", "a { b", "it's \"quoted\"", "| x", "end", "åäö \\ x", "\\t\\n\\s\\r", "\\$x \\u00e5 \\u{1f600}", "a \\", "\\\\", "", "# no comment", "(", "<% x %>"))
			if h.interp && b.r.P(3) {
				b.w(b.r.Pick(" ${x}", " $y", " ${x['a']}", " ${$a + 1}"))
			}
			b.w("\n")
		}
		b.w(b.r.Pick("", "  ", "  | ", "| ", " - ", "|- ", "-"))
		b.w(h.tag)
		b.opens = append(b.opens, Open{h.lo, len(b.b), "heredoc"})
		b.last = len(b.b)
		b.w("\n")
	}
}

func (b *bld) sp() {
	switch b.r.Intn(12) {
	case 0:
		b.w("  ")
	case 1:
		if !b.inEpp {
			b.nl()
			b.w("  ")
			return
		}
		b.w(" ")
	case 2:
		b.comment()
	default:
		b.w(" ")
	}
}

func (b *bld) comment() {
	if b.r.P(2) {
		b.w(" ")
		b.in("comment", "/*", "*/", func() {
			c := b.r.Pick("", " c ", " \"x ", " { ", "*", " a\n b ", " åäö ")
			if len(b.pending) > 0 {
				// A heredoc starts after the next line break
				c = strings.Replace(c, "\n", "", 1)
			}
			b.w(c)
		})
		b.w(" ")
		return
	}
	if len(b.pending) == 0 && !b.inEpp {
		b.w(b.r.Pick(" # c", " # it's", " #{", " # åäö \"", " #"))
		b.nl()
	} else {
		b.w(" ")
	}
}

// text picks a part of a string
func (b *bld) text(ss ...string) {
	s := b.r.Pick(ss...)
	if len(b.pending) > 0 && s == "/*" {
		// The parser looks for comments between the tag of a heredoc and its text. It knows strings there, but
		// not interpolations or regular expressions
		l := b.b[bytes.LastIndexByte(b.b, '\n')+1:]
		if b.noHd > 0 || bytes.Contains(l, []byte("${")) || bytes.Contains(l, []byte("/")) {
			s = "/"
		}
	}
	b.w(s)
}

func (b *bld) ident() string {
	s := b.r.Pick("a", "b", "foo", "bar", "x", "some_name", "w")
	if b.r.P(12) {
		s = "::" + s
	}
	if b.r.P(3) {
		s += "::" + b.r.Pick("a", "b", "c_d")
	}
	return s
}

func (b *bld) variable() string {
	return "$" + b.r.Pick("a", "b", "foo", "x", "some_name", "a::b", "::top", "x1", "x_p", "a::_p", "1", "0")
}

func (b *bld) typeName() string {
	return b.r.Pick("Integer", "String", "File", "User", "Foo", "Foo::Bar", "Array", "Hash", "Optional", "Variant", "::Foo::Bar")
}

func (b *bld) list(kind, start, end string, max int, f func()) {
	b.in(kind, start, end, func() {
		n := b.r.Intn(max + 1)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.w(",")
				b.sp()
			}
			f()
		}
		if n > 0 && b.r.P(6) {
			b.w(",")
		}
		if b.r.P(8) {
			b.sp()
		}
	})
}

func (b *bld) number() {
	b.w(b.r.Pick("0", "1", "42", "017", "0x1f", "1.5", "0.25e3", "12345678", "1e5", "9223372036854775807", "0XaF", "1E3", "1.5e-3", "0.0", "0e1", "00", "2.5E+2"))
}

func (b *bld) sq() {
	b.in("single quoted string", "'", "'", func() {
		for n := b.r.Intn(3); n > 0; n-- {
			b.text("a", "b c", "\\'", "\\\\", "\"", "$x", "{", "åä", "#", "/*", " ", "\\n", "\\x")
		}
	})
}

func (b *bld) dq() {
	b.in("double quoted string", "\"", "\"", func() {
		for n := b.r.Intn(4); n > 0; n-- {
			switch b.r.Intn(4) {
			case 0:
				b.w("$" + b.r.Pick("a", "b", "foo", "x", "some_name", "a::b", "::top", "x1", "x_p"))
				b.w(" ")
			case 1:
				b.in("interpolation", "${", "}", func() {
					b.noHd++
					defer func() { b.noHd-- }()
					switch b.r.Intn(4) {
					case 0:
						b.w(b.r.Pick("a", "b", "foo", "x1", "a::b", "0"))
					case 1:
						b.interpolated()
					default:
						b.w("$")
						b.w("a + ")
						b.flat(func() { b.expr() })
					}
				})
			default:
				b.text("a", "b c", "\\\"", "\\\\", "\\n", "\\$", "\\u00e5", "\\u{1f600}", "'", "{", "}", "åä", "#", "/*", " ", "€ ",
					"\\s", "\\t\\r", "\\'", "\\x41", "\\q")
			}
		}
	})
}

// interpolated writes an expression that starts with the name of a variable without its dollar sign, or something
// else that is not the same in an interpolation
func (b *bld) interpolated() {
	switch b.r.Intn(8) {
	case 0:
		b.w("foo")
		b.list("arguments", "(", ")", 2, b.primary)
		return
	case 1:
		b.w(b.r.Pick("type", "1", "-1", "'x'", "[1, 2][0]", "$a[1]", "$1", "File['x']", "undef", "!x", "{ a => 1 }[a]", "if x { 1 } else { 2 }"))
		return
	}
	b.w(b.r.Pick("a", "foo", "a::b", "x"))
	for n := b.r.Intn(3); n > 0; n-- {
		b.in("access", "[", "]", func() { b.w(b.r.Pick("1", "'x'", "$y", "2, 3")) })
	}
	for n := b.r.Intn(3); n > 0; n-- {
		b.w("." + b.r.Pick("b", "map", "each", "type"))
		switch b.r.Intn(4) {
		case 0:
			b.list("arguments", "(", ")", 2, b.primary)
		case 1:
			b.w(" ")
			b.lambda()
		case 2:
			b.in("access", "[", "]", func() { b.w(b.r.Pick("1", "'x'")) })
		}
	}
}

// flat runs f in a place where line breaks would matter
func (b *bld) flat(f func()) {
	old := b.inEpp
	b.inEpp = true
	f()
	b.inEpp = old
}

func (b *bld) heredoc() {
	b.label++
	t := fmt.Sprintf("%s%d", b.r.Pick("END", "Tag ", "E", "EOT_"), b.label)
	q := b.r.P(3)
	tag := t
	if q {
		tag = `"` + t + `"`
	}
	tag += b.r.Pick("", "", ":json", ":txt")
	tag += b.r.Pick("", "", "/", "/L", "/tn", "/$", "/tnrsuL$")
	b.in("heredoc tag", "@(", ")", func() { b.w(tag) })
	b.pending = append(b.pending, hd{t, len(b.b), q})
}

func (b *bld) canHd() bool { return b.noHd == 0 && !b.inEpp }

func (b *bld) lambda() {
	b.in("lambda parameters", "|", "|", func() { b.params(2) })
	b.w(" ")
	if b.r.P(6) {
		b.returnType()
	}
	b.block(2)
}

func (b *bld) returnType() {
	b.w(">> " + b.typeName())
	if b.r.P(2) {
		b.in("type parameters", "[", "]", func() { b.w(b.r.Pick("1", "1, 2", "String")) })
	}
	b.w(" ")
}

func (b *bld) params(max int) {
	n := b.r.Intn(max + 1)
	def := false
	for i := 0; i < n; i++ {
		if i > 0 {
			b.w(", ")
		}
		if b.r.P(3) {
			b.w(b.typeName())
			if b.r.P(2) {
				b.list("type parameters", "[", "]", 2, func() { b.w(b.r.Pick("1", "2", "String", "'a'", "default", "Integer[1]")) })
			}
			b.w(" ")
		}
		if i == n-1 && !def && b.r.P(5) {
			b.w("*")
		}
		b.w("$" + b.r.Pick("p", "q", "z") + fmt.Sprint(i))
		if def || b.r.P(4) {
			def = true
			b.w(" = ")
			b.primary()
		}
	}
}

func (b *bld) block(max int) {
	b.in("block", "{", "}", func() {
		b.depth++
		n := b.r.Intn(max + 1)
		if b.depth > 4 || b.budget <= 0 {
			n = b.r.Intn(2)
		}
		b.w(" ")
		for i := 0; i < n; i++ {
			b.stmt(false)
			if b.inEpp {
				b.w("; ")
			} else {
				if b.r.P(8) {
					b.w(b.r.Pick(";", " ;"))
				}
				b.nl()
			}
		}
		b.depth--
	})
}

func (b *bld) primary() {
	b.budget--
	if b.depth > 4 || b.budget <= 0 {
		switch b.r.Intn(4) {
		case 0:
			b.number()
		case 1:
			b.w(b.variable())
		case 2:
			b.sq()
		default:
			b.w(b.r.Pick("true", "false", "undef", "default", "bare"))
		}
		return
	}
	b.depth++
	defer func() { b.depth-- }()
	switch b.r.Intn(28) {
	case 0:
		b.w(b.r.Pick("", "", "-", "+"))
		b.number()
	case 1:
		b.number()
	case 2, 3, 4:
		b.w(b.variable())
	case 5, 6:
		b.sq()
	case 7, 8, 9:
		b.dq()
	case 10:
		b.w(b.r.Pick("true", "false", "undef", "default", "bare", "word-with", "a::b"))
		if b.b[len(b.b)-1] == 'h' {
			b.w("x")
		}
	case 11:
		b.list("array", "[", "]", 3, b.arg)
	case 12:
		b.hash()
	case 13:
		b.in("parentheses", "(", ")", b.expr)
	case 14:
		b.w(b.variable())
		b.in("access", "[", "]", b.expr)
		if b.r.P(3) {
			b.in("access", "[", "]", func() { b.w(b.r.Pick("0", "'k'", "1, 2")) })
		}
	case 15:
		b.w(b.typeName())
		if b.r.P(2) {
			b.in("type parameters", "[", "]", func() { b.w(b.r.Pick("1", "1, 2", "'x'", "String", "Integer[0], default")) })
		}
	case 16:
		b.w(b.ident())
		b.list("arguments", "(", ")", 3, b.arg)
		if b.r.P(4) {
			b.w(" ")
			b.lambda()
		}
	case 17:
		b.w(b.variable() + "." + b.r.Pick("each", "map", "filter", "foo"))
		if b.r.P(2) {
			b.list("arguments", "(", ")", 2, b.expr)
		}
		if b.r.P(2) {
			b.w(" ")
			b.lambda()
		}
	case 18:
		if b.canHd() {
			b.heredoc()
		} else {
			b.sq()
		}
	case 19:
		paren := b.r.P(2)
		if paren {
			b.in("parentheses", "(", ")", b.selector)
		} else if b.oper == 0 {
			b.selector()
		} else {
			b.sq()
		}
	case 20:
		b.w(b.r.Pick("!", "-") + b.variable())
	case 21:
		if b.opts[1] {
			b.in("backticked string", "`", "`", func() {
				if len(b.pending) > 0 {
					b.w("x")
				} else {
					b.w(b.r.Pick("a", "x\ny", "it's", "\\"))
				}
			})
		} else {
			b.sq()
		}
	case 22, 23:
		// A chain of calls
		switch b.r.Intn(5) {
		case 0:
			b.sq()
		case 1:
			b.w(b.typeName())
		case 2:
			b.list("array", "[", "]", 2, b.arg)
		case 3:
			b.w(b.variable())
			b.in("access", "[", "]", func() { b.w(b.r.Pick("0", "'k'", "1, 2")) })
		default:
			b.w(b.variable())
		}
		for n := 1 + b.r.Intn(3); n > 0; n-- {
			b.w("." + b.r.Pick("each", "map", "new", "type", "a::b", "foo"))
			if b.r.P(2) {
				b.list("arguments", "(", ")", 2, b.arg)
			}
			if b.r.P(4) {
				b.w(" ")
				b.lambda()
			}
		}
	case 24:
		b.w(b.r.Pick("attr", "private", "::a::b", "::Foo", "$1", "word-two", "Some::Type"))
		if b.b[len(b.b)-1] == 'e' {
			b.in("arguments", "(", ")", func() { b.w(b.r.Pick("", "1", "$a")) })
		}
	case 25:
		b.in("parentheses", "(", ")", func() {
			switch b.r.Intn(4) {
			case 0:
				b.w("if ")
				b.cond()
				b.w(" ")
				b.block(1)
				b.w(" else ")
				b.block(1)
			case 1:
				b.w(b.variable() + " = ")
				b.expr()
			case 2:
				b.w(b.r.Pick("File", "User"))
				b.in("access", "[", "]", b.sq)
				b.w(b.r.Pick(" -> ", " ~> ", " <- ", " <~ "))
				b.w("Foo")
				b.in("access", "[", "]", b.sq)
			default:
				b.regex()
			}
		})
	case 26:
		b.w(b.variable())
		b.in("access", "[", "]", b.arg)
	case 27:
		b.in("parentheses", "(", ")", func() {
			b.w(b.r.Pick("File", "User") + " ")
			if b.r.P(2) {
				b.in("collector", "<|", "|>", func() { b.w(" "); b.query(1); b.w(" ") })
			} else {
				b.in("exported collector", "<<|", "|>>", func() { b.w(" "); b.query(1); b.w(" ") })
			}
		})
	}
}

// hash writes a hash with braces
func (b *bld) hash() {
	b.list("hash", "{", "}", 3, func() {
		b.hashKey()
		b.w(b.r.Pick(" => ", " => ", "=>"))
		if b.r.P(12) {
			b.w(b.r.Pick("type", "function", "site"))
		} else {
			b.expr()
		}
	})
}

func (b *bld) hashKey() {
	switch b.r.Intn(8) {
	case 0:
		b.w(b.r.Pick("type", "function", "application", "consumes", "produces", "site"))
	case 1:
		b.w(b.variable())
	case 2:
		b.w(b.r.Pick("type", "site", "function"))
		b.in("arguments", "(", ")", func() { b.w(b.r.Pick("", "1", "'a', $b")) })
	case 3:
		b.dq()
	case 4:
		b.anyKey()
	default:
		b.key()
	}
}

// anyKey writes a key that is an expression with something inside
func (b *bld) anyKey() {
	if b.depth > 4 || b.budget <= 0 {
		b.key()
		return
	}
	switch b.r.Intn(5) {
	case 0:
		if b.canHd() {
			b.heredoc()
			return
		}
		b.dq()
	case 1:
		b.depth++
		b.list("array", "[", "]", 2, b.arg)
		b.depth--
	case 2:
		b.w("f() ")
		b.in("lambda parameters", "|", "|", func() { b.w("$k") })
		b.w(" ")
		b.label++
		b.in("block", "{", "}", func() { b.f(" function g%d() { 1 } ", b.label) })
	case 3:
		b.in("parentheses", "(", ")", b.primary)
	default:
		b.w(b.variable())
		b.in("access", "[", "]", b.primary)
	}
}

// arg writes an argument of a call, an element of an array or a key of an access
func (b *bld) arg() {
	switch b.r.Intn(12) {
	case 0:
		b.w("*" + b.variable())
	case 1, 2:
		b.hashKey()
		b.w(" => ")
		b.expr()
	case 3:
		b.w(b.r.Pick("type", "function", "application", "consumes", "produces", "site"))
		if b.r.P(2) {
			b.in("arguments", "(", ")", func() { b.w(b.r.Pick("", "1", "'a', $b")) })
		}
	case 4:
		b.regex()
	case 5:
		b.w("*")
		b.in("array", "[", "]", func() { b.w(b.r.Pick("", "1, 2", "$x")) })
	default:
		b.expr()
	}
}

func (b *bld) selector() {
	o := b.oper
	b.oper = 0
	defer func() { b.oper = o }()
	b.w(b.variable() + " ? ")
	if b.r.P(5) {
		b.key()
		b.w(" => ")
		b.primary()
		return
	}
	b.in("selector", "{", "}", func() {
		b.w(" ")
		for i := 1 + b.r.Intn(2); i > 0; i-- {
			if b.r.P(4) {
				b.regex()
			} else if b.r.P(6) {
				b.anyKey()
			} else {
				b.key()
			}
			b.w(" => ")
			b.primary()
			b.w(", ")
		}
		b.w("default => ")
		b.primary()
		b.w(" ")
	})
}

func (b *bld) key() {
	b.w(b.r.Pick("a", "'b'", "\"c\"", "1", "title", "'å'"))
}

func (b *bld) regex() {
	b.in("regular expression", "/", "/", func() {
		b.w(b.r.Pick("a", "[a-z]+", "\\/x", "a\\\\", "^x$", "(a|b)", "é", "'", "\""))
	})
}

func (b *bld) expr() {
	if b.depth > 4 || b.budget <= 0 || !b.r.P(3) {
		b.primary()
		return
	}
	if b.r.P(6) {
		b.w(b.variable() + b.r.Pick(" =~ ", " !~ "))
		b.regex()
		return
	}
	b.oper++
	defer func() { b.oper-- }()
	if b.r.P(8) {
		b.w(b.r.Pick("$a", "4", "$b", "Foo") + " / ")
	}
	b.primary()
	for n := 1 + b.r.Intn(2); n > 0; n-- {
		b.w(b.r.Pick(" + ", " - ", " * ", " % ", " == ", " != ", " < ", " > ", " <= ", " >= ", " and ", " or ", " in ", " << ", " >> "))
		b.primary()
	}
}

func (b *bld) attrs(max int) {
	n := b.r.Intn(max + 1)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.w(",")
			b.sp()
		}
		if b.r.P(8) {
			b.w("* => " + b.variable())
		} else {
			b.w(b.r.Pick("ensure", "mode", "owner", "type", "if", "content") + b.r.Pick(" => ", " => ", "=>", " +> "))
			b.expr()
		}
	}
	if n > 0 && b.r.P(2) {
		b.w(",")
	}
}

func (b *bld) override(max int) {
	for i, n := 0, 1+b.r.Intn(max); i < n; i++ {
		if i > 0 {
			b.w(", ")
		}
		b.w(b.r.Pick("ensure", "mode", "owner", "content") + b.r.Pick(" => ", "=>", " +> "))
		b.expr()
	}
}

func (b *bld) resourceBody() {
	b.w(" ")
	switch b.r.Intn(8) {
	case 0, 1:
		b.dq()
	case 2, 3:
		b.list("array", "[", "]", 2, b.sq)
	case 4:
		b.w(b.variable())
	case 5:
		b.anyKey()
	default:
		b.sq()
	}
	b.w(":")
	b.sp()
	b.attrs(3)
}

func (b *bld) query(d int) {
	if d > 0 && b.r.P(3) {
		b.in("query", "(", ")", func() { b.query(d - 1) })
	} else {
		b.w(b.r.Pick("title", "tag", "ensure", "a") + b.r.Pick(" == ", " != "))
		b.w(b.r.Pick("'x'", "$a", "1", "present"))
	}
	if d > 0 && b.r.P(2) {
		b.w(b.r.Pick(" and ", " or "))
		b.query(d - 1)
	}
}

// step writes a step of a workflow
func (b *bld) step(style string, d int) {
	b.w(style + " " + b.r.Pick("a", "foo", "some_name", "w") + " ")
	b.in("step properties", "{", "}", func() {
		b.w(" ")
		for n := b.r.Intn(4); n > 0; n-- {
			switch b.r.Intn(4) {
			case 0:
				b.w("parameters => ")
				b.in("parameters", "(", ")", func() { b.params(3) })
			case 1:
				b.w("returns => ")
				b.in("returns", "(", ")", func() {
					b.w(b.r.Pick("$x", "String $x", "$x, $y", "Integer $n, String $z", "$x, $y,", "", "$x = a"))
					if b.b[len(b.b)-1] == 'a' {
						b.w(", String $w = ")
						b.in("aliases", "(", ")", func() { b.w(b.r.Pick("", "a", "a, b", "type, if, x")) })
					}
				})
			case 2:
				b.w(b.r.Pick("type", "when", "guard") + " => ")
				b.w(b.r.Pick("Foo::Bar", "true", "'x'", "x"))
			default:
				b.w(b.r.Pick("when", "iteration", "other") + " => ")
				b.primary()
			}
			if n > 1 || b.r.P(4) {
				b.w(",")
				b.sp()
			}
		}
	})
	b.w(" ")
	if b.r.P(4) {
		if b.r.P(3) {
			b.w("$it = ")
		}
		b.w(b.r.Pick("times", "each", "range"))
		b.in("iteration parameters", "(", ")", func() { b.params(2) })
		b.w(" ")
		b.in("iteration variables", "|", "|", func() { b.w(b.r.Pick("$i", "$k, $v", "Integer $i")) })
		b.w(" ")
	}
	switch style {
	case "workflow":
		b.in("workflow", "{", "}", func() {
			b.w(" ")
			for n := b.r.Intn(4); n > 0 && d > 0; n-- {
				if b.r.P(5) {
					b.w("function " + b.r.Pick("read", "delete", "foo"))
					b.in("parameters", "(", ")", func() { b.params(2) })
					b.w(" ")
					b.block(2)
				} else {
					b.step(b.r.Pick("resource", "resource", "action", "workflow", "stateHandler"), d-1)
				}
				b.w(b.r.Pick(" ", "", "  # c"))
				b.nl()
			}
		})
	case "resource":
		b.in("resource state", "{", "}", func() {
			b.w(" ")
			for n := b.r.Intn(4); n > 0; n-- {
				b.w(b.r.Pick("a", "mode", "type") + " => ")
				b.primary()
				b.w(",")
				b.sp()
			}
		})
	default:
		b.block(2)
	}
}

func (b *bld) stmt(top bool) {
	b.budget--
	if top && b.opts[4] && b.r.P(3) {
		b.step(b.r.Pick("workflow", "workflow", "resource", "action"), 2)
		return
	}
	n := b.r.Intn(44)
	if !top && (n == 8 || n >= 13 && n <= 18 || n >= 30 && n <= 34) || b.inEpp && n > 7 {
		n = b.r.Intn(8)
	}
	switch n {
	case 0, 1, 2:
		b.w(b.variable() + " = ")
		b.expr()
	case 3:
		b.w(b.r.Pick("notice", "foo", "a::b", "fail"))
		b.list("arguments", "(", ")", 3, b.arg)
	case 4:
		b.w(b.r.Pick("include", "require", "contain", "tag") + " ")
		b.w(b.ident())
		for b.r.P(3) {
			b.w(", " + b.ident())
		}
	case 5:
		b.w(b.r.Pick("notice", "warning", "err", "info") + " ")
		b.dq()
	case 6, 19:
		b.w(b.r.Pick("if", "unless") + " ")
		unless := b.b[len(b.b)-2] == 's'
		b.cond()
		b.w(" ")
		b.block(2)
		if !unless {
			for b.r.P(3) {
				b.w(" elsif ")
				b.cond()
				b.w(" ")
				b.block(1)
			}
		}
		if b.r.P(2) {
			b.w(" else ")
			b.block(1)
		}
	case 7:
		b.w(b.variable() + ".each")
		if b.r.P(3) {
			b.list("arguments", "(", ")", 2, b.expr)
		}
		b.w(" ")
		b.lambda()
	case 8:
		b.w("class " + b.ident())
		if b.r.P(2) {
			b.w(" ")
			b.in("parameters", "(", ")", func() { b.params(3) })
		}
		if b.r.P(4) {
			b.w(" inherits ")
			if b.r.P(6) {
				b.w("default")
			} else {
				b.w(b.ident())
			}
		}
		b.w(" ")
		b.block(3)
	case 9, 10, 20, 21:
		b.w(b.r.Pick("", "", "", "@", "@@") + b.r.Pick("file", "user", "foo::bar", "notify", "class", "::foo") + " ")
		b.in("resource", "{", "}", func() {
			b.resourceBody()
			for b.r.P(4) {
				b.w(";")
				b.sp()
				b.resourceBody()
			}
			if b.r.P(5) {
				b.w(";")
			}
			b.w(" ")
		})
	case 11:
		b.w(b.r.Pick("File", "User", "Foo::Bar"))
		if b.r.P(2) {
			b.in("access", "[", "]", b.sq)
		}
		b.w(" ")
		b.in("attributes", "{", "}", func() { b.w(" "); b.override(2); b.w(" ") })
	case 12, 22:
		b.w(b.r.Pick("File", "User", "Foo::Bar") + " ")
		q := func() {
			b.w(" ")
			if !b.r.P(4) {
				b.query(2)
			}
			b.w(" ")
		}
		if b.r.P(2) {
			b.in("collector", "<|", "|>", q)
		} else {
			b.in("exported collector", "<<|", "|>>", q)
		}
		if b.r.P(3) {
			b.w(" ")
			b.in("attributes", "{", "}", func() { b.w(" "); b.override(2); b.w(" ") })
		}
	case 13:
		b.w("define " + b.ident() + " ")
		if b.r.P(2) {
			b.in("parameters", "(", ")", func() { b.params(3) })
			b.w(" ")
		}
		b.block(3)
	case 14:
		b.w("node ")
		b.w(b.r.Pick("default", "'a.b'", "a.b.c", "'x', \"y\"", "foo, default", "192.168.0.1", "a.Foo.b2", "7"))
		if b.r.P(3) {
			b.w(", ")
			b.regex()
		}
		if b.r.P(6) {
			b.w(", ")
			b.dq()
		}
		if b.r.P(4) {
			b.w(" inherits " + b.r.Pick("default", "x.y", "'z'", "/x/"))
			b.w(" ")
		} else {
			b.w(b.r.Pick(" ", " ", " ", ", "))
		}
		b.block(2)
	case 15:
		b.w("function " + b.ident())
		b.in("parameters", "(", ")", func() { b.params(3) })
		if b.r.P(3) {
			b.w(" ")
			b.returnType()
		} else {
			b.w(" ")
		}
		b.block(3)
	case 16:
		b.w("type Foo::" + strings.TrimPrefix(b.typeName(), "::") + " = ")
		b.w(b.r.Pick("Variant", "Tuple", "Foo::Q"))
		b.in("type parameters", "[", "]", func() { b.w(b.r.Pick("String", "Integer[1, 2], String", "'a'", "Struct[{a => Integer}]")) })
	case 30, 31:
		b.typeDef()
	case 32, 33, 34:
		b.w(b.r.Pick("Foo", "foo", "attr", "private", "Foo::Bar"))
		if b.r.P(5) {
			b.in("access", "[", "]", b.sq)
		}
		b.w(b.r.Pick(" produces ", " consumes ") + b.r.Pick("Sql", "sql", "Foo::Cap") + " ")
		b.in("capability mapping", "{", "}", func() { b.w(" "); b.attrs(3); b.w(" ") })
	case 35:
		b.w(b.r.Pick("notice", "include", "debug", "realize"))
		b.w(b.r.Pick(" ", ""))
		b.list("array", "[", "]", 3, b.arg)
	case 36:
		b.w(b.r.Pick("notice", "warning", "info") + " ")
		b.hashArg()
	case 37:
		b.w(b.variable() + " -= ")
		b.expr()
	case 38:
		b.w(b.r.Pick("realize", "notice", "err") + " ")
		b.w(b.r.Pick("$a", "File", "User"))
		b.in("access", "[", "]", b.sq)
		if b.r.P(2) {
			b.w(", ")
			b.expr()
		}
	case 39:
		b.w(b.variable() + " = " + b.variable() + " = ")
		b.expr()
	case 40:
		b.w(b.r.Pick("@", "@@", "") + "Resource")
		b.in("access", "[", "]", b.sq)
		b.w(" ")
		b.in("attributes", "{", "}", func() { b.w(" "); b.override(2); b.w(" ") })
	case 41:
		for i, n := 0, 2+b.r.Intn(2); i < n; i++ {
			if i > 0 {
				b.w(b.r.Pick(" -> ", " ~> ", " <- ", " <~ "))
			}
			b.w(b.r.Pick("file", "user", "class") + " ")
			b.in("resource", "{", "}", func() { b.resourceBody(); b.w(" ") })
		}
	case 42:
		b.w(b.variable() + " = ")
		b.selector()
	case 43:
		b.w(b.r.Pick("attr", "private") + " + ")
		b.primary()
	case 17:
		if b.opts[3] {
			b.w("plan " + b.ident())
			if !b.r.P(4) {
				b.in("parameters", "(", ")", func() { b.params(2) })
			}
			b.w(" ")
			if b.r.P(4) {
				b.returnType()
			}
			b.block(3)
		} else {
			b.w("site ")
			b.block(2)
		}
	case 18:
		b.w("application " + b.ident() + " ")
		b.in("parameters", "(", ")", func() { b.params(2) })
		b.w(" ")
		b.block(2)
	case 23, 24:
		b.w("case ")
		b.expr()
		b.w(" ")
		b.in("case", "{", "}", func() {
			for i := 1 + b.r.Intn(3); i > 0; i-- {
				b.w(" ")
				switch b.r.Intn(4) {
				case 0:
					b.regex()
				case 1:
					b.w("default")
				case 2:
					b.w("1, ")
					if b.r.P(4) {
						b.anyKey()
					} else {
						b.sq()
					}
				default:
					b.sq()
				}
				b.w(": ")
				b.block(2)
				b.nl()
			}
		})
	case 25:
		b.w(b.r.Pick("File", "User"))
		b.in("access", "[", "]", b.sq)
		for n := 1 + b.r.Intn(2); n > 0; n-- {
			b.w(b.r.Pick(" -> ", " ~> ", " <- ", " <~ "))
			b.w(b.r.Pick("File", "Foo"))
			b.in("access", "[", "]", b.sq)
		}
	case 26:
		b.w(b.variable() + " += ")
		b.list("array", "[", "]", 3, b.expr)
	case 27:
		b.w(b.r.Pick("with", "each", "foo"))
		b.list("arguments", "(", ")", 2, b.expr)
		b.w(" ")
		b.lambda()
	case 28:
		b.in("array", "[", "]", func() { b.w("$a, $b") })
		b.w(" = ")
		b.expr()
	default:
		b.w(b.variable() + " = ")
		b.w(b.r.Pick("if", "unless") + " ")
		b.cond()
		b.w(" ")
		b.block(1)
		b.w(" else ")
		b.block(1)
	}
}

// typeDef writes the definition of a type
func (b *bld) typeDef() {
	b.w("type Foo::" + b.r.Pick("A", "B::C"))
	body := func() {
		b.hash()
	}
	switch b.r.Intn(8) {
	case 0:
		b.in("type parameters", "[", "]", func() { b.w(b.r.Pick("'a'", "1, 2", "/(.*)/, 'x'")) })
		b.w(" = ")
		b.w(b.typeName())
		if b.r.P(2) {
			b.in("type parameters", "[", "]", b.arg)
		}
	case 1, 2:
		b.w(b.r.Pick(" = Object ", " = TypeSet ", " = Foo::Parent "))
		body()
	case 3:
		b.w(" = ")
		body()
	case 4:
		b.w(" = ")
		b.in("array", "[", "]", func() { b.w(" "); body(); b.w(" ") })
	case 5:
		b.w(" = " + b.r.Pick("Object", "TypeSet"))
		b.in("type parameters", "[", "]", func() { body() })
	case 6:
		b.w(" inherits " + b.typeName() + " ")
		b.block(2)
	default:
		b.w(" ")
		b.block(2)
	}
}

// hashArg writes a hash that is the argument of a statement call, which possibly contains one more
func (b *bld) hashArg() {
	b.in("hash", "{", "}", func() {
		b.w(" ")
		for i, n := 0, 1+b.r.Intn(2); i < n; i++ {
			if i > 0 {
				b.w(", ")
			}
			// The first key is read as the title of a resource first, which cannot be a keyword
			if i == 0 && b.depth < 3 && b.r.P(4) {
				b.depth++
				b.w("notice ")
				b.hashArg()
				b.depth--
			} else if i == 0 && b.r.P(3) {
				b.anyKey()
			} else if i == 0 {
				b.key()
			} else {
				b.hashKey()
			}
			b.w(" => ")
			b.expr()
		}
		b.w(" ")
	})
}

func (b *bld) cond() {
	switch b.r.Intn(4) {
	case 0:
		b.w(b.variable())
	case 1:
		b.w(b.variable() + " == ")
		b.sq()
	case 2:
		b.w(b.variable() + " =~ ")
		b.regex()
	default:
		b.in("parentheses", "(", ")", b.expr)
	}
}

// Puppet generates a manifest
func Puppet(r *Rand) *Program { return puppet(r, 8+r.Intn(60), 0) }

// Big generates a manifest of at least the given size
func Big(r *Rand, size int) *Program { return puppet(r, 20, size) }

func puppet(r *Rand, budget, size int) *Program {
	b := &bld{r: r, budget: budget, opts: map[int]bool{}}
	p := &Program{}
	p.File = "/src/gen.pp"
	for _, o := range []int{1, 2, 3, 4} {
		if r.P(3) {
			b.opts[o] = true
			p.Opts = append(p.Opts, o)
		}
	}
	if r.P(4) {
		b.comment()
	}
	for n := 1 + r.Intn(5); n > 0 || len(b.b) < size; n-- {
		s := len(b.b)
		b.last = 0
		if size > 0 {
			b.budget = budget
		}
		if b.r.P(12) {
			s = len(b.b)
		}
		b.stmt(true)
		e := len(b.b)
		b.nl()
		if b.last > e {
			e = b.last
		}
		b.stmts = append(b.stmts, Span{s, e})
		switch r.Intn(5) {
		case 0:
			b.nl()
		case 1:
			b.comment()
			b.nl()
		case 2:
			b.w("  ")
		}
	}
	if r.P(4) {
		for len(b.b) > 0 && (b.b[len(b.b)-1] == '\n' || b.b[len(b.b)-1] == ' ') && len(b.b) > b.stmts[len(b.stmts)-1].End {
			b.b = b.b[:len(b.b)-1]
		}
	}
	p.Text, p.Opens, p.Stmts = b.b, b.opens, b.stmts
	return p
}

// Epp generates a template
func Epp(r *Rand) *Program {
	b := &bld{r: r, budget: 5 + r.Intn(30), opts: map[int]bool{}, inEpp: true}
	p := &Program{}
	p.Opts = []int{5}
	p.File = "/src/gen.epp"
	if r.P(2) {
		b.in("EPP tag", r.Pick("<%", "<%-"), r.Pick("%>", "-%>"), func() {
			b.w(" ")
			b.in("EPP parameters", "|", "|", func() { b.w(" "); b.params(3); b.w(" ") })
			b.w(" ")
		})
		b.w(r.Pick("\n", "", " "))
	}
	b.eppText(2 + r.Intn(4))
	p.Text, p.Opens = b.b, b.opens
	return p
}

// eppStmt writes what can be in a tag at the top of a template. The parser takes expressions only
func (b *bld) eppStmt() {
	switch b.r.Intn(4) {
	case 0:
		b.w(b.r.Pick("foo", "a::b"))
		b.list("arguments", "(", ")", 3, b.expr)
	case 1:
		b.w(b.variable() + ".each ")
		b.lambda()
	case 2:
		b.w("if ")
		b.cond()
		b.w(" ")
		b.block(2)
	default:
		// An expression that starts with a bracket would continue the one before it
		b.in("parentheses", "(", ")", b.expr)
	}
}

func (b *bld) eppText(n int) {
	for ; n > 0; n-- {
		b.w(b.r.Pick("text", "\n", "  ", "a < b", "100 %", "åäö", "\"x\"", "", "<%% x ", "{", "}", " %%> ", "it's\n"))
		switch b.r.Intn(6) {
		case 0:
			b.in("EPP comment", "<%#", b.r.Pick("%>", "-%>"), func() { b.w(b.r.Pick(" c ", "", " it's ", " { ")) })
		case 1:
			b.in("EPP expression", "<%=", b.r.Pick("%>", " -%>"), func() { b.w(" "); b.expr(); b.w(" ") })
		case 2, 3:
			b.in("EPP tag", b.r.Pick("<%", "<%-"), b.r.Pick("%>", "-%>"), func() { b.w(" "); b.eppStmt(); b.w(" ") })
		case 4:
			if b.depth > 2 {
				break
			}
			b.depth++
			lo, lambda := 0, false
			b.in("EPP tag", "<%", b.r.Pick("%>", "-%>"), func() {
				if lambda = b.r.P(3); lambda {
					b.w(" " + b.variable() + ".each ")
					b.in("lambda parameters", "|", "|", func() { b.params(2) })
				} else {
					b.w(" if ")
					b.cond()
				}
				b.w(" {")
				lo = len(b.b)
				b.w(" ")
			})
			b.eppText(1)
			for !lambda && b.r.P(3) {
				b.in("EPP tag", b.r.Pick("<%", "<%-"), b.r.Pick("%>", "-%>"), func() {
					b.w(" }")
					b.opens = append(b.opens, Open{lo, len(b.b), "block"})
					if lambda = b.r.P(2); lambda {
						b.w(" else {")
					} else {
						b.w(" elsif ")
						b.cond()
						b.w(" {")
					}
					lo = len(b.b)
					b.w(" ")
				})
				b.eppText(1)
			}
			b.in("EPP tag", b.r.Pick("<%", "<%-"), b.r.Pick("%>", "-%>"), func() {
				b.w(" }")
				b.opens = append(b.opens, Open{lo, len(b.b), "block"})
				b.w(" ")
			})
			b.depth--
		}
	}
	b.w(b.r.Pick("\n", "", "end\n", " "))
}

// Any generates a source of any kind
func Any(r *Rand) Source {
	switch r.Intn(8) {
	case 0:
		return Epp(r).Source
	case 1, 2, 3:
		return Puppet(r).Source
	case 4:
		if r.P(3) {
			return Workflow(r)
		}
		return Issues(r)
	}
	c := Corpus()
	s := c[r.Intn(len(c))]
	return s
}

// Kinds of the constructs that are open somewhere in the program
func (p *Program) Kinds() string {
	m := map[string]bool{}
	var ks []string
	for _, o := range p.Opens {
		if !m[o.Kind] {
			m[o.Kind] = true
			ks = append(ks, o.Kind)
		}
	}
	return strings.Join(ks, ",")
}
