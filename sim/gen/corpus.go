package gen

import (
	_ "embed"
	"encoding/json"
	"sync"
)

//go:embed corpus.json
var corpusJSON []byte

// Parser options by number: 1 backticks, 2 hex escapes, 3 tasks, 4 workflow, 5 EPP
type Source struct {
	Text []byte
	Opts []int
	File string
}

type entry struct {
	Src string `json:"s"`
	Epp bool   `json:"e"`
	Wf  bool   `json:"w"`
	Tsk bool   `json:"t"`
	One bool   `json:"o"`
}

var (
	corpus []Source
	once   sync.Once
)

// Corpus returns the sources found in the tests of the repository
func Corpus() []Source {
	once.Do(func() {
		var es []entry
		if err := json.Unmarshal(corpusJSON, &es); err != nil {
			panic(err)
		}
		for _, e := range es {
			s := Source{Text: []byte(e.Src), File: "/src/manifest.pp"}
			if e.Tsk {
				s.Opts = append(s.Opts, 3)
			}
			if e.Wf {
				s.Opts = append(s.Opts, 4)
			}
			if e.Epp {
				s.Opts = append(s.Opts, 5)
				s.File = "/src/template.epp"
			}
			corpus = append(corpus, s)
		}
		corpus = append(corpus, extra...)
	})
	return corpus
}

// Sources that combine features the tests keep apart
var extra = []Source{
	{Text: []byte("class a::b(String $x = 'y', $z = $x) inherits a::c {\n  file { \"/tmp/${x}\":\n    ensure => file,\n    content => @(\"END\"/L)\n      hello ${x} \\\n      world\n      | END\n  }\n  File <| title == 'x' |> { mode => '0644' }\n}\n"), File: "/src/manifest.pp"},
	{Text: []byte("node 'a.b', /x+/, default { include foo, bar }\ndefine x($a, *$b) { notice \"$a ${b[0].foo} ${$a.map |$q| { $q + 1 }}\" }\n"), File: "/src/manifest.pp"},
	{Text: []byte("function f::g(Integer[1,2] $a, *$r) >> String { $a ? { 1 => 'one', /t.o/ => 'two', default => undef } }\ntype F::G = Variant[String, Array[Integer]]\n"), File: "/src/manifest.pp"},
	{Text: []byte("$x = [1, 0x1f, 017, 1.5e3, -2, 'a', \"b\\u{1f600}\", true, undef, default, { a => 1, 'b' => [2] }]\nunless $x =~ /re\\/x/ and !$x[0] or 1 in $x { fail('x') } else { 3 }\n"), File: "/src/manifest.pp"},
	{Text: []byte("$a = @(A/tnrsuL$)\n  one \\t \\n $x ${y}\n  | A\n$b = @(B:json)\n{\"a\": 1}\nB\nnotice(@(C), @(\"D\"))\nc\nC\n d ${1+2}\n -D\n"), File: "/src/manifest.pp"},
	{Text: []byte("<%- | String $a = 'x', $b | -%>\nhello <%= $a %>\n<% if $b { -%>\n yes <%% <%# comment %>\n<% } else { %> no <% } %>\ntail\n"), Opts: []int{5}, File: "/src/template.epp"},
	{Text: []byte("# comment åäö\n/* block\n comment */ plan p($a) { run_task('x', $a) |$r| { $r } }\n"), Opts: []int{3}, File: "/src/manifest.pp"},
	{Text: []byte("@user { 'a': uid => 1; 'b': * => $h }\n@@user { ['c', 'd']: ensure +> present }\nUser['a'] { uid => 2 }\nUser { uid => 3 }\nUser <<| tag == 'x' and (a != b or c == d) |>> -> User['a'] ~> User['b'] <- User['c'] <~ User['d']\n"), File: "/src/manifest.pp"},
	{Text: []byte("workflow w {\n  parameters => (String $a = 'x'),\n  returns => (String $b)\n} {\n  resource r {\n    type => Foo\n  } {\n    a => $a\n  }\n  action c { parameters => ($x), returns => ($y) } { notice(1) }\n}\n"), Opts: []int{4}, File: "/src/manifest.pp"},
	{Text: []byte("notice `back tick`\n$v = \"\\x41\"\n"), Opts: []int{1, 2}, File: "/src/manifest.pp"},
}
