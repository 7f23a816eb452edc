package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/lyraproj/issue/issue"
	ppjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"

	"verif.local/sim/obs"
	"verif.local/sim/scen"
	"verif.local/sim/yield"
)

type demoter interface {
	Demote(code issue.Code, severity issue.Severity)
}

// env holds what the operations of one simulated goroutine (or of a sequential history) work on
type env struct {
	parsers [16]parser.ExpressionParser
	vals    [16]validator.Validator
	pvs     [16]validator.ParserValidator
	asts    [64]parser.Expression
	errs    [64]error
	issues  [64][]issue.Reported
	results [64]issue.Result
	shared  *env
	full    bool
	budget  int64
	inTask  bool
}

// boom is what aborts a visitor or a validation
type boom struct{ n int }

func options(o []int) []parser.Option {
	r := make([]parser.Option, len(o))
	for i, x := range o {
		r[i] = parser.Option(x)
	}
	return r
}

// custom is a validator of the user. It reports where nodes are.
type custom struct {
	validator.AbstractValidator
	n int
}

var codeNode = func() issue.Code {
	issue.Hard("VERIF_NODE", "%{kind} in %{up}")
	return "VERIF_NODE"
}()

func (c *custom) Clear() {
	c.AbstractValidator.Clear()
	c.n = 0
}

func (c *custom) Demote(issue.Code, issue.Severity) {}

func (c *custom) Validate(e parser.Expression) {
	if c.n++; c.n%3 != 1 {
		return
	}
	w := &obs.W{}
	p := c.ContainerOf(e)
	for k := 0; k < 4 && p != nil; k++ {
		w.Ref(p)
		w.S(" ")
		p = c.ContainerOf(p)
	}
	c.Accept(codeNode, e, issue.H{"kind": e.Label(), "up": string(w.B)})
}

func newValidator(kind string, strict int) validator.Validator {
	switch kind {
	case "custom":
		v := &custom{}
		v.Clear()
		return v
	case "tasks":
		return validator.NewTasksChecker()
	case "workflow":
		return validator.NewWorkflowChecker()
	}
	return validator.NewChecker(validator.Strictness(strict))
}

// frames returns where in the code under test the panic that is being recovered started
func frames() string {
	var r []string
	seen := false
	ls := strings.Split(string(debug.Stack()), "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			r = nil
		}
		if seen && strings.Contains(l, "lyraproj/") && !strings.HasPrefix(l, "\t") && i+1 < len(ls) {
			f := strings.Fields(ls[i+1])
			if len(f) > 0 {
				x := f[0]
				if k := strings.Index(x, "lyraproj/"); k >= 0 {
					x = x[k+9:]
				}
				r = append(r, strings.TrimPrefix(x, "/repo/"))
			}
		}
	}
	if len(r) > 4 {
		r = r[:4]
	}
	return strings.Join(r, " < ")
}

// do runs one operation
func (e *env) do(op *scen.Op) (out scen.Out) {
	if op.Rep > 0 {
		one := *op
		one.Rep = 0
		for i := 0; i < op.Rep; i++ {
			switch op.K {
			case "parse":
				one.K = "parseonly"
			case "pvparse":
				one.K = "pvparseonly"
			}
			if e.do(&one).C == "limit" {
				break
			}
		}
		one.K = op.K
		return e.do(&one)
	}
	w := &obs.W{}
	out.C = "ok"
	if !e.inTask {
		yield.StartCount(e.budget)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch x := x.(type) {
				case yield.StepLimit:
					out.C = "limit"
					w.S("\nstep budget exceeded")
				case boom:
					out.C = "aborted"
					w.S("\naborted at ").I(x.n)
				case runtime.Error:
					out.C = "panic"
					w.S("\npanic ").S(x.Error()).S(" at ").S(frames())
				case error:
					out.C = "panic"
					w.S("\npanic error ").S(x.Error())
				case string:
					out.C = "panic"
					w.S("\npanic ").S(x)
				default:
					out.C = "panic"
					w.S("\npanic of other type")
				}
			}
		}()
		if op.How == "goexit" {
			// The goroutine ends in the middle of the operation. It acts for the current task.
			done := make(chan interface{}, 1)
			go func() {
				var x interface{}
				defer func() { done <- x }()
				defer func() { x = recover() }()
				e.run(op, w, &out)
			}()
			if x := <-done; x != nil {
				panic(x)
			}
			return
		}
		e.run(op, w, &out)
	}()
	if !e.inTask {
		out.S = yield.StopCount()
	}
	out.D = obs.Digest(w.B)
	if e.full {
		out.T = string(w.B)
	}
	return
}

func (e *env) tree(op *scen.Op) parser.Expression {
	if op.Shared {
		return e.shared.asts[op.R]
	}
	return e.asts[op.R]
}

// aborting wraps a validator and ends the validation at a given node
type aborting struct {
	validator.Validator
	n, at int
	how   string
}

func (a *aborting) Validate(x parser.Expression) {
	if a.n == a.at {
		switch a.how {
		case "goexit":
			runtime.Goexit()
		case "late":
			a.Validator.Validate(x)
			panic(boom{a.n})
		default:
			panic(boom{a.n})
		}
	}
	a.n++
	a.Validator.Validate(x)
}

func nth(t parser.Expression, n int) parser.Expression {
	r := t
	i := 0
	t.AllContents(nil, func(_ []parser.Expression, x parser.Expression) {
		i++
		if i == n {
			r = x
		}
	})
	return r
}

func (e *env) run(op *scen.Op, w *obs.W, out *scen.Out) {
	switch op.K {
	case "newparser":
		e.parsers[op.I] = parser.CreateParser(options(op.Opts)...)
	case "pspec":
		e.parsers[op.I] = parser.CreatePspecParser()
	case "parse":
		x, err := e.parsers[op.I].Parse(op.File, string(op.Src), op.Single)
		e.asts[op.R], e.errs[op.R] = x, err
		e.parsed(op.R, w, out)
	case "parseonly":
		x, err := e.parsers[op.I].Parse(op.File, string(op.Src), op.Single)
		e.asts[op.R], e.errs[op.R] = x, err
		if err != nil {
			out.C = "error"
		}
	case "redump":
		e.parsed(op.R, w, out)
	case "newval":
		e.vals[op.I] = newValidator(op.Val, op.Strict)
	case "demote":
		e.vals[op.I].(demoter).Demote(issue.Code(op.Code), issue.Severity(op.Sev))
	case "validate":
		t := e.tree(op)
		if t == nil {
			out.C = "notree"
			w.S("no tree")
			return
		}
		validator.Validate(e.vals[op.I], t)
		e.issues[op.N] = e.vals[op.I].Issues()
		w.Issues(e.issues[op.N])
	case "faultvalidate":
		t := e.tree(op)
		if t == nil {
			out.C = "notree"
			w.S("no tree")
			return
		}
		validator.Validate(&aborting{e.vals[op.I], 0, op.At, op.How}, t)
	case "reissues":
		w.Issues(e.issues[op.N])
	case "newpv":
		e.parsers[op.I] = parser.CreateParser(options(op.Opts)...)
		e.vals[op.I] = newValidator(op.Val, op.Strict)
		if op.How == "fault" {
			// A validator that aborts once
			e.pvs[op.I] = validator.NewParserValidator(e.parsers[op.I], &once{Validator: e.vals[op.I], at: op.At})
		} else {
			e.pvs[op.I] = validator.NewParserValidator(e.parsers[op.I], e.vals[op.I])
		}
	case "pvparse":
		x, r := e.pvs[op.I].Parse(op.File, string(op.Src))
		e.asts[op.R], e.results[op.R], e.errs[op.R] = x, r, nil
		e.pvresult(op.R, w, out)
	case "pvparseonly":
		e.pvs[op.I].Parse(op.File, string(op.Src))
	case "pvredump":
		e.pvresult(op.R, w, out)
	case "newvalidate":
		t := e.tree(op)
		if t == nil {
			out.C = "notree"
			w.S("no tree")
			return
		}
		var v validator.Validator
		switch op.Val {
		case "tasks":
			v = validator.ValidateTasks(t)
		case "workflow":
			v = validator.ValidateWorkflow(t)
		case "custom":
			v = newValidator(op.Val, 0)
			validator.Validate(v, t)
		default:
			v = validator.ValidatePuppet(t, validator.Strictness(op.Strict))
		}
		e.issues[op.N] = v.Issues()
		w.Issues(e.issues[op.N])
	case "lex":
		lex(op, w)
	case "read":
		t := e.tree(op)
		if t == nil {
			out.C = "notree"
			w.S("no tree")
			return
		}
		e.read(op, t, w)
	case "write":
		t := e.tree(op)
		if t == nil {
			out.C = "notree"
			w.S("no tree")
			return
		}
		write(op, t, w, out)
	default:
		panic("unknown operation " + op.K)
	}
}

// once is a validator that panics a single time
type once struct {
	validator.Validator
	n, at int
	fired bool
}

func (a *once) Validate(x parser.Expression) {
	if !a.fired && a.n == a.at {
		a.fired = true
		panic(boom{a.n})
	}
	a.n++
	a.Validator.Validate(x)
}

func (e *env) parsed(r int, w *obs.W, out *scen.Out) {
	x, err := e.asts[r], e.errs[r]
	if err != nil {
		out.C = "error"
		w.Error(err)
	}
	if x != nil {
		w.Dump(x)
	} else if err == nil {
		w.S("neither tree nor error")
	}
}

func (e *env) pvresult(r int, w *obs.W, out *scen.Out) {
	if e.asts[r] == nil {
		out.C = "error"
	} else {
		w.Dump(e.asts[r])
	}
	if x := e.results[r]; x != nil {
		w.Value(x.Error())
		w.Issues(x.Issues())
	} else {
		w.S("no result")
	}
}

func lex(op *scen.Op, w *obs.W) {
	l := parser.NewSimpleLexer(op.File, string(op.Src))
	for i := 0; i < op.N; i++ {
		t := l.NextToken()
		w.I(t).S(" ")
		if t == 0 {
			break
		}
	}
	w.I(l.CurrentToken())
}

// read does one kind of reading of a tree
func (e *env) read(op *scen.Op, t parser.Expression, w *obs.W) {
	if op.N > 0 {
		t = nth(t, op.N)
	}
	switch op.Val {
	case "dump":
		w.Dump(t)
	case "tree":
		w.Tree(t)
	case "pn":
		w.S(t.ToPN().String())
	case "pns":
		t.AllContents(nil, func(_ []parser.Expression, x parser.Expression) { w.S(x.ToPN().String()).S("\n") })
	case "data":
		w.Value(t.ToPN().ToData())
	case "pnmisc":
		p := t.ToPN()
		c := p.AsCall("vx")
		w.S(c.String())
		for _, x := range p.AsParameters() {
			w.S(x.String())
			b := &bytes.Buffer{}
			x.Format(b)
			w.S(b.String())
			for _, y := range x.AsParameters() {
				w.S(y.String())
			}
			w.S(x.AsCall("w").String())
		}
		w.Value(pn.Map([]pn.Entry{p.WithName("m")}).ToData())
		for _, y := range pn.Map([]pn.Entry{p.WithName("m"), c.WithName("n")}).AsParameters() {
			w.S(y.String())
		}
		en := p.WithName("k")
		w.S(en.Key()).S(en.Value().String())
		w.S(pn.Map([]pn.Entry{en}).String())
		w.S(p.String())
	case "json":
		b := &bytes.Buffer{}
		ppjson.ToJson(t.ToPN().ToData(), b)
		w.S(b.String())
	case "labels":
		w.S(t.Label())
		t.AllContents(nil, func(_ []parser.Expression, x parser.Expression) {
			w.S(x.Label()).S(" ").S(issue.Label(x)).S(issue.AnOrA(x))
		})
	case "pos":
		w.I(t.Line()).S(":").I(t.Pos())
		t.AllContents(nil, func(_ []parser.Expression, x parser.Expression) {
			w.S(" ").I(x.Line()).S(":").I(x.Pos()).S(x.File())
			l := x.Locator()
			w.I(l.LineForOffset(x.ByteOffset() + x.ByteLength())).S(",").I(l.PosOnLine(x.ByteOffset() + x.ByteLength()))
		})
	case "strings":
		w.Q(t.String())
		t.AllContents(nil, func(_ []parser.Expression, x parser.Expression) { w.Q(x.String()) })
	case "accessors":
		w.Accessors(t)
		t.AllContents(nil, func(_ []parser.Expression, x parser.Expression) { w.Accessors(x); w.S("\n") })
	case "literal":
		v, ok := literal.ToLiteral(t)
		w.Value(ok)
		w.Value(v)
		t.AllContents(nil, func(_ []parser.Expression, x parser.Expression) {
			v, ok := literal.ToLiteral(x)
			w.Value(ok)
			w.Value(v)
		})
	case "contents":
		t.Contents(nil, func(p []parser.Expression, x parser.Expression) { w.I(len(p)); w.Ref(x) })
		t.AllContents(nil, func(p []parser.Expression, x parser.Expression) {
			w.S("\n")
			x.Contents(p, func(p []parser.Expression, x parser.Expression) { w.I(len(p)); w.Ref(x) })
		})
	case "methods":
		w.Methods(t)
		t.AllContents(nil, func(_ []parser.Expression, x parser.Expression) { w.Methods(x) })
	case "walk":
		n := 0
		t.AllContents(nil, func(p []parser.Expression, x parser.Expression) {
			if n == op.At {
				switch op.How {
				case "panic":
					panic(boom{n})
				case "goexit":
					runtime.Goexit()
				case "reenter":
					w.S("{")
					t.AllContents(p, func(p []parser.Expression, x parser.Expression) { w.I(len(p)).S(" "); w.Ref(x) })
					x.AllContents(p, func(p []parser.Expression, x parser.Expression) { w.I(len(p)).S(" "); w.Ref(x) })
					w.S("}")
				case "revalidate":
					w.Issues(validator.ValidatePuppet(t, validator.StrictError).Issues())
				case "repn":
					w.S(t.ToPN().String())
				}
			}
			n++
			for _, q := range p {
				w.I(q.ByteOffset()).S(",")
			}
			w.S(" ")
			w.Ref(x)
			w.S("\n")
		})
	case "abortval":
		validator.Validate(&aborting{newValidator(op.File, op.Strict), 0, op.At, op.How}, t)
	case "validate":
		v := newValidator(op.File, op.Strict)
		validator.Validate(v, t)
		w.Issues(v.Issues())
	default:
		panic("unknown read " + op.Val)
	}
}

// failing is the simulated writer
type pnText struct{ p pn.PN }

func (p pnText) String() string               { return p.p.String() }
func (p pnText) MarshalJSON() ([]byte, error) { return json.Marshal(p.p.ToData()) }

type failing struct {
	got    []byte
	calls  int
	atCall int // fail this call (counted from 0), or -1
	atByte int // fail the call that reaches this byte, or -1
	accept bool
	blip   bool   // fail once only
	full   bool   // fail though everything was taken
	end    string // the writer panics with its error, or ends the goroutine
	fired  int
	err    error
}

func (f *failing) Write(p []byte) (int, error) {
	i := f.calls
	f.calls++
	if f.blip && f.fired > 0 {
		f.got = append(f.got, p...)
		return len(p), nil
	}
	hit, n := false, 0
	if f.atCall >= 0 && i >= f.atCall {
		hit = true
		if f.accept {
			n = len(p) / 2
		}
	}
	if f.atByte >= 0 && len(f.got)+len(p) > f.atByte {
		hit = true
		if f.accept {
			if n = f.atByte - len(f.got); n < 0 {
				n = 0
			}
		}
	}
	if hit {
		f.fired++
		if f.full {
			n = len(p)
		}
		f.got = append(f.got, p[:n]...)
		switch f.end {
		case "panic":
			panic(f.err)
		case "exit":
			runtime.Goexit()
		}
		return n, f.err
	}
	f.got = append(f.got, p...)
	return len(p), nil
}

// errorKinds are the errors that writers of real programs return
var errorKinds = []func(k int) error{
	func(k int) error { return &writerError{fmt.Sprintf("simulated writer error %d", k)} },
	func(int) error { return io.ErrShortWrite },
	func(int) error { return io.EOF },
	func(int) error { return io.ErrClosedPipe },
	func(int) error { return os.ErrClosed },
	func(int) error { return syscall.EPIPE },
	func(int) error { return syscall.ENOSPC },
	func(int) error { return syscall.EINTR },
	func(int) error { return syscall.EAGAIN },
	func(k int) error {
		return &os.PathError{Op: "write", Path: fmt.Sprintf("/sim/%d", k), Err: syscall.EIO}
	},
	func(k int) error { return fmt.Errorf("wrapped %d: %w", k, io.ErrUnexpectedEOF) },
	func(int) error { return os.ErrDeadlineExceeded },
	func(int) error { return bytes.ErrTooLarge },
	func(int) error { return errors.New("") },
}

type writerError struct{ s string }

func (e *writerError) Error() string { return e.s }

// write exercises an output helper with failing writers and then with a healthy one
func write(op *scen.Op, t parser.Expression, w *obs.W, out *scen.Out) {
	var val interface{}
	switch op.File {
	case "data":
		val = t.ToPN().ToData()
	case "pn":
		// A PN formats itself
		val = pnText{t.ToPN()}
	case "scalar":
		val = []interface{}{1, int64(-3), 2.5, "x\n", true, nil, "", "\u2028<&>"}[op.N%8]
	case "large":
		d := t.ToPN().ToData()
		var l []interface{}
		for n := 0; n < 70000; n += 200 {
			l = append(l, d, strings.Repeat("x", 150))
		}
		val = l
	case "wrapped":
		val = map[string]interface{}{"ast": t.ToPN().ToData(), "issues": []interface{}{"a<b>&c\u2028", 1.5, nil, true}}
	case "text":
		val = t.ToPN().String()
	case "issues":
		var is []interface{}
		for _, i := range validator.ValidatePuppet(t, validator.StrictError).Issues() {
			is = append(is, pn.ReportedToPN(i).ToData())
		}
		val = is
	case "buffer":
		b := &bytes.Buffer{}
		t.ToPN().Format(b)
		val = b
	}
	// What the complete output is does not depend on the code under test
	var want string
	var call func(w *failing)
	switch op.Val {
	case "json":
		b := &bytes.Buffer{}
		en := json.NewEncoder(b)
		en.SetEscapeHTML(false)
		if err := en.Encode(val); err != nil {
			w.S("cannot be encoded")
			return
		}
		want = b.String()
		call = func(f *failing) { ppjson.ToJson(val, f) }
	case "fprintf":
		want = fmt.Sprintf("<%v|%d>\n", val, op.N)
		call = func(f *failing) { pn.Fprintf(f, "<%v|%d>\n", val, op.N) }
	case "fprintln":
		want = fmt.Sprintln(val, op.N)
		call = func(f *failing) { pn.Fprintln(f, val, op.N) }
	case "println":
		want = fmt.Sprintln(val, op.N)
		call = func(f *failing) { println1(f, op, val) }
	}
	attempt := func(f *failing) (p interface{}, panicked bool) {
		defer func() {
			if p = recover(); p != nil {
				if _, ok := p.(yield.StepLimit); ok {
					panic(p)
				}
				panicked = true
			}
		}()
		if f.end == "exit" {
			done := make(chan interface{}, 1)
			go func() {
				var x interface{}
				defer func() { done <- x }()
				defer func() { x = recover() }()
				call(f)
			}()
			if x := <-done; x != nil {
				panic(x)
			}
			return
		}
		call(f)
		return
	}
	bad := func(s string, a ...interface{}) {
		out.C = "violation"
		w.S("\nVIOLATION ").S(fmt.Sprintf(s, a...))
	}
	check := func(f *failing, name string) {
		p, panicked := attempt(f)
		w.S(fmt.Sprintf("%s calls=%d fired=%d bytes=%d panicked=%v\n", name, f.calls, f.fired, len(f.got), panicked))
		if f.fired > 0 {
			if f.end == "exit" {
				// Nobody is left to be told
			} else if !panicked {
				bad("%s with %s: the writer failed (%v) after %d of %d bytes and nothing was reported", op.Val, name, f.err, len(f.got), len(want))
			} else if err, ok := p.(error); !ok || !(err == f.err || errors.Is(err, f.err) || strings.Contains(err.Error(), f.err.Error())) {
				bad("%s with %s: panic %q instead of the error of the writer %q", op.Val, name, fmt.Sprint(p), f.err.Error())
			}
			if !strings.HasPrefix(want, string(f.got)) {
				bad("%s with %s: %q is not a prefix of the complete text %q", op.Val, name, f.got, want)
			}
		} else {
			if panicked {
				bad("%s with %s: panic %q though the writer did not fail", op.Val, name, fmt.Sprint(p))
			} else if string(f.got) != want {
				bad("%s with %s: wrote %q instead of %q", op.Val, name, f.got, want)
			}
		}
	}
	at0 := op.At + op.N
	stride := 7
	if op.I > 0 {
		stride = op.I
	}
	for k := op.Sev; k < op.Sev+op.Len; k++ {
		f := &failing{atCall: -1, atByte: -1, err: errorKinds[(at0+k*5)%len(errorKinds)](k)}
		at := op.At + k*stride
		switch op.How {
		case "call":
			f.atCall = at % 4
		case "callpart":
			f.atCall, f.accept = at%4, true
		case "callfull":
			f.atCall, f.full = at%4, true
		case "panic":
			f.atCall, f.accept, f.end = at%3, k%2 == 0, "panic"
		case "exit":
			f.atCall, f.accept, f.end = at%3, k%2 == 0, "exit"
		case "bytepart":
			f.atByte, f.accept = at%(len(want)+1), true
		case "blip":
			f.atByte, f.accept, f.blip = at%(len(want)+1), k%2 == 0, true
		default:
			f.atByte = at % (len(want) + 1)
		}
		if op.Val == "println" {
			f.end, f.full = "", false
			f.err = syscall.Errno(28)
		}
		check(f, fmt.Sprintf("fault %s/%d", op.How, at))
	}
	check(&failing{atCall: -1, atByte: -1}, "healthy writer")
	if op.Len == 0 {
		return
	}
	check(&failing{atCall: -1, atByte: -1}, "healthy writer again")
}

// println1 calls Println. Its writer is the file descriptor of the standard output, and the simulated
// system call decides what it does.
func println1(f *failing, op *scen.Op, val interface{}) {
	wr, err := os.CreateTemp("", "simrun")
	if err != nil {
		panic(err)
	}
	_ = os.Remove(wr.Name())
	saved := os.Stdout
	plan := ""
	want := fmt.Sprintln(val, op.N)
	if f.atByte >= 0 || f.atCall >= 0 {
		n := f.atByte
		if n < 0 {
			n = 0
			if f.accept {
				n = len(want) / 2
			}
		}
		if n >= len(want) {
			plan = ""
		} else if f.accept && n > 0 {
			plan = fmt.Sprintf("write:fd%d:0:short:%d;write:fd%d:1:errno:28", wr.Fd(), n, wr.Fd())
			if !f.blip {
				plan += fmt.Sprintf(";write:fd%d:2:errno:28", wr.Fd())
			}
		} else {
			plan = fmt.Sprintf("write:fd%d:0:errno:28", wr.Fd())
			if !f.blip {
				plan += fmt.Sprintf(";write:fd%d:1:errno:28", wr.Fd())
			}
		}
	}
	syscall.VerifIO("", -1, plan)
	os.Stdout = wr
	defer func() {
		os.Stdout = saved
		fired := syscall.VerifFired()
		syscall.VerifIOOff()
		st, _ := wr.Stat()
		f.got = make([]byte, st.Size())
		_, _ = wr.ReadAt(f.got, 0)
		_ = wr.Close()
		f.fired = fired
		f.calls++
	}()
	pn.Println(val, op.N)
}
