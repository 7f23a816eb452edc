package main

import (
	"encoding/json"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"

	"verif.local/sim/scen"
)

// cliModel composes parser and validator as the documentation of the parse command says, without any
// input or output
func cliModel(j *scen.CliJob) (out scen.CliOut) {
	var opts []parser.Option
	if strings.HasSuffix(j.File, ".epp") {
		opts = append(opts, parser.EppMode)
	}
	if j.Tasks {
		opts = append(opts, parser.TasksEnabled)
	}
	if j.Workflow {
		opts = append(opts, parser.WorkflowEnabled)
	}
	emit := func(m map[string]interface{}) {
		if j.Json {
			b, err := json.Marshal(m)
			if err != nil {
				panic(err)
			}
			out.Stdout = string(b)
		}
	}
	x, err := parser.CreateParser(opts...).Parse(j.File, string(j.Src), false)
	if err != nil {
		out.Exit = 1
		if j.Json {
			if r, ok := err.(issue.Reported); ok {
				emit(map[string]interface{}{"issues": []interface{}{pn.ReportedToPN(r).ToData()}})
			} else {
				emit(map[string]interface{}{"error": err.Error()})
			}
		} else {
			out.Stderr = append(out.Stderr, err.Error())
		}
		return
	}
	is := validator.ValidatePuppet(x, validator.Strict(j.Strict)).Issues()
	var l []interface{}
	for _, r := range is {
		if r.Severity() == issue.SeverityError {
			out.Exit = 1
		}
		l = append(l, pn.ReportedToPN(r).ToData())
		if !j.Json {
			out.Stderr = append(out.Stderr, r.String())
		}
	}
	m := map[string]interface{}{}
	if l != nil {
		m["issues"] = l
	}
	if !j.Only && out.Exit == 0 {
		m["ast"] = x.ToPN().ToData()
		if !j.Json {
			out.Stdout = x.ToPN().String()
		}
	}
	emit(m)
	return
}
