// Package expr checks expressions.
package expr

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

// op is an operator and its operands
type op struct {
	name   string
	values []string
}

var errOp = errors.New("operator failed")

// counts of the operands of each operator: none, exactly one, at most one, any
var opArgs = map[string]int{"a": 0, "b": 1, "c": 2, "d": 3}

func refName(tok string) string {
	if len(tok) < 2 || tok[0] != '-' {
		return ""
	}
	switch n := tok[1:]; n {
	case "a", "b", "c", "d":
		return n
	case "bb":
		return "b"
	}
	return ""
}

// refParse gets the operators and the code of the error
func refParse(toks []string) (res []op, code cli.ErrorCode, bad string) {
	for i := 0; i < len(toks); {
		n := refName(toks[i])
		if n == "" {
			return nil, cli.UnknownExpr, toks[i]
		}
		o := op{name: n}
		i++
		for i < len(toks) && (len(toks[i]) < 2 || toks[i][0] != '-') {
			k := opArgs[n]
			if k == 0 || (k < 3 && len(o.values) == 1) {
				return nil, cli.ArgsMustPrecedeExprs, toks[i]
			}
			o.values = append(o.values, toks[i])
			i++
		}
		if opArgs[n] == 1 && len(o.values) == 0 {
			return nil, cli.ExpectedArgument, ""
		}
		res = append(res, o)
	}
	return res, 0, ""
}

// filled counts the values that are not empty, which a list leaves out
func filled(vals []string) int {
	n := 0
	for _, v := range vals {
		if v != "" {
			n++
		}
	}
	return n
}

// refEval traces the evaluation of the operators with a value
func refEval(ops []op, v int, fail int, trace *[]string) bool {
	if len(ops) == 0 {
		return true
	}
	o := ops[0]
	*trace = append(*trace, fmt.Sprint(o.name, o.values, v))
	if v == fail && o.name == "b" {
		return false
	}
	switch o.name {
	case "a": // twice
		return refEval(ops[1:], v, fail, trace) && refEval(ops[1:], v+1, fail, trace)
	case "b":
		return refEval(ops[1:], v, fail, trace)
	case "c": // filter
		if len(o.values) == 1 || v == 2 {
			return refEval(ops[1:], v, fail, trace)
		}
		return true
	default: // more
		return refEval(ops[1:], v+2*filled(o.values), fail, trace)
	}
}

// HExpr parses and evaluates an arbitrary expression.
func HExpr() {
	n := sym.Choose("tokens", sym.Bound(4, 5))
	var toks []string
	for i := 0; i < n; i++ {
		t := sym.String("token", sym.Bound(3, 3), "-abcdx")
		sym.Assume(t != "--")
		toks = append(toks, t)
	}
	fail := sym.Choose("fail", 3)
	// the names of operands are those of operators
	names := [][4]string{{"w", "x", "y", "z"}, {"b", "c", "a", "bb"}}[sym.Choose("operands", 2)]

	var trace []string
	ex := &expr.Expression{}
	mk := func(name string, aliases []string, arg *cli.Arg, eval func(c *cli.Context, v int, y func(any) error) error) *expr.Expr {
		e := &expr.Expr{Name: name, Aliases: aliases}
		if arg != nil {
			e.Args = []*cli.Arg{arg}
		}
		e.Evaluate = func(c *cli.Context, v any, y func(any) error) error {
			var vals []string
			if arg != nil {
				vals = c.RawOccurrences(arg.Name)
				switch x := c.Value(arg.Name).(type) {
				case string:
					if len(vals) == 1 && x != vals[0] || len(vals) == 0 && x != "" {
						sym.Fail("an operand does not have its value")
					}
				case []string:
					if len(x) != filled(vals) {
						sym.Fail("an operand does not have its values")
					}
				}
			}
			trace = append(trace, fmt.Sprint(name, vals, v))
			return eval(c, v.(int), y)
		}
		return e
	}
	ex.Exprs = []*expr.Expr{
		mk("a", nil, nil, func(c *cli.Context, v int, y func(any) error) error {
			if err := y(v); err != nil {
				return err
			}
			return y(v + 1)
		}),
		mk("b", []string{"bb"}, &cli.Arg{Name: names[1], NArg: 1, Value: cli.String()}, func(c *cli.Context, v int, y func(any) error) error {
			if v == fail {
				return errOp
			}
			return y(v)
		}),
		mk("c", nil, &cli.Arg{Name: names[2], NArg: 0, Value: cli.String()}, func(c *cli.Context, v int, y func(any) error) error {
			if len(c.RawOccurrences(names[2])) == 1 || v == 2 {
				return y(v)
			}
			return nil
		}),
		mk("d", nil, &cli.Arg{Name: names[3], NArg: cli.TakeUntilNextFlag, Value: cli.List()}, func(c *cli.Context, v int, y func(any) error) error {
			return y(v + 2*len(c.List(names[3])))
		}),
	}
	var evalErr error
	ran := false
	app := &cli.App{
		Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Args: []*cli.Arg{{Name: "w", NArg: 1}, {Name: "e", Value: ex}},
		Action: func(c *cli.Context) {
			ran = true
			evalErr = ex.Evaluate(c, 1, 2)
		},
	}
	err := app.RunContext(context.Background(), append([]string{"app", "file"}, toks...))
	ops, code, bad := refParse(toks)
	sym.Observe("err", fmt.Sprint(err))
	if code != 0 {
		var pe *cli.ParseError
		sym.Assert(errors.As(err, &pe) && !ran, "an expression outside the grammar is accepted")
		sym.Assert(pe.Code == code, "an expression outside the grammar is refused with the wrong kind of error")
		sym.Assert(pe.Name == bad || pe.Value == bad || bad == "", "the error for an expression does not name the token")
		return
	}
	sym.Assert(err == nil && ran, "an expression within the grammar is refused")
	var want []string
	ok := refEval(ops, 1, fail, &want) && refEval(ops, 2, fail, &want)
	sym.Observe("trace", strings.Join(trace, " "))
	sym.Assert(strings.Join(trace, " ") == strings.Join(want, " "), "the operators of an expression do not run in order on the values yielded to them with their own operands")
	sym.Assert(ok == (evalErr == nil), "the error of an operator is not that of the evaluation")
	sym.Assert(ok || errors.Is(evalErr, errOp), "the error of an operator is not that of the evaluation")
}
