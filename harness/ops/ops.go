// Package ops checks operators: how they evaluate, their bindings and their help.
package ops

import (
	"context"
	"errors"
	"fmt"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"github.com/Carbonfrost/joe-cli/internal/zzverif/sym"
)

var (
	errFunc  = errors.New("function failed")
	errYield = errors.New("yield failed")
	errWalk  = errors.New("walk failed")
)

type key struct{}

type evaluator struct {
	fn func(context.Context, any, func(any) error) error
}

func (e evaluator) Evaluate(c context.Context, v any, y func(any) error) error {
	return e.fn(c, v, y)
}

// HEvaluators evaluates every kind of function with any value.
func HEvaluators() {
	kind := sym.Choose("kind", 20)
	value := sym.Int64("value")
	outcome := sym.Choose("outcome", 3) // of the function: yes, no or error
	var yieldErr error
	if sym.Bool("yield fails") {
		yieldErr = errYield
	}
	ctx := context.WithValue(context.Background(), key{}, "here")
	calls, yields := 0, 0
	var seen, yielded []any
	var result error
	if outcome == 2 {
		result = errFunc
	}
	input := any(value)
	saw := func(c context.Context, v any) {
		calls++
		if c != nil {
			sym.Assert(c.Value(key{}) == "here", "a function is called with another context")
		}
		seen = append(seen, v)
	}
	yes := outcome == 0
	// What is expected: how often the function is called, what is yielded and the result
	wantCalls := 1
	var wantYields []any
	once := func() {
		wantYields = []any{input}
	}
	var wantErr error
	full := func(c context.Context, v any, y func(any) error) error {
		saw(c, v)
		if outcome == 0 {
			return y(v)
		}
		if outcome == 1 {
			if err := y(1); err != nil {
				return err
			}
			return y(2)
		}
		return errFunc
	}
	fullWant := func() {
		switch outcome {
		case 0:
			once()
		case 1:
			wantYields = []any{1, 2}
			if yieldErr != nil {
				wantYields = []any{1}
			}
		case 2:
			wantErr = errFunc
		}
	}
	errWant := func() {
		if result == nil {
			once()
		}
		wantErr = result
	}
	boolWant := func() {
		if yes {
			once()
		}
	}
	var f any
	withErr := false
	switch kind {
	case 0:
		f = nil
		wantCalls = 0
		once()
	case 1:
		f = evaluator{full}
		fullWant()
	case 2:
		f = func(c *cli.Context, v any, y func(any) error) error { return full(c, v, y) }
		fullWant()
	case 3:
		f = func(c *cli.Context, v any) error { saw(c, v); return result }
		errWant()
	case 4:
		f = func(c *cli.Context, v any) bool { saw(c, v); return yes }
		boolWant()
	case 5:
		f = func(c *cli.Context, v any) { saw(c, v) }
		once()
	case 6:
		f = full
		fullWant()
	case 7:
		f = func(c context.Context, v any) error { saw(c, v); return result }
		errWant()
	case 8:
		f = func(c context.Context, v any) bool { saw(c, v); return yes }
		boolWant()
	case 9:
		f = func(c context.Context, v any) { saw(c, v) }
		once()
	case 10:
		f = func(v any, y func(any) error) error { return full(nil, v, y) }
		fullWant()
	case 11:
		f = func(v any) error { saw(nil, v); return result }
		errWant()
	case 12:
		f = func(v any) bool { saw(nil, v); return yes }
		boolWant()
	case 13:
		f = func(v any) { saw(nil, v) }
		once()
	case 14:
		f = func() bool { saw(nil, input); return yes }
		boolWant()
	case 15:
		f = yes
		wantCalls = 0
		boolWant()
	case 16:
		f = errFunc
		wantCalls = 0
		wantErr = errFunc
	case 17:
		f = expr.Error(result)
		wantCalls = 0
		wantErr = result
		withErr = true
	case 18:
		f = expr.Predicate(func(v any) bool { saw(nil, v); return yes })
		boolWant()
	case 19:
		f = expr.Invariant(yes)
		wantCalls = 0
		boolWant()
	}
	if len(wantYields) > 0 && yieldErr != nil {
		wantErr = yieldErr
	}
	// Evaluate it on its own, or in an expression after other steps
	own := sym.Bool("own")
	var err error
	yield := func(v any) error {
		yields++
		yielded = append(yielded, v)
		return yieldErr
	}
	app := &cli.App{Name: "app", Action: func(c *cli.Context) error {
		var c1 context.Context = c
		if own {
			err = expr.EvaluatorOf(f).Evaluate(c1, input, yield)
			return nil
		}
		e := &expr.Expression{}
		e.Append(expr.NewBinding(expr.EvaluatorOf(f)))
		e.Append(expr.NewBinding(expr.EvaluatorOf(func(v any, y func(any) error) error { return yield(v) })))
		e.Prepend(expr.NewBinding(expr.AlwaysTrue))
		err = e.Evaluate(c1, input)
		return nil
	}}
	fail := app.RunContext(ctx, []string{"app"})
	sym.Assert(fail == nil, "an app fails which evaluates an operator")
	sym.Assert(calls == wantCalls, "an operator does not call its function once for a value")
	for _, v := range seen {
		sym.Assert(v == input, "a function gets another value than that of its operator")
	}
	sym.Assert(yields == len(wantYields), "an operator yields more or fewer values than its function says")
	for i, v := range wantYields {
		sym.Assert(yielded[i] == v, "an operator yields another value")
	}
	if withErr && wantErr == nil {
		sym.Assert(err != nil, "an operator without an error does not fail")
	} else {
		sym.Assert(err == wantErr, "the error of an operator is not that of its function or of the next operator")
	}
	sym.Reach("evaluators")
}

// HBindings walks the bindings of an expression, to which some are appended and prepended.
func HBindings() {
	ops := []*expr.Expr{{Name: "a"}, {Name: "b"}, {Name: "c"}}
	var trace []string
	for _, o := range ops {
		o.Evaluate = func(any) { trace = append(trace, o.Name) }
	}
	argv := []string{"app", "-"}
	var model []string
	for i := sym.Choose("operators", sym.Bound(3, 4)); i > 0; i-- {
		n := sym.StringN("operator", 1, "abc")
		argv = append(argv, "-"+n)
		model = append(model, n)
	}
	type edit struct {
		name  string
		front bool
	}
	var edits []edit
	for i := sym.Choose("edits", sym.Bound(3, 4)); i > 0; i-- {
		d := edit{"xyzw"[i : i+1], sym.Bool("front")}
		if d.front {
			model = append([]string{d.name}, model...)
		} else {
			model = append(model, d.name)
		}
		edits = append(edits, d)
	}
	stop := sym.Choose("stop", 6) // after this many
	way := sym.Choose("way", 2)
	items := sym.Choose("items", 3)
	want := model
	var wantErr error
	if stop > 0 && stop <= len(model) {
		want = model[:stop]
		wantErr = errWalk
	}
	if way == 1 {
		wantErr = nil
	}
	var wantTrace []string
	for range items {
		wantTrace = append(wantTrace, model...)
	}
	var got []string
	var err, evalErr error
	app := &cli.App{Name: "app", Args: []*cli.Arg{{Name: "s", NArg: 1}, {Name: "x", Value: &expr.Expression{Exprs: ops}}}}
	app.Action = func(c *cli.Context) error {
		e := expr.FromContext(c, "x")
		for _, d := range edits {
			b := expr.NewBinding(expr.EvaluatorOf(func(any) { trace = append(trace, d.name) }), &expr.Expr{Name: d.name})
			if d.front {
				e.Prepend(b)
			} else {
				e.Append(b)
			}
		}
		if way == 0 {
			err = e.Walk(func(b expr.Binding) error {
				got = append(got, b.Expr().Name)
				if len(got) == stop {
					return errWalk
				}
				return nil
			})
			sym.Assert(e.Walk(nil) == nil, "walking without a function fails")
		} else {
			for b := range e.Bindings() {
				got = append(got, b.Expr().Name)
				if len(got) == stop {
					break
				}
			}
		}
		var values []any
		for i := range items {
			values = append(values, i)
		}
		evalErr = e.Evaluate(c, values...)
		return nil
	}
	fail := app.RunContext(context.Background(), argv)
	sym.Assert(fail == nil, "an expression fails whose operators exist")
	sym.Observe("got", strings.Join(got, " "))
	sym.Assert(strings.Join(got, " ") == strings.Join(want, " "), "the bindings walked are not those of the expression in order")
	sym.Assert(err == wantErr, "walking has another error than that of its function")
	sym.Assert(evalErr == nil, "an expression fails whose operators do not")
	sym.Observe("trace", strings.Join(trace, " "))
	sym.Assert(strings.Join(trace, " ") == strings.Join(wantTrace, " "), "an expression does not evaluate each of its bindings once for a value, in order")
	sym.Reach("bindings")
}

// HAdd adds operators while the app is set up.
func HAdd() {
	where := sym.Choose("where", 5) // arg, operator, nested, customization, action
	several := sym.Bool("several")
	inits := map[string]int{}
	befores := map[string]int{}
	evals := 0
	var mk func(n string, uses cli.Action) *expr.Expr
	mk = func(n string, uses cli.Action) *expr.Expr {
		e := &expr.Expr{Name: n}
		e.Uses = cli.Pipeline(func(c *cli.Context) error {
			inits[n]++
			sym.Assert(c.Target() == any(e), "an operator is initialized with another target")
			e.Evaluate = func(any) { evals++ }
			return nil
		}, uses)
		e.Before = func(*cli.Context) { befores[n]++ }
		return e
	}
	given := sym.StringN("given", 1, "abcd")
	want := "ab"
	var add cli.Action
	if several {
		want = "abc"
		add = expr.AddExprs(mk("b", nil), mk("c", nil))
	} else {
		add = expr.AddExpr(mk("b", nil))
	}
	var errLate error
	x := &cli.Arg{Name: "x"}
	app := &cli.App{Name: "app", Args: []*cli.Arg{{Name: "s", NArg: 1}, x}}
	var uses cli.Action
	switch where {
	case 0:
		x.Uses = add
	case 1:
		uses = add
	case 2:
		uses = expr.AddExpr(mk("d", add))
		want += "d"
	case 3:
		app.Uses = cli.Customize("<x>", add)
	case 4:
		want = "a"
		x.Action = func(c *cli.Context) error {
			errLate = c.Do(add)
			return nil
		}
	}
	e := &expr.Expression{Exprs: []*expr.Expr{mk("a", uses)}}
	x.Value = e
	app.Action = func(c *cli.Context) error {
		return expr.FromContext(c, "x").Evaluate(c, 1)
	}
	err := app.RunContext(context.Background(), []string{"app", "-", "-" + given})
	sym.Observe("err", fmt.Sprint(err))
	names := ""
	for _, n := range []string{"a", "b", "c", "d"} {
		for _, o := range e.Exprs {
			if o.Name == n {
				names += n
			}
		}
	}
	sym.Assert(names == want, "an expression has other operators than its own and those added")
	for _, n := range []string{"a", "b", "c", "d"} {
		k := strings.Count(want, n)
		sym.Assert(inits[n] == k, "an operator is not initialized exactly once")
		if err == nil {
			sym.Assert(befores[n] == k, "the Before of an operator is not run exactly once")
		}
	}
	if strings.Contains(want, given) {
		sym.Assert(err == nil && evals == 1, "an operator is not evaluated which was added")
	} else {
		sym.Assert(err != nil && evals == 0, "an operator is evaluated which is not there")
	}
	if where == 4 && err == nil {
		sym.Assert(errors.Is(errLate, cli.ErrTimingTooLate), "an operator can be added after initialization")
	}
	sym.Reach("add")
}

// HHelp displays the help of operators.
func HHelp() {
	type operator struct {
		name, category, help string
		hidden, alias        bool
		args                 int
	}
	var ops []operator
	e := &expr.Expression{}
	for i := range sym.Choose("operators", sym.Bound(3, 4)) {
		o := operator{
			name:     []string{"a", "bb", "c"}[i],
			category: []string{"", "C", "D"}[sym.Choose("category", 3)],
			hidden:   sym.Bool("hidden"),
		}
		if sym.Bool("help") {
			o.help = "text" + o.name + " {FILE}"
		}
		if i == 0 {
			o.alias = sym.Bool("alias")
			o.args = sym.Choose("args", 3)
		}
		x := &expr.Expr{Name: o.name, Category: o.category, HelpText: o.help}
		if o.alias {
			x.Aliases = []string{"long", "other"}
		}
		if o.hidden {
			x.Options = cli.Hidden
		}
		for k := range o.args {
			x.Args = append(x.Args, &cli.Arg{Name: "pq"[k : k+1], NArg: k + 1})
		}
		ops = append(ops, o)
		e.Exprs = append(e.Exprs, x)
	}
	sorted := sym.Bool("sorted")
	var out strings.Builder
	app := &cli.App{Name: "app", Stderr: &out, Args: []*cli.Arg{{Name: "x", Value: e}}}
	if sorted {
		e.Exprs = append(e.Exprs[len(e.Exprs)/2:len(e.Exprs):len(e.Exprs)], e.Exprs[:len(e.Exprs)/2]...)
		app.Args[0].Options = cli.SortedExprs
	}
	err := app.RunContext(context.Background(), []string{"app", "--help"})
	var exit cli.ExitCoder
	sym.Assert(errors.As(err, &exit) && exit.ExitCode() == 0, "the help of an app with operators fails")
	visible := 0
	plain := true
	for _, o := range ops {
		if !o.hidden {
			visible++
			plain = plain && o.category == ""
		}
	}
	_, text, found := strings.Cut(out.String(), "Expressions:\n")
	sym.Observe("help", text)
	sym.Assert(found == (visible > 0), "help has operators exactly if there are visible ones")
	category, lastCategory := "", ""
	lists := map[string]string{} // of each operator, the line
	headers := map[string]int{}
	last := ""
	for _, line := range strings.Split(text, "\n") {
		if c, ok := strings.CutSuffix(line, ":"); ok {
			category = c
			headers[c]++
			sym.Assert(lastCategory < c, "categories are not sorted")
			last, lastCategory = "", c
			continue
		}
		for _, tok := range strings.Fields(strings.ReplaceAll(line, ",", " ")) {
			for _, o := range ops {
				if tok != "-"+o.name {
					continue
				}
				sym.Assert(!o.hidden, "help has a hidden operator")
				sym.Assert(lists[o.name] == "", "help has an operator twice")
				sym.Assert(category == o.category, "help has an operator in another category")
				sym.Assert(last < o.name, "operators are not in order")
				last = o.name
				lists[o.name] = line
			}
		}
	}
	for _, o := range ops {
		if o.hidden {
			continue
		}
		line := lists[o.name]
		sym.Assert(line != "", "help does not have an operator which is visible")
		sym.Assert(o.category == "" || headers[o.category] == 1, "a category is not named once")
		if o.help != "" {
			args := "FILE Q..."
			switch o.args {
			case 0:
				args = ""
			case 1:
				args = "FILE"
			}
			names := "-" + o.name
			if o.alias {
				names += ", -long"
			}
			want := strings.Join(strings.Fields(names+" "+args+" text"+o.name+" FILE"), " ")
			sym.Assert(strings.Join(strings.Fields(line), " ") == want, "help has an operator with other names, args or text")
		}
	}
	sym.Reach("help")
}
