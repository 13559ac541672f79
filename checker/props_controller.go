package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("O02", "status and error history: decision table of the reported condition over every path; every path of the error reporter records the error and keeps the newest; loops over controllers and specifications visit every element", runO02)
	register("O06", "controller assembly: every path of the assembly: validation before success, order (target and pipeline before the first watch), which reconciler each source type gets, provenance of the arguments, completeness of the loops over the sources", runO06)
}

// constOf is the value of a string constant of a package of the module.
func (k *K) constOf(pkg, name string) string {
	for _, p := range k.pr.SSA.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), pkg) {
			if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
				return c.Val().ExactString()
			}
		}
	}
	return ""
}

func (k *K) typeIn(pkg, name string) *types.Named {
	for _, t := range k.pkgTypes(pkg) {
		if t.Obj().Name() == name {
			return t
		}
	}
	return nil
}

func runO02(k *K) {
	const R = "reported condition"
	fn := k.fn("controller.DeclarativeController.GetStatus")
	if fn != nil {
		k.condition(R, fn)
	}
	k.reporter()
	k.statusOfAll()
}

// emptyHistory: t is true exactly if no error has been reported; the second result is the polarity.
func emptyHistory(t *Term) (pol, ok bool) {
	if t.Op == "call" && strings.HasSuffix(t.Sym, "errorReporter.IsEmpty") {
		return true, true
	}
	if t.Op != "bin" {
		return false, false
	}
	a, b, op := t.Args[0], t.Args[1], t.Sym
	if a.Op == "const" {
		a, b = b, a
		op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
		if op == "" {
			op = t.Sym
		}
	}
	if isNil(b) && a.Op == "call" && strings.HasSuffix(a.Sym, "errorReporter.Top") {
		return op == "==", op == "==" || op == "!="
	}
	size := a.Op == "call" && strings.HasSuffix(a.Sym, "errorReporter.Size") ||
		isCallTo(a, "builtin.len") && a.Args[0].Op == "call" && strings.HasSuffix(a.Args[0].Sym, "errorReporter.Report") ||
		isCallTo(a, "builtin.len") && isField(a.Args[0], "errorStack")
	if !size || b.Op != "const" {
		return false, false
	}
	switch op + b.Sym {
	case "==0", "<1", "<=0":
		return true, true
	case "!=0", ">0", ">=1":
		return false, true
	}
	return false, false
}

func (k *K) condition(R string, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	api := "pkg/api/operator/v1alpha1"
	name := func(n string) string { return k.constOf(api, n) }
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if pol, ok := emptyHistory(t); ok {
			boolEdge(s, t, taken == pol, func(x *Term) bool { return x == t }, "empty")
			return
		}
		boolEdge(s, t, taken, func(x *Term) bool {
			return x.Op == "call" && strings.HasSuffix(x.Sym, "errorReporter.HasCritical") || isField(x, "critical")
		}, "critical")
	}
	exits := 0
	rule.Exit = func(s *St, ret *ssa.Return) {
		exits++
		at := k.pr.at(ret)
		st := k.literal(s, s.retVal(ret, 0))
		if !k.check(st != nil, R, construct, at, "undecided: the status is not built here: %s", s.RetPT(ret, 0)) {
			return
		}
		nm := k.lit(s, st, "Name")
		k.check(isField(nm, "name") || nm.Op == "call" && strings.HasSuffix(nm.Sym, ".GetName"), R, construct, at, "the status is reported under the name %s", nm)
		le := k.lit(s, st, "LastErrors")
		k.check(le.Op == "call" && strings.HasSuffix(le.Sym, "errorReporter.Report"), R, construct, at, "the last errors of the status are %s (path %s)", short(le), s.Trace())
		cv := st["Conditions"]
		if !k.check(cv.v != nil, R, construct, at, "no condition is reported (path %s)", s.Trace()) {
			return
		}
		es := k.sliceElems(cv.c, cv.v)
		if !k.check(len(es) == 1 && es[0].v != nil, R, construct, at, "expected a single condition, found %d (path %s)", len(es), s.Trace()) {
			return
		}
		c := k.literalIn(s, es[0].c, es[0].v)
		if !k.check(c != nil, R, construct, at, "undecided: the condition is not built here (path %s)", s.Trace()) {
			return
		}
		ty := k.lit(s, c, "Type")
		k.check(ty.Sym == name("ControllerConditionReady"), R, construct, at, "the condition reported is %s", ty)
		og := k.lit(s, c, "ObservedGeneration")
		k.check(isParam(og, "arg0"), R, construct, at, "the observed generation is %s, not the one given", og)
		status, reason := k.lit(s, c, "Status").Sym, k.lit(s, c, "Reason").Sym
		want := map[string][2]string{
			"empty":    {`"True"`, name("ControllerReasonReady")},
			"critical": {`"False"`, name("ControllerReasonNotReady")},
			"errors":   {`"Unknown"`, name("ControllerReasonReconciliationFailed")},
		}
		var st0 string
		switch {
		case hasFlag(s, "empty"):
			st0 = "empty"
		case hasFlag(s, "!empty") && hasFlag(s, "critical"):
			st0 = "critical"
		case hasFlag(s, "!empty") && hasFlag(s, "!critical"):
			st0 = "errors"
		default:
			k.fail(R, construct, at, "status %s is reported without looking at the errors (path %s)", status, s.Trace())
			return
		}
		k.check(status == want[st0][0] && reason == want[st0][1], R, construct, at, "with %s errors the status must be %s (%s), is %s (%s) (path %s)",
			map[string]string{"empty": "no", "critical": "critical", "errors": "only noncritical"}[st0], want[st0][0], want[st0][1], status, reason, s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(exits >= 3, R, construct, k.pr.pos(fn.Pos()), "expected at least three outcomes, found %d", exits)
}

// reporter: every pushed error is recorded as the newest, critical ones are remembered, the history
// is bounded and dropped from its old end only.
func (k *K) reporter() {
	const R = "error history"
	t := k.typeIn("pkg/controller", "errorReporter")
	if !k.check(t != nil, R, "controller.errorReporter", "", "the error reporter was not found") {
		return
	}
	stack := structField(t, func(ft types.Type) bool {
		s, ok := ft.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), errorType)
	})
	crit := structField(t, func(ft types.Type) bool { return types.Identical(ft, types.Typ[types.Bool]) })
	if !k.check(stack != "" && crit != "", R, "controller.errorReporter", "", "the fields of the error reporter were not found") {
		return
	}
	isStack := func(t *Term) bool { return isField(t, stack) }
	n := 0
	for i := 0; i < t.NumMethods(); i++ {
		fn := k.pr.SSA.FuncValue(t.Method(i))
		if fn == nil || !strings.HasPrefix(fn.Name(), "Push") {
			continue
		}
		n++
		k.pushPaths(R, fn, stack, crit, isStack)
	}
	k.check(n >= 4, R, "controller.errorReporter", "", "expected at least 4 methods pushing errors, found %d", n)
	// only these and the constructors write the history
	for _, fn := range k.fnsIn("pkg/controller") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if f := fieldName(fa.X.Type(), fa.Field); f == crit && typeShort(deref(fa.X.Type())) == "controller.errorReporter" {
					if c, ok := st.Val.(*ssa.Const); ok && constVal(c) == "false" && !localNew(fa.X) {
						k.fail(R, fnName(fn), k.pr.at(in), "a critical error is forgotten")
					}
				}
			}
		}
	}
	if fn := k.method(t, "Report"); fn != nil {
		checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "reporting the error", over: isStack, flow: true,
			instr: func(s *St, in ssa.Instruction) bool {
				if st, ok := in.(*ssa.Store); ok {
					_, ok := st.Addr.(*ssa.IndexAddr)
					return ok && s.PT(st.Val).HasCall("error.Error", ".error.Error")
				}
				return false
			}})
		k.ok(R, fnName(fn), k.pr.pos(fn.Pos()))
	}
	for _, m := range []string{"IsEmpty", "HasCritical", "Size", "Top"} {
		fn := k.method(t, m)
		if fn == nil {
			continue
		}
		k.ok(R, fnName(fn), k.pr.pos(fn.Pos()))
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool { return true }}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			if pol, ok := emptyHistory(s.condPT(cond)); ok {
				boolEdge(s, s.condPT(cond), taken == pol, func(*Term) bool { return true }, "empty")
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			t := s.RetPT(ret, 0)
			good := false
			switch m {
			case "IsEmpty":
				pol, ok := emptyHistory(t)
				good = ok && pol || hasFlag(s, "empty") && s.RetVal(ret, 0) == "true" || hasFlag(s, "!empty") && s.RetVal(ret, 0) == "false"
			case "HasCritical":
				good = isField(t, crit)
			case "Size":
				good = isCallTo(t, "builtin.len") && isStack(t.Args[0])
			case "Top":
				e := elemOf(t)
				good = hasFlag(s, "empty") && isNil(t) || e != nil && isStack(e)
			}
			k.check(good, R, fnName(fn), k.pr.at(ret), "%s returns %s (path %s)", m, short(t), s.Trace())
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, fnName(fn))
	}
}

// localNew: v is a struct made in the same function.
func localNew(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func (k *K) pushPaths(R string, fn *ssa.Function, stack, crit string, isStack func(*Term) bool) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	critical := strings.Contains(fn.Name(), "Critical")
	fromErr := func(t *Term) bool {
		return t.Has(func(x *Term) bool {
			return isParam(x, "arg0") || isCallTo(x, "errors.New", "fmt.Errorf")
		})
	}
	// the pushed error: the argument, possibly wrapped
	isErr := func(s *St, v ssa.Value) bool {
		if fromErr(s.PT(v)) {
			return true
		}
		m := k.literal(s, v)
		for f := range m {
			if fromErr(k.lit(s, m, f)) {
				return true
			}
		}
		return false
	}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return callee.Signature.Recv() != nil && typeShort(deref(callee.Signature.Recv().Type())) == "controller.errorReporter" || helperInline(s, call, callee)
	}}
	sliced := func(s *St, c *Ctx, v ssa.Value) bool { // stack[1:]
		c, v = s.RootIn(c, v)
		sl, ok := v.(*ssa.Slice)
		if !ok || sl.Low == nil || !isStack(s.PTIn(c, sl.X)) {
			return false
		}
		n, ok := intConst(sl.Low)
		if !ok || n != 1 {
			return false
		}
		if sl.High == nil {
			return true
		}
		h := s.PTIn(c, sl.High)
		return isCallTo(h, "builtin.len") && isStack(h.Args[0])
	}
	full := func(t *Term) bool {
		return t.Op == "bin" && isCallTo(t.Args[0], "builtin.len") && isStack(t.Args[0].Args[0])
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if t := s.condPT(cond); full(t) {
			_, isC := cond.(*ssa.BinOp)
			if isC {
				addFlag(s, "bound")
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := call.Common().Args
		switch nm {
		case "builtin.copy":
			d, src := s.PT(a[0]), s.PT(a[1])
			if isStack(d) && sliced(s, s.Ctx, a[1]) {
				addFlag(s, "shift")
			} else if d.Has(isStack) {
				k.fail(R, construct, k.pr.at(call), "the history is overwritten by %s (path %s)", short(src), s.Trace())
			}
		case "builtin.delete", "builtin.clear":
			if s.PT(a[0]).Has(isStack) {
				k.fail(R, construct, k.pr.at(call), "the history is cleared (path %s)", s.Trace())
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		at := k.pr.at(in)
		switch a := st.Addr.(type) {
		case *ssa.FieldAddr:
			if typeShort(deref(a.X.Type())) != "controller.errorReporter" {
				return
			}
			switch fieldName(a.X.Type(), a.Field) {
			case crit:
				if s.val(s.Ctx, st.Val, 0) == "true" {
					addFlag(s, "critical")
				}
			case stack:
				c, v := s.Root(st.Val)
				ap, ok := v.(*ssa.Call)
				t := s.PT(st.Val)
				if sliced(s, s.Ctx, st.Val) {
					addFlag(s, "dropped")
					return
				}
				if !k.check(ok && isCallTo(t, "builtin.append") && (isStack(t.Args[0]) || sliced(s, c, ap.Common().Args[0])), R, construct, at, "the history is replaced by %s (path %s)", short(t), s.Trace()) {
					return
				}
				es := k.sliceElems(c, ap.Common().Args[1])
				good := len(es) == 1 && es[0].v != nil
				if good {
					good = s.x.R == k.R && k.errIn(s, es[0], fromErr)
				}
				k.check(good, R, construct, at, "something else than the error is recorded (path %s)", s.Trace())
				k.check(hasFlag(s, "bound") || sliced(s, c, ap.Common().Args[0]), R, construct, at, "the history grows without bound (path %s)", s.Trace())
				k.check(!hasFlag(s, "rec"), R, construct, at, "the error is recorded twice (path %s)", s.Trace())
				addFlag(s, "rec")
			}
		case *ssa.IndexAddr:
			if !isStack(s.PT(a.X)) {
				return
			}
			i := s.PT(a.Index)
			last := i.Op == "bin" && i.Sym == "-" && isCallTo(i.Args[0], "builtin.len") && isStack(i.Args[0].Args[0]) && i.Args[1].Sym == "1"
			k.check(last && hasFlag(s, "shift"), R, construct, at, "an older error than the oldest is overwritten: element %s (path %s)", short(i), s.Trace())
			k.check(isErr(s, st.Val), R, construct, at, "something else than the error is recorded (path %s)", s.Trace())
			k.check(!hasFlag(s, "rec"), R, construct, at, "the error is recorded twice (path %s)", s.Trace())
			addFlag(s, "rec")
		}
	}
	exits := 0
	rule.Exit = func(s *St, ret *ssa.Return) {
		exits++
		at := k.pr.at(ret)
		k.check(hasFlag(s, "rec"), R, construct, at, "the error is not recorded (path %s)", s.Trace())
		k.check(hasFlag(s, "critical") == critical, R, construct, at, "critical errors must be remembered as such, and only these (path %s)", s.Trace())
		k.check(isErr(s, s.retVal(ret, 0)), R, construct, at, "the error returned is not the one pushed: %s (path %s)", short(s.RetPT(ret, 0)), s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(exits > 0, R, construct, k.pr.pos(fn.Pos()), "no outcome found")
}

func (k *K) errIn(s *St, e ctxVal, fromErr func(*Term) bool) bool {
	if fromErr(s.PTIn(e.c, e.v)) {
		return true
	}
	m := k.literalIn(s, e.c, e.v)
	for f := range m {
		if fromErr(k.lit(s, m, f)) {
			return true
		}
	}
	return false
}

// statusOfAll: the operator reports every controller, also those that failed to start.
func (k *K) statusOfAll() {
	const R = "operator status"
	isCtrls := func(t *Term) bool { return isField(t, "controllers") }
	if fn := k.fn("operator.Operator.GetStatus"); fn != nil {
		k.ok(R, fnName(fn), k.pr.pos(fn.Pos()))
		checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "reporting the status of the controller", over: isCtrls, flow: true,
			action: func(s *St, call ssa.CallInstruction, n string) bool {
				if !strings.HasSuffix(n, "Controller.GetStatus") {
					return false
				}
				a := callArgs(call.Common())
				e := elemOf(s.PT(a[0]))
				k.check(e != nil && isCtrls(e), R, fnName(fn), k.pr.at(call), "the status of another controller is reported")
				k.check(isParam(s.PT(a[1]), "arg0"), R, fnName(fn), k.pr.at(call), "the status is reported for generation %s", s.PT(a[1]))
				return true
			},
			skipOK: func(s *St, c *Term, taken bool) bool {
				x, eq, ok := eqConst(c, "nil", taken)
				return ok && eq && elemOf(x) != nil
			}})
	}
	for _, m := range []string{"AddDeclarativeController", "AddNativeController"} {
		fn := k.fn("operator.Operator." + m)
		if fn == nil {
			continue
		}
		construct := fnName(fn)
		k.ok(R, construct, k.pr.pos(fn.Pos()))
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		rule.Instr = func(s *St, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != "controllers" {
				return
			}
			c, v := s.Root(st.Val)
			ap, ok := v.(*ssa.Call)
			if !ok || calleeName(ap.Common()) != "builtin.append" || !isCtrls(s.PTIn(c, ap.Common().Args[0])) {
				k.fail(R, construct, k.pr.at(in), "the controllers of the operator are replaced by %s", short(s.PT(st.Val)))
				return
			}
			es := k.sliceElems(c, ap.Common().Args[1])
			good := len(es) == 1 && es[0].v != nil
			if good {
				t := s.PTIn(es[0].c, es[0].v)
				good = extOf(t, 0, "controller.NewDeclarative", "controller.NewNative") != nil
			}
			k.check(good, R, construct, k.pr.at(in), "something else than the new controller is registered")
			k.check(!hasFlag(s, "added"), R, construct, k.pr.at(in), "the controller is registered twice (path %s)", s.Trace())
			addFlag(s, "added")
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			k.check(hasFlag(s, "added"), R, construct, k.pr.at(ret), "a controller is not registered with the operator: its errors are never reported (path %s)", s.Trace())
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
	}
	if fn := k.fn("operator.Operator.AddSpec"); fn != nil {
		k.ok(R, fnName(fn), k.pr.pos(fn.Pos()))
		isSpec0 := func(t *Term) bool { return isField(t, "Controllers") && isParam(t.Args[0], "arg0") }
		checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "adding the controller", over: isSpec0, flow: true,
			action: func(s *St, call ssa.CallInstruction, n string) bool {
				if n != "operator.Operator.AddDeclarativeController" {
					return false
				}
				t := s.PT(call.Common().Args[1])
				e := elemOf(t)
				if e == nil {
					if v := k.varContent(t); v != nil {
						e = elemOf(v)
					}
				}
				k.check(e != nil && isSpec0(e), R, fnName(fn), k.pr.at(call), "another controller is added: %s", short(t))
				return true
			}})
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		rule.Call = func(s *St, call ssa.CallInstruction, n string) {
			switch n {
			case "operator.Operator.RegisterGVKs":
				addFlag(s, "reg")
			case "operator.Operator.AddDeclarativeController":
				dropFlag(s, "reg")
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			k.check(hasFlag(s, "reg"), R, fnName(fn), k.pr.at(ret), "the views of the controllers are not registered with the API server (path %s)", s.Trace())
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, fnName(fn))
	}
}

// ---------------------------------------------------------------- O06

func runO06(k *K) {
	const R = "controller assembly"
	fn := k.fn("controller.NewDeclarative")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	cfg := func(t *Term, f string) bool { return isField(t, f) && k.isConfig(t.Args[0]) }
	isOp := func(t *Term) bool { return isParam(t, "arg1") || isField(t, "op") }
	isSrcs := func(t *Term) bool {
		if t.Op == "phi" || t.Op == "call" && t.Sym == "builtin.append" {
			return t.Has(func(x *Term) bool { return isCallTo(x, "reconciler.NewSource") || isField(x, "sources") })
		}
		return isField(t, "sources")
	}
	var elemSrc func(t *Term) bool
	elemSrc = func(t *Term) bool { // a source of the controller
		if e := elemOf(t); e != nil && (isSrcs(e) || e.V != nil && isSliceOf(e.V.Type(), "reconciler.Source")) {
			return true
		}
		return isCallTo(t, "reconciler.NewSource")
	}
	isTarget := func(t *Term) bool { return isField(t, "target") || isCallTo(t, "reconciler.NewTarget") }
	isType := func(t *Term) bool { return t.Op == "call" && t.Sym == "reconciler.Source.Type" }
	periodic := k.constOf("pkg/api/operator/v1alpha1", "Periodic")
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if over := s.loopOver(cond); over != nil {
			for _, f := range []string{"type=", "type!"} {
				for x := range parseFlags(s.Auto) {
					if strings.HasPrefix(x, f) {
						dropFlag(s, x)
					}
				}
			}
			return
		}
		if t.Op != "bin" {
			return
		}
		if enumEdge(s, t, taken, isType, "type") {
			return
		}
		eq := (t.Sym == "==") == taken
		for i := 0; i < 2; i++ {
			a, b := t.Args[i], t.Args[1-i]
			switch {
			case (cfg(a, "Name") || isField(a, "name")) && b.Op == "const" && b.Sym == `""` && (t.Sym == "==" || t.Sym == "!="):
				if !eq {
					addFlag(s, "name")
				}
			case isCallTo(a, "builtin.len") && cfg(a.Args[0], "Sources") && b.Op == "const":
				op := t.Sym
				if i == 1 {
					op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
				}
				if b.Sym == "0" && (op == "==" && !taken || op == "!=" && taken || op == ">" && taken || op == "<=" && !taken) || b.Sym == "1" && (op == "<" && !taken || op == ">=" && taken) {
					addFlag(s, "sources")
				}
			case cfg(a, "Target") && !cfg(b, "Target") && (t.Sym == "==" || t.Sym == "!="):
				if !eq {
					addFlag(s, "hastarget")
				}
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		at := k.pr.at(call)
		switch {
		case nm == "builtin.append" && isSliceOf(call.Common().Args[0].Type(), "schema.GroupVersionKind"):
			v, isP := enumValue(s, "type"), strings.Trim(periodic, `"`)
			k.check(v != "" && v != isP || hasFlag(s, "type!"+isP), R, construct, at, "the kind of a periodic source, which does not flow through the pipeline, is registered with it (path %s)", s.Trace())
		case nm == "reconciler.NewTarget":
			k.check(isOp(s.PT(a[1])), R, construct, at, "the target belongs to operator %s", s.PT(a[1]))
			k.check(cfg(s.PT(a[2]), "Target"), R, construct, at, "the target is not the one of the specification: %s", short(s.PT(a[2])))
		case nm == "reconciler.NewSource":
			k.check(isOp(s.PT(a[1])), R, construct, at, "the source belongs to operator %s", s.PT(a[1]))
			e := elemOf(k.content(s, a[2]))
			k.check(e != nil && cfg(e, "Sources"), R, construct, at, "the source is not the one of the specification: %s", short(s.PT(a[2])))
		case nm == "pipeline.New":
			k.check(isOp(s.PT(a[0])), R, construct, at, "the pipeline belongs to operator %s", s.PT(a[0]))
			tg := s.PT(a[1])
			k.check(isGetGVK(tg) && isTarget(tg.Args[0].Args[0]), R, construct, at, "the pipeline is compiled for target kind %s", short(tg))
			k.check(cfg(s.PT(a[3]), "Pipeline"), R, construct, at, "the program of the pipeline is %s", short(s.PT(a[3])))
		case nm == "controller.NewIncrementalReconciler" || nm == "controller.NewStateOfTheWorldReconciler":
			v := enumValue(s, "type")
			isP := strings.Trim(periodic, `"`)
			per := v == isP
			not := v != "" && v != isP || hasFlag(s, "type!"+isP)
			if nm == "controller.NewStateOfTheWorldReconciler" {
				k.check(per, R, construct, at, "a source that is not periodic gets the state-of-the-world reconciler (path %s)", s.Trace())
			} else {
				k.check(not, R, construct, at, "a periodic source gets the incremental reconciler (path %s)", s.Trace())
			}
		case strings.HasSuffix(nm, "controller.NewTyped"):
			k.check(k.dependsOnIndex(s, a[0]), R, construct, at, "the runtime controllers of different sources share the name %s", short(s.PT(a[0])))
			m := k.literal(s, a[2])
			if k.check(m != nil, R, construct, at, "undecided: the options of the runtime controller are not built here") {
				r := k.lit(s, m, "Reconciler")
				k.check(isCallTo(r, "controller.NewIncrementalReconciler", "controller.NewStateOfTheWorldReconciler"), R, construct, at, "the runtime controller gets reconciler %s (path %s)", short(r), s.Trace())
				if r.Op == "call" {
					v := enumValue(s, "type")
					isP := strings.Trim(periodic, `"`)
					if r.Sym == "controller.NewStateOfTheWorldReconciler" {
						k.check(v == isP, R, construct, at, "a source that is not periodic gets the state-of-the-world reconciler (path %s)", s.Trace())
					} else {
						k.check(v != "" && v != isP || hasFlag(s, "type!"+isP), R, construct, at, "a periodic source gets the incremental reconciler (path %s)", s.Trace())
					}
				}
			}
		case strings.HasSuffix(nm, "TypedController.Watch") || strings.HasSuffix(nm, "Controller.Watch"):
			k.check(hasFlag(s, "target"), R, construct, at, "a watch is started before the controller has its target: a request may be reconciled right away (path %s)", s.Trace())
			k.check(hasFlag(s, "pipeline"), R, construct, at, "a watch is started before the controller has its pipeline: a request may be reconciled right away (path %s)", s.Trace())
			c, src := s.PT(a[0]), s.PT(a[1])
			k.check(c.Op == "ext" && c.Args[0].Op == "call" && strings.HasSuffix(c.Args[0].Sym, "controller.NewTyped"), R, construct, at, "the watch is set up on %s", short(c))
			g := extOf(src, 0, "reconciler.Source.GetSource")
			if k.check(g != nil, R, construct, at, "what is watched is not a source of the controller: %s", short(src)) {
				k.check(elemSrc(g.Args[0]), R, construct, at, "what is watched is not a source of the controller: %s", short(g.Args[0]))
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || typeShort(deref(fa.X.Type())) != "controller.DeclarativeController" {
			return
		}
		t := s.PT(st.Val)
		at := k.pr.at(in)
		switch f := fieldName(fa.X.Type(), fa.Field); f {
		case "target":
			k.check(isCallTo(t, "reconciler.NewTarget"), R, construct, at, "the target of the controller is %s", short(t))
			addFlag(s, "target")
		case "pipeline":
			k.check(extOf(t, 0, "pipeline.New") != nil, R, construct, at, "the pipeline of the controller is %s", short(t))
			addFlag(s, "pipeline")
		case "name":
			k.check(cfg(t, "Name"), R, construct, at, "the name of the controller is %s", short(t))
		case "op":
			k.check(isParam(t, "arg1"), R, construct, at, "the operator of the controller is %s", short(t))
		}
	}
	succ, fails := 0, 0
	rule.Exit = func(s *St, ret *ssa.Return) {
		at := k.pr.at(ret)
		k.check(s.RetVal(ret, 0) == "nonnil", R, construct, at, "no controller is returned: its errors cannot be reported (path %s)", s.Trace())
		if s.RetVal(ret, 1) == "nil" {
			succ++
			for f, w := range map[string]string{"name": "a name", "sources": "a source", "hastarget": "a target"} {
				k.check(hasFlag(s, f), R, construct, at, "a controller without %s is accepted (path %s)", w, s.Trace())
			}
			k.check(hasFlag(s, "pipeline") && hasFlag(s, "target"), R, construct, at, "a controller without pipeline or target is accepted (path %s)", s.Trace())
			return
		}
		fails++
		t := s.RetPT(ret, 1)
		k.check(t.Op == "call" && strings.Contains(t.Sym, "errorReporter.PushCritical"), R, construct, at, "a failure to start is not reported as critical: %s (path %s)", short(t), s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(succ >= 1 && fails >= 3, R, construct, k.pr.pos(fn.Pos()), "%d successful and %d failing outcomes found", succ, fails)

	checkLoops(k, fn, &loopSpec{rule: R, min: 1, flow: true, what: "creating the source", over: func(t *Term) bool { return cfg(t, "Sources") },
		action: func(s *St, call ssa.CallInstruction, n string) bool { return n == "reconciler.NewSource" }})
	isWatch := func(n string) bool {
		return strings.HasSuffix(n, "TypedController.Watch") || strings.HasSuffix(n, "Controller.Watch")
	}
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, flow: true, what: "watching the source", over: isSrcs, at: k.loopCalls(isWatch),
		action: func(s *St, call ssa.CallInstruction, n string) bool { return isWatch(n) }})
	// the kinds the pipeline listens to
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, flow: true, what: "registering the kind of the source with the pipeline", over: isSrcs,
		at: k.loopAppends("schema.GroupVersionKind"),
		action: func(s *St, call ssa.CallInstruction, n string) bool {
			if n != "builtin.append" || !isSliceOf(call.Common().Args[0].Type(), "schema.GroupVersionKind") {
				return false
			}
			es := k.sliceElems(s.Ctx, call.Common().Args[1])
			good := len(es) == 1 && es[0].v != nil
			if good {
				t := s.PTIn(es[0].c, es[0].v)
				good = isGetGVK(t) && elemSrc(t.Args[0].Args[0])
			}
			k.check(good, R, construct, k.pr.at(call), "something else than the kind of the source is registered (path %s)", s.Trace())
			return true
		},
		skipOK: func(s *St, c *Term, taken bool) bool {
			return c.Op == "bin" && isType(c.Args[0]) && c.Args[1].Sym == periodic && (c.Sym == "==") == taken && (c.Sym == "==" || c.Sym == "!=") ||
				c.Op == "bin" && isType(c.Args[1]) && c.Args[0].Sym == periodic && (c.Sym == "==") == taken && (c.Sym == "==" || c.Sym == "!=")
		}})

	// reported kinds
	if g := k.fn("controller.DeclarativeController.GetGVKs"); g != nil {
		k.ok(R, fnName(g), k.pr.pos(g.Pos()))
		isApp := func(s *St, call ssa.CallInstruction, n string) bool {
			return n == "builtin.append" && isSliceOf(call.Common().Args[0].Type(), "schema.GroupVersionKind")
		}
		checkLoops(k, g, &loopSpec{rule: R, min: 1, flow: true, what: "reporting the kind of the source", over: func(t *Term) bool { return isField(t, "sources") },
			action: isApp,
			skipOK: func(s *St, c *Term, taken bool) bool {
				x, eq, ok := eqConst(c, "nil", taken)
				return ok && !eq && x.Op == "ext"
			}})
	}
	k.operatorKinds(R)
}

// operatorKinds: the kinds of an operator are those of all its controllers in its own group.
func (k *K) operatorKinds(R string) {
	fn := k.fn("operator.Operator.GetGVKs")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, flow: true, what: "collecting the kinds of the controller", over: func(t *Term) bool { return isField(t, "controllers") },
		action: func(s *St, call ssa.CallInstruction, n string) bool {
			return strings.HasSuffix(n, "Controller.GetGVKs")
		}})
	// an element is left out only if it belongs to another group or was seen
	isGroup := func(t *Term) bool {
		return t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && (isField(t.Args[0], "Group") && isCallTo(t.Args[1], "view/v1alpha1.Group") || isField(t.Args[1], "Group") && isCallTo(t.Args[0], "view/v1alpha1.Group"))
	}
	added := 0
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if s.loopOver(cond) != nil {
			dropFlag(s, "own")
			return
		}
		if isGroup(t) {
			if (t.Sym == "==") == taken {
				addFlag(s, "own")
			}
			return
		}
		seen := t.Op != "bin" && t.Has(func(x *Term) bool {
			return x.Op == "lookup" || x.Op == "index" || isCallTo(x, "slices.Contains", "sets.Set.Has")
		})
		x, _, isNilCmp := eqConst(t, "nil", taken)
		empty := false
		if a, b := t, t; t.Op == "bin" {
			a, b = t.Args[0], t.Args[1]
			empty = (isCallTo(a, "builtin.len") && b.Sym == "0" || isCallTo(b, "builtin.len") && a.Sym == "0")
		}
		_ = x
		k.check(seen || isNilCmp || empty, R, construct, k.pr.pos(cond.Pos()), "whether a kind is reported depends on %s", short(t))
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n == "builtin.append" && isSliceOf(call.Common().Args[0].Type(), "schema.GroupVersionKind") {
			es := k.sliceElems(s.Ctx, call.Common().Args[1])
			if len(es) == 1 && es[0].v != nil {
				added++
				k.check(hasFlag(s, "own"), R, construct, k.pr.at(call), "kinds of other groups are reported as views of the operator (path %s)", s.Trace())
			}
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(added > 0, R, construct, k.pr.pos(fn.Pos()), "no kinds are collected")
	// symmetric registration
	for _, m := range []string{"RegisterGVKs", "UnregisterGVKs"} {
		f := k.fn("operator.Operator." + m)
		if f == nil {
			continue
		}
		k.ok(R, fnName(f), k.pr.pos(f.Pos()))
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			nilEdge(s, s.condPT(cond), taken, func(t *Term) bool { return isField(t, "apiServer") }, "server")
		}
		rule.Call = func(s *St, call ssa.CallInstruction, n string) {
			if n == "apiserver.APIServer."+m {
				t := s.PT(callArgs(call.Common())[1])
				k.check(isCallTo(t, "operator.Operator.GetGVKs"), R, fnName(f), k.pr.at(call), "other kinds than those of the operator are passed: %s", short(t))
				addFlag(s, "done")
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			k.check(hasFlag(s, "done") || hasFlag(s, "server:nil"), R, fnName(f), k.pr.at(ret), "the API server is not told about the kinds of the operator (path %s)", s.Trace())
		}
		x := k.explore(rule)
		x.Run(f, "")
		k.done(x, R, fnName(f))
	}
}

func (k *K) isConfig(t *Term) bool {
	return isParam(t, "arg2") || isField(t, "config")
}

// content is the term of a value, looking through a variable that is assigned once.
func (k *K) content(s *St, v ssa.Value) *Term {
	t := s.PT(v)
	if elemOf(t) == nil {
		if c := k.varContent(t); c != nil {
			return c
		}
	}
	return t
}

func isSliceOf(t types.Type, elem string) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeShort(s.Elem()) == elem
}

// inLoop lists the instructions of the natural loop with header b.
func inLoop(b *ssa.BasicBlock, f func(in ssa.Instruction) bool) bool {
	rc := reach(b.Parent())
	for _, o := range b.Parent().Blocks {
		if o == b || rc[b.Index][o.Index] && rc[o.Index][b.Index] {
			for _, in := range o.Instrs {
				if f(in) {
					return true
				}
			}
		}
	}
	return false
}

// loopCalls selects loops whose body, or a helper it calls, makes such a call.
func (k *K) loopCalls(is func(string) bool) func(b *ssa.BasicBlock) bool {
	var calls func(f *ssa.Function, d int) bool
	match := func(in ssa.Instruction, d int) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if is(calleeName(c.Common())) {
			return true
		}
		if f := c.Common().StaticCallee(); f != nil && inModule(f) && f.Object() != nil && !f.Object().Exported() {
			return calls(f, d+1)
		}
		return false
	}
	calls = func(f *ssa.Function, d int) bool {
		if d > 3 {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if match(in, d) {
					return true
				}
			}
		}
		return false
	}
	return func(b *ssa.BasicBlock) bool {
		return inLoop(b, func(in ssa.Instruction) bool { return match(in, 0) })
	}
}

// loopAppends selects loops whose body appends to a list of such elements.
func (k *K) loopAppends(elem string) func(b *ssa.BasicBlock) bool {
	return func(b *ssa.BasicBlock) bool {
		return inLoop(b, func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && calleeName(c.Common()) == "builtin.append" && isSliceOf(c.Common().Args[0].Type(), elem)
		})
	}
}

// dependsOnIndex: a string built from the position of a loop.
func (k *K) dependsOnIndex(s *St, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var dep func(c *Ctx, v ssa.Value, d int) bool
	dep = func(c *Ctx, v ssa.Value, d int) bool {
		c, v = s.RootIn(c, v)
		if d > 12 || seen[v] {
			return false
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			return induction(y)
		case *ssa.BinOp:
			return induction(y) || dep(c, y.X, d+1) || dep(c, y.Y, d+1)
		case *ssa.Convert:
			return dep(c, y.X, d+1)
		case *ssa.Extract:
			if n, ok := y.Tuple.(*ssa.Next); ok {
				_ = n
				return y.Index == 1
			}
		case *ssa.Call:
			for _, a := range y.Common().Args {
				if dep(c, a, d+1) {
					return true
				}
			}
		case *ssa.Slice:
			for _, e := range k.sliceElems(c, v) {
				if e.v != nil && dep(e.c, e.v, d+1) {
					return true
				}
			}
		}
		return false
	}
	return dep(s.Ctx, v, 0)
}
