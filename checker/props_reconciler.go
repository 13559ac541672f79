package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R01", "source set-up: every path of a source's GetSource that starts a watch must have added the filter for every restriction the specification gives (labels propagated through appends and helpers), on the kind and the cache of the source; decision tables of the predicate names", runR01)
	register("R02", "events to requests: every path of the event handlers and the timer loop: event type, object snapshot, identity and exactly one enqueue", runR02)
	register("R03", "reconcilers: provenance of the evaluated delta and of every written delta, completeness of the write loop, reporting of failures", runR03)
	register("R04", "target writes: path-sensitive provenance of the written object: private copy, target kind, name and namespace restored after every modification", runR04)
	register("R05", "target operations: decision table (target type, delta type) to write operation over every path of the target writer, completeness of the content update", runR05)
	register("R06", "write helpers: order and provenance of create, update and status update on every path, second iteration of the conflict retry explored explicitly", runR06)
	register("R08", "kind resolution: decision table over group, version and kind on every path", runR08)
}

// condPT is the term of a branch condition with its operands as they are on the path.
func (s *St) condPT(cond ssa.Value) *Term {
	if b, ok := cond.(*ssa.BinOp); ok {
		return &Term{Op: "bin", Sym: b.Op.String(), Args: []*Term{s.PT(b.X), s.PT(b.Y)}, V: cond, Ctx: s.Ctx}
	}
	if u, ok := cond.(*ssa.UnOp); ok && u.Op.String() == "!" {
		return &Term{Op: "un", Sym: "!", Args: []*Term{s.condPT(u.X)}, V: cond, Ctx: s.Ctx}
	}
	return s.PT(cond)
}

// returnsConst: a function that returns one string constant.
func returnsConst(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	r := ""
	for _, v := range returnedValues(f, 0) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			return ""
		}
		if r != "" && r != constant.StringVal(c.Value) {
			return ""
		}
		r = constant.StringVal(c.Value)
	}
	return r
}

// specField: t is field name of the specification held by (or given to) the function.
func specField(t *Term, owner, name string) bool {
	if !isField(t, name) {
		return false
	}
	b := t.Args[0]
	var v types.Type
	if b.V != nil {
		v = b.V.Type()
	}
	return v != nil && typeShort(deref(v)) == owner
}

func isGetGVK(t *Term) bool {
	return t.Op == "ext" && t.Sym == "0" && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Sym, ".GetGVK")
}

// unionLab joins comma separated labels.
func unionLab(ls ...string) string {
	m := map[string]bool{}
	for _, l := range ls {
		for _, p := range strings.Split(l, ",") {
			if p != "" {
				m[p] = true
			}
		}
	}
	var r []string
	for p := range m {
		r = append(r, p)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

// listLab is the label of a list: of a list built by appends, or of a literal.
func (k *K) listLab(s *St, v ssa.Value, kind func(c *Ctx, v ssa.Value) string) string {
	if l := s.Lab(v); l != "" {
		return l
	}
	c, w := s.Root(v)
	l := ""
	for _, e := range k.sliceElems(c, w) {
		l = unionLab(l, kind(e.c, e.v))
	}
	return l
}

const srcSpec = "v1alpha1.Source"

func specName(t types.Type) string {
	n := typeShort(deref(t))
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// isSpec: t is field name of a value of the operator API type.
func isSpec(t *Term, typ, name string) bool {
	return isField(t, name) && t.Args[0].V != nil && specName(t.Args[0].V.Type()) == typ
}

func runR01(k *K) {
	const R = "source filters"
	srcs := map[string]*types.Named{}
	for _, t := range k.implementers("pkg/reconciler", "reconciler.Source") {
		if n := returnsConst(k.method(t, "Type")); n != "" {
			if srcs[n] != nil {
				k.fail(R, "reconciler.Source", "", "two sources report type %s", n)
			}
			srcs[n] = t
		}
	}
	for _, n := range []string{"Watcher", "OneShot", "Periodic"} {
		k.check(srcs[n] != nil, R, "reconciler.Source "+n, "", "no source implements type %s", n)
	}
	if srcs["Watcher"] == nil {
		return
	}
	watches := 0
	for n, t := range srcs {
		fn := k.method(t, "GetSource")
		if fn == nil {
			continue
		}
		construct := fnName(fn)
		rule := &Rule{MaxDepth: 5, Inline: helperInline, Flow: true}
		spec := []string{"Predicate", "LabelSelector", "Namespace"}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			for _, f := range spec {
				f := f
				if nilEdge(s, t, taken, func(x *Term) bool { return isSpec(x, "v1alpha1.Source", f) }, f) {
					return
				}
			}
		}
		kind := func(s *St) func(c *Ctx, v ssa.Value) string { return nil }
		var elem func(s *St, c *Ctx, v ssa.Value) string
		kind = func(s *St) func(c *Ctx, v ssa.Value) string {
			return func(c *Ctx, v ssa.Value) string { return elem(s, c, v) }
		}
		elem = func(s *St, c *Ctx, v ssa.Value) string {
			c, v = s.RootIn(c, v)
			t := k.R.T(c, v)
			arg := func(x *Term) *Term {
				if x.Op == "ext" {
					x = x.Args[0]
				}
				for len(x.Args) > 0 && x.Op == "call" {
					return x.Args[0]
				}
				return x
			}
			switch {
			case extOf(t, 0, "predicate.FromPredicate", "predicate.Predicate.ToPredicate") != nil && isSpec(arg(t), "v1alpha1.Source", "Predicate"):
				return "Predicate"
			case extOf(t, 0, "predicate.FromLabelSelector", "x/predicate.LabelSelectorPredicate") != nil && isSpec(arg(t), "v1alpha1.Source", "LabelSelector"):
				return "LabelSelector"
			case isCallTo(t, "predicate.FromNamespace") && isSpec(arg(t), "v1alpha1.Source", "Namespace"):
				return "Namespace"
			case isCallTo(t, "x/predicate.And"):
				if call, ok := v.(*ssa.Call); ok {
					sc := s.Ctx
					s.Ctx = c
					l := k.listLab(s, call.Call.Args[0], kind(s))
					s.Ctx = sc
					return l
				}
			}
			return "other"
		}
		rule.AfterCall = func(s *St, call ssa.CallInstruction, nm string) {
			if nm != "builtin.append" {
				return
			}
			c := call.(*ssa.Call)
			if !strings.Contains(c.Type().String(), "Predicate") {
				return
			}
			l := s.Lab(c.Call.Args[0])
			if es := k.appendArgs(s.Ctx, call); len(es) > 0 {
				for _, e := range es {
					l = unionLab(l, elem(s, e.c, e.v))
				}
			} else {
				l = unionLab(l, k.listLab(s, c.Call.Args[1], kind(s)))
			}
			s.SetLab(c, l)
		}
		rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
			args := callArgs(call.Common())
			switch {
			case strings.HasSuffix(nm, ".SetGroupVersionKind"):
				o := s.PT(args[0])
				if o.Op == "call" && strings.HasSuffix(o.Sym, ".GetObjectKind") {
					o = o.Args[0]
				}
				if isGetGVK(s.PT(args[1])) {
					addFlag(s, "gvk@"+short(o))
				}
			case nm == "source.TypedKind" || nm == "source.Kind":
				watches++
				k.ok(R, construct, k.pr.at(call))
				ct := s.PT(args[0])
				k.check(ct.Op == "call" && strings.HasSuffix(ct.Sym, ".GetCache"), R, construct, k.pr.at(call), "the watch must be on the cache of the manager, is on %s", ct)
				k.check(hasFlag(s, "gvk@"+short(s.PT(args[1]))), R, construct, k.pr.at(call), "the watched object does not get the kind of the source (path %s)", s.Trace())
				k.check(strings.Contains(args[2].Type().String()+s.PT(args[2]).String(), "EventHandler") || typeHas(args[2], "EventHandler"), R, construct, k.pr.at(call), "the events are handled by %s", s.PT(args[2]))
				if n != "Watcher" {
					return
				}
				l := ","
				if len(args) > 3 {
					l = "," + k.listLab(s, args[3], kind(s)) + ","
				}
				f := parseFlags(s.Auto)
				for _, sp := range spec {
					has := strings.Contains(l, ","+sp+",")
					if f[sp+":nil"] {
						k.check(!has, R, construct, k.pr.at(call), "a filter for %s is installed although none is specified", sp)
					} else {
						k.check(has, R, construct, k.pr.at(call), "a watch is started without the %s of the specification (path %s)", sp, s.Trace())
					}
				}
				k.check(!strings.Contains(l, ",other,"), R, construct, k.pr.at(call), "a filter is installed that is not in the specification (path %s)", s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
	}
	k.check(watches > 0, R, "watches", "", "no watch is started by any source")
	k.sourceDispatch(srcs)
	k.predicateTables()
}

func typeHas(v ssa.Value, name string) bool {
	for i := 0; i < 6; i++ {
		if strings.Contains(v.Type().String(), name) {
			return true
		}
		switch y := v.(type) {
		case *ssa.MakeInterface:
			v = y.X
		case *ssa.ChangeInterface:
			v = y.X
		case *ssa.UnOp:
			v = y.X
		default:
			return false
		}
	}
	return false
}

// sourceDispatch: NewSource creates the source of the requested type.
func (k *K) sourceDispatch(srcs map[string]*types.Named) {
	const R = "source types"
	fn := k.fn("reconciler.NewSource")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		p := fnPkg(callee)
		return p != nil && p.Path() == modPath+"/pkg/reconciler" && callee.Signature.Recv() == nil
	}}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		enumEdge(s, s.condPT(cond), taken, func(t *Term) bool { return isSpec(t, "v1alpha1.Source", "Type") }, "type")
	}
	seen := map[string]bool{}
	rule.Exit = func(s *St, ret *ssa.Return) {
		ty := enumValue(s, "type")
		_, v := s.Root(s.retVal(ret, 0))
		got := ""
		for n, t := range srcs {
			if typeShort(t) == typeShort(deref(v.Type())) {
				got = n
			}
		}
		if ty == "" && !hasFlag(s, "type=") {
			return // unknown types: any
		}
		seen[ty] = true
		want := ty
		if want == "" {
			want = "Watcher"
		}
		k.check(got == want, R, construct+" on "+want, k.pr.at(ret), "a source of type %q must be a %s source, is %q", ty, want, got)
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	for _, n := range []string{"Periodic", "OneShot"} {
		k.check(seen[n], R, construct+" on "+n, k.pr.pos(fn.Pos()), "sources of type %s are not told apart", n)
	}
}

// predicateTables: names of predicates and what they stand for.
func (k *K) predicateTables() {
	const R = "predicate names"
	if fn := k.fn("predicate.BasicPredicate.ToPredicate"); fn != nil {
		want := map[string]string{"GenerationChanged": "GenerationChangedPredicate", "ResourceVersionChanged": "ResourceVersionChangedPredicate", "LabelChanged": "LabelChangedPredicate", "AnnotationChanged": "AnnotationChangedPredicate"}
		construct := fnName(fn)
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			enumEdge(s, s.condPT(cond), taken, func(t *Term) bool { return isParam(t, "recv") }, "name")
		}
		seen := map[string]bool{}
		rule.Exit = func(s *St, ret *ssa.Return) {
			if s.RetVal(ret, -1) == "nonnil" {
				return
			}
			n := enumValue(s, "name")
			seen[n] = true
			_, v := s.Root(s.retVal(ret, 0))
			ts := v.Type().String()
			k.check(want[n] != "" && strings.Contains(ts, want[n]), R, construct+" on "+n, k.pr.at(ret), "predicate %q is accepted and stands for %s", n, ts)
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
		for n := range want {
			k.check(seen[n], R, construct+" on "+n, k.pr.pos(fn.Pos()), "predicate %q is not accepted", n)
		}
	}
	if fn := k.fn("predicate.BoolPredicate.ToPredicate"); fn != nil {
		construct := fnName(fn)
		isKey := func(t *Term) bool { return t.Op == "rangekey" && isParam(t.Args[0], "recv") }
		isArgs := func(t *Term) bool { e := elemOf(t); return e != nil && isParam(e, "recv") }
		// the converted list: filled from every argument at its position
		checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "converting the argument", over: isArgs,
			action: func(s *St, call ssa.CallInstruction, n string) bool {
				return strings.HasSuffix(n, ".ToPredicate") || n == "predicate.FromPredicate"
			}})
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			if enumEdge(s, t, taken, isKey, "op") {
				return
			}
			if x, eq, ok := eqConst(t, "1", taken); ok && isCallTo(x, "builtin.len") {
				if isParam(x.Args[0], "recv") {
					if eq {
						addFlag(s, "single")
					}
				} else if eq {
					addFlag(s, "unary")
				}
			}
		}
		seen := map[string]bool{}
		rule.Exit = func(s *St, ret *ssa.Return) {
			if s.RetVal(ret, -1) == "nonnil" {
				return
			}
			op := enumValue(s, "op")
			t := s.RetPT(ret, 0)
			seen[op] = true
			c := construct + " on " + op
			k.check(hasFlag(s, "single"), R, c, k.pr.at(ret), "a composite predicate with several operators is accepted: one of them is picked at random (path %s)", s.Trace())
			switch op {
			case "And", "Or":
				k.check(isCallTo(t, "x/predicate."+op), R, c, k.pr.at(ret), "operator %s stands for %s", op, t)
				if isCallTo(t, "x/predicate."+op) {
					k.check(k.convertedList(t.Args[0], fn), R, c, k.pr.at(ret), "operator %s is applied to something else than its converted arguments: %s", op, t.Args[0])
				}
			case "Not":
				k.check(isCallTo(t, "x/predicate.Not"), R, c, k.pr.at(ret), "operator Not stands for %s", t)
				k.check(hasFlag(s, "unary"), R, c, k.pr.at(ret), "operator Not accepts several arguments and ignores all but one (path %s)", s.Trace())
			default:
				k.fail(R, c, k.pr.at(ret), "unknown operator %q is accepted (path %s)", op, s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
		for _, n := range []string{"And", "Or", "Not"} {
			k.check(seen[n], R, construct+" on "+n, k.pr.pos(fn.Pos()), "operator %s is not accepted", n)
		}
	}
	if fn := k.fn("predicate.Predicate.ToPredicate"); fn != nil {
		construct := fnName(fn)
		rule := &Rule{MaxDepth: 3, Flow: true, Inline: helperInline}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			nilEdge(s, t, taken, func(x *Term) bool { return isField(x, "BasicPredicate") }, "basic")
			nilEdge(s, t, taken, func(x *Term) bool { return isField(x, "BoolPredicate") }, "bool")
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			if s.RetVal(ret, -1) == "nonnil" {
				return
			}
			t := s.RetPT(ret, 0)
			f := parseFlags(s.Auto)
			b, c := extOf(t, 0, "predicate.BasicPredicate.ToPredicate"), extOf(t, 0, "predicate.BoolPredicate.ToPredicate")
			k.check(b != nil && f["basic:set"] && isField(b.Args[0], "BasicPredicate") || c != nil && f["bool:set"] && isField(c.Args[0], "BoolPredicate"), R, construct, k.pr.at(ret), "a predicate must stand for the alternative that is set, stands for %s", t)
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
	}
	if fn := k.fn("predicate.FromNamespace"); fn != nil {
		construct := fnName(fn)
		n := 0
		rule := &Rule{MaxDepth: 3, Flow: true, Inline: helperInline}
		rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
			if nm != "x/predicate.NewPredicateFuncs" && nm != "x/predicate.NewTypedPredicateFuncs" {
				return
			}
			tg := k.R.funcValue(s.Ctx, call.Common().Args[0])
			if tg == nil {
				return
			}
			n++
			in := &Rule{MaxDepth: 3, Flow: true, Inline: helperInline}
			in.Edge = func(s2 *St, cond ssa.Value, taken bool) {
				boolEdge(s2, s2.condPT(cond), taken, func(t *Term) bool { return nsEq(t) }, "same")
			}
			in.Exit = func(s2 *St, ret *ssa.Return) {
				t := s2.RetPT(ret, 0)
				v := s2.RetVal(ret, 0)
				good := nsEq(t) || v == "true" && hasFlag(s2, "same") || v == "false" && hasFlag(s2, "!same")
				k.check(good, R, construct, k.pr.at(ret), "the namespace filter must admit exactly the objects of the namespace, it answers %s", t)
			}
			x := k.explore(in)
			x.RunCtx(k.R.ctx(s.Ctx, call, nil, tg.fn, tg.mc, tg.mcCtx), "")
			k.done(x, R, construct)
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			t := s.RetPT(ret, 0)
			k.check(isCallTo(t, "x/predicate.NewPredicateFuncs", "x/predicate.NewTypedPredicateFuncs"), R, construct, k.pr.at(ret), "the namespace filter is %s", t)
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
		k.check(n > 0, R, construct, k.pr.pos(fn.Pos()), "the namespace filter does not test anything")
	}
	if fn := k.fn("predicate.FromLabelSelector"); fn != nil {
		for _, v := range returnedValues(fn, 0) {
			t := k.R.T(k.R.rootCtx(fn), v)
			c := extOf(t, 0, "x/predicate.LabelSelectorPredicate")
			k.check(c != nil && isParam(c.Args[0], "arg0"), R, fnName(fn), k.pr.pos(fn.Pos()), "a label selector stands for %s", t)
		}
	}
	if fn := k.fn("predicate.FromPredicate"); fn != nil {
		for _, v := range returnedValues(fn, 0) {
			t := k.R.T(k.R.rootCtx(fn), v)
			c := extOf(t, 0, "predicate.Predicate.ToPredicate")
			k.check(c != nil && isParam(k.varContent(c.Args[0]), "arg0"), R, fnName(fn), k.pr.pos(fn.Pos()), "a predicate stands for %s", t)
		}
	}
}

func nsEq(t *Term) bool {
	if t.Op != "bin" || t.Sym != "==" {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	for i := 0; i < 2; i++ {
		if a.Op == "call" && strings.HasSuffix(a.Sym, ".GetNamespace") && a.Args[0].Op == "param" && isParam(b, "arg0") {
			return true
		}
		a, b = b, a
	}
	return false
}

// convertedList: a list made in fn all of whose elements are converted predicates.
func (k *K) convertedList(t *Term, fn *ssa.Function) bool {
	ok := false
	t.Walk(func(x *Term) bool {
		if x.Op == "alloc" && x.V != nil {
			switch x.V.(type) {
			case *ssa.MakeSlice:
				ok = true
			case *ssa.Alloc:
				ok = true
			}
		}
		return true
	})
	if t.HasCall("builtin.append") {
		ok = true
	}
	return ok
}

// varContent: the value of a local variable that is stored once, for the variable.
func (k *K) varContent(t *Term) *Term {
	if al, ok := t.V.(*ssa.Alloc); ok && t.Op == "alloc" {
		if v := singleStore(al); v != nil {
			return k.R.T(t.Ctx, v)
		}
	}
	return t
}
