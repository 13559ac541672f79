package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// literal returns the fields of a struct value built in place (a composite literal, possibly through
// a helper), on this path.
func (k *K) literal(s *St, v ssa.Value) map[string]ctxVal { return k.literalIn(s, s.Ctx, v) }

func (k *K) literalIn(s *St, c *Ctx, v ssa.Value) map[string]ctxVal {
	c, w := s.RootIn(c, v)
	for i := 0; i < 6; i++ {
		c, w = k.R.origin(c, w)
		u, ok := w.(*ssa.UnOp)
		if ok && u.Op == token.MUL {
			cc, p := s.RootIn(c, u.X)
			if al, ok := p.(*ssa.Alloc); ok {
				if sv := singleStore(al); sv != nil && !hasFieldStores(al) {
					c, w = s.RootIn(cc, sv)
					continue
				}
				c, w = cc, al
				break
			}
		}
		break
	}
	al, ok := w.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	r := map[string]ctxVal{}
	st := structOf(al.Type())
	for f := 0; st != nil && s.x.rule.Flow && f < st.NumFields(); f++ {
		if e := s.fieldIn(c, al, f); e != "" && e[0] == 'v' {
			cc, w := s.root(e)
			r[st.Field(f).Name()] = ctxVal{cc, w}
		} else if e != "" && e[0] == 'L' {
			// a copy of another struct
			if i := strings.LastIndexByte(string(e), ':'); i > 2 {
				cc, w := s.root(AVal("v:" + string(e)[2:i]))
				r["@"+st.Field(f).Name()] = ctxVal{cc, w}
			}
		}
	}
	if len(r) > 0 {
		return r
	}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fa.Referrers() == nil {
			continue
		}
		n := 0
		var val ssa.Value
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				n++
				val = st.Val
			}
		}
		name := fieldName(fa.X.Type(), fa.Field)
		if n == 1 {
			if _, dup := r[name]; dup {
				r[name] = ctxVal{}
				continue
			}
			r[name] = ctxVal{c, val}
		}
	}
	return r
}

func hasFieldStores(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok && fa.Referrers() != nil {
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					return true
				}
			}
		}
	}
	return false
}

// lit is the term of a field of a literal on this path.
func (k *K) lit(s *St, m map[string]ctxVal, f string) *Term {
	e, ok := m[f]
	if b, of := m["@"+f]; !ok && of {
		return &Term{Op: "field", Sym: f, Args: []*Term{s.PTIn(b.c, b.v)}}
	}
	if !ok || e.v == nil {
		return &Term{Op: "const", Sym: "zero"}
	}
	c, v := s.RootIn(e.c, e.v)
	return k.R.T(c, v)
}

func isEnqueue(n string) bool {
	return strings.HasPrefix(n, "workqueue.") && (strings.HasSuffix(n, ".Add") || strings.HasSuffix(n, ".AddRateLimited") || strings.HasSuffix(n, ".AddAfter"))
}

func method1(t *Term, name string, of func(*Term) bool) bool {
	return t.Op == "call" && strings.HasSuffix(t.Sym, "."+name) && len(t.Args) >= 1 && of(t.Args[0])
}

// ---------------------------------------------------------------- R02

func runR02(k *K) {
	const R = "events"
	for _, ev := range []struct{ method, typ, field string }{{"Create", "Added", "Object"}, {"Update", "Updated", "ObjectNew"}, {"Delete", "Deleted", "Object"}, {"Generic", "", ""}} {
		fn := k.fn("reconciler.EventHandler." + ev.method)
		if fn == nil {
			continue
		}
		construct := fnName(fn)
		isObj := func(t *Term) bool { return isField(t, ev.field) && isParam(t.Args[0], "arg1") }
		rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
		rule.Call = func(s *St, call ssa.CallInstruction, n string) {
			if !isEnqueue(n) {
				return
			}
			args := callArgs(call.Common())
			if ev.typ == "" {
				k.fail(R, construct, k.pr.at(call), "a request is made from a generic event")
				return
			}
			k.check(!hasFlag(s, "q"), R, construct, k.pr.at(call), "an event is enqueued twice (path %s)", s.Trace())
			k.check(isParam(s.PT(args[0]), "arg2"), R, construct, k.pr.at(call), "the request goes to another queue: %s", s.PT(args[0]))
			addFlag(s, "q")
			m := k.literal(s, args[1])
			if !k.check(m != nil, R, construct, k.pr.at(call), "undecided: the request is not built here: %s", s.PT(args[1])) {
				return
			}
			ty := strings.Trim(k.lit(s, m, "EventType").Sym, `"`)
			k.check(ty == ev.typ, R, construct, k.pr.at(call), "a %s event must become a request of type %s, becomes %q", ev.method, ev.typ, ty)
			for f, g := range map[string]string{"Name": "GetName", "Namespace": "GetNamespace"} {
				t := k.lit(s, m, f)
				k.check(method1(t, g, isObj), R, construct, k.pr.at(call), "the %s of the request must be that of the object, is %s", f, t)
			}
			t := k.lit(s, m, "GVK")
			k.check(t.Op == "call" && strings.HasSuffix(t.Sym, ".GroupVersionKind") && t.Has(isObj), R, construct, k.pr.at(call), "the kind of the request must be that of the object, is %s", t)
			t = k.lit(s, m, "Object")
			snap := func(x *Term) bool { return isCallTo(x, "object.DeepCopy") && isObj(x.Args[0]) }
			// objects that are not unstructured have no snapshot
			k.check(snap(t) || (isNil(t) || t.Sym == "zero") && hasFlag(s, "typed"), R, construct, k.pr.at(call), "the request must carry a private copy of the object of the event, carries %s (path %s)", t, s.Trace())
		}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			for t.Op == "un" && t.Sym == "!" {
				t, taken = t.Args[0], !taken
			}
			if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isObj(t.Args[0].Args[0]) && !taken {
				addFlag(s, "typed")
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			if ev.typ != "" {
				k.check(hasFlag(s, "q"), R, construct, k.pr.at(ret), "a %s event is dropped (path %s)", ev.method, s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
		k.ok(R, construct, k.pr.pos(fn.Pos()))
	}
	k.timer()
	k.trigger()
}

// isPeriod: the period of the source.
func isPeriod(t *Term) bool {
	return t.Op == "field" && t.V != nil && typeShort(t.V.Type()) == "time.Duration" || t.Op == "field" && t.Has(func(x *Term) bool { return isParam(x, "recv") })
}

// periodEdge records that the period is known to be positive.
func periodEdge(s *St, cond ssa.Value, taken bool) {
	t := s.condPT(cond)
	if t.Op != "bin" {
		return
	}
	a, b, op := t.Args[0], t.Args[1], t.Sym
	if isPeriod(b) {
		a, b = b, a
		op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
	}
	if !isPeriod(a) {
		return
	}
	if b.Sym == "0" && (op == "<=" && !taken || op == ">" && taken) || b.Sym == "1" && (op == "<" && !taken || op == ">=" && taken) {
		addFlag(s, "pos")
	}
}

// timerStart: a timer runs with the period of the source, which must be positive.
func (k *K) timerStart(s *St, call ssa.CallInstruction, n, R, construct string) {
	if n == "time.NewTicker" || n == "time.NewTimer" || n == "time.Tick" {
		a := s.PT(call.Common().Args[0])
		k.check(isPeriod(a), R, construct, k.pr.at(call), "the timer does not run with the period of the source: %s", a)
		k.check(hasFlag(s, "pos"), R, construct, k.pr.at(call), "the timer is started with a period that is not positive: it would panic (path %s)", s.Trace())
		addFlag(s, "timer")
	}
}

// timer: the source of type Periodic enqueues a request at every tick until it is stopped.
func (k *K) timer() {
	const R = "timer"
	starts := 0
	for _, fn := range k.fnsIn("pkg/reconciler") {
		if fn.Name() != "Start" || fn.Signature.Recv() == nil {
			continue
		}
		starts++
		construct := fnName(fn)
		var loops []*Ctx
		var start []string
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		rule.Edge = periodEdge
		rule.Call = func(s *St, call ssa.CallInstruction, n string) { k.timerStart(s, call, n, R, construct) }
		rule.Instr = func(s *St, in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				if tg := k.R.callee(s.Ctx, g.Common()); tg != nil {
					loops = append(loops, k.R.ctx(s.Ctx, g, nil, tg.fn, tg.mc, tg.mcCtx))
					start = append(start, s.Auto)
					addFlag(s, "go")
				}
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			if s.RetVal(ret, -1) == "nonnil" {
				return
			}
			if t := s.RetPT(ret, -1); s.RetVal(ret, -1) == "" && (t.Op == "ext" || t.Op == "call") {
				return
			}
			k.check(hasFlag(s, "go"), R, construct, k.pr.at(ret), "the source reports success without running (path %s)", s.Trace())
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
		if !k.check(len(loops) > 0, R, construct, k.pr.pos(fn.Pos()), "no timer loop is started") {
			continue
		}
		for i, l := range loops {
			k.timerLoop(R, construct, l, start[i])
		}
	}
	k.check(starts > 0, R, "pkg/reconciler", "", "no timer source found")
}

func (k *K) timerLoop(R, construct string, c *Ctx, start string) {
	isTick := func(t *Term) bool { return isField(t, "C") || t.HasCall("time.Tick", "time.After") }
	adds := 0
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	pending := func(s *St, at ssa.Instruction) {
		if hasFlag(s, "tick") && !hasFlag(s, "added") {
			k.fail(R, construct, k.pr.at(at), "a tick can pass without a request (path %s)", s.Trace())
		}
	}
	again := func(s *St) {
		f := parseFlags(s.Auto)
		for n := range f {
			if n != "timer" && n != "pos" {
				delete(f, n)
			}
		}
		s.Auto = f.String()
	}
	tick := func(s *St, at ssa.Instruction) {
		again(s)
		addFlag(s, "tick")
		k.check(hasFlag(s, "timer"), R, construct, k.pr.at(at), "the loop runs without a timer (path %s)", s.Trace())
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.Select:
			pending(s, in)
			again(s)
		case *ssa.UnOp:
			if y.Op == token.ARROW && isTick(s.T(y.X)) {
				pending(s, in)
				tick(s, in)
			}
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		periodEdge(s, cond, taken)
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL {
			return
		}
		e, ok := b.X.(*ssa.Extract)
		if !ok {
			return
		}
		sel, ok := e.Tuple.(*ssa.Select)
		if !ok || e.Index != 0 {
			return
		}
		i, ok := intConst(b.Y)
		if !ok || int(i) >= len(sel.States) {
			return
		}
		if taken {
			ch := s.T(sel.States[i].Chan)
			if isTick(ch) {
				tick(s, sel)
			} else {
				addFlag(s, "other")
			}
		} else {
			addFlag(s, "not:"+itoa(int(i)))
			// the last remaining case
			left := -1
			for j := range sel.States {
				if !hasFlag(s, "not:"+itoa(j)) {
					if left >= 0 {
						return
					}
					left = j
				}
			}
			if left < 0 && sel.Blocking {
				s.Stop = true
				return
			}
			if left >= 0 && sel.Blocking && isTick(s.T(sel.States[left].Chan)) {
				tick(s, sel)
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		k.timerStart(s, call, n, R, construct)
		if !isEnqueue(n) {
			return
		}
		adds++
		if hasFlag(s, "tick") {
			addFlag(s, "added")
		}
		m := k.literal(s, callArgs(call.Common())[1])
		if m == nil {
			return
		}
		g := k.lit(s, m, "GVK")
		k.check(isGetGVK(g), R, construct, k.pr.at(call), "the request must name the kind of the source, names %s", g)
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		pending(s, ret)
		if hasFlag(s, "tick") {
			k.fail(R, construct, k.pr.at(ret), "the timer loop ends after a tick (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.RunCtx(c, start)
	k.done(x, R, construct)
	k.check(adds > 0, R, construct, k.pr.pos(c.fn.Pos()), "ticks make no requests")
}

// trigger: a one-shot source injects a single object of its own kind before watching it.
func (k *K) trigger() {
	const R = "one-shot trigger"
	for _, t := range k.implementers("pkg/reconciler", "reconciler.Source") {
		if returnsConst(k.method(t, "Type")) != "OneShot" {
			continue
		}
		fn := k.method(t, "GetSource")
		if fn == nil {
			continue
		}
		construct := fnName(fn)
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		rule.Call = func(s *St, call ssa.CallInstruction, n string) {
			args := callArgs(call.Common())
			switch {
			case strings.HasSuffix(n, ".SetGroupVersionKind"):
				if isGetGVK(s.PT(args[1])) {
					addFlag(s, "gvk@"+short(s.PT(args[0])))
				}
			case strings.HasSuffix(n, ".SetName"):
				if tt := s.PT(args[1]); tt.Op == "const" && tt.Sym != `""` {
					addFlag(s, "name@"+short(s.PT(args[0])))
				}
			case n == "client.Client.Create" || n == "client.Writer.Create":
				o := short(s.PT(args[2]))
				k.check(hasFlag(s, "gvk@"+o) && hasFlag(s, "name@"+o), R, construct, k.pr.at(call), "the trigger object has no kind or name (path %s)", s.Trace())
				k.check(!hasFlag(s, "created"), R, construct, k.pr.at(call), "the trigger is injected twice")
				addFlag(s, "created")
			case n == "source.TypedKind" || n == "source.Kind":
				k.check(hasFlag(s, "created"), R, construct, k.pr.at(call), "the source is watched without injecting its trigger (path %s)", s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
		k.ok(R, construct, k.pr.pos(fn.Pos()))
	}
	k.atLeast(R, 1)
}

// ---------------------------------------------------------------- R03

func runR03(k *K) {
	const R = "reconcilers"
	n := 0
	for _, t := range k.pkgTypes("pkg/controller") {
		fn := k.method(t, "Reconcile")
		if fn == nil || fn.Signature.Params().Len() != 2 || typeShort(fn.Signature.Params().At(1).Type()) != "reconciler.Request" {
			continue
		}
		n++
		k.reconcilerPath(R, fn)
	}
	k.check(n >= 2, R, "pkg/controller", "", "expected the incremental and the state-of-the-world reconciler, found %d", n)
}

func (k *K) reconcilerPath(R string, fn *ssa.Function) {
	construct := fnName(fn)
	isReq := func(f string) func(*Term) bool {
		return func(t *Term) bool {
			if isField(t, f) && isParam(t.Args[0], "arg1") {
				return true
			}
			get := map[string]string{"Object": "GetObject", "EventType": "GetEventType"}[f]
			return t.Op == "call" && t.Sym == "reconciler.Request."+get && isParam(t.Args[0], "arg1")
		}
	}
	reqObj, reqType := isReq("Object"), isReq("EventType")
	kind := "" // what computes the deltas
	isRes := func(t *Term) bool {
		return extOf(t, 0, "pipeline.Evaluator.Evaluate", "pipeline.Pipeline.Evaluate", "pipeline.Evaluator.Sync", "pipeline.Pipeline.Sync") != nil
	}
	isWrite := func(nm string) bool { return nm == "reconciler.Target.Write" }
	errOf := func(t *Term) string { // the failure of which call
		switch {
		case t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "call" && (strings.HasSuffix(t.Args[0].Sym, ".Evaluate") || strings.HasSuffix(t.Args[0].Sym, ".Sync")):
			return t.Args[0].Sym
		case isCallTo(t, "reconciler.Target.Write"):
			return t.Sym
		}
		return ""
	}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		args := callArgs(call.Common())
		switch {
		case nm == "pipeline.Evaluator.Evaluate" || nm == "pipeline.Pipeline.Evaluate":
			kind = "incremental"
			k.check(!hasFlag(s, "eval"), R, construct, k.pr.at(call), "the event is evaluated twice: it would be counted twice (path %s)", s.Trace())
			addFlag(s, "eval")
			m := k.literal(s, args[1])
			if !k.check(m != nil, R, construct, k.pr.at(call), "undecided: the evaluated delta is not built here") {
				return
			}
			ty := k.lit(s, m, "Type")
			want := enumValue(s, "type")
			k.check(reqType(ty) || want != "" && strings.Trim(ty.Sym, `"`) == want, R, construct, k.pr.at(call), "the delta must have the type of the event, has %s", ty)
			o := k.lit(s, m, "Object")
			private := func(x *Term) bool { return isCallTo(x, "object.DeepCopy") && reqObj(x.Args[0]) }
			good := isCallTo(o, "object.DecodeSecretData") && private(o.Args[0]) || private(o) && hasFlag(s, "decoded")
			k.check(good, R, construct, k.pr.at(call), "the delta must hold a private, decoded copy of the object of the event, holds %s", o)
		case nm == "object.DecodeSecretData":
			a := s.PT(args[0])
			k.check(isCallTo(a, "object.DeepCopy"), R, construct, k.pr.at(call), "secrets are decoded in place: the object of the request is modified, a retry would decode it again")
			if isCallTo(a, "object.DeepCopy") && reqObj(a.Args[0]) {
				addFlag(s, "decoded")
			}
		case nm == "pipeline.Evaluator.Sync" || nm == "pipeline.Pipeline.Sync":
			kind = "snapshot"
			addFlag(s, "eval")
		case isWrite(nm):
			d := s.PT(args[2])
			if e := elemOf(d); !(e != nil && isRes(e)) {
				// loop variables may be copied
				dd := k.varContent(d)
				e = elemOf(dd)
				k.check(e != nil && isRes(e), R, construct, k.pr.at(call), "what is written must be a delta computed by the pipeline, is %s", d)
			}
			o := s.PT(args[3])
			if kind == "incremental" {
				k.check(reqObj(o), R, construct, k.pr.at(call), "the object of the request must be passed for conflict detection, is %s", o)
			} else {
				k.check(isNil(o), R, construct, k.pr.at(call), "a synchronization has no original object, %s is passed", o)
			}
		case strings.HasPrefix(nm, "controller.errorReporter.Push"):
			addFlag(s, "pushed")
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if enumEdge(s, t, taken, reqType, "type") {
			return
		}
		if x, eq, ok := eqConst(t, "nil", taken); ok && errOf(x) != "" && !eq {
			dropFlag(s, "pushed")
			addFlag(s, "E")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		if f["E"] {
			k.check(s.RetVal(ret, -1) == "nonnil" || errOf(s.RetPT(ret, -1)) != "", R, construct, k.pr.at(ret), "a failure of the pipeline or of the target is not returned: the request is not retried (path %s)", s.Trace())
			k.check(f["pushed"], R, construct, k.pr.at(ret), "a failure of the pipeline or of the target is not recorded in the status of the controller (path %s)", s.Trace())
			return
		}
		if !f["eval"] {
			ty := enumValue(s, "type")
			for _, w := range []string{"Added", "Updated", "Replaced", "Deleted"} {
				k.check(kind != "snapshot" && f["type!"+w] && ty == "" || ty != "" && ty != w, R, construct, k.pr.at(ret), "an event of type %s can be dropped (path %s)", w, s.Trace())
			}
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(kind != "", R, construct, k.pr.pos(fn.Pos()), "the reconciler does not use the pipeline")
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "writing the delta to the target", over: isRes,
		action: func(s *St, call ssa.CallInstruction, n string) bool { return isWrite(n) }})
}
