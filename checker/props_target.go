package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	for _, n := range []string{"reconciler.CreateOrUpdate", "controllerutil.CreateOrUpdate"} {
		syncHOF[n] = true // calls its mutate function
	}
}

// targetWrite explores the writer of a target and judges what is written (identity) and which
// operation is used (operations).
type targetWrite struct {
	k         *K
	fn        *ssa.Function
	construct string
	identity  string // rule name, "" to skip
	ops       string
	writes    int
	removers  map[*ssa.Function]bool
	closures  map[*ssa.Function]bool
	seen      map[string]bool
}

func isDeltaObj(t *Term) bool { return isField(t, "Object") && isParam(t.Args[0], "arg1") }
func isDeltaCopy(t *Term) bool {
	return isCallTo(t, "object.DeepCopy") && isDeltaObj(t.Args[0])
}

// anyDelta: the object of the delta or the private copy of it.
func anyDelta(t *Term) bool { return isDeltaObj(t) || isDeltaCopy(t) }

func isContent(t *Term, of func(*Term) bool) bool {
	return t.Op == "call" && strings.HasSuffix(t.Sym, ".UnstructuredContent") && of(t.Args[0]) || isField(t, "Object") && of(t.Args[0])
}

func (w *targetWrite) fail(rule string, in ssa.Instruction, f string, a ...any) {
	if rule != "" {
		w.k.fail(rule, w.construct, w.k.pr.at(in), f, a...)
	}
}

func (w *targetWrite) check(ok bool, rule string, in ssa.Instruction, f string, a ...any) {
	if !ok {
		w.fail(rule, in, f, a...)
	}
}

// id names the object a value stands for on the path.
func (s *St) id(v ssa.Value) string { return s.idIn(s.Ctx, v) }

func (s *St) idIn(c *Ctx, v ssa.Value) string {
	c, v = s.RootIn(c, v)
	return strings.TrimPrefix(string(s.x.rootKey(c, v)), "v:")
}

func (s *St) termID(t *Term) string {
	if t.V == nil {
		return "?"
	}
	return s.idIn(t.Ctx, t.V)
}

var objSetters = map[string]string{"SetGroupVersionKind": "gvk", "SetName": "name", "SetNamespace": "ns", "SetKind": "gvk", "SetAPIVersion": "gvk"}

// identified: the object has the kind of the target and the name and namespace of the delta.
func (w *targetWrite) identified(s *St, t *Term, id string) (missing []string) {
	f := parseFlags(s.Auto)
	inherent := isDeltaCopy(t) && !f["patched:"+id]
	if !f["gvk:"+id] {
		missing = append(missing, "kind")
	}
	if !f["name:"+id] && !inherent {
		missing = append(missing, "name")
	}
	if !f["ns:"+id] && !inherent {
		missing = append(missing, "namespace")
	}
	return
}

func (w *targetWrite) isPrivate(t *Term) bool {
	return isCallTo(t, "object.DeepCopy") || isCallTo(t, "object.New") || isCallTo(t, "object.NewViewObject") || t.Op == "new"
}

func (w *targetWrite) run() {
	k := w.k
	w.removers, w.closures, w.seen = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[string]bool{}
	isMode := func(t *Term) bool { return isSpec(t, "v1alpha1.Target", "Type") }
	isType := func(t *Term) bool { return isField(t, "Type") && isParam(t.Args[0], "arg1") }
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return helperInline(s, call, callee) && !recursive(callee)
	}
	orig := func(t *Term) bool { return isParam(t, "arg2") }
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if enumEdge(s, t, taken, isMode, "mode") || enumEdge(s, t, taken, isType, "type") {
			return
		}
		if boolEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "errors.IsNotFound") }, "notfound") {
			return
		}
		// does the original snapshot name the same object?
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && (t.Sym == "==") == taken {
			for i := 0; i < 2; i++ {
				a, b := t.Args[i], t.Args[1-i]
				for m, fl := range map[string]string{"GroupVersionKind": "eqgvk", "GetName": "eqname", "GetNamespace": "eqns"} {
					if method1(a, m, orig) && method1(b, m, anyDelta) {
						if m == "GroupVersionKind" && !hasFlag(s, "gvk:"+s.termID(b.Args[0])) {
							continue
						}
						addFlag(s, fl)
					}
				}
				if isCallTo(a, "client.ObjectKeyFromObject") && isCallTo(b, "client.ObjectKeyFromObject") && orig(a.Args[0]) && anyDelta(b.Args[0]) {
					addFlag(s, "eqname")
					addFlag(s, "eqns")
				}
				if isGetGVK(b) && method1(a, "GroupVersionKind", orig) {
					addFlag(s, "eqgvk")
				}
			}
		}
	}
	op := func(s *St, name string) { addFlag(s, "op:"+name) }
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		args := callArgs(call.Common())
		short := nm[strings.LastIndex(nm, ".")+1:]
		switch {
		case objSetters[short] != "" && len(args) >= 2:
			o := s.PT(args[0])
			id := s.id(args[0])
			w.check(w.isPrivate(o), w.identity, call, "%s modifies an object shared with the caller: %s (path %s)", short, o, s.Trace())
			fl := objSetters[short]
			v := s.PT(args[1])
			good := false
			switch fl {
			case "gvk":
				good = isGetGVK(v) || method1(v, "GroupVersionKind", func(x *Term) bool { return hasFlag(s, "gvk:"+s.termID(x)) })
			case "name":
				good = method1(v, "GetName", anyDelta) || isField(v, "Name") && isCallTo(v.Args[0], "client.ObjectKeyFromObject") && anyDelta(v.Args[0].Args[0])
			case "ns":
				good = method1(v, "GetNamespace", anyDelta) || isField(v, "Namespace") && isCallTo(v.Args[0], "client.ObjectKeyFromObject") && anyDelta(v.Args[0].Args[0])
			}
			if good {
				addFlag(s, fl+":"+id)
			} else {
				dropFlag(s, fl+":"+id)
				addFlag(s, "patched:"+id)
			}
		case nm == "object.Patch":
			o := s.PT(args[0])
			id := s.id(args[0])
			w.check(w.isPrivate(o), w.identity, call, "an object shared with the caller is patched in place: %s (path %s)", o, s.Trace())
			w.check(!isDeltaCopy(o), w.ops, call, "the delta is patched instead of the target")
			if isCallTo(o, "object.DeepCopy") && orig(o.Args[0]) {
				for _, e := range []string{"gvk", "name", "ns"} {
					w.check(hasFlag(s, "eq"+e), w.identity, call, "the object of the request is used as the target although it may be another object: its %s is not compared (path %s)", e, s.Trace())
				}
			} else if !isDeltaCopy(o) {
				w.check(hasFlag(s, "got:"+id), w.identity, call, "a patch is applied to an object that was not read from the target (path %s)", s.Trace())
			}
			c := s.PT(args[1])
			rm := false
			cc, cv := s.Root(args[1])
			if cv, ok := cv.(*ssa.Call); ok && len(cv.Call.Args) == 1 && isContent(s.PTIn(cc, cv.Call.Args[0]), anyDelta) {
				if tg := k.R.callee(cc, cv.Common()); tg != nil && inModule(tg.fn) {
					w.removers[tg.fn] = true
					rm = true
				}
			}
			switch ty := enumValue(s, "type"); {
			case ty == "Deleted":
				w.check(rm, w.ops, call, "deleting from a patch target must remove what the delta names, the patch is %s (path %s)", c, s.Trace())
			case ty != "":
				w.check(isContent(c, anyDelta), w.ops, call, "a patch must be the content of the delta, is %s (path %s)", c, s.Trace())
			}
			for _, fl := range []string{"gvk", "name", "ns"} {
				dropFlag(s, fl+":"+id)
			}
			addFlag(s, "patched:"+id)
			addFlag(s, "merged:"+id)
		case nm == "client.Client.Get" || nm == "client.Reader.Get":
			o := s.PT(args[3])
			id := s.id(args[3])
			w.check(w.isPrivate(o), w.identity, call, "the object of the caller is overwritten by a read")
			key := s.PT(args[2])
			good := isCallTo(key, "client.ObjectKeyFromObject") && (anyDelta(key.Args[0]) || hasFlag(s, "name:"+s.termID(key.Args[0])) && hasFlag(s, "ns:"+s.termID(key.Args[0])))
			if m := k.literal(s, args[2]); m != nil {
				good = method1(k.lit(s, m, "Name"), "GetName", anyDelta) && method1(k.lit(s, m, "Namespace"), "GetNamespace", anyDelta)
			}
			w.check(good, w.identity, call, "the target is read under another name: %s", key)
			w.check(hasFlag(s, "gvk:"+id), w.identity, call, "the target is read as another kind (path %s)", s.Trace())
			addFlag(s, "got:"+id)
		case isClientWrite(nm):
			w.writes++
			i := 2
			if nm == "reconciler.CreateOrUpdate" || nm == "controllerutil.CreateOrUpdate" || nm == "reconciler.Update" {
				i = 2
			}
			o := s.PT(args[i])
			id := s.id(args[i])
			w.check(!(short == "Status"), w.ops, call, "undecided")
			w.check(w.isPrivate(o), w.identity, call, "an object shared with the caller is handed to the client, which modifies it: %s (path %s)", o, s.Trace())
			if miss := w.identified(s, o, id); len(miss) > 0 {
				w.fail(w.identity, call, "%s writes an object whose %s may not be that of the target (path %s)", short, strings.Join(miss, ", "), s.Trace())
			}
			mode, ty := enumValue(s, "mode"), enumValue(s, "type")
			if mode == "" && hasFlag(s, "mode=") {
				mode = "Updater"
			}
			want := "none"
			switch {
			case mode == "Updater" && ty == "Deleted":
				want = "Delete"
			case mode == "Updater" && ty != "":
				want = "CreateOrUpdate"
			case mode == "Patcher" && ty != "":
				want = "Update"
			}
			if want == "CreateOrUpdate" && short == "Create" {
				short = "Create" // reported below
			}
			w.check(short == want, w.ops, call, "%s of a %q delta by a %q target must be done by %s, is done by %s (path %s)", "enforcement", ty, mode, want, short, s.Trace())
			w.check(!hasFlag(s, "op:"+want), w.ops, call, "a delta is written twice (path %s)", s.Trace())
			if want == "Update" {
				w.check(hasFlag(s, "merged:"+id), w.ops, call, "a patch target is written without applying the patch (path %s)", s.Trace())
			}
			op(s, short)
			if strings.HasSuffix(nm, ".CreateOrUpdate") {
				// the mutate function runs on the object as read: everything must be restored
				for _, fl := range []string{"gvk", "name", "ns"} {
					dropFlag(s, fl+":"+id)
				}
				addFlag(s, "patched:"+id)
				addFlag(s, "mutating:"+id)
				tg := k.R.funcValue(s.Ctx, args[3])
				if tg == nil || tg.fn.Blocks == nil {
					w.fail(w.ops, call, "undecided: the mutate function is not known")
				} else {
					w.closures[tg.fn] = true
				}
			}
		case strings.HasSuffix(nm, ".SetLabels") || strings.HasSuffix(nm, ".SetAnnotations"):
			o := s.PT(args[0])
			w.check(w.isPrivate(o), w.identity, call, "%s modifies an object shared with the caller: %s", short, o)
			if hasFlag(s, "mutating:"+s.id(args[0])) {
				addFlag(s, "did"+short)
			}
		case strings.HasSuffix(nm, ".GetLabels") || strings.HasSuffix(nm, ".GetAnnotations"):
			if anyDelta(s.PT(args[0])) {
				addFlag(s, "read"+short)
			}
		}
	}
	rule.Leave = func(s *St, ret *ssa.Return) {
		if !w.closures[s.Ctx.fn] {
			return
		}
		if len(ret.Results) > 0 && s.RetVal(ret, -1) == "nonnil" {
			return
		}
		for f := range parseFlags(s.Auto) {
			if id, ok := strings.CutPrefix(f, "mutating:"); ok {
				for _, fl := range []string{"gvk", "name", "ns"} {
					w.check(hasFlag(s, fl+":"+id), w.identity, ret, "the mutate function does not restore the %s of the object (path %s)", fl, s.Trace())
				}
				for _, m := range []string{"Labels", "Annotations"} {
					w.check(hasFlag(s, "didSet"+m) || hasFlag(s, "no"+m), w.ops, ret, "the %s of the delta are not merged into the object (path %s)", strings.ToLower(m), s.Trace())
				}
			}
		}
	}
	edge := rule.Edge
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		edge(s, cond, taken)
		if s.Stop {
			return
		}
		t := s.condPT(cond)
		for _, m := range []string{"Labels", "Annotations"} {
			is := func(x *Term) bool { return method1(x, "Get"+m, anyDelta) }
			if x, eq, ok := eqConst(t, "nil", taken); ok && eq && is(x) {
				addFlag(s, "no"+m)
			}
			if t.Op == "bin" && isCallTo(t.Args[0], "builtin.len") && is(t.Args[0].Args[0]) {
				z := t.Args[1].Sym == "0"
				if z && (t.Sym == "==" && taken || (t.Sym == "!=" || t.Sym == ">") && !taken) {
					addFlag(s, "no"+m)
				}
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		f := parseFlags(s.Auto)
		mode, ty := enumValue(s, "mode"), enumValue(s, "type")
		if mode == "" && !f["mode="] {
			w.fail(w.ops, ret, "a delta for a target of unknown type is reported as written (path %s)", s.Trace())
			return
		}
		if mode == "" {
			mode = "Updater"
		}
		done := f["op:CreateOrUpdate"] || f["op:Delete"] || f["op:Update"]
		if done {
			w.seen[mode+"/"+ty] = true
			return
		}
		if ty == "Deleted" && mode == "Patcher" && f["notfound"] {
			return
		}
		for _, x := range []string{"Added", "Updated", "Upserted", "Replaced", "Deleted"} {
			if ty == x || ty == "" && !f["type!"+x] {
				w.fail(w.ops, ret, "a %s delta is reported as written by a %s target without writing anything (path %s)", x, mode, s.Trace())
				return
			}
		}
	}
	x := k.explore(rule)
	x.Run(w.fn, "")
	for _, r := range []string{w.identity, w.ops} {
		if r != "" {
			k.done(x, r, w.construct)
			k.ok(r, w.construct, k.pr.pos(w.fn.Pos()))
		}
	}
}

func isClientWrite(nm string) bool {
	switch nm {
	case "reconciler.CreateOrUpdate", "controllerutil.CreateOrUpdate", "reconciler.Update":
		return true
	}
	for _, p := range []string{"client.Client.", "client.Writer.", "client.StatusWriter.", "client.SubResourceWriter."} {
		if m, ok := strings.CutPrefix(nm, p); ok {
			switch m {
			case "Create", "Update", "Patch", "Delete", "DeleteAllOf":
				return true
			}
		}
	}
	return false
}

// recursive: f can call itself, directly or through another function of its package.
func recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function, d int) bool
	walk = func(g *ssa.Function, d int) bool {
		if d > 4 {
			return false
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && inModule(h) {
						if h == f {
							return true
						}
						if !seen[h] {
							seen[h] = true
							if walk(h, d+1) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return walk(f, 0)
}

func (k *K) targetWriters() []*ssa.Function {
	var r []*ssa.Function
	for _, t := range k.implementers("pkg/reconciler", "reconciler.Target") {
		if fn := k.method(t, "Write"); fn != nil && fn.Blocks != nil {
			r = append(r, fn)
		}
	}
	return r
}

func runR04(k *K) {
	const R = "target identity"
	for _, fn := range k.targetWriters() {
		w := &targetWrite{k: k, fn: fn, construct: fnName(fn), identity: R}
		w.run()
		k.check(w.writes > 0, R, w.construct, k.pr.pos(fn.Pos()), "the target writes nothing")
	}
	k.atLeast(R, 1)
}

func runR05(k *K) {
	const R = "target operations"
	for _, fn := range k.targetWriters() {
		w := &targetWrite{k: k, fn: fn, construct: fnName(fn), ops: R}
		w.run()
		for _, m := range []string{"Updater", "Patcher"} {
			for _, ty := range []string{"Added", "Updated", "Upserted", "Replaced", "Deleted"} {
				k.check(w.seen[m+"/"+ty], R, w.construct, k.pr.pos(fn.Pos()), "%s deltas are not written by %s targets", ty, m)
			}
		}
		k.contentLoops(fn)
		for f := range w.removers {
			k.removalPatch(f)
		}
		k.check(len(w.removers) > 0, R, w.construct, k.pr.pos(fn.Pos()), "patch targets never remove anything")
	}
	k.atLeast(R, 1)
}

// contentLoops: the mutate function visits the whole content.
func (k *K) contentLoops(fn *ssa.Function) {
	const R = "content update"
	inl := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return helperInline(s, call, callee) && !recursive(callee)
	}
	mutated := func(t *Term) bool { return isCallTo(t, "object.New") }
	isKey := func(t *Term, of func(*Term) bool) bool { return t.Has(func(x *Term) bool { return isContent(x, of) }) }
	setsField := func(s *St, call ssa.CallInstruction, n string) bool {
		if n != "unstructured.SetNestedField" {
			return false
		}
		a := callArgs(call.Common())
		return isContent(s.PT(a[0]), mutated) && isKey(s.PT(a[1]), anyDelta)
	}
	mapStore := func(from func(*Term) bool, to func(*Term) bool) func(s *St, in ssa.Instruction) bool {
		return func(s *St, in ssa.Instruction) bool {
			u, ok := in.(*ssa.MapUpdate)
			return ok && to(s.PT(u.Map)) && s.PT(u.Value).Has(from)
		}
	}
	meta := func(s *St, cond *Term, taken bool) bool {
		for cond.Op == "un" && cond.Sym == "!" {
			cond, taken = cond.Args[0], !taken
		}
		_, eq, ok := eqConst(cond, `"metadata"`, taken)
		return ok && eq
	}
	checkLoops(k, fn, &loopSpec{rule: R, flow: true, inline: inl, min: 1, what: "setting the field in the target object",
		over: func(t *Term) bool { return isContent(t, anyDelta) }, action: setsField,
		instr:  mapStore(func(t *Term) bool { return isContent(t, anyDelta) }, func(t *Term) bool { return isContent(t, mutated) }),
		skipOK: meta})
	checkLoops(k, fn, &loopSpec{rule: R, flow: true, inline: inl, min: 1, what: "removing the fields the delta does not have",
		over: func(t *Term) bool { return isContent(t, mutated) },
		action: func(s *St, call ssa.CallInstruction, n string) bool {
			a := callArgs(call.Common())
			return (n == "unstructured.RemoveNestedField" || n == "builtin.delete") && isContent(s.PT(a[0]), mutated)
		},
		skipOK: func(s *St, cond *Term, taken bool) bool {
			if meta(s, cond, taken) {
				return true
			}
			for cond.Op == "un" && cond.Sym == "!" {
				cond, taken = cond.Args[0], !taken
			}
			return taken && cond.Op == "ext" && cond.Sym == "1" && cond.Args[0].Has(func(x *Term) bool { return isContent(x, anyDelta) })
		}})
	for _, m := range []string{"Labels", "Annotations"} {
		m := m
		get := func(t *Term) bool { return method1(t, "Get"+m, anyDelta) }
		checkLoops(k, fn, &loopSpec{rule: R, flow: true, inline: inl, min: 1, what: "copying it", over: get,
			instr: func(s *St, in ssa.Instruction) bool {
				u, ok := in.(*ssa.MapUpdate)
				return ok && s.PT(u.Value).Has(get) && s.PT(u.Key).Has(get)
			}})
	}
	k.ok(R, fnName(fn), k.pr.pos(fn.Pos()))
}

// removalPatch: a function that turns the content of a delta into the patch that removes it: every
// leaf of a JSON type becomes null, maps and lists are descended into.
func (k *K) removalPatch(root *ssa.Function) {
	const R = "removal patch"
	fam := map[*ssa.Function]bool{root: true}
	queue := []*ssa.Function{root}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		construct := fnName(f)
		k.ok(R, construct, k.pr.pos(f.Pos()))
		isArg := func(t *Term) bool { return isParam(t, "arg0") }
		isElem := func(t *Term) bool { e := elemOf(t); return e != nil && isArg(e) }
		kindOf := func(t types.Type) string {
			switch u := t.Underlying().(type) {
			case *types.Basic:
				return u.Name()
			case *types.Map:
				return "map"
			case *types.Slice:
				return "list"
			}
			return t.String()
		}
		all := []string{"bool", "int64", "float64", "string", "map", "list"}
		found := false
		settle := func(s *St, at ssa.Instruction) {
			if !hasFlag(s, "in") {
				return
			}
			if !hasFlag(s, "set") {
				for _, a := range all {
					if !hasFlag(s, "!"+a) {
						k.fail(R, construct, k.pr.at(at), "a value of type %s is not removed (path %s)", a, s.Trace())
						break
					}
				}
			}
			s.Auto = ""
		}
		rule := &Rule{MaxDepth: 1, Flow: true, Inline: func(*St, ssa.CallInstruction, *ssa.Function) bool { return false }}
		set := func(s *St, in ssa.Instruction, v ssa.Value) {
			t := s.PT(v)
			switch {
			case isNil(t):
			case t.V != nil && isCall(t.V):
				g := t.V.(*ssa.Call).Common().StaticCallee()
				if g == nil || !inModule(g) {
					k.fail(R, construct, k.pr.at(in), "a removal patch must not keep values: %s", t)
					return
				}
				if !fam[g] {
					fam[g] = true
					queue = append(queue, g)
				}
			default:
				k.fail(R, construct, k.pr.at(in), "a removal patch must not keep values, holds %s (path %s)", t, s.Trace())
			}
			addFlag(s, "set")
		}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			if over := s.loopOver(cond); over != nil && isArg(over) {
				found = true
				settle(s, cond.(ssa.Instruction))
				if taken {
					addFlag(s, "in")
				} else {
					dropFlag(s, "in")
				}
				return
			}
			t := s.condPT(cond)
			for t.Op == "un" && t.Sym == "!" {
				t, taken = t.Args[0], !taken
			}
			if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isElem(t.Args[0].Args[0]) {
				if ta, ok := t.Args[0].V.(*ssa.TypeAssert); ok {
					n := kindOf(ta.AssertedType)
					if taken {
						if hasFlag(s, "!"+n) {
							s.Stop = true
							return
						}
					} else {
						addFlag(s, "!"+n)
					}
				}
			}
		}
		rule.Instr = func(s *St, in ssa.Instruction) {
			switch y := in.(type) {
			case *ssa.MapUpdate:
				set(s, in, y.Value)
			case *ssa.Store:
				if _, ok := y.Addr.(*ssa.IndexAddr); ok {
					set(s, in, y.Val)
				}
			}
		}
		rule.AfterCall = func(s *St, call ssa.CallInstruction, n string) {
			if n == "builtin.append" {
				for _, e := range k.appendArgs(s.Ctx, call) {
					set(s, call, e.v)
				}
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			k.check(!hasFlag(s, "in"), R, construct, k.pr.at(ret), "the removal stops before every field is visited (path %s)", s.Trace())
		}
		x := k.explore(rule)
		x.Run(f, "")
		k.done(x, R, construct)
		k.check(found, R, construct, k.pr.pos(f.Pos()), "undecided: no loop over the content was found")
	}
}

func isCall(v ssa.Value) bool { _, ok := v.(*ssa.Call); return ok }
