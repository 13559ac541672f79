package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("V04", "selection of views: every path of list and watch: an object is listed (announced) exactly if it satisfies the namespace, the label selector and the field selector of the options given; objects entering, leaving and staying in the selection of a watcher are announced as such", runV04)
	register("V06", "watcher lifecycle: typestate of the watcher over every path: nothing is sent to or closed on a stopped watcher, stopping closes both channels once, under the lock; the watch ends with its context or its stop signal and then removes its event handler", runV06)
}

// selSpec: where a function finds the selectors and the object they are applied to.
type selSpec struct {
	R, construct string
	obj          func(*Term) bool
	base         func(*Term) bool
	ns, lab, fld string
	keys         map[string]bool // of the field selector
}

func (sp *selSpec) is(t *Term, f string) bool {
	return t.Op == "field" && t.Sym == f && sp.base(t.Args[0])
}

// selEdge records on the path which of the three restrictions the object is known to satisfy
// ("ns", "lab", "fld") or to violate ("!ns", ...).
func (k *K) selEdge(s *St, cond ssa.Value, taken bool, sp *selSpec) bool {
	t := s.condPT(cond)
	for t.Op == "un" && t.Sym == "!" {
		t, taken = t.Args[0], !taken
	}
	set := func(f string) {
		ff := parseFlags(s.Auto)
		if strings.HasPrefix(f, "!") && ff[f[1:]] || ff["!"+f] {
			s.Stop = true
			return
		}
		addFlag(s, f)
	}
	if x, eq, ok := eqConst(t, `""`, taken); ok && sp.is(x, sp.ns) {
		set(map[bool]string{true: "ns", false: "ns?"}[eq])
		return true
	}
	if x, eq, ok := eqConst(t, "0", taken); ok && isCallTo(x, "builtin.len") && sp.is(x.Args[0], sp.ns) {
		set(map[bool]string{true: "ns", false: "ns?"}[eq])
		return true
	}
	if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") {
		for i := 0; i < 2; i++ {
			if sp.is(t.Args[i], sp.ns) && method1(t.Args[1-i], "GetNamespace", sp.obj) {
				if (t.Sym == "==") == taken {
					set("ns")
				} else if hasFlag(s, "ns?") {
					set("!ns")
				}
				return true
			}
		}
	}
	for _, f := range []string{"lab", "fld"} {
		name := sp.lab
		if f == "fld" {
			name = sp.fld
		}
		if x, eq, ok := eqConst(t, "nil", taken); ok && sp.is(x, name) {
			if eq {
				set(f)
			}
			return true
		}
		if t.Op == "call" && len(t.Args) > 0 && sp.is(t.Args[0], name) {
			switch {
			case strings.HasSuffix(t.Sym, ".Empty") && taken:
				set(f)
			case strings.HasSuffix(t.Sym, ".Matches"):
				if taken {
					set(f)
				} else {
					set("!" + f)
				}
			}
			return true
		}
	}
	// a field of the object was found
	if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Sym, "unstructured.Nested") {
		if p := k.nestedPath(t.Args[0]); p != "" && taken {
			addFlag(s, "found:"+p)
		}
		return true
	}
	return false
}

// nestedPath is the constant path an access to a nested field names.
func (k *K) nestedPath(t *Term) string {
	c, ok := t.V.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	var p []string
	args := c.Common().Args
	for _, e := range k.sliceElems(t.Ctx, args[len(args)-1]) {
		et := k.R.T(e.c, e.v)
		if et.Op != "const" {
			return ""
		}
		p = append(p, strings.Trim(et.Sym, `"`))
	}
	return strings.Join(p, ".")
}

// selCall checks what the selectors are applied to.
func (k *K) selCall(s *St, call ssa.CallInstruction, nm string, sp *selSpec) {
	at := k.pr.at(call)
	if strings.HasPrefix(nm, "unstructured.Nested") {
		if t := s.PT(call.Value()); t.Op == "call" && isContent(t.Args[0], sp.obj) {
			if p := k.nestedPath(t); p != "" {
				sp.keys[p] = true
				addFlag(s, "q:"+p)
			}
		}
		return
	}
	if !strings.HasSuffix(nm, ".Matches") {
		return
	}
	a := callArgs(call.Common())
	sel, set := s.PT(a[0]), s.PT(a[1])
	switch {
	case sp.is(sel, sp.lab):
		k.check(set.Has(func(x *Term) bool { return method1(x, "GetLabels", sp.obj) }), sp.R, sp.construct, at, "the label selector is applied to %s instead of the labels of the object (path %s)", short(set), s.Trace())
	case sp.is(sel, sp.fld):
		for _, f := range []string{"metadata.name", "metadata.namespace"} {
			k.check(hasFlag(s, "fs:"+f), sp.R, sp.construct, at, "the field selector is applied to a set without %s (path %s)", f, s.Trace())
		}
		for f := range parseFlags(s.Auto) {
			if p, ok := strings.CutPrefix(f, "found:"); ok {
				k.check(hasFlag(s, "fs:"+p), sp.R, sp.construct, at, "the field selector is applied to a set without the %s the object has (path %s)", p, s.Trace())
			}
		}
	case strings.Contains(nm, "Selector"):
		k.fail(sp.R, sp.construct, at, "undecided: the selector %s is not one of the options given (path %s)", short(sel), s.Trace())
	}
}

// selInstr follows the construction of the set the field selector is applied to.
func (k *K) selInstr(s *St, in ssa.Instruction, sp *selSpec) {
	mu, ok := in.(*ssa.MapUpdate)
	if !ok || !strings.HasSuffix(typeShort(mu.Map.Type()), "fields.Set") {
		return
	}
	kt, v := s.PT(mu.Key), s.PT(mu.Value)
	key := strings.Trim(kt.Sym, `"`)
	good := false
	switch key {
	case "metadata.name":
		good = method1(v, "GetName", sp.obj)
	case "metadata.namespace":
		good = method1(v, "GetNamespace", sp.obj)
	default:
		good = kt.Op == "const" && (k.isNested(v, key, sp) || k.printsNested(s, mu.Value, key, sp))
	}
	sp.keys[key] = true
	if k.check(good, sp.R, sp.construct, k.pr.at(in), "%s of the object is given to the field selector as %s (path %s)", key, short(v), s.Trace()) {
		addFlag(s, "fs:"+key)
	}
}

func (k *K) isNested(t *Term, key string, sp *selSpec) bool {
	return t.Op == "ext" && t.Sym == "0" && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Sym, "unstructured.Nested") &&
		k.nestedPath(t.Args[0]) == key && isContent(t.Args[0].Args[0], sp.obj)
}

// printsNested: the value is a print of the field.
func (k *K) printsNested(s *St, v ssa.Value, key string, sp *selSpec) bool {
	c, w := s.Root(v)
	call, ok := w.(*ssa.Call)
	if !ok {
		return false
	}
	for _, a := range call.Call.Args {
		ts := []*Term{s.PTIn(c, a)}
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			for _, e := range k.sliceElems(c, a) {
				ts = append(ts, s.PTIn(e.c, e.v))
			}
		}
		for _, t := range ts {
			if k.isNested(t, key, sp) {
				return true
			}
		}
	}
	return false
}

func selOK(f flags) (all bool, missing string) {
	for _, x := range []string{"ns", "lab", "fld"} {
		if !f[x] {
			return false, map[string]string{"ns": "namespace", "lab": "label selector", "fld": "field selector"}[x]
		}
	}
	return true, ""
}

func mismatch(f flags) bool { return f["!ns"] || f["!lab"] || f["!fld"] }

// isListOptions: t is a local list options struct (or the embedded one of delete options).
func isListOptions(t *Term) bool {
	if t.Op == "field" {
		return t.Sym == "ListOptions" && isListOptions(t.Args[0])
	}
	if t.Op != "alloc" || t.V == nil {
		return false
	}
	return typeShort(deref(t.V.Type())) == "client.ListOptions"
}

// optionsApplied: the list options hold the options given before they are read, and nothing else.
func (k *K) optionsApplied(s *St, in ssa.Instruction, R, construct string) {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		if typeShort(deref(x.X.Type())) != "client.ListOptions" || x.Referrers() == nil {
			return
		}
		f := fieldName(x.X.Type(), x.Field)
		if f != "LabelSelector" && f != "FieldSelector" && f != "Namespace" {
			return
		}
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				k.fail(R, construct, k.pr.at(st), "the %s given by the caller is overwritten (path %s)", f, s.Trace())
				return
			}
		}
		k.check(hasFlag(s, "applied"), R, construct, k.pr.at(in), "the %s is read before the options were applied (path %s)", f, s.Trace())
	case *ssa.UnOp:
		if typeShort(x.Type()) == "client.ListOptions" {
			k.check(hasFlag(s, "applied"), R, construct, k.pr.at(in), "the options are read before they were applied (path %s)", s.Trace())
		}
	}
}

// optionsCall notices the application of the options given (parameter opts).
func (k *K) optionsCall(s *St, call ssa.CallInstruction, nm, opts string) {
	a := callArgs(call.Common())
	if strings.HasSuffix(nm, "ListOptions.ApplyOptions") && len(a) == 2 {
		if t := s.PT(a[1]); isParam(t, opts) {
			addFlag(s, "applied")
		}
	}
	if strings.HasSuffix(nm, ".ApplyToList") && len(a) == 2 {
		if e := elemOf(s.PT(a[0])); e != nil && isParam(e, opts) {
			dropFlag(s, "opt")
		}
	}
}

// optionsLoop: a loop that applies the options one by one.
func (k *K) optionsLoop(s *St, cond ssa.Value, taken bool, opts string) bool {
	over := s.loopOver(cond)
	if over == nil || !isParam(over, opts) {
		return false
	}
	if hasFlag(s, "opt") {
		addFlag(s, "optskipped")
	}
	if taken {
		addFlag(s, "opt")
	} else {
		dropFlag(s, "opt")
		if !hasFlag(s, "optskipped") {
			addFlag(s, "applied")
		}
	}
	return true
}

func (k *K) optsParam(fn *ssa.Function) (list, opts string) {
	for i, p := range fn.Params[1:] {
		switch {
		case strings.HasSuffix(typeShort(p.Type()), "client.ObjectList"):
			list = "arg" + itoa(i)
		case isSliceOf(p.Type(), "client.ListOption"):
			opts = "arg" + itoa(i)
		}
	}
	return
}

func runV04(k *K) {
	keys := map[string]map[string]bool{}
	t := k.typeIn(cachePkg, "ViewCache")
	w := k.typeIn(cachePkg, "ViewCacheWatcher")
	if !k.check(t != nil && w != nil, "selection", "cache.ViewCache", "", "the view cache or its watcher was not found") {
		return
	}
	if fn := k.method(t, "List"); fn != nil {
		keys[fnName(fn)] = k.listPaths(fn)
	}
	n := 0
	for i := 0; i < w.NumMethods(); i++ {
		fn := k.pr.SSA.FuncValue(w.Method(i))
		if fn == nil || fn.Blocks == nil || !isPredicate(fn) {
			continue
		}
		n++
		keepCall[fnName(fn)] = true
		keys[fnName(fn)] = k.includePaths(fn, w)
	}
	k.check(n == 1, "selection", "cache.ViewCacheWatcher", k.pr.pos(w.Obj().Pos()), "found %d selection functions", n)
	var names []string
	for f := range keys {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		for _, g := range names {
			for key := range keys[g] {
				k.check(keys[f][key], "selection", f, "", "the field %s can be selected in %s, but not in %s", key, g, f)
			}
		}
	}
	if fn := k.method(t, "Watch"); fn != nil {
		k.watchSetup(fn, w)
	}
}

// isPredicate: a method that says yes or no to an object.
func isPredicate(fn *ssa.Function) bool {
	sg := fn.Signature
	if sg.Results().Len() != 1 || sg.Params().Len() != 1 {
		return false
	}
	b, ok := sg.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool && types.IsInterface(sg.Params().At(0).Type())
}

func (k *K) listPaths(fn *ssa.Function) map[string]bool {
	const R = "selection of listed objects"
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	list, opts := k.optsParam(fn)
	store, _, _ := k.viewCacheFields("ViewCache")
	isItems := func(t *Term) bool { return storeTerm(t) == "List" }
	ofElem := func(t *Term) bool { e := elemOf(t); return e != nil && isItems(e) }
	sp := &selSpec{R: R, construct: construct, base: isListOptions, ns: "Namespace", lab: "LabelSelector", fld: "FieldSelector", keys: map[string]bool{}}
	sp.obj = func(t *Term) bool {
		return ofElem(t) || t.Op == "ext" && t.Sym == "0" && t.Args[0].Op == "assert" && ofElem(t.Args[0].Args[0])
	}
	copyOf := func(t *Term) bool {
		return t.Has(func(x *Term) bool { return isCallTo(x, "object.DeepCopy") && x.Has(sp.obj) }) || sp.obj(t)
	}
	reset := func(s *St) {
		for f := range parseFlags(s.Auto) {
			switch f {
			case "applied", "opt", "optskipped", "done":
			default:
				dropFlag(s, f)
			}
		}
	}
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && !recursive(callee)
	}
	loops := 0
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if k.optionsLoop(s, cond, taken, opts) {
			return
		}
		if over := s.loopOver(cond); over != nil && over.Has(isItems) {
			at := k.pr.pos(condOrBlock(cond.(ssa.Instruction)))
			f := parseFlags(s.Auto)
			if f["it"] && !mismatch(f) && !f["other"] {
				k.fail(R, construct, at, "an object that satisfies the options may be left out (path %s)", s.Trace())
			}
			if partOf(over, isItems) {
				k.fail(R, construct, at, "only some of the objects are considered (path %s)", s.Trace())
			}
			reset(s)
			if taken {
				loops++
				addFlag(s, "it")
			} else {
				addFlag(s, "done")
			}
			return
		}
		if k.selEdge(s, cond, taken, sp) {
			return
		}
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		// neither the list nor the items are of other types
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && !taken {
			if x := t.Args[0].Args[0]; isParam(x, list) || copyOf(x) {
				addFlag(s, "other")
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		k.optionsCall(s, call, nm, opts)
		k.selCall(s, call, nm, sp)
		at := k.pr.at(call)
		if storeOp(call) == "List" {
			rt := s.PT(call.Common().Value)
			isKind := func(t *Term) bool {
				return t.Op == "call" && strings.HasSuffix(t.Sym, ".ObjectGVKFromListGVK") && t.Has(func(x *Term) bool { return isParam(x, list) })
			}
			k.check(rt.Op == "lookup" && isField(rt.Args[0], store) && rt.Has(isKind) || isCallTo(rt, "cache.NewIndexer"), R, construct, at, "objects are listed from a store that is not that of the kind of the list: %s (path %s)", short(rt), s.Trace())
			return
		}
		if nm != "builtin.append" {
			return
		}
		dst := s.PT(call.Common().Args[0])
		if !dst.Has(func(x *Term) bool {
			return isField(x, "Items") && x.Has(func(y *Term) bool { return isParam(y, list) })
		}) {
			return
		}
		f := parseFlags(s.Auto)
		els := k.appendArgs(s.Ctx, call)
		if k.check(len(els) == 1 && f["it"], R, construct, at, "undecided: what is appended to the list (path %s)", s.Trace()) {
			v := s.PTIn(els[0].c, els[0].v)
			k.check(copyOf(v), R, construct, at, "%s is appended to the list instead of the object (path %s)", short(v), s.Trace())
			all, missing := selOK(f)
			k.check(all, R, construct, at, "an object is listed without having been checked against the %s (path %s)", missing, s.Trace())
		}
		dropFlag(s, "it")
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		k.selInstr(s, in, sp)
		k.optionsApplied(s, in, R, construct)
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		k.check(hasFlag(s, "done"), R, construct, k.pr.at(ret), "%s reports success before all objects were considered (path %s)", construct, s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(loops > 0, R, construct, k.pr.pos(fn.Pos()), "no loop over the objects of the store found")
	return sp.keys
}

// watcherFields finds the fields of the watcher by their types.
func watcherFields(w *types.Named) (ns, lab, fld, stopped, mutex, stop, events string) {
	is := func(n string) func(types.Type) bool {
		return func(t types.Type) bool { return typeShort(t) == n }
	}
	basic := func(b types.BasicKind) func(types.Type) bool {
		return func(t types.Type) bool {
			x, ok := t.Underlying().(*types.Basic)
			return ok && x.Kind() == b
		}
	}
	ch := func(ev bool) func(types.Type) bool {
		return func(t types.Type) bool {
			c, ok := t.Underlying().(*types.Chan)
			return ok && (typeShort(c.Elem()) == "watch.Event") == ev
		}
	}
	return structField(w, basic(types.String)), structField(w, is("labels.Selector")), structField(w, is("fields.Selector")),
		structField(w, basic(types.Bool)), structField(w, func(t types.Type) bool { return strings.HasSuffix(typeShort(t), "Mutex") }),
		structField(w, ch(false)), structField(w, ch(true))
}

func (k *K) includePaths(fn *ssa.Function, w *types.Named) map[string]bool {
	const R = "selection of watched objects"
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	ns, lab, fld, _, _, _, _ := watcherFields(w)
	sp := &selSpec{R: R, construct: construct, ns: ns, lab: lab, fld: fld, keys: map[string]bool{}}
	sp.base = func(t *Term) bool { return isParam(t, "recv") }
	sp.obj = func(t *Term) bool {
		return isParam(t, "arg0") || t.Op == "ext" && t.Sym == "0" && t.Args[0].Op == "assert" && isParam(t.Args[0].Args[0], "arg0")
	}
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && !recursive(callee)
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if k.selEdge(s, cond, taken, sp) {
			return
		}
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isParam(t.Args[0].Args[0], "arg0") && !taken {
			addFlag(s, "other")
		}
		if x, eq, ok := eqConst(t, "nil", taken); ok && eq && sp.obj(x) {
			addFlag(s, "other")
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) { k.selCall(s, call, nm, sp) }
	rule.Instr = func(s *St, in ssa.Instruction) { k.selInstr(s, in, sp) }
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		all, missing := selOK(f)
		at := k.pr.at(ret)
		switch s.RetVal(ret, 0) {
		case "true":
			k.check(all && !f["other"], R, construct, at, "an object is watched without having been checked against the %s (path %s)", missing, s.Trace())
		case "false":
			k.check(mismatch(f) || f["other"], R, construct, at, "an object that satisfies the options is ignored (path %s)", s.Trace())
		default:
			t := s.RetPT(ret, 0)
			last := ""
			if t.Op == "call" && strings.HasSuffix(t.Sym, ".Matches") && sp.is(t.Args[0], fld) {
				last = "fld"
			} else if t.Op == "call" && strings.HasSuffix(t.Sym, ".Matches") && sp.is(t.Args[0], lab) {
				last = "lab"
			}
			f[last] = true
			all, missing = selOK(f)
			k.check(last != "" && all, R, construct, at, "the decision is %s although the %s was not checked (path %s)", short(t), missing, s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	return sp.keys
}

// watchSetup: the watcher gets the selectors of the caller, and its event handler announces by them.
func (k *K) watchSetup(fn *ssa.Function, w *types.Named) {
	const R = "announcement to watchers"
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	ns, lab, fld, stopped, _, _, _ := watcherFields(w)
	list, opts := k.optsParam(fn)
	want := map[string]string{ns: "Namespace", lab: "LabelSelector", fld: "FieldSelector"}
	done := map[*ssa.Function]bool{}
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && !recursive(callee) && (callee.Object() == nil || !callee.Object().Exported())
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) { k.optionsLoop(s, cond, taken, opts) }
	added := 0
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		k.optionsCall(s, call, nm, opts)
		at := k.pr.at(call)
		if strings.HasSuffix(nm, ".GetInformerForKind") || strings.HasSuffix(nm, ".GetInformer") {
			a := callArgs(call.Common())
			if t := s.PT(a[2]); strings.HasSuffix(nm, "ForKind") {
				k.check(t.Op == "call" && strings.HasSuffix(t.Sym, ".ObjectGVKFromListGVK") && t.Has(func(x *Term) bool { return isParam(x, list) }), R, construct, at, "the informer is that of %s instead of the kind of the list (path %s)", short(t), s.Trace())
			}
		}
		if !strings.Contains(nm, ".AddEventHandler") {
			return
		}
		added++
		for f, o := range want {
			k.check(hasFlag(s, "w:"+f), R, construct, at, "the watcher does not get the %s of the caller (path %s)", o, s.Trace())
		}
		a := callArgs(call.Common())
		m := k.literal(s, a[1])
		for _, ev := range []string{"AddFunc", "UpdateFunc", "DeleteFunc"} {
			e := m[ev]
			if !k.check(e.v != nil, R, construct, at, "the watcher has no %s (path %s)", ev, s.Trace()) {
				continue
			}
			c, v := s.RootIn(e.c, e.v)
			var f *ssa.Function
			switch y := v.(type) {
			case *ssa.MakeClosure:
				f, _ = y.Fn.(*ssa.Function)
			case *ssa.Function:
				f = y
			}
			_ = c
			if !k.check(f != nil && f.Blocks != nil, R, construct, at, "undecided: %s is %s (path %s)", ev, short(s.PTIn(c, v)), s.Trace()) {
				continue
			}
			if !done[f] {
				done[f] = true
				k.watchEvent(R, construct+"/"+ev, ev, f, w, stopped)
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		k.optionsApplied(s, in, R, construct)
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || typeShort(deref(fa.X.Type())) != typeShort(w) {
			return
		}
		f := fieldName(fa.X.Type(), fa.Field)
		o, ok := want[f]
		if !ok {
			return
		}
		t := s.PT(st.Val)
		if k.check(isField(t, o) && isListOptions(t.Args[0]), R, construct, k.pr.at(in), "the watcher gets %s for the %s of the caller (path %s)", short(t), o, s.Trace()) {
			addFlag(s, "w:"+f)
		} else {
			dropFlag(s, "w:"+f)
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(added > 0, R, construct, k.pr.pos(fn.Pos()), "no event handler is added")
}

// watchEvent: what an event handler of a watcher announces.
func (k *K) watchEvent(R, construct, ev string, fn *ssa.Function, w *types.Named, stopped string) {
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	obj := func(t *Term, i int) bool {
		return t.Has(func(x *Term) bool { return isParam(x, "arg"+itoa(i)) })
	}
	cur := 0
	if ev == "UpdateFunc" {
		cur = 1
	}
	isSel := func(t *Term, i int) bool {
		if t.Op != "call" || t.V == nil {
			return false
		}
		c, ok := t.V.(ssa.CallInstruction)
		if !ok {
			return false
		}
		tg := k.R.callee(t.Ctx, c.Common())
		return tg != nil && isPredicate(tg.fn) && inCachePkg(tg.fn) && tg.fn.Signature.Recv() != nil && obj(t.Args[len(t.Args)-1], i)
	}
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && !isPredicate(callee) && !recursive(callee)
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		for i := 0; i <= cur; i++ {
			if boolEdge(s, t, taken, func(x *Term) bool { return isSel(x, i) }, "in"+itoa(i)) {
				return
			}
		}
		if boolEdge(s, t, taken, func(x *Term) bool { return isField(x, stopped) }, "stopped") {
			return
		}
		boolEdge(s, t, taken, func(x *Term) bool {
			return x.Op == "ext" && x.Sym == "1" && x.Args[0].Op == "assert" && (obj(x.Args[0].Args[0], 0) || obj(x.Args[0].Args[0], cur))
		}, "object")
	}
	send := func(s *St, in ssa.Instruction, v ssa.Value) {
		at := k.pr.at(in)
		k.check(!hasFlag(s, "sent"), R, construct, at, "an event is announced twice (path %s)", s.Trace())
		addFlag(s, "sent")
		m := k.literal(s, v)
		ty, o := k.lit(s, m, "Type"), k.lit(s, m, "Object")
		addFlag(s, "ty="+strings.ToLower(strings.Trim(ty.Sym, `"`)))
		k.check(obj(o, cur) || ev == "UpdateFunc" && obj(o, 0) && hasFlag(s, "!in1"), R, construct, at, "%s is announced (path %s)", short(o), s.Trace())
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Send:
			if typeShort(x.X.Type()) == "watch.Event" {
				send(s, in, x.X)
			}
		case *ssa.Select:
			for _, st := range x.States {
				if st.Dir == types.SendOnly && typeShort(st.Send.Type()) == "watch.Event" {
					send(s, in, st.Send)
				}
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		if f["stopped"] || f["!object"] {
			return
		}
		switch ev {
		case "AddFunc", "DeleteFunc":
			want := map[string]string{"AddFunc": "added", "DeleteFunc": "deleted"}[ev]
			k.check(f["in0"] || f["!in0"] || !f["sent"] && false, R, construct, at, "the event is handled without asking whether the object is selected (path %s)", s.Trace())
			if f["in0"] {
				k.check(f["sent"] && f["ty="+want], R, construct, at, "a selected object is not announced as %s (path %s)", want, s.Trace())
			} else {
				k.check(!f["sent"], R, construct, at, "an object that is not selected is announced (path %s)", s.Trace())
			}
		case "UpdateFunc":
			switch {
			case f["in1"]:
				k.check(f["sent"] && (f["ty=modified"] || f["ty=added"] && f["!in0"]), R, construct, at, "a selected object is not announced as modified (path %s)", s.Trace())
			case f["!in1"] && f["in0"]:
				k.check(f["sent"] && f["ty=deleted"], R, construct, at, "an object that left the selection is not announced as deleted (path %s)", s.Trace())
			case f["!in1"] && f["!in0"]:
				k.check(!f["sent"], R, construct, at, "an object that was never selected is announced (path %s)", s.Trace())
			default:
				k.fail(R, construct, at, "the event is handled without asking whether the old and the new object are selected (path %s)", s.Trace())
			}
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// ---------------------------------------------------------------- V06

func runV06(k *K) {
	w := k.typeIn(cachePkg, "ViewCacheWatcher")
	if !k.check(w != nil, "watcher typestate", "cache.ViewCacheWatcher", "", "the watcher was not found") {
		return
	}
	n := 0
	for _, fn := range k.fnsIn(cachePkg) {
		if fn.Parent() != nil && !handedOut(fn) || fn.Parent() == nil && (fn.Object() == nil || !fn.Object().Exported()) || strings.Contains(k.pr.pos(fn.Pos()), "fake") {
			continue
		}
		n += k.watcherState(fn, w)
	}
	k.check(n >= 3, "watcher typestate", "cache.ViewCacheWatcher", k.pr.pos(w.Obj().Pos()), "expected at least 3 uses of the channels of the watcher, found %d", n)
	if t := k.typeIn(cachePkg, "ViewCache"); t != nil {
		if fn := k.method(t, "Watch"); fn != nil {
			k.watchEnd(fn, w)
		}
	}
}

// handedOut: the closure is not only called in place.
func handedOut(fn *ssa.Function) bool {
	refs := fn.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok {
			if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(fn) {
				if _, ok := r.(*ssa.Go); !ok {
					continue
				}
			}
			return true
		}
		if mc.Referrers() == nil {
			return true
		}
		for _, u := range *mc.Referrers() {
			c, ok := u.(ssa.CallInstruction)
			if !ok || c.Common().Value != ssa.Value(mc) {
				return true
			}
			if _, ok := u.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// watcherState: sends and closes on the channels of a watcher happen under its lock while it is known
// not to be stopped; closing makes it stopped.
func (k *K) watcherState(fn *ssa.Function, w *types.Named) int {
	const R = "watcher typestate"
	construct := fnName(fn)
	_, _, _, stopped, mutex, stop, events := watcherFields(w)
	of := func(t *Term, f string) bool {
		return isField(t, f) && f != ""
	}
	isChan := func(s *St, v ssa.Value) string {
		if f := watcherChan(s, v, w); f == stop || f == events {
			return f
		}
		return ""
	}
	n := 0
	isStop := fn.Name() == "Stop" && fn.Signature.Recv() != nil && isPtrTo(fn.Signature.Recv().Type(), typeShort(w))
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && !recursive(callee) && (callee.Object() == nil || !callee.Object().Exported() || callee.Signature.Recv() != nil && isPtrTo(callee.Signature.Recv().Type(), typeShort(w)))
	}
	use := func(s *St, in ssa.Instruction, what, f string) {
		n++
		k.ok(R, fnName(in.Parent())+"/"+what+" "+f, k.pr.at(in))
		k.check(hasFlag(s, "locked"), R, fnName(in.Parent()), k.pr.at(in), "%s of %s without the lock of the watcher (path %s)", what, f, s.Trace())
		k.check(hasFlag(s, "!st"), R, fnName(in.Parent()), k.pr.at(in), "%s of %s of a watcher that may be stopped already (path %s)", what, f, s.Trace())
	}
	unlocked := func(s *St, in ssa.Instruction) {
		f := parseFlags(s.Auto)
		c := f["closed:"+stop] || f["closed:"+events]
		if !c && !f["set"] {
			return
		}
		k.check(!c || f["set"], R, construct, k.pr.at(in), "the channels of the watcher are closed, but it is not marked as stopped (path %s)", s.Trace())
		k.check(!f["set"] || f["closed:"+stop] && f["closed:"+events], R, construct, k.pr.at(in), "the watcher is marked as stopped, but not all of its channels are closed (path %s)", s.Trace())
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if !hasFlag(s, "locked") || hasFlag(s, "set") {
			return
		}
		boolEdge(s, t, taken, func(x *Term) bool { return of(x, stopped) }, "st")
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		com := call.Common()
		if len(com.Args) > 0 && (nm == "sync.Mutex.Lock" || nm == "sync.Mutex.Unlock" || nm == "sync.RWMutex.Lock" || nm == "sync.RWMutex.Unlock") {
			if t := s.PT(com.Args[0]); !of(t, mutex) {
				return
			}
			if strings.HasSuffix(nm, ".Lock") {
				addFlag(s, "locked")
			} else {
				unlocked(s, call)
				if hasFlag(s, "set") {
					addFlag(s, "done")
				}
				if hasFlag(s, "st") {
					addFlag(s, "was")
				}
				dropFlag(s, "locked", "st", "!st", "set", "closed:"+stop, "closed:"+events)
			}
			return
		}
		if nm == "builtin.close" {
			if f := isChan(s, com.Args[0]); f != "" {
				use(s, call, "close", f)
				k.check(!hasFlag(s, "closed:"+f), R, construct, k.pr.at(call), "%s is closed twice (path %s)", f, s.Trace())
				addFlag(s, "closed:"+f)
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		send := func(ch ssa.Value) {
			if f := isChan(s, ch); f != "" {
				use(s, in, "send", f)
				k.check(!hasFlag(s, "closed:"+f) && !hasFlag(s, "set"), R, construct, k.pr.at(in), "send on %s after the watcher was stopped (path %s)", f, s.Trace())
			}
		}
		switch x := in.(type) {
		case *ssa.Send:
			send(x.Chan)
		case *ssa.Select:
			for _, st := range x.States {
				if st.Dir == types.SendOnly {
					send(st.Chan)
				}
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || typeShort(deref(fa.X.Type())) != typeShort(w) || fieldName(fa.X.Type(), fa.Field) != stopped {
				return
			}
			t := s.PT(x.Val)
			n++
			if _, fresh := fa.X.(*ssa.Alloc); fresh {
				k.check(t.Sym == "false", R, construct, k.pr.at(in), "a new watcher is stopped (path %s)", s.Trace())
				return
			}
			k.check(t.Sym == "true", R, construct, k.pr.at(in), "a watcher is marked as %s (path %s)", t, s.Trace())
			k.check(hasFlag(s, "locked"), R, construct, k.pr.at(in), "the watcher is marked as stopped without its lock (path %s)", s.Trace())
			addFlag(s, "set")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		unlocked(s, ret)
		if isStop {
			f := parseFlags(s.Auto)
			k.check(f["done"] || f["set"] || f["was"] || f["st"], R, construct, k.pr.at(ret), "the watcher is not stopped (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	if n > 0 || isStop {
		k.done(x, R, construct)
	}
	return n
}

// watcherChan: v is loaded from a field of the watcher; returns which.
func watcherChan(s *St, v ssa.Value, w *types.Named) string {
	c, x := s.Root(v)
	for i := 0; i < 6; i++ {
		if ct, ok := x.(*ssa.ChangeType); ok {
			c, x = s.RootIn(c, ct.X)
			continue
		}
		if mc, ok := x.(*ssa.MakeChan); ok {
			// the channel a new watcher is given
			if mc.Referrers() != nil {
				for _, r := range *mc.Referrers() {
					st, ok := r.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeShort(deref(fa.X.Type())) == typeShort(w) {
						return fieldName(fa.X.Type(), fa.Field)
					}
				}
			}
			return ""
		}
		break
	}
	u, ok := x.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || typeShort(deref(fa.X.Type())) != typeShort(w) {
		return ""
	}
	return fieldName(fa.X.Type(), fa.Field)
}

// watchEnd: every watch that was set up ends with its context or its stop signal, and then removes its
// event handler and stops.
func (k *K) watchEnd(fn *ssa.Function, w *types.Named) {
	const R = "end of a watch"
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	_, _, _, _, _, stop, events := watcherFields(w)
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && !recursive(callee) && (callee.Object() == nil || !callee.Object().Exported())
	}
	isReg := func(t *Term) bool {
		return t.Has(func(x *Term) bool { return x.Op == "call" && strings.Contains(x.Sym, ".AddEventHandler") })
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		nilEdge(s, s.condPT(cond), taken, func(x *Term) bool { return x.Op == "ext" && x.Sym == "1" && isReg(x) }, "adderr")
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if strings.Contains(nm, ".AddEventHandler") {
			k.check(hasFlag(s, "roomy"), R, construct, k.pr.at(call), "the initial list is delivered before the caller can receive, but need not fit into the channel of the watch: objects are dropped (path %s)", s.Trace())
			addFlag(s, "added")
		}
		if g, ok := call.(*ssa.Go); ok {
			if k.endsWatch(R, construct, s, g, w, stop, isReg) {
				addFlag(s, "ends")
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeShort(deref(fa.X.Type())) == typeShort(w) && fieldName(fa.X.Type(), fa.Field) == events {
				c, v := s.Root(st.Val)
				mc, ok := v.(*ssa.MakeChan)
				if ok && s.PTIn(c, mc.Size).Has(func(x *Term) bool {
					op := storeTerm(x)
					return op == "List" || op == "ListKeys"
				}) {
					addFlag(s, "roomy")
				} else {
					dropFlag(s, "roomy")
				}
			}
		}
		if g, ok := in.(*ssa.Go); ok && k.endsWatch(R, construct, s, g, w, stop, isReg) {
			addFlag(s, "ends")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		if f["added"] && !f["adderr:set"] {
			k.check(f["ends"], R, construct, k.pr.at(ret), "a watch is set up that does not end with its context (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// endsWatch: the goroutine waits for the end of the watch and then cleans up.
func (k *K) endsWatch(R, construct string, s0 *St, g *ssa.Go, w *types.Named, stop string, isReg func(*Term) bool) bool {
	tg := k.R.callee(s0.Ctx, g.Common())
	if tg == nil || tg.fn.Blocks == nil || !inModule(tg.fn) {
		return false
	}
	is := false
	isDone := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Sym, "Context.Done") && t.Has(func(x *Term) bool { return isParam(x, "arg0") })
	}
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && !recursive(callee) && (callee.Object() == nil || !callee.Object().Exported())
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		sel, ok := in.(*ssa.Select)
		if !ok || !sel.Blocking {
			return
		}
		ctx, st, other := false, false, false
		for _, x := range sel.States {
			t := s.PT(x.Chan)
			switch {
			case x.Dir != types.RecvOnly:
				other = true
			case isDone(t):
				ctx = true
			case watcherChan(s, x.Chan, w) == stop:
				st = true
			default:
				other = true
			}
		}
		if ctx || st {
			is = true
			k.check(ctx && st, R, construct, k.pr.at(in), "the watch does not end with both its context and its stop signal (path %s)", s.Trace())
			k.check(!other, R, construct, k.pr.at(in), "undecided: the watch also ends for other reasons (path %s)", s.Trace())
			addFlag(s, "waited")
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		switch {
		case strings.HasSuffix(nm, ".RemoveEventHandler"):
			is = true
			k.check(hasFlag(s, "waited") || deferred(call), R, construct, k.pr.at(call), "the event handler is removed before the watch ended (path %s)", s.Trace())
			k.check(isReg(s.PT(a[1])), R, construct, k.pr.at(call), "%s is removed instead of the event handler of the watch (path %s)", short(s.PT(a[1])), s.Trace())
			addFlag(s, "removed")
		case strings.HasSuffix(nm, ".Stop"):
			is = true
			k.check(hasFlag(s, "waited") || deferred(call), R, construct, k.pr.at(call), "the watcher is stopped before the watch ended (path %s)", s.Trace())
			addFlag(s, "stop")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if !is {
			return
		}
		f := parseFlags(s.Auto)
		k.check(f["waited"], R, construct, k.pr.at(ret), "the watch ends without a reason (path %s)", s.Trace())
		k.check(f["removed"], R, construct, k.pr.at(ret), "the event handler of a finished watch is not removed (path %s)", s.Trace())
		k.check(f["stop"], R, construct, k.pr.at(ret), "the watcher of a finished watch is not stopped (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.RunCtx(k.R.ctx(s0.Ctx, g, nil, tg.fn, tg.mc, tg.mcCtx), "")
	k.done(x, R, construct)
	return is
}

func deferred(call ssa.CallInstruction) bool { _, ok := call.(*ssa.Defer); return ok }
