package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("V07", "routing between views and native resources: every path of every method of the composite cache, client, sub-resource client, discovery client and REST mapper, and of the delegating cache: which backend is asked, under which view test of which argument, with which arguments, and what is returned; wiring of the backends", runV07)
}

// composite describes a type that forwards requests to backends.
type composite struct {
	typ          string
	view, native string // fields; native may be ""
}

func runV07(k *K) {
	const R = "routing"
	fieldOf := func(typ, ft string) string {
		t := k.typeIn(cachePkg, typ)
		if t == nil {
			return ""
		}
		return structField(t, func(x types.Type) bool { return typeShort(x) == ft || typeShort(deref(x)) == ft && x != deref(x) })
	}
	cs := []*composite{
		{"CompositeCache", fieldOf("CompositeCache", "cache.ViewCacheInterface"), fieldOf("CompositeCache", "x/cache.Cache")},
		{"CompositeClient", fieldOf("CompositeClient", "cache.ViewCacheClient"), fieldOf("CompositeClient", "client.Client")},
		{"CompositeDiscoveryClient", fieldOf("CompositeDiscoveryClient", "cache.ViewDiscoveryInterface"), fieldOf("CompositeDiscoveryClient", "discovery.DiscoveryInterface")},
		{"CompositeRESTMapper", fieldOf("CompositeRESTMapper", "cache.ViewRESTMapper"), fieldOf("CompositeRESTMapper", "meta.RESTMapper")},
		{"DelegatingViewCache", fieldOf("DelegatingViewCache", "cache.ViewCache"), ""},
	}
	for _, c := range cs {
		t := k.typeIn(cachePkg, c.typ)
		if !k.check(t != nil && c.view != "" && (c.native != "" || c.typ == "DelegatingViewCache"), R, "cache."+c.typ, "", "the type or its backends were not found") {
			return
		}
	}
	if sub := k.subResourceRoles(R, cs[1]); sub != nil {
		cs = append(cs, sub)
	}
	for _, c := range cs {
		k.routes(R, c)
	}
	k.atLeast(R, 30)
	k.wiring()
}

// subResourceRoles finds the sub-resource client of the composite client, and which of its fields is
// which, from how it is built.
func (k *K) subResourceRoles(R string, cl *composite) *composite {
	t := k.typeIn(cachePkg, cl.typ)
	fn := k.method(t, "SubResource")
	if !k.check(fn != nil, R, "cache."+cl.typ+".SubResource", "", "the composite client has no sub-resource client of its own: sub-resources of views are served by the native client") {
		return nil
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	out := &composite{}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		nilEdge(s, s.condPT(cond), taken, func(x *Term) bool { return isField(x, cl.native) && isParam(x.Args[0], "recv") }, "nat")
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		v := s.PT(st.Val)
		if v.Op != "call" || !strings.HasSuffix(v.Sym, ".SubResource") {
			return
		}
		at := k.pr.at(in)
		k.check(isParam(v.Args[len(v.Args)-1], "arg0"), R, construct, at, "the client of %s is created instead of the one asked for (path %s)", short(v.Args[len(v.Args)-1]), s.Trace())
		f := fieldName(fa.X.Type(), fa.Field)
		out.typ = strings.TrimPrefix(typeShort(deref(fa.X.Type())), "cache.")
		b := v.Args[0]
		switch {
		case isField(b, cl.view) && isParam(b.Args[0], "recv"):
			k.check(out.view == "" || out.view == f, R, construct, at, "two fields hold the view client (path %s)", s.Trace())
			out.view = f
			addFlag(s, "view")
		case isField(b, cl.native) && isParam(b.Args[0], "recv"):
			k.check(hasFlag(s, "nat:set"), R, construct, at, "the native client is used although it may be missing (path %s)", s.Trace())
			out.native = f
			addFlag(s, "native")
		default:
			k.fail(R, construct, at, "undecided: sub-resource client of %s (path %s)", short(b), s.Trace())
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		k.check(f["view"], R, construct, k.pr.at(ret), "sub-resources of views have no client (path %s)", s.Trace())
		k.check(f["native"] || f["nat:nil"], R, construct, k.pr.at(ret), "sub-resources of native objects have no client (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	if !k.check(out.view != "" && out.native != "" && out.view != out.native, R, construct, k.pr.pos(fn.Pos()), "the backends of the sub-resource client were not found") {
		return nil
	}
	if st := k.method(t, "Status"); k.check(st != nil, R, "cache."+cl.typ+".Status", "", "the composite client has no status client of its own") {
		rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
		rule.Exit = func(s *St, ret *ssa.Return) {
			t := s.RetPT(ret, 0)
			k.check(t.Op == "call" && strings.HasSuffix(t.Sym, "CompositeClient.SubResource") && t.Args[1].Sym == `"status"`, R, fnName(st), k.pr.at(ret), "the status client is %s (path %s)", short(t), s.Trace())
		}
		x := k.explore(rule)
		x.Run(st, "")
		k.done(x, R, fnName(st))
	}
	return out
}

// subject: the parameter a request is routed by.
func subject(fn *ssa.Function) (string, types.Type) {
	for i, p := range fn.Params[1:] {
		switch n := typeShort(p.Type()); n {
		case "client.Object", "client.ObjectList", "schema.GroupVersionKind", "schema.GroupVersionResource", "schema.GroupKind", "object.Object", "object.ObjectList":
			return "arg" + itoa(i), p.Type()
		case "string":
			if strings.Contains(strings.ToLower(p.Name()), "groupversion") {
				return "arg" + itoa(i), p.Type()
			}
		}
	}
	return "", nil
}

func (k *K) routes(R string, c *composite) {
	t := k.typeIn(cachePkg, c.typ)
	if t == nil {
		return
	}
	n := 0
	for i := 0; i < t.NumMethods(); i++ {
		fn := k.pr.SSA.FuncValue(t.Method(i))
		if fn == nil || fn.Blocks == nil || !fn.Object().Exported() {
			continue
		}
		switch {
		case c.native == "":
			if storage := k.typeIn(cachePkg, "ViewCache"); strings.Contains(fn.Name(), "Informer") || fn.Name() == "Start" || fn.Name() == "WaitForCacheSync" || storage == nil || k.method(storage, fn.Name()) == nil {
				continue
			}
			k.forwards(R, c, fn, "")
			n++
		case c.typ == "CompositeClient" && (fn.Name() == "Get" || fn.Name() == "List"):
			// reads go to the composite cache
			k.forwards(R, &composite{typ: c.typ, view: structField(t, func(x types.Type) bool { return typeShort(x) == "x/cache.Cache" })}, fn, "")
			n++
		default:
			sub, _ := subject(fn)
			if sub != "" {
				k.forwards(R, c, fn, sub)
				n++
			} else if fn.Name() == "ResourceSingularizer" {
				// spelling of a resource name: falls back to the name itself
				continue
			} else if k.asksBackend(c, fn) {
				k.aggregates(R, c, fn)
			}
		}
	}
	k.check(n >= 1, R, "cache."+c.typ, k.pr.pos(t.Obj().Pos()), "no forwarding methods found")
}

// asksBackend: the method calls a method of a backend.
func (k *K) asksBackend(c *composite, fn *ssa.Function) bool {
	if fn.Name() == "SubResource" || fn.Name() == "Status" || strings.HasPrefix(fn.Name(), "Set") {
		return false
	}
	found := false
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	visit := func(s *St, call ssa.CallInstruction) {
		a := callArgs(call.Common())
		if len(a) > 0 {
			if t := s.PT(a[0]); (isField(t, c.view) || isField(t, c.native)) && isParam(t.Args[0], "recv") {
				found = true
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) { visit(s, call) }
	rule.Instr = func(s *St, in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok {
			visit(s, g)
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	return found
}

// isSubject: t is the kind or the group of the routing argument.
func isSubject(t *Term, sub string) bool {
	switch {
	case sub == "*" && t.Op == "param" && t.Sym != "recv", isParam(t, sub):
		return true
	case t.Op == "call" && (strings.HasSuffix(t.Sym, ".GroupVersionKind") || strings.HasSuffix(t.Sym, ".GetObjectKind") || strings.HasSuffix(t.Sym, ".GroupVersion") || strings.HasSuffix(t.Sym, ".GroupKind")):
		return len(t.Args) == 1 && isSubject(t.Args[0], sub)
	case t.Op == "field" && (t.Sym == "Group" || t.Sym == "GroupVersionKind"):
		return isSubject(t.Args[0], sub)
	case t.Op == "ext" && t.Sym == "0":
		x := t.Args[0]
		return x.Op == "assert" && isSubject(x.Args[0], sub) || isCallTo(x, "schema.ParseGroupVersion") && isSubject(x.Args[0], sub)
	case t.Op == "call" && strings.HasSuffix(t.Sym, ".ObjectGVKFromListGVK"):
		return isSubject(t.Args[len(t.Args)-1], sub)
	}
	return false
}

func isViewTest(t *Term, sub string) bool {
	if t.Op != "call" || len(t.Args) == 0 {
		return false
	}
	n := t.Sym[strings.LastIndexByte(t.Sym, '.')+1:]
	switch n {
	case "IsViewKind", "IsViewGroup", "IsViewGroupVersion":
		return isSubject(t.Args[len(t.Args)-1], sub)
	}
	return false
}

// forwards: the request goes to the backend responsible for its subject, as it is, and the answer of
// the backend is the answer.
func (k *K) forwards(R string, c *composite, fn *ssa.Function, sub string) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	anySub := sub
	if anySub == "" {
		anySub = "*"
	}
	role := func(t *Term) string {
		if t.Op != "field" || !isParam(t.Args[0], "recv") {
			return ""
		}
		switch t.Sym {
		case c.view:
			return "view"
		case c.native:
			return "native"
		}
		return ""
	}
	calls := map[ssa.Instruction]string{}
	rule := &Rule{MaxDepth: 5, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && helperInline(s, call, callee) && !recursive(callee)
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if boolEdge(s, t, taken, func(x *Term) bool { return isViewTest(x, anySub) }, "isview") {
			return
		}
		if nilEdge(s, t, taken, func(x *Term) bool { return role(x) == "native" }, "nat") {
			return
		}
		if nilEdge(s, t, taken, func(x *Term) bool {
			return x.Op == "ext" && x.Sym == "1" && isCallTo(x.Args[0], "schema.ParseGroupVersion")
		}, "bad") {
			return
		}
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isSubject(t.Args[0].Args[0], anySub) && !taken {
			addFlag(s, "bad:set")
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		if len(a) == 0 {
			return
		}
		r := role(s.PT(a[0]))
		if r == "" {
			return
		}
		m := nm[strings.LastIndexByte(nm, '.')+1:]
		if strings.HasPrefix(m, "IsView") || strings.HasPrefix(m, "ObjectGVK") || strings.HasPrefix(m, "ListGVK") {
			return
		}
		at := k.pr.at(call)
		calls[call] = r
		k.check(m == fn.Name(), R, construct, at, "%s is forwarded as %s (path %s)", fn.Name(), m, s.Trace())
		k.check(!hasFlag(s, "done:view") && !hasFlag(s, "done:native"), R, construct, at, "the request is forwarded twice (path %s)", s.Trace())
		addFlag(s, "done:"+r)
		if sub != "" {
			if r == "view" {
				k.check(hasFlag(s, "isview"), R, construct, at, "a request goes to the view backend that may not be about a view (path %s)", s.Trace())
			} else {
				k.check(hasFlag(s, "!isview"), R, construct, at, "a request goes to the native backend that may be about a view (path %s)", s.Trace())
				k.check(hasFlag(s, "nat:set"), R, construct, at, "the native backend is used although it may be missing (path %s)", s.Trace())
			}
		}
		for i, x := range a[1:] {
			p := "arg" + itoa(i)
			t := s.PT(x)
			k.check(isParam(t, p) || t.Op == "ext" && t.Sym == "0" && t.Args[0].Op == "assert" && isParam(t.Args[0].Args[0], p), R, construct, at, "argument %d of the request is %s (path %s)", i+1, short(t), s.Trace())
		}
		k.check(len(a)-1 == fn.Signature.Params().Len(), R, construct, at, "the request is forwarded with %d arguments (path %s)", len(a)-1, s.Trace())
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		if f["done:view"] || f["done:native"] {
			for i := range ret.Results {
				t := s.RetPT(ret, i)
				if t.Op == "ext" && t.Sym == itoa(i) {
					t = t.Args[0]
				}
				in, _ := t.V.(ssa.Instruction)
				k.check(t.Op == "call" && calls[in] != "" && f["done:"+calls[in]], R, construct, at, "the answer is %s instead of that of the backend (path %s)", short(t), s.Trace())
			}
			return
		}
		refused := f["nat:nil"] && f["!isview"] || f["bad:set"] || c.native == "" && f["!isview"] || c.native != "" && sub != "" && f["!isview"] && c.typ == "CompositeClient" && fn.Name() == "Watch"
		k.check(refused, R, construct, at, "a request is answered without asking the backend responsible for it (path %s)", s.Trace())
		if errResult(fn.Signature) >= 0 {
			k.check(s.RetVal(ret, -1) != "nil", R, construct, at, "a request that cannot be served is reported as success (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// aggregates: a request without a subject concerns both backends.
func (k *K) aggregates(R string, c *composite, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	role := func(t *Term) string {
		if t.Op != "field" || !isParam(t.Args[0], "recv") {
			return ""
		}
		switch t.Sym {
		case c.view:
			return "view"
		case c.native:
			return "native"
		}
		return ""
	}
	nativeOnly := k.nativeOnly(c, fn)
	family := func(m string) bool {
		return m == fn.Name() || strings.ReplaceAll(m, "Namespaced", "") == strings.ReplaceAll(fn.Name(), "Namespaced", "")
	}
	rule := &Rule{MaxDepth: 5, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && helperInline(s, call, callee) && !recursive(callee)
	}
	asked := func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		if len(a) == 0 {
			return
		}
		r := role(s.PT(a[0]))
		m := nm[strings.LastIndexByte(nm, '.')+1:]
		if r == "" || !family(m) {
			return
		}
		at := k.pr.at(call)
		if r == "native" {
			k.check(hasFlag(s, "nat:set"), R, construct, at, "the native backend is used although it may be missing (path %s)", s.Trace())
		}
		for i, x := range a[1:] {
			k.check(isParam(s.PT(x), "arg"+itoa(i)), R, construct, at, "argument %d of the request is %s (path %s)", i+1, short(s.PT(x)), s.Trace())
		}
		addFlag(s, "asked:"+r)
	}
	isAnswer := func(t *Term, r string) bool {
		return t.Has(func(x *Term) bool {
			if x.Op != "call" || len(x.Args) == 0 || role(x.Args[0]) != r {
				return false
			}
			return family(x.Sym[strings.LastIndexByte(x.Sym, '.')+1:])
		})
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		asked(s, call, nm)
		if nm == "builtin.append" {
			f := parseFlags(s.Auto)
			for _, r := range []string{"view", "native"} {
				if !f["open:"+r] {
					continue
				}
				for _, e := range k.sliceElems(s.Ctx, call.Common().Args[1]) {
					if isAnswer(s.PTIn(e.c, e.v), r) {
						dropFlag(s, "open:"+r)
						addFlag(s, "copied:"+r)
					}
				}
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok {
			asked(s, g, k.R.calleeName(s.Ctx, g.Common()))
			if tg := k.R.callee(s.Ctx, g.Common()); tg != nil && tg.fn != nil && tg.fn.Blocks != nil && tg.fn.Parent() != nil {
				// a closure: what every path of it asks
				all, n := "", 0
				sub := &Rule{MaxDepth: 5, Flow: true, Inline: rule.Inline, Call: rule.Call, Edge: rule.Edge}
				sub.Exit = func(s2 *St, ret *ssa.Return) {
					if n++; n == 1 {
						all = s2.Auto
					} else if all != s2.Auto {
						for _, r := range []string{"view", "native"} {
							if !hasFlag(s2, "asked:"+r) {
								all = strings.ReplaceAll(all, "asked:"+r, "")
							}
						}
					}
				}
				x := k.explore(sub)
				x.RunCtx(k.R.ctx(s.Ctx, g, nil, tg.fn, tg.mc, tg.mcCtx), s.Auto)
				k.done(x, R, construct)
				for _, r := range []string{"view", "native"} {
					if strings.Contains(all, "asked:"+r) {
						addFlag(s, "asked:"+r)
					}
				}
			}
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if over := s.loopOver(cond); over != nil {
			for _, r := range []string{"view", "native"} {
				if !isAnswer(over, r) {
					continue
				}
				k.check(!hasFlag(s, "open:"+r), R, construct, k.pr.pos(condOrBlock(cond.(ssa.Instruction))), "an element of the answer of the %s backend is left out (path %s)", r, s.Trace())
				k.check(!partOf(over, func(x *Term) bool { return isAnswer(x, r) }), R, construct, k.pr.pos(condOrBlock(cond.(ssa.Instruction))), "a part of the answer of the %s backend is left out (path %s)", r, s.Trace())
				if taken {
					addFlag(s, "open:"+r)
					dropFlag(s, "drained:"+r)
				} else {
					addFlag(s, "drained:"+r)
				}
				return
			}
		}
		if nilEdge(s, t, taken, func(x *Term) bool { return role(x) == "native" }, "nat") {
			return
		}
		for _, r := range []string{"view", "native"} {
			if nilEdge(s, t, taken, func(x *Term) bool { return isErrTerm(x) && isAnswer(x, r) }, "err:"+r) {
				return
			}
			if boolEdge(s, t, taken, func(x *Term) bool { return x.Op == "call" && isAnswer(x, r) }, "yes:"+r) {
				return
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		for i := range ret.Results {
			t := s.RetPT(ret, i)
			if isParam(t, "recv") {
				return // the same composite
			}
			if v := s.retVal(ret, i); v != nil && typeShort(stripIface(v).Type()) == "cache."+c.typ {
				vt := k.lit(s, k.literal(s, v), c.view)
				k.check(isField(vt, c.view) && isParam(vt.Args[0], "recv"), R, construct, at, "the views of the result are those of %s (path %s)", short(vt), s.Trace())
				return
			}
		}
		if errResult(fn.Signature) >= 0 && s.RetVal(ret, -1) == "nonnil" || f["err:view:set"] || f["err:native:set"] {
			if errResult(fn.Signature) >= 0 {
				k.check(s.RetVal(ret, -1) != "nil", R, construct, at, "the failure of a backend is reported as success (path %s)", s.Trace())
			}
			return
		}
		if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && fn.Signature.Results().Len() == 1 {
			// the conjunction of the answers
			t := s.RetPT(ret, 0)
			switch v := s.RetVal(ret, 0); {
			case v == "false":
				k.check(f["!yes:view"] || f["!yes:native"], R, construct, at, "the answer is no although no backend said no (path %s)", s.Trace())
			case v == "true":
				k.check((f["yes:view"] || nativeOnly) && (f["yes:native"] || f["nat:nil"]), R, construct, at, "the answer is yes although a backend was not asked (path %s)", s.Trace())
			default:
				k.check((f["yes:view"] || isAnswer(t, "view") || nativeOnly) && (f["yes:native"] || f["nat:nil"] || isAnswer(t, "native")) && t.Op == "call", R, construct, at, "the answer is %s (path %s)", short(t), s.Trace())
			}
			return
		}
		if !nativeOnly {
			k.check(f["asked:view"], R, construct, at, "the view backend is not asked (path %s)", s.Trace())
		}
		k.check(f["asked:native"] || f["nat:nil"], R, construct, at, "the native backend is not asked (path %s)", s.Trace())
		for i := range ret.Results {
			if isErrType(ret.Results[i].Type()) {
				continue
			}
			vals := []*Term{s.RetPT(ret, i)}
			for _, e := range k.literal(s, s.retVal(ret, i)) {
				if e.v != nil {
					vals = append(vals, s.PTIn(e.c, e.v))
				}
			}
			for _, r := range []string{"view", "native"} {
				if r == "native" && f["nat:nil"] || r == "view" && nativeOnly {
					continue
				}
				has := f["drained:"+r]
				for _, v := range vals {
					has = has || isAnswer(v, r)
				}
				k.check(has, R, construct, at, "result %d does not contain what the %s backend returned (path %s)", i+1, r, s.Trace())
			}
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// nativeOnly: the request exists only for native resources: the view backend has no such method.
func (k *K) nativeOnly(c *composite, fn *ssa.Function) bool {
	t := k.typeIn(cachePkg, c.typ)
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == c.view {
			o, _, _ := types.LookupFieldOrMethod(st.Field(i).Type(), true, t.Obj().Pkg(), fn.Name())
			return o == nil
		}
	}
	return false
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// ---- wiring

func (k *K) wiring() {
	const R = "wiring of the backends"
	k.newCompositeCache(R)
	k.newAPI(R)
	k.setCache(R)
}

func (k *K) newCompositeCache(R string) {
	fn := k.fn("cache.NewCompositeCache")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	opt := func(t *Term, f string) bool { return isField(t, f) && isParam(t.Args[0], "arg1") }
	rule := &Rule{MaxDepth: 5, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && helperInline(s, call, callee) && !recursive(callee)
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		_ = nilEdge(s, t, taken, func(x *Term) bool { return opt(x, "ViewCache") }, "view") ||
			nilEdge(s, t, taken, func(x *Term) bool { return opt(x, "DefaultCache") }, "def") ||
			nilEdge(s, t, taken, func(x *Term) bool { return isParam(x, "arg0") }, "cfg")
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && strings.HasPrefix(t.Args[0].Sym, "<cache.ViewCacheInterface>") && opt(t.Args[0].Args[0], "ViewCache") && !taken {
			addFlag(s, "other")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		ct := k.typeIn(cachePkg, "CompositeCache")
		m := k.literal(s, s.retVal(ret, 0))
		vf := structField(ct, func(x types.Type) bool { return typeShort(x) == "cache.ViewCacheInterface" })
		df := structField(ct, func(x types.Type) bool { return typeShort(x) == "x/cache.Cache" })
		v, d := k.lit(s, m, vf), k.lit(s, m, df)
		vn := isCallTo(v, "cache.NewViewCache") && isParam(v.Args[0], "arg1")
		vo := opt(v, "ViewCache") || v.Op == "ext" && v.Sym == "0" && v.Args[0].Op == "assert" && opt(v.Args[0].Args[0], "ViewCache")
		k.check(vn && (f["view:nil"] || f["other"]) || vo && f["view:set"] && !f["other"], R, construct, at, "the view cache is %s (path %s)", short(v), s.Trace())
		newDef := d.Op == "ext" && d.Sym == "0" && d.Args[0].Op == "call" && d.Args[0].Sym == "x/cache.New" && isParam(d.Args[0].Args[0], "arg0") && opt(d.Args[0].Args[1], "Options")
		k.check(opt(d, "DefaultCache") && (f["def:set"] || f["cfg:nil"]) || newDef && f["def:nil"] && f["cfg:set"] || isNil(d) && f["def:nil"] && f["cfg:nil"], R, construct, at, "the native cache is %s (path %s)", short(d), s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

func (k *K) newAPI(R string) {
	fn := k.fn("cache.NewAPI")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	opt := func(t *Term, f string) bool {
		return isField(t, f) && t.Has(func(x *Term) bool { return isParam(x, "arg1") })
	}
	isCache := func(t *Term) bool {
		return t.Op == "ext" && t.Sym == "0" && isCallTo(t.Args[0], "cache.NewCompositeCache") || isCallTo(t, "cache.NewCompositeCache")
	}
	isClient := func(t *Term) bool {
		return t.Op == "ext" && t.Sym == "0" && isCallTo(t.Args[0], "cache.NewCompositeClient", "cache.NewClientForCache")
	}
	isDisc := func(t *Term) bool { return isCallTo(t, "cache.NewCompositeDiscoveryClient") }
	rule := &Rule{MaxDepth: 5, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && helperInline(s, call, callee) && !recursive(callee)
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		nilEdge(s, s.condPT(cond), taken, func(x *Term) bool { return isParam(x, "arg0") }, "cfg")
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		at := k.pr.at(call)
		a := call.Common().Args
		switch nm {
		case "cache.NewCompositeCache":
			k.check(isParam(s.PT(a[0]), "arg0"), R, construct, at, "the cache gets the configuration %s (path %s)", short(s.PT(a[0])), s.Trace())
			if t := s.PT(a[1]); opt(t, "CacheOptions") {
				return
			}
			m := k.literal(s, a[1])
			for _, f := range []string{"Options", "DefaultCache", "ViewCache"} {
				k.check(opt(k.lit(s, m, f), f), R, construct, at, "the cache gets %s for the option %s (path %s)", short(k.lit(s, m, f)), f, s.Trace())
			}
		case "cache.NewCompositeClient", "cache.NewClientForCache":
			k.check(isParam(s.PT(a[0]), "arg0"), R, construct, at, "the client gets the configuration %s (path %s)", short(s.PT(a[0])), s.Trace())
			k.check(opt(s.PT(a[len(a)-1]), "ClientOptions"), R, construct, at, "the client gets the options %s (path %s)", short(s.PT(a[len(a)-1])), s.Trace())
			if nm == "cache.NewClientForCache" && isCache(s.PT(a[1])) {
				addFlag(s, "set")
			}
		case "cache.NewCompositeDiscoveryClient":
			t := s.PT(a[0])
			k.check(hasFlag(s, "cfg:nil") && isNil(t) || hasFlag(s, "cfg:set") && t.Op == "ext" && t.Sym == "0" && t.Has(func(x *Term) bool { return isParam(x, "arg0") }), R, construct, at, "the native discovery client is %s (path %s)", short(t), s.Trace())
		case "cache.NewCompositeRESTMapper":
			k.check(isDisc(s.PT(a[0])), R, construct, at, "the REST mapper uses %s for discovery (path %s)", short(s.PT(a[0])), s.Trace())
		case "cache.CompositeClient.SetCache":
			if isClient(s.PT(a[0])) && isCache(s.PT(a[1])) {
				addFlag(s, "set")
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		at := k.pr.at(ret)
		m := k.literal(s, s.retVal(ret, 0))
		k.check(hasFlag(s, "set"), R, construct, at, "the client is not connected to the cache (path %s)", s.Trace())
		for f, is := range map[string]func(*Term) bool{"Client": isClient, "Cache": isCache, "Discovery": isDisc,
			"RESTMapper": func(t *Term) bool { return isCallTo(t, "cache.NewCompositeRESTMapper") }} {
			k.check(is(k.lit(s, m, f)), R, construct, at, "the %s of the API is %s (path %s)", f, short(k.lit(s, m, f)), s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// setCache: the view client of a composite client works on the view cache of its composite cache.
func (k *K) setCache(R string) {
	fn := k.fn("cache.CompositeClient.SetCache")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	t := k.typeIn(cachePkg, "CompositeClient")
	cf := structField(t, func(x types.Type) bool { return typeShort(x) == "x/cache.Cache" })
	vf := structField(t, func(x types.Type) bool { return isPtrTo(x, "cache.ViewCacheClient") })
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		a := s.PT(st.Addr)
		if a.Op != "field" || !isParam(a.Args[0], "recv") {
			return
		}
		v := s.PT(st.Val)
		switch a.Sym {
		case cf:
			k.check(isParam(v, "arg0"), R, construct, k.pr.at(in), "the cache is %s (path %s)", short(v), s.Trace())
			addFlag(s, "cache")
		case vf:
			good := v.Has(func(x *Term) bool {
				return x.Op == "call" && strings.HasSuffix(x.Sym, ".GetClient") && x.Args[0].Op == "call" && strings.HasSuffix(x.Args[0].Sym, ".GetViewCache") && x.Has(func(y *Term) bool { return isParam(y, "arg0") })
			})
			k.check(good, R, construct, k.pr.at(in), "the view client is %s (path %s)", short(v), s.Trace())
			addFlag(s, "view")
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isParam(t.Args[0].Args[0], "arg0") && !taken {
			addFlag(s, "other")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		k.check(f["cache"] && (f["view"] || f["other"]), R, construct, k.pr.at(ret), "the client is not connected to the cache (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	// the accessor
	if g := k.fn("cache.CompositeCache.GetViewCache"); g != nil {
		rule := &Rule{MaxDepth: 3, Flow: true, Inline: helperInline}
		rule.Exit = func(s *St, ret *ssa.Return) {
			t := s.RetPT(ret, 0)
			ft := structField(k.typeIn(cachePkg, "CompositeCache"), func(x types.Type) bool { return typeShort(x) == "cache.ViewCacheInterface" })
			k.check(isField(t, ft) && isParam(t.Args[0], "recv"), R, fnName(g), k.pr.at(ret), "the view cache is %s", short(t))
		}
		x := k.explore(rule)
		x.Run(g, "")
		k.done(x, R, fnName(g))
	}
	_ = sort.Strings
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}
