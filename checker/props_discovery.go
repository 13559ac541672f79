package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V09: discovery of views.

func init() {
	register("V09", "discovery of views: every path of registering, unregistering and listing view kinds, of the tests and conversions between kinds, lists and resources, and of the REST mapper of views: what is listed is what is registered, once, and described as what it is; a conversion keeps group and version", runV09)
}

type disco struct {
	k   *K
	reg string // field with the registered kinds
}

// isReg: the registered kinds.
func (d *disco) isReg(t *Term) bool { return isField(t, d.reg) && isParam(t.Args[0], "recv") }

// isKind: one of the registered kinds.
func (d *disco) isKind(t *Term) bool { return t.Op == "rangekey" && d.isReg(t.Args[0]) }

// part of a registered kind.
func (d *disco) part(t *Term, f string) bool {
	if d.isKind(t) {
		return f == ""
	}
	if !isField(t, f) {
		return false
	}
	b := t.Args[0]
	for isCallTo(b, "schema.GroupVersionKind.GroupVersion") && f != "Kind" || isCallTo(b, "schema.GroupVersionKind.GroupKind") && f != "Version" {
		b = b.Args[0]
	}
	if f == "Kind" && b.Op == "index" && d.isReg(b.Args[0]) {
		return true // of its description
	}
	return d.isKind(b)
}

// gv: the group and version of a registered kind.
func (d *disco) gv(t *Term) bool {
	return isCallTo(t, "schema.GroupVersionKind.GroupVersion") && d.isKind(t.Args[0])
}

// gvStr: the same as text.
func (d *disco) gvStr(s *St, t *Term, gv func(*Term) bool, part func(*Term, string) bool) bool {
	if isCallTo(t, "schema.GroupVersion.String") && gv(t.Args[0]) {
		return true
	}
	p := d.k.strParts(s, t)
	return len(p) == 3 && part(p[0], "Group") && p[1].Sym == `"/"` && part(p[2], "Version")
}

// entry: the description of a registered kind.
func (d *disco) entry(t *Term) bool {
	for t.Op == "un" && t.Sym == "*" || t.Op == "deref" {
		t = t.Args[0]
	}
	return (t.Op == "index" || t.Op == "lookup") && d.isReg(t.Args[0])
}

// built: the value comes from something put together by such appends.
func (k *K) built(s *St, c *Ctx, v ssa.Value, elem string) bool {
	c, v = s.RootIn(c, v)
	is := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && anchorAppend(elem)(i)
	}
	seen := map[ssa.Value]bool{}
	if flowsFrom(v, is, seen) {
		return true
	}
	al, ok := v.(*ssa.Alloc)
	if u, isLoad := v.(*ssa.UnOp); isLoad {
		al, ok = u.X.(*ssa.Alloc)
	}
	if !ok || al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && fa.Referrers() != nil {
			for _, q := range *fa.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && flowsFrom(st.Val, is, seen) {
					return true
				}
			}
		}
	}
	return false
}

func runV09(k *K) {
	t := k.typeIn(cachePkg, "ViewDiscovery")
	if !k.check(t != nil, "registry", "cache.ViewDiscovery", "", "undecided: the discovery of views was not found") {
		return
	}
	d := &disco{k: k, reg: structField(t, func(x types.Type) bool {
		kk, v := mapOf(x)
		return kk == "schema.GroupVersionKind" && strings.HasSuffix(v, "meta/v1.APIResource")
	})}
	if !k.check(d.reg != "", "registry", "cache.ViewDiscovery", "", "undecided: the registered kinds were not found") {
		return
	}
	m := func(n string) *ssa.Function {
		f := k.method(t, n)
		k.check(f != nil, "registry", "cache.ViewDiscovery."+n, "", "undecided: the method was not found")
		return f
	}
	d.registry("registry", m("RegisterViewGVK"), m("UnregisterViewGVK"))
	d.kinds("listing", m("GetRegisteredViewGVKs"))
	d.resources("listing", m("ServerResourcesForGroupVersion"))
	d.groups("listing", m("ServerGroups"))
	d.all("listing", m("ServerGroupsAndResources"))
	d.same("listing", m("ServerPreferredResources"), []string{"ServerGroupsAndResources"})
	d.same("listing", m("ServerPreferredNamespacedResources"), []string{"ServerPreferredResources", "ServerGroupsAndResources"})
	d.tests("kinds", m("IsViewGroup"), m("IsViewKind"), m("IsViewListKind"))
	d.lists("kinds", m("ObjectGVKFromListGVK"), true)
	d.lists("kinds", m("ListGVKFromObjectGVK"), false)
	d.names("kinds", m("ResourceFromKind"))
	d.kindOf("kinds", m("KindFromResource"))
	d.mapper("mapper")
}

// registry: a view kind is entered with its description, anything else is not; unregistering removes it.
func (d *disco) registry(R string, reg, unreg *ssa.Function) {
	k := d.k
	if reg == nil || unreg == nil {
		return
	}
	name := fnName(reg)
	k.ok(R, name, k.pr.pos(reg.Pos()))
	arg := func(t *Term) bool { return isParam(t, "arg0") }
	n := 0
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	isView := func(t *Term) bool {
		return isCallTo(t, "cache.ViewDiscovery.IsViewKind") && arg(t.Args[1])
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		there := func(x *Term) bool {
			return x.Op == "ext" && x.Sym == "1" && x.Args[0].Op == "lookup" && d.isReg(x.Args[0].Args[0]) && arg(x.Args[0].Args[1])
		}
		_ = boolEdge(s, t, taken, isView, "view") || boolEdge(s, t, taken, there, "there") ||
			nilEdge(s, t, taken, func(x *Term) bool {
				if x.Op == "ext" && x.Sym == "0" {
					x = x.Args[0]
				}
				return x.Op == "lookup" && d.isReg(x.Args[0]) && arg(x.Args[1])
			}, "known")
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !d.isReg(s.PT(mu.Map)) {
			return
		}
		n++
		at := k.pr.at(in)
		addFlag(s, "entered")
		k.check(arg(s.PT(mu.Key)), R, name, at, "another kind is registered: %s (path %s)", short(s.PT(mu.Key)), s.Trace())
		k.check(hasFlag(s, "view"), R, name, at, "something that is no view kind is registered (path %s)", s.Trace())
		lit := k.literal(s, mu.Value)
		f := func(n string) *Term {
			if e, ok := lit[n]; ok && e.v != nil {
				return s.PTIn(e.c, e.v)
			}
			return &Term{Op: "none"}
		}
		for _, x := range []string{"Group", "Version", "Kind"} {
			k.check(isField(f(x), x) && arg(f(x).Args[0]), R, name, at, "a kind is described with %s %s (path %s)", strings.ToLower(x), short(f(x)), s.Trace())
		}
		for _, x := range []string{"Name", "SingularName"} {
			t := f(x)
			k.check(isCallTo(t, "cache.ViewDiscovery.ResourceFromKind") && isField(t.Args[1], "Kind") && arg(t.Args[1].Args[0]) || resourceOf(&Term{Op: "param", Sym: "arg0"})(t),
				R, name, at, "a kind is described with %s %s (path %s)", x, short(t), s.Trace())
		}
		k.check(f("Namespaced").Sym == "true", R, name, at, "a view is described as not namespaced (path %s)", s.Trace())
		verbs := map[string]bool{}
		if e, ok := lit["Verbs"]; ok && e.v != nil {
			c, v := s.RootIn(e.c, e.v)
			for _, x := range k.sliceElems(c, v) {
				verbs[s.PTIn(x.c, x.v).Sym] = true
			}
		}
		for _, x := range []string{"get", "list", "create", "update", "patch", "delete", "watch"} {
			k.check(verbs[`"`+x+`"`], R, name, at, "views are described as not supporting %s (path %s)", x, s.Trace())
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		v := s.RetVal(ret, 0)
		k.check(v == "nil" || v == "c:nil", R, name, k.pr.at(ret), "registering a kind fails (path %s)", s.Trace())
		k.check(f["entered"] || f["!view"] || f["there"] || f["known:set"], R, name, k.pr.at(ret), "a view kind is not registered (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(reg, "")
	k.done(x, R, name)
	k.check(n > 0, R, name, k.pr.pos(reg.Pos()), "nothing is ever registered")
	// unregistering
	name = fnName(unreg)
	k.ok(R, name, k.pr.pos(unreg.Pos()))
	rule = &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		_ = boolEdge(s, t, taken, isView, "view") || boolEdge(s, t, taken, func(x *Term) bool {
			return x.Op == "ext" && x.Sym == "1" && x.Args[0].Op == "lookup" && d.isReg(x.Args[0].Args[0]) && arg(x.Args[0].Args[1])
		}, "there")
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm != "builtin.delete" {
			return
		}
		a := callArgs(call.Common())
		if d.isReg(s.PT(a[0])) {
			k.check(arg(s.PT(a[1])), R, name, k.pr.at(call), "another kind is removed: %s (path %s)", short(s.PT(a[1])), s.Trace())
			addFlag(s, "removed")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		v := s.RetVal(ret, 0)
		k.check(v == "nil" || v == "c:nil", R, name, k.pr.at(ret), "unregistering a kind fails (path %s)", s.Trace())
		k.check(f["removed"] || f["!view"] || f["!there"], R, name, k.pr.at(ret), "a kind stays registered (path %s)", s.Trace())
	}
	x = k.explore(rule)
	x.Run(unreg, "")
	k.done(x, R, name)
}

// kinds: all registered kinds.
func (d *disco) kinds(R string, fn *ssa.Function) {
	k := d.k
	if fn == nil {
		return
	}
	name := fnName(fn)
	whole := true // the keys of the map as they are
	k.scenario(fn, &scen{R: R, construct: name,
		atom: func(*St, *Term) (string, bool) { return "", false },
		exit: func(s *St, ret *ssa.Return) string {
			t := s.RetPT(ret, 0)
			if isCallTo(t, "slices.Collect") || isCallTo(t, "slices.AppendSeq") {
				t = t.Args[len(t.Args)-1]
			}
			whole = whole && isCallTo(t, "maps.Keys") && d.isReg(t.Args[0])
			return ""
		}})
	if whole {
		return
	}
	k.each(fn, &eachSpec{R: R, what: "every registered kind is listed", leaf: d.isReg,
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			el := k.appendTo(s, call, "schema.GroupVersionKind")
			for _, e := range el {
				t := s.PTIn(e.c, e.v)
				k.check(d.isKind(t), R, name, k.pr.at(call), "%s is listed (path %s)", short(t), s.Trace())
			}
			if len(el) != 1 {
				return 0
			}
			addFlag(s, "appended")
			return 1
		},
		exit: func(s *St, ret *ssa.Return) {
			k.check(!hasFlag(s, "appended") || k.built(s, s.Ctx, ret.Results[0], "schema.GroupVersionKind"), R, name, k.pr.at(ret), "what was put together is not returned (path %s)", s.Trace())
		}})
}

// isGV: the group and version of the request.
func askedGV(t *Term) bool {
	return t.Op == "ext" && t.Sym == "0" && isCallTo(t.Args[0], "schema.ParseGroupVersion") && isParam(t.Args[0].Args[0], "arg0")
}

// resources: the descriptions of the kinds of the version asked for.
func (d *disco) resources(R string, fn *ssa.Function) {
	k := d.k
	if fn == nil {
		return
	}
	name := fnName(fn)
	asked := func(t *Term, f string) bool { return isField(t, f) && askedGV(t.Args[0]) }
	k.each(fn, &eachSpec{R: R, what: "every registered kind of the version is listed", leaf: d.isReg,
		edge: func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			for t.Op == "un" && t.Sym == "!" {
				t, taken = t.Args[0], !taken
			}
			if t.Op != "bin" || t.Sym != "==" && t.Sym != "!=" {
				return
			}
			eq := (t.Sym == "==") == taken
			for i := 0; i < 2; i++ {
				a, b := t.Args[i], t.Args[1-i]
				switch {
				case d.gv(a) && askedGV(b), d.gvStr(s, a, d.gv, d.part) && isParam(b, "arg0"):
					if eq {
						addFlag(s, "it:same")
					} else {
						addFlag(s, "it:other")
					}
				default:
					for _, f := range []string{"Group", "Version"} {
						if d.part(a, f) && asked(b, f) {
							if !eq {
								addFlag(s, "it:other")
							} else if addFlag(s, "it:"+f); hasFlag(s, "it:Group") && hasFlag(s, "it:Version") {
								addFlag(s, "it:same")
							}
						}
					}
				}
			}
		},
		skip: func(s *St, cond ssa.Value, taken bool) bool { return hasFlag(s, "it:other") },
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			el := k.appendTo(s, call, "meta/v1.APIResource")
			for _, e := range el {
				t := s.PTIn(e.c, e.v)
				k.check(d.entry(t), R, name, k.pr.at(call), "%s is listed (path %s)", short(t), s.Trace())
				k.check(hasFlag(s, "it:same"), R, name, k.pr.at(call), "a kind of another group or version is listed (path %s)", s.Trace())
			}
			if len(el) != 1 {
				return 0
			}
			addFlag(s, "appended")
			return 1
		},
		exit: func(s *St, ret *ssa.Return) {
			lit := k.literal(s, ret.Results[0])
			g, l := lit["GroupVersion"], lit["APIResources"]
			if !k.check(g.v != nil && l.v != nil, R, name, k.pr.at(ret), "undecided: the result is %s", short(s.RetPT(ret, 0))) {
				return
			}
			gt := s.PTIn(g.c, g.v)
			k.check(isParam(gt, "arg0") || isCallTo(gt, "schema.GroupVersion.String") && askedGV(gt.Args[0]), R, name, k.pr.at(ret), "the list is for %s (path %s)", short(gt), s.Trace())
			k.check(!hasFlag(s, "appended") || k.built(s, l.c, l.v, "meta/v1.APIResource"), R, name, k.pr.at(ret), "what was put together is not returned (path %s)", s.Trace())
		}})
}

// groups: every group once, with every version once.
func (d *disco) groups(R string, fn *ssa.Function) {
	k := d.k
	if fn == nil {
		return
	}
	name := fnName(fn)
	const gvT, grpT = "meta/v1.GroupVersionForDiscovery", "meta/v1.APIGroup"
	grouped := func(t *Term) bool { return madeOf(t, isMapTo("[]"+gvT)) }
	mine := func(t *Term) bool { // the versions listed of the group of the kind
		if t.Op == "ext" && t.Sym == "0" {
			t = t.Args[0]
		}
		return t.Op == "lookup" && grouped(t.Args[0]) && d.part(t.Args[1], "Group")
	}
	version := func(s *St, a, b *Term) bool { // same version
		if isField(a, "GroupVersion") && a.Args[0].Op == "index" && mine(a.Args[0].Args[0]) {
			return d.gvStr(s, b, d.gv, d.part)
		}
		return isField(a, "Version") && a.Args[0].Op == "index" && mine(a.Args[0].Args[0]) && d.part(b, "Version")
	}
	k.each(fn, &eachSpec{R: R, what: "every version with registered kinds is listed once", leaf: d.isReg, anchor: anchorMap(isMapTo("[]" + gvT)),
		edge: func(s *St, cond ssa.Value, taken bool) {
			if ov := s.loopOver(cond); ov != nil && mine(ov) {
				if !taken {
					addFlag(s, "it:absent") // none of them was the same
				}
				return
			}
			t := s.condPT(cond)
			for t.Op == "un" && t.Sym == "!" {
				t, taken = t.Args[0], !taken
			}
			if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && (version(s, t.Args[0], t.Args[1]) || version(s, t.Args[1], t.Args[0])) && (t.Sym == "==") == taken {
				addFlag(s, "it:listed")
			}
			if t.Op == "ext" && t.Sym == "1" {
				t = t.Args[0]
			}
			if t.Op == "lookup" && t.Args[0].Op == "alloc" && len(t.Args) > 1 && (d.gv(t.Args[1]) || d.gvStr(s, t.Args[1], d.gv, d.part)) {
				if taken {
					addFlag(s, "it:listed")
				} else {
					addFlag(s, "it:absent")
				}
			}
		},
		skip: func(s *St, cond ssa.Value, taken bool) bool { return hasFlag(s, "it:listed") },
		instr: func(s *St, in ssa.Instruction) int {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !grouped(s.PT(mu.Map)) {
				return 0
			}
			at := k.pr.at(in)
			kt := s.PT(mu.Key)
			k.check(d.part(kt, "Group"), R, name, at, "a version is listed under %s (path %s)", short(kt), s.Trace())
			_, v := s.Root(mu.Value)
			ap, ok := v.(*ssa.Call)
			var el []ctxVal
			if ok {
				el = k.appendTo(s, ap, gvT)
			}
			if !k.check(len(el) == 1, R, name, at, "undecided: the versions of a group become %s (path %s)", short(s.PT(mu.Value)), s.Trace()) {
				return 0
			}
			old := s.PT(ap.Call.Args[0])
			k.check(mine(old), R, name, at, "the versions listed before are lost: %s (path %s)", short(old), s.Trace())
			k.check(hasFlag(s, "it:absent") && !hasFlag(s, "it:listed"), R, name, at, "a version is listed again for every kind (path %s)", s.Trace())
			lit := k.literalIn(s, el[0].c, el[0].v)
			g, ver := lit["GroupVersion"], lit["Version"]
			if k.check(g.v != nil && ver.v != nil, R, name, at, "undecided: a version is listed as %s", short(s.PTIn(el[0].c, el[0].v))) {
				gt, vt := s.PTIn(g.c, g.v), s.PTIn(ver.c, ver.v)
				k.check(d.gvStr(s, gt, d.gv, d.part), R, name, at, "a version is listed as %s (path %s)", short(gt), s.Trace())
				k.check(d.part(vt, "Version"), R, name, at, "a version is listed as %s (path %s)", short(vt), s.Trace())
			}
			return 1
		}})
	elem := func(t *Term) bool { return t.Op == "index" && grouped(t.Args[0]) }
	ver := func(t *Term) bool { return t.Op == "index" && elem(t.Args[0]) }
	k.each(fn, &eachSpec{R: R, what: "every group is listed once", leaf: grouped, anchor: anchorAppend(grpT),
		edge: func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			for _, c := range []string{k.viewVersion()} {
				if x, eq, ok := eqConst(t, c, taken); ok && eq && isField(x, "Version") && ver(x.Args[0]) {
					addFlag(s, "it:default")
				}
			}
			if x, eq, ok := eqConst(t, "0", taken); ok && isCallTo(x, "builtin.len") && elem(x.Args[0]) && eq {
				s.Stop = true // no group without versions is made
			}
			if t.Op == "bin" && t.Sym == ">" && isCallTo(t.Args[0], "builtin.len") && elem(t.Args[0].Args[0]) && !taken {
				s.Stop = true
			}
		},
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			el := k.appendTo(s, call, grpT)
			if len(el) != 1 {
				return 0
			}
			at := k.pr.at(call)
			if hasFlag(s, "it:added") {
				k.fail(R, name, at, "a group is listed twice (path %s)", s.Trace())
			}
			addFlag(s, "it:added")
			addFlag(s, "appended")
			lit := k.literalIn(s, el[0].c, el[0].v)
			f := func(n string) *Term {
				if e, ok := lit[n]; ok && e.v != nil {
					return s.PTIn(e.c, e.v)
				}
				return &Term{Op: "none"}
			}
			k.check(f("Name").Op == "rangekey" && grouped(f("Name").Args[0]), R, name, at, "a group is listed as %s (path %s)", short(f("Name")), s.Trace())
			k.check(elem(f("Versions")), R, name, at, "a group is listed with versions %s (path %s)", short(f("Versions")), s.Trace())
			p := f("PreferredVersion")
			k.check(ver(p), R, name, at, "the preferred version is %s (path %s)", short(p), s.Trace())
			k.check(!hasFlag(s, "it:default") || !ver(p) || len(p.Args) < 2 || p.Args[1].Op != "const", R, name, at, "another version is preferred to %s (path %s)", k.viewVersion(), s.Trace())
			return 1
		},
		exit: func(s *St, ret *ssa.Return) {
			k.check(!hasFlag(s, "appended") || k.built(s, s.Ctx, ret.Results[0], grpT), R, name, k.pr.at(ret), "what was put together is not returned (path %s)", s.Trace())
		}})
}

// all: all groups, and the resources of every version.
func (d *disco) all(R string, fn *ssa.Function) {
	k := d.k
	if fn == nil {
		return
	}
	name := fnName(fn)
	const listT = "meta/v1.APIResourceList"
	outside := func(call ssa.CallInstruction, callee *ssa.Function) bool {
		return callee.Object() != nil && callee.Object().Exported()
	}
	groups := func(t *Term) bool {
		return isField(t, "Groups") && t.Args[0].Op == "ext" && t.Args[0].Sym == "0" && isCallTo(t.Args[0].Args[0], "cache.ViewDiscovery.ServerGroups")
	}
	ptrTo := func(s *St, v ssa.Value) bool {
		_, w := s.Root(v)
		if al, ok := w.(*ssa.Alloc); ok { // a copy of it
			if sv := singleStore(al); sv != nil {
				t := s.PT(sv)
				return t.Op == "index" && groups(t.Args[0])
			}
			return false
		}
		ia, ok := w.(*ssa.IndexAddr)
		return ok && groups(s.PT(ia.X))
	}
	k.each(fn, &eachSpec{R: R, what: "every group is listed", leaf: groups, outside: outside,
		instr: func(s *St, in ssa.Instruction) int {
			st, ok := in.(*ssa.Store)
			if !ok {
				return 0
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || typeText(ia.X.Type()) != "[]*v1.APIGroup" && !strings.HasSuffix(typeShort(deref(ia.Type())), "meta/v1.APIGroup") {
				return 0
			}
			if ptrTo(s, st.Val) {
				if _, isArr := deref(ia.X.Type()).Underlying().(*types.Array); isArr {
					return 0 // the argument of an append
				}
				src, ok2 := st.Val.(*ssa.IndexAddr)
				k.check(!ok2 || src.Index == ia.Index, R, name, k.pr.at(in), "groups are listed in each other's place (path %s)", s.Trace())
				return 1
			}
			return 0
		},
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			for _, e := range k.appendTo(s, call, "meta/v1.APIGroup") {
				if ptrTo(s, e.v) {
					return 1
				}
			}
			return 0
		}})
	// the versions of the registered kinds
	versions := func(t *Term) bool {
		return madeOf(t, func(x types.Type) bool { kk, _ := mapOf(x); return kk == "schema.GroupVersion" })
	}
	k.each(fn, &eachSpec{R: R, what: "every version with registered kinds is listed", leaf: d.isReg, outside: outside,
		instr: func(s *St, in ssa.Instruction) int {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !versions(s.PT(mu.Map)) {
				return 0
			}
			kt := s.PT(mu.Key)
			if !k.check(d.gv(kt), R, name, k.pr.at(in), "the version %s is listed (path %s)", short(kt), s.Trace()) {
				return 0
			}
			return 1
		}})
	isList := func(t *Term, n string) bool {
		return t.Op == "ext" && t.Sym == n && isCallTo(t.Args[0], "cache.ViewDiscovery.ServerResourcesForGroupVersion")
	}
	k.each(fn, &eachSpec{R: R, what: "the resources of every version are listed", leaf: versions, outside: outside,
		skip: func(s *St, cond ssa.Value, taken bool) bool {
			t := s.condPT(cond)
			empty := func(x *Term) bool {
				return isCallTo(x, "builtin.len") && isField(x.Args[0], "APIResources") && isList(x.Args[0].Args[0], "0")
			}
			if x, eq, ok := eqConst(t, "0", taken); ok {
				return eq && empty(x)
			}
			return t.Op == "bin" && t.Sym == ">" && empty(t.Args[0]) && t.Args[1].Sym == "0" && !taken
		},
		edge: func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			if x, eq, ok := eqConst(t, "nil", taken); ok && !eq && isList(x, "1") {
				addFlag(s, "failed")
			}
		},
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			for _, e := range k.appendTo(s, call, "meta/v1.APIResourceList") {
				t := s.PTIn(e.c, e.v)
				if !k.check(isList(t, "0"), R, name, k.pr.at(call), "%s is listed (path %s)", short(t), s.Trace()) {
					continue
				}
				a := t.Args[0].Args[1]
				key := func(x *Term) bool { return x.Op == "rangekey" && versions(x.Args[0]) }
				k.check(d.gvStr(s, a, key, func(x *Term, f string) bool { return isField(x, f) && key(x.Args[0]) }), R, name, k.pr.at(call), "the resources of %s are listed (path %s)", short(a), s.Trace())
				addFlag(s, "appended")
				return 1
			}
			return 0
		},
		exit: func(s *St, ret *ssa.Return) {
			k.check(!hasFlag(s, "failed"), R, name, k.pr.at(ret), "resources that could not be listed are missing, and no error is reported (path %s)", s.Trace())
			k.check(!hasFlag(s, "appended") || k.built(s, s.Ctx, ret.Results[1], listT), R, name, k.pr.at(ret), "what was put together is not returned (path %s)", s.Trace())
			g := s.RetPT(ret, 0)
			k.check(g.Op == "alloc" || k.built(s, s.Ctx, ret.Results[0], "meta/v1.APIGroup"), R, name, k.pr.at(ret), "the groups returned are %s (path %s)", short(g), s.Trace())
		}})
}

// same: fn returns what another one does.
func (d *disco) same(R string, fn *ssa.Function, of []string) {
	k := d.k
	if fn == nil {
		return
	}
	name := fnName(fn)
	for i := range of {
		of[i] = "cache.ViewDiscovery." + of[i]
	}
	k.scenario(fn, &scen{R: R, construct: name,
		atom: func(*St, *Term) (string, bool) { return "", false },
		exit: func(s *St, ret *ssa.Return) string {
			v, e := s.RetPT(ret, 0), s.RetPT(ret, 1)
			isOf := func(t *Term, last bool) bool {
				if t.Op != "ext" {
					return false
				}
				for _, n := range of {
					if isCallTo(t.Args[0], n) {
						i := 0
						if n == "cache.ViewDiscovery.ServerGroupsAndResources" {
							i = 1
						}
						if last {
							i++
						}
						return t.Sym == itoa(i)
					}
				}
				return false
			}
			if s.RetVal(ret, 1) == "nonnil" || isOf(e, true) && !isOf(v, false) {
				if !isOf(e, true) {
					return "the error is " + short(e)
				}
				return ""
			}
			if !isOf(v, false) {
				return "the resources returned are " + short(v)
			}
			if !isOf(e, true) && s.RetVal(ret, 1) != "nil" {
				return "the error is " + short(e)
			}
			return ""
		}})
}

// kindFacts folds the tests on a kind: whether its group is one of views and its name that of a list.
func kindFacts(view, list bool, gvk, kind func(*Term) bool) func(*St, *Term) (string, bool) {
	tf := map[bool]string{true: "true", false: "false"}
	return func(s *St, t *Term) (string, bool) {
		isL := func(x *Term) bool { return x.Op == "const" && x.Sym == `"List"` }
		switch {
		case isCallTo(t, "view/v1alpha1.IsViewKind") && gvk(t.Args[0]):
			return tf[view], true
		case isCallTo(t, "view/v1alpha1.IsViewGroup") && isField(t.Args[0], "Group") && gvk(t.Args[0].Args[0]):
			return tf[view], true
		case isCallTo(t, "strings.HasSuffix") && kind(t.Args[0]) && isL(t.Args[1]):
			return tf[list], true
		case t.Op == "ext" && t.Sym == "1" && isCallTo(t.Args[0], "strings.CutSuffix") && kind(t.Args[0].Args[0]) && isL(t.Args[0].Args[1]):
			return tf[list], true
		}
		return "", false
	}
}

// trimmed: the kind of the elements of a list.
func trimmed(t *Term, kind func(*Term) bool, list bool) bool {
	if t.Op == "ext" && t.Sym == "0" && isCallTo(t.Args[0], "strings.CutSuffix") {
		t = t.Args[0]
	}
	if (isCallTo(t, "strings.TrimSuffix") || isCallTo(t, "strings.CutSuffix")) && t.Args[1].Sym == `"List"` {
		return kind(t.Args[0])
	}
	return !list && kind(t)
}

var samePkg = func(fn *ssa.Function) func(*St, ssa.CallInstruction, *ssa.Function) bool {
	return func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(fn) && !recursive(callee)
	}
}

// tests: what is a view, and what a list.
func (d *disco) tests(R string, group, kind, list *ssa.Function) {
	k := d.k
	arg := func(t *Term) bool { return isParam(t, "arg0") }
	kd := func(t *Term) bool { return isField(t, "Kind") && arg(t.Args[0]) }
	tf := map[bool]string{true: "true", false: "false"}
	if group != nil {
		k.scenario(group, &scen{R: R, construct: fnName(group), inline: samePkg(group),
			atom: func(*St, *Term) (string, bool) { return "", false },
			exit: func(s *St, ret *ssa.Return) string {
				if t := s.RetPT(ret, 0); !isCallTo(t, "view/v1alpha1.IsViewGroup") || !arg(t.Args[0]) {
					return "the answer is " + short(t)
				}
				return ""
			}})
	}
	for _, view := range []bool{true, false} {
		for _, l := range []bool{true, false} {
			for _, fn := range []*ssa.Function{kind, list} {
				if fn == nil {
					continue
				}
				atom := kindFacts(view, l, arg, kd)
				want := view && l == (fn == list)
				what := "of something that is " + map[bool]string{true: "a view", false: "no view"}[view] + map[bool]string{true: " and a list", false: " and no list"}[l]
				k.scenario(fn, &scen{R: R, construct: fnName(fn) + " " + what, inline: samePkg(fn), atom: atom,
					exit: func(s *St, ret *ssa.Return) string {
						v, ok := fold(s, s.RetPT(ret, 0), atom)
						if c := s.RetVal(ret, 0); !ok && (c == "true" || c == "false") {
							v, ok = string(c), true
						}
						if !ok || v != tf[want] {
							return "the answer is " + short(s.RetPT(ret, 0)) + " instead of " + tf[want]
						}
						return ""
					}})
			}
		}
	}
}

// lists: the kind of lists of objects, and of objects of lists.
func (d *disco) lists(R string, fn *ssa.Function, object bool) {
	k := d.k
	if fn == nil {
		return
	}
	arg := func(t *Term) bool { return isParam(t, "arg0") }
	kd := func(t *Term) bool { return isField(t, "Kind") && arg(t.Args[0]) }
	for _, view := range []bool{true, false} {
		for _, l := range []bool{true, false} {
			what := "of something that is " + map[bool]string{true: "a view", false: "no view"}[view] + map[bool]string{true: " and a list", false: " and no list"}[l]
			k.scenario(fn, &scen{R: R, construct: fnName(fn) + " " + what, inline: samePkg(fn), atom: kindFacts(view, l, arg, kd),
				exit: func(s *St, ret *ssa.Return) string {
					if !view || l != object { // nothing to convert
						if arg(s.RetPT(ret, 0)) {
							return ""
						}
					}
					p := k.gvkParts(s, s.Ctx, s.retVal(ret, 0))
					if p == nil {
						if arg(s.RetPT(ret, 0)) {
							return "the kind is not converted"
						}
						return "undecided: the kind is " + short(s.RetPT(ret, 0))
					}
					for _, f := range []string{"Group", "Version"} {
						if p[f] == nil || !isField(p[f], f) || !arg(p[f].Args[0]) {
							return "the kind is given another " + strings.ToLower(f)
						}
					}
					t := p["Kind"]
					switch {
					case t == nil:
						return "the kind is lost"
					case !view || l != object:
						if !kd(t) {
							return "the kind becomes " + short(t)
						}
					case object:
						if !trimmed(t, kd, true) {
							return "the kind becomes " + short(t)
						}
					default:
						if x := k.strParts(s, t); len(x) != 2 || !kd(x[0]) || x[1].Sym != `"List"` {
							return "the kind becomes " + short(t)
						}
					}
					return ""
				}})
		}
	}
}

// names: the resource of a kind.
func (d *disco) names(R string, fn *ssa.Function) {
	k := d.k
	if fn == nil {
		return
	}
	kd := func(t *Term) bool { return isParam(t, "arg0") }
	for _, l := range []bool{true, false} {
		k.scenario(fn, &scen{R: R, construct: fnName(fn) + map[bool]string{true: " of a list", false: " of an object"}[l], inline: samePkg(fn),
			atom: kindFacts(true, l, func(*Term) bool { return false }, kd),
			exit: func(s *St, ret *ssa.Return) string {
				t := s.RetPT(ret, 0)
				if !isCallTo(t, "strings.ToLower") || !trimmed(t.Args[0], kd, l) {
					return "the resource is " + short(t)
				}
				return ""
			}})
	}
}

// kindOf: the registered kind of a resource.
func (d *disco) kindOf(R string, fn *ssa.Function) {
	k := d.k
	if fn == nil {
		return
	}
	name := fnName(fn)
	k.ok(R, name, k.pr.pos(fn.Pos()))
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	asked := func(t *Term) bool { return isParam(t, "arg0") }
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if ov := s.loopOver(cond); ov != nil && d.isReg(ov) {
			f := parseFlags(s.Auto)
			if f["in"] {
				k.check(!f["match"], R, name, k.pr.pos(fn.Pos()), "a kind found is passed over (path %s)", s.Trace())
				k.check(f["differs"] || f["match"], R, name, k.pr.pos(fn.Pos()), "a kind is passed over without comparing its name (path %s)", s.Trace())
			}
			for _, x := range []string{"in", "match", "differs"} {
				dropFlag(s, x)
			}
			if taken {
				addFlag(s, "in")
			} else {
				addFlag(s, "all")
			}
			return
		}
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op != "bin" || t.Sym != "==" && t.Sym != "!=" {
			if isCallTo(t, "strings.EqualFold") {
				t = &Term{Op: "bin", Sym: "==", Args: t.Args}
				for i := 0; i < 2; i++ {
					if asked(t.Args[i]) && d.part(t.Args[1-i], "Kind") {
						addFlag(s, map[bool]string{true: "match", false: "differs"}[taken])
					}
				}
			}
			return
		}
		eq := (t.Sym == "==") == taken
		for i := 0; i < 2; i++ {
			a, b := t.Args[i], t.Args[1-i]
			if !asked(a) {
				continue
			}
			main := isField(b, "Name") && d.entry(b.Args[0]) || isCallTo(b, "strings.ToLower") && d.part(b.Args[0], "Kind")
			switch {
			case (main || isField(b, "SingularName") && d.entry(b.Args[0])) && eq:
				addFlag(s, "match")
			case main:
				addFlag(s, "differs")
			}
		}
	}
	found := 0
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		if s.RetVal(ret, 1) == "nonnil" {
			k.check(f["all"], R, name, at, "a resource is not found before all kinds were looked at (path %s)", s.Trace())
			return
		}
		found++
		t := s.RetPT(ret, 0)
		k.check(d.part(t, "Kind"), R, name, at, "the kind is %s (path %s)", short(t), s.Trace())
		k.check(f["match"] && f["in"], R, name, at, "a kind is returned that is not the one of the resource (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, name)
	k.check(found > 0, R, name, k.pr.pos(fn.Pos()), "no kind is ever found")
}

// mapper: the REST mapper of views.
func (d *disco) mapper(R string) {
	k := d.k
	t := k.typeIn(cachePkg, "ViewRESTMapper")
	if !k.check(t != nil, R, "cache.ViewRESTMapper", "", "undecided: the REST mapper of views was not found") {
		return
	}
	arg := func(t *Term) bool { return isParam(t, "arg0") }
	fld := func(t *Term, f string) bool { return t != nil && isField(t, f) && arg(t.Args[0]) }
	lower := func(t *Term, f string) bool { return t != nil && isCallTo(t, "strings.ToLower") && fld(t.Args[0], f) }
	version := func(s *St, t *Term) bool {
		if t == nil {
			return false
		}
		given := t.Op == "index" && isParam(t.Args[0], "arg1") && len(t.Args) > 1 && t.Args[1].Sym == "0"
		if given {
			return hasFlag(s, "versions")
		}
		return t.Op == "const" && t.Sym == k.viewVersion() && !hasFlag(s, "version")
	}
	run := func(n string, good func(s *St, c *Ctx, v ssa.Value) string, plural bool) {
		fn := k.method(t, n)
		if !k.check(fn != nil, R, "cache.ViewRESTMapper."+n, "", "undecided: the method was not found") {
			return
		}
		for _, view := range []bool{true, false} {
			k.scenario(fn, &scen{R: R, construct: fnName(fn) + map[bool]string{true: " of a view", false: " of something else"}[view], inline: samePkg(fn),
				atom: kindFacts(view, false, arg, func(*Term) bool { return false }),
				edge: func(s *St, t *Term, cond ssa.Value, taken bool) {
					ln := func(x *Term) bool { return isCallTo(x, "builtin.len") && isParam(x.Args[0], "arg1") }
					for t.Op == "un" && t.Sym == "!" {
						t, taken = t.Args[0], !taken
					}
					if x, eq, ok := eqConst(t, "0", taken); ok && ln(x) && !eq || t.Op == "bin" && t.Sym == ">" && ln(t.Args[0]) && t.Args[1].Sym == "0" && taken {
						addFlag(s, "versions")
					}
					if x, eq, ok := eqConst(t, `""`, taken); ok && x.Op == "index" && isParam(x.Args[0], "arg1") && !eq {
						addFlag(s, "version")
					}
				},
				exit: func(s *St, ret *ssa.Return) string {
					v := s.RetVal(ret, 1)
					if !view {
						if v == "nil" || v == "" {
							return "something that is no view is mapped"
						}
						return ""
					}
					if v == "nonnil" {
						return "a view is refused"
					}
					c, w := s.Ctx, s.retVal(ret, 0)
					if plural {
						cc, x := s.RootIn(c, w)
						el := k.sliceElems(cc, x)
						if len(el) != 1 {
							return "there is not exactly one result"
						}
						c, w = el[0].c, el[0].v
					}
					return good(s, c, w)
				}})
		}
	}
	gvk := func(s *St, c *Ctx, v ssa.Value) string {
		p := k.gvkParts(s, c, v)
		if p == nil {
			return "undecided: the kind is " + short(s.PTIn(c, v))
		}
		kd := p["Kind"]
		if !fld(p["Group"], "Group") || !fld(p["Version"], "Version") {
			return "group or version are not those of the resource"
		}
		if kd == nil || !isCallTo(kd, "strings.Title") || !lower(kd.Args[0], "Resource") && !fld(kd.Args[0], "Resource") {
			return "the kind is " + short(kd)
		}
		return ""
	}
	gvr := func(s *St, c *Ctx, v ssa.Value) string {
		p := k.gvkParts(s, c, v)
		if p == nil {
			return "undecided: the resource is " + short(s.PTIn(c, v))
		}
		if !fld(p["Group"], "Group") || !fld(p["Version"], "Version") {
			return "group or version are not those asked for"
		}
		if !lower(p["Resource"], "Resource") {
			return "the resource is another one"
		}
		return ""
	}
	mapping := func(s *St, c *Ctx, v ssa.Value) string {
		lit := k.literalIn(s, c, v)
		r, g, sc := lit["Resource"], lit["GroupVersionKind"], lit["Scope"]
		if r.v == nil || g.v == nil || sc.v == nil {
			return "undecided: the mapping is " + short(s.PTIn(c, v))
		}
		if x := s.PTIn(sc.c, sc.v); !x.Has(func(y *Term) bool { return strings.HasSuffix(y.Sym, "RESTScopeNamespace") }) {
			return "the scope is " + short(x)
		}
		p, q := k.gvkParts(s, r.c, r.v), k.gvkParts(s, g.c, g.v)
		if p == nil || q == nil {
			return "undecided: the mapping is " + short(s.PTIn(c, v))
		}
		switch {
		case !fld(p["Group"], "Group") || !fld(q["Group"], "Group"):
			return "the group is another one"
		case !version(s, p["Version"]) || !version(s, q["Version"]):
			return "the version is not the one asked for"
		case !lower(p["Resource"], "Kind"):
			return "the resource is another one"
		case !fld(q["Kind"], "Kind"):
			return "the kind is another one"
		}
		return ""
	}
	for _, plural := range []bool{false, true} {
		p := map[bool]string{true: "s", false: ""}[plural]
		run("Kind"+p+"For", gvk, plural)
		run("Resource"+p+"For", gvr, plural)
		run("RESTMapping"+p, mapping, plural)
	}
}
