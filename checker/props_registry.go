package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S06: registering and unregistering groups of views.

func init() {
	register("S06", "registration of views: every path of registering and unregistering a group, helpers included: registering serves and lists every view kind given and drops the kinds registered before that are not given; unregistering withdraws everything registering put in place, for every kind; only views are served; documents computed from the registered kinds are recomputed after every change", runS06)
}

type registry struct {
	k          *K
	w          *serving
	server     *types.Named
	kinds      string   // field with the registered kinds by group
	caches     []string // documents computed from them
	mutex      string
	add, del   map[*ssa.Function]bool
	listed     map[string]bool
	grpH, verH *types.Named // handlers for discovery by group and by version
}

func mapOf(t types.Type) (string, string) {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return "", ""
	}
	return typeShort(m.Key()), typeShort(m.Elem())
}

func isMapTo(elem string) func(types.Type) bool {
	return func(t types.Type) bool {
		kk, v := mapOf(t)
		return kk != "" && v == elem
	}
}

func runS06(k *K) {
	const R = "registration"
	silent := &K{ID: k.ID, pr: k.pr, R: k.R, obls: map[string]*Obl{}, funcs: map[*ssa.Function]bool{}}
	w := silent.serving(R)
	if w == nil {
		k.fail(R, "apiserver", "", "undecided: the resource handler was not found")
		return
	}
	for _, fn := range w.entries() {
		w.change(R, fn)
	}
	g := &registry{listed: map[string]bool{}, k: k, w: w, add: w.adders, del: w.removers}
	for _, t := range k.pkgTypes(apiPkg) {
		f := structField(t, func(x types.Type) bool {
			kk, v := mapOf(x)
			return kk == "string" && strings.HasPrefix(v, "map[schema.GroupVersionKind]")
		})
		if f != "" {
			g.server, g.kinds = t, f
		}
		if structField(t, isMapTo("discovery.APIGroupHandler")) != "" {
			g.grpH = t
		}
		if structField(t, isMapTo("discovery.APIVersionHandler")) != "" {
			g.verH = t
		}
	}
	if !k.check(g.server != nil && g.grpH != nil && g.verH != nil && len(g.add) > 0 && len(g.del) > 0, R, "apiserver.APIServer", "", "undecided: the registered kinds and the handlers for discovery were not found") {
		return
	}
	st := structOf(g.server)
	for i := 0; i < st.NumFields(); i++ {
		if isMapTo("common.OpenAPIDefinition")(st.Field(i).Type()) {
			g.caches = append(g.caches, st.Field(i).Name())
		}
		if n := typeShort(st.Field(i).Type()); n == "sync.RWMutex" || n == "sync.Mutex" {
			g.mutex = st.Field(i).Name()
		}
	}
	reg, unreg := k.method(g.server, "RegisterAPIGroup"), k.method(g.server, "UnregisterAPIGroup")
	if !k.check(reg != nil && unreg != nil, R, "apiserver.APIServer", "", "undecided: the functions registering and unregistering a group were not found") {
		return
	}
	g.registering("registration", reg)
	g.unregistering("withdrawal", unreg)
	g.batches("all groups", reg, unreg)
	g.documents("documents")
	g.discovery("discovery")
	g.mounting("mounting")
}

func (g *registry) isKinds(t *Term) bool { return isField(t, g.kinds) && isParam(t.Args[0], "recv") }

// registered: the kinds registered for the group of the request.
func (g *registry) registered(t *Term) bool {
	if t.Op == "ext" && t.Sym == "0" {
		t = t.Args[0]
	}
	return t.Op == "lookup" && g.isKinds(t.Args[0]) && isParam(t.Args[1], "arg0")
}

func madeOf(t *Term, is func(types.Type) bool) bool {
	return t.Op == "alloc" && strings.HasPrefix(t.Sym, "make:") && t.V != nil && is(t.V.Type())
}

func elemOrKey(t *Term) *Term {
	if t.Op == "rangekey" {
		return t.Args[0]
	}
	return elemOf(t)
}

// given: the kinds of the request, as given or grouped by version.
func (g *registry) given(t *Term) bool {
	return isParam(t, "arg1") || t.Op == "index" && g.grouped(t.Args[0])
}

func (g *registry) grouped(t *Term) bool { return madeOf(t, isMapTo("[]schema.GroupVersionKind")) }

// part f of the resource that serves a kind.
func resourceOf(kind *Term) func(*Term) bool {
	return func(t *Term) bool {
		return isCallTo(t, "strings.ToLower") && isField(t.Args[0], "Kind") && t.Args[0].Args[0].String() == kind.String()
	}
}

func (g *registry) outside(call ssa.CallInstruction, callee *ssa.Function) bool {
	return g.add[callee] || g.del[callee]
}

// resource: the resource of one kind; returns the kind.
func (g *registry) resource(s *St, v ssa.Value, coll func(*Term) bool) (*Term, string) {
	m := g.k.gvkParts(s, s.Ctx, v)
	if m["Resource"] != nil {
		m["Resource"] = g.k.resolved(s, m["Resource"])
	}
	if m == nil || m["Group"] == nil || m["Version"] == nil || m["Resource"] == nil || !isField(m["Group"], "Group") {
		return nil, short(s.PT(v))
	}
	kind := m["Group"].Args[0]
	if !isField(m["Version"], "Version") || m["Version"].Args[0].String() != kind.String() || !resourceOf(kind)(m["Resource"]) {
		return nil, short(m["Group"]) + "/" + short(m["Version"]) + "/" + short(m["Resource"])
	}
	if c := elemOrKey(kind); c == nil || !coll(c) {
		return nil, "the resource of " + short(kind)
	}
	return kind, ""
}

func (g *registry) argsOf(call ssa.CallInstruction) (gvr, gvk, res ssa.Value) {
	for _, a := range callArgs(call.Common()) {
		switch typeShort(a.Type()) {
		case "schema.GroupVersionResource":
			gvr = a
		case "schema.GroupVersionKind":
			gvk = a
		case "apiserver.Resource":
			res = a
		}
	}
	return
}

func (g *registry) calls(s *St, call ssa.CallInstruction, set map[*ssa.Function]bool) bool {
	tg := g.k.R.callee(s.Ctx, call.Common())
	return tg != nil && set[tg.fn]
}

// notView: the kind is found not to be a view.
func (g *registry) notView(coll func(*Term) bool) func(*St, ssa.Value, bool) bool {
	return func(s *St, cond ssa.Value, taken bool) bool {
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if taken || !isCallTo(t, "view/v1alpha1.IsViewKind") {
			return false
		}
		c := elemOrKey(t.Args[0])
		return c != nil && coll(c)
	}
}

func (g *registry) notViewGroup(s *St, cond ssa.Value, taken bool) bool {
	t := s.condPT(cond)
	for t.Op == "un" && t.Sym == "!" {
		t, taken = t.Args[0], !taken
	}
	return !taken && isCallTo(t, "view/v1alpha1.IsViewGroup") && isParam(t.Args[0], "arg0")
}

func anchorCall(names ...string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		n := staticName(in)
		for _, x := range names {
			if n == x {
				return true
			}
		}
		return false
	}
}

func anchorMap(is func(types.Type) bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		switch y := in.(type) {
		case *ssa.MapUpdate:
			return is(y.Map.Type())
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return is(y.Call.Args[0].Type())
			}
		}
		return false
	}
}

// appendTo: the instruction appends to a list of such elements; returns the elements on this path.
func (k *K) appendTo(s *St, call ssa.CallInstruction, elem string) []ctxVal {
	c, ok := call.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return nil
	}
	sl, ok := c.Type().Underlying().(*types.Slice)
	if !ok || typeShort(sl.Elem()) != elem {
		return nil
	}
	cc, v := s.Root(c.Call.Args[1])
	return k.sliceElems(cc, v)
}

func anchorAppend(elem string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
		sl, ok := c.Type().Underlying().(*types.Slice)
		return ok && typeShort(sl.Elem()) == elem
	}
}

// flowsFrom: v comes from a value of that form, among others.
func flowsFrom(v ssa.Value, is func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if is(v) {
		return true
	}
	switch y := v.(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			if flowsFrom(e, is, seen) {
				return true
			}
		}
	case *ssa.Slice:
		return flowsFrom(y.X, is, seen)
	case *ssa.ChangeType:
		return flowsFrom(y.X, is, seen)
	case *ssa.UnOp:
		return flowsFrom(y.X, is, seen)
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			return callFlows(c, y.Index, is, seen)
		}
	case *ssa.Call:
		return callFlows(y, 0, is, seen)
	case *ssa.Alloc:
		if y.Referrers() != nil {
			for _, r := range *y.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == v && flowsFrom(st.Val, is, seen) {
					return true
				}
			}
		}
	case *ssa.FreeVar:
		for _, mc := range closuresOf(y.Parent()) {
			for i, fv := range y.Parent().FreeVars {
				if fv == y && flowsFrom(mc.Bindings[i], is, seen) {
					return true
				}
			}
		}
	case *ssa.MakeClosure:
		if f, ok := y.Fn.(*ssa.Function); ok {
			return retFlows(f, 0, is, seen)
		}
	case *ssa.Function:
		return retFlows(y, 0, is, seen)
	case *ssa.Parameter:
		// what the callers pass
		f := y.Parent()
		for i, p := range f.Params {
			if p != y || f.Referrers() == nil {
				continue
			}
			for _, r := range *f.Referrers() {
				if c, ok := r.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f && flowsFrom(c.Common().Args[i], is, seen) {
					return true
				}
			}
		}
	}
	return false
}

func callFlows(c *ssa.Call, i int, is func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if f := c.Call.StaticCallee(); f != nil && inModule(f) {
		return retFlows(f, i, is, seen)
	}
	return false
}

func retFlows(f *ssa.Function, i int, is func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) && flowsFrom(r.Results[i], is, seen) {
			return true
		}
	}
	return false
}

func closuresOf(f *ssa.Function) []*ssa.MakeClosure {
	var r []*ssa.MakeClosure
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				r = append(r, mc)
			}
		}
	}
	return r
}

// isVersion: the version of a kind given, or the one the kinds are grouped by.
func (g *registry) isVersion(t *Term) bool {
	if isField(t, "Version") {
		t = t.Args[0]
		if t.Op == "rangekey" && g.grouped(t.Args[0]) {
			return true
		}
		c := elemOrKey(t)
		return c != nil && g.given(c)
	}
	return t.Op == "rangekey" && g.grouped(t.Args[0])
}

func (g *registry) isGroup(t *Term) bool {
	if isField(t, "Group") {
		t = t.Args[0]
		if t.Op == "rangekey" && g.grouped(t.Args[0]) {
			return true
		}
		c := elemOrKey(t)
		return c != nil && (g.given(c) || g.registered(c))
	}
	return isParam(t, "arg0")
}

// strParts: the operands of a concatenation.
func (k *K) strParts(s *St, t *Term) []*Term {
	if t.Op == "bin" && t.Sym == "+" {
		return append(k.strParts(s, t.Args[0]), k.strParts(s, t.Args[1])...)
	}
	elems := func(t *Term) []*Term {
		if t.V == nil || t.Ctx == nil {
			return nil
		}
		c, v := s.RootIn(t.Ctx, t.V)
		var r []*Term
		for _, e := range k.sliceElems(c, v) {
			r = append(r, s.PTIn(e.c, e.v))
		}
		return r
	}
	lit := func(x string) *Term { return &Term{Op: "const", Sym: strconv.Quote(x)} }
	if isCallTo(t, "strings.Join") && t.Args[1].Op == "const" {
		var r []*Term
		for i, e := range elems(t.Args[0]) {
			if i > 0 {
				r = append(r, t.Args[1])
			}
			r = append(r, k.strParts(s, e)...)
		}
		if r != nil {
			return r
		}
	}
	if isCallTo(t, "fmt.Sprintf") && t.Args[0].Op == "const" && len(t.Args) > 1 {
		f, err := strconv.Unquote(t.Args[0].Sym)
		fs := strings.Split(strings.ReplaceAll(strings.ReplaceAll(f, "%v", "%s"), "%d", "%s"), "%s")
		el := elems(t.Args[1])
		if err == nil && len(el) == len(fs)-1 && !strings.Contains(strings.Join(fs, ""), "%") {
			var r []*Term
			for i, x := range fs {
				if x != "" {
					r = append(r, lit(x))
				}
				if i < len(el) {
					e := el[i]
					for e.Op == "iface" || e.Op == "makeinterface" {
						e = e.Args[0]
					}
					r = append(r, k.strParts(s, e)...)
				}
			}
			return r
		}
	}
	return []*Term{t}
}

// resolved: a field of something built in place.
func (k *K) resolved(s *St, t *Term) *Term {
	if t.Op != "field" {
		return t
	}
	var val func(t *Term) (ctxVal, bool)
	val = func(t *Term) (ctxVal, bool) {
		for t.Op == "un" && t.Sym == "*" || t.Op == "deref" {
			t = t.Args[0]
		}
		if t.Op != "field" {
			return ctxVal{t.Ctx, t.V}, t.V != nil && t.Ctx != nil
		}
		b, ok := val(t.Args[0])
		if !ok {
			return b, false
		}
		e, ok := k.literalIn(s, b.c, b.v)[t.Sym]
		return e, ok && e.v != nil
	}
	if e, ok := val(t); ok {
		return s.PTIn(e.c, e.v)
	}
	return t
}

func (g *registry) groupVersion(s *St, t *Term, isVersion func(*Term) bool) bool {
	p := g.k.strParts(s, t)
	return len(p) == 3 && g.isGroup(p[0]) && p[1].Sym == `"/"` && isVersion(p[2])
}

func (g *registry) lit(s *St, v ssa.Value) (map[string]ctxVal, func(string) *Term) {
	return g.litIn(s, s.Ctx, v)
}

func (g *registry) litIn(s *St, c *Ctx, v ssa.Value) (map[string]ctxVal, func(string) *Term) {
	m := g.k.literalIn(s, c, v)
	return m, func(f string) *Term {
		if e, ok := m[f]; ok && e.v != nil {
			return s.PTIn(e.c, e.v)
		}
		return &Term{Op: "none"}
	}
}

func (g *registry) registering(R string, fn *ssa.Function) {
	k := g.k
	name := fnName(fn)
	groupings := map[string]bool{}
	base := func(what string, anchor func(ssa.Instruction) bool) *eachSpec {
		return &eachSpec{R: R, what: what, leaf: g.given, group: g.grouped, exempt: g.notViewGroup, outside: g.outside, skip: g.notView(g.given), anchor: anchor, used: groupings}
	}
	kindOf := func(t *Term) bool { c := elemOrKey(t); return c != nil && g.given(c) }
	// storages
	e := base("every kind given is served", func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && g.add[c.Common().StaticCallee()]
	})
	isAdd := func(s *St, cond ssa.Value) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		c, ok := b.X.(*ssa.Call)
		if !ok {
			_, v := s.Root(b.X)
			c, ok = v.(*ssa.Call)
		}
		return ok && g.calls(s, c, g.add)
	}
	e.edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		_ = boolEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "view/v1alpha1.IsViewKind") && kindOf(x.Args[0]) }, "it:view") ||
			boolEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "view/v1alpha1.IsViewGroup") && isParam(x.Args[0], "arg0") }, "viewgroup")
		if _, eq, ok := eqConst(t, "nil", taken); ok && !eq && isAdd(s, cond) {
			addFlag(s, "failed")
		}
	}
	e.exit = func(s *St, ret *ssa.Return) {
		k.check(!hasFlag(s, "failed"), R, name, k.pr.at(ret), "a kind cannot be served, and no error is reported (path %s)", s.Trace())
	}
	e.call = func(s *St, call ssa.CallInstruction, nm string) int {
		if !g.calls(s, call, g.add) {
			return 0
		}
		at := k.pr.at(call)
		gvr, gvk, res := g.argsOf(call)
		kind, other := g.resource(s, gvr, g.given)
		if !k.check(kind != nil, R, name, at, "a kind is served as %s (path %s)", other, s.Trace()) {
			return 0
		}
		k.check(gvk != nil && s.PT(gvk).String() == kind.String(), R, name, at, "the resource of one kind is served with another (path %s)", s.Trace())
		k.check(hasFlag(s, "it:view") && hasFlag(s, "viewgroup"), R, name, at, "something that may not be a view is served (path %s)", s.Trace())
		if res != nil {
			m, f := g.lit(s, res)
			k.check(m != nil && f("GVK").String() == kind.String(), R, name, at, "a kind is served as another: %s (path %s)", short(f("GVK")), s.Trace())
			if a := m["APIResource"]; k.check(a.v != nil, R, name, at, "undecided: the resource served is %s", short(f("APIResource"))) {
				g.apiResource(R, name, at, s, a, kind)
			}
		}
		return 1
	}
	k.each(fn, e)
	// the scheme
	for _, list := range []bool{false, true} {
		what := "every kind given is known to the scheme"
		if list {
			what = "the list of every kind given is known to the scheme"
		}
		e := base(what, anchorCall("runtime.Scheme.AddKnownTypeWithName"))
		e.call = func(s *St, call ssa.CallInstruction, nm string) int {
			a := callArgs(call.Common())
			if nm != "runtime.Scheme.AddKnownTypeWithName" || !isParam(s.PT(a[0]).Args0(), "recv") {
				return 0
			}
			obj := "unstructured.Unstructured"
			if list {
				obj = "unstructured.UnstructuredList"
			}
			_, o := s.Root(a[2])
			if mi, ok := o.(*ssa.MakeInterface); ok {
				o = mi.X
			}
			if typeShort(o.Type()) != obj {
				return 0
			}
			if !list {
				if kindOf(s.PT(a[1])) {
					return 1
				}
				return 0
			}
			m := k.gvkParts(s, s.Ctx, a[1])
			if m == nil || m["Group"] == nil || m["Version"] == nil || m["Kind"] == nil {
				return 0
			}
			p := g.k.strParts(s, m["Kind"])
			if len(p) == 2 && p[1].Sym == `"List"` && isField(p[0], "Kind") && kindOf(p[0].Args[0]) && isField(m["Group"], "Group") && isField(m["Version"], "Version") &&
				m["Group"].Args[0].String() == p[0].Args[0].String() && m["Version"].Args[0].String() == p[0].Args[0].String() {
				return 1
			}
			return 0
		}
		k.each(fn, e)
	}
	// discovery
	isVer := isMapTo("discovery.APIVersionHandler")
	e = base("discovery by version", anchorMap(isVer))
	e.skip = nil
	e.instr = func(s *St, in ssa.Instruction) int {
		y, ok := in.(*ssa.MapUpdate)
		if !ok || !isVer(y.Map.Type()) {
			return 0
		}
		at := k.pr.at(in)
		if !k.check(g.groupVersion(s, s.PT(y.Key), g.isVersion), R, name, at, "discovery of a version is answered for %s (path %s)", short(s.PT(y.Key)), s.Trace()) {
			return 0
		}
		h := s.PT(y.Value)
		if k.check(isCallTo(h, "discovery.NewAPIVersionHandler"), R, name, at, "undecided: discovery is answered by %s", short(h)) {
			_, hv := s.Root(y.Value)
			if hc, ok := hv.(*ssa.Call); ok {
				ls := hc.Call.Args[len(hc.Call.Args)-1]
				k.check(flowsFrom(unwrapIface(ls), func(v ssa.Value) bool {
					i, ok := v.(ssa.Instruction)
					return ok && anchorAppend("meta/v1.APIResource")(i)
				}, map[ssa.Value]bool{}),
					R, name, at, "discovery of a version does not list the resources collected for it (path %s)", s.Trace())
			}
		}
		if s.PT(y.Key).Has(func(t *Term) bool { c := elemOrKey(t); return c != nil && t.Op != "rangekey" && g.given(c) }) {
			return 1
		}
		return 2
	}
	k.each(fn, e)
	for _, v := range []string{"meta/v1.APIResource", "apidiscovery/v2.APIResourceDiscovery"} {
		e := base("every kind given is listed ("+v+")", anchorAppend(v))
		e.call = func(s *St, call ssa.CallInstruction, nm string) int {
			n := 0
			for _, el := range k.appendTo(s, call, v) {
				n = 1
				at := k.pr.at(call)
				if v == "meta/v1.APIResource" {
					g.apiResource(R, name, at, s, el, nil)
					continue
				}
				m := k.literalIn(s, el.c, el.v)
				f := func(n string) *Term {
					if e, ok := m[n]; ok && e.v != nil {
						return s.PTIn(e.c, e.v)
					}
					return &Term{Op: "none"}
				}
				for _, x := range []string{"Resource", "SingularResource"} {
					t := f(x)
					k.check(isCallTo(t, "strings.ToLower") && isField(t.Args[0], "Kind") && kindOf(t.Args[0].Args[0]), R, name, at, "a kind is listed as resource %s (path %s)", short(t), s.Trace())
				}
				k.check(f("Scope").Sym == `"Namespaced"`, R, name, at, "a kind is listed with scope %s (path %s)", short(f("Scope")), s.Trace())
				if e := m["ResponseKind"]; k.check(e.v != nil, R, name, at, "a kind is listed without its kind (path %s)", s.Trace()) {
					g.kindLit(R, name, at, s, e)
				}
				if e := m["Verbs"]; k.check(e.v != nil, R, name, at, "a kind is listed without verbs (path %s)", s.Trace()) {
					have := map[string]bool{}
					c, w := s.RootIn(e.c, e.v)
					for _, x := range k.sliceElems(c, w) {
						have[strings.Trim(s.PTIn(x.c, x.v).Sym, `"`)] = true
					}
					for _, x := range []string{"get", "list", "watch", "create", "update", "patch", "delete"} {
						k.check(have[x], R, name, at, "discovery does not tell that views support %q", x)
					}
				}
			}
			return n
		}
		k.each(fn, e)
	}
	e = base("every version given is in the discovery of the group", anchorAppend("meta/v1.GroupVersionForDiscovery"))
	e.skip = nil
	e.call = func(s *St, call ssa.CallInstruction, nm string) int {
		n := 0
		for _, el := range k.appendTo(s, call, "meta/v1.GroupVersionForDiscovery") {
			m := k.literalIn(s, el.c, el.v)
			ver, gv := m["Version"], m["GroupVersion"]
			if !k.check(ver.v != nil && gv.v != nil, R, name, k.pr.at(call), "undecided: a version is listed as %s", short(s.PTIn(el.c, el.v))) {
				continue
			}
			vt := s.PTIn(ver.c, ver.v)
			k.check(g.isVersion(vt), R, name, k.pr.at(call), "version %s is listed (path %s)", short(vt), s.Trace())
			n = 2
		}
		return n
	}
	k.each(fn, e)
	collected := false
	e = base("every version given is in the aggregated discovery", anchorCall("AddGroupVersion"))
	e.skip = nil
	e.exempt = func(s *St, cond ssa.Value, taken bool) bool {
		if g.notViewGroup(s, cond, taken) {
			return true
		}
		x, eq, ok := eqConst(s.condPT(cond), "nil", taken)
		return ok && eq && isField(x, "AggregatedDiscoveryGroupManager")
	}
	e.call = func(s *St, call ssa.CallInstruction, nm string) int {
		if !strings.HasSuffix(nm, ".AddGroupVersion") {
			return 0
		}
		at := k.pr.at(call)
		a := callArgs(call.Common())
		k.check(g.isGroup(s.PT(a[1])), R, name, at, "version is listed for group %s (path %s)", short(s.PT(a[1])), s.Trace())
		m, f := g.lit(s, a[2])
		k.check(g.isVersion(f("Version")), R, name, at, "version %s is listed (path %s)", short(f("Version")), s.Trace())
		rs := m["Resources"]
		collected = collected || rs.v != nil && flowsFrom(rs.v, func(v ssa.Value) bool {
			i, ok := v.(ssa.Instruction)
			return ok && anchorAppend("apidiscovery/v2.APIResourceDiscovery")(i)
		}, map[ssa.Value]bool{})
		return 2
	}
	k.each(fn, e)
	k.check(collected, R, name, k.pr.pos(fn.Pos()), "the aggregated discovery does not list the resources collected for a version")
	// the record of registered kinds
	isSet := isMapTo("bool")
	isKindSet := func(t types.Type) bool { kk, v := mapOf(t); return kk == "schema.GroupVersionKind" && v == "bool" }
	_ = isSet
	e = base("every kind given is recorded", anchorMap(isKindSet))
	e.skip = g.notView(g.given)
	e.instr = func(s *St, in ssa.Instruction) int {
		y, ok := in.(*ssa.MapUpdate)
		if !ok || !isKindSet(y.Map.Type()) || !madeOf(s.PT(y.Map), isKindSet) {
			return 0
		}
		k.check(kindOf(s.PT(y.Key)) && s.PT(y.Value).Sym == "true", R, name, k.pr.at(in), "kind %s is recorded as %s (path %s)", short(s.PT(y.Key)), short(s.PT(y.Value)), s.Trace())
		return 1
	}
	k.each(fn, e)
	// kinds that are not given any more
	e = &eachSpec{R: R, what: "kinds registered before and not given are dropped", leaf: g.registered, outside: g.outside, exempt: g.notViewGroup}
	e.anchor = func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && g.del[c.Common().StaticCallee()]
	}
	e.skip = func(s *St, cond ssa.Value, taken bool) bool {
		if g.notView(g.registered)(s, cond, taken) {
			return true
		}
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		old := func(t *Term) bool { c := elemOrKey(t); return c != nil && g.registered(c) }
		if isCallTo(t, "slices.Contains") {
			return taken && isParam(t.Args[0], "arg1") && old(t.Args[1])
		}
		if t.Op == "ext" && t.Sym == "1" {
			t = t.Args[0]
		}
		if t.Op == "lookup" && madeOf(t.Args[0], isKindSet) {
			return taken && old(t.Args[1])
		}
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && (old(t.Args[0]) && kindOf(t.Args[1]) || old(t.Args[1]) && kindOf(t.Args[0])) {
			return taken == (t.Sym == "==")
		}
		return false
	}
	e.call = func(s *St, call ssa.CallInstruction, nm string) int {
		if !g.calls(s, call, g.del) {
			return 0
		}
		gvr, _, _ := g.argsOf(call)
		kind, other := g.resource(s, gvr, g.registered)
		if !k.check(kind != nil, R, name, k.pr.at(call), "what is dropped is %s (path %s)", other, s.Trace()) {
			return 0
		}
		return 1
	}
	e.instr = func(s *St, in ssa.Instruction) int {
		switch y := in.(type) {
		case *ssa.MapUpdate:
			if g.isKinds(s.PT(y.Map)) {
				addFlag(s, "recorded")
			}
		case *ssa.Lookup:
			k.check(!(hasFlag(s, "recorded") && g.isKinds(s.PT(y.X))), R, name, k.pr.at(in), "the kinds registered before are looked up after they were replaced (path %s)", s.Trace())
		}
		return 0
	}
	k.each(fn, e)
	// the groupings used
	for m := range groupings {
		if !strings.HasPrefix(m, "make:") {
			continue
		}
		g.filled(R, fn, m)
	}
	g.singles(R, fn, false)
}

// filled: a grouping of the kinds has every kind, under the key it belongs to.
func (g *registry) filled(R string, fn *ssa.Function, m string) {
	k := g.k
	e := &eachSpec{R: R, what: "every kind is grouped", leaf: func(t *Term) bool { return isParam(t, "arg1") }, exempt: g.notViewGroup, outside: g.outside, quick: true}
	is := isMapTo("[]schema.GroupVersionKind")
	owner, _, _ := strings.Cut(m[strings.IndexByte(m, '@')+1:], "#")
	e.anchor = func(in ssa.Instruction) bool {
		if !anchorMap(is)(in) {
			return false
		}
		for _, b := range in.Parent().Blocks {
			for _, x := range b.Instrs {
				if mm, ok := x.(*ssa.MakeMap); ok && is(mm.Type()) && fnName(in.Parent()) != owner {
					return false
				}
			}
		}
		return true
	}
	e.instr = func(s *St, in ssa.Instruction) int {
		y, ok := in.(*ssa.MapUpdate)
		if !ok || s.PT(y.Map).String() != m {
			return 0
		}
		_, v := s.Root(y.Value)
		c, ok := v.(*ssa.Call)
		if !ok {
			return 0
		}
		els := k.appendTo(s, c, "schema.GroupVersionKind")
		if !k.check(len(els) == 1, R, fnName(fn), k.pr.at(in), "undecided: kinds are grouped as %s", short(s.PT(y.Value))) {
			return 0
		}
		kind := s.PTIn(els[0].c, els[0].v)
		old := s.PT(c.Call.Args[0])
		k.check(old.Op == "lookup" && old.Args[0].String() == m && old.Args[1].String() == s.PT(y.Key).String(), R, fnName(fn), k.pr.at(in), "kinds grouped before are lost (path %s)", s.Trace())
		ok = false
		switch typeShort(y.Key.Type()) {
		case "schema.GroupVersion":
			p := k.gvkParts(s, s.Ctx, y.Key)
			ok = p != nil && p["Group"] != nil && p["Version"] != nil && (isField(p["Group"], "Group") && p["Group"].Args[0].String() == kind.String() || isParam(p["Group"], "arg0")) && isField(p["Version"], "Version") && p["Version"].Args[0].String() == kind.String()
		case "string":
			t := s.PT(y.Key)
			ok = isField(t, "Version") && t.Args[0].String() == kind.String()
		}
		k.check(ok, R, fnName(fn), k.pr.at(in), "a kind is grouped under %s (path %s)", short(s.PT(y.Key)), s.Trace())
		return 1
	}
	k.each(fn, e)
}

// apiResource: the resource described is that of a kind given.
func (g *registry) apiResource(R, name, at string, s *St, v ctxVal, kind *Term) {
	k := g.k
	m := k.literalIn(s, v.c, v.v)
	f := func(n string) *Term {
		if e, ok := m[n]; ok && e.v != nil {
			return s.PTIn(e.c, e.v)
		}
		return &Term{Op: "none"}
	}
	if !k.check(m != nil, R, name, at, "undecided: the resource is described by %s", short(s.PTIn(v.c, v.v))) {
		return
	}
	if kind == nil {
		if t := f("Kind"); k.check(isField(t, "Kind") && elemOrKey(t.Args[0]) != nil && g.given(elemOrKey(t.Args[0])), R, name, at, "a kind is described as %s (path %s)", short(t), s.Trace()) {
			kind = t.Args[0]
		} else {
			return
		}
	}
	for _, x := range []string{"Group", "Version", "Kind"} {
		k.check(isField(f(x), x) && f(x).Args[0].String() == kind.String(), R, name, at, "a kind is described with %s %s (path %s)", strings.ToLower(x), short(f(x)), s.Trace())
	}
	for _, x := range []string{"Name", "SingularName"} {
		k.check(resourceOf(kind)(f(x)), R, name, at, "a kind is described with %s %s (path %s)", x, short(f(x)), s.Trace())
	}
	k.check(f("Namespaced").Sym == "true", R, name, at, "a view is described as not namespaced (path %s)", s.Trace())
}

func (g *registry) kindLit(R, name, at string, s *St, v ctxVal) {
	k := g.k
	m := k.literalIn(s, v.c, v.v)
	for _, x := range []string{"Group", "Version", "Kind"} {
		e := m[x]
		if !k.check(e.v != nil, R, name, at, "a kind is listed without %s (path %s)", strings.ToLower(x), s.Trace()) {
			continue
		}
		t := s.PTIn(e.c, e.v)
		good := isField(t, x) && elemOrKey(t.Args[0]) != nil && g.given(elemOrKey(t.Args[0]))
		k.check(good || x == "Group" && g.isGroup(t) || x == "Version" && g.isVersion(t), R, name, at, "a kind is listed with %s %s (path %s)", strings.ToLower(x), short(t), s.Trace())
	}
}

func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch y := v.(type) {
		case *ssa.MakeInterface:
			v = y.X
		case *ssa.ChangeType:
			v = y.X
		case *ssa.ChangeInterface:
			v = y.X
		default:
			return v
		}
	}
}

// Args0 is the first argument, or the term itself.
func (t *Term) Args0() *Term {
	if len(t.Args) > 0 {
		return t.Args[0]
	}
	return t
}

// singles: the steps taken once per group.
func (g *registry) singles(R string, fn *ssa.Function, drop bool) {
	k := g.k
	name := fnName(fn) + ": steps"
	k.ok(R, name, k.pr.pos(fn.Pos()))
	isGrp, isVer := isMapTo("discovery.APIGroupHandler"), isMapTo("discovery.APIVersionHandler")
	anchored := k.holding(func(in ssa.Instruction) bool {
		if anchorMap(isGrp)(in) || anchorMap(isVer)(in) {
			return true
		}
		switch n := staticName(in); {
		case n == "AddGroup" || n == "RemoveGroup" || n == "AddGroupVersion":
			return true
		}
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				for _, c := range g.caches {
					if fieldName(fa.X.Type(), fa.Field) == c {
						return true
					}
				}
			}
		}
		return false
	})
	rule := &Rule{MaxDepth: 6, Flow: true, Asserts: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inAPIPkg(callee) && !recursive(callee) && !g.outside(call, callee) && (anchored[callee] || !hasLoop(callee))
	}}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if g.notViewGroup(s, cond, taken) {
			addFlag(s, "exempt")
			return
		}
		t := s.condPT(cond)
		if drop {
			b, tk := t, taken
			for b.Op == "un" && b.Sym == "!" {
				b, tk = b.Args[0], !tk
			}
			if b.Op == "ext" && b.Sym == "1" && b.Args[0].Op == "lookup" && g.registered(b.Args[0]) && !tk {
				addFlag(s, "exempt")
				return
			}
			if b.Op == "bin" && isCallTo(b.Args[0], "builtin.len") && g.registered(b.Args[0].Args[0]) {
				if _, eq, ok := eqConst(t, "0", taken); ok && eq {
					addFlag(s, "exempt")
				}
			}
			if x, eq, ok := eqConst(t, "nil", taken); ok && eq && g.registered(x) {
				addFlag(s, "exempt")
			}
		}
		if x, eq, ok := eqConst(t, "nil", taken); ok && eq && isField(x, "AggregatedDiscoveryGroupManager") {
			addFlag(s, "agg")
		}
		_ = boolEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "view/v1alpha1.IsViewGroup") && isParam(x.Args[0], "arg0") }, "viewgroup")
	}
	step := func(s *St, in ssa.Instruction, what string, cond bool, got *Term) {
		at := k.pr.at(in)
		if !k.check(cond, R, name, at, "%s: %s (path %s)", what, short(got), s.Trace()) {
			return
		}
		k.check(hasFlag(s, "locked"), R, name, at, "the registered views are changed without holding the lock, or in several steps (path %s)", s.Trace())
		k.check(!hasFlag(s, "exempt") && (drop || hasFlag(s, "viewgroup")), R, name, at, "the registered views are changed for a group that is not concerned (path %s)", s.Trace())
		addFlag(s, what)
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.Store:
			t := s.PT(y.Addr)
			for t.Op == "addr" || t.Op == "un" && t.Sym == "&" {
				t = t.Args[0]
			}
			for _, c := range g.caches {
				if isField(t, c) && isParam(t.Args[0], "recv") {
					step(s, in, "invalidated "+c, isNil(s.PT(y.Val)), s.PT(y.Val))
				}
			}
		case *ssa.MapUpdate:
			switch {
			case isGrp(y.Map.Type()):
				h := s.PT(y.Value)
				step(s, in, "discovery by group", !drop && g.isGroup(s.PT(y.Key)) && isCallTo(h, "discovery.NewAPIGroupHandler"), s.PT(y.Key))
				hcc, hv := s.Root(y.Value)
				if hc, ok := hv.(*ssa.Call); ok {
					g.apiGroup(R, name, s, in, hcc, hc.Call.Args[len(hc.Call.Args)-1])
				}
			case g.isKinds(s.PT(y.Map)):
				step(s, in, "record", !drop && isParam(s.PT(y.Key), "arg0") && madeOf(s.PT(y.Value), func(t types.Type) bool { kk, v := mapOf(t); return kk == "schema.GroupVersionKind" && v == "bool" }), s.PT(y.Value))
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		if (nm == "sync.RWMutex.Lock" || nm == "sync.Mutex.Lock" || nm == "sync.RWMutex.Unlock" || nm == "sync.Mutex.Unlock") && isField(s.PT(a[0]), g.mutex) && isParam(s.PT(a[0]).Args[0], "recv") {
			if strings.HasSuffix(nm, ".Lock") && !hasFlag(s, "unlocked") {
				addFlag(s, "locked")
			} else {
				dropFlag(s, "locked")
				addFlag(s, "unlocked")
			}
		}
		group := func(i int) bool { return len(a) > i && g.isGroup(s.PT(a[i])) }
		switch {
		case nm == "builtin.delete" && isGrp(a[0].Type()):
			step(s, call, "discovery by group", drop && group(1), s.PT(a[1]))
		case nm == "builtin.delete" && g.isKinds(s.PT(a[0])):
			step(s, call, "record", drop && isParam(s.PT(a[1]), "arg0"), s.PT(a[1]))
		case strings.HasSuffix(nm, ".AddGroup"):
			step(s, call, "list of groups", !drop, s.PT(a[1]))
			g.apiGroup(R, name, s, call, s.Ctx, a[1])
		case strings.HasSuffix(nm, ".RemoveGroup"):
			if isField(s.PT(a[0]), "AggregatedDiscoveryGroupManager") {
				step(s, call, "agg", drop && group(1), s.PT(a[1]))
			} else {
				step(s, call, "list of groups", drop && group(1), s.PT(a[1]))
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if hasFlag(s, "exempt") || errResult(fn.Signature) >= 0 && s.RetVal(ret, -1) == "nonnil" {
			return
		}
		need := []string{"discovery by group", "list of groups", "record"}
		if drop {
			need = append(need, "agg")
		}
		for _, c := range g.caches {
			need = append(need, "invalidated "+c)
		}
		for _, n := range need {
			k.check(hasFlag(s, n), R, name, k.pr.at(ret), "missing: %s (path %s)", n, s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, name)
	for at, ok := range g.listed {
		k.check(ok, R, name, at, "the group is listed without the versions collected for it")
	}
}

func (g *registry) apiGroup(R, name string, s *St, in ssa.Instruction, c *Ctx, v ssa.Value) {
	k := g.k
	m, f := g.litIn(s, c, v)
	at := k.pr.at(in)
	k.check(g.isGroup(f("Name")), R, name, at, "the group is listed as %s (path %s)", short(f("Name")), s.Trace())
	e := m["Versions"]
	if e.v != nil && flowsFrom(e.v, func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && anchorAppend("meta/v1.GroupVersionForDiscovery")(i)
	}, map[ssa.Value]bool{}) {
		g.listed[at] = true
	} else if !g.listed[at] {
		g.listed[at] = false
	}
}

func (g *registry) unregistering(R string, fn *ssa.Function) {
	k := g.k
	name := fnName(fn)
	exempt := func(s *St, cond ssa.Value, taken bool) bool {
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		return !taken && t.Op == "ext" && t.Sym == "1" && g.registered(t.Args[0])
	}
	e := &eachSpec{R: R, what: "no registered kind is served any more", leaf: g.registered, outside: g.outside, exempt: exempt, skip: g.notView(g.registered)}
	e.anchor = func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && g.del[c.Common().StaticCallee()]
	}
	e.call = func(s *St, call ssa.CallInstruction, nm string) int {
		if !g.calls(s, call, g.del) {
			return 0
		}
		gvr, _, _ := g.argsOf(call)
		kind, other := g.resource(s, gvr, g.registered)
		if !k.check(kind != nil, R, name, k.pr.at(call), "what is dropped is %s (path %s)", other, s.Trace()) {
			return 0
		}
		return 1
	}
	k.each(fn, e)
	isVer := isMapTo("discovery.APIVersionHandler")
	e = &eachSpec{R: R, what: "no version is discovered any more", leaf: g.registered, outside: g.outside, exempt: exempt, anchor: anchorMap(isVer)}
	e.call = func(s *St, call ssa.CallInstruction, nm string) int {
		a := callArgs(call.Common())
		if nm != "builtin.delete" || !isVer(a[0].Type()) {
			return 0
		}
		ver := func(t *Term) bool {
			if !isField(t, "Version") {
				return false
			}
			c := elemOrKey(t.Args[0])
			return c != nil && g.registered(c)
		}
		if !k.check(g.groupVersion(s, s.PT(a[1]), ver), R, name, k.pr.at(call), "discovery is dropped for %s (path %s)", short(s.PT(a[1])), s.Trace()) {
			return 0
		}
		return 1
	}
	k.each(fn, e)
	g.singles(R, fn, true)
}

// batches: registering a set of kinds registers each of their groups, with all its kinds.
func (g *registry) batches(R string, reg, unreg *ssa.Function) {
	k := g.k
	n := map[*ssa.Function]int{}
	for i := 0; i < g.server.NumMethods(); i++ {
		fn := k.method(g.server, g.server.Method(i).Name())
		if fn == nil || fn == reg || fn == unreg || len(fn.Params) != 2 || typeShort(fn.Params[1].Type()) != "[]schema.GroupVersionKind" || !fn.Object().Exported() {
			continue
		}
		what := reg
		if !k.holding(func(in ssa.Instruction) bool { return staticName(in) == fnName(reg) })[fn] {
			what = unreg
		}
		n[what]++
		name := fnName(fn)
		given := func(t *Term) bool { return isParam(t, "arg0") }
		byGroup := func(t types.Type) bool {
			kk, v := mapOf(t)
			return kk == "string" && (v == "[]schema.GroupVersionKind" || what == unreg && (v == "bool" || v == "struct{}"))
		}
		used := map[string]bool{}
		e := &eachSpec{R: R, what: "for the group of every kind", leaf: given, group: func(t *Term) bool { return madeOf(t, byGroup) }, used: used,
			outside: func(call ssa.CallInstruction, callee *ssa.Function) bool { return callee == reg || callee == unreg }}
		e.edge = func(s *St, cond ssa.Value, taken bool) {
			x, eq, ok := eqConst(s.condPT(cond), "nil", taken)
			if ok && !eq && isCallTo(x, fnName(reg)) {
				addFlag(s, "failed")
			}
		}
		e.exit = func(s *St, ret *ssa.Return) {
			k.check(!hasFlag(s, "failed"), R, name, k.pr.at(ret), "registering a group fails, and no error is reported (path %s)", s.Trace())
		}
		e.call = func(s *St, call ssa.CallInstruction, nm string) int {
			if nm != fnName(what) {
				return 0
			}
			a := callArgs(call.Common())
			key := s.PT(a[1])
			if key.Op == "rangekey" && madeOf(key.Args[0], byGroup) {
				if what == reg {
					kinds := s.PT(a[2])
					k.check(kinds.Op == "index" && kinds.Args[0].String() == key.Args[0].String() || kinds.Op == "lookup" && kinds.Args[0].String() == key.Args[0].String() && kinds.Args[1].String() == key.String(),
						R, name, k.pr.at(call), "a group is registered with kinds %s (path %s)", short(kinds), s.Trace())
				}
				return 2
			}
			if what == unreg && isField(key, "Group") && elemOrKey(key.Args[0]) != nil && given(elemOrKey(key.Args[0])) {
				return 1
			}
			k.fail(R, name, k.pr.at(call), "group %s is registered or unregistered (path %s)", short(key), s.Trace())
			return 0
		}
		k.each(fn, e)
		for m := range used {
			if !strings.HasPrefix(m, "make:") {
				continue
			}
			e := &eachSpec{R: R, what: "every kind belongs to a group", leaf: given, quick: true,
				outside: func(call ssa.CallInstruction, callee *ssa.Function) bool { return callee == reg || callee == unreg }}
			e.instr = func(s *St, in ssa.Instruction) int {
				y, ok := in.(*ssa.MapUpdate)
				if !ok || s.PT(y.Map).String() != m {
					return 0
				}
				key := s.PT(y.Key)
				good := isField(key, "Group") && elemOrKey(key.Args[0]) != nil && given(elemOrKey(key.Args[0]))
				if what == reg {
					_, v := s.Root(y.Value)
					c, ok := v.(*ssa.Call)
					if !ok {
						return 0
					}
					els := k.appendTo(s, c, "schema.GroupVersionKind")
					good = good && len(els) == 1 && s.PTIn(els[0].c, els[0].v).String() == key.Args[0].String()
					old := s.PT(c.Call.Args[0])
					good = good && old.Op == "lookup" && old.Args[0].String() == m && old.Args[1].String() == key.String()
				}
				k.check(good, R, name, k.pr.at(in), "a kind is taken for one of group %s, or kinds are lost (path %s)", short(key), s.Trace())
				return 1
			}
			k.each(fn, e)
		}
	}
	k.check(n[reg] > 0 && n[unreg] > 0, R, "apiserver.APIServer", "", "undecided: the functions registering and unregistering sets of kinds were not found")
}

// documents: what is computed from the registered kinds covers all of them, and is computed and kept
// while the lock is held.
func (g *registry) documents(R string) {
	k := g.k
	isDefs := isMapTo("common.OpenAPIDefinition")
	isCache := func(t *Term) bool {
		for _, c := range g.caches {
			if isField(t, c) {
				return true
			}
		}
		return false
	}
	reads := func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && fieldName(fa.X.Type(), fa.Field) == g.kinds && types.Identical(deref(fa.X.Type()), g.server)
	}
	n := 0
	for _, fn := range k.fnsIn(apiPkg) {
		keeps := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isDefs(st.Val.Type()) || !types.Identical(deref(fa.X.Type()), g.server) {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); !ok || c.Value != nil || !c.IsNil() {
					keeps = true
				}
			}
		}
		if !keeps {
			continue
		}
		n++
		name := fnName(fn)
		k.ok(R, name, k.pr.pos(fn.Pos()))
		rule := &Rule{MaxDepth: 6, Flow: true, Asserts: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			return inAPIPkg(callee) && !recursive(callee) && (!hasLoop(callee) || k.holding(reads)[callee])
		}}
		rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
			a := callArgs(call.Common())
			if len(a) > 0 && strings.HasPrefix(nm, "sync.") && isField(s.PT(a[0]), g.mutex) {
				if strings.HasSuffix(nm, ".Lock") {
					addFlag(s, "locked")
				} else if strings.HasSuffix(nm, ".Unlock") {
					dropFlag(s, "locked")
					dropFlag(s, "computed")
				}
			}
		}
		rule.Instr = func(s *St, in ssa.Instruction) {
			if reads(in) {
				if hasFlag(s, "locked") {
					addFlag(s, "computed")
				}
			}
			if st, ok := in.(*ssa.Store); ok && isDefs(st.Val.Type()) {
				t := s.PT(st.Addr)
				for t.Op == "addr" || t.Op == "un" && t.Sym == "&" {
					t = t.Args[0]
				}
				if isCache(t) && !isNil(s.PT(st.Val)) {
					k.check(hasFlag(s, "computed"), R, name, k.pr.at(in), "the document kept may have been computed from kinds registered before: the lock is not held throughout (path %s)", s.Trace())
				}
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, name)
	}
	k.check(n > 0, R, "apiserver.APIServer", "", "undecided: where documents are kept was not found")
	// what is computed
	for _, fn := range k.fnsIn(apiPkg) {
		holds, upd := false, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				holds = holds || reads(in)
				if y, ok := in.(*ssa.MapUpdate); ok && isDefs(y.Map.Type()) {
					upd = true
				}
			}
		}
		if fn.Signature.Results().Len() != 1 || !isDefs(fn.Signature.Results().At(0).Type()) || !(holds || upd && k.holding(reads)[fn]) {
			continue
		}
		n++
		kinds := func(t *Term) bool { return isField(t, g.kinds) }
		ofGroup := func(t *Term) bool { return (t.Op == "index" || t.Op == "lookup") && kinds(t.Args[0]) }
		collected := func(t *Term) bool {
			return t.V != nil && typeShort(t.V.Type()) == "[]schema.GroupVersionKind" && t.Op != "param"
		}
		all := func(t *Term) bool { return ofGroup(t) || collected(t) }
		kindOf := func(t *Term) bool { c := elemOrKey(t); return c != nil && all(c) }
		viaList := false
		for _, list := range []bool{false, true} {
			what := "the document describes every kind"
			if list {
				what = "the document describes the list of every kind"
			}
			e := &eachSpec{R: R, what: what, leaf: all, group: kinds, anchor: anchorMap(isDefs), skip: g.notView(all)}
			e.instr = func(s *St, in ssa.Instruction) int {
				y, ok := in.(*ssa.MapUpdate)
				if !ok || !isDefs(y.Map.Type()) {
					return 0
				}
				var parts []*Term
				c, kv := s.Root(y.Key)
				if cl, ok := kv.(*ssa.Call); ok {
					for _, a := range cl.Call.Args {
						for _, e := range k.sliceElems(s.RootIn(c, a)) {
							parts = append(parts, s.PTIn(e.c, e.v))
						}
					}
				}
				parts = append(parts, g.k.strParts(s, s.PT(y.Key))...)
				have := map[string]bool{}
				for _, p := range parts {
					for _, q := range g.k.strParts(s, p) {
						if q.Op == "field" && kindOf(q.Args[0]) {
							have[q.Sym] = true
							if collected(elemOrKey(q.Args[0])) {
								viaList = true
							}
						}
						if q.Sym == `"List"` {
							have["List"] = true
						}
					}
				}
				if !have["Group"] && !have["Version"] && !have["Kind"] || have["List"] != list {
					return 0
				}
				k.check(have["Group"] && have["Version"] && have["Kind"], R, fnName(fn), k.pr.at(in), "the descriptions of two kinds may be mixed up: they are kept under %s (path %s)", short(s.PT(y.Key)), s.Trace())
				return 1
			}
			k.each(fn, e)
		}
		if viaList {
			e := &eachSpec{R: R, what: "every kind is collected", leaf: ofGroup, group: kinds, anchor: anchorAppend("schema.GroupVersionKind"), skip: g.notView(all), quick: true}
			e.call = func(s *St, call ssa.CallInstruction, nm string) int {
				for _, el := range k.appendTo(s, call, "schema.GroupVersionKind") {
					if t := s.PTIn(el.c, el.v); elemOrKey(t) != nil && ofGroup(elemOrKey(t)) {
						return 1
					}
				}
				return 0
			}
			k.each(fn, e)
		}
	}
	k.check(n > 1, R, "apiserver.APIServer", "", "undecided: where documents are computed was not found")
}

// discovery: requests for the discovery of a group or version are answered by the handler registered for it.
func (g *registry) discovery(R string) {
	k := g.k
	for _, t := range []*types.Named{g.grpH, g.verH} {
		field := structField(t, func(x types.Type) bool { _, ok := x.Underlying().(*types.Map); return ok })
		next := structField(t, func(x types.Type) bool { return typeShort(x) == "http.Handler" })
		fn := k.method(t, "ServeHTTP")
		if !k.check(fn != nil, R, typeShort(t), "", "undecided: the handler does not handle requests") {
			continue
		}
		name := fnName(fn)
		k.ok(R, name, k.pr.pos(fn.Pos()))
		n := 2
		if t == g.verH {
			n = 3
		}
		segs := func(t *Term) bool {
			return isCallTo(t, "strings.Split") && t.Args[1].Sym == `"/"` && t.Args[0].Has(func(x *Term) bool {
				return isField(x, "Path") && isField(x.Args[0], "URL") && isParam(x.Args[0].Args[0], "arg1")
			})
		}
		seg := func(t *Term, i string) bool {
			return t.Op == "index" && segs(t.Args[0]) && len(t.Args) > 1 && t.Args[1].Sym == i
		}
		key := func(s *St, t *Term) bool {
			if t == nil {
				return false
			}
			p := g.k.strParts(s, t)
			if n == 2 {
				return len(p) == 1 && seg(p[0], "1")
			}
			return len(p) == 3 && seg(p[0], "1") && p[1].Sym == `"/"` && seg(p[2], "2")
		}
		entryOf := func(s *St) func(*Term) bool {
			return func(t *Term) bool { return t.Op == "lookup" && isField(t.Args[0], field) && key(s, t.Args[1]) }
		}
		rule := &Rule{MaxDepth: 5, Flow: true, Asserts: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			return inAPIPkg(callee) && !recursive(callee)
		}}
		count := itoa(n)
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			entry := entryOf(s)
			t := s.condPT(cond)
			if x, eq, ok := eqConst(t, count, taken); ok && isCallTo(x, "builtin.len") {
				if eq && !segs(x.Args[0]) {
					s.Stop = true // the empty path has no segments
				} else if eq {
					addFlag(s, "len")
				} else {
					addFlag(s, "other")
				}
				return
			}
			if x, eq, ok := eqConst(t, `"apis"`, taken); ok && seg(x, "0") {
				if eq {
					addFlag(s, "apis")
				} else {
					addFlag(s, "other")
				}
				return
			}
			if x, eq, ok := eqConst(t, `""`, taken); ok && eq && x.Has(func(x *Term) bool { return isField(x, "Path") }) {
				addFlag(s, "other")
				return
			}
			_ = boolEdge(s, t, taken, func(x *Term) bool { return x.Op == "ext" && x.Sym == "1" && entry(x.Args[0]) }, "found") || nilEdge(s, t, taken, entry, "entry")
		}
		answer := func(s *St, in ssa.Instruction, how string) {
			k.check(!hasFlag(s, "answered"), R, name, k.pr.at(in), "a request is answered twice (path %s)", s.Trace())
			addFlag(s, "answered")
			addFlag(s, how)
		}
		rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
			entry := entryOf(s)
			a := callArgs(call.Common())
			switch {
			case nm == "http.Error":
				answer(s, call, "refused")
			case strings.HasSuffix(nm, ".ServeHTTP"):
				h := s.PT(a[0])
				if h.Op == "ext" && h.Sym == "0" {
					h = h.Args[0]
				}
				k.check(isParam(s.PT(a[1]), "arg0") && isParam(s.PT(a[2]), "arg1"), R, name, k.pr.at(call), "another request is answered than the one received (path %s)", s.Trace())
				switch {
				case isField(h, next):
					answer(s, call, "refused")
				case entry(h):
					answer(s, call, "served")
					k.check(hasFlag(s, "len") && hasFlag(s, "apis") && (hasFlag(s, "found") || hasFlag(s, "entry:set")), R, name, k.pr.at(call), "a request that does not ask for discovery is answered with it (path %s)", s.Trace())
				default:
					k.fail(R, name, k.pr.at(call), "a request is answered by %s (path %s)", short(h), s.Trace())
				}
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			f := parseFlags(s.Auto)
			k.check(f["answered"], R, name, k.pr.at(ret), "a request is not answered (path %s)", s.Trace())
			k.check(!f["refused"] || f["other"] || f["!found"] || f["entry:nil"], R, name, k.pr.at(ret), "discovery of something registered is refused (path %s)", s.Trace())
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, name)
	}
}

// mounting: requests for resources and discovery reach the handlers that registration changes.
func (g *registry) mounting(R string) {
	k := g.k
	mounted := false
	for _, fn := range k.fnsIn(apiPkg) {
		if !k.holding(anchorCall("mux.PathRecorderMux.HandlePrefix"))[fn] || fn.Parent() != nil || fn.Signature.Recv() == nil || !types.Identical(deref(fn.Signature.Recv().Type()), g.server) {
			continue
		}
		name := fnName(fn)
		k.ok(R, name, k.pr.pos(fn.Pos()))
		fields := func(t *types.Named) string {
			return structField(g.server, func(x types.Type) bool { return types.Identical(deref(x), t) })
		}
		next := structField(g.verH, func(x types.Type) bool { return typeShort(x) == "http.Handler" })
		rf, gf, vf := fields(g.w.t), fields(g.grpH), fields(g.verH)
		rule := &Rule{MaxDepth: 3, Flow: true, Asserts: true, Inline: helperInline}
		names := map[string]string{}
		rule.Instr = func(s *St, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()), g.server) {
				return
			}
			f := fieldName(fa.X.Type(), fa.Field)
			if f == rf || f == gf || f == vf {
				c, v := s.Root(st.Val)
				names[f] = string(s.x.rootKey(c, v))
				addFlag(s, "set "+f)
				if f == vf || f == rf {
					m := k.literalIn(s, c, v)
					for n, e := range m {
						if e.v != nil && (f == rf && n == g.w.delegate || f == vf && n == next) {
							dc, dv := s.RootIn(e.c, e.v)
							if mi, ok := dv.(*ssa.MakeInterface); ok {
								dc, dv = s.RootIn(dc, mi.X)
							}
							want := gf
							if f == rf {
								want = vf
							}
							t := s.PTIn(dc, dv)
							k.check(names[want] != "" && names[want] == string(s.x.rootKey(dc, dv)) || isField(t, want), R, name, k.pr.at(in), "requests that %s does not handle are passed on to %s (path %s)", f, short(t), s.Trace())
						}
					}
				}
			}
		}
		rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
			if !strings.HasSuffix(nm, ".HandlePrefix") {
				return
			}
			a := callArgs(call.Common())
			c, v := s.Root(a[2])
			if mi, ok := v.(*ssa.MakeInterface); ok {
				c, v = s.RootIn(c, mi.X)
			}
			if s.PT(a[1]).Sym == `"/apis/"` {
				t := s.PTIn(c, v)
				k.check(names[rf] != "" && names[rf] == string(s.x.rootKey(c, v)) || isField(t, rf), R, name, k.pr.at(call), "requests for resources are handled by %s (path %s)", short(t), s.Trace())
				addFlag(s, "mounted")
				mounted = true
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			if s.RetVal(ret, -1) == "nonnil" {
				return
			}
			for _, f := range []string{"mounted", "set " + rf, "set " + gf, "set " + vf} {
				k.check(hasFlag(s, f), R, name, k.pr.at(ret), "the server is complete without: %s (path %s)", f, s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, name)
	}
	k.check(mounted, R, "apiserver.APIServer", "", "requests for resources are not handled")
}
