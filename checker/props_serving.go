package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S13: the handler that serves the views.

func init() {
	register("S13", "serving of views: every path of the resource handler: each request for a registered view is answered once, by the handler for its verb with the storage registered for exactly that resource; the table of storages is only ever replaced by a modified copy, under the lock, in which nothing but the entry asked for differs; a storage serves the kind it was registered for", runS13)
}

// serving describes the resource handler and its table.
type serving struct {
	k        *K
	t        *types.Named
	table    string // field with the table of storages
	delegate string
	storage  string // field of an entry
	scope    string
	stT      *types.Named
	adders   map[*ssa.Function]bool
	removers map[*ssa.Function]bool
}

func (k *K) serving(R string) *serving {
	w := &serving{k: k, adders: map[*ssa.Function]bool{}, removers: map[*ssa.Function]bool{}}
	for _, t := range k.pkgTypes(apiPkg) {
		f := structField(t, func(x types.Type) bool {
			return strings.HasPrefix(typeShort(x), "atomic.Value") || strings.HasPrefix(typeShort(x), "atomic.Pointer")
		})
		if f != "" && k.method(t, "ServeHTTP") != nil {
			w.t, w.table = t, f
		}
	}
	if !k.check(w.t != nil, R, "apiserver.resourceHandler", "", "undecided: the handler with the table of storages was not found") {
		return nil
	}
	w.delegate = structField(w.t, func(x types.Type) bool { return typeShort(x) == "http.Handler" })
	w.stT = k.typeIn(apiPkg, "ClientDelegatedStorage")
	for _, t := range k.pkgTypes(apiPkg) {
		if w.stT == nil || t == w.t {
			continue
		}
		a := structField(t, func(x types.Type) bool { return types.Identical(deref(x), w.stT) })
		b := structField(t, func(x types.Type) bool { return typeShort(deref(x)) == "handlers.RequestScope" })
		if a != "" && b != "" {
			w.storage, w.scope = a, b
		}
	}
	if !k.check(w.storage != "", R, "apiserver.servingInfo", "", "undecided: the entries of the table of storages were not found") {
		return nil
	}
	return w
}

func runS13(k *K) {
	const R = "serving"
	w := k.serving(R)
	if w == nil {
		return
	}
	w.serve("routing")
	w.tableChanges("table of storages")
}

func (w *serving) isLoad(t *Term) bool {
	for t.Op == "un" && t.Sym == "*" || t.Op == "deref" {
		t = t.Args[0]
	}
	return t.Op == "call" && strings.HasPrefix(t.Sym, "atomic.") && strings.HasSuffix(t.Sym, ".Load") && len(t.Args) == 1 && isField(t.Args[0], w.table)
}

func inAPIPkg(f *ssa.Function) bool {
	return fnPkg(f) != nil && strings.HasSuffix(fnPkg(f).Path(), apiPkg)
}

var verbHandlers = map[string]string{"get": "GetResource", "list": "ListResource", "watch": "ListResource", "create": "CreateResource",
	"update": "UpdateResource", "patch": "PatchResource", "delete": "DeleteResource", "deletecollection": "DeleteCollection"}

func (w *serving) serve(R string) {
	k := w.k
	fn := k.method(w.t, "ServeHTTP")
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	info := func(t *Term) bool {
		x := extOf(t, 0, "request.RequestInfoFrom")
		return x != nil && isCallTo(x.Args[0], "http.Request.Context") && isParam(x.Args[0].Args[0], "arg1")
	}
	req := func(f string) func(*Term) bool {
		return func(t *Term) bool { return isField(t, f) && info(t.Args[0]) }
	}
	entry := func(t *Term) bool { return t.Op == "lookup" && w.isLoad(t.Args[0]) }
	verb, sub := req("Verb"), req("Subresource")
	served := map[string]bool{}
	rule := &Rule{MaxDepth: 6, Flow: true, Asserts: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inAPIPkg(callee) && !recursive(callee)
	}}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if x, eq, ok := eqConst(t, "nil", taken); ok && eq && x.Op == "call" && strings.HasPrefix(x.Sym, "handlers.") {
			s.Stop = true
			return
		}
		_ = boolEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "request.RequestInfoFrom") != nil }, "info") ||
			nilEdge(s, t, taken, info, "infop") ||
			boolEdge(s, t, taken, req("IsResourceRequest"), "resource") ||
			boolEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "view/v1alpha1.IsViewGroup") && req("APIGroup")(x.Args[0]) }, "view") ||
			boolEdge(s, t, taken, func(x *Term) bool { return x.Op == "ext" && x.Sym == "1" && entry(x.Args[0]) }, "found") ||
			nilEdge(s, t, taken, entry, "entry") ||
			enumEdge(s, t, taken, verb, "verb") ||
			enumEdge(s, t, taken, sub, "sub") ||
			lenEdge(s, t, taken, sub, "sublen")
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if y, ok := in.(*ssa.Lookup); ok && w.isLoad(s.PT(y.X)) {
			m := k.gvkParts(s, s.Ctx, y.Index)
			for f, g := range map[string]string{"Group": "APIGroup", "Version": "APIVersion", "Resource": "Resource"} {
				k.check(m[f] != nil && req(g)(m[f]), R, construct, k.pr.at(in), "the storage is looked up by another %s than that of the request (path %s)", strings.ToLower(f), s.Trace())
			}
		}
	}
	answer := func(s *St, call ssa.CallInstruction, how string) {
		k.check(!hasFlag(s, "answered"), R, construct, k.pr.at(call), "a request is answered twice (path %s)", s.Trace())
		addFlag(s, "answered")
		addFlag(s, how)
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		at := k.pr.at(call)
		wr := func(i int) {
			k.check(len(a) > i+1 && isParam(s.PT(a[i]), "arg0") && isParam(s.PT(a[i+1]), "arg1"), R, construct, at, "another request is handled than the one received (path %s)", s.Trace())
		}
		switch {
		case strings.HasPrefix(nm, "handlers.") && handlerFor(nm[9:]):
			h := nm[9:]
			v := enumValue(s, "verb")
			k.check(verbHandlers[v] == h, R, construct, at, "a request to %q is handled by %s (path %s)", v, h, s.Trace())
			served[v] = true
			f := parseFlags(s.Auto)
			k.check(f["found"] || f["entry:set"], R, construct, at, "a request for a resource that may not be registered is handled (path %s)", s.Trace())
			k.check(f["sub="] || f["!sublen"], R, construct, at, "a request for a sub-resource may be handled as one for the whole object (path %s)", s.Trace())
			st, sc := 0, 0
			for _, x := range a {
				t := s.PT(x)
				if isField(t, w.storage) && entry(t.Args[0]) {
					st++
				}
				if isField(t, w.scope) && entry(t.Args[0]) {
					sc++
				}
			}
			n := 1
			if h == "ListResource" {
				n = 2
				force := s.PT(a[3])
				byVerb := force.Op == "bin" && force.Sym == "==" && verb(force.Args[0]) && force.Args[1].Sym == `"watch"`
				k.check(len(a) < 4 || byVerb || force.Sym == map[string]string{"list": "false", "watch": "true"}[v], R, construct, at, "a request to %q is handled with the watch forced to %s", v, short(s.PT(a[3])))
			}
			k.check(st == n && sc == 1, R, construct, at, "the request is not handled with the storage registered for its resource (path %s)", s.Trace())
		case nm == "http.Error":
			answer(s, call, "refused")
		case nm == "http.Handler.ServeHTTP" && isField(s.PT(a[0]), w.delegate):
			wr(1)
			answer(s, call, "delegated")
		case nm == "http.HandlerFunc.ServeHTTP" || nm == "http.Handler.ServeHTTP":
			if t := s.PT(a[0]); t.Op == "call" && strings.HasPrefix(t.Sym, "handlers.") {
				wr(1)
				answer(s, call, "served")
			} else {
				k.fail(R, construct, at, "the request is handled by %s (path %s)", short(t), s.Trace())
			}
		case !call.Common().IsInvoke() && k.R.callee(s.Ctx, call.Common()) == nil:
			if t := s.PT(call.Common().Value); t.Op == "call" && strings.HasPrefix(t.Sym, "handlers.") {
				wr(0)
				answer(s, call, "served")
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		switch {
		case f["served"]:
		case f["delegated"]:
			k.check(f["!info"] || f["infop:nil"] || f["!resource"] || f["!view"] || f["!found"] || f["entry:nil"], R, construct, at, "a request for a registered view is not handled (path %s)", s.Trace())
		case f["refused"]:
			none := true
			for v := range verbHandlers {
				none = none && (f["verb!"+v] || enumValue(s, "verb") != "" && verbHandlers[enumValue(s, "verb")] == "")
			}
			k.check(none || f["sub!"] || f["sublen"] || f["!found"] || f["entry:nil"] || f["!info"] || f["infop:nil"], R, construct, at, "a request for a registered view is refused (path %s)", s.Trace())
		default:
			k.fail(R, construct, at, "a request is not answered (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	for _, v := range sortedKeys(verbHandlers) {
		k.check(served[v], R, construct, k.pr.pos(fn.Pos()), "requests to %q are not handled", v)
	}
}

func handlerFor(h string) bool {
	for _, x := range verbHandlers {
		if x == h {
			return true
		}
	}
	return false
}

// entries: the methods of the handler that are called from elsewhere and that (through their helpers)
// replace the table.
func (w *serving) entries() []*ssa.Function {
	of := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Signature.Recv() != nil && types.Identical(deref(f.Signature.Recv().Type()), w.t)
	}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	stores := map[*ssa.Function]bool{}
	outside := map[*ssa.Function]bool{}
	for _, f := range w.k.pr.Funcs {
		c := w.k.R.rootCtx(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						addEdge(calls, f, g)
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				nm := w.k.R.calleeName(c, call.Common())
				if strings.HasPrefix(nm, "atomic.") && (strings.HasSuffix(nm, ".Store") || strings.HasSuffix(nm, ".Swap") || strings.HasSuffix(nm, ".CompareAndSwap")) {
					if t := w.k.R.T(c, call.Common().Args[0]); t.Op == "field" && t.Sym == w.table {
						stores[f] = true
					}
				}
				if g := call.Common().StaticCallee(); g != nil && inModule(g) {
					addEdge(calls, f, g)
					if !of(f) {
						outside[g] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for f, gs := range calls {
			for g := range gs {
				if stores[g] && !stores[f] && of(f) {
					stores[f] = true
					changed = true
				}
			}
		}
	}
	var r []*ssa.Function
	for _, f := range w.k.pr.Funcs {
		if stores[f] && f.Parent() == nil && (outside[f] && of(f)) {
			r = append(r, f)
		}
	}
	return r
}

func addEdge(m map[*ssa.Function]map[*ssa.Function]bool, f, g *ssa.Function) {
	if m[f] == nil {
		m[f] = map[*ssa.Function]bool{}
	}
	m[f][g] = true
}

func (w *serving) tableChanges(R string) {
	k := w.k
	for _, fn := range w.entries() {
		w.change(R, fn)
	}
	k.check(len(w.adders) > 0, R, typeShort(w.t), "", "no storage is ever registered")
	k.check(len(w.removers) > 0, R, typeShort(w.t), "", "no storage is ever removed")
}

func (w *serving) change(R string, fn *ssa.Function) {
	k := w.k
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	gvr, gvk, res := "", "", ""
	for i, p := range fn.Params[1:] {
		sym := "arg" + string(rune('0'+i))
		switch typeShort(p.Type()) {
		case "schema.GroupVersionResource":
			gvr = sym
		case "schema.GroupVersionKind":
			gvk = sym
		case "apiserver.Resource":
			res = sym
		}
	}
	if !k.check(gvr != "", R, construct, k.pr.pos(fn.Pos()), "undecided: the table of storages is changed, but for which resource?") {
		return
	}
	isKey := func(t *Term) bool { return isParam(t, gvr) }
	puts := false
	rule := &Rule{MaxDepth: 6, Flow: true, Asserts: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inAPIPkg(callee) && !recursive(callee)
	}}
	rangekey := func(t *Term) bool { return t.Op == "rangekey" && w.isLoad(t.Args[0]) }
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := s.loopOver(cond); over != nil {
			if w.isLoad(over) {
				if hasFlag(s, "pend") && !hasFlag(s, "samekey") {
					k.fail(R, construct, k.pr.at(cond.(ssa.Instruction)), "the storage of another resource is dropped (path %s)", s.Trace())
				}
				dropFlag(s, "samekey")
				dropFlag(s, "otherkey")
				dropFlag(s, "pend")
				if taken {
					addFlag(s, "pend")
				} else {
					addFlag(s, "copied")
				}
			}
			return
		}
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && (rangekey(t.Args[0]) && isKey(t.Args[1]) || rangekey(t.Args[1]) && isKey(t.Args[0])) {
			if (t.Sym == "==") == taken {
				addFlag(s, "samekey")
			} else {
				addFlag(s, "otherkey")
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		y, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		m, key := s.PT(y.Map), s.PT(y.Key)
		if w.isLoad(m) {
			k.fail(R, construct, k.pr.at(in), "the table that requests are being served from is modified (path %s)", s.Trace())
			return
		}
		if _, ok := y.Map.Type().Underlying().(*types.Map); !ok || !types.Identical(y.Map.Type().Underlying(), w.mapType()) {
			return
		}
		switch {
		case rangekey(key):
			v := elemOf(s.PT(y.Value))
			k.check(v != nil && w.isLoad(v), R, construct, k.pr.at(in), "the storage of another resource is replaced (path %s)", s.Trace())
			dropFlag(s, "pend")
			if !hasFlag(s, "otherkey") {
				addFlag(s, "kept")
			}
		case isKey(key):
			puts = true
			addFlag(s, "put")
			addFlag(s, "kept")
			w.entry(R, construct, s, in, y.Value, gvr, gvk, res)
		default:
			k.fail(R, construct, k.pr.at(in), "a storage is registered for %s (path %s)", short(key), s.Trace())
		}
	}
	lockOp := func(nm string, a []ssa.Value, s *St) string {
		if (nm == "sync.Mutex.Lock" || nm == "sync.RWMutex.Lock" || nm == "sync.Mutex.Unlock" || nm == "sync.RWMutex.Unlock") && len(a) > 0 {
			if t := s.PT(a[0]); t.Op == "field" && isParam(t.Args[0], "recv") {
				return nm[strings.LastIndexByte(nm, '.')+1:]
			}
		}
		return ""
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		switch lockOp(nm, a, s) {
		case "Lock":
			addFlag(s, "locked")
		case "Unlock":
			dropFlag(s, "locked")
			dropFlag(s, "loaded")
		}
		switch {
		case nm == "maps.Copy":
			if w.isLoad(s.PT(a[0])) {
				k.fail(R, construct, k.pr.at(call), "the table that requests are being served from is modified (path %s)", s.Trace())
			}
			if w.isLoad(s.PT(a[1])) {
				k.check(!hasFlag(s, "put"), R, construct, k.pr.at(call), "the old storage may replace the new one (path %s)", s.Trace())
				addFlag(s, "copied")
				addFlag(s, "kept")
			}
		case nm == "maps.Clone":
			if w.isLoad(s.PT(a[0])) {
				addFlag(s, "copied")
				addFlag(s, "kept")
			}
		case nm == "builtin.delete":
			if w.isLoad(s.PT(a[0])) {
				k.fail(R, construct, k.pr.at(call), "the table that requests are being served from is modified (path %s)", s.Trace())
			} else if types.Identical(a[0].Type().Underlying(), w.mapType()) {
				k.check(isKey(s.PT(a[1])), R, construct, k.pr.at(call), "the storage of %s is dropped (path %s)", short(s.PT(a[1])), s.Trace())
				dropFlag(s, "kept")
				dropFlag(s, "put")
			}
		case nm == "builtin.clear" && types.Identical(a[0].Type().Underlying(), w.mapType()):
			k.fail(R, construct, k.pr.at(call), "all storages are dropped (path %s)", s.Trace())
		case strings.HasPrefix(nm, "atomic.") && len(a) > 0 && isField(s.PT(a[0]), w.table):
			switch {
			case strings.HasSuffix(nm, ".Load"):
				if hasFlag(s, "locked") {
					addFlag(s, "loaded")
				}
			case strings.HasSuffix(nm, ".Store"):
				k.check(hasFlag(s, "locked") && hasFlag(s, "loaded"), R, construct, k.pr.at(call), "a concurrent change of the table may be lost: it is read and replaced without holding the lock throughout (path %s)", s.Trace())
				m := s.PT(a[1])
				if al, ok := rootAlloc(s, a[1]); ok {
					if sv := wholeStore(al); sv != nil {
						m = s.PT(sv)
					}
				}
				k.check(strings.HasPrefix(m.String(), "make:") || isCallTo(m, "maps.Clone"), R, construct, k.pr.at(call), "undecided: the table is replaced by %s", short(m))
				k.check(hasFlag(s, "copied"), R, construct, k.pr.at(call), "the storages of the other resources are lost (path %s)", s.Trace())
				addFlag(s, "stored")
				if hasFlag(s, "put") {
					addFlag(s, "storedput")
				}
				if hasFlag(s, "kept") {
					addFlag(s, "storedkept")
				}
			default:
				k.fail(R, construct, k.pr.at(call), "undecided: the table is changed by %s", nm)
			}
		}
	}
	type exit struct {
		at, trace             string
		stored, put, kept, ok bool
	}
	var exits []exit
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		good := len(ret.Results) == 0 || s.RetVal(ret, -1) != "nonnil"
		exits = append(exits, exit{k.pr.at(ret), s.Trace(), f["stored"], f["storedput"], f["storedkept"], good})
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	for _, e := range exits {
		if !e.ok {
			k.check(!e.stored, R, construct, e.at, "the table is changed although an error is reported (path %s)", e.trace)
			continue
		}
		if puts {
			k.check(e.put, R, construct, e.at, "the storage is not registered, and no error is reported (path %s)", e.trace)
		} else {
			k.check(e.stored && !e.kept, R, construct, e.at, "the storage may stay registered (path %s)", e.trace)
		}
	}
	if puts {
		w.adders[fn] = true
	} else {
		w.removers[fn] = true
	}
}

func rootAlloc(s *St, v ssa.Value) (*ssa.Alloc, bool) {
	_, r := s.Root(v)
	al, ok := r.(*ssa.Alloc)
	return al, ok
}

// mapType: the type of the table.
func (w *serving) mapType() types.Type {
	for _, t := range w.k.pkgTypesAll(apiPkg) {
		if m, ok := t.Underlying().(*types.Map); ok && typeShort(m.Key()) == "schema.GroupVersionResource" {
			return m
		}
	}
	return types.Typ[types.Invalid]
}

// pkgTypesAll: all named types of a package.
func (k *K) pkgTypesAll(pkg string) []*types.Named {
	var r []*types.Named
	for _, p := range k.pr.SSA.AllPackages() {
		if p.Pkg == nil || !strings.HasSuffix(p.Pkg.Path(), pkg) {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok {
					r = append(r, nt)
				}
			}
		}
	}
	return r
}

// entry: what is registered for a resource.
func (w *serving) entry(R, construct string, s *St, in ssa.Instruction, v ssa.Value, gvr, gvk, res string) {
	k := w.k
	at := k.pr.at(in)
	m := k.literal(s, v)
	st, sc := m[w.storage], m[w.scope]
	if !k.check(st.v != nil && sc.v != nil, R, construct, at, "undecided: what is registered is %s (path %s)", short(s.PT(v)), s.Trace()) {
		return
	}
	namespaced := func(t *Term) bool {
		return isField(t, "Namespaced") && isField(t.Args[0], "APIResource") && isParam(t.Args[0].Args[0], res)
	}
	lit := func(m map[string]ctxVal, f string) *Term {
		e, ok := m[f]
		if !ok || e.v == nil {
			return &Term{Op: "const", Sym: "zero"}
		}
		return s.PTIn(e.c, e.v)
	}
	f := func(name string) string {
		return structField(w.stT, func(x types.Type) bool { return typeShort(x) == name })
	}
	sm := k.literalIn(s, st.c, st.v)
	k.check(isParam(lit(sm, f("schema.GroupVersionKind")), gvk), R, construct, at, "the storage serves another kind: %s (path %s)", short(lit(sm, f("schema.GroupVersionKind"))), s.Trace())
	k.check(isParam(lit(sm, f("schema.GroupVersionResource")), gvr), R, construct, at, "the storage serves another resource: %s (path %s)", short(lit(sm, f("schema.GroupVersionResource"))), s.Trace())
	cl := func(t *Term) bool { return t.Op == "field" && isParam(t.Args[0], "recv") }
	k.check(cl(lit(sm, f("client.Client"))), R, construct, at, "the storage has no client (path %s)", s.Trace())
	k.check(lit(sm, f("client.WithWatch")).String() == lit(sm, f("client.Client")).String(), R, construct, at, "the storage watches with another client than it reads with (path %s)", s.Trace())
	k.check(namespaced(lit(sm, w.nsField())), R, construct, at, "whether the storage has namespaces is %s (path %s)", short(lit(sm, w.nsField())), s.Trace())
	cm := k.literalIn(s, sc.c, sc.v)
	k.check(isParam(lit(cm, "Resource"), gvr), R, construct, at, "requests are handled as for another resource (path %s)", s.Trace())
	k.check(isParam(lit(cm, "Kind"), gvk), R, construct, at, "requests are handled as for another kind (path %s)", s.Trace())
	fm := extOf(lit(cm, "FieldManager"), 0, "managedfields.NewDefaultCRDFieldManager")
	k.check(fm == nil || len(fm.Args) > 4 && isParam(fm.Args[4], gvk), R, construct, at, "patches are handled as for another kind (path %s)", s.Trace())
	nm := cm["Namer"]
	if nm.v != nil {
		nl := k.literalIn(s, nm.c, nm.v)
		t := lit(nl, "ClusterScoped")
		k.check(t.Op == "un" && t.Sym == "!" && namespaced(t.Args[0]), R, construct, at, "objects are named as if they had %s (path %s)", short(t), s.Trace())
	}
}

func (w *serving) nsField() string {
	f := w.k.method(w.stT, "NamespaceScoped")
	r := ""
	if f == nil {
		return r
	}
	rule := &Rule{MaxDepth: 2, Flow: true, Inline: helperInline}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if x := s.RetPT(ret, 0); x.Op == "field" && isParam(x.Args[0], "recv") {
			r = x.Sym
		}
	}
	x := w.k.explore(rule)
	x.Run(f, "")
	return r
}
