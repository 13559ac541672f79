package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The REST storage of the API server, which hands every request for a view to a client.

func init() {
	register("S04", "REST storage: every path of every operation: each object or list handed to the client has the kind of the storage and the name and namespace of the request; lists and watches are restricted to the namespace and the selectors of the request; what is returned is what the client produced", func(k *K) { runStorage(k, "S04") })
	register("S05", "REST storage: every path of every operation that changes something: the object was accepted by the validation that came with the request before the client is told to write it, and nothing is created by an update unless that was asked for", func(k *K) { runStorage(k, "S05") })
	register("S10", "REST storage: every path on which the client fails: the operation reports an error, of the right kind for missing and existing objects; every path on which it succeeds reports none", func(k *K) { runStorage(k, "S10") })
}

type storage struct {
	k                  *K
	fn                 *ssa.Function
	op                 string // the operation
	scope, valid, errs string // rules, "" if not of interest
	construct          string

	client, watcher                 string // fields
	gvk                             func(*Term) bool
	name, list, obj, info, force    string // parameters
	createVal, updateVal, objectVal string
	calls                           int
	seen                            map[string]bool
	namespaced                      string
}

func runStorage(k *K, id string) {
	const R = "REST storage"
	t := k.typeIn(apiPkg, "ClientDelegatedStorage")
	if !k.check(t != nil, R, "apiserver.ClientDelegatedStorage", "", "the REST storage was not found") {
		return
	}
	field := func(name string) string {
		return structField(t, func(x types.Type) bool { return typeShort(x) == name })
	}
	cl, wa, gvk := field("client.Client"), field("client.WithWatch"), field("schema.GroupVersionKind")
	if !k.check(cl != "" && wa != "" && gvk != "", R, "apiserver.ClientDelegatedStorage", "", "the client, the watcher or the kind of the REST storage was not found") {
		return
	}
	ns := ""
	if f := k.method(t, "NamespaceScoped"); f != nil {
		f := f
		rule := &Rule{MaxDepth: 2, Flow: true, Inline: helperInline}
		rule.Exit = func(s *St, ret *ssa.Return) {
			if x := s.RetPT(ret, 0); x.Op == "field" && isParam(x.Args[0], "recv") {
				ns = x.Sym
			}
		}
		x := k.explore(rule)
		x.Run(f, "")
	}
	k.check(ns != "", R, "apiserver.ClientDelegatedStorage.NamespaceScoped", "", "whether the objects of the storage have a namespace is not known")
	for _, m := range []string{"New", "NewList", "Get", "List", "Create", "Update", "Delete", "DeleteCollection", "Watch"} {
		fn := k.method(t, m)
		if !k.check(fn != nil, R, "apiserver.ClientDelegatedStorage."+m, "", "the operation is missing") {
			continue
		}
		w := &storage{k: k, fn: fn, op: m, construct: fnName(fn), client: cl, watcher: wa, namespaced: ns, seen: map[string]bool{}}
		w.gvk = func(t *Term) bool { return isField(t, gvk) && isParam(t.Args[0], "recv") }
		rule := ""
		switch id {
		case "S04":
			w.scope, rule = "scope of the requests", "scope of the requests"
		case "S05":
			if m == "New" || m == "NewList" || m == "Get" || m == "List" || m == "Watch" {
				continue
			}
			w.valid, rule = "validation", "validation"
		case "S10":
			if m == "New" || m == "NewList" {
				continue
			}
			w.errs, rule = "errors", "errors"
		}
		k.ok(rule, w.construct, k.pr.pos(fn.Pos()))
		for i, p := range fn.Params[1:] {
			sym := "arg" + string(rune('0'+i))
			ty := p.Type().String()
			switch {
			case p.Type() == types.Typ[types.String]:
				w.name = sym
			case p.Type() == types.Typ[types.Bool]:
				w.force = sym
			case strings.HasSuffix(ty, "internalversion.ListOptions"):
				w.list = sym
			case strings.HasSuffix(ty, "runtime.Object"):
				w.obj = sym
			case strings.HasSuffix(ty, "rest.UpdatedObjectInfo"):
				w.info = sym
			case strings.HasSuffix(ty, "rest.ValidateObjectFunc"):
				w.objectVal = sym
			case strings.HasSuffix(ty, "rest.ValidateObjectUpdateFunc"):
				w.updateVal = sym
			}
		}
		w.run(rule)
	}
}

func (w *storage) fail(rule string, in ssa.Instruction, f string, a ...any) {
	if rule != "" {
		w.k.fail(rule, w.construct, w.k.pr.at(in), f, a...)
	}
}

func (w *storage) check(ok bool, rule string, in ssa.Instruction, f string, a ...any) bool {
	if !ok {
		w.fail(rule, in, f, a...)
	}
	return ok
}

// clientOp: the operation of the client (or watcher) that is called.
func (w *storage) clientOp(t *Term) string {
	if t.Op != "call" || len(t.Args) == 0 {
		return ""
	}
	b := t.Args[0]
	if b.Op != "field" || b.Sym != w.client && b.Sym != w.watcher || !isParam(b.Args[0], "recv") {
		return ""
	}
	return t.Sym[strings.LastIndexByte(t.Sym, '.')+1:]
}

// errOf: the operation of the client whose error the term is.
func (w *storage) errOf(t *Term) string {
	if t.Op == "ext" && len(t.Args) == 1 {
		if op := w.clientOp(t.Args[0]); op == "Watch" {
			return op
		}
		return ""
	}
	return w.clientOp(t)
}

func ctxNamespace(t *Term) bool {
	x := extOf(t, 0, "request.NamespaceFrom")
	if x == nil && isCallTo(t, "request.NamespaceValue") {
		x = t
	}
	return x != nil && len(x.Args) == 1 && isParam(x.Args[0], "arg0")
}

func objKey(t *Term) string {
	for t.Op == "call" && strings.HasSuffix(t.Sym, ".DeepCopy") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return hashOf(t.String())
}

func noCopy(t *Term) *Term {
	for t.Op == "call" && (strings.HasSuffix(t.Sym, ".DeepCopy") || strings.HasSuffix(t.Sym, ".DeepCopyObject")) && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// listKind: the kind of the lists of the objects of the storage.
func (w *storage) listKind(m map[string]*Term) bool {
	of := func(f string) func(*Term) bool {
		return func(t *Term) bool { return isField(t, f) && w.gvk(t.Args[0]) }
	}
	kd := m["Kind"]
	return m != nil && m["Group"] != nil && of("Group")(m["Group"]) && m["Version"] != nil && of("Version")(m["Version"]) &&
		kd != nil && kd.Op == "bin" && kd.Sym == "+" && of("Kind")(kd.Args[0]) && kd.Args[1].Sym == `"List"`
}

func (w *storage) objKind(m map[string]*Term) bool {
	for _, f := range []string{"Group", "Version", "Kind"} {
		if m[f] == nil || !isField(m[f], f) || !w.gvk(m[f].Args[0]) {
			return false
		}
	}
	return true
}

// option: what an option of a list or watch contributes.
func (w *storage) option(s *St, e ctxVal, in ssa.Instruction) []string {
	c, v := e.c, e.v
	ty := ""
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			continue
		}
		break
	}
	ty = typeShort(deref(v.Type()))
	if _, ok := v.Type().Underlying().(*types.Interface); ok {
		cc, r := s.RootIn(c, v)
		c, v = cc, r
		ty = typeShort(deref(r.Type()))
		if cst, ok := r.(*ssa.Const); ok && cst.IsNil() {
			return nil
		}
	}
	isOpt := func(f string) func(*Term) bool {
		return func(t *Term) bool { return isField(t, f) && isParam(t.Args[0], w.list) }
	}
	var out []string
	sel := func(t *Term, f, what string, nilOK bool) {
		if t == nil || t.Sym == "zero" || isNil(t) {
			return
		}
		if !w.check(isOpt(f)(t), w.scope, in, "the objects are selected by %s instead of the %s of the request (path %s)", short(t), what, s.Trace()) {
			return
		}
		w.check(nilOK || hasFlag(s, what+":set"), w.scope, in, "a request without a %s selects nothing (path %s)", what, s.Trace())
		out = append(out, what)
	}
	switch ty {
	case "client.InNamespace":
		t := s.PTIn(c, v)
		if w.check(ctxNamespace(t), w.scope, in, "the objects of namespace %s are taken instead of those of the namespace of the request (path %s)", short(t), s.Trace()) {
			out = append(out, "ns")
		}
	case "client.MatchingLabelsSelector", "client.MatchingFieldsSelector":
		m := w.k.literalIn(s, c, v)
		e, ok := m["Selector"]
		if !ok || e.v == nil {
			w.fail(w.scope, in, "undecided: the selector is %s (path %s)", short(s.PTIn(c, v)), s.Trace())
			break
		}
		if ty == "client.MatchingLabelsSelector" {
			sel(s.PTIn(e.c, e.v), "LabelSelector", "label selector", false)
		} else {
			sel(s.PTIn(e.c, e.v), "FieldSelector", "field selector", true)
		}
	case "client.ListOptions":
		m := w.k.literalIn(s, c, v)
		for f, e := range m {
			if e.v == nil {
				continue
			}
			t := s.PTIn(e.c, e.v)
			switch f {
			case "Namespace":
				if t.Sym == `""` {
					break
				}
				if w.check(ctxNamespace(t), w.scope, in, "the objects of namespace %s are taken instead of those of the namespace of the request (path %s)", short(t), s.Trace()) {
					out = append(out, "ns")
				}
			case "LabelSelector":
				sel(t, f, "label selector", true)
			case "FieldSelector":
				sel(t, f, "field selector", true)
			case "Limit":
				w.fail(w.scope, in, "the number of objects is limited")
			}
		}
	default:
		w.fail(w.scope, in, "undecided: the objects are selected by an option of type %s (path %s)", ty, s.Trace())
	}
	return out
}

func (w *storage) options(s *St, v ssa.Value, in ssa.Instruction) map[string]bool {
	r := map[string]bool{}
	if l := s.Lab(v); l != "" {
		for _, x := range strings.Split(l, ",") {
			r[x] = true
		}
		return r
	}
	c, x := s.Root(v)
	for _, e := range w.k.sliceElems(c, x) {
		for _, o := range w.option(s, e, in) {
			r[o] = true
		}
	}
	return r
}

func (w *storage) run(R string) {
	k := w.k
	rule := &Rule{MaxDepth: 6, Flow: true, Asserts: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) != nil && strings.HasSuffix(fnPkg(callee).Path(), apiPkg) && !recursive(callee)
	}
	clientErr := func(op string) func(*Term) bool {
		return func(t *Term) bool { return w.errOf(t) == op }
	}
	ops := []string{"Get", "List", "Create", "Update", "Delete", "Watch"}
	updated := func(t *Term) *Term { return extOf(t, 0, "rest.UpdatedObjectInfo.UpdatedObject") }
	valErr := func(t *Term) (string, []*Term, bool) {
		if t.Op == "call" && strings.HasPrefix(t.Sym, "dyn:") {
			p := strings.TrimPrefix(t.Sym, "dyn:")
			if p != "" && (p == w.objectVal || p == w.updateVal) {
				return p, t.Args[1:], true
			}
		}
		return "", nil, false
	}
	valKey := func(p string, objs []*Term) string {
		r := "val:" + p
		for _, o := range objs {
			r += ":" + objKey(o)
		}
		return r
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := s.loopOver(cond); over != nil {
			if isField(over, "Items") && hasFlag(s, "list:"+objKey(over.Args[0])) {
				w.check(!hasFlag(s, "item"), w.errs, cond.(ssa.Instruction), "an object of the collection is passed over (path %s)", s.Trace())
				if taken {
					addFlag(s, "item")
				} else {
					addFlag(s, "all")
				}
			}
			return
		}
		t := s.condPT(cond)
		recvScope := func(x *Term) bool {
			return isField(x, w.namespaced) && isParam(x.Args[0], "recv") || isCallTo(x, "apiserver.ClientDelegatedStorage.NamespaceScoped")
		}
		if boolEdge(s, t, taken, recvScope, "scoped") ||
			boolEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "request.NamespaceFrom") != nil }, "hasns") ||
			enumEdge(s, t, taken, ctxNamespace, "ns") ||
			boolEdge(s, t, taken, func(x *Term) bool { return w.force != "" && isParam(x, w.force) }, "force") ||
			nilEdge(s, t, taken, func(x *Term) bool { return w.list != "" && isParam(x, w.list) }, "options") {
			return
		}
		for f, what := range map[string]string{"LabelSelector": "label selector", "FieldSelector": "field selector"} {
			if nilEdge(s, t, taken, func(x *Term) bool { return isField(x, f) && isParam(x.Args[0], w.list) }, what) {
				return
			}
			// a selector that selects everything may be left out
			if boolEdge(s, t, taken, func(x *Term) bool {
				return x.Op == "call" && strings.HasSuffix(x.Sym, "Selector.Empty") && isField(x.Args[0], f)
			}, what+" empty") {
				return
			}
		}
		for _, p := range []string{w.objectVal, w.updateVal} {
			if p != "" && nilEdge(s, t, taken, func(x *Term) bool { return isParam(x, p) }, "validation "+p) {
				return
			}
		}
		if x, eq, ok := eqConst(t, "nil", taken); ok {
			if p, objs, is := valErr(x); is {
				if eq {
					addFlag(s, valKey(p, objs))
				} else {
					addFlag(s, "failed")
					dropFlag(s, "item")
				}
				return
			}
			// an error that collects others
			if s.Lab2(x) == "nonnil" && eq {
				s.Stop = true
				return
			}
		}
		for _, op := range ops {
			if nilEdge(s, t, taken, clientErr(op), op) {
				if hasFlag(s, op+":set") && op == "Delete" && w.op == "DeleteCollection" {
					addFlag(s, "failed?")
				}
				return
			}
			if nilEdge(s, t, taken, func(x *Term) bool {
				return isCallTo(x, "client.IgnoreNotFound") && clientErr(op)(x.Args[0])
			}, op+":other") {
				if hasFlag(s, op+":other:set") {
					addFlag(s, "failed")
				}
				if hasFlag(s, op+":nil") && hasFlag(s, op+":other:set") {
					s.Stop = true
				}
				return
			}
			for _, e := range [][2]string{{"IsNotFound", "notfound"}, {"IsAlreadyExists", "exists"}} {
				if boolEdge(s, t, taken, func(x *Term) bool {
					return isCallTo(x, "errors."+e[0]) && clientErr(op)(x.Args[0])
				}, op+":"+e[1]) {
					if hasFlag(s, op+":"+e[1]) && hasFlag(s, op+":nil") {
						s.Stop = true
					}
					return
				}
			}
		}
		collected := func(x *Term) bool { return s.Lab2(x) == "nonnil" }
		if lenEdge(s, t, taken, collected, "collected") {
			if hasFlag(s, "!collected") {
				s.Stop = true
			}
			return
		}
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if isCallTo(t, "errors.IsNotFound") && strings.HasPrefix(t.Args[0].Sym, "errors.New") {
			if isCallTo(t.Args[0], "errors.NewNotFound") != taken {
				s.Stop = true
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if al, ok := in.(*ssa.Alloc); ok && in.Parent() != nil {
			id := objKey(s.PT(al))
			for f := range parseFlags(s.Auto) {
				if strings.HasSuffix(f, ":"+id) || strings.Contains(f, ":"+id+":") {
					dropFlag(s, f)
				}
			}
		}
	}
	rule.AfterCall = func(s *St, call ssa.CallInstruction, nm string) {
		v, ok := call.(*ssa.Call)
		if !ok {
			return
		}
		com := call.Common()
		switch nm {
		case "builtin.append":
			et, ok := v.Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			switch typeShort(et.Elem()) {
			case "client.ListOption":
				m := w.options(s, com.Args[0], call)
				for o := range w.options(s, com.Args[1], call) {
					m[o] = true
				}
				var l []string
				for _, o := range []string{"ns", "label selector", "field selector"} {
					if m[o] {
						l = append(l, o)
					}
				}
				s.SetLab(v, strings.Join(l, ","))
			default:
				if types.Identical(et.Elem(), types.Universe.Lookup("error").Type()) {
					l := s.Lab(com.Args[0])
					for _, e := range k.sliceElemsOn(s, com.Args[1]) {
						if w.isFailure(s, e) {
							l = "nonnil"
						}
					}
					s.SetLab(v, l)
				}
			}
		case "errors.Join", "errors.NewAggregate":
			l := s.Lab(com.Args[0])
			c, x := s.Root(com.Args[0])
			for _, e := range k.sliceElems(c, x) {
				if w.isFailure(s, s.PTIn(e.c, e.v)) || s.labIn(e.c, e.v) == "nonnil" {
					l = "nonnil"
				}
			}
			s.SetLab(v, l)
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		short1 := nm[strings.LastIndexByte(nm, '.')+1:]
		switch short1 {
		case "SetGroupVersionKind":
			if strings.HasPrefix(nm, "unstructured.") || strings.HasPrefix(nm, "client.") || strings.HasPrefix(nm, "schema.") {
				t, o := s.PT(a[1]), objKey(s.PT(a[0]))
				m := k.gvkParts(s, s.Ctx, a[1])
				for _, f := range []string{"gvk:", "listgvk:"} {
					dropFlag(s, f+o)
				}
				switch {
				case w.gvk(t) || w.objKind(m):
					addFlag(s, "gvk:"+o)
				case w.listKind(m):
					addFlag(s, "listgvk:"+o)
				}
				return
			}
		case "SetNamespace":
			o := objKey(s.PT(a[0]))
			dropFlag(s, "ns:"+o)
			if ctxNamespace(s.PT(a[1])) {
				addFlag(s, "ns:"+o)
			}
			return
		case "SetKind", "SetAPIVersion", "SetUnstructuredContent", "UnmarshalJSON", "SetName":
			o := objKey(s.PT(a[0]))
			for _, f := range []string{"gvk:", "listgvk:", "ns:"} {
				dropFlag(s, f+o)
			}
			if short1 == "SetName" {
				w.fail(w.scope, call, "the object is renamed")
			}
			return
		}
		op := ""
		if b := call.Common(); b.IsInvoke() {
			t := s.PT(b.Value)
			if t.Op == "field" && (t.Sym == w.client || t.Sym == w.watcher) && isParam(t.Args[0], "recv") {
				op = short1
			}
		}
		if op == "" {
			return
		}
		w.calls++
		tr := func() string { return s.Trace() }
		f := parseFlags(s.Auto)
		for x := range f {
			if strings.HasPrefix(x, op+":") {
				delete(f, x)
			}
		}
		f["did:"+op] = true
		s.Auto = f.String()
		scopeKnown := f["scoped"] || f["!scoped"]
		switch op {
		case "Get":
			o := s.PT(a[3])
			id := objKey(o)
			w.check(f["gvk:"+id], w.scope, call, "an object of another kind may be read (path %s)", tr())
			m := k.literal(s, a[2])
			key := s.PT(a[2])
			if !w.check(m != nil || isCallTo(key, "client.ObjectKeyFromObject"), w.scope, call, "undecided: object %s is read (path %s)", short(key), tr()) {
				return
			}
			w.check(isParam(k.lit(s, m, "Name"), w.name), w.scope, call, "the object that is read, %s, is not the one asked for (path %s)", short(k.lit(s, m, "Name")), tr())
			if w.check(scopeKnown, w.scope, call, "the object is read without regard to whether it has a namespace (path %s)", tr()) && f["scoped"] {
				w.check(ctxNamespace(k.lit(s, m, "Namespace")), w.scope, call, "the object is read from namespace %s instead of that of the request (path %s)", short(k.lit(s, m, "Namespace")), tr())
				w.check(f["hasns"] || f["ns!"], w.scope, call, "the object is read without a namespace (path %s)", tr())
			}
			addFlag(s, "got:"+id)
		case "List", "Watch":
			o := s.PT(a[2])
			id := objKey(o)
			w.check(f["listgvk:"+id], w.scope, call, "objects of another kind may be listed (path %s)", tr())
			opts := w.options(s, a[3], call)
			if w.scope != "" {
				w.check(opts["ns"] || f["!scoped"] || f["!hasns"] || f["ns="], w.scope, call, "the objects are not restricted to the namespace of the request (path %s)", tr())
				for _, x := range []string{"label selector", "field selector"} {
					w.check(opts[x] || f["options:nil"] || f[x+":nil"] || f[x+" empty"], w.scope, call, "the %s of the request is ignored (path %s)", x, tr())
				}
			}
			addFlag(s, "list:"+id)
		case "Create":
			t := s.PT(a[2])
			id := objKey(t)
			w.check(f["gvk:"+id], w.scope, call, "an object of another kind may be created (path %s)", tr())
			if w.check(scopeKnown, w.scope, call, "the object is created without regard to whether it has a namespace (path %s)", tr()) && f["scoped"] {
				w.check(f["ns:"+id] && (f["hasns"] || f["ns!"]), w.scope, call, "the object is not created in the namespace of the request (path %s)", tr())
			}
			b := noCopy(t)
			if w.op == "Update" {
				u := updated(b)
				w.check(u != nil && isParam(u.Args[0], w.info), w.scope, call, "the object that is created, %s, is not that of the request (path %s)", short(t), tr())
				w.check(f["force"], w.valid, call, "an update creates an object although that was not asked for (path %s)", tr())
				w.check(f["Get:notfound"] || f["Get:other:nil"] && f["Get:set"], w.valid, call, "an update creates an object that may exist (path %s)", tr())
			} else {
				w.check(w.op == "Create" && isParam(b, w.obj), w.scope, call, "the object that is created, %s, is not that of the request (path %s)", short(t), tr())
			}
			w.check(w.objectVal != "" && (f["validation "+w.objectVal+":nil"] || f[valKey(w.objectVal, []*Term{t})]), w.valid, call, "an object is created that may not be valid (path %s)", tr())
			addFlag(s, "wrote:"+id)
		case "Update":
			t := s.PT(a[2])
			id := objKey(t)
			w.check(f["gvk:"+id], w.scope, call, "an object of another kind may be updated (path %s)", tr())
			u := updated(noCopy(t))
			good := u != nil && isParam(u.Args[0], w.info) && len(u.Args) == 3 && f["got:"+objKey(u.Args[2])]
			w.check(good, w.scope, call, "the object that is written, %s, is not the result of the requested update of the current object (path %s)", short(t), tr())
			w.check(w.op == "Update", w.scope, call, "%s updates an object", w.op)
			if good {
				w.check(w.updateVal != "" && (f["validation "+w.updateVal+":nil"] || f[valKey(w.updateVal, []*Term{t, u.Args[2]})]), w.valid, call, "an update is written that may not be valid (path %s)", tr())
			}
			addFlag(s, "wrote:"+id)
		case "Delete":
			t := s.PT(a[2])
			id := objKey(t)
			switch w.op {
			case "Delete":
				w.check(f["got:"+objKey(noCopy(t))], w.scope, call, "the object that is deleted, %s, is not the one asked for (path %s)", short(t), tr())
			case "DeleteCollection":
				w.check(w.listed(s, a[2]), w.scope, call, "the object that is deleted, %s, is not one of the collection (path %s)", short(t), tr())
			default:
				w.fail(w.scope, call, "%s deletes an object", w.op)
			}
			w.check(w.objectVal != "" && (f["validation "+w.objectVal+":nil"] || f[valKey(w.objectVal, []*Term{t})]), w.valid, call, "an object is deleted although that may not be allowed (path %s)", tr())
			dropFlag(s, valKey(w.objectVal, []*Term{t}))
			dropFlag(s, "item")
			addFlag(s, "wrote:"+id)
		default:
			w.fail(w.scope, call, "undecided: %s of the client is called", op)
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		tr := func() string { return s.Trace() }
		if w.op == "New" || w.op == "NewList" {
			pfx := map[string]string{"New": "gvk:", "NewList": "listgvk:"}[w.op]
			w.check(f[pfx+objKey(s.RetPT(ret, 0))], w.scope, ret, "the kind of a new object is not that of the storage (path %s)", tr())
			return
		}
		n := len(ret.Results)
		et := s.RetPT(ret, n-1)
		ev := s.RetVal(ret, n-1)
		if ev == "" && w.isFailure(s, et) || s.Lab2(et) == "nonnil" {
			ev = "nonnil"
		}
		fin := w.op // the operation that has the last word
		if w.op == "DeleteCollection" {
			fin = ""
		}
		if w.op == "Update" && f["did:Create"] {
			fin = "Create"
		}
		if isErrOf := w.errOf(et); ev == "" && isErrOf != "" {
			// the outcome of the client is the outcome of the operation
			f[isErrOf+":nil"] = true
			ev = "nil"
		}
		if ev != "nonnil" {
			for _, op := range ops {
				bad := f[op+":set"] || f[op+":other:set"] || f[op+":notfound"] || f[op+":exists"]
				if op == "Get" && f["did:Create"] || op == "Delete" && w.op == "DeleteCollection" {
					bad = false
				}
				w.check(!bad, w.errs, ret, "the failure of %s is not reported (path %s)", op, tr())
			}
			if w.op == "DeleteCollection" {
				w.check(!f["failed"], w.errs, ret, "not all objects of the collection were deleted, and success is reported (path %s)", tr())
				w.check(!f["did:Delete"] || f["Delete:nil"] || f["Delete:other:nil"] || f["Delete:other:set"] || f["Delete:set"] || f["Delete:notfound"] || f["Delete:!notfound"], w.errs, ret, "the outcome of a deletion is not looked at (path %s)", tr())
				w.check(f["did:List"] && f["List:nil"] && f["all"], w.errs, ret, "not every object of the collection is deleted (path %s)", tr())
			} else {
				w.check(f["did:"+fin] && f[fin+":nil"], w.errs, ret, "success is reported although nothing may have been done (path %s)", tr())
			}
			r := s.RetPT(ret, 0)
			if ev == "nil" {
				switch fin {
				case "Get":
					w.check(f["got:"+objKey(r)], w.scope, ret, "what is returned, %s, is not the object read (path %s)", short(r), tr())
				case "List":
					w.check(f["list:"+objKey(r)], w.scope, ret, "what is returned, %s, are not the objects listed (path %s)", short(r), tr())
				case "Create", "Update", "Delete":
					w.check(f["wrote:"+objKey(r)] || f["got:"+objKey(r)] && fin == "Delete", w.scope, ret, "what is returned, %s, is not the object of the request (path %s)", short(r), tr())
				case "Watch":
					w.check(r.Op == "ext" && r.Sym == "0" && w.clientOp(r.Args[0]) == "Watch", w.scope, ret, "what is returned, %s, is not the watch (path %s)", short(r), tr())
				}
				if n == 3 {
					want := AVal("false")
					if w.op == "Delete" || fin == "Create" {
						want = "true"
					}
					w.check(s.RetVal(ret, 1) == want, w.errs, ret, "whether the object was created or deleted is not told as it is (path %s)", tr())
				}
			}
			return
		}
		if fin != "" && f["did:"+fin] && f[fin+":nil"] {
			w.fail(w.errs, ret, "an error is reported although %s succeeded (path %s)", fin, tr())
		}
		if w.op == "DeleteCollection" {
			return
		}
		for _, op := range ops {
			known, is := "", ""
			switch op {
			case "Get", "Delete":
				known, is = "notfound", "errors.NewNotFound"
			case "Create":
				known, is = "exists", "errors.NewAlreadyExists"
			default:
				continue
			}
			if op == "Get" && f["force"] {
				continue
			}
			yes := f[op+":"+known] || known == "notfound" && f[op+":other:nil"] && !f[op+":nil"]
			no := f["!"+op+":"+known] || known == "notfound" && f[op+":other:set"]
			switch {
			case !f[op+":set"] && !yes && !no:
			case f[op+":nil"]:
			case w.errOf(et) == op:
			case isCallTo(et, is):
				w.check(yes, w.errs, ret, "every failure of %s is reported as %q (path %s)", op, known, tr())
			default:
				w.check(no, w.errs, ret, "that the object of %s is %q is not told apart from other failures (path %s)", op, known, tr())
			}
		}
	}
	x := k.explore(rule)
	x.Run(w.fn, "")
	k.done(x, R, w.construct)
	if w.op != "New" && w.op != "NewList" {
		k.check(w.calls > 0, R, w.construct, k.pr.pos(w.fn.Pos()), "the client is never called")
	}
}

// isFailure: the term is an error that is known to be set on this path.
func (w *storage) isFailure(s *St, t *Term) bool {
	if op := w.errOf(t); op != "" {
		return hasFlag(s, op+":set") || hasFlag(s, op+":other:set") || hasFlag(s, op+":notfound") || hasFlag(s, op+":exists")
	}
	if isCallTo(t, "client.IgnoreNotFound") {
		op := w.errOf(t.Args[0])
		return op != "" && hasFlag(s, op+":other:set")
	}
	if t.Op == "call" && strings.HasPrefix(t.Sym, "dyn:") {
		p := strings.TrimPrefix(t.Sym, "dyn:")
		return (p == w.objectVal || p == w.updateVal) && hasFlag(s, "failed")
	}
	return isErrCall(t)
}

func isErrCall(t *Term) bool {
	return t.Op == "call" && (isCallTo(t, "fmt.Errorf", "errors.New") || strings.HasPrefix(t.Sym, "errors.New"))
}

// labIn is the label of a value of another frame; Lab2 that of the value of a term.
func (s *St) labIn(c *Ctx, v ssa.Value) string {
	c, w := s.RootIn(c, v)
	return string(s.env[envKey{c.id, w, labIdx}])
}

func (s *St) Lab2(t *Term) string {
	if t.V == nil || t.Ctx == nil {
		return ""
	}
	return s.labIn(t.Ctx, t.V)
}

// listed: the value is (a copy of) an object of the list that was read.
func (w *storage) listed(s *St, v ssa.Value) bool {
	elem := func(t *Term) bool {
		t = noCopy(t)
		e := elemOf(t)
		return e != nil && isField(e, "Items") && hasFlag(s, "list:"+objKey(e.Args[0]))
	}
	if elem(s.PT(v)) {
		return true
	}
	c, x := s.Root(v)
	switch y := x.(type) {
	case *ssa.Alloc:
		if sv := wholeStore(y); sv != nil {
			return elem(s.PTIn(c, sv))
		}
	case *ssa.IndexAddr:
		t := s.PTIn(c, y.X)
		return isField(t, "Items") && hasFlag(s, "list:"+objKey(t.Args[0]))
	}
	return false
}
