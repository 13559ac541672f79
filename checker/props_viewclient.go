package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("V10", "operations of the view client and its sub-resource clients: every path of every method; which operation of the view cache is called, on which object, after which read, and what happens on failure", runV10)
}

func runV10(k *K) {
	t := k.typeIn(cachePkg, "ViewCacheClient")
	const R = "view client"
	if !k.check(t != nil, R, "cache.ViewCacheClient", "", "the view client was not found") {
		return
	}
	cf := structField(t, func(x types.Type) bool { return typeShort(x) == "cache.ViewCacheInterface" })
	if !k.check(cf != "", R, "cache.ViewCacheClient", "", "the cache of the view client was not found") {
		return
	}
	vc := &viewClient{k: k, cache: cf}
	for _, m := range []string{"Get", "List", "Watch", "Create", "Delete", "Update", "Patch", "DeleteAllOf"} {
		fn := k.fn("cache.ViewCacheClient." + m)
		if fn != nil {
			vc.op(fn, m)
		}
	}
	// the sub-resource client, found from where it is built
	sub := k.fn("cache.ViewCacheClient.SubResource")
	st := k.fn("cache.ViewCacheClient.Status")
	if sub == nil || st == nil {
		return
	}
	name, client := "", ""
	typ := ""
	for _, fn := range []*ssa.Function{sub, st} {
		construct := fnName(fn)
		k.ok(R, construct, k.pr.pos(fn.Pos()))
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			return inCachePkg(callee) && !recursive(callee)
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			at := k.pr.at(ret)
			m := k.literal(s, s.retVal(ret, 0))
			if typ == "" {
				_, v := s.Root(s.retVal(ret, 0))
				typ = typeShort(deref(v.Type()))
			}
			good := 0
			for f := range m {
				f = strings.TrimPrefix(f, "@")
				x := k.lit(s, m, f)
				switch {
				case fn == sub && isParam(x, "arg0"), fn == st && x.Sym == `"status"`:
					k.check(name == "" || name == f, R, construct, at, "the name of the sub-resource is kept in two fields")
					name = f
					good++
				case isParam(x, "recv"):
					k.check(client == "" || client == f, R, construct, at, "the client is kept in two fields")
					client = f
					good++
				}
			}
			k.check(good >= 2, R, construct, at, "the client does not serve the sub-resource asked for (path %s)", s.Trace())
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
	}
	if !k.check(typ != "" && name != "" && client != "", R, fnName(sub), "", "the sub-resource client was not found") {
		return
	}
	vc.subName, vc.client = name, client
	for _, m := range []string{"Get", "Create", "Update", "Patch"} {
		if fn := k.fn(typ + "." + m); fn != nil {
			vc.op(fn, "sub"+m)
		}
	}
}

type viewClient struct {
	k                      *K
	cache, subName, client string
}

// cacheOp: the call is an operation of the cache of the client.
func (vc *viewClient) cacheOp(s *St, call ssa.CallInstruction) string {
	com := call.Common()
	if !com.IsInvoke() {
		return ""
	}
	t := s.PT(com.Value)
	if !isField(t, vc.cache) {
		return ""
	}
	b := t.Args[0]
	if isParam(b, "recv") || isField(b, vc.client) && isParam(b.Args[0], "recv") {
		return com.Method.Name()
	}
	return ""
}

func (vc *viewClient) op(fn *ssa.Function, m string) {
	k := vc.k
	const R = "view client"
	const RMW = "atomicity of view modifications"
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	obj := "arg1" // the object argument
	if m == "Get" {
		obj = "arg2"
	}
	isObj := func(t *Term) bool { return isParam(t, obj) }
	subTerm := func(t *Term) bool { return isField(t, vc.subName) && isParam(t.Args[0], "recv") }
	isCur := func(s *St, t *Term) bool { return hasFlag(s, "cur:"+hashOf(t.String())) }
	isKey := func(s *St, t *Term) bool {
		return isCallTo(t, "client.ObjectKeyFromObject") && (isObj(t.Args[0]) || isCur(s, t.Args[0]))
	}
	kindOf := func(s *St, v ssa.Value) bool { // an object or list made for the kind of the argument
		t := s.PT(v)
		about := func(x *Term) bool { return isObj(x) || isCur(s, x) }
		return t.Op == "call" && (strings.HasSuffix(t.Sym, ".NewViewObject") || strings.HasSuffix(t.Sym, ".NewViewObjectList")) && len(t.Args) == 2 &&
			t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Sym, ".GetOperator") && t.Args[0].Has(about) &&
			(method1(t.Args[1], "GetKind", about) || isField(t.Args[1], "Kind") && t.Args[1].Has(about))
	}
	// the part of an object the sub-resource client works on
	part := func(t *Term, of func(*Term) bool) bool {
		if t.Op == "ext" && t.Sym == "0" {
			t = t.Args[0]
		}
		if t.Op != "call" || !strings.Contains(t.Sym, "unstructured.Nested") || len(t.Args) < 2 {
			return false
		}
		call, ok := t.V.(*ssa.Call)
		if x, isx := t.V.(*ssa.Extract); isx {
			call, ok = x.Tuple.(*ssa.Call)
		}
		b := t.Args[0]
		if method1(b, "UnstructuredContent", func(*Term) bool { return true }) || isField(b, "Object") {
			b = b.Args[0]
		}
		if !ok || !of(b) {
			return false
		}
		e := k.sliceElems(t.Ctx, call.Common().Args[1])
		return len(e) == 1 && subTerm(k.R.T(e[0].c, e[0].v))
	}
	// the variable whose address or value is passed
	variable := func(s *St, v ssa.Value) (*Ctx, *ssa.Alloc) {
		for i := 0; i < 4; i++ {
			c, w := s.Root(v)
			if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
				c, w = s.RootIn(c, u.X)
			}
			if al, ok := w.(*ssa.Alloc); ok {
				return c, al
			}
		}
		return nil, nil
	}
	isParsed := func(s *St, v ssa.Value) bool {
		c, al := variable(s, v)
		return al != nil && hasFlag(s, "parsed:"+hashOf(s.PTIn(c, al).String()))
	}
	classes := map[string]*Term{}
	rule := &Rule{MaxDepth: 7, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		if !inCachePkg(callee) || recursive(callee) {
			return false
		}
		rv := callee.Signature.Recv()
		return helperInline(s, call, callee) || rv != nil && isPtrTo(rv.Type(), "cache.ViewCacheClient")
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := s.loopOver(cond); over != nil {
			at := k.pr.pos(condOrBlock(cond.(ssa.Instruction)))
			isItems := func(t *Term) bool { return isField(t, "Items") && isCur(s, t.Args[0]) }
			if over.Has(isItems) {
				k.check(!partOf(over, isItems), R, construct, at, "only some of the selected objects are deleted (path %s)", s.Trace())
				k.check(!hasFlag(s, "it"), R, construct, at, "a selected object is not deleted (path %s)", s.Trace())
				dropFlag(s, "it")
				if taken {
					addFlag(s, "it")
				} else {
					addFlag(s, "all")
				}
			}
			return
		}
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		// what is already there need not be written
		eq := t.Op == "call" && (strings.HasSuffix(t.Sym, ".DeepEqual") || strings.HasSuffix(t.Sym, ".Equal") || strings.HasSuffix(t.Sym, ".EqualFunc"))
		if eq && taken {
			n := len(t.Args)
			a, b := t.Args[n-2], t.Args[n-1]
			cur := func(x *Term) bool {
				return isCur(s, x) || m == "subUpdate" && part(x, func(y *Term) bool { return isCur(s, y) })
			}
			neu := func(x *Term) bool { return isObj(x) || m == "subUpdate" && part(x, isObj) }
			if cur(a) && neu(b) || cur(b) && neu(a) {
				addFlag(s, "same")
			}
			// after the current object was changed in place, or the changed copy of a patch
			if isCur(s, a) && isCur(s, b) && hasFlag(s, "subset") {
				addFlag(s, "same")
			}
		}
		if x, isnil, ok := eqConst(t, "nil", taken); ok && x.V != nil && typeShort(x.V.Type()) == "error" {
			if !isnil {
				addFlag(s, "failed")
			}
			return
		}
		// identity of a patched object: same kind, same key
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && (t.Sym == "==") == taken {
			a, b := t.Args[0], t.Args[1]
			pair := func(is func(*Term, func(*Term) bool) bool) bool {
				cur := func(x *Term) bool { return isCur(s, x) }
				neu := func(x *Term) bool { return hasFlag(s, "new:"+hashOf(x.String())) }
				old := func(x *Term) bool { return cur(x) || isObj(x) }
				return is(a, old) && is(b, neu) || is(b, old) && is(a, neu)
			}
			for n, is := range map[string]func(*Term, func(*Term) bool) bool{
				"kind": func(x *Term, of func(*Term) bool) bool {
					return x.Op == "call" && strings.HasSuffix(x.Sym, ".GroupVersionKind") && x.Has(of)
				},
				"kindonly": func(x *Term, of func(*Term) bool) bool { return method1(x, "GetKind", of) },
				"version":  func(x *Term, of func(*Term) bool) bool { return method1(x, "GetAPIVersion", of) },
				"key": func(x *Term, of func(*Term) bool) bool {
					return isCallTo(x, "client.ObjectKeyFromObject") && of(x.Args[0])
				},
				"name": func(x *Term, of func(*Term) bool) bool { return method1(x, "GetName", of) },
				"ns":   func(x *Term, of func(*Term) bool) bool { return method1(x, "GetNamespace", of) },
			} {
				if pair(is) {
					addFlag(s, "id:"+n)
				}
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if trackLocks(s, call, nm, classes) {
			return
		}
		at := k.pr.at(call)
		a := callArgs(call.Common())
		op := vc.cacheOp(s, call)
		switch {
		case nm == "object.DeepCopy" && isCur(s, s.PT(a[0])):
			if v := call.Value(); v != nil {
				addFlag(s, "copy:"+hashOf(s.PT(v).String()))
			}
		case nm == "object.Patch" && (m == "Patch" || m == "subPatch"):
			k.check(hasFlag(s, "copy:"+hashOf(s.PT(a[0]).String())) || isCur(s, s.PT(a[0])), R, construct, at, "the patch is applied to %s, not to the current object (path %s)", short(s.PT(a[0])), s.Trace())
			k.check(isParsed(s, a[1]), R, construct, at, "the content applied is not that of the patch: %s (path %s)", short(s.PT(a[1])), s.Trace())
			dropFlag(s, "id:kind", "id:kindonly", "id:version", "id:key", "id:name", "id:ns")
			addFlag(s, "new:"+hashOf(s.PT(a[0]).String()), "patched")
		case strings.HasSuffix(nm, "json.Unmarshal") && (m == "Patch" || m == "subPatch"):
			d := s.PT(a[0])
			if d.Has(func(x *Term) bool {
				return x.Op == "call" && strings.HasSuffix(x.Sym, ".Data") && isParam(x.Args[0], "arg2")
			}) {
				if c, al := variable(s, a[1]); al != nil {
					addFlag(s, "parsed:"+hashOf(s.PTIn(c, al).String()))
				}
			}
		case strings.HasPrefix(nm, "unstructured.SetNested") && strings.HasPrefix(m, "sub"):
			from := isObj
			if m == "subCreate" {
				from = func(t *Term) bool { return isParam(t, "arg2") }
			}
			k.check(s.PT(a[0]).Has(func(x *Term) bool { return isCur(s, x) }), R, construct, at, "the sub-resource of %s is set, not of the current object (path %s)", short(s.PT(a[0])), s.Trace())
			k.check(part(s.PT(a[1]), from), R, construct, at, "the sub-resource is set to %s (path %s)", short(s.PT(a[1])), s.Trace())
			if len(a) > 2 {
				e := k.sliceElems(s.Ctx, a[2])
				k.check(len(e) == 1 && subTerm(s.PTIn(e[0].c, e[0].v)), R, construct, at, "another part of the object than the sub-resource is set (path %s)", s.Trace())
			}
			addFlag(s, "subset")
		case strings.HasSuffix(nm, ".SetUnstructuredContent") && m == "subGet":
			if isParam(s.PT(a[0]), "arg2") {
				k.check(part(s.PT(a[1]), func(x *Term) bool { return isCur(s, x) }), R, construct, at, "the sub-resource returned is %s (path %s)", short(s.PT(a[1])), s.Trace())
				addFlag(s, "given")
			}
		case strings.HasSuffix(nm, ".DeleteAllOfOptions.ApplyOptions") && isParam(s.PT(a[1]), "arg2"):
			addFlag(s, "opts:"+hashOf(s.PT(a[0]).String()))
		}
		if op == "" {
			return
		}
		arg := func(i int) *Term { return s.PT(a[i]) }
		switch op {
		case "Get":
			if m == "Get" {
				k.check(isParam(arg(2), "arg1") && isObj(arg(3)) && len(a) > 4 && isParam(arg(4), "arg3"), R, construct, at, "another object is read (path %s)", s.Trace())
				addFlag(s, "did")
				return
			}
			k.check(isKey(s, arg(2)), R, construct, at, "the object read is %s, not the one the call is about (path %s)", short(arg(2)), s.Trace())
			k.check(kindOf(s, a[3]), R, construct, at, "the object is read into one of another kind: %s (path %s)", short(arg(3)), s.Trace())
			addFlag(s, "cur:"+hashOf(arg(3).String()))
			for h := range heldLocks(s, classes) {
				if hasFlag(s, h+":W") {
					addFlag(s, "since@"+h)
				}
			}
		case "List":
			if m == "List" {
				k.check(isObj(arg(2)) && len(a) > 3 && isParam(arg(3), "arg2"), R, construct, at, "another list is read (path %s)", s.Trace())
				addFlag(s, "did")
				return
			}
			k.check(kindOf(s, a[2]), R, construct, at, "objects of another kind are listed: %s (path %s)", short(arg(2)), s.Trace())
			good := false
			for _, e := range k.sliceElems(s.Ctx, a[3]) {
				t := s.PTIn(e.c, e.v)
				good = good || isField(t, "ListOptions") && (hasFlag(s, "opts:"+hashOf(t.Args[0].String())) || method1(t.Args[0], "ApplyOptions", func(*Term) bool { return isParam(t.Args[0].Args[1], "arg2") }))
			}
			k.check(good, R, construct, at, "the objects are not restricted by the options of the caller (path %s)", s.Trace())
			addFlag(s, "cur:"+hashOf(arg(2).String()))
		case "Watch":
			k.check(m == "Watch" && isObj(arg(2)) && len(a) > 3 && isParam(arg(3), "arg2"), R, construct, at, "another list is watched (path %s)", s.Trace())
			addFlag(s, "did")
		case "Add":
			k.check(m == "Create" && isObj(arg(1)), R, construct, at, "%s is added (path %s)", short(arg(1)), s.Trace())
			addFlag(s, "did")
		case "Delete":
			d := arg(1)
			if c, al := variable(s, a[1]); al != nil { // the address of a loop variable
				if sv := singleStore(al); sv != nil {
					d = s.PTIn(c, sv)
				}
			}
			switch m {
			case "Delete":
				k.check(isObj(d), R, construct, at, "%s is deleted (path %s)", short(d), s.Trace())
				addFlag(s, "did")
			case "DeleteAllOf":
				k.check(d.Has(func(x *Term) bool { return isField(x, "Items") && isCur(s, x.Args[0]) }) && hasFlag(s, "it"), R, construct, at, "%s is deleted (path %s)", short(d), s.Trace())
				dropFlag(s, "it")
			default:
				k.fail(R, construct, at, "an object is deleted (path %s)", s.Trace())
			}
		case "Update":
			o, n := arg(1), arg(2)
			k.check(isCur(s, o), R, construct, at, "the object replaced is %s, which was not read before (path %s)", short(o), s.Trace())
			k.check(!hasFlag(s, "failed"), R, construct, at, "the object is updated after a failure (path %s)", s.Trace())
			switch m {
			case "Update":
				k.check(isObj(n), R, construct, at, "the new object is %s (path %s)", short(n), s.Trace())
			case "Patch", "subPatch":
				f := parseFlags(s.Auto)
				k.check(f["new:"+hashOf(n.String())], R, construct, at, "the new object is %s, not the patched one (path %s)", short(n), s.Trace())
				k.check((f["id:kind"] || f["id:kindonly"] && f["id:version"]) && (f["id:key"] || f["id:name"] && f["id:ns"]), R, construct, at, "a patch can change the identity of the object: the cache keeps both versions (path %s)", s.Trace())
			case "subCreate", "subUpdate":
				k.check(isCur(s, n) && hasFlag(s, "subset"), R, construct, at, "the new object is %s, not the current one with the sub-resource set (path %s)", short(n), s.Trace())
			default:
				k.fail(R, construct, at, "an object is updated (path %s)", s.Trace())
			}
			if m != "Update" {
				held := false
				for h := range heldLocks(s, classes) {
					held = held || hasFlag(s, "since@"+h)
				}
				k.check(held, RMW, construct, at, "the object can be changed by somebody else between the read and the update: that change is lost (path %s)", s.Trace())
			}
			addFlag(s, "did")
		default:
			k.fail(R, construct, at, "undecided: operation %s of the cache (path %s)", op, s.Trace())
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		at := k.pr.at(ret)
		f := parseFlags(s.Auto)
		if errResult(fn.Signature) >= 0 {
			if s.RetVal(ret, -1) == "nonnil" {
				return
			}
			k.check(!f["failed"], R, construct, at, "a failure is reported as success (path %s)", s.Trace())
		}
		switch m {
		case "DeleteAllOf":
			k.check(f["all"], R, construct, at, "the selected objects are not deleted (path %s)", s.Trace())
		case "subGet":
			k.check(f["given"], R, construct, at, "the sub-resource is not returned (path %s)", s.Trace())
		default:
			k.check(f["did"] || f["same"], R, construct, at, "nothing is done (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}
