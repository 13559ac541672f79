package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cachePkg = "pkg/cache"

func init() {
	register("V01", "isolation of the view cache: path-sensitive ownership analysis over every exported function of the cache package (helpers entered): objects handed out of or into a store are fresh deep copies, objects still owned by a store are only read, every event handler gets copies of its own", runV01)
	register("V02", "events of the view cache: every path of every operation that changes an object store, and of the event dispatch: one announcement per change to the informer of the kind and to every delegating informer, of the right type and with the right objects, nothing announced without a change", runV02)
	register("V03", "view-only cache: every path that inserts into the maps of the view cache, or stores an object, has established that the kind is a view", runV03)
}

// storeOp: the call is a method of a client-go object store; returns its name.
func storeOp(call ssa.CallInstruction) string {
	com := call.Common()
	if !com.IsInvoke() || com.Method.Pkg() == nil || !strings.HasSuffix(com.Method.Pkg().Path(), "client-go/tools/cache") {
		return ""
	}
	n, ok := types.Unalias(com.Value.Type()).(*types.Named)
	if !ok || n.Obj().Name() != "Indexer" && n.Obj().Name() != "Store" && n.Obj().Name() != "ThreadSafeStore" {
		return ""
	}
	return com.Method.Name()
}

// handlerOp: the call delivers an event to an event handler.
func handlerOp(call ssa.CallInstruction) string {
	com := call.Common()
	if !com.IsInvoke() || com.Method.Pkg() == nil || !strings.HasSuffix(com.Method.Pkg().Path(), "client-go/tools/cache") {
		return ""
	}
	switch com.Method.Name() {
	case "OnAdd", "OnUpdate", "OnDelete":
		return com.Method.Name()
	}
	return ""
}

func storeTerm(t *Term) string {
	if t.Op == "call" && t.V != nil {
		if c, ok := t.V.(ssa.CallInstruction); ok {
			return storeOp(c)
		}
	}
	return ""
}

// owned: t is (part of) an object that belongs to a store.
func owned(t *Term) bool {
	switch t.Op {
	case "ext":
		if t.Sym == "0" {
			switch storeTerm(t.Args[0]) {
			case "Get", "GetByKey", "List", "ByIndex", "Index":
				return true
			}
		}
		if t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Sym, "NoCopy") {
			return owned(t.Args[0].Args[0])
		}
	case "call":
		if storeTerm(t) == "List" {
			return true
		}
		if strings.HasSuffix(t.Sym, ".UnstructuredContent") && len(t.Args) > 0 {
			return owned(t.Args[0])
		}
	case "index", "lookup", "field", "slice", "un":
		return owned(t.Args[0])
	case "phi":
		return anyAlt(t, owned)
	}
	return false
}

// readers of objects, outside the cache package: argument positions that are only read; -1: all.
var readers = map[string]int{
	"object.DeepCopy": -1, "object.DeepCopyInto": 0, "object.Dump": -1, "object.DeepEqual": -1, "object.IsReferenceEqual": -1,
	"client.ObjectKeyFromObject": -1, "builtin.len": -1, "fmt.Sprintf": -1, "fmt.Errorf": -1,
	"cache.MetaNamespaceKeyFunc": -1, "cache.DeletionHandlingMetaNamespaceKeyFunc": -1, "cache.MetaObjectToName": -1,
	"reflect.DeepEqual": -1, "equality.Semantic.DeepEqual": -1, "object.GetOperator": -1,
}

func isObjType(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice:
		return true
	}
	return structOf(t) != nil
}

func inCachePkg(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && p.Path() == modPath+"/"+cachePkg
}

// testSupport: functions of the fake cache used in tests.
func (k *K) cacheRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range k.fnsIn(cachePkg) {
		if f.Parent() != nil || f.Object() == nil || strings.Contains(k.pr.pos(f.Pos()), "fake") {
			continue
		}
		if f.Object().Exported() {
			r = append(r, f)
		}
	}
	return r
}

func runV01(k *K) {
	for _, fn := range k.cacheRoots() {
		k.ownership(fn)
	}
	k.atLeast("copies given to event handlers", 4)
	k.atLeast("copies put into stores", 3)
	k.atLeast("use of stored objects", 6)
}

func (k *K) ownership(fn *ssa.Function) {
	const RH, RS, RU = "copies given to event handlers", "copies put into stores", "use of stored objects"
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && !recursive(callee)
	}
	copyCall := func(c *Ctx, v ssa.Value) bool {
		cl, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		n := k.R.calleeName(c, cl.Common())
		return n == "object.DeepCopy" || strings.HasSuffix(n, ".DeepCopy") || strings.HasSuffix(n, ".DeepCopyObject")
	}
	root := func(s *St, v ssa.Value) (*Ctx, ssa.Value) {
		c, w := s.Root(v)
		for i := 0; i < 6; i++ {
			if ta, ok := w.(*ssa.TypeAssert); ok {
				c, w = s.RootIn(c, ta.X)
				continue
			}
			if ex, ok := w.(*ssa.Extract); ok {
				if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ex.Index == 0 {
					c, w = s.RootIn(c, ta.X)
					continue
				}
			}
			break
		}
		return c, w
	}
	lab := func(s *St, v ssa.Value) string {
		c, w := root(s, v)
		return string(s.env[envKey{c.id, w, labIdx}])
	}
	setLab := func(s *St, v ssa.Value, l string) {
		c, w := root(s, v)
		s.env[envKey{c.id, w, labIdx}] = AVal(l)
	}
	where := func(s *St, in ssa.Instruction) string { return fnName(in.Parent()) }
	isOwned := func(s *St, v ssa.Value) bool {
		return isObjType(v.Type()) && (lab(s, v) == "stored" || owned(s.PT(v)))
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		com := call.Common()
		at := k.pr.at(call)
		if op := handlerOp(call); op != "" {
			for _, a := range com.Args {
				if !types.IsInterface(a.Type()) {
					continue
				}
				cst := where(s, call)
				c, w := root(s, a)
				switch l := lab(s, a); {
				case !copyCall(c, w):
					k.fail(RH, cst, at, "%s gets an object that is not a copy: %s (path %s)", op, short(s.PT(a)), s.Trace())
				case l == "given":
					k.fail(RH, cst, at, "%s gets a copy another event handler got already (path %s)", op, s.Trace())
				case l == "stored":
					k.fail(RH, cst, at, "%s gets the object in the store (path %s)", op, s.Trace())
				default:
					k.ok(RH, cst+"/"+op, at)
				}
				setLab(s, a, "given")
			}
			return
		}
		switch op := storeOp(call); op {
		case "Add", "Update", "Replace":
			for _, a := range com.Args {
				if !types.IsInterface(a.Type()) {
					continue
				}
				c, w := root(s, a)
				if !copyCall(c, w) {
					k.fail(RS, where(s, call), at, "an object that is not a copy is put into a store: %s (path %s)", short(s.PT(a)), s.Trace())
				} else {
					k.check(lab(s, a) == "fresh", RS, where(s, call), at, "a copy that was given away is put into a store (path %s)", s.Trace())
				}
				setLab(s, a, "stored")
			}
			return
		case "":
		default:
			return // reading, or removing
		}
		// other calls with objects of a store
		if tg := k.R.callee(s.Ctx, com); tg != nil && tg.fn.Blocks != nil && inCachePkg(tg.fn) && !recursive(tg.fn) && s.Ctx.depth < rule.MaxDepth && !s.Ctx.onStack(tg.fn) {
			return // entered
		}
		args := callArgs(com)
		for i, a := range args {
			if !isOwned(s, a) {
				continue
			}
			cst := where(s, call)
			n := nm[strings.LastIndexByte(nm, '.')+1:]
			pos, listed := readers[nm]
			readOnly := listed && (pos < 0 || pos == i) ||
				i == 0 && (strings.HasPrefix(n, "Get") || strings.HasPrefix(n, "Is") || strings.HasPrefix(n, "DeepCopy") && i == 0 || n == "UnstructuredContent" || n == "GroupVersionKind" || n == "MarshalJSON") ||
				strings.HasPrefix(nm, "logr.Logger.") || strings.HasPrefix(nm, "unstructured.Nested") || nm == "builtin.append" && false
			k.check(readOnly, RU, cst+"/"+n, at, "an object of a store is given to %s, which may keep or change it (path %s)", nm, s.Trace())
		}
	}
	rule.AfterCall = func(s *St, call ssa.CallInstruction, nm string) {
		v := call.Value()
		if v == nil {
			return
		}
		if c, w := s.Root(v); copyCall(c, w) && w == ssa.Value(v) {
			s.SetLab(v, "fresh")
		}
	}
	fresh := func(s *St, in ssa.Instruction, v ssa.Value, what string) {
		if isOwned(s, v) {
			k.fail(RU, where(s, in), k.pr.at(in), "%s an object of a store without a copy: %s (path %s)", what, short(s.PT(v)), s.Trace())
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.Store:
			c, p := k.R.norm(s.Ctx, y.Addr)
			_ = c
			if _, ok := p.(*ssa.Alloc); !ok {
				if t := s.PT(y.Addr); t.Op != "alloc" && owned(t) && t.Op != "call" {
					k.fail(RU, where(s, in), k.pr.at(in), "an object of a store is modified (path %s)", s.Trace())
				}
				if ia, ok := p.(*ssa.IndexAddr); ok {
					// the elements of a local list are checked when it is used
					if al, ok := ia.X.(*ssa.Alloc); ok && strings.HasPrefix(al.Comment, "varargs") || ok && al.Comment == "slicelit" {
						if !loggerArgs(al) {
							fresh(s, in, y.Val, "a list gets")
						}
						return
					}
				}
				fresh(s, in, y.Val, "something outside the function keeps")
			} else if structOf(y.Val.Type()) != nil && strings.HasSuffix(typeShort(y.Val.Type()), "Unstructured") {
				fresh(s, in, y.Val, "a variable shares the content of")
			}
		case *ssa.MapUpdate:
			fresh(s, in, y.Value, "a map keeps")
			if owned(s.PT(y.Map)) {
				k.fail(RU, where(s, in), k.pr.at(in), "an object of a store is modified (path %s)", s.Trace())
			}
		case *ssa.Send:
			fresh(s, in, y.X, "a channel gets")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		for i := range ret.Results {
			v := s.retVal(ret, i)
			if isOwned(s, v) {
				k.fail(RU, fnName(fn), k.pr.at(ret), "%s returns an object of a store without a copy: %s (path %s)", fnName(fn), short(s.PT(v)), s.Trace())
			}
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, RU, fnName(fn))
}

// loggerArgs: the list of arguments is only given to a logger.
func loggerArgs(al *ssa.Alloc) bool {
	if al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		if sl, ok := r.(*ssa.Slice); ok && sl.Referrers() != nil {
			for _, q := range *sl.Referrers() {
				if c, ok := q.(ssa.CallInstruction); ok {
					n := calleeName(c.Common())
					if strings.HasPrefix(n, "logr.Logger.") || strings.HasPrefix(n, "fmt.") {
						continue
					}
				}
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- V02

// fieldOf finds the field of a struct type of the cache package by its type.
func (k *K) mapField(t *types.Named, elem func(types.Type) bool) string {
	return structField(t, func(ft types.Type) bool {
		m, ok := ft.Underlying().(*types.Map)
		return ok && strings.HasSuffix(typeShort(m.Key()), "GroupVersionKind") && elem(m.Elem())
	})
}

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.(*types.Pointer)
	return ok && typeShort(p.Elem()) == name
}

// viewCacheFields: the maps of the view cache, by their types.
func (k *K) viewCacheFields(typ string) (store, own, deleg string) {
	t := k.typeIn(cachePkg, typ)
	if t == nil {
		return
	}
	store = k.mapField(t, func(e types.Type) bool { return strings.HasSuffix(typeShort(e), ".Indexer") })
	own = k.mapField(t, func(e types.Type) bool { return isPtrTo(e, "cache.ViewCacheInformer") })
	deleg = k.mapField(t, func(e types.Type) bool {
		sl, ok := e.Underlying().(*types.Slice)
		return ok && isPtrTo(sl.Elem(), "cache.ViewCacheInformer")
	})
	return
}

func runV02(k *K) {
	const R = "announcement of changes"
	t := k.typeIn(cachePkg, "ViewCache")
	store, own, deleg := k.viewCacheFields("ViewCache")
	if !k.check(t != nil && store != "" && own != "" && deleg != "", R, "cache.ViewCache", "", "the view cache or its fields were not found") {
		return
	}
	n := 0
	for i := 0; i < t.NumMethods(); i++ {
		fn := k.pr.SSA.FuncValue(t.Method(i))
		if fn == nil || fn.Blocks == nil || !fn.Object().Exported() {
			continue
		}
		if k.announces(R, fn, store, own, deleg) {
			n++
		}
	}
	k.check(n >= 3, R, "cache.ViewCache", k.pr.pos(t.Obj().Pos()), "expected at least 3 operations that change objects, found %d", n)
	// nothing else in the package changes the stores of the view cache
	for _, fn := range k.fnsIn(cachePkg) {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if rv := top.Signature.Recv(); rv != nil && (isPtrTo(rv.Type(), "cache.ViewCache") || isPtrTo(rv.Type(), "cache.Store")) || strings.Contains(k.pr.pos(fn.Pos()), "fake") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					switch op := storeOp(c); op {
					case "Add", "Update", "Delete", "Replace":
						k.fail(R, fnName(fn), k.pr.at(in), "an object store is changed outside of the view cache")
					}
				}
			}
		}
	}
	k.dispatch()
}

var wantEvent = map[string]string{"Add": `"Added"`, "Update": `"Updated"`, "Delete": `"Deleted"`}

func (k *K) announces(R string, fn *ssa.Function, store, own, deleg string) bool {
	construct := fnName(fn)
	recvField := func(t *Term, f string) bool { return isField(t, f) && isParam(t.Args[0], "recv") }
	isOwn := func(t *Term) bool {
		return t.Op == "lookup" && recvField(t.Args[0], own) || t.Op == "call" && strings.HasSuffix(t.Sym, ".GetInformerForKind") || t.Op == "ext" && t.Sym == "0" && extOfSuffix(t, ".GetInformerForKind") ||
			t.Op == "call" && strings.HasSuffix(t.Sym, ".NewViewCacheInformer")
	}
	hasDeleg := func(t *Term) bool { return t.Has(func(x *Term) bool { return recvField(x, deleg) }) }
	isKind := func(t *Term, not string) bool {
		return t.Op == "call" && strings.HasSuffix(t.Sym, ".GroupVersionKind") && !t.Has(func(x *Term) bool { return not != "" && isParam(x, not) })
	}
	changes := false
	changed := func(s *St) bool {
		return hasFlag(s, "chg:Add") || hasFlag(s, "chg:Update") || hasFlag(s, "chg:Delete")
	}
	rule := &Rule{MaxDepth: 6, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inCachePkg(callee) && callee.Name() != "TriggerEvent" && !recursive(callee)
	}
	oldArg := ""
	if fn.Signature.Params().Len() == 2 {
		oldArg = "arg0"
	}
	strip := func(s *St, v ssa.Value) string {
		c, w := s.Root(v)
		for i := 0; i < 6; i++ {
			if ta, ok := w.(*ssa.TypeAssert); ok {
				c, w = s.RootIn(c, ta.X)
			} else if ex, ok := w.(*ssa.Extract); ok {
				ta, ok := ex.Tuple.(*ssa.TypeAssert)
				if !ok || ex.Index != 0 {
					break
				}
				c, w = s.RootIn(c, ta.X)
			}
		}
		return s.idIn(c, w)
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		com := call.Common()
		at := k.pr.at(call)
		switch op := storeOp(call); op {
		case "Add", "Update", "Delete":
			changes = true
			k.ok(R, construct, k.pr.pos(fn.Pos()))
			for _, f := range []string{"Add", "Update", "Delete"} {
				if hasFlag(s, "chg:"+f) {
					k.fail(R, construct, at, "the store is changed twice (path %s)", s.Trace())
				}
			}
			rt := s.PT(com.Value)
			k.check(rt.Op == "lookup" && recvField(rt.Args[0], store) && isKind(rt.Args[1], oldArg) || rt.Op == "call" && strings.HasSuffix(rt.Sym, ".NewIndexer"), R, construct, at, "the object goes to a store that is not that of its kind: %s (path %s)", short(rt), s.Trace())
			id := strip(s, com.Args[0])
			if op != "Delete" {
				k.check(hasFlag(s, "uid:"+id), R, construct, at, "an object is stored without an UID (path %s)", s.Trace())
			}
			addFlag(s, "chg:"+op, "obj:"+id)
			return
		}
		if nm == "object.WithUID" {
			addFlag(s, "uid:"+strip(s, com.Args[0]))
			return
		}
		if !strings.HasSuffix(nm, ".TriggerEvent") {
			return
		}
		a := callArgs(com)
		f := parseFlags(s.Auto)
		op := ""
		for o := range wantEvent {
			if f["chg:"+o] {
				op = o
			}
		}
		if !k.check(op != "", R, construct, at, "an event is announced although nothing was changed (yet) (path %s)", s.Trace()) {
			return
		}
		k.check(f["op:nil"], R, construct, at, "an event is announced although the change may have failed (path %s)", s.Trace())
		k.check(s.PT(a[1]).Sym == wantEvent[op], R, construct, at, "%s is announced as %s (path %s)", op, s.PT(a[1]), s.Trace())
		k.check(f["obj:"+strip(s, a[3])], R, construct, at, "the object announced is not the one that was stored or removed: %s (path %s)", short(s.PT(a[3])), s.Trace())
		k.check(s.PT(a[4]).Sym == "false", R, construct, at, "a change is announced as part of the initial list (path %s)", s.Trace())
		if op == "Update" {
			o := s.PT(a[2])
			k.check(isParam(o, oldArg) || owned(o) || isCallTo(o, "object.DeepCopy") && isParam(o.Args[0], oldArg), R, construct, at, "the old object of the update is %s (path %s)", short(o), s.Trace())
		}
		inf := s.PT(a[0])
		switch {
		case elemOf(inf) != nil && hasDeleg(elemOf(inf)) || elemOf(inf) != nil && f["collecting"]:
			k.check(!f["it:done"], R, construct, at, "an informer gets the same event twice (path %s)", s.Trace())
			addFlag(s, "it:done", "announced")
			dropFlag(s, "it")
		case isOwn(inf):
			if inf.Op == "lookup" {
				k.check(isKind(inf.Args[1], oldArg), R, construct, at, "the informer of another kind gets the event (path %s)", s.Trace())
			}
			k.check(!f["own"], R, construct, at, "the informer of the kind gets the same event twice (path %s)", s.Trace())
			addFlag(s, "own")
		default:
			k.fail(R, construct, at, "undecided: the event goes to %s (path %s)", short(inf), s.Trace())
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			return
		}
		if isOwn(s.PT(st.Val)) {
			if al, ok := ia.X.(*ssa.Alloc); ok {
				addFlag(s, "lit:"+s.idIn(s.Ctx, al))
			}
		}
		// collecting the informers first
		if e := elemOf(s.PT(st.Val)); e != nil && hasDeleg(e) && hasFlag(s, "it") {
			dropFlag(s, "it")
			addFlag(s, "it:done")
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := s.loopOver(cond); over != nil {
			mixed := over.Has(func(x *Term) bool { return x.Op == "alloc" && x.V != nil && hasFlag(s, "lit:"+s.idIn(x.Ctx, x.V)) })
			if mixed {
				addFlag(s, "collecting")
			}
			if (hasDeleg(over) || mixed) && changed(s) {
				if partOf(over, hasDeleg) {
					k.fail(R, construct, k.pr.pos(condOrBlock(cond.(ssa.Instruction))), "only some of the delegating informers get the event (path %s)", s.Trace())
				}
				if hasFlag(s, "it") {
					k.fail(R, construct, k.pr.pos(condOrBlock(cond.(ssa.Instruction))), "an informer does not get the event (path %s)", s.Trace())
				}
				ann := hasFlag(s, "announced")
				dropFlag(s, "it", "it:done", "announced")
				if taken {
					addFlag(s, "it")
				} else {
					_ = ann
					if !mixed || hasDeleg(over) {
						addFlag(s, "deleg")
					}
					if mixed {
						addFlag(s, "own")
					}
				}
				return
			}
		}
		t := s.condPT(cond)
		// there is nothing but cache informers in the view cache
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isOwn(t.Args[0].Args[0]) && !taken && changed(s) {
			addFlag(s, "own")
			return
		}
		if nilEdge(s, t, taken, func(x *Term) bool {
			switch storeTerm(x) {
			case "Add", "Update", "Delete":
				return true
			}
			return false
		}, "op") {
			return
		}
		boolEdge(s, t, taken, func(x *Term) bool {
			return isCallTo(x, "object.DeepEqual", "reflect.DeepEqual") && oldArg != "" && (isParam(x.Args[0], oldArg) || isParam(x.Args[1], oldArg)) &&
				x.Has(func(y *Term) bool { return isParam(y, "arg1") })
		}, "same")
	}
	type outcome struct {
		ret   *ssa.Return
		flags flags
		trace string
		succ  bool
	}
	var outs []outcome
	rule.Exit = func(s *St, ret *ssa.Return) {
		ev := AVal("nil")
		if errResult(fn.Signature) >= 0 {
			ev = s.RetVal(ret, -1)
		}
		outs = append(outs, outcome{ret, parseFlags(s.Auto), s.Trace(), ev != "nonnil"})
	}
	x := k.explore(rule)
	x.Run(fn, "")
	if !changes {
		return false
	}
	k.done(x, R, construct)
	for _, o := range outs {
		if !o.succ {
			continue
		}
		at := k.pr.at(o.ret)
		ch := false
		for op := range wantEvent {
			ch = ch || o.flags["chg:"+op]
		}
		if !ch {
			k.check(o.flags["same"], R, construct, at, "%s reports success without changing the store (path %s)", construct, o.trace)
			continue
		}
		k.check(o.flags["op:nil"], R, construct, at, "%s reports success although the change failed (path %s)", construct, o.trace)
		k.check(o.flags["own"], R, construct, at, "the informer of the kind does not get the event (path %s)", o.trace)
		k.check(o.flags["deleg"], R, construct, at, "delegating informers do not get the event (path %s)", o.trace)
	}
	return true
}

// dispatch: every handler of an informer gets every event, once, by the right method.
func (k *K) dispatch() {
	const R = "dispatch of events"
	n := 0
	for _, fn := range k.fnsIn(cachePkg) {
		if fn.Parent() != nil || fn.Name() != "TriggerEvent" {
			continue
		}
		n++
		k.dispatchPaths(R, fn)
	}
	k.check(n == 1, R, "TriggerEvent", "", "found %d event dispatchers", n)
}

// handlersField: the event handlers registered with an informer.
func (k *K) handlersField() string {
	t := k.typeIn(cachePkg, "ViewCacheInformer")
	if t == nil {
		return ""
	}
	return structField(t, func(ft types.Type) bool {
		m, ok := ft.Underlying().(*types.Map)
		return ok && (strings.HasSuffix(typeShort(m.Elem()), ".handlerEntry") || strings.HasSuffix(typeShort(deref(m.Elem())), ".handlerEntry"))
	})
}

// isTransformed: t is a result of the transform function of the informer.
func isTransform(t *Term) bool {
	return t.Has(func(x *Term) bool {
		return x.Op == "call" && strings.HasPrefix(x.Sym, "dyn:") && strings.Contains(x.Sym, "transform")
	})
}

func (k *K) dispatchPaths(R string, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	hf := k.handlersField()
	isHandlers := func(t *Term) bool { return isField(t, hf) && isParam(t.Args[0], "recv") }
	ty, objs := "", []string{}
	for i, p := range fn.Params[1:] {
		nm := "arg" + itoa(i)
		if strings.HasSuffix(typeShort(p.Type()), "DeltaType") {
			ty = nm
		} else if strings.HasSuffix(typeShort(deref(p.Type())), "Unstructured") {
			objs = append(objs, nm)
		}
	}
	if !k.check(hf != "" && ty != "" && len(objs) == 2, R, construct, k.pr.pos(fn.Pos()), "the parameters of the dispatcher were not recognised") {
		return
	}
	of := func(t *Term, i int) bool {
		return t.Has(func(x *Term) bool { return isParam(x, objs[i]) }) && !t.Has(func(x *Term) bool { return isParam(x, objs[1-i]) })
	}
	want := map[string]string{"OnAdd": "Added", "OnUpdate": "Updated", "OnDelete": "Deleted"}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	loops := 0
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := s.loopOver(cond); over != nil && over.Has(isHandlers) {
			if partOf(over, isHandlers) {
				k.fail(R, construct, k.pr.pos(condOrBlock(cond.(ssa.Instruction))), "only some of the handlers get the event (path %s)", s.Trace())
			}
			if hasFlag(s, "it") && !(hasFlag(s, "ty!Added") && hasFlag(s, "ty!Updated") && hasFlag(s, "ty!Deleted")) {
				k.fail(R, construct, k.pr.pos(condOrBlock(cond.(ssa.Instruction))), "a handler does not get the event (path %s)", s.Trace())
			}
			dropFlag(s, "it", "hit")
			if taken {
				addFlag(s, "it")
			} else {
				loops++
				addFlag(s, "done")
			}
			return
		}
		t := s.condPT(cond)
		if enumEdge(s, t, taken, func(x *Term) bool { return isParam(x, ty) }, "ty") {
			return
		}
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if nilEdge(s, t, taken, func(x *Term) bool { return x.Op == "ext" && x.Sym == "1" && isTransform(x) }, "terr") {
			return
		}
		if t.Op == "ext" && t.Sym == "1" && isTransform(t) && !taken {
			addFlag(s, "notobj")
			return
		}
		if t.Op == "bin" && isCallTo(t.Args[0], "builtin.len") && isHandlers(t.Args[0].Args[0]) && t.Args[1].Sym == "0" {
			if t.Sym == "==" && taken || t.Sym == "!=" && !taken || t.Sym == ">" && !taken {
				addFlag(s, "empty")
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		op := handlerOp(call)
		if op == "" {
			return
		}
		at := k.pr.at(call)
		com := call.Common()
		r := s.PT(com.Value)
		k.check(r.Has(func(x *Term) bool { e := elemOf(x); return e != nil && e.Has(isHandlers) }), R, construct, at, "the event goes to %s, not to the handler of the iteration (path %s)", short(r), s.Trace())
		k.check(hasFlag(s, "ty="+want[op]), R, construct, at, "%s is called for other events than %s (path %s)", op, want[op], s.Trace())
		k.check(!hasFlag(s, "hit"), R, construct, at, "a handler gets the same event twice (path %s)", s.Trace())
		dropFlag(s, "it")
		addFlag(s, "hit")
		switch op {
		case "OnUpdate":
			k.check(of(s.PT(com.Args[0]), 0) && of(s.PT(com.Args[1]), 1), R, construct, at, "the objects of an update are %s and %s (path %s)", short(s.PT(com.Args[0])), short(s.PT(com.Args[1])), s.Trace())
		default:
			k.check(of(s.PT(com.Args[0]), 1), R, construct, at, "the object of the event is %s (path %s)", short(s.PT(com.Args[0])), s.Trace())
		}
		// a transformed object wherever there is a transform function
		if hasFlag(s, "tr") {
			k.check(isTransform(s.PT(com.Args[len(com.Args)-1-map[bool]int{true: 1}[op == "OnAdd"]])), R, construct, at, "the handler gets the object without the transformation (path %s)", s.Trace())
		}
	}
	rule.AfterCall = func(s *St, call ssa.CallInstruction, nm string) {
		if strings.HasPrefix(nm, "dyn:") && strings.Contains(nm, "transform") {
			addFlag(s, "tr")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		k.check(f["done"] || f["empty"] || f["terr:set"] || f["notobj"], R, construct, k.pr.at(ret), "the dispatch can end before every handler got the event (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(loops > 0, R, construct, k.pr.pos(fn.Pos()), "no loop over the handlers found")
}

// ---------------------------------------------------------------- V03

func hashOf(s string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return strconv.FormatUint(h, 36)
}

func runV03(k *K) {
	const R = "views only"
	n := 0
	for _, fn := range k.cacheRoots() {
		rv := fn.Signature.Recv()
		if rv == nil {
			continue
		}
		switch typeShort(deref(rv.Type())) {
		case "cache.ViewCache", "cache.DelegatingViewCache", "cache.ViewDiscovery":
		default:
			continue
		}
		construct := fnName(fn)
		rule := &Rule{MaxDepth: 6, Flow: true}
		rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			return inCachePkg(callee) && !strings.HasSuffix(callee.Name(), "IsViewKind") && callee.Name() != "TriggerEvent" && !recursive(callee)
		}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			for t.Op == "un" && t.Sym == "!" {
				t, taken = t.Args[0], !taken
			}
			if t.Op == "call" && (strings.HasSuffix(t.Sym, ".IsViewKind") || strings.HasSuffix(t.Sym, ".IsViewListKind")) && taken {
				addFlag(s, "view:"+hashOf(t.Args[len(t.Args)-1].String()))
			}
		}
		rule.Instr = func(s *St, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !strings.HasSuffix(typeShort(mu.Key.Type()), "GroupVersionKind") {
				return
			}
			m := s.PT(mu.Map)
			if m.Op == "alloc" {
				return // a local map
			}
			key := s.PT(mu.Key)
			// moving what is in the map already
			if v := s.PT(mu.Value); v.Op == "slice" && v.Has(func(x *Term) bool { return x.Op == "lookup" && x.Args[0].String() == m.String() }) {
				return
			}
			n++
			k.check(hasFlag(s, "view:"+hashOf(key.String())), R, construct, k.pr.at(in), "a kind that is not known to be a view is added to %s (path %s)", m, s.Trace())
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
	}
	k.check(n >= 5, R, "cache.ViewCache", "", "expected at least 5 insertions, found %d", n)
	k.viewPredicates(R)
}

// viewPredicates: what counts as a view: the suffix of the group and the version.
func (k *K) viewPredicates(R string) {
	ver := k.viewVersion()
	suffix := k.constOf("pkg/api/view/v1alpha1", "GroupSuffix")
	for _, name := range []string{"view/v1alpha1.IsViewGroup", "view/v1alpha1.IsViewKind"} {
		fn := k.fn(name)
		if fn == nil {
			continue
		}
		k.ok(R, name, k.pr.pos(fn.Pos()))
		isGroup := func(t *Term) bool {
			return isParam(t, "arg0") && name == "view/v1alpha1.IsViewGroup" || isField(t, "Group") && t.Has(func(x *Term) bool { return isParam(x, "arg0") })
		}
		isSuffix := func(t *Term) bool {
			return isCallTo(t, "strings.HasSuffix") && isGroup(t.Args[0]) && t.Args[1].Op == "const" && strings.HasSuffix(strings.Trim(t.Args[1].Sym, `"`), strings.Trim(suffix, `"`))
		}
		isVer := func(t *Term) bool {
			return t.Op == "bin" && t.Sym == "==" && (isField(t.Args[0], "Version") && t.Args[1].Sym == ver || isField(t.Args[1], "Version") && t.Args[0].Sym == ver)
		}
		needVer := name == "view/v1alpha1.IsViewKind"
		rule := &Rule{MaxDepth: 5, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool { return true }}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			if boolEdge(s, t, taken, isSuffix, "g") {
				return
			}
			boolEdge(s, t, taken, isVer, "v")
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			t := s.RetPT(ret, 0)
			g := hasFlag(s, "g") || isSuffix(t)
			v := hasFlag(s, "v") || isVer(t) || !needVer
			rv := s.RetVal(ret, 0)
			switch rv {
			case "true":
				k.check(hasFlag(s, "g") && (hasFlag(s, "v") || !needVer), R, name, k.pr.at(ret), "%s accepts what is not a view (path %s)", name, s.Trace())
			case "false":
				k.check(hasFlag(s, "!g") || hasFlag(s, "!v"), R, name, k.pr.at(ret), "%s refuses a view (path %s)", name, s.Trace())
			default:
				k.check(g && v && (isSuffix(t) || isVer(t)), R, name, k.pr.at(ret), "%s returns %s (path %s)", name, short(t), s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, name)
	}
}
