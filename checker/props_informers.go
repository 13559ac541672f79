package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("V08", "event handlers and informers: every path of registering and removing an event handler (initial list, handle, removal), of creating, registering and removing the informers of both view caches, and of shutting a delegating cache down", runV08)
	register("V12", "order of announcements: every path of the operations that change views (the lock held from the change to its last announcement), and of registering a handler (the lock that holds back announcements while the initial list is delivered)", runV12)
}

// lockCall: the call takes (W, R) or releases (-W, -R) a mutex.
func lockCall(nm string) string { return lockOps[nm] }

// heldFlag names a lock in the flags of a path.
func heldFlag(t *Term) string { return "held:" + hashOf(t.String()) }

// trackLocks keeps the flags of the locks held on the path; it reports whether the call is one.
func trackLocks(s *St, call ssa.CallInstruction, nm string, classes map[string]*Term) bool {
	op := lockCall(nm)
	if op == "" {
		return false
	}
	a := callArgs(call.Common())
	t := s.PT(a[0])
	classes[heldFlag(t)] = t
	if op[0] == '-' {
		dropFlag(s, heldFlag(t), heldFlag(t)+":W")
		for f := range parseFlags(s.Auto) {
			if strings.HasSuffix(f, "@"+heldFlag(t)) {
				dropFlag(s, f)
			}
		}
		return true
	}
	addFlag(s, heldFlag(t))
	if op == "W" {
		addFlag(s, heldFlag(t)+":W")
	}
	return true
}

// heldLocks are the locks held on the path.
func heldLocks(s *St, classes map[string]*Term) map[string]*Term {
	out := map[string]*Term{}
	f := parseFlags(s.Auto)
	for h, t := range classes {
		if f[h] {
			out[h] = t
		}
	}
	return out
}

// ---------------------------------------------------------------- V12

func runV12(k *K) {
	const R = "order of announcements"
	t := k.typeIn(cachePkg, "ViewCache")
	store, _, deleg := k.viewCacheFields("ViewCache")
	if !k.check(t != nil && store != "" && deleg != "", R, "cache.ViewCache", "", "the view cache or its fields were not found") {
		return
	}
	var locks []string
	n := 0
	for i := 0; i < t.NumMethods(); i++ {
		fn := k.pr.SSA.FuncValue(t.Method(i))
		if fn == nil || fn.Blocks == nil || !fn.Object().Exported() {
			continue
		}
		construct := fnName(fn)
		classes := map[string]*Term{}
		common := map[string]bool{} // canonical locks held at every change and announcement
		first, changes := true, false
		rule := &Rule{MaxDepth: 6, Flow: true}
		rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			return inCachePkg(callee) && callee.Name() != "TriggerEvent" && !recursive(callee)
		}
		meet := func(h map[string]*Term) {
			c := map[string]bool{}
			for _, t := range h {
				if cn := orderLock(t); cn != "" {
					c[cn] = true
				}
			}
			if first {
				common, first = c, false
				return
			}
			for x := range common {
				if !c[x] {
					delete(common, x)
				}
			}
		}
		rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
			if trackLocks(s, call, nm, classes) {
				return
			}
			at := k.pr.at(call)
			exclusive := func() map[string]*Term {
				h := heldLocks(s, classes)
				for x := range h {
					if !hasFlag(s, x+":W") {
						delete(h, x)
					}
				}
				return h
			}
			switch op := storeOp(call); op {
			case "Add", "Update", "Delete":
				changes = true
				h := exclusive()
				k.check(len(h) > 0, R, construct, at, "the store is changed without a lock that orders the changes: another change of the same object can be announced in between (path %s)", s.Trace())
				meet(h)
				for x := range h {
					addFlag(s, "since@"+x)
				}
				addFlag(s, "changed")
				return
			}
			if !strings.HasSuffix(nm, ".TriggerEvent") || !hasFlag(s, "changed") {
				return
			}
			kept := exclusive()
			for x := range kept {
				if !hasFlag(s, "since@"+x) {
					delete(kept, x)
				}
			}
			k.check(len(kept) > 0, R, construct, at, "a change is announced after the lock that orders the changes was released (path %s)", s.Trace())
			meet(kept)
		}
		rule.Instr = func(s *St, in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok && hasFlag(s, "changed") && strings.HasSuffix(k.R.calleeName(s.Ctx, g.Common()), ".TriggerEvent") {
				k.fail(R, construct, k.pr.at(in), "a change is announced in the background: a later change can overtake it (path %s)", s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		if !changes {
			continue
		}
		n++
		k.done(x, R, construct)
		k.ok(R, construct, k.pr.pos(fn.Pos()))
		var c []string
		for x := range common {
			c = append(c, x)
		}
		if !k.check(len(c) > 0, R, construct, k.pr.pos(fn.Pos()), "no lock of the cache is held at every change and announcement") {
			continue
		}
		if locks == nil {
			locks = c
			continue
		}
		same := false
		for _, x := range c {
			for _, y := range locks {
				same = same || x == y
			}
		}
		k.check(same, R, construct, k.pr.pos(fn.Pos()), "%s orders changes by %s, others by %s", construct, strings.Join(c, " "), strings.Join(locks, " "))
	}
	k.check(n >= 3, R, "cache.ViewCache", k.pr.pos(t.Obj().Pos()), "expected at least 3 operations that change objects, found %d", n)
	k.initialListOrder()
}

// orderLock names the lock independently of the operation that takes it: a lock of the cache, or one
// kept by it per kind. A lock created by the operation itself orders nothing.
func orderLock(t *Term) string {
	switch {
	case isParam(t, "recv"):
		return "recv"
	case t.Op == "field":
		if b := orderLock(t.Args[0]); b != "" {
			return b + "." + t.Sym
		}
	case t.Op == "lookup" || t.Op == "index":
		b := orderLock(t.Args[0])
		if b != "" && t.Args[1].Op == "call" && strings.HasSuffix(t.Args[1].Sym, ".GroupVersionKind") {
			return b + "[kind]"
		}
	case t.Op == "ext" || t.Op == "assert":
		return orderLock(t.Args[0])
	case t.Op == "call" && (strings.HasPrefix(t.Sym, "sync.Map.Load")) && len(t.Args) >= 2:
		if b := orderLock(t.Args[0]); b != "" && t.Args[1].Has(func(x *Term) bool { return x.Op == "call" && strings.HasSuffix(x.Sym, ".GroupVersionKind") }) {
			return b + "[kind]"
		}
	case t.Op == "un" && t.Sym == "&", t.Op == "addr":
		return orderLock(t.Args[0])
	}
	return ""
}

// initialListOrder: while a new handler gets the initial list, events are held back.
func (k *K) initialListOrder() {
	const R = "initial list and events"
	hf := k.handlersField()
	add := k.fn("cache.ViewCacheInformer.AddEventHandler")
	trig := k.fn("cache.ViewCacheInformer.TriggerEvent")
	if add == nil || trig == nil || !k.check(hf != "", R, "cache.ViewCacheInformer", "", "the handlers of the informer were not found") {
		return
	}
	// the locks an announcement holds while it reads and calls the handlers
	var delivering map[string]bool
	classes := map[string]*Term{}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if trackLocks(s, call, nm, classes) || handlerOp(call) == "" {
			return
		}
		h := map[string]bool{}
		for _, t := range heldLocks(s, classes) {
			if c := orderLock(t); c != "" {
				h[c] = true
			}
		}
		if delivering == nil {
			delivering = h
		}
		for c := range delivering {
			if !h[c] {
				delete(delivering, c)
			}
		}
	}
	x := k.explore(rule)
	x.Run(trig, "")
	k.done(x, R, fnName(trig))
	k.ok(R, fnName(trig), k.pr.pos(trig.Pos()))
	construct := fnName(add)
	k.ok(R, construct, k.pr.pos(add.Pos()))
	classes = map[string]*Term{}
	excl := func(s *St) map[string]*Term {
		h := heldLocks(s, classes)
		for f, t := range h {
			if !hasFlag(s, f+":W") || !delivering[orderLock(t)] {
				delete(h, f)
			}
		}
		return h
	}
	rule = &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if trackLocks(s, call, nm, classes) {
			return
		}
		at := k.pr.at(call)
		switch op := storeOp(call); {
		case op == "List":
			for f := range excl(s) {
				addFlag(s, "list"+hashOf(at)+"@"+f)
			}
		case handlerOp(call) == "OnAdd":
			good := false
			for f := range excl(s) {
				s.PT(call.Common().Args[0]).Has(func(x *Term) bool {
					if storeTerm(x) == "List" {
						good = good || hasFlag(s, "list"+hashOf(k.pr.at(x.V.(ssa.Instruction)))+"@"+f)
					}
					return false
				})
			}
			k.check(good, R, construct, at, "the initial list is delivered while events can be announced: an object that is removed in the meantime is reported again after its removal (path %s)", s.Trace())
			addFlag(s, "delivered")
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isField(s.PT(mu.Map), hf) {
			return
		}
		k.check(!hasFlag(s, "missed"), R, construct, k.pr.at(in), "the handler is registered after events were let through again: events in between are lost (path %s)", s.Trace())
		addFlag(s, "registered")
		for f := range excl(s) {
			addFlag(s, "reg@"+f)
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) != "nonnil" {
			k.check(!hasFlag(s, "missed"), R, construct, k.pr.at(ret), "the handler is not registered when events are let through again: events are lost (path %s)", s.Trace())
		}
	}
	// the handler must be in the map before the lock is released, or events between are lost
	old := rule.Call
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if strings.HasPrefix(lockCall(nm), "-W") {
			f := heldFlag(s.PT(callArgs(call.Common())[0]))
			if hasFlag(s, "delivered") {
				if !hasFlag(s, "reg@"+f) {
					addFlag(s, "missed")
				}
			}
		}
		old(s, call, nm)
	}
	x = k.explore(rule)
	x.Run(add, "")
	k.done(x, R, construct)
}

// ---------------------------------------------------------------- V08

func runV08(k *K) {
	k.addHandler()
	k.removeHandler()
	k.informersOf("ViewCache")
	k.informersOf("DelegatingViewCache")
	k.unregisterOne()
	k.shutdown()
}

// addHandler: the handler is registered under the identifier that is returned, and gets all objects.
func (k *K) addHandler() {
	const R = "registration of handlers"
	t := k.typeIn(cachePkg, "ViewCacheInformer")
	hf := k.handlersField()
	fn := k.fn("cache.ViewCacheInformer.AddEventHandler")
	if t == nil || fn == nil || !k.check(hf != "", R, "cache.ViewCacheInformer", "", "the handlers of the informer were not found") {
		return
	}
	cf := structField(t, func(x types.Type) bool { return strings.HasSuffix(typeShort(x), ".Indexer") })
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	entry := k.typeIn(cachePkg, "handlerEntry")
	if !k.check(entry != nil, R, construct, "", "the registration record was not found") {
		return
	}
	ef := structField(entry, func(x types.Type) bool { return strings.HasSuffix(typeShort(x), ".ResourceEventHandler") })
	idf := structField(entry, func(x types.Type) bool {
		b, ok := x.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	})
	isAll := func(t *Term) bool {
		return storeTerm(t) == "List" && isField(t.Args[0], cf) && isParam(t.Args[0].Args[0], "recv")
	}
	isItem := func(t *Term) bool { e := elemOf(t); return e != nil && isAll(e) }
	fresh := func(t *Term) bool {
		return t.Op == "call" && strings.HasPrefix(t.Sym, "atomic.Add") || t.Op == "call" && strings.HasSuffix(t.Sym, ".Add") && strings.HasPrefix(t.Sym, "atomic.")
	}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	loops := 0
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		at := k.pr.pos(condOrBlock(cond.(ssa.Instruction)))
		if over := s.loopOver(cond); over != nil && over.Has(isAll) {
			k.check(!partOf(over, isAll), R, construct, at, "only some of the objects are part of the initial list (path %s)", s.Trace())
			k.check(!hasFlag(s, "it"), R, construct, at, "an object is left out of the initial list (path %s)", s.Trace())
			dropFlag(s, "it", "sent", "terr:set", "terr:nil", "notobj", "foreign")
			if taken {
				addFlag(s, "it")
			} else {
				loops++
				addFlag(s, "done")
			}
			return
		}
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if nilEdge(s, t, taken, func(x *Term) bool { return x.Op == "ext" && x.Sym == "1" && isTransform(x) }, "terr") {
			if hasFlag(s, "terr:set") {
				dropFlag(s, "it")
			}
			return
		}
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && !taken {
			if isTransform(t) {
				addFlag(s, "notobj")
				dropFlag(s, "it")
			} else if t.Has(isItem) {
				addFlag(s, "foreign")
				dropFlag(s, "it")
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		op := handlerOp(call)
		if op == "" {
			return
		}
		at := k.pr.at(call)
		com := call.Common()
		k.check(op == "OnAdd", R, construct, at, "an object of the initial list is reported by %s (path %s)", op, s.Trace())
		h := s.PT(com.Value)
		k.check(isParam(h, "arg0") || isField(h, ef), R, construct, at, "the initial list goes to %s (path %s)", short(h), s.Trace())
		k.check(!hasFlag(s, "sent"), R, construct, at, "an object is part of the initial list twice (path %s)", s.Trace())
		if op == "OnAdd" {
			k.check(s.PT(com.Args[0]).Has(isItem), R, construct, at, "the initial list contains %s (path %s)", short(s.PT(com.Args[0])), s.Trace())
			k.check(s.PT(com.Args[1]).Sym == "true", R, construct, at, "an object of the initial list is reported as new (path %s)", s.Trace())
			if hasFlag(s, "terr:nil") {
				k.check(isTransform(s.PT(com.Args[0])), R, construct, at, "the handler gets the object without the transformation (path %s)", s.Trace())
			}
		}
		dropFlag(s, "it")
		addFlag(s, "sent")
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isField(s.PT(mu.Map), hf) {
			return
		}
		at := k.pr.at(in)
		m := k.literal(s, mu.Value)
		k.check(isParam(s.PT(mu.Map).Args[0], "recv"), R, construct, at, "the handler is registered with %s (path %s)", short(s.PT(mu.Map)), s.Trace())
		k.check(isParam(k.lit(s, m, ef), "arg0"), R, construct, at, "the handler registered is %s (path %s)", short(k.lit(s, m, ef)), s.Trace())
		id := s.PT(mu.Key)
		k.check(fresh(id), R, construct, at, "the identifier of the handler is %s, not a fresh one (path %s)", short(id), s.Trace())
		k.check(k.lit(s, m, idf).String() == id.String(), R, construct, at, "the handler is registered under another identifier than it gets (path %s)", s.Trace())
		addFlag(s, "reg:"+hashOf(id.String()))
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		k.check(!f["foreign"], R, construct, at, "an object of the initial list is passed over (path %s)", s.Trace())
		k.check(f["done"], R, construct, at, "the handler may not get the whole initial list (path %s)", s.Trace())
		m := k.literal(s, s.retVal(ret, 0))
		id := k.lit(s, m, idf)
		k.check(f["reg:"+hashOf(id.String())], R, construct, at, "the handle returned is not that of the registered handler: %s (path %s)", short(id), s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(loops > 0, R, construct, k.pr.pos(fn.Pos()), "no loop over the objects of the store found")
	// the variants
	for i := 0; i < t.NumMethods(); i++ {
		g := k.pr.SSA.FuncValue(t.Method(i))
		if g == nil || g.Blocks == nil || g == fn || !strings.HasPrefix(g.Name(), "AddEventHandler") {
			continue
		}
		name := fnName(g)
		k.ok(R, name, k.pr.pos(g.Pos()))
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		is := func(t *Term) bool {
			return t.Op == "call" && strings.HasPrefix(t.Sym[strings.LastIndexByte(t.Sym, '.')+1:], "AddEventHandler") && len(t.Args) >= 2 && isParam(t.Args[0], "recv") && isParam(t.Args[1], "arg0")
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			for i := range ret.Results {
				t := s.RetPT(ret, i)
				if t.Op == "ext" {
					t = t.Args[0]
				}
				k.check(is(t), R, name, k.pr.at(ret), "the handler is not registered: %s (path %s)", short(t), s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(g, "")
		k.done(x, R, name)
	}
}

// removeHandler: exactly the handler of the handle is removed.
func (k *K) removeHandler() {
	const R = "removal of handlers"
	hf := k.handlersField()
	fn := k.fn("cache.ViewCacheInformer.RemoveEventHandler")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm != "builtin.delete" && nm != "builtin.clear" && !strings.HasPrefix(nm, "maps.") {
			return
		}
		a := call.Common().Args
		if !isField(s.PT(a[0]), hf) {
			return
		}
		at := k.pr.at(call)
		good := nm == "builtin.delete" && isParam(s.PT(a[0]).Args[0], "recv")
		if good {
			t := s.PT(a[1])
			good = t.Op == "field" && t.Args[0].Has(func(x *Term) bool { return isParam(x, "arg0") })
		}
		k.check(good, R, construct, at, "the handler removed is not that of the handle (path %s)", s.Trace())
		addFlag(s, "removed")
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) != "nonnil" {
			k.check(hasFlag(s, "removed"), R, construct, k.pr.at(ret), "the handler stays registered (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// informersOf: how a cache hands out, creates and removes its informers.
func (k *K) informersOf(typ string) {
	const R = "informers"
	t := k.typeIn(cachePkg, typ)
	store, own, _ := k.viewCacheFields(typ)
	if !k.check(t != nil && own != "", R, "cache."+typ, "", "the cache or its informers were not found") {
		return
	}
	delegating := store == ""
	recvField := func(t *Term, f string) bool { return isField(t, f) && isParam(t.Args[0], "recv") }
	isKind := func(t *Term) bool {
		return t.Op == "param" && t.Sym != "recv" || t.Op == "call" && strings.HasSuffix(t.Sym, ".GroupVersionKind") && t.Has(func(x *Term) bool { return x.Op == "param" && x.Sym != "recv" })
	}
	isOwn := func(t *Term) bool {
		if t.Op == "ext" && t.Sym == "0" {
			t = t.Args[0]
		}
		return t.Op == "lookup" && recvField(t.Args[0], own) && isKind(t.Args[1])
	}
	isNew := func(t *Term) bool { return isCallTo(t, "cache.NewViewCacheInformer") }
	gets, inserts, removes := 0, 0, 0
	for i := 0; i < t.NumMethods(); i++ {
		fn := k.pr.SSA.FuncValue(t.Method(i))
		if fn == nil || fn.Blocks == nil || !fn.Object().Exported() || fn.Name() == "Start" {
			continue
		}
		construct := fnName(fn)
		seen := false
		rule := &Rule{MaxDepth: 6, Flow: true}
		rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			if !inCachePkg(callee) || recursive(callee) {
				return false
			}
			return helperInline(s, call, callee) || callee.Signature.Recv() != nil && isParam(s.PT(call.Common().Args[0]), "recv") && s.Ctx.fn.Signature.Recv() != nil && strings.HasPrefix(callee.Name(), "RegisterInformer")
		}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			for t.Op == "un" && t.Sym == "!" {
				t, taken = t.Args[0], !taken
			}
			if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "lookup" && recvField(t.Args[0].Args[0], own) {
				dropFlag(s, "there", "absent")
				if taken {
					addFlag(s, "there")
				} else {
					addFlag(s, "absent")
					if in, ok := t.Args[0].V.(ssa.Instruction); ok {
						addFlag(s, "miss:"+hashOf(k.pr.at(in)))
					}
				}
				return
			}
			nilEdge(s, t, taken, func(x *Term) bool {
				return isErrTerm(x) && x.Has(func(y *Term) bool { return y.Op == "call" && strings.HasSuffix(y.Sym, "DelegatingInformer") })
			}, "regerr")
		}
		rule.Instr = func(s *St, in ssa.Instruction) {
			if l, ok := in.(*ssa.Lookup); ok && recvField(s.PT(l.X), own) {
				dropFlag(s, "miss:"+hashOf(k.pr.at(in)))
				addFlag(s, "look:"+hashOf(k.pr.at(in)))
			}
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !recvField(s.PT(mu.Map), own) {
				return
			}
			seen = true
			missing := false // looked up under the lock that is still held, and not there
			for f := range parseFlags(s.Auto) {
				if h, ok := strings.CutPrefix(f, "look:"); ok && hasFlag(s, "miss:"+h) {
					missing = true
				}
			}
			inserts++
			at := k.pr.at(in)
			key, v := s.PT(mu.Key), s.PT(mu.Value)
			k.check(isKind(key), R, construct, at, "an informer is added for %s (path %s)", short(key), s.Trace())
			k.check(missing, R, construct, at, "an informer that may be in use already is replaced: its handlers lose their events (path %s)", s.Trace())
			if k.check(isNew(v) && len(v.Args) >= 2, R, construct, at, "the informer added is %s (path %s)", short(v), s.Trace()) {
				k.check(v.Args[0].String() == key.String(), R, construct, at, "the informer is made for another kind than it is added for (path %s)", s.Trace())
				idx := v.Args[1]
				if idx.Op == "ext" && idx.Sym == "0" {
					idx = idx.Args[0]
				}
				good := idx.Op == "call" && strings.HasSuffix(idx.Sym, "ViewCache.GetCacheForKind") && idx.Args[len(idx.Args)-1].String() == key.String() ||
					idx.Op == "lookup" && recvField(idx.Args[0], store) && idx.Args[1].String() == key.String()
				k.check(good, R, construct, at, "the informer reads the store %s, not that of its kind (path %s)", short(idx), s.Trace())
				if delegating && idx.Op == "call" {
					k.check(idx.Args[0].Op == "field" && isParam(idx.Args[0].Args[0], "recv"), R, construct, at, "the informer does not read the shared store (path %s)", s.Trace())
				}
			}
			addFlag(s, "added", "new:"+hashOf(v.String())+hashOf(key.String()))
		}
		rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
			at := k.pr.at(call)
			a := callArgs(call.Common())
			switch {
			case strings.HasPrefix(lockCall(nm), "-"):
				for f := range parseFlags(s.Auto) {
					if strings.HasPrefix(f, "look:") {
						dropFlag(s, f) // somebody else may add it now
					}
				}
			case nm == "builtin.delete" && recvField(s.PT(a[0]), own):
				seen = true
				removes++
				k.check(isKind(s.PT(a[1])), R, construct, at, "the informer of another kind is removed (path %s)", s.Trace())
				addFlag(s, "removed:"+hashOf(s.PT(a[1]).String()), "removed")
			case strings.HasSuffix(nm, ".UnregisterDelegatingInformer") && delegating:
				inf := s.PT(a[2])
				k.check(isOwn(inf) && isKind(s.PT(a[1])), R, construct, at, "the informer unregistered is %s (path %s)", short(inf), s.Trace())
				addFlag(s, "unregistered")
			case strings.HasSuffix(nm, ".RegisterDelegatingInformer") && delegating:
				k.check(isField(s.PT(a[0]), s.PT(a[0]).Sym) && isParam(s.PT(a[0]).Args[0], "recv"), R, construct, at, "the informer is registered with %s (path %s)", short(s.PT(a[0])), s.Trace())
				addFlag(s, "registered:"+hashOf(s.PT(a[2]).String())+hashOf(s.PT(a[1]).String()), "registered")
			}
		}
		getter := fn.Name() == "GetInformerForKind" || fn.Name() == "GetInformer"
		rule.Exit = func(s *St, ret *ssa.Return) {
			at := k.pr.at(ret)
			f := parseFlags(s.Auto)
			if errResult(fn.Signature) >= 0 && s.RetVal(ret, -1) == "nonnil" {
				return
			}
			if delegating {
				for x := range f {
					if h, ok := strings.CutPrefix(x, "new:"); ok {
						k.check(f["registered:"+h], R, construct, at, "a new informer is not registered with the shared store: it gets no events (path %s)", s.Trace())
					}
				}
				if f["removed"] && !f["absent"] {
					k.check(f["unregistered"], R, construct, at, "a removed informer stays registered with the shared store (path %s)", s.Trace())
				}
			}
			if getter {
				gets++
				seen = true
				v := s.RetPT(ret, 0)
				if v.Op == "ext" && v.Sym == "0" && v.Args[0].Op == "call" {
					v = v.Args[0]
				}
				fwd := v.Op == "call" && strings.HasSuffix(v.Sym, ".GetInformerForKind") && isParam(v.Args[0], "recv") && isKind(v.Args[2])
				k.check(fwd || isOwn(v) && f["there"] || isNew(v) && f["added"], R, construct, at, "the informer handed out is %s (path %s)", short(v), s.Trace())
			}
			if fn.Name() == "RemoveInformer" {
				k.check(f["removed"] || f["absent"], R, construct, at, "the informer is not removed (path %s)", s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		if seen {
			k.done(x, R, construct)
			k.ok(R, construct, k.pr.pos(fn.Pos()))
		}
	}
	k.check(gets >= 2 && inserts >= 1 && removes >= 1, R, "cache."+typ, k.pr.pos(t.Obj().Pos()), "the operations on informers were not found (%d %d %d)", gets, inserts, removes)
}

// unregisterOne: registering adds one informer to those of its kind, unregistering removes only that.
func (k *K) unregisterOne() {
	const R = "delegating informers"
	_, _, deleg := k.viewCacheFields("ViewCache")
	for _, name := range []string{"RegisterDelegatingInformer", "UnregisterDelegatingInformer"} {
		fn := k.fn("cache.ViewCache." + name)
		if fn == nil {
			continue
		}
		construct := fnName(fn)
		k.ok(R, construct, k.pr.pos(fn.Pos()))
		isList := func(t *Term) bool {
			return t.Op == "lookup" && isField(t.Args[0], deleg) && isParam(t.Args[0].Args[0], "recv") && isParam(t.Args[1], "arg0")
		}
		isElem := func(t *Term) bool { return t.Op == "index" && isList(t.Args[0]) }
		rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			if over := s.loopOver(cond); over != nil && over.Has(isList) {
				if partOf(over, isList) {
					k.fail(R, construct, k.pr.pos(condOrBlock(cond.(ssa.Instruction))), "only some of the informers are looked at (path %s)", s.Trace())
				}
				if hasFlag(s, "it") && !hasFlag(s, "kept") && !hasFlag(s, "found") {
					addFlag(s, "dropped")
				}
				dropFlag(s, "found", "other", "kept", "it")
				if taken {
					addFlag(s, "it")
				} else {
					addFlag(s, "absent", "all")
				}
				return
			}
			t := s.condPT(cond)
			for t.Op == "un" && t.Sym == "!" {
				t, taken = t.Args[0], !taken
			}
			if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && (isParam(t.Args[1], "arg1") && isElem(t.Args[0]) || isParam(t.Args[0], "arg1") && isElem(t.Args[1])) {
				if (t.Sym == "==") == taken {
					addFlag(s, "found")
				} else {
					addFlag(s, "other")
				}
			}
			if t.Op == "bin" && (t.Sym == "<" && t.Args[1].Sym == "0" || t.Sym == ">=" && t.Args[1].Sym == "0") && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Sym, "slices.Index") && isList(t.Args[0].Args[0]) {
				if (t.Sym == ">=") == taken {
					addFlag(s, "found")
				} else {
					addFlag(s, "absent")
				}
			}
		}
		lastOf := func(s *St, v ssa.Value) bool {
			c, w := s.Root(v)
			u, ok := w.(*ssa.UnOp)
			if !ok {
				return false
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			return ok && isList(s.PTIn(c, ia.X)) && lenMinus1(s.PTIn(c, ia.Index), isList)
		}
		rule.Instr = func(s *St, in ssa.Instruction) {
			at := k.pr.at(in)
			switch y := in.(type) {
			case *ssa.Store:
				ia, ok := y.Addr.(*ssa.IndexAddr)
				if !ok || !isList(s.PT(ia.X)) {
					return
				}
				v := s.PT(y.Val)
				switch {
				case isNil(v) && hasFlag(s, "moved"):
				case lastOf(s, y.Val):
					k.check(hasFlag(s, "found"), R, construct, at, "an informer other than the given one is replaced (path %s)", s.Trace())
					addFlag(s, "moved")
				default:
					k.fail(R, construct, at, "undecided: %s is stored in the list of informers (path %s)", short(v), s.Trace())
				}
			case *ssa.MapUpdate:
				m := s.PT(y.Map)
				if !isField(m, deleg) || !isParam(m.Args[0], "recv") {
					return
				}
				k.check(isParam(s.PT(y.Key), "arg0"), R, construct, at, "the informers of %s are changed (path %s)", short(s.PT(y.Key)), s.Trace())
				k.listChange(R, construct, at, s, name, y, isList)
			}
		}
		rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
			if nm == "builtin.append" {
				if e := k.sliceElems(s.Ctx, call.Common().Args[1]); len(e) == 1 && isElem(s.PTIn(e[0].c, e[0].v)) {
					addFlag(s, "kept")
					if !hasFlag(s, "other") {
						addFlag(s, "leftin")
					}
				}
			}
			if nm == "builtin.delete" && isField(s.PT(call.Common().Args[0]), deleg) {
				k.fail(R, construct, k.pr.at(call), "all informers of the kind are removed (path %s)", s.Trace())
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			f := parseFlags(s.Auto)
			if s.RetVal(ret, -1) == "nonnil" {
				return
			}
			if name[0] == 'R' {
				k.check(f["added"], R, construct, k.pr.at(ret), "the informer is not registered (path %s)", s.Trace())
			} else {
				k.check(f["cut"] || f["absent"], R, construct, k.pr.at(ret), "the informer stays registered (path %s)", s.Trace())
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
	}
}

func (k *K) listChange(R, construct, at string, s *St, name string, y *ssa.MapUpdate, isList func(*Term) bool) {
	c, w := s.Root(y.Value)
	v := s.PT(y.Value)
	if name[0] == 'R' {
		call, ok := w.(*ssa.Call)
		good := ok && calleeName(call.Common()) == "builtin.append" && isList(s.PTIn(c, call.Common().Args[0]))
		if good {
			e := k.sliceElems(c, call.Common().Args[1])
			good = len(e) == 1 && isParam(s.PTIn(e[0].c, e[0].v), "arg1")
		}
		k.check(good, R, construct, at, "the informers become %s (path %s)", short(v), s.Trace())
		addFlag(s, "added")
		return
	}
	switch x := w.(type) {
	case *ssa.Slice: // x[:len-1] after the last was moved into the place of the given one
		k.check(isList(s.PTIn(c, x.X)) && x.Low == nil && x.High != nil && lenMinus1(s.PTIn(c, x.High), isList) && hasFlag(s, "moved"), R, construct, at, "the informers become %s: another one than the given one is dropped (path %s)", short(v), s.Trace())
		addFlag(s, "cut")
	case *ssa.MakeSlice: // to be filled by a loop that keeps the others: none was left
		k.filtered(R, construct, at, s)
	case *ssa.Call:
		nm := calleeName(x.Common())
		a := x.Common().Args
		switch {
		case nm == "slices.Delete" && isList(s.PTIn(c, a[0])):
			k.check(hasFlag(s, "found"), R, construct, at, "an informer other than the given one is removed (path %s)", s.Trace())
			lo, hi := s.PTIn(c, a[1]).String(), s.PTIn(c, a[2]).String()
			k.check(strings.Contains(hi, lo) && strings.HasSuffix(strings.TrimRight(hi, ")"), "1"), R, construct, at, "more than the given informer is removed (path %s)", s.Trace())
		case nm == "slices.DeleteFunc" && isList(s.PTIn(c, a[0])):
			k.check(k.equalTo(s, c, a[1], "arg1"), R, construct, at, "not exactly the given informer is removed (path %s)", s.Trace())
		case nm == "builtin.append" && len(k.sliceElems(c, a[1])) == 1:
			k.filtered(R, construct, at, s)
		case nm == "builtin.append":
			k.check(hasFlag(s, "found"), R, construct, at, "an informer other than the given one is removed (path %s)", s.Trace())
			f, _ := stripSlice(a[0])
			r, _ := stripSlice(a[1])
			good := f != nil && r != nil && isList(s.PTIn(c, f.X)) && isList(s.PTIn(c, r.X)) && f.High != nil && r.Low != nil && r.High == nil && f.Low == nil
			if good {
				lo, hi := s.PTIn(c, f.High).String(), s.PTIn(c, r.Low).String()
				good = strings.Contains(hi, lo) && strings.HasSuffix(strings.TrimRight(hi, ")"), "1")
			}
			k.check(good, R, construct, at, "the informers become %s (path %s)", short(v), s.Trace())
		default:
			k.fail(R, construct, at, "undecided: the informers become %s (path %s)", short(v), s.Trace())
		}
		addFlag(s, "cut")
	default:
		if k.accumulated(c, w, map[ssa.Value]bool{}) {
			k.filtered(R, construct, at, s)
			return
		}
		k.fail(R, construct, at, "undecided: the informers become %s (path %s)", short(v), s.Trace())
	}
}

// accumulated: the slice starts empty and grows by one element at a time.
func (k *K) accumulated(c *Ctx, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !k.accumulated(c, e, seen) {
				return false
			}
		}
		return true
	case *ssa.MakeSlice:
		l, ok := x.Len.(*ssa.Const)
		return ok && l.Int64() == 0
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice: // make with constant bounds
		if a, ok := x.X.(*ssa.Alloc); ok && a.Comment == "makeslice" {
			l, ok := x.High.(*ssa.Const)
			return ok && l.Int64() == 0
		}
	case *ssa.Call:
		return calleeName(x.Common()) == "builtin.append" && len(k.sliceElems(c, x.Common().Args[1])) == 1 && k.accumulated(c, x.Common().Args[0], seen)
	}
	return false
}

// filtered: the list was made by a loop that keeps all informers but the given one.
func (k *K) filtered(R, construct, at string, s *St) {
	f := parseFlags(s.Auto)
	k.check(f["all"] && !f["dropped"], R, construct, at, "other informers than the given one are removed (path %s)", s.Trace())
	k.check(!f["leftin"], R, construct, at, "the informer stays registered (path %s)", s.Trace())
	addFlag(s, "cut")
}

// lenMinus1: t is the length of the list minus one.
func lenMinus1(t *Term, isList func(*Term) bool) bool {
	return t.Op == "bin" && t.Sym == "-" && t.Args[1].Sym == "1" && isCallTo(t.Args[0], "builtin.len") && isList(t.Args[0].Args[0])
}

func stripSlice(v ssa.Value) (*ssa.Slice, bool) {
	s, ok := v.(*ssa.Slice)
	return s, ok
}

// equalTo: the function value says whether its argument is the parameter of the function explored.
func (k *K) equalTo(s *St, c *Ctx, v ssa.Value, param string) bool {
	tg := k.R.funcValue(c, v)
	if tg == nil || tg.fn == nil || tg.fn.Blocks == nil {
		return false
	}
	good := true
	rule := &Rule{MaxDepth: 3, Flow: true, Inline: helperInline}
	rule.Exit = func(s2 *St, ret *ssa.Return) {
		t := s2.RetPT(ret, 0)
		g := t.Op == "bin" && t.Sym == "==" && len(tg.fn.Params) == 1
		if g {
			p := k.R.T(s2.Ctx, tg.fn.Params[0]).String()
			l, r := t.Args[0], t.Args[1]
			isP := func(x *Term) bool {
				return x.Op == "param" && x.Sym == param && x.String() != p || x.Op == "fv" || x.Op == "param" && x.Ctx != nil && x.Ctx.fn != tg.fn
			}
			g = l.String() == p && isP(r) || r.String() == p && isP(l)
		}
		good = good && g
	}
	x := k.explore(rule)
	x.RunCtx(k.R.ctx(c, nil, nil, tg.fn, tg.mc, tg.mcCtx), "")
	return good
}

// shutdown: a delegating cache that stops takes all its informers from the shared store.
func (k *K) shutdown() {
	const R = "shutdown"
	fn := k.fn("cache.DelegatingViewCache.Start")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	_, own, _ := k.viewCacheFields("DelegatingViewCache")
	isOwn := func(t *Term) bool { return isField(t, own) && isParam(t.Args[0], "recv") }
	copied := map[string]bool{}
	over := func(t *Term) bool {
		return isOwn(t) || t.Op == "alloc" && copied[t.String()] || isCallTo(t, "maps.Clone") && isOwn(t.Args[0])
	}
	// a copy of the informers: filled by a loop over them
	scan := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	scan.Instr = func(s *St, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		m := s.PT(mu.Map)
		if m.Op != "alloc" && m.Op != "makemap" && m.Op != "make" {
			return
		}
		v := s.PT(mu.Value)
		e := elemOf(v)
		if e != nil && isOwn(e) {
			copied[m.String()] = true
		}
	}
	x := k.explore(scan)
	x.Run(fn, "")
	k.done(x, R, construct)
	if len(copied) > 0 {
		checkLoops(k, fn, &loopSpec{rule: R, min: 1, flow: true, what: "noting the informer", over: isOwn,
			at: k.loopHas(func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok }),
			instr: func(s *St, in ssa.Instruction) bool {
				mu, ok := in.(*ssa.MapUpdate)
				return ok && copied[s.PT(mu.Map).String()] && elemOf(s.PT(mu.Value)) != nil && isOwn(elemOf(s.PT(mu.Value)))
			}})
	}
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, flow: true, what: "unregistering the informer", over: func(t *Term) bool { return t.Has(over) },
		at: k.loopCalls(func(n string) bool { return strings.HasSuffix(n, ".UnregisterDelegatingInformer") }),
		action: func(s *St, call ssa.CallInstruction, nm string) bool {
			if !strings.HasSuffix(nm, ".UnregisterDelegatingInformer") {
				return false
			}
			a := callArgs(call.Common())
			inf, key := s.PT(a[2]), s.PT(a[1])
			e := elemOf(inf)
			return e != nil && e.Has(over) && (key.Op == "rangekey" || key.Has(over))
		}})
	done := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Sym, "Context.Done") && isParam(t.Args[0], "arg0")
	}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Instr = func(s *St, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.UnOp:
			if y.Op.String() == "<-" && done(s.PT(y.X)) {
				addFlag(s, "stopped")
			}
		case *ssa.Select:
			for _, st := range y.States {
				if done(s.PT(st.Chan)) {
					addFlag(s, "stopped")
				}
			}
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		o := s.loopOver(cond)
		if o != nil && o.Has(over) && hasFlag(s, "stopped") && k.loopCalls(func(n string) bool { return strings.HasSuffix(n, ".UnregisterDelegatingInformer") })(cond.(ssa.Instruction).Block()) && !taken {
			addFlag(s, "all")
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if strings.HasSuffix(nm, ".UnregisterDelegatingInformer") {
			k.check(hasFlag(s, "stopped"), R, construct, k.pr.at(call), "an informer is unregistered while the cache is running (path %s)", s.Trace())
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		k.check(hasFlag(s, "stopped"), R, construct, k.pr.at(ret), "the cache stops by itself (path %s)", s.Trace())
		k.check(hasFlag(s, "all"), R, construct, k.pr.at(ret), "the informers of a stopped cache stay registered (path %s)", s.Trace())
	}
	x = k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// loopHas: the loop of this header contains such an instruction.
func (k *K) loopHas(is func(ssa.Instruction) bool) func(b *ssa.BasicBlock) bool {
	return func(b *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{b: true}
		var walk func(x *ssa.BasicBlock) bool
		reach := func(x *ssa.BasicBlock) bool { // x can get back to the header
			vis := map[*ssa.BasicBlock]bool{}
			var r func(y *ssa.BasicBlock) bool
			r = func(y *ssa.BasicBlock) bool {
				if y == b {
					return true
				}
				if vis[y] {
					return false
				}
				vis[y] = true
				for _, n := range y.Succs {
					if r(n) {
						return true
					}
				}
				return false
			}
			for _, n := range x.Succs {
				if r(n) {
					return true
				}
			}
			return false
		}
		walk = func(x *ssa.BasicBlock) bool {
			if seen[x] || !reach(x) {
				return false
			}
			seen[x] = true
			for _, in := range x.Instrs {
				if is(in) {
					return true
				}
			}
			for _, n := range x.Succs {
				if walk(n) {
					return true
				}
			}
			return false
		}
		for _, n := range b.Succs {
			if walk(n) {
				return true
			}
		}
		return false
	}
}
