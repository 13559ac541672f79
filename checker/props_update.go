package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reenter runs the function the state is in once more, from its entry, with what is known about the
// variables outside it (a callback that is called repeatedly).
func (s *St) reenter(mark string) {
	t := s.clone()
	for k := range t.env {
		if k.ctx == t.Ctx.id {
			delete(t.env, k)
		}
	}
	addFlag(t, mark)
	t.Pred, t.Idx, t.Block = nil, 0, t.Ctx.fn.Blocks[0]
	for t.defers != nil && t.defers.ctx == t.Ctx {
		t.defers = t.defers.prev
	}
	s.x.push(t)
}

func clientOp(nm string) string {
	for _, p := range []string{"client.Client.", "client.Writer.", "client.Reader."} {
		if m, ok := strings.CutPrefix(nm, p); ok {
			return m
		}
	}
	for _, p := range []string{"client.StatusWriter.", "client.SubResourceWriter.", "client.SubResourceClient."} {
		if m, ok := strings.CutPrefix(nm, p); ok {
			return "Status." + m
		}
	}
	return ""
}

type writeHelper struct {
	k         *K
	rule      string
	construct string
	obj       func(*Term) bool
	fn        func(*Term) bool // the mutate function, nil if there is none
	retry     bool
}

func runR06(k *K) {
	const R = "write helpers"
	if fn := k.fn("reconciler.CreateOrUpdate"); fn != nil {
		h := &writeHelper{k: k, rule: R, construct: fnName(fn), obj: func(t *Term) bool { return isParam(t, "arg2") }, fn: func(t *Term) bool { return isParam(t, "arg3") }}
		h.run(fn)
	}
	if fn := k.fn("reconciler.Update"); fn != nil {
		h := &writeHelper{k: k, rule: R, construct: fnName(fn), obj: func(t *Term) bool { return isParam(t, "arg2") }, retry: true}
		h.run(fn)
	}
}

func (h *writeHelper) run(fn *ssa.Function) {
	k, R, construct := h.k, h.rule, h.construct
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	retries := 0
	var retryFn []*Ctx
	isStatus := func(t *Term) bool { return t.Op == "const" && t.Sym == `"status"` }
	// path arguments of the nested field helpers
	path := func(s *St, v ssa.Value) bool {
		c, w := s.Root(v)
		es := k.sliceElems(c, w)
		return len(es) == 1 && es[0].v != nil && isStatus(k.R.T(es[0].c, es[0].v))
	}
	content := func(t *Term) bool { return isContent(t, h.obj) }
	isSaved := func(t *Term) bool {
		e := extOf(t, 0, "unstructured.NestedMap", "unstructured.NestedFieldCopy", "unstructured.NestedFieldNoCopy")
		return e != nil
	}
	from := func(t *Term, ops ...string) bool {
		if t.Op != "call" {
			return false
		}
		for _, o := range ops {
			if clientOp(t.Sym) == o {
				return true
			}
		}
		return false
	}
	rule := &Rule{MaxDepth: 5, Flow: true}
	rule.Inline = helperInline
	var updates, creates int
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		args := callArgs(call.Common())
		at := k.pr.at(call)
		op := clientOp(nm)
		if strings.HasPrefix(nm, "retry.") {
			retries++
			k.check(nm == "retry.RetryOnConflict", R, construct, at, "the write is repeated on errors other than conflicts: %s", nm)
			return
		}
		// the mutate function
		if h.fn != nil && !call.Common().IsInvoke() && call.Common().StaticCallee() == nil && h.fn(s.PT(call.Common().Value)) {
			addFlag(s, "mut")
			dropFlag(s, "key")
			dropFlag(s, "saved")
			return
		}
		switch {
		case op == "Get":
			if h.obj(s.PT(args[3])) {
				key := s.PT(args[2])
				k.check(isCallTo(key, "client.ObjectKeyFromObject") && h.obj(key.Args[0]), R, construct, at, "another object is read: %s", key)
				dropFlag(s, "mut")
				dropFlag(s, "key")
				addFlag(s, "got")
			} else {
				// the latest version for a retry
				o := s.id(args[3])
				key := s.PT(args[2])
				k.check(isCallTo(key, "client.ObjectKeyFromObject") && h.obj(key.Args[0]), R, construct, at, "the latest version of another object is read: %s", key)
				k.check(hasFlag(s, "lgvk:"+o), R, construct, at, "the latest version is read as another kind (path %s)", s.Trace())
				addFlag(s, "latest:"+o)
			}
		case strings.HasSuffix(nm, ".SetGroupVersionKind"):
			if !h.obj(s.PT(args[0])) && method1(s.PT(args[1]), "GroupVersionKind", h.obj) {
				addFlag(s, "lgvk:"+s.id(args[0]))
			}
		case strings.HasSuffix(nm, ".SetResourceVersion"):
			if !h.obj(s.PT(args[0])) {
				return
			}
			k.check(hasFlag(s, "iter2"), R, construct, at, "the first attempt overrides the resource version of the object: concurrent changes would be overwritten (path %s)", s.Trace())
			v := s.PT(args[1])
			k.check(method1(v, "GetResourceVersion", func(x *Term) bool { return hasFlag(s, "latest:"+s.termID(x)) }), R, construct, at, "a retry must use the resource version of the latest object, uses %s (path %s)", v, s.Trace())
			addFlag(s, "rv")
		case nm == "unstructured.NestedMap" || strings.HasPrefix(nm, "unstructured.NestedField"):
			if content(s.PT(args[0])) && path(s, args[1]) {
				k.check(!hasFlag(s, "updated"), R, construct, at, "the status is saved after the update, which clears it (path %s)", s.Trace())
				addFlag(s, "saved")
			}
		case nm == "unstructured.SetNestedMap" || nm == "unstructured.SetNestedField":
			if content(s.PT(args[0])) && path(s, args[2]) {
				v := s.PT(args[1])
				k.check(isSaved(v), R, construct, at, "the status written must be the one saved before the update, is %s", v)
				addFlag(s, "restored")
			}
		case op == "Create":
			creates++
			k.check(h.obj(s.PT(args[2])), R, construct, at, "another object is created: %s", s.PT(args[2]))
			k.check(hasFlag(s, "absent"), R, construct, at, "an object is created without knowing that it does not exist (path %s)", s.Trace())
			h.mutated(s, call, "created")
		case op == "Update":
			updates++
			k.check(h.obj(s.PT(args[2])), R, construct, at, "another object is updated: %s", s.PT(args[2]))
			h.mutated(s, call, "updated")
			k.check(hasFlag(s, "saved"), R, construct, at, "the status is not saved before the update, which clears it (path %s)", s.Trace())
			if h.retry {
				k.check(retries > 0, R, construct, at, "the update is not repeated on conflicts")
			}
			if hasFlag(s, "iter2") {
				k.check(hasFlag(s, "rv"), R, construct, at, "the update is repeated with a stale resource version: it conflicts again (path %s)", s.Trace())
			}
			addFlag(s, "updated")
			dropFlag(s, "restored")
		case op == "Status.Update":
			k.check(h.obj(s.PT(args[2])), R, construct, at, "the status of another object is updated: %s", s.PT(args[2]))
			k.check(hasFlag(s, "restored"), R, construct, at, "the status is written without restoring it after the update (path %s)", s.Trace())
			addFlag(s, "status")
		case op != "" && op != "Status" && op != "Scheme" && op != "RESTMapper":
			k.fail(R, construct, at, "unexpected operation %s", nm)
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		switch {
		case isCallTo(t, "errors.IsNotFound") && from(t.Args[0], "Get"):
			if taken {
				addFlag(s, "absent")
			} else {
				addFlag(s, "E")
			}
		case isCallTo(t, "errors.IsNotFound") && from(t.Args[0], "Update"):
			if taken {
				addFlag(s, "unf")
			}
		case t.Op == "call" && (strings.HasSuffix(t.Sym, ".IsViewKind") || strings.HasSuffix(t.Sym, ".isViewObject")):
			if taken {
				addFlag(s, "view")
			}
		case t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Sym, "unstructured.Nested"):
			if !taken {
				addFlag(s, "nostatus")
			}
		case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!="):
			if x, eq, ok := eqConst(t, "nil", taken); ok {
				if from(x, "Create") {
					if eq {
						addFlag(s, "created")
						dropFlag(s, "cfail")
					} else {
						addFlag(s, "cfail")
					}
				}
				if isCallTo(x, "unstructured.SetNestedMap", "unstructured.SetNestedField") && !eq {
					addFlag(s, "nostatus")
				}
				return
			}
			a, b := t.Args[0], t.Args[1]
			isKey := func(x *Term) bool { return isCallTo(x, "client.ObjectKeyFromObject") && h.obj(x.Args[0]) }
			if isKey(a) && isKey(b) && (t.Sym == "==") == taken {
				addFlag(s, "key")
			}
		}
	}
	rule.Leave = func(s *St, ret *ssa.Return) {
		site := s.Ctx.site
		if site == nil || len(ret.Results) != 1 {
			return
		}
		if n := k.R.calleeName(s.Ctx.parent, site.Common()); strings.HasPrefix(n, "retry.") {
			retryFn = append(retryFn, s.Ctx)
			if s.RetVal(ret, -1) != "nil" && !hasFlag(s, "iter2") && hasFlag(s, "updated") {
				s.reenter("iter2")
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		ev := s.RetVal(ret, -1)
		et := s.RetPT(ret, -1)
		at := k.pr.at(ret)
		if ev == "nonnil" || ev == "" && from(et, "Create", "Update", "Status.Update", "Get") {
			if f["cfail"] && f["unf"] {
				k.check(from(et, "Create"), R, construct, at, "if the object could neither be created nor updated, the failure of the creation must be returned, not the one of the update (path %s): %s", s.Trace(), et)
			}
			return
		}
		switch {
		case f["updated"]:
			k.check(f["status"] || f["nostatus"] || f["view"], R, construct, at, "the status of an updated object is not written (path %s)", s.Trace())
		case f["created"] && !f["cfail"]:
		default:
			k.fail(R, construct, at, "success is reported without a write (path %s)", s.Trace())
		}
		k.check(!f["E"], R, construct, at, "a failed read is reported as success (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(updates > 0, R, construct, k.pr.pos(fn.Pos()), "no update is made")
	if h.fn != nil {
		k.check(creates > 0, R, construct, k.pr.pos(fn.Pos()), "no object is created")
	}
	if h.retry {
		k.check(retries > 0 && len(retryFn) > 0, R, construct, k.pr.pos(fn.Pos()), "conflicts are not retried")
	}
}

func (h *writeHelper) mutated(s *St, call ssa.CallInstruction, what string) {
	if h.fn == nil {
		return
	}
	h.k.check(hasFlag(s, "mut"), h.rule, h.construct, h.k.pr.at(call), "the object is %s without applying the mutate function to what was read (path %s)", what, s.Trace())
	h.k.check(!hasFlag(s, "mut") || hasFlag(s, "key"), h.rule, h.construct, h.k.pr.at(call), "the object is %s although the mutate function may have changed its name (path %s)", what, s.Trace())
}
