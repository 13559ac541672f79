package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R08: kind resolution.

// gvkParts resolves group, version and kind (or resource) of a kind value on this path: a literal, or
// one derived by the usual schema helpers. A nil result means the value is opaque.
func (k *K) gvkParts(s *St, c *Ctx, v ssa.Value) map[string]*Term {
	for i := 0; i < 8; i++ {
		c, v = s.RootIn(c, v)
		c, v = k.R.origin(c, v)
		if cst, ok := v.(*ssa.Const); ok && structOf(cst.Type()) != nil {
			return map[string]*Term{}
		}
		if cl, ok := v.(*ssa.Call); ok {
			a := callArgs(cl.Common())
			nm := k.R.calleeName(c, cl.Common())
			parts := func(i int) map[string]*Term { return k.gvkParts(s, c, a[i]) }
			with := func(m map[string]*Term, f string, i int) map[string]*Term {
				if m == nil {
					return nil
				}
				r := map[string]*Term{}
				for x, y := range m {
					r[x] = y
				}
				r[f] = s.PTIn(c, a[i])
				return r
			}
			group := func() *Term { return &Term{Op: "call", Sym: "view/v1alpha1.Group", Args: []*Term{s.PTIn(c, a[0])}} }
			version := &Term{Op: "const", Sym: k.viewVersion()}
			switch {
			case strings.HasSuffix(nm, ".WithKind"):
				return with(parts(0), "Kind", 1)
			case strings.HasSuffix(nm, ".WithVersion"):
				return with(parts(0), "Version", 1)
			case strings.HasSuffix(nm, ".WithResource"):
				return with(parts(0), "Resource", 1)
			case strings.HasSuffix(nm, ".GroupKind"), strings.HasSuffix(nm, ".GroupVersion"):
				if m := parts(0); m != nil || !strings.HasPrefix(nm, "schema.GroupVersionKind.") {
					return m
				}
				r := map[string]*Term{}
				for _, f := range []string{"Group", strings.TrimPrefix(nm[strings.LastIndexByte(nm, '.')+1:], "Group")} {
					r[f] = &Term{Op: "field", Sym: f, Args: []*Term{s.PTIn(c, a[0])}}
				}
				return r
			case nm == "view/v1alpha1.GroupVersion":
				return map[string]*Term{"Group": group(), "Version": version}
			case nm == "view/v1alpha1.GroupVersionKind":
				return map[string]*Term{"Group": group(), "Version": version, "Kind": s.PTIn(c, a[1])}
			}
			return nil
		}
		var al *ssa.Alloc
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if cc, p := s.RootIn(c, u.X); p != nil {
				if a, ok := p.(*ssa.Alloc); ok {
					c, al = cc, a
				}
			}
		}
		if al == nil {
			return nil
		}
		if sv := singleStore(al); sv != nil && !hasFieldStores(al) {
			v = sv
			continue
		}
		st := structOf(al.Type())
		r := map[string]*Term{}
		for f := 0; f < st.NumFields(); f++ {
			if e := s.fieldIn(c, al, f); e != "" {
				if e[0] == 'v' {
					cc, w := s.root(e)
					r[st.Field(f).Name()] = s.PTIn(cc, w)
				} else {
					var id, n int
					fmt.Sscanf(string(e), "L:%d:%d", &id, &n)
					b := s.x.roots[id]
					if cst, ok := b.v.(*ssa.Const); ok && cst.Value == nil {
						continue // a zero value
					}
					r[st.Field(f).Name()] = &Term{Op: "field", Sym: st.Field(f).Name(), Args: []*Term{s.PTIn(b.c, b.v)}}
				}
			}
		}
		return r
	}
	return nil
}

// viewVersion is the only version of views.
func (k *K) viewVersion() string {
	for _, p := range k.pr.SSA.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), "pkg/api/view/v1alpha1") {
			if c, ok := p.Pkg.Scope().Lookup("Version").(*types.Const); ok && c.Val().Kind() == constant.String {
				return c.Val().ExactString()
			}
		}
	}
	return ""
}

func runR08(k *K) {
	const R = "kind resolution"
	n := 0
	for _, t := range k.implementers("pkg/reconciler", "reconciler.Resource") {
		fn := k.method(t, "GetGVK")
		if fn == nil || fn.Synthetic != "" {
			continue
		}
		n++
		k.resolveKind(R, fn)
	}
	k.check(n > 0, R, "reconciler.Resource", "", "no implementation of kind resolution found")
}

func (k *K) resolveKind(R string, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	spec := func(t *Term, f string) bool { return isSpec(t, "v1alpha1.Resource", f) }
	loaded := func(t *Term, f string) bool { return spec(t, f) }
	isKind := func(t *Term) bool { return spec(t, "Kind") }
	isGiven := func(t *Term) bool { return loaded(t, "Group") }
	isOp := func(t *Term) bool { return isField(t, "operator") && isParam(t.Args[0], "recv") }
	isViewG := func(t *Term) bool { return isCallTo(t, "view/v1alpha1.Group") && isOp(t.Args[0]) }
	rule := &Rule{MaxDepth: 5, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return helperInline(s, call, callee) && strings.Contains(callee.String(), "pkg/reconciler")
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return
		}
		t := s.PT(u.X)
		for _, f := range []string{"Group", "Version"} {
			if spec(t, f) && t.V != nil {
				if _, ptr := u.X.Type().Underlying().(*types.Pointer); ptr && types.Identical(deref(u.X.Type()), types.Typ[types.String]) {
					k.check(hasFlag(s, f+":set"), R, construct, k.pr.at(in), "%s is dereferenced where it can be missing (path %s)", f, s.Trace())
				}
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if strings.HasSuffix(nm, ".KindFor") {
			a := callArgs(call.Common())
			m := k.gvkParts(s, s.Ctx, a[1])
			k.check(m != nil && m["Group"] != nil && isGiven(m["Group"]) && m["Resource"] != nil && isKind(m["Resource"]) && m["Version"] == nil,
				R, construct, k.pr.at(call), "another kind is looked up than the one of the specification (path %s)", s.Trace())
		}
	}
	rule.AfterCall = func(s *St, call ssa.CallInstruction, nm string) {
		if strings.HasSuffix(nm, ".KindFor") {
			addFlag(s, "lookup")
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if nilEdge(s, t, taken, func(t *Term) bool { return spec(t, "Group") }, "Group") ||
			nilEdge(s, t, taken, func(t *Term) bool { return spec(t, "Version") }, "Version") {
			return
		}
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") {
			eq := (t.Sym == "==") == taken
			a, b := t.Args[0], t.Args[1]
			for i := 0; i < 2; i++ {
				// an empty kind
				if isKind(a) && b.Op == "const" && b.Sym == `""` || a.Op == "call" && a.Sym == "builtin.len" && isKind(a.Args[0]) && b.Op == "const" && b.Sym == "0" {
					if eq && hasFlag(s, "kind") || !eq && hasFlag(s, "!kind") {
						s.Stop = true
					}
					addFlag(s, map[bool]string{true: "!kind", false: "kind"}[eq])
					return
				}
				if isGiven(a) && isViewG(b) {
					if eq && hasFlag(s, "!own") || !eq && hasFlag(s, "own") {
						s.Stop = true
					}
					addFlag(s, map[bool]string{true: "own", false: "!own"}[eq])
					if eq {
						addFlag(s, "view")
					}
					return
				}
				a, b = b, a
			}
			if a.String() == b.String() && a.Op != "const" && !eq {
				s.Stop = true
				return
			}
			if isErrTerm(a) && isNil(b) {
				addFlag(s, map[bool]string{true: "found", false: "failed"}[eq])
			}
			return
		}
		if isCallTo(t, "view/v1alpha1.IsViewGroup") {
			g := t.Args[0]
			switch {
			case isViewG(g):
				if !taken {
					s.Stop = true // the group of an operator is a view group
				}
			case isGiven(g):
				boolEdge(s, t, taken, func(x *Term) bool { return x == t }, "view")
			}
		}
	}
	oks, errs := 0, 0
	rule.Exit = func(s *St, ret *ssa.Return) {
		at := k.pr.at(ret)
		ev := s.RetVal(ret, -1)
		rt := s.RetPT(ret, 1)
		failed := hasFlag(s, "failed") || rt.Op == "ext" && extOfSuffix(rt, ".KindFor")
		if ev == "nonnil" || rt.Op == "ext" && ev != "nil" && !isNil(rt) {
			errs++
			if rt.Op == "ext" && extOfSuffix(rt, ".KindFor") && ev != "nonnil" {
				// returned as found: the kind must be the one found
			} else {
				k.check(hasFlag(s, "!kind") || failed, R, construct, at, "a resource with a kind is refused (path %s)", s.Trace())
				return
			}
		}
		oks++
		k.check(hasFlag(s, "kind"), R, construct, at, "a resource without a kind is accepted (path %s)", s.Trace())
		k.check(!hasFlag(s, "failed"), R, construct, at, "a failed lookup is reported as success (path %s)", s.Trace())
		own := hasFlag(s, "Group:nil") || hasFlag(s, "own")
		v := s.retVal(ret, 0)
		t := s.PT(v)
		if !own {
			k.check(hasFlag(s, "Group:set") && hasFlag(s, "!own") || hasFlag(s, "Group:set") && hasFlag(s, "!view"), R, construct, at, "it is not known whether the kind is a view of the operator (path %s)", s.Trace())
		}
		if t.Op == "ext" && t.Sym == "0" && extOfSuffix(t, ".KindFor") {
			k.check(!own && hasFlag(s, "Version:nil") && !hasFlag(s, "view"), R, construct, at, "a kind is looked up among native kinds although %s (path %s)", map[bool]string{true: "it is a view of the operator", false: "its version is given"}[own], s.Trace())
			return
		}
		m := k.gvkParts(s, s.Ctx, v)
		if m == nil {
			k.fail(R, construct, at, "the resolved kind is not made from the specification: %s (path %s)", short(t), s.Trace())
			return
		}
		get := func(f string) *Term {
			if m[f] == nil {
				return &Term{Op: "const", Sym: `""`}
			}
			return m[f]
		}
		g, ver, kd := get("Group"), get("Version"), get("Kind")
		k.check(isKind(kd), R, construct, at, "the resolved kind is %s (path %s)", short(kd), s.Trace())
		enforced := ver.Op == "const" && ver.Sym == k.viewVersion()
		if own {
			k.check(isViewG(g) || isGiven(g) && hasFlag(s, "own"), R, construct, at, "a view of the operator is resolved to group %s (path %s)", short(g), s.Trace())
			k.check(enforced, R, construct, at, "a view of the operator is resolved to version %s (path %s)", short(ver), s.Trace())
			return
		}
		k.check(isGiven(g), R, construct, at, "the given group is resolved to %s (path %s)", short(g), s.Trace())
		switch {
		case hasFlag(s, "Version:set"):
			k.check(loaded(ver, "Version"), R, construct, at, "the given version is resolved to %s (path %s)", short(ver), s.Trace())
		case hasFlag(s, "view"):
			k.check(enforced, R, construct, at, "a view is resolved to version %s (path %s)", short(ver), s.Trace())
		default:
			k.fail(R, construct, at, "a native kind without a version is not looked up (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(oks >= 1 && errs >= 1, R, construct, k.pr.pos(fn.Pos()), "%d successful and %d failing outcomes found", oks, errs)
}

func isErrTerm(t *Term) bool {
	return t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "call"
}

func extOfSuffix(t *Term, suf string) bool {
	return len(t.Args) == 1 && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Sym, suf)
}
