package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const authPkg = "pkg/auth"

func init() {
	register("S02", "authorization: every path of the authorizer and of the RBAC rule matching: a request is allowed only for a known user, in a namespace the token names, by a rule that covers verb, group, resource and name; every rule and every value of a rule is looked at; the reverse for refusals", runS02)
}

// lenEdge: the condition tells whether x (recognised by is) is empty.
func lenEdge(s *St, t *Term, taken bool, is func(*Term) bool, name string) bool {
	for t.Op == "un" && t.Sym == "!" {
		t, taken = t.Args[0], !taken
	}
	if t.Op != "bin" || len(t.Args) != 2 {
		return false
	}
	l, c, op := t.Args[0], t.Args[1], t.Sym
	if l.Op == "const" {
		l, c = c, l
		op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
		if op == "" {
			op = t.Sym
		}
	}
	if !isCallTo(l, "builtin.len") || c.Op != "const" || !is(l.Args[0]) {
		return false
	}
	nonempty := false
	switch op + c.Sym {
	case ">0", "!=0", ">=1":
		nonempty = taken
	case "==0", "<=0", "<1":
		nonempty = !taken
	default:
		return false
	}
	f := parseFlags(s.Auto)
	n, o := name, "!"+name
	if !nonempty {
		n, o = o, n
	}
	if f[o] {
		s.Stop = true
		return true
	}
	f[n] = true
	s.Auto = f.String()
	return true
}

// search follows the search of a slice for an element: flag if there is one, !flag if every element
// was looked at in vain.
type search struct {
	flag string
	list func(*Term) bool
	// target of an equality test, nil if none
	target func(*Term) bool
	// verdict on the current element after a test (cond, taken): 1 it is one, -1 it is not, 0 open
	test func(s *St, t *Term, taken bool) int
}

func (sr *search) clear(f flags) {
	for n := range f {
		if n == sr.flag || n == "!"+sr.flag || strings.HasPrefix(n, sr.flag+"@") {
			delete(f, n)
		}
	}
}

func (sr *search) edge(s *St, cond ssa.Value, taken bool) bool {
	if over := s.loopOver(cond); over != nil && sr.list(over) {
		id := fmt.Sprintf("%s@%d/%d", sr.flag, s.Ctx.id, loopIndex(cond))
		f := parseFlags(s.Auto)
		if f[id+":it"] || partOf(over, sr.list) {
			f[id+":miss"] = true
		}
		if taken {
			f[id+":it"] = true
		} else {
			if !f[id+":miss"] && !f[sr.flag] {
				f["!"+sr.flag] = true
			}
			delete(f, id+":it")
			delete(f, id+":miss")
		}
		s.Auto = f.String()
		return true
	}
	t := s.condPT(cond)
	for t.Op == "un" && t.Sym == "!" {
		t, taken = t.Args[0], !taken
	}
	if h, ok := sr.inSet(t); ok && sr.target != nil && sr.target(h) {
		return boolEdge(s, t, taken, func(*Term) bool { return true }, sr.flag)
	}
	if sr.target != nil && isCallTo(t, "slices.Contains") && sr.list(t.Args[0]) && sr.target(t.Args[1]) {
		return boolEdge(s, t, taken, func(*Term) bool { return true }, sr.flag)
	}
	h := 0
	if sr.target != nil {
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") {
			for i := 0; i < 2; i++ {
				if e := elemOf(t.Args[i]); e != nil && sr.list(e) && sr.target(t.Args[1-i]) {
					h = -1
					if (t.Sym == "==") == taken {
						h = 1
					}
				}
			}
		}
	}
	if h == 0 && sr.test != nil {
		h = sr.test(s, t, taken)
	}
	f := parseFlags(s.Auto)
	switch h {
	case 1:
		sr.clear(f)
		f[sr.flag] = true
	case -1:
		for n := range f {
			if strings.HasPrefix(n, sr.flag+"@") && strings.HasSuffix(n, ":it") {
				delete(f, n)
			}
		}
	default:
		return false
	}
	s.Auto = f.String()
	return true
}

// inSet: t asks for an element of a set made of the list.
func (sr *search) inSet(t *Term) (*Term, bool) {
	if t.Op != "call" || len(t.Args) != 2 || !strings.HasPrefix(t.Sym, "sets.") || !strings.HasSuffix(t.Sym, ".Has") {
		return nil, false
	}
	set := t.Args[0]
	if set.Op != "call" || len(set.Args) != 1 || !sr.list(set.Args[0]) {
		return nil, false
	}
	switch set.Sym {
	case "sets.New", "sets.NewString":
		return t.Args[1], true
	}
	return nil, false
}

// enumConst is the value of a constant of the package of type t.
func enumConst(t types.Type, name string) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	c, ok := n.Obj().Pkg().Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.Int {
		return ""
	}
	return c.Val().ExactString()
}

// lookupOf: t is the entry of a map (recognised by of) under a constant key.
func lookupOf(t *Term, key string, of func(*Term) bool) bool {
	return t.Op == "lookup" && len(t.Args) == 2 && t.Args[1].Sym == `"`+key+`"` && of(t.Args[0])
}

func runS02(k *K) {
	const R = "authorization"
	az := k.typeIn(authPkg, "CompositeAuthorizer")
	if !k.check(az != nil, R, "auth.CompositeAuthorizer", "", "the authorizer was not found") {
		return
	}
	fn := k.method(az, "Authorize")
	check := k.fn("auth.CheckRBACAccess")
	if !k.check(fn != nil, R, "auth.CompositeAuthorizer.Authorize", "", "the authorizer decides nothing") || check == nil {
		return
	}
	k.authorize(R, fn)
	k.rbac(R, check)
}

func (k *K) authorize(R string, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	attr := func(t *Term, m string) bool {
		return t.Op == "call" && strings.HasSuffix(t.Sym, "."+m) && len(t.Args) == 1 && isParam(t.Args[0], "arg1")
	}
	isUser := func(t *Term) bool { return attr(t, "GetUser") }
	extra := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Sym, ".GetExtra") && len(t.Args) == 1 && isUser(t.Args[0])
	}
	ns := func(t *Term) bool { return lookupOf(t, "namespaces", extra) }
	wild := &search{flag: "wild", list: ns, target: func(t *Term) bool { return t.Op == "const" && t.Sym == `"*"` }}
	member := &search{flag: "member", list: ns, target: func(t *Term) bool { return attr(t, "GetNamespace") }}
	rule := &Rule{MaxDepth: 6, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		a := wild.edge(s, cond, taken)
		b := member.edge(s, cond, taken)
		if a || b {
			return
		}
		t := s.condPT(cond)
		switch {
		case nilEdge(s, t, taken, isUser, "user"):
		case boolEdge(s, t, taken, func(x *Term) bool { return attr(x, "IsResourceRequest") }, "res"):
		case lenEdge(s, t, taken, ns, "restricted"):
		case boolEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "auth.CheckRBACAccess") }, "rbac"):
		default:
			if x, eq, ok := eqConst(t, `""`, taken); ok && attr(x, "GetNamespace") {
				boolEdge(s, x, eq, func(*Term) bool { return true }, "all")
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm != "auth.CheckRBACAccess" {
			return
		}
		a := call.Common().Args
		at := k.pr.at(call)
		k.check(isUser(s.PT(a[0])), R, construct, at, "the rules of %s are looked at instead of those of the user (path %s)", short(s.PT(a[0])), s.Trace())
		for i, m := range []string{"GetVerb", "GetAPIGroup", "GetResource", "GetName"} {
			k.check(attr(s.PT(a[i+1]), m), R, construct, at, "the rules are asked about %s instead of %s of the request (path %s)", short(s.PT(a[i+1])), m, s.Trace())
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		t := s.RetPT(ret, 0)
		if !k.check(t.Op == "const", R, construct, at, "undecided: the decision is %s (path %s)", short(t), s.Trace()) {
			return
		}
		inside := f["!restricted"] || f["wild"] || f["member"] && f["!all"]
		if t.Sym == enumConst(ret.Results[0].Type(), "DecisionAllow") {
			k.check(f["user:set"], R, construct, at, "a request is allowed although it may have no user (path %s)", s.Trace())
			if !f["!res"] {
				k.check(inside, R, construct, at, "a request is allowed in a namespace the token may not name (path %s)", s.Trace())
				k.check(f["rbac"], R, construct, at, "a request is allowed without a rule that covers it (path %s)", s.Trace())
			}
			return
		}
		outside := f["restricted"] && f["!wild"] && (f["all"] || f["!member"])
		k.check(f["user:nil"] || !f["!res"] && (outside || f["!rbac"]), R, construct, at, "a request is refused although user, namespace and rules may allow it (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// globalSet: the keys a package variable (a map to true, or a slice) is initialised with.
func (k *K) globalSet(g *ssa.Global) map[string]bool {
	if g == nil || g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var val ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				if val != nil {
					return nil
				}
				val = st.Val
			}
		}
	}
	if val == nil || val.Referrers() == nil {
		return nil
	}
	// written nowhere else
	for _, f := range k.pr.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					if y.Addr == ssa.Value(g) && f != init {
						return nil
					}
				case *ssa.MapUpdate:
					if u, ok := y.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						return nil
					}
				}
			}
		}
	}
	r := map[string]bool{}
	if _, ok := val.(*ssa.Slice); ok {
		for _, e := range k.sliceElems(nil, val) {
			t := k.R.T(e.c, e.v)
			r[strings.Trim(t.Sym, `"`)] = true
		}
		return r
	}
	for _, ref := range *val.Referrers() {
		if mu, ok := ref.(*ssa.MapUpdate); ok {
			key, v := k.R.T(nil, mu.Key), k.R.T(nil, mu.Value)
			if v.Sym != "false" {
				r[strings.Trim(key.Sym, `"`)] = true
			}
		}
	}
	return r
}

var collectionVerbs = []string{"list", "watch", "create", "deletecollection"}

func (k *K) rbac(R string, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	extra := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Sym, ".GetExtra") && len(t.Args) == 1 && isParam(t.Args[0], "arg0")
	}
	stored := func(t *Term) bool { return lookupOf(t, "rules", extra) }
	rules := map[string]bool{}
	isRules := func(t *Term) bool { return rules[t.String()] }
	rule := &Rule{MaxDepth: 8, Flow: true, Inline: helperInline, MaxStates: 1000000}
	type dim struct {
		flag, field, arg string
		sr               *search
	}
	dims := []*dim{{flag: "verb", field: "Verbs", arg: "arg1"}, {flag: "group", field: "APIGroups", arg: "arg2"}, {flag: "resource", field: "Resources", arg: "arg3"}, {flag: "name", field: "ResourceNames", arg: "arg4"}}
	for _, d := range dims {
		d := d
		list := func(t *Term) bool {
			if !isField(t, d.field) {
				return false
			}
			e := elemOf(t.Args[0])
			return e != nil && isRules(e)
		}
		d.sr = &search{flag: d.flag, list: list}
		d.sr.test = wildcardTest(k.R, d.flag, list, func(t *Term) bool { return isParam(t, d.arg) })
	}
	vset := func(t *Term) map[string]bool {
		g, _ := t.V.(*ssa.Global)
		if u, ok := t.V.(*ssa.UnOp); ok && g == nil {
			g, _ = u.X.(*ssa.Global)
		}
		if t.Op != "global" || g == nil {
			return nil
		}
		return k.globalSet(g)
	}
	sameSet := func(m map[string]bool) bool {
		for _, v := range collectionVerbs {
			if !m[v] {
				return false
			}
		}
		return len(m) == len(collectionVerbs)
	}
	no := func(f flags) bool {
		return f["!verb"] || f["!group"] || f["!resource"] || f["!coll"] && f["!name"] && f["named"]
	}
	yes := func(f flags) bool {
		return f["verb"] && f["group"] && f["resource"] && (f["coll"] || f["!names"] || f["!named"] || f["name"])
	}
	reset := func(f flags) {
		for _, d := range dims {
			d.sr.clear(f)
			for n := range f {
				if strings.HasPrefix(n, d.flag+"?") {
					delete(f, n)
				}
			}
		}
		for _, n := range []string{"names", "!names", "rule"} {
			delete(f, n)
		}
	}
	verbEdge := func(s *St, t *Term, taken bool) bool {
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "lookup" {
			t = t.Args[0]
		}
		set := (*Term)(nil)
		if t.Op == "lookup" && isParam(t.Args[1], "arg1") {
			set = t.Args[0]
		}
		if isCallTo(t, "slices.Contains") && isParam(t.Args[1], "arg1") {
			set = t.Args[0]
		}
		if set != nil {
			m := vset(set)
			if m == nil {
				m = map[string]bool{}
				if in, ok := set.V.(ssa.Value); ok {
					for _, e := range k.sliceElems(set.Ctx, in) {
						m[strings.Trim(k.R.T(e.c, e.v).Sym, `"`)] = true
					}
				}
			}
			k.check(sameSet(m), R, construct, k.pr.pos(fn.Pos()), "the verbs that ignore resource names are %v instead of %v", m, collectionVerbs)
			return boolEdge(s, t, taken, func(*Term) bool { return true }, "coll")
		}
		if enumEdge(s, t, taken, func(x *Term) bool { return isParam(x, "arg1") }, "v") {
			f := parseFlags(s.Auto)
			if v := enumValue(s, "v"); v != "" {
				in := false
				for _, c := range collectionVerbs {
					in = in || c == v
				}
				k.check(in, R, construct, k.pr.pos(fn.Pos()), "verb %q is treated as one that ignores resource names", v)
				f["coll"] = true
			} else {
				all := true
				for _, c := range collectionVerbs {
					all = all && f["v!"+c]
				}
				if all {
					f["!coll"] = true
				}
			}
			s.Auto = f.String()
			return true
		}
		return false
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := s.loopOver(cond); over != nil && isRules(over) {
			f := parseFlags(s.Auto)
			if f["rule"] && yes(f) {
				f["found"] = true
			} else if f["rule"] && !no(f) {
				k.fail(R, construct, k.pr.at(cond.(ssa.Instruction)), "a rule that may cover the request is passed over (path %s)", s.Trace())
			}
			if partOf(over, isRules) {
				k.fail(R, construct, k.pr.at(cond.(ssa.Instruction)), "only some of the rules are looked at (path %s)", s.Trace())
			}
			reset(f)
			if taken {
				f["rule"] = true
			} else {
				f["end"] = true
			}
			s.Auto = f.String()
			return
		}
		for _, d := range dims {
			if d.sr.edge(s, cond, taken) {
				return
			}
		}
		t := s.condPT(cond)
		switch {
		case verbEdge(s, t, taken):
		case lenEdge(s, t, taken, stored, "rules"):
		case lenEdge(s, t, taken, dims[3].sr.list, "names"):
		case nilEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "json.Unmarshal") }, "err"):
		default:
			if x, eq, ok := eqConst(t, `""`, taken); ok && isParam(x, "arg4") {
				boolEdge(s, x, !eq, func(*Term) bool { return true }, "named")
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm != "json.Unmarshal" {
			return
		}
		a := call.Common().Args
		src := s.PT(a[0])
		k.check(src.Has(func(x *Term) bool { return x.Op == "index" && stored(x.Args[0]) && x.Args[1].Sym == "0" }), R, construct, k.pr.at(call), "the rules are decoded from %s (path %s)", short(src), s.Trace())
		dst := s.PT(a[1])
		rules[dst.String()] = true
		rules["*("+dst.String()+")"] = true
		rules[(&Term{Op: "un", Sym: "*", Args: []*Term{dst}}).String()] = true
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		switch s.RetVal(ret, 0) {
		case "true":
			k.check(f["!rules"] || f["err:nil"] && (f["found"] || f["rule"] && yes(f)), R, construct, at, "access is granted although no rule may cover the request (path %s)", s.Trace())
		case "false":
			k.check(f["rules"] && (f["err:set"] || f["end"] && !f["found"]), R, construct, at, "access is refused before all rules were looked at (path %s)", s.Trace())
		default:
			k.fail(R, construct, at, "undecided: the answer is %s (path %s)", short(s.RetPT(ret, 0)), s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(len(rules) > 0, R, construct, k.pr.pos(fn.Pos()), "the rules of the user are not decoded")
}

// wildcardTest follows the comparison of an element of a rule with the value requested: equal, "*",
// or a pattern with one "*" whose fixed parts the value has.
func wildcardTest(r *Resolver, flag string, list func(*Term) bool, value func(*Term) bool) func(*St, *Term, bool) int {
	elem := func(t *Term) bool {
		e := elemOf(t)
		return e != nil && list(e)
	}
	star := func(t *Term) bool { return t.Op == "const" && t.Sym == `"*"` }
	str := func(t *Term, name string, a, b func(*Term) bool) bool {
		return isCallTo(t, "strings."+name) && len(t.Args) >= 2 && a(t.Args[0]) && b(t.Args[1])
	}
	// what is left of a pattern
	rest := func(name string) func(*Term) bool {
		return func(t *Term) bool {
			lo, hi := sliceBounds(r, t)
			one := func(x *Term) bool { return x != nil && x.Sym == "1" }
			if lo != nil || hi != nil {
				if !elem(t.Args[0]) {
					return false
				}
				if name == "Prefix" {
					return one(lo) && hi == nil
				}
				return (lo == nil || lo.Sym == "0") && hi.Op == "bin" && hi.Sym == "-" && one(hi.Args[1]) && isCallTo(hi.Args[0], "builtin.len") && elem(hi.Args[0].Args[0])
			}
			return str(t, "Trim"+name, elem, star) || t.Op == "ext" && t.Sym == "0" && str(t.Args[0], "Cut"+name, elem, star)
		}
	}
	part := func(i int) func(*Term) bool {
		return func(t *Term) bool {
			if lo, hi := sliceBounds(r, t); (lo != nil || hi != nil) && elem(t.Args[0]) {
				if i == 0 {
					return (lo == nil || lo.Sym == "0") && hi != nil && str(hi, "Index", elem, star)
				}
				return hi == nil && lo.Op == "bin" && lo.Sym == "+" && (str(lo.Args[0], "Index", elem, star) && lo.Args[1].Sym == "1" || str(lo.Args[1], "Index", elem, star) && lo.Args[0].Sym == "1")
			}
			return t.Op == "index" && t.Args[1].Sym == itoa(i) && (str(t.Args[0], "SplitN", elem, star) && t.Args[0].Args[2].Sym == "2" || str(t.Args[0], "Split", elem, star)) ||
				t.Op == "ext" && t.Sym == itoa(i) && str(t.Args[0], "Cut", elem, star)
		}
	}
	has := func(name string) func(*Term) bool {
		return func(t *Term) bool {
			return str(t, "Has"+name, elem, star) || t.Op == "ext" && t.Sym == "1" && str(t.Args[0], "Cut"+name, elem, star)
		}
	}
	tests := []struct {
		name string
		is   func(*Term) bool
	}{
		{"star", func(t *Term) bool { return str(t, "Contains", elem, star) }},
		{"pfx", has("Prefix")},
		{"sfx", has("Suffix")},
		{"vs", func(t *Term) bool { return str(t, "HasSuffix", value, rest("Prefix")) }},
		{"vp", func(t *Term) bool { return str(t, "HasPrefix", value, rest("Suffix")) }},
		{"m0", func(t *Term) bool { return str(t, "HasPrefix", value, part(0)) }},
		{"m1", func(t *Term) bool { return str(t, "HasSuffix", value, part(1)) }},
		{"star", func(t *Term) bool { return t.Op == "ext" && t.Sym == "2" && str(t.Args[0], "Cut", elem, star) }},
	}
	return func(s *St, t *Term, taken bool) int {
		f := parseFlags(s.Auto)
		clear := func() {
			for n := range f {
				if strings.HasPrefix(n, flag+"?") {
					delete(f, n)
				}
			}
			s.Auto = f.String()
		}
		known := false
		set := func(n string, v bool) {
			known = true
			if f[flag+"?"+n] && !v || f[flag+"?!"+n] && v {
				s.Stop = true
			}
			if v {
				f[flag+"?"+n] = true
			} else {
				f[flag+"?!"+n] = true
			}
		}
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") {
			for i := 0; i < 2; i++ {
				if elem(t.Args[i]) && (star(t.Args[1-i]) || value(t.Args[1-i])) {
					eq := (t.Sym == "==") == taken
					if eq {
						clear()
						return 1
					}
					n := "any"
					if value(t.Args[1-i]) {
						n = "eq"
					}
					set(n, false)
				}
			}
		}
		// the number of parts of a pattern with a star
		if t.Op == "bin" && isCallTo(t.Args[0], "builtin.len") && len(t.Args[0].Args) == 1 && str(t.Args[0].Args[0], "SplitN", elem, star) && t.Args[1].Sym == "2" {
			set("star", (t.Sym == "==" || t.Sym == ">=") == taken)
		}
		if t.Op == "bin" && len(t.Args) == 2 && str(t.Args[0], "Index", elem, star) {
			switch t.Sym + t.Args[1].Sym {
			case ">=0", "!=-1", ">-1":
				set("star", taken)
			case "<0", "==-1":
				set("star", !taken)
			}
		}
		for _, x := range tests {
			if x.is(t) {
				set(x.name, taken)
			}
		}
		if !known {
			return 0
		}
		y := func(n string) bool { return f[flag+"?"+n] }
		n := func(n string) bool { return f[flag+"?!"+n] }
		s.Auto = f.String()
		switch {
		case y("pfx") && y("vs"), y("sfx") && y("vp"), y("m0") && y("m1"):
			clear()
			return 1
		case n("any") && n("eq") && (n("star") || y("pfx") && n("vs") || n("pfx") && y("sfx") && n("vp") || n("pfx") && n("sfx") && (n("m0") || n("m1"))):
			clear()
			return -1
		}
		return 0
	}
}

// sliceBounds: the bounds of a slice expression, nil where it has none.
func sliceBounds(r *Resolver, t *Term) (lo, hi *Term) {
	x, ok := t.V.(*ssa.Slice)
	if t.Op != "slice" || !ok {
		return nil, nil
	}
	if x.Low != nil {
		lo = r.T(t.Ctx, x.Low)
	}
	if x.High != nil {
		hi = r.T(t.Ctx, x.High)
	}
	return lo, hi
}
