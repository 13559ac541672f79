package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// splits: turns a comma-separated list into its items.
func splits(f *ssa.Function) bool {
	if f == nil || !inModule(f) || f.Blocks == nil {
		return false
	}
	sig := f.Signature
	return sig.Recv() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 1 &&
		typeShort(sig.Params().At(0).Type()) == "string" && typeShort(sig.Results().At(0).Type()) == "[]string"
}

func splitCall(t *Term) *Term {
	if t.Op != "call" || len(t.Args) != 1 || t.V == nil {
		return nil
	}
	call, ok := t.V.(*ssa.Call)
	if !ok || call.Common().IsInvoke() || !splits(call.Common().StaticCallee()) {
		return nil
	}
	return t.Args[0]
}

func init() {
	register("S11", "generated access configurations: every path of the command that generates them: the token carries exactly the user, the namespaces, the rules, the resource names and the expiry asked for, no restriction that was asked for is dropped, and the configuration written contains that token for that user and server", runS11)
}

func runS11(k *K) {
	const R = "restrictions"
	cs := k.commands(R)
	c := cs["generate-config"]
	if !k.check(c != nil && c.run.v != nil, R, "generate-config", "", "undecided: the command was not found") {
		return
	}
	nsplit := 0
	for _, f := range k.pr.Funcs {
		if inMain(f) && splits(f) {
			keepCall[fnName(f)] = true
			nsplit++
			k.splitting("lists", f)
		}
	}
	k.genConfig(R, c)
	k.kubeconfig("configuration")
	k.restConfig("configuration")
	k.extraction("configuration")
}

func deref1(t *Term) *Term {
	if t.Op == "un" && t.Sym == "*" && len(t.Args) == 1 {
		return t.Args[0]
	}
	return t
}

func (k *K) genConfig(R string, c *command) {
	cx := c.ctx(k)
	const construct = "generate-config"
	if !k.check(cx != nil, R, construct, c.pos, "undecided: what does the command run?") {
		return
	}
	for _, f := range []string{"user", "namespaces", "rules", "rules-file", "resource-names", "expiry", "output", "tls-key-file", "server-address", "namespace", "insecure", "http"} {
		if _, ok := c.flags[f]; !k.check(ok, R, construct, c.pos, "flag %s is missing", f) {
			return
		}
	}
	k.check(c.required["user"], R, construct, c.pos, "a token can be generated without a user")
	is := func(name string) func(*Term) bool {
		return func(t *Term) bool { return c.setting(t, name) }
	}
	splitOf := func(name string) func(*Term) bool {
		return func(t *Term) bool { a := splitCall(t); return a != nil && c.setting(a, name) }
	}
	given := []string{"namespaces", "rules", "rules-file", "resource-names", "output"}
	rules := "" // the variable with the rules
	n, written := 0, 0
	isToken := func(t *Term) bool { return extOf(t, 0, "auth.TokenGenerator.GenerateToken") != nil }
	rule := &Rule{MaxDepth: 6, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inMain(callee) && !recursive(callee) && !splits(callee)
	}}
	isRules := func(t *Term) bool {
		return typeShort(t.typ()) == "[]rbac/v1.PolicyRule"
	}
	unm := func(from string) func(*Term) bool {
		return func(t *Term) bool {
			return isCallTo(t, "json.Unmarshal") && len(t.Args) == 2 && k.rulesData(c, t.Args[0]) == from
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		for _, g := range given {
			if x, eq, ok := eqConst(t, `""`, taken); ok && is(g)(x) {
				n, o := "given:"+g, "none:"+g
				if eq {
					n, o = o, n
				}
				if hasFlag(s, o) {
					s.Stop = true
					return
				}
				addFlag(s, n)
				return
			}
			if lenEdge(s, t, taken, is(g), "len:"+g) {
				if hasFlag(s, "len:"+g) {
					addFlag(s, "given:"+g)
				} else {
					addFlag(s, "none:"+g)
				}
				return
			}
		}
		_ = lenEdge(s, t, taken, splitOf("namespaces"), "some:namespaces") || lenEdge(s, t, taken, splitOf("resource-names"), "some:resource-names") ||
			lenEdge(s, t, taken, isRules, "some:rules") || nilEdge(s, t, taken, unm("rules"), "decoded:rules") || nilEdge(s, t, taken, unm("rules-file"), "decoded:rules-file") ||
			nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "os.ReadFile") != nil }, "read") ||
			nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "auth.TokenGenerator.GenerateToken") != nil }, "generated")
	}
	has := func(s *St, f string) bool { return hasFlag(s, f) }
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || typeShort(deref(fa.X.Type())) != "rbac/v1.PolicyRule" {
			return
		}
		at := k.pr.at(in)
		_, w := s.Root(fa.X)
		ia, ok := w.(*ssa.IndexAddr)
		if !k.check(ok && fieldName(fa.X.Type(), fa.Field) == "ResourceNames", R, construct, at, "a rule is changed (path %s)", s.Trace()) {
			return
		}
		ix := s.PT(ia.Index)
		last := ix.Op == "bin" && ix.Sym == "-" && ix.Args[1].Sym == "1" && isCallTo(ix.Args[0], "builtin.len") && isRules(ix.Args[0].Args[0])
		k.check(last, R, construct, at, "the resource names are given to another rule than the last one (path %s)", s.Trace())
		k.check(splitOf("resource-names")(s.PT(st.Val)), R, construct, at, "the rule is restricted to %s instead of the resource names asked for (path %s)", short(s.PT(st.Val)), s.Trace())
		k.check(!has(s, "none:resource-names"), R, construct, at, "the rule is restricted although no resource names were asked for (path %s)", s.Trace())
		addFlag(s, "restricted")
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		at := k.pr.at(call)
		switch nm {
		case "json.Unmarshal":
			from := k.rulesData(c, s.PT(a[0]))
			if k.check(from != "", R, construct, at, "the rules are read from %s (path %s)", short(s.PT(a[0])), s.Trace()) {
				addFlag(s, "from:"+from)
				k.check(from != "rules-file" || has(s, "read:nil"), R, construct, at, "the rules file may not have been read (path %s)", s.Trace())
				rules = s.PT(a[1]).String()
			}
		case "auth.TokenGenerator.GenerateToken":
			n++
			g := s.PT(a[0])
			good := isCallTo(g, "auth.NewTokenGenerator")
			if good {
				l := extOf(g.Args[0], 0, "auth.LoadPrivateKey")
				good = l != nil && is("tls-key-file")(l.Args[0])
			}
			k.check(good, R, construct, at, "the token is not signed with the private key given (path %s)", s.Trace())
			k.check(is("user")(s.PT(a[1])), R, construct, at, "the token is for user %s (path %s)", short(s.PT(a[1])), s.Trace())
			ns := s.PT(a[2])
			switch {
			case isNil(ns):
				k.check(has(s, "none:namespaces"), R, construct, at, "the namespaces asked for may be dropped, and the token gives access to all of them (path %s)", s.Trace())
			case splitOf("namespaces")(ns):
				k.check(has(s, "some:namespaces") || has(s, "none:namespaces"), R, construct, at, "the namespaces asked for may be an empty list, and the token gives access to all of them (path %s)", s.Trace())
			default:
				k.fail(R, construct, at, "the token is restricted to the namespaces %s (path %s)", short(ns), s.Trace())
			}
			rl := s.PT(a[3])
			none := has(s, "none:rules") && has(s, "none:rules-file")
			if isNil(rl) {
				k.check(none, R, construct, at, "the rules asked for may be dropped, and the token gives full access (path %s)", s.Trace())
			} else if k.check(isRules(rl) && (none || deref1(rl).String() == rules), R, construct, at, "the rules of the token are %s (path %s)", short(rl), s.Trace()) {
				got := false
				for _, f := range []string{"rules", "rules-file"} {
					if has(s, "from:"+f) {
						got = true
						k.check(!has(s, "none:"+f), R, construct, at, "rules are read although none were given (path %s)", s.Trace())
						k.check(has(s, "decoded:"+f+":nil"), R, construct, at, "the rules may not have been decoded (path %s)", s.Trace())
					}
				}
				k.check(got || none, R, construct, at, "the rules asked for may be dropped, and the token gives full access (path %s)", s.Trace())
				k.check(!got || has(s, "some:rules"), R, construct, at, "the rules asked for may be an empty list, and the token gives full access (path %s)", s.Trace())
			}
			k.check(has(s, "none:resource-names") || has(s, "restricted"), R, construct, at, "the resource names asked for may be dropped (path %s)", s.Trace())
			k.check(!has(s, "restricted") || has(s, "some:resource-names"), R, construct, at, "the resource names asked for may be an empty list, which restricts nothing (path %s)", s.Trace())
			k.check(is("expiry")(s.PT(a[4])), R, construct, at, "the token expires after %s (path %s)", short(s.PT(a[4])), s.Trace())
		case "auth.GenerateKubeconfig":
			k.check(is("server-address")(s.PT(a[0])), R, construct, at, "the configuration is for server %s (path %s)", short(s.PT(a[0])), s.Trace())
			k.check(is("user")(s.PT(a[1])), R, construct, at, "the configuration is for user %s (path %s)", short(s.PT(a[1])), s.Trace())
			k.check(isToken(s.PT(a[2])) && has(s, "generated:nil"), R, construct, at, "the configuration may not contain the token generated (path %s)", s.Trace())
			opts := k.literal(s, a[3])
			for f, g := range map[string]string{"DefaultNamespace": "namespace", "Insecure": "insecure", "HTTPMode": "http"} {
				v := opts[f]
				k.check(v.v != nil && is(g)(s.PTIn(v.c, v.v)), R, construct, at, "the configuration ignores flag %s (path %s)", g, s.Trace())
			}
		case "clientcmd.Write", "clientcmd.WriteToFile":
			k.check(isCallTo(s.PT(a[0]), "auth.GenerateKubeconfig"), R, construct, at, "what is written is not the configuration generated (path %s)", s.Trace())
			if nm == "clientcmd.WriteToFile" {
				k.check(is("output")(s.PT(a[1])) && has(s, "given:output"), R, construct, at, "the configuration is written to %s (path %s)", short(s.PT(a[1])), s.Trace())
				written++
				addFlag(s, "written")
			}
		case "fmt.Print", "fmt.Println", "fmt.Fprint", "fmt.Fprintln", "fmt.Printf", "fmt.Fprintf", "os.File.Write", "os.File.WriteString", "io.WriteString":
			for _, e := range a {
				if k.anyPart(s, e, func(t *Term) bool { return extOf(t, 0, "clientcmd.Write") != nil }) {
					k.check(has(s, "none:output"), R, construct, at, "the configuration is printed although a file was asked for (path %s)", s.Trace())
					k.check(!strings.Contains(s.PT(a[0]).String(), "os.Stderr"), R, construct, at, "the configuration is not printed to the standard output (path %s)", s.Trace())
					written++
					addFlag(s, "written")
				}
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if len(ret.Results) == 1 && s.RetVal(ret, 0) == "nonnil" {
			return
		}
		k.check(has(s, "written"), R, construct, k.pr.at(ret), "success is reported although no configuration was written (path %s)", s.Trace())
	}
	k.ok(R, construct, c.pos)
	x := k.explore(rule)
	x.RunCtx(cx, "")
	k.done(x, R, construct)
	k.check(n > 0, R, construct, c.pos, "no token is generated")
	k.check(written > 0, R, construct, c.pos, "no configuration is written")
}

// rulesData: where encoded rules come from.
func (k *K) rulesData(c *command, t *Term) string {
	if c.setting(t, "rules") {
		return "rules"
	}
	if f := extOf(t, 0, "os.ReadFile"); f != nil && c.setting(f.Args[0], "rules-file") {
		return "rules-file"
	}
	return ""
}

// anyPart: the value or, if it is a list made in place, one of its elements.
func (k *K) anyPart(s *St, v ssa.Value, is func(*Term) bool) bool {
	if s.PT(v).Has(is) {
		return true
	}
	for _, e := range k.sliceElemsOn(s, v) {
		if e.Has(is) {
			return true
		}
	}
	return false
}

func (t *Term) typ() types.Type {
	if t.V == nil {
		return types.Typ[types.Invalid]
	}
	return t.V.Type()
}

// splitting: the items of a comma-separated list are exactly the nonempty ones, trimmed.
func (k *K) splitting(R string, f *ssa.Function) {
	k.ok(R, fnName(f), k.pr.pos(f.Pos()))
	parts := func(t *Term) bool {
		return isCallTo(t, "strings.Split") && isParam(t.Args[0], "arg0") && t.Args[1].Sym == `","`
	}
	item := func(t *Term) bool {
		e := t
		if isCallTo(t, "strings.TrimSpace") {
			e = elemOf(t.Args[0])
		} else {
			e = nil
		}
		return e != nil && parts(e)
	}
	k.each(f, &eachSpec{R: R, what: "items", leaf: parts,
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			if nm != "builtin.append" {
				return 0
			}
			a := callArgs(call.Common())
			es := k.sliceElemsOn(s, a[1])
			if !k.check(len(es) == 1 && item(es[0]), R, fnName(f), k.pr.at(call), "what is added to the list is not a trimmed item (path %s)", s.Trace()) {
				return 0
			}
			k.check(hasFlag(s, "it:some"), R, fnName(f), k.pr.at(call), "empty items get into the list (path %s)", s.Trace())
			return 1
		},
		skip: func(s *St, cond ssa.Value, taken bool) bool {
			x, eq, ok := isEmpty(s.condPT(cond), taken)
			return ok && eq && item(x)
		},
		exempt: func(s *St, cond ssa.Value, taken bool) bool {
			x, eq, ok := isEmpty(s.condPT(cond), taken)
			return ok && eq && isParam(x, "arg0")
		},
		edge: func(s *St, cond ssa.Value, taken bool) {
			if x, eq, ok := isEmpty(s.condPT(cond), taken); ok && !eq && item(x) {
				addFlag(s, "it:some")
			}
		},
		exit: func(s *St, ret *ssa.Return) {
			r := s.RetPT(ret, 0)
			k.check(isNil(r) || isCallTo(r, "builtin.append") || r.Op == "alloc" && strings.HasPrefix(r.Sym, "make:") || r.Op == "slice" && r.Sym == "", R, fnName(f), k.pr.at(ret), "the list returned, %s, is not the list of items (path %s)", short(r), s.Trace())
		},
	})
}

// kubeconfig: the configuration generated has the token for the user in its current context.
func (k *K) kubeconfig(R string) {
	fn := k.fn("auth.GenerateKubeconfig")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	field := func(t *Term, f string) bool { return isField(t, f) }
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	ids := map[string]string{}
	id := func(t *Term) string {
		x := t.String()
		if ids[x] == "" {
			ids[x] = "k" + itoaN(len(ids))
		}
		return ids[x]
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		boolEdge(s, t, taken, func(x *Term) bool { return field(x, "HTTPMode") }, "http")
	}
	terms := map[string]*Term{}
	get := func(s *St, o ssa.Value, f string) *Term {
		if v := k.literal(s, o)[f]; v.v != nil {
			return s.PTIn(v.c, v.v)
		}
		r := &Term{Op: "opaque", Sym: "nothing"}
		for x := range parseFlags(s.Auto) {
			if y, ok := strings.CutPrefix(x, "set:"+id(s.PT(o))+":"+f+":"); ok {
				r = terms[y]
			}
		}
		return r
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm != "url.URL.String" {
			return
		}
		for f := range parseFlags(s.Auto) {
			if f == "host" || strings.HasPrefix(f, "scheme:") {
				dropFlag(s, f)
			}
		}
		u := k.literal(s, callArgs(call.Common())[0])
		if h := u["Host"]; h.v != nil && isParam(s.PTIn(h.c, h.v), "arg0") {
			addFlag(s, "host")
		}
		if h := u["Scheme"]; h.v != nil {
			addFlag(s, "scheme:"+strings.Trim(s.PTIn(h.c, h.v).Sym, `"`))
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		at := k.pr.at(in)
		switch y := in.(type) {
		case *ssa.MapUpdate:
			m := s.PT(y.Map)
			key := id(s.PT(y.Key))
			switch {
			case field(m, "AuthInfos"):
				tk := get(s, y.Value, "Token")
				k.check(isParam(tk, "arg2"), R, construct, at, "the token of the user is %s (path %s)", short(tk), s.Trace())
				addFlag(s, "user:"+key)
			case field(m, "Clusters"):
				k.check(field(get(s, y.Value, "InsecureSkipTLSVerify"), "Insecure"), R, construct, at, "the certificate of the server is checked or not regardless of what was asked for (path %s)", s.Trace())
				k.server(R, construct, at, s, get(s, y.Value, "Server"))
				addFlag(s, "cluster:"+key)
			case field(m, "Contexts"):
				k.check(field(get(s, y.Value, "Namespace"), "DefaultNamespace"), R, construct, at, "the default namespace is %s (path %s)", short(get(s, y.Value, "Namespace")), s.Trace())
				addFlag(s, "context:"+key)
				addFlag(s, "ctxuser:"+id(get(s, y.Value, "AuthInfo")))
				addFlag(s, "ctxcluster:"+id(get(s, y.Value, "Cluster")))
			}
		case *ssa.Store:
			fa, ok := y.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			switch f := fieldName(fa.X.Type(), fa.Field); {
			case f == "CurrentContext":
				addFlag(s, "current:"+id(s.PT(y.Val)))
			case f == "Token" || f == "Server" || f == "InsecureSkipTLSVerify" || f == "Namespace" || f == "AuthInfo" || f == "Cluster":
				pre := "set:" + id(s.PT(fa.X)) + ":" + f + ":"
				for x := range parseFlags(s.Auto) {
					if strings.HasPrefix(x, pre) {
						dropFlag(s, x)
					}
				}
				v := s.PT(y.Val)
				terms[id(v)] = v
				addFlag(s, pre+id(v))
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		v := map[string]string{}
		for f := range parseFlags(s.Auto) {
			a, b, _ := strings.Cut(f, ":")
			if v[a] != "" {
				b = "?"
			}
			v[a] = b
		}
		at := k.pr.at(ret)
		k.check(v["user"] != "" && v["user"] == v["ctxuser"], R, construct, at, "the current context is not that of the user with the token (path %s)", s.Trace())
		k.check(v["cluster"] != "" && v["cluster"] == v["ctxcluster"], R, construct, at, "the current context is not that of the server (path %s)", s.Trace())
		k.check(v["context"] != "" && v["context"] == v["current"], R, construct, at, "the current context is not the one generated (path %s)", s.Trace())
		k.check(isCallTo(s.RetPT(ret, 0), "api.NewConfig") || strings.HasSuffix(s.RetPT(ret, 0).Sym, ".NewConfig"), R, construct, at, "what is returned is not the configuration (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// server: the address of the server is the one asked for, with the scheme asked for.
func (k *K) server(R, construct, at string, s *St, t *Term) {
	scheme, host := "", false
	if isCallTo(t, "url.URL.String") {
		for f := range parseFlags(s.Auto) {
			if x, ok := strings.CutPrefix(f, "scheme:"); ok {
				scheme = x
			}
		}
		host = hasFlag(s, "host")
	} else {
		for _, p := range k.strParts(s, t) {
			if isParam(p, "arg0") {
				host = true
			} else if p.Op == "const" {
				scheme += strings.Trim(p.Sym, `"`)
			}
		}
		scheme = strings.TrimSuffix(scheme, "://")
	}
	k.check(host, R, construct, at, "the server of the configuration is %s (path %s)", short(t), s.Trace())
	f := parseFlags(s.Auto)
	want := ""
	switch {
	case f["http"]:
		want = "http"
	case f["!http"]:
		want = "https"
	}
	k.check(want != "" && scheme == want, R, construct, at, "the server of the configuration is contacted by %q where %q was asked for (path %s)", scheme, want, s.Trace())
}

func (k *K) restConfig(R string) {
	fn := k.fn("auth.CreateRestConfig")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	rule.Exit = func(s *St, ret *ssa.Return) {
		l := k.literal(s, s.retVal(ret, 0))
		at := k.pr.at(ret)
		for f, p := range map[string]string{"Host": "arg0", "BearerToken": "arg1"} {
			v := l[f]
			k.check(v.v != nil && isParam(s.PTIn(v.c, v.v), p), R, construct, at, "%s is not the one given (path %s)", f, s.Trace())
		}
		good := false
		if v := l["TLSClientConfig"]; v.v != nil {
			if i := k.literalIn(s, v.c, v.v)["Insecure"]; i.v != nil {
				good = isParam(s.PTIn(i.c, i.v), "arg2")
			}
		}
		k.check(good, R, construct, at, "the certificate of the server is checked or not regardless of what was asked for (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// extraction: the token taken from a configuration is that of the user of its current context.
func (k *K) extraction(R string) {
	fn := k.fn("auth.ExtractTokenFromKubeconfig")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	isTok := func(t *Term) bool { return isField(t, "Token") }
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if x, eq, ok := isEmpty(t, taken); ok && isTok(x) && !eq {
			addFlag(s, "some")
		}
		nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "clientcmd.LoadFromFile") != nil }, "loaded")
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		at := k.pr.at(ret)
		if s.RetVal(ret, 1) == "nonnil" {
			k.check(s.RetPT(ret, 0).Sym == `""`, R, construct, at, "a token is returned with an error (path %s)", s.Trace())
			return
		}
		t := s.RetPT(ret, 0)
		good := false
		if isTok(t) && t.Args[0].Op == "lookup" && isField(t.Args[0].Args[0], "AuthInfos") {
			u := t.Args[0].Args[1]
			if isField(u, "AuthInfo") && u.Args[0].Op == "lookup" && isField(u.Args[0].Args[0], "Contexts") {
				cur := u.Args[0].Args[1]
				good = isField(cur, "CurrentContext") && extOf(cur.Args[0], 0, "clientcmd.LoadFromFile") != nil
			}
		}
		k.check(good, R, construct, at, "what is returned, %s, is not the token of the user of the current context (path %s)", short(t), s.Trace())
		k.check(hasFlag(s, "loaded:nil") && hasFlag(s, "some"), R, construct, at, "there may be no token (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

func itoaN(n int) string { return strconv.Itoa(n) }

// isEmpty: the condition tests whether a text is empty; returns the text and whether it is.
func isEmpty(t *Term, taken bool) (*Term, bool, bool) {
	if x, eq, ok := eqConst(t, `""`, taken); ok {
		return x, eq, true
	}
	for t.Op == "un" && t.Sym == "!" {
		t, taken = t.Args[0], !taken
	}
	if t.Op != "bin" || len(t.Args) != 2 || !isCallTo(t.Args[0], "builtin.len") || t.Args[1].Op != "const" {
		return nil, false, false
	}
	switch t.Sym + t.Args[1].Sym {
	case ">0", "!=0", ">=1":
		return t.Args[0].Args[0], !taken, true
	case "==0", "<=0", "<1":
		return t.Args[0].Args[0], taken, true
	}
	return nil, false, false
}
