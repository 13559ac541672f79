package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const apiPkg = "pkg/apiserver"

func init() {
	register("S03", "request chain: the handler chain of the API server on every path of its construction: every request passes request info, authentication and authorization, in this order, before it reaches a handler, whenever these are configured; every server of the package serves the full chain; the start command configures both unless told otherwise", runS03)
}

// storesOf: the stores to a field in the module.
func (k *K) storesOf(field string) []*ssa.Store {
	var r []*ssa.Store
	for _, f := range k.pr.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
					r = append(r, st)
				}
			}
		}
	}
	return r
}

func runS03(k *K) {
	k.chains("request chain")
	k.serverConfig("server configuration")
	k.servers("servers")
	k.startAuth("start command")
}

// chains: the handler chain built for the server.
func (k *K) chains(R string) {
	n := 0
	for _, st := range k.storesOf("BuildHandlerChainFunc") {
		n++
		c := k.R.rootCtx(st.Parent())
		tg := k.R.funcValue(c, st.Val)
		if !k.check(tg != nil, R, fnName(st.Parent()), k.pr.at(st), "undecided: the chain is built by %s", short(k.R.T(c, st.Val))) {
			continue
		}
		k.chain(R, tg)
	}
	k.check(n > 0, R, "GenericAPIServer", "", "the handler chain of the server was not found")
}

func (k *K) chain(R string, tg *target) {
	fn := tg.fn
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	conf := func(name string) func(*Term) bool {
		return func(t *Term) bool {
			return isField(t, name) && t.Has(func(x *Term) bool { return isParam(x, "arg1") })
		}
	}
	authn, authz := conf("Authenticator"), conf("Authorizer")
	rule := &Rule{MaxDepth: 6, Flow: true, Keep: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		switch {
		case nilEdge(s, t, taken, authn, "authn"):
		case nilEdge(s, t, taken, authz, "authz"):
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		pos := map[string]int{}
		c, v := s.Root(s.retVal(ret, 0))
		ok := false
		for i := 1; i < 40; i++ {
			c, v = s.RootIn(c, v)
			c, v = k.R.norm(c, v)
			c, v = s.RootIn(c, v)
			t := s.PTIn(c, v)
			if isParam(t, "arg0") {
				ok = true
				break
			}
			cl, isCall := v.(*ssa.Call)
			if !isCall {
				mc, isClosure := v.(*ssa.MakeClosure)
				if !isClosure {
					break
				}
				c, v = k.wrapper(R, s, c, mc)
				if v == nil {
					return
				}
				continue
			}
			nm := k.R.calleeName(c, cl.Common())
			a := callArgs(cl.Common())
			arg := func(i int) *Term { return s.PTIn(c, a[i]) }
			switch nm {
			case "server.DefaultBuildHandlerChain":
				pos["filters.WithRequestInfo"], pos["filters.WithAuthentication"], pos["filters.WithAuthorization"] = i, i+1, i+2
				i += 2
			case "filters.WithAuthorization":
				k.check(authz(arg(1)), R, construct, at, "requests are authorized by %s instead of the configured authorizer (path %s)", short(arg(1)), s.Trace())
			case "filters.WithAuthentication":
				k.check(authn(arg(1)), R, construct, at, "requests are authenticated by %s instead of the configured authenticator (path %s)", short(arg(1)), s.Trace())
				k.check(unauthorized(arg(2)), R, construct, at, "requests that fail authentication are handed to %s instead of being refused (path %s)", short(arg(2)), s.Trace())
			}
			if _, dup := pos[nm]; !dup {
				pos[nm] = i
			}
			if len(a) == 0 {
				break
			}
			v = a[0]
		}
		if !k.check(ok, R, construct, at, "undecided: what %s serves (path %s)", short(s.PTIn(c, v)), s.Trace()) {
			return
		}
		ri, an, az := pos["filters.WithRequestInfo"], pos["filters.WithAuthentication"], pos["filters.WithAuthorization"]
		k.check(ri > 0, R, construct, at, "requests are handled without their request info (path %s)", s.Trace())
		k.check(az > 0 || f["authz:nil"], R, construct, at, "requests may be handled without authorization although an authorizer is configured (path %s)", s.Trace())
		k.check(an > 0 || f["authn:nil"], R, construct, at, "requests may be handled without authentication although an authenticator is configured (path %s)", s.Trace())
		k.check(az == 0 || ri < az && an < az, R, construct, at, "requests are authorized before they are authenticated or analyzed (path %s)", s.Trace())
		k.check(an == 0 || ri < an, R, construct, at, "requests are authenticated before they are analyzed (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.RunCtx(k.R.ctx(nil, nil, nil, tg.fn, tg.mc, tg.mcCtx), "")
	k.done(x, R, construct)
}

// unauthorized: the handler refuses the request.
func unauthorized(t *Term) bool {
	for i := 0; i < 10; i++ {
		if isCallTo(t, "filters.Unauthorized") {
			return true
		}
		if t.Op != "call" || !strings.HasPrefix(t.Sym, "filters.With") || len(t.Args) == 0 {
			return false
		}
		t = t.Args[0]
	}
	return false
}

// wrapper: a handler made of a function; it has to call one handler with the request on every path.
func (k *K) wrapper(R string, s *St, c *Ctx, mc *ssa.MakeClosure) (*Ctx, ssa.Value) {
	fn := mc.Fn.(*ssa.Function)
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	var nc *Ctx
	var nv ssa.Value
	bad := false
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	rule.Call = func(n *St, call ssa.CallInstruction, nm string) {
		if !strings.HasSuffix(nm, ".ServeHTTP") {
			return
		}
		f := parseFlags(n.Auto)
		f["served"] = true
		n.Auto = f.String()
		a := callArgs(call.Common())
		at := k.pr.at(call)
		req := n.PT(a[2])
		good := isParam(n.PT(a[1]), "arg0") && (isParam(req, "arg1") || isCallTo(req, "http.Request.WithContext") && isParam(req.Args[0], "arg1"))
		if !k.check(good, R, construct, at, "the next handler is called with %s and %s instead of the response and the request (path %s)", short(n.PT(a[1])), short(req), n.Trace()) {
			bad = true
		}
		cc, v := n.Root(a[0])
		if nv != nil && (nc != cc || nv != v) {
			k.fail(R, construct, at, "undecided: several handlers are called")
			bad = true
		}
		nc, nv = cc, v
	}
	rule.Exit = func(n *St, ret *ssa.Return) {
		if !k.check(parseFlags(n.Auto)["served"], R, construct, k.pr.at(ret), "a request is dropped (path %s)", n.Trace()) {
			bad = true
		}
	}
	x := k.explore(rule)
	x.RunCtx(k.R.ctx(nil, nil, nil, fn, mc, c), "")
	k.done(x, R, construct)
	if bad || nv == nil {
		return nil, nil
	}
	return nc, nv
}

// serverConfig: what the server is configured with becomes the configuration of the library server.
func (k *K) serverConfig(R string) {
	n := 0
	seen := map[*ssa.Function]bool{}
	for _, st := range k.storesOf("BuildHandlerChainFunc") {
		fn := st.Parent()
		if seen[fn] {
			continue
		}
		seen[fn] = true
		n++
		construct := fnName(fn)
		k.ok(R, construct, k.pr.pos(fn.Pos()))
		own := func(name string) func(*Term) bool {
			return func(t *Term) bool {
				return isField(t, name) && (isField(t.Args[0], "config") || isCfg(t.Args[0]))
			}
		}
		rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			t := s.condPT(cond)
			switch {
			case nilEdge(s, t, taken, own("Authenticator"), "authn"):
			case nilEdge(s, t, taken, own("Authorizer"), "authz"):
			}
		}
		rule.Instr = func(s *St, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			f := parseFlags(s.Auto)
			switch name := fieldName(fa.X.Type(), fa.Field); name {
			case "Authenticator", "Authorizer":
				if !strings.Contains(fa.X.Type().String(), "server.") {
					return
				}
				k.check(own(name)(s.PT(st.Val)), R, construct, k.pr.at(in), "the %s of the server is %s instead of the configured one (path %s)", strings.ToLower(name), short(s.PT(st.Val)), s.Trace())
				f[name] = true
			case "BuildHandlerChainFunc":
				f["chain"] = true
			}
			s.Auto = f.String()
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			if n := len(ret.Results); n > 0 && isErrTerm(s.RetPT(ret, n-1)) || s.RetVal(ret, len(ret.Results)-1) != "nil" {
				return
			}
			f := parseFlags(s.Auto)
			at := k.pr.at(ret)
			k.check(f["chain"], R, construct, at, "the server may not be given its handler chain (path %s)", s.Trace())
			k.check(f["Authenticator"] || f["authn:nil"], R, construct, at, "the configured authenticator may not be given to the server (path %s)", s.Trace())
			k.check(f["Authorizer"] || f["authz:nil"], R, construct, at, "the configured authorizer may not be given to the server (path %s)", s.Trace())
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, construct)
	}
	k.check(n > 0, R, "GenericAPIServer", "", "the configuration of the server was not found")
}

// isCfg: a value of the configuration type of the API server.
func isCfg(t *Term) bool {
	if t.V == nil {
		return false
	}
	n, ok := deref(t.V.Type()).(*types.Named)
	return ok && n.Obj().Name() == "Config" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), apiPkg)
}

// servers: every HTTP server of the module serves the full handler chain.
func (k *K) servers(R string) {
	n := 0
	full := func(t *Term) bool {
		if !isField(t, "Handler") || t.Args[0].V == nil {
			return false
		}
		nt, ok := deref(t.Args[0].V.Type()).(*types.Named)
		return ok && nt.Obj().Name() == "GenericAPIServer"
	}
	for _, f := range k.pr.Funcs {
		c := k.R.rootCtx(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var t *Term
				switch y := in.(type) {
				case *ssa.Store:
					fa, ok := y.Addr.(*ssa.FieldAddr)
					if !ok || fieldName(fa.X.Type(), fa.Field) != "Handler" || !strings.HasSuffix(deref(fa.X.Type()).String(), "net/http.Server") {
						continue
					}
					t = k.R.T(c, y.Val)
				case ssa.CallInstruction:
					nm := k.R.calleeName(c, y.Common())
					switch nm {
					case "http.Serve", "http.ServeTLS", "http.ListenAndServe", "http.ListenAndServeTLS":
						t = k.R.T(c, y.Common().Args[len(y.Common().Args)-1])
						if nm == "http.Serve" || nm == "http.ListenAndServe" || nm == "http.ServeTLS" {
							t = k.R.T(c, y.Common().Args[1])
						}
					default:
						continue
					}
				default:
					continue
				}
				n++
				k.check(full(t), R, fnName(f), k.pr.at(in), "a server is run with %s instead of the full handler chain: requests bypass authentication and authorization", short(t))
			}
		}
	}
	k.check(n > 0, R, "http.Server", "", "no HTTP server found")
}

// flagFields: the names of the fields the flags of a command are stored to, by flag.
func (k *K) flagFields(f *ssa.Function) map[string]string {
	r := map[string]string{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			nm := k.R.calleeName(nil, ci.Common())
			if !strings.HasPrefix(nm, "pflag.FlagSet.") || !strings.HasSuffix(nm, "Var") && !strings.HasSuffix(nm, "VarP") {
				continue
			}
			a := callArgs(ci.Common())
			if len(a) < 3 {
				continue
			}
			fa, ok := a[1].(*ssa.FieldAddr)
			if !ok {
				continue
			}
			r[strings.Trim(k.R.T(nil, a[2]).Sym, `"`)] = fieldName(fa.X.Type(), fa.Field)
		}
	}
	return r
}

// startAuth: the start command runs the API server with authentication and authorization unless it
// is told to do without.
func (k *K) startAuth(R string) {
	n := 0
	for _, f := range k.pr.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" || f.Parent() != nil {
			continue
		}
		if !k.calls(f, "apiserver.NewAPIServer") {
			continue
		}
		n++
		k.startCmd(R, f)
	}
	k.check(n > 0, R, "main", "", "no command starts the API server")
}

func (k *K) calls(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && k.R.calleeName(k.R.rootCtx(f), ci.Common()) == name {
				return true
			}
		}
	}
	return false
}

// boundFlags: the flags of the package main, by name.
func (k *K) boundFlags(flag string) map[string]bool {
	r := map[string]bool{}
	for _, f := range k.pr.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			if n := k.flagFields(f)[flag]; n != "" {
				r[n] = true
			}
		}
	}
	return r
}

func (k *K) startCmd(R string, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	opt := func(flag string) func(*Term) bool {
		names := k.boundFlags(flag)
		return func(t *Term) bool { return t.Op == "field" && names[t.Sym] && t.Args[0].Op == "param" }
	}
	http, off, cert := opt("http"), opt("disable-authentication"), opt("tls-cert-file")
	loaded := func(t *Term) bool { return extOf(t, 1, "auth.LoadPublicKey") != nil }
	rule := &Rule{MaxDepth: 6, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		switch {
		case boolEdge(s, t, taken, http, "http"):
		case boolEdge(s, t, taken, off, "off"):
		case nilEdge(s, t, taken, loaded, "key"):
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm != "apiserver.NewAPIServer" {
			return
		}
		f := parseFlags(s.Auto)
		at := k.pr.at(call)
		if f["http"] || f["off"] {
			return
		}
		cfg := k.literal(s, call.Common().Args[0])
		an, az := cfg["Authenticator"], cfg["Authorizer"]
		good := an.v != nil
		if good {
			t := s.PTIn(an.c, an.v)
			good = isCallTo(t, "auth.NewJWTAuthenticator")
			if good {
				key := extOf(t.Args[0], 0, "auth.LoadPublicKey")
				k.check(key != nil && cert(key.Args[0]), R, construct, at, "tokens are verified with %s instead of the key of the server (path %s)", short(t.Args[0]), s.Trace())
				k.check(f["key:nil"], R, construct, at, "the server is started although its key may not have been loaded (path %s)", s.Trace())
			}
		}
		k.check(good, R, construct, at, "the API server may be started without authentication although it was not switched off (path %s)", s.Trace())
		good = az.v != nil
		if good {
			good = isCallTo(s.PTIn(az.c, az.v), "auth.NewCompositeAuthorizer")
		}
		k.check(good, R, construct, at, "the API server may be started without authorization although it was not switched off (path %s)", s.Trace())
		f["started"] = true
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}
