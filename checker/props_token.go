package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const jwtPkg = "github.com/golang-jwt/jwt/v5"

func init() {
	register("S01", "authentication: every path of the authenticator: somebody is let in only after the bearer token of the request was verified with the key of the server, with the name, the namespaces and the rules of that token; the generator signs exactly the restrictions and the expiry asked for; no token is parsed without verification", runS01)
}

func runS01(k *K) {
	const R = "authentication"
	at := k.typeIn(authPkg, "JWTAuthenticator")
	gt := k.typeIn(authPkg, "TokenGenerator")
	ct := k.typeIn(authPkg, "Claims")
	if !k.check(at != nil && gt != nil && ct != nil, R, "auth", "", "the authenticator, the token generator or the claims were not found") {
		return
	}
	k.claims(R, ct)
	if fn := k.method(at, "AuthenticateRequest"); k.check(fn != nil, R, "auth.JWTAuthenticator.AuthenticateRequest", "", "the authenticator authenticates nothing") {
		k.authenticate(R, fn)
	}
	if fn := k.method(gt, "GenerateToken"); k.check(fn != nil, R, "auth.TokenGenerator.GenerateToken", "", "the generator generates nothing") {
		k.generate("token generation", fn)
	}
	k.noUnverified("verification")
}

// claims: the registered claims are those of the library, and every restriction is part of the token.
func (k *K) claims(R string, t *types.Named) {
	construct := "auth.Claims"
	pos := k.pr.pos(t.Obj().Pos())
	k.ok(R, construct, pos)
	ms := types.NewMethodSet(types.NewPointer(t))
	for _, m := range []string{"GetExpirationTime", "GetNotBefore"} {
		sel := ms.Lookup(nil, m)
		k.check(sel != nil && sel.Obj().Pkg() != nil && sel.Obj().Pkg().Path() == jwtPkg, R, construct, pos, "%s of the claims is not that of the library: expired tokens may be accepted", m)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		k.fail(R, construct, pos, "the claims are no struct")
		return
	}
	tags := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
		if f.Embedded() {
			k.check(tag == "", R, construct, pos, "the registered claims are stored under %q, where they are not looked for", tag)
			continue
		}
		k.check(tag != "-" && f.Exported(), R, construct, pos, "field %s does not become part of the token", f.Name())
		if tag == "" {
			tag = f.Name()
		}
		k.check(tags[strings.ToLower(tag)] == "", R, construct, pos, "fields %s and %s have the same name in the token", f.Name(), tags[strings.ToLower(tag)])
		tags[strings.ToLower(tag)] = f.Name()
		for _, r := range []string{"iss", "sub", "aud", "exp", "nbf", "iat", "jti"} {
			k.check(!strings.EqualFold(tag, r), R, construct, pos, "field %s hides the registered claim %q", f.Name(), r)
		}
	}
}

func isParse(nm string) bool {
	return nm == "jwt.ParseWithClaims" || nm == "jwt.Parser.ParseWithClaims"
}

// isPublicKey: the key of the server the authenticator was made with.
func isPublicKey(t *Term) bool {
	if t.V == nil {
		return false
	}
	p, ok := t.V.Type().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "crypto/rsa" && n.Obj().Name() == "PublicKey"
}

// keyFunc: the key handed to the verification is the public key of the server.
func (k *K) keyFunc(R string, s *St, v ssa.Value, ok func(*Term) bool) {
	c, w := s.Root(v)
	tg := k.R.funcValue(c, w)
	if tg == nil {
		k.fail(R, fnName(s.Ctx.fn), k.pr.pos(v.Pos()), "undecided: the key is chosen by %s", short(s.PT(v)))
		return
	}
	construct := fnName(tg.fn)
	k.ok(R, construct, k.pr.pos(tg.fn.Pos()))
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	rule.Exit = func(s *St, ret *ssa.Return) {
		key := s.RetPT(ret, 0)
		if isNil(key) {
			k.check(s.RetVal(ret, 1) != "nil", R, construct, k.pr.at(ret), "no key is returned, with no error (path %s)", s.Trace())
			return
		}
		k.check(isPublicKey(key) && ok(key), R, construct, k.pr.at(ret), "the token is verified with %s instead of the public key of the server (path %s)", short(key), s.Trace())
	}
	x := k.explore(rule)
	x.RunCtx(k.R.ctx(nil, nil, nil, tg.fn, tg.mc, tg.mcCtx), "")
	k.done(x, R, construct)
}

func (k *K) authenticate(R string, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	header := func(t *Term) bool {
		return t.Has(func(x *Term) bool {
			if x.Op == "call" && strings.HasSuffix(x.Sym, "http.Header.Get") && len(x.Args) == 2 {
				return x.Args[1].Sym == `"Authorization"` && x.Args[0].Has(func(y *Term) bool { return isParam(y, "arg0") })
			}
			return x.Op == "lookup" && len(x.Args) == 2 && x.Args[1].Sym == `"Authorization"` && x.Args[0].Has(func(y *Term) bool { return isParam(y, "arg0") })
		})
	}
	claims := map[string]bool{}
	isClaims := func(t *Term) bool { return claims[t.String()] }
	claim := func(name string) func(*Term) bool {
		return func(t *Term) bool { return isField(t, name) && isClaims(t.Args[0]) }
	}
	names, rules := claim("Namespaces"), claim("Rules")
	parsed := func(t *Term) bool { return extOf(t, 1, "jwt.ParseWithClaims", "jwt.Parser.ParseWithClaims") != nil }
	nparse := 0
	rule := &Rule{MaxDepth: 6, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		switch {
		case nilEdge(s, t, taken, parsed, "err"):
		case lenEdge(s, t, taken, names, "names"):
		case lenEdge(s, t, taken, rules, "rules"):
		case nilEdge(s, t, taken, names, "nilnames"), nilEdge(s, t, taken, rules, "nilrules"):
		case nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "json.Marshal") != nil }, "merr"):
		case boolEdge(s, t, taken, func(x *Term) bool { return isField(x, "Valid") }, "valid"):
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		switch {
		case isParse(nm):
			a := callArgs(call.Common())
			if nm != "jwt.ParseWithClaims" {
				a = a[1:]
			}
			nparse++
			at := k.pr.at(call)
			k.check(header(s.PT(a[0])), R, construct, at, "the token that is verified, %s, is not that of the request (path %s)", short(s.PT(a[0])), s.Trace())
			k.keyFunc(R, s, a[2], func(t *Term) bool { return t.Has(func(y *Term) bool { return isParam(y, "recv") }) })
			ct := s.PT(a[1])
			claims[ct.String()] = true
			claims["*("+ct.String()+")"] = true
			f := parseFlags(s.Auto)
			f["parsed"] = true
			s.Auto = f.String()
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.MapUpdate:
			key, val := s.PT(y.Key), s.PT(y.Value)
			f := parseFlags(s.Auto)
			switch key.Sym {
			case `"namespaces"`:
				if k.check(names(val) || isCallTo(val, "slices.Clone") && names(val.Args[0]), R, construct, k.pr.at(in), "the namespaces of the user are %s instead of those of the token (path %s)", short(val), s.Trace()) {
					f["ns"] = true
				}
			case `"rules"`:
				es := k.sliceElemsOn(s, y.Value)
				good := len(es) == 1 && es[0].Has(func(x *Term) bool { return isCallTo(x, "json.Marshal") && rules(x.Args[0]) })
				if k.check(good, R, construct, k.pr.at(in), "the rules of the user are %s instead of those of the token (path %s)", short(val), s.Trace()) {
					f["rl"] = true
				}
			}
			s.Auto = f.String()
		case *ssa.Store:
			if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
				if isClaims(s.PT(fa.X)) && parseFlags(s.Auto)["parsed"] {
					k.fail(R, construct, k.pr.at(in), "the claims of the token are changed (path %s)", s.Trace())
				}
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		at := k.pr.at(ret)
		switch s.RetVal(ret, 1) {
		case "false":
			resp := s.RetPT(ret, 0)
			k.check(isNil(resp), R, construct, at, "a user is returned although none was authenticated (path %s)", s.Trace())
			return
		case "true":
		default:
			k.fail(R, construct, at, "undecided: whether the request is let in depends on %s (path %s)", short(s.RetPT(ret, 1)), s.Trace())
			return
		}
		k.check(f["parsed"] && f["err:nil"], R, construct, at, "the request is let in although its token may not have been verified (path %s)", s.Trace())
		k.check(f["ns"] || f["!names"] || f["nilnames:nil"], R, construct, at, "the namespace restrictions of the token are dropped (path %s)", s.Trace())
		k.check(f["rl"] || f["!rules"] || f["nilrules:nil"], R, construct, at, "the rules of the token are dropped (path %s)", s.Trace())
		k.check(!f["rl"] || f["rules"] || f["nilrules:set"], R, construct, at, "a token without rules may be given an empty list of rules, which allows nothing (path %s)", s.Trace())
		k.check(!f["rl"] || f["merr:nil"], R, construct, at, "the rules may not have been encoded (path %s)", s.Trace())
		resp := k.literal(s, s.retVal(ret, 0))
		user, ok := resp["User"]
		if !k.check(ok && user.v != nil, R, construct, at, "undecided: who is let in? (path %s)", s.Trace()) {
			return
		}
		info := k.literalIn(s, user.c, user.v)
		name, extra := info["Name"], info["Extra"]
		k.check(name.v != nil && claim("Username")(s.PTIn(name.c, name.v)), R, construct, at, "the name of the user is not that of the token (path %s)", s.Trace())
		if f["ns"] || f["rl"] {
			k.check(extra.v != nil && s.PTIn(extra.c, extra.v).Op == "alloc", R, construct, at, "the restrictions of the token are not handed on with the user (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(nparse > 0, R, construct, k.pr.pos(fn.Pos()), "no token is verified")
}

// sliceElemsOn are the elements of a list made in place.
func (k *K) sliceElemsOn(s *St, v ssa.Value) []*Term {
	c, w := s.Root(v)
	var r []*Term
	for _, e := range k.sliceElems(c, w) {
		r = append(r, s.PTIn(e.c, e.v))
	}
	return r
}

func (k *K) generate(R string, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	signed := 0
	now := func(t *Term) bool { return isCallTo(t, "time.Now") }
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		at := k.pr.at(call)
		switch nm {
		case "jwt.NewWithClaims":
			m := s.PT(a[0]).String()
			good := false
			for _, n := range []string{"SigningMethodRS256", "SigningMethodRS384", "SigningMethodRS512"} {
				good = good || strings.Contains(m, "jwt."+n)
			}
			k.check(good, R, construct, at, "tokens are signed with %s, which the authenticator does not accept", m)
			cl := k.literal(s, a[1])
			if !k.check(cl != nil, R, construct, at, "undecided: the claims are %s (path %s)", short(s.PT(a[1])), s.Trace()) {
				return
			}
			for f, p := range map[string]string{"Username": "arg0", "Namespaces": "arg1", "Rules": "arg2"} {
				v := cl[f]
				good := v.v != nil
				if good {
					t := s.PTIn(v.c, v.v)
					good = isParam(t, p) || isCallTo(t, "slices.Clone") && isParam(t.Args[0], p)
				}
				k.check(good, R, construct, at, "claim %s is not what was asked for (path %s)", f, s.Trace())
			}
			reg := cl["RegisteredClaims"]
			var rc map[string]ctxVal
			if reg.v != nil {
				rc = k.literalIn(s, reg.c, reg.v)
			}
			e := rc["ExpiresAt"]
			if e.v == nil {
				e = cl["ExpiresAt"]
			}
			good = false
			if e.v != nil {
				t := s.PTIn(e.c, e.v)
				good = isCallTo(t, "jwt.NewNumericDate") && isCallTo(t.Args[0], "time.Time.Add") && now(t.Args[0].Args[0]) && isParam(t.Args[0].Args[1], "arg3")
			}
			k.check(good, R, construct, at, "the token does not expire after the time asked for (path %s)", s.Trace())
			for _, n := range []string{"NotBefore"} {
				if v := rc[n]; v.v != nil {
					t := s.PTIn(v.c, v.v)
					k.check(isNil(t) || isCallTo(t, "jwt.NewNumericDate") && now(t.Args[0]), R, construct, at, "the token may not be valid from now on (path %s)", s.Trace())
				}
			}
		case "jwt.Token.SignedString":
			signed++
			key := s.PT(a[1])
			k.check(key.Has(func(x *Term) bool { return isParam(x, "recv") }), R, construct, at, "the token is signed with %s instead of the private key of the generator (path %s)", short(key), s.Trace())
		case "jwt.Token.SigningString":
			k.fail(R, construct, at, "the token is not signed")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, 1) == "nil" || s.RetPT(ret, 0).Sym != `""` {
			t := s.RetPT(ret, 0)
			k.check(extOf(t, 0, "jwt.Token.SignedString") != nil, R, construct, k.pr.at(ret), "what is returned is %s instead of the signed token (path %s)", short(t), s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(signed > 0, R, construct, k.pr.pos(fn.Pos()), "no token is signed")
}

// noUnverified: nothing in the module takes the claims of a token without verifying it, nor switches
// off part of the verification.
func (k *K) noUnverified(R string) {
	n := 0
	for _, f := range k.pr.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				nm := k.R.calleeName(k.R.rootCtx(f), ci.Common())
				at := k.pr.at(in)
				switch nm {
				case "jwt.ParseWithClaims", "jwt.Parser.ParseWithClaims", "jwt.Parse", "jwt.Parser.Parse":
					n++
					k.ok(R, fnName(f), at)
				case "jwt.Parser.ParseUnverified":
					k.fail(R, fnName(f), at, "a token is read without being verified")
				case "jwt.WithoutClaimsValidation":
					k.fail(R, fnName(f), at, "expired tokens are accepted")
				case "jwt.WithTimeFunc":
					k.fail(R, fnName(f), at, "the expiry of tokens is checked against another clock")
				case "jwt.WithLeeway":
					t := k.R.T(k.R.rootCtx(f), ci.Common().Args[0])
					k.check(t.Op == "const" && t.Sym == "0", R, fnName(f), at, "tokens are accepted after their expiry")
				}
			}
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == jwtPkg && strings.Contains(g.Name(), "None") {
						k.fail(R, fnName(f), k.pr.at(in), "unsigned tokens are allowed")
					}
					if c, ok := (*op).(*ssa.Const); ok && strings.Contains(c.Type().String(), "unsafeNoneMagicConstant") {
						k.fail(R, fnName(f), k.pr.at(in), "unsigned tokens are allowed")
					}
				}
			}
		}
	}
	k.check(n > 0, R, "jwt", "", "no token is verified anywhere")
}
