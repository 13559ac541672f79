package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where secrets go: private keys, access tokens, configurations with tokens and requests with them are
// followed along every path to files, logs and the terminal.

func init() {
	register("S09", "key material: every path of the functions that make, read or write private keys and access configurations: private keys and tokens are only written to files nobody else can read and are never printed; the certificate certifies the key generated with it for every host asked for; key and certificate go to the files given for them", runS09)
	register("S12", "request log: every path of the functions of the API server and of the tool that log: no access token, and no request or header that may contain one, gets into a log or an error; the request handed on is the one received, complete", runS12)
}

type secrets struct {
	k      *K
	report func(s *St, kind, sink string, call ssa.CallInstruction)
	file   func(s *St, name, data *Term, kind string, call ssa.CallInstruction)
	reads  map[ssa.Value]bool // files read to get a private key
	ids    map[string]string
	nsink  int

	pending map[ssa.CallInstruction]string
}

func (w *secrets) id(t *Term) string {
	x := t.String()
	if w.ids[x] == "" {
		w.ids[x] = strconv.Itoa(len(w.ids))
	}
	return w.ids[x]
}

func namedPath(t types.Type) string {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

var logSinks = []string{"logr.Logger.Info", "logr.Logger.Error", "logr.Logger.WithValues", "logr.Logger.WithName", "klog.", "log.", "slog.", "zap.", "fmt.Print", "fmt.Fprint"}

func isLogSink(nm string) bool {
	for _, p := range logSinks {
		if strings.HasPrefix(nm, p) {
			return true
		}
	}
	return false
}

// kindOf: the kind of secret a value is or contains on this path, "" if none.
func (w *secrets) kindOf(s *St, c *Ctx, v ssa.Value, depth int) string {
	if depth > 12 || v == nil {
		return ""
	}
	c, v = s.RootIn(c, v)
	if l := string(s.env[envKey{c.id, v, labIdx}]); strings.HasPrefix(l, "secret:") {
		return l[7:]
	}
	switch namedPath(v.Type()) {
	case "crypto/rsa.PrivateKey", "crypto/ecdsa.PrivateKey", "crypto/ed25519.PrivateKey":
		if !isNil(s.PTIn(c, v)) {
			return "key"
		}
	case "crypto/rsa.PublicKey":
		return ""
	case "net/http.Request":
		if w.redactedRequest(s, c, v) {
			return ""
		}
		return "request"
	case "net/http.Header":
		if hasFlag(s, "redacted:"+w.id(s.PTIn(c, v))) {
			return ""
		}
		return "request"
	case "k8s.io/client-go/tools/clientcmd/api.Config":
		return "config"
	case "github.com/golang-jwt/jwt/v5.Token":
		return "token"
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
		return ""
	}
	if t := s.PTIn(c, v); t.V != nil && w.reads[t.V] {
		return "key"
	}
	switch y := v.(type) {
	case *ssa.Extract:
		return w.kindOf2(s, c, y)
	case *ssa.Convert:
		return w.kindOf(s, c, y.X, depth+1)
	case *ssa.BinOp:
		if k := w.kindOf(s, c, y.X, depth+1); k != "" {
			return k
		}
		return w.kindOf(s, c, y.Y, depth+1)
	case *ssa.Slice:
		for _, e := range w.k.sliceElems(c, y) {
			if k := w.kindOf(s, e.c, e.v, depth+1); k != "" {
				return k
			}
		}
		return w.kindOf(s, c, y.X, depth+1)
	case *ssa.Lookup:
		if namedPath(y.X.Type()) == "net/http.Header" {
			return w.header(s.PTIn(c, y.Index))
		}
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return ""
		}
		fa, ok := y.X.(*ssa.FieldAddr)
		if !ok {
			if al, ok := y.X.(*ssa.Alloc); ok {
				return w.kindOf(s, c, al, depth+1)
			}
			return ""
		}
		f := fieldName(fa.X.Type(), fa.Field)
		switch b := namedPath(fa.X.Type()); {
		case f == "Token" && strings.HasSuffix(b, "clientcmd/api.AuthInfo"), f == "BearerToken" && strings.HasSuffix(b, "rest.Config"):
			return "token"
		case b == "crypto/rsa.PrivateKey":
			return "key"
		}
	case *ssa.Alloc:
		for n, e := range w.k.literalIn(s, c, y) {
			if !strings.HasPrefix(n, "@") {
				if k := w.kindOf(s, e.c, e.v, depth+1); k != "" {
					return k
				}
			}
		}
	}
	return ""
}

func (w *secrets) kindOf2(s *St, c *Ctx, x *ssa.Extract) string {
	if types.Identical(x.Type(), errorType) {
		return ""
	}
	l := string(s.env[envKey{c.id, x.Tuple, labIdx}])
	if strings.HasPrefix(l, "secret:") {
		return l[7:]
	}
	return ""
}

func (w *secrets) header(key *Term) string {
	if key.Op == "const" && !strings.EqualFold(strings.Trim(key.Sym, `"`), "Authorization") {
		return ""
	}
	return "token"
}

// redactedRequest: a copy of a request whose headers do not contain the token.
func (w *secrets) redactedRequest(s *St, c *Ctx, v ssa.Value) bool {
	if h, ok := w.k.literalIn(s, c, v)["Header"]; ok {
		return hasFlag(s, "redacted:"+w.id(s.PTIn(h.c, h.v)))
	}
	h := &Term{Op: "field", Sym: "Header", Args: []*Term{s.PTIn(c, v)}}
	return hasFlag(s, "redacted:"+w.id(h))
}

// what a call makes of the secrets it gets
func (w *secrets) result(s *St, call ssa.CallInstruction, nm string) string {
	a := callArgs(call.Common())
	switch nm {
	case "x509.MarshalPKCS1PrivateKey", "x509.MarshalPKCS8PrivateKey", "x509.MarshalECPrivateKey":
		return "key"
	case "jwt.Token.SignedString", "auth.TokenGenerator.GenerateToken", "auth.ExtractTokenFromKubeconfig":
		return "token"
	case "auth.GenerateKubeconfig":
		return "config"
	case "http.Header.Get", "http.Header.Values":
		return w.header(s.PT(a[1]))
	case "x509.CreateCertificate", "tls.X509KeyPair", "tls.LoadX509KeyPair", "auth.NewTokenGenerator", "builtin.len", "builtin.cap", "os.WriteFile", "jwt.ParseWithClaims", "jwt.Parser.ParseWithClaims":
		return ""
	}
	if strings.HasPrefix(nm, "x509.Parse") || strings.HasPrefix(nm, "rsa.") {
		return ""
	}
	if r := call.Common().Signature().Results(); r.Len() == 1 && types.Identical(r.At(0).Type(), errorType) && !strings.HasPrefix(nm, "fmt.") && !strings.HasPrefix(nm, "errors.") {
		return ""
	}
	dumper := false
	for _, p := range []string{"httputil.DumpRequest", "fmt.", "json.", "yaml.", "strings.", "bytes.", "spew.", "errors."} {
		dumper = dumper || strings.HasPrefix(nm, p)
	}
	if f := call.Common().StaticCallee(); f != nil && inModule(f) {
		return ""
	}
	for _, x := range a {
		if k := w.kindOf(s, s.Ctx, x, 0); k != "" && (dumper || k != "request") {
			return k
		}
	}
	return ""
}

func fileOf(t *Term) *Term {
	var r *Term
	t.Has(func(x *Term) bool {
		if e := extOf(x, 0, "os.OpenFile", "os.Create", "os.CreateTemp"); e != nil {
			r = e
			return true
		}
		return false
	})
	return r
}

func ownerOnly(t *Term) bool {
	if t.Op != "const" {
		return false
	}
	n, err := strconv.ParseUint(t.Sym, 0, 32)
	return err == nil && n&0o077 == 0
}

func (w *secrets) rule(inline func(*St, ssa.CallInstruction, *ssa.Function) bool) *Rule {
	k := w.k
	rule := &Rule{MaxDepth: 7, Flow: true, Inline: inline}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		w.pending[call] = w.result(s, call, nm)
		switch nm {
		case "http.Header.Del", "http.Header.Set", "builtin.delete":
			if namedPath(a[0].Type()) != "net/http.Header" || w.header(s.PT(a[1])) == "" || s.PT(a[1]).Op != "const" {
				return
			}
			if nm == "http.Header.Set" && s.PT(a[2]).Op != "const" {
				return
			}
			h := s.PT(a[0])
			if isCallTo(h, "http.Header.Clone") || isField(h, "Header") && isCallTo(h.Args[0], "http.Request.Clone") {
				addFlag(s, "redacted:"+w.id(h))
			} else {
				w.report(s, "", "the headers of the request itself are changed", call)
			}
			return
		case "os.WriteFile":
			kind := w.kindOf(s, s.Ctx, a[1], 0)
			w.nsink++
			if kind != "" && kind != "request" && !ownerOnly(s.PT(a[2])) {
				w.report(s, kind, "is written to a file others can read", call)
			}
			if w.file != nil {
				w.file(s, s.PT(a[0]), s.PT(a[1]), kind, call)
			}
			return
		}
		if f := call.Common().StaticCallee(); f != nil && inModule(f) {
			return
		}
		if isLogSink(nm) || strings.HasPrefix(nm, "os.File.Write") || strings.HasPrefix(nm, "io.") || strings.HasPrefix(nm, "pem.Encode") || strings.HasPrefix(nm, "bufio.") {
			w.nsink++
			for i, x := range a {
				kind := w.kindOf(s, s.Ctx, x, 0)
				if kind == "" && (w.file == nil || i == 0 || !strings.HasPrefix(nm, "os.File.Write")) {
					continue
				}
				var f *Term
				out := ""
				for j, y := range a {
					if j == i {
						continue
					}
					if g := fileOf(s.PT(y)); g != nil {
						f = g
					}
					if t := s.PT(y).String(); strings.Contains(t, "os.Stdout") || strings.Contains(t, "os.Stderr") {
						out = t
					}
				}
				switch {
				case f != nil && kind == "":
					w.file(s, f.Args[0], s.PT(x), kind, call)
				case f != nil:
					mode := f.Args[len(f.Args)-1]
					if !isCallTo(f, "os.CreateTemp") && (!isCallTo(f, "os.OpenFile") || !ownerOnly(mode)) {
						w.report(s, kind, "is written to a file others can read", call)
					}
					if w.file != nil {
						w.file(s, f.Args[0], s.PT(x), kind, call)
					}
				case kind == "":
				case kind == "config" && (strings.HasPrefix(nm, "fmt.Print") || strings.Contains(out, "os.Stdout")):
					// the product of the tool
				case out != "" || isLogSink(nm) && !strings.HasPrefix(nm, "fmt.Fprint"):
					w.report(s, kind, "is logged or printed", call)
				case nm != "builtin.append":
					// into a buffer
					for j, y := range a {
						if _, ok := y.Type().Underlying().(*types.Pointer); j != i && ok {
							s.SetLab(y, "secret:"+kind)
						} else if mi, ok := y.(*ssa.MakeInterface); j != i && ok {
							s.SetLab(mi.X, "secret:"+kind)
						}
					}
				}
			}
		}
		if nm == "fmt.Errorf" || nm == "errors.New" {
			for _, x := range a {
				if kind := w.kindOf(s, s.Ctx, x, 0); kind != "" {
					w.report(s, kind, "becomes part of an error message", call)
				}
			}
		}
		if nm == "x509.ParsePKCS1PrivateKey" || nm == "tls.X509KeyPair" {
			x := a[len(a)-1]
			s.PT(x).Has(func(t *Term) bool {
				if extOf(t, 0, "os.ReadFile") != nil && t.V != nil {
					w.reads[t.V] = true
				}
				return false
			})
		}
	}
	rule.AfterCall = func(s *St, call ssa.CallInstruction, nm string) {
		y, ok := call.(*ssa.Call)
		if !ok {
			return
		}
		if f := call.Common().StaticCallee(); f != nil && inModule(f) && rule.Inline(s, call, f) && nm != "auth.TokenGenerator.GenerateToken" && nm != "auth.GenerateKubeconfig" && nm != "auth.ExtractTokenFromKubeconfig" {
			return
		}
		key := envKey{s.Ctx.id, y, labIdx}
		if kind := w.pending[call]; kind != "" {
			s.env[key] = AVal("secret:" + kind)
		} else {
			delete(s.env, key)
		}
	}
	_ = k
	return rule
}

func inAuth(f *ssa.Function) bool {
	return fnPkg(f) != nil && strings.HasSuffix(fnPkg(f).Path(), authPkg)
}

func newSecrets(k *K) *secrets {
	return &secrets{k: k, reads: map[ssa.Value]bool{}, ids: map[string]string{}, pending: map[ssa.CallInstruction]string{}}
}

// secretRoots: the functions of the tool and of the auth package nobody else in them calls, and the
// exported ones.
func (k *K) secretRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range k.pr.Funcs {
		if (inAuth(f) || inMain(f)) && f.Blocks != nil && f.Synthetic == "" && f.Parent() == nil {
			r = append(r, f)
		}
	}
	return r
}

func runS09(k *K) {
	const R = "secrets"
	w := newSecrets(k)
	quiet := true
	w.report = func(s *St, kind, what string, call ssa.CallInstruction) {
		if quiet || kind == "" || kind == "request" {
			return
		}
		if kind != "key" && what != "is written to a file others can read" {
			return // S12
		}
		n := map[string]string{"key": "a private key", "token": "an access token", "config": "a configuration with an access token"}[kind]
		k.fail(R, fnName(s.Ctx.fn), k.pr.at(call), "%s %s (path %s)", n, what, s.Trace())
	}
	inl := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return (inAuth(callee) || inMain(callee)) && !recursive(callee)
	}
	cs := k.commands(R)
	gk := cs["generate-keys"]
	for i := 0; i < 2; i++ {
		quiet = i == 0
		for _, f := range k.secretRoots() {
			if fnName(f) == "main.main" || i == 0 && !strings.Contains(fnName(f), "auth.") {
				continue
			}
			x := k.explore(w.rule(inl))
			x.Run(f, "")
			if !quiet {
				k.done(x, R, fnName(f))
				k.ok(R, fnName(f), k.pr.pos(f.Pos()))
			}
		}
	}
	k.check(w.nsink > 0, R, "auth", "", "nothing is written anywhere")
	if k.check(gk != nil && gk.run.v != nil && gk.ctx(k) != nil, "key files", "generate-keys", "", "undecided: the command was not found") {
		k.keyFiles("key files", gk)
	}
	k.certificates("certificates")
}

// keyFiles: the certificate and the key generated are written to the files given for them.
func (k *K) keyFiles(R string, c *command) {
	const construct = "generate-keys"
	w := newSecrets(k)
	w.report = func(*St, string, string, ssa.CallInstruction) {}
	isKey := func(t *Term) bool {
		return extOf(t, 1, "auth.GenerateSelfSignedCertWithSANs", "auth.GenerateSelfSignedCert") != nil
	}
	isCert := func(t *Term) bool {
		return extOf(t, 0, "auth.GenerateSelfSignedCertWithSANs", "auth.GenerateSelfSignedCert") != nil
	}
	w.file = func(s *St, name, data *Term, kind string, call ssa.CallInstruction) {
		at := k.pr.at(call)
		if y, ok := call.(*ssa.Call); ok {
			e := ssa.Value(y)
			if !types.Identical(y.Type(), errorType) {
				for _, r := range *y.Referrers() {
					if x, ok := r.(*ssa.Extract); ok && types.Identical(x.Type(), errorType) {
						e = x
					}
				}
			}
			addFlag(s, "unknown:"+w.id(s.PT(e)))
		}
		switch {
		case isKey(data):
			k.check(c.setting(name, "tls-key-file"), R, construct, at, "the private key is written to %s (path %s)", short(name), s.Trace())
			addFlag(s, "key")
		case isCert(data):
			k.check(c.setting(name, "tls-cert-file"), R, construct, at, "the certificate is written to %s (path %s)", short(name), s.Trace())
			addFlag(s, "cert")
		default:
			k.fail(R, construct, at, "%s is written to %s (path %s)", short(data), short(name), s.Trace())
		}
	}
	rule := w.rule(func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return (inAuth(callee) || inMain(callee)) && !recursive(callee) && !strings.Contains(fnName(callee), "GenerateSelfSigned")
	})
	before := rule.Call
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if strings.HasPrefix(nm, "auth.GenerateSelfSigned") {
			k.check(c.setting(s.PT(callArgs(call.Common())[0]), "hostname"), R, construct, k.pr.at(call), "the certificate is not for the hosts asked for (path %s)", s.Trace())
		}
		before(s, call, nm)
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if x, eq, ok := eqConst(t, "nil", taken); ok && eq {
			dropFlag(s, "unknown:"+w.id(x))
		}
		nilEdge(s, t, taken, func(x *Term) bool {
			return extOf(x, 2, "auth.GenerateSelfSignedCertWithSANs", "auth.GenerateSelfSignedCert") != nil
		}, "generated")
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if len(ret.Results) == 1 && s.RetVal(ret, 0) == "nonnil" {
			return
		}
		at := k.pr.at(ret)
		failed := false
		for f := range parseFlags(s.Auto) {
			failed = failed || strings.HasPrefix(f, "unknown:") && (len(ret.Results) != 1 || f != "unknown:"+w.id(s.RetPT(ret, 0)))
		}
		k.check(hasFlag(s, "key") && hasFlag(s, "cert") && !failed && hasFlag(s, "generated:nil"), R, construct, at, "success is reported although key and certificate may not have been written (path %s)", s.Trace())
	}
	k.ok(R, construct, c.pos)
	x := k.explore(rule)
	x.RunCtx(c.ctx(k), "")
	k.done(x, R, construct)
}

// certificates: what is generated is a key and the certificate of that very key for all the hosts.
func (k *K) certificates(R string) {
	n := 0
	for _, f := range k.fnsIn(authPkg) {
		makes := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				makes = makes || staticName(in) == "x509.CreateCertificate"
			}
		}
		if makes {
			n++
		}
	}
	k.check(n > 0, R, "auth", "", "no certificate is made")
	fn := k.fn("auth.GenerateSelfSignedCertWithSANs")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	genKey := func(t *Term) bool { return extOf(t, 0, "rsa.GenerateKey") != nil }
	made := 0
	for _, f := range k.fnsIn(authPkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if staticName(in) == "rsa.GenerateKey" {
					made++
				}
			}
		}
	}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		at := k.pr.at(call)
		switch nm {
		case "rsa.GenerateKey":
			k.check(made == 1 || !hasFlag(s, "made"), R, construct, at, "more than one key is made (path %s)", s.Trace())
			addFlag(s, "made")
			b := s.PT(a[1])
			n, err := strconv.Atoi(b.Sym)
			k.check(b.Op == "const" && err == nil && n >= 2048, R, construct, at, "the key is too short: %s", short(b))
			k.check(s.PT(a[0]).Sym == "rand.Reader", R, construct, at, "the key is not random (path %s)", s.Trace())
		case "x509.CreateCertificate":
			t := s.PT(a[3])
			k.check(isField(t, "PublicKey") && genKey(t.Args[0]) || t.Op == "call" && strings.HasSuffix(t.Sym, ".Public") && genKey(t.Args[0]), R, construct, at, "the certificate is for the key %s (path %s)", short(t), s.Trace())
			k.check(genKey(s.PT(a[4])), R, construct, at, "the certificate is signed with %s (path %s)", short(s.PT(a[4])), s.Trace())
		case "pem.EncodeToMemory":
			l := k.literal(s, a[0])
			v := l["Bytes"]
			if !k.check(v.v != nil, R, construct, at, "undecided: what is encoded? (path %s)", s.Trace()) {
				return
			}
			t := s.PTIn(v.c, v.v)
			ty := ""
			if v := l["Type"]; v.v != nil {
				ty = s.PTIn(v.c, v.v).Sym
			}
			switch {
			case extOf(t, 0, "x509.CreateCertificate") != nil:
				k.check(ty == `"CERTIFICATE"`, R, construct, at, "the certificate is encoded as %s", ty)
				s.env[envKey{s.Ctx.id, call.(*ssa.Call), labIdx}] = "cert"
			case isCallTo(t, "x509.MarshalPKCS1PrivateKey"):
				k.check(ty == `"RSA PRIVATE KEY"`, R, construct, at, "the key is encoded as %s", ty)
				if genKey(t.Args[0]) {
					s.env[envKey{s.Ctx.id, call.(*ssa.Call), labIdx}] = "key"
				}
			}
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		_ = nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "rsa.GenerateKey") != nil }, "key") || nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "x509.CreateCertificate") != nil }, "cert")
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, 2) == "nonnil" {
			return
		}
		at := k.pr.at(ret)
		k.check(hasFlag(s, "key:nil") && hasFlag(s, "cert:nil"), R, construct, at, "success may be reported although key or certificate could not be made (path %s)", s.Trace())
		k.check(s.Lab(s.retVal(ret, 0)) == "cert", R, construct, at, "the certificate returned is %s (path %s)", short(s.RetPT(ret, 0)), s.Trace())
		k.check(s.Lab(s.retVal(ret, 1)) == "key", R, construct, at, "the key returned is %s (path %s)", short(s.RetPT(ret, 1)), s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)

	one := k.fn("auth.GenerateSelfSignedCert")
	if one == nil {
		return
	}
	handed := 0
	only := &Rule{MaxDepth: 5, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return callee != fn && helperInline(s, call, callee)
	}}
	only.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm != construct {
			return
		}
		handed++
		t := s.PT(callArgs(call.Common())[0])
		ok := t.V != nil
		if ok {
			c, v := t.Ctx, t.V
			if sl, isSl := v.(*ssa.Slice); isSl && (sl.Low != nil || sl.High != nil) {
				ok = false
			}
			es := k.sliceElems(c, v)
			ok = ok && len(es) == 1 && isParam(s.PTIn(es[0].c, es[0].v), "arg0")
		}
		k.check(ok, R, fnName(one), k.pr.at(call), "the certificate is for %s, not for the host given (path %s)", short(t), s.Trace())
	}
	x = k.explore(only)
	x.Run(one, "")
	k.done(x, R, fnName(one))
	k.check(handed > 0, R, fnName(one), k.pr.pos(one.Pos()), "undecided: no certificate is made for the host given")

	hosts := func(t *Term) bool { return isParam(t, "arg0") }
	host := func(t *Term) bool { e := elemOf(t); return e != nil && hosts(e) }
	ip := func(t *Term) bool { return isCallTo(t, "net.ParseIP") && host(t.Args[0]) }
	k.each(fn, &eachSpec{R: R, what: "hosts", leaf: hosts,
		edge: func(s *St, cond ssa.Value, taken bool) {
			nilEdge(s, s.condPT(cond), taken, ip, "it:ip")
		},
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			y, ok := call.(*ssa.Call)
			if !ok || !isAppend(y) {
				return 0
			}
			f := ""
			flowsTo(y, func(st *ssa.Store) bool {
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedPath(fa.X.Type()) != "crypto/x509.Certificate" {
					return false
				}
				f = fieldName(fa.X.Type(), fa.Field)
				return true
			}, map[ssa.Value]bool{})
			if f != "IPAddresses" && f != "DNSNames" {
				return 0
			}
			at := k.pr.at(call)
			var es []*Term
			for _, e := range k.sliceElems(s.Ctx, y.Call.Args[1]) {
				es = append(es, s.PTIn(e.c, e.v))
			}
			if len(es) != 1 {
				return 0
			}
			if f == "IPAddresses" {
				k.check(ip(es[0]) && hasFlag(s, "it:ip:set"), R, construct, at, "%s is added to the addresses of the certificate (path %s)", short(es[0]), s.Trace())
			} else {
				k.check(host(es[0]) && hasFlag(s, "it:ip:nil"), R, construct, at, "%s is added to the host names of the certificate (path %s)", short(es[0]), s.Trace())
			}
			return 1
		},
	})
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// flowsTo: v is stored to a place of that form, possibly after more has been appended to it.
func flowsTo(v ssa.Value, is func(*ssa.Store) bool, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.Phi:
			if flowsTo(y, is, seen) {
				return true
			}
		case *ssa.Store:
			if y.Val != v {
				continue
			}
			if is(y) {
				return true
			}
			al, ok := y.Addr.(*ssa.Alloc)
			if !ok || al.Referrers() == nil {
				continue
			}
			for _, l := range *al.Referrers() {
				if u, ok := l.(*ssa.UnOp); ok && flowsTo(u, is, seen) {
					return true
				}
			}
		case *ssa.Slice:
			if flowsTo(y, is, seen) {
				return true
			}
		case *ssa.Call:
			if isAppend(y) && y.Call.Args[0] == v && flowsTo(y, is, seen) {
				return true
			}
		case *ssa.Return:
			f := y.Parent()
			if f.Referrers() == nil {
				continue
			}
			for _, c := range *f.Referrers() {
				call, ok := c.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != f {
					continue
				}
				if len(y.Results) == 1 {
					if flowsTo(call, is, seen) {
						return true
					}
					continue
				}
				for _, e := range *call.Referrers() {
					if x, ok := e.(*ssa.Extract); ok && y.Results[x.Index] == v && flowsTo(x, is, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

func runS12(k *K) {
	const R = "log"
	w := newSecrets(k)
	w.report = func(s *St, kind, what string, call ssa.CallInstruction) {
		if kind == "key" || what == "is written to a file others can read" {
			return // S09
		}
		n := map[string]string{"token": "an access token", "config": "a configuration with an access token", "request": "a request with its access token"}[kind]
		if n != "" {
			what = n + " " + what
		}
		k.fail(R, fnName(s.Ctx.fn), k.pr.at(call), "%s (path %s)", what, s.Trace())
	}
	sinks := k.holding(func(in ssa.Instruction) bool {
		nm := staticName(in)
		return isLogSink(nm) || nm == "fmt.Errorf" || strings.HasPrefix(nm, "httputil.")
	})
	n, nreq := 0, 0
	for _, f := range k.pr.Funcs {
		if f.Blocks == nil || f.Synthetic != "" || !sinks[f] || !(inAPIPkg(f) || inAuth(f) || inMain(f)) || fnName(f) == "main.main" {
			continue
		}
		n++
		k.ok(R, fnName(f), k.pr.pos(f.Pos()))
		rule := w.rule(func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			if fnPkg(callee) != fnPkg(f) && !inAuth(callee) || recursive(callee) || hasLoop(callee) && !sinks[callee] {
				return false
			}
			return helperInline(s, call, callee)
		})
		req := -1
		for i, p := range f.Params {
			if namedPath(p.Type()) == "net/http.Request" {
				req = i
			}
		}
		if req >= 0 && f.Signature.Results().Len() == 0 {
			nreq++
			w.forwarding(R, rule, f)
		}
		x := k.explore(rule)
		x.Run(f, "")
		k.done(x, R, fnName(f))
	}
	k.check(n > 0 && nreq > 0, R, "apiserver", "", "undecided: no function that logs requests was found")
}

// forwarding: the request is handed on as it was received.
func (w *secrets) forwarding(R string, rule *Rule, f *ssa.Function) {
	k := w.k
	construct := fnName(f)
	isReq := func(t *Term) bool { return t.Op == "param" && namedPath(t.typ()) == "net/http.Request" }
	before, instr := rule.Call, rule.Instr
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		at := k.pr.at(call)
		switch {
		case strings.HasPrefix(nm, "httputil.DumpRequest"):
			if b := s.PT(a[1]); b.Sym != "false" && !isReq(s.PT(a[0])) {
				addFlag(s, "read")
			}
		case nm == "io.ReadAll" && isField(s.PT(a[0]), "Body"):
			addFlag(s, "read")
		case strings.HasSuffix(nm, ".ServeHTTP") && len(a) == 3:
			k.check(isReq(s.PT(a[2])), R, construct, at, "the request handed on, %s, is not the one received (path %s)", short(s.PT(a[2])), s.Trace())
			k.check(!hasFlag(s, "read"), R, construct, at, "the content of the request has been read before it is handed on (path %s)", s.Trace())
		}
		before(s, call, nm)
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if instr != nil {
			instr(s, in)
		}
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !isReq(s.PT(fa.X)) {
			return
		}
		at := k.pr.at(in)
		n := fieldName(fa.X.Type(), fa.Field)
		v := s.PT(st.Val)
		if n == "Body" && (isField(v, "Body") || isCallTo(v, "io.NopCloser")) {
			dropFlag(s, "read")
			return
		}
		k.fail(R, construct, at, "%s of the request is changed to %s before it is handed on (path %s)", n, short(v), s.Trace())
	}
}
