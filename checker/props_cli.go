package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const mainPkg = "github.com/l7mp/dcontroller"

// command is a command of the command line tool.
type command struct {
	use      string
	key      string // term of the command
	flags    map[string]cliFlag
	required map[string]bool
	run      ctxVal // what it runs
	pos      string
	added    bool
}

type cliFlag struct {
	cfg   types.Type // struct with the setting
	field string
	def   *Term
	pos   string
}

func inMain(f *ssa.Function) bool { return fnPkg(f) != nil && fnPkg(f).Path() == mainPkg }

// commands are the commands the tool is assembled from, with their flags.
func (k *K) commands(R string) map[string]*command {
	root := k.find("main.main")
	if !k.check(root != nil, R, "main.main", "", "undecided: the main function was not found") {
		return nil
	}
	cmds := map[string]*command{}
	get := func(t *Term) *command {
		c := cmds[t.String()]
		if c == nil {
			c = &command{key: t.String(), flags: map[string]cliFlag{}, required: map[string]bool{}}
			cmds[t.String()] = c
		}
		return c
	}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inMain(callee) && !recursive(callee)
	}}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || typeShort(deref(fa.X.Type())) != "cobra.Command" {
			return
		}
		c := get(s.PT(fa.X))
		if _, v := s.Root(fa.X); k.cmdSites != nil {
			k.cmdSites[v] = true
		}
		switch fieldName(fa.X.Type(), fa.Field) {
		case "Use":
			c.use, _, _ = strings.Cut(strings.Trim(s.PT(st.Val).Sym, `"`), " ")
			c.pos = k.pr.at(in)
		case "RunE", "Run":
			cc, v := s.Root(st.Val)
			c.run = ctxVal{cc, v}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		switch {
		case strings.HasPrefix(nm, "pflag.FlagSet.") && (strings.HasSuffix(nm, "Var") || strings.HasSuffix(nm, "VarP")) && len(a) > 3:
			fs := s.PT(a[0])
			if fs.Op != "call" || !strings.HasPrefix(fs.Sym, "cobra.Command.") || len(fs.Args) != 1 {
				return
			}
			c := get(fs.Args[0])
			t := s.PT(a[1])
			if t.Op != "field" || len(t.Args) != 1 || t.Args[0].V == nil {
				return
			}
			di := 3
			if strings.HasSuffix(nm, "VarP") {
				di = 4
			}
			c.flags[strings.Trim(s.PT(a[2]).Sym, `"`)] = cliFlag{cfg: deref(t.Args[0].V.Type()), field: t.Sym, def: s.PT(a[di]), pos: k.pr.at(call)}
		case nm == "cobra.Command.MarkFlagRequired":
			get(s.PT(a[0])).required[strings.Trim(s.PT(a[1]).Sym, `"`)] = true
		case nm == "cobra.Command.AddCommand":
			for _, e := range k.sliceElemsOn(s, a[1]) {
				if l := elemOf(e); l != nil && l.V != nil {
					for _, y := range k.sliceElems(l.Ctx, l.V) {
						get(s.PTIn(y.c, y.v)).added = true
					}
					continue
				}
				get(e).added = true
			}
		}
	}
	x := k.explore(rule)
	x.Run(root, "")
	k.done(x, R, "main.main")
	r := map[string]*command{}
	for _, c := range cmds {
		if c.use != "" {
			r[c.use] = c
		}
	}
	return r
}

// setting: t is the setting of flag name.
func (c *command) setting(t *Term, name string) bool {
	fl, ok := c.flags[name]
	if !ok || !isField(t, fl.field) || len(t.Args) != 1 || t.Args[0].V == nil {
		return false
	}
	return types.Identical(deref(t.Args[0].V.Type()), fl.cfg)
}

// ctx is the context of what the command runs.
func (c *command) ctx(k *K) *Ctx {
	tg := k.R.funcValue(c.run.c, c.run.v)
	if tg == nil {
		return nil
	}
	return k.R.ctx(nil, nil, nil, tg.fn, tg.mc, tg.mcCtx)
}

func init() {
	register("C01", "command line: every path of the commands: every flag is used and is a setting of its own, nothing insecure is on by default, the settings of the start command reach the operator controller and the API server built from it, which share one API and are all started; abstract fault injection over every call of the tool that can return an error", runC01)
}

func runC01(k *K) {
	k.cmdSites = map[ssa.Value]bool{}
	cs := k.commands("commands")
	for _, n := range sortedKeys(cs) {
		c := cs[n]
		if c.run.v == nil && len(c.flags) == 0 {
			continue // the root
		}
		k.ok("commands", n, c.pos)
		k.check(c.added, "commands", n, c.pos, "the command is not added to the tool")
		if k.check(c.run.v != nil && c.ctx(k) != nil, "commands", n, c.pos, "undecided: what does the command run?") {
			k.cliFlags("flags", c)
		}
	}
	for _, f := range k.pr.Funcs {
		if !inMain(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && namedPath(al.Type()) == "github.com/spf13/cobra.Command" {
					k.check(k.cmdSites[al], "commands", fnName(f), k.pr.at(in), "the command made here is not added to the tool")
				}
			}
		}
	}
	k.check(len(cs) > 4, "commands", "main", "", "undecided: the commands were not found")
	if c := cs["start"]; k.check(c != nil && c.run.v != nil && c.ctx(k) != nil, "start", "start", "", "undecided: the start command was not found") {
		k.startSettings("start", c)
	}
	k.defaultConfig("server config")
	k.oneAPI("one API")
	k.exitCodes("exit code")
}

// cliFlags: every flag of a command is used by what it runs, and they are all different settings.
func (k *K) cliFlags(R string, c *command) {
	set := map[string]string{}
	for _, n := range sortedKeys(c.flags) {
		fl := c.flags[n]
		key := typeShort(fl.cfg) + "." + fl.field
		k.check(set[key] == "", R, c.use+": "+n, fl.pos, "the flags %s and %s are the same setting", n, set[key])
		set[key] = n
		switch n {
		case "insecure", "http", "disable-authentication", "disable-api-server":
			k.check(fl.def.Sym == "false", R, c.use+": "+n, fl.pos, "%s is on although nobody asked for it", n)
		}
	}
	used := map[string]bool{}
	use := func(t *Term) {
		t.Has(func(x *Term) bool {
			for n := range c.flags {
				if c.setting(x, n) {
					used[n] = true
				}
			}
			return false
		})
	}
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inMain(callee) && !recursive(callee)
	}}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if f := call.Common().StaticCallee(); f != nil && inMain(f) || isLogSink(nm) || nm == "fmt.Errorf" {
			return
		}
		for _, a := range callArgs(call.Common()) {
			use(s.PT(a))
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && !types.Identical(deref(fa.X.Type()), c.cfgType()) {
				use(s.PT(st.Val))
			}
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) { use(s.condPT(cond)) }
	x := k.explore(rule)
	x.RunCtx(c.ctx(k), "")
	k.done(x, R, c.use)
	for _, n := range sortedKeys(c.flags) {
		k.check(used[n], R, c.use+": "+n, c.flags[n].pos, "the flag %s has no effect", n)
	}
}

func (c *command) cfgType() types.Type {
	for _, f := range c.flags {
		return f.cfg
	}
	return types.Typ[types.Invalid]
}

// startSettings: the settings of the start command get to where they belong.
func (k *K) startSettings(R string, c *command) {
	const construct = "start"
	k.ok(R, construct, c.pos)
	api := func(t *Term, f string) bool { return isField(t, f) && extOf(t.Args[0], 0, "cache.NewAPI") != nil }
	config := func(t *Term) bool {
		return strings.HasSuffix(t.String(), ".GetConfigOrDie()") || t.Op == "ext" && t.Sym == "0" && strings.HasSuffix(t.Args[0].String(), ".GetConfig()")
	}
	opctl := func(t *Term) bool { return extOf(t, 0, "controllers.NewOpController") != nil }
	server := func(t *Term) bool { return extOf(t, 0, "apiserver.NewAPIServer") != nil }
	sctx := func(t *Term) bool { return strings.HasSuffix(t.String(), ".SetupSignalHandler()") }
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return inMain(callee) && !recursive(callee)
	}}
	started := func(s *St, nm string, a []*Term, at string) string {
		if !strings.HasSuffix(nm, ".Start") || len(a) != 2 {
			return ""
		}
		what := ""
		switch {
		case opctl(a[0]):
			what = "op"
		case server(a[0]):
			what = "server"
		case api(a[0], "Cache"):
			what = "cache"
		default:
			return ""
		}
		k.check(sctx(a[1]), R, construct, at, "what is started does not stop when the tool is told to: its context is %s (path %s)", short(a[1]), s.Trace())
		return what
	}
	starts := func(s *St, g *ssa.Go) {
		var a []*Term
		for _, x := range callArgs(g.Common()) {
			a = append(a, s.PT(x))
		}
		if w := started(s, k.R.calleeName(s.Ctx, g.Common()), a, k.pr.at(g)); w != "" {
			addFlag(s, "started "+w)
			return
		}
		tg := k.R.callee(s.Ctx, g.Common())
		if tg == nil {
			return
		}
		var all map[string]bool
		sub := &Rule{MaxDepth: 4, Flow: true, Inline: rule.Inline}
		sub.Call = func(s2 *St, call ssa.CallInstruction, nm string) {
			var a []*Term
			for _, x := range callArgs(call.Common()) {
				a = append(a, s2.PT(x))
			}
			if w := started(s2, nm, a, k.pr.at(call)); w != "" {
				addFlag(s2, "started "+w)
			}
		}
		sub.Exit = func(s2 *St, ret *ssa.Return) {
			f := parseFlags(s2.Auto)
			if all == nil {
				all = f
			}
			for n := range all {
				if !f[n] {
					delete(all, n)
				}
			}
		}
		x := k.explore(sub)
		x.RunCtx(k.R.ctx(s.Ctx, g, nil, tg.fn, tg.mc, tg.mcCtx), "")
		k.done(x, R, construct)
		for n := range all {
			addFlag(s, n)
		}
	}
	want := func(s *St, v ctxVal, flag, what, at string) {
		if !k.check(v.v != nil, R, construct+": "+flag, at, "the flag %s has no effect on %s (path %s)", flag, what, s.Trace()) {
			return
		}
		t := s.PTIn(v.c, v.v)
		k.check(c.setting(t, flag), R, construct+": "+flag, at, "%s is %s instead of the value of the flag %s (path %s)", what, short(t), flag, s.Trace())
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		switch {
		case boolEdge(s, t, taken, func(x *Term) bool { return c.setting(x, "disable-api-server") }, "off"):
		case boolEdge(s, t, taken, func(x *Term) bool { return c.setting(x, "http") }, "http"):
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok {
			starts(s, g)
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		at := k.pr.at(call)
		arg := func(i int) ctxVal { return ctxVal{s.Ctx, a[i]} }
		switch nm {
		case "cache.NewAPI":
			k.check(config(s.PT(a[0])), R, construct, at, "the API is not the one of the cluster the tool is configured for: %s (path %s)", short(s.PT(a[0])), s.Trace())
		case "controllers.NewOpController":
			k.check(config(s.PT(a[0])), R, construct, at, "the operators do not use the cluster the tool is configured for: %s (path %s)", short(s.PT(a[0])), s.Trace())
			k.check(api(s.PT(a[1]), "Cache"), R, construct, at, "the operators do not share the views of the API: %s (path %s)", short(s.PT(a[1])), s.Trace())
			o := k.literal(s, a[2])
			want(s, o["HealthProbeBindAddress"], "health-probe-bind-address", "the address of the health probe", at)
			want(s, o["LeaderElection"], "leader-elect", "leader election", at)
			id := o["LeaderElectionID"]
			k.check(id.v != nil && s.PTIn(id.c, id.v).Op == "const" && s.PTIn(id.c, id.v).Sym != `""`, R, construct+": leader-elect", at, "leader election has no ID (path %s)", s.Trace())
			m := o["Metrics"]
			if k.check(m.v != nil, R, construct+": metrics-bind-address", at, "the flag metrics-bind-address has no effect (path %s)", s.Trace()) {
				want(s, k.literalIn(s, m.c, m.v)["BindAddress"], "metrics-bind-address", "the address of the metrics", at)
			}
		case "apiserver.NewDefaultConfig":
			want(s, arg(0), "addr", "the address of the API server", at)
			want(s, arg(1), "port", "the port of the API server", at)
			want(s, arg(3), "http", "the HTTP mode of the API server", at)
			want(s, arg(4), "insecure", "the insecure mode of the API server", at)
			k.check(api(s.PT(a[2]), "Client"), R, construct, at, "the API server does not serve the views of the operators: %s (path %s)", short(s.PT(a[2])), s.Trace())
		case "apiserver.NewAPIServer":
			l := k.literal(s, a[0])
			if cf, kf := l["CertFile"], l["KeyFile"]; cf.v != nil || kf.v != nil {
				want(s, cf, "tls-cert-file", "the certificate file of the API server", at)
				want(s, kf, "tls-key-file", "the key file of the API server", at)
				addFlag(s, "tls")
			}
		case "controllers.OpController.SetAPIServer":
			if opctl(s.PT(a[0])) && server(s.PT(a[1])) {
				addFlag(s, "set")
			}
		default:
			var ts []*Term
			for _, x := range a {
				ts = append(ts, s.PT(x))
			}
			w := started(s, nm, ts, at)
			if w != "op" {
				return
			}
			f := parseFlags(s.Auto)
			k.check(f["started cache"], R, construct, at, "the views are not served: their cache is not started (path %s)", s.Trace())
			k.check(f["off"] || f["started server"], R, construct, at, "the API server is not started although it was not switched off (path %s)", s.Trace())
			k.check(f["off"] || f["set"], R, construct, at, "the operators do not get to know the API server (path %s)", s.Trace())
			k.check(!f["off"] || !f["started server"], R, construct, at, "the API server is started although it was switched off (path %s)", s.Trace())
			addFlag(s, "op")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) != "nonnil" {
			k.check(hasFlag(s, "op"), R, construct, k.pr.at(ret), "success may be reported although no operator is run (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.RunCtx(c.ctx(k), "")
	k.done(x, R, construct)
}

// defaultConfig: the configuration of the API server is made of what is asked for.
func (k *K) defaultConfig(R string) {
	fn := k.fn("apiserver.NewDefaultConfig")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	http := func(t *Term) bool { return isParam(t, "arg3") }
	bind := func(t *Term) bool { return extOf(t, 0, "net.ResolveTCPAddr") != nil }
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if x, eq, ok := eqConst(t, `""`, taken); ok && isParam(x, "arg0") {
			if eq {
				addFlag(s, "noaddr")
			}
			return
		}
		_ = boolEdge(s, t, taken, http, "http") || nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "net.ResolveTCPAddr") != nil }, "bind")
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		at := k.pr.at(in)
		n := fieldName(fa.X.Type(), fa.Field)
		t := s.PT(st.Val)
		switch ty := typeShort(deref(fa.X.Type())); {
		case ty == "rest.Config" && n == "Host":
			k.check(t.Op != "const", R, construct, at, "the address clients are told, %s, is not the one of the server", short(t))
			scheme := "https://"
			if hasFlag(s, "http") {
				scheme = "http://"
			}
			k.check(hasFlag(s, "http") || hasFlag(s, "!http"), R, construct, at, "the address is made without regard to the mode (path %s)", s.Trace())
			txt := ""
			for _, x := range k.strParts(s, t) {
				if x.Op == "const" {
					txt += strings.Trim(x.Sym, `"`)
				} else {
					break
				}
			}
			k.check(strings.HasPrefix(txt, scheme), R, construct, at, "the address clients are told starts with %q (path %s)", txt, s.Trace())
		case ty == "rest.TLSClientConfig" && n == "Insecure":
			k.check(isParam(t, "arg4") || t.Sym == "false", R, construct, at, "clients are told not to verify the server: %s (path %s)", short(t), s.Trace())
		case ty == "rest.Config" && n == "Insecure":
			k.check(isParam(t, "arg4") || t.Sym == "false", R, construct, at, "clients are told not to verify the server: %s (path %s)", short(t), s.Trace())
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		at := k.pr.at(call)
		if nm != "net.ResolveTCPAddr" {
			return
		}
		addr, port := false, false
		look := func(t *Term) bool {
			addr = addr || isParam(t, "arg0")
			port = port || isParam(t, "arg1")
			return false
		}
		s.PT(a[1]).Has(look)
		s.PT(a[1]).Has(func(t *Term) bool {
			if t.V == nil {
				return false
			}
			for _, e := range k.sliceElems(t.Ctx, t.V) {
				s.PTIn(e.c, e.v).Has(look)
			}
			return false
		})
		k.check(port, R, construct, at, "the server is not bound to the port asked for: %s (path %s)", short(s.PT(a[1])), s.Trace())
		k.check(addr || hasFlag(s, "noaddr"), R, construct, at, "the server is not bound to the address asked for: %s (path %s)", short(s.PT(a[1])), s.Trace())
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, 1) == "nonnil" {
			return
		}
		at := k.pr.at(ret)
		k.check(hasFlag(s, "bind:nil"), R, construct, at, "success is reported although the address may not be valid (path %s)", s.Trace())
		l := k.literal(s, ret.Results[0])
		for _, f := range []struct {
			n    string
			is   func(*Term) bool
			what string
		}{
			{"Addr", bind, "address"}, {"HTTPMode", http, "HTTP mode"}, {"Insecure", func(t *Term) bool { return isParam(t, "arg4") }, "insecure mode"}, {"DelegatingClient", func(t *Term) bool { return isParam(t, "arg2") }, "client"},
		} {
			v := l[f.n]
			ok := v.v != nil
			var t *Term
			if ok {
				t = s.PTIn(v.c, v.v)
				ok = f.is(t)
			}
			if ok {
				continue
			}
			if f.n == "HTTPMode" && t != nil && (t.Sym == "true" && hasFlag(s, "http") || t.Sym == "false" && hasFlag(s, "!http")) {
				continue
			}
			k.fail(R, construct, at, "the %s of the server is not what was asked for (path %s)", f.what, s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// oneAPI: client and cache of an API share the views.
func (k *K) oneAPI(R string) {
	fn := k.fn("cache.NewAPI")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	cch := func(t *Term) bool { return extOf(t, 0, "cache.NewCompositeCache") != nil }
	cl := func(t *Term) bool { return extOf(t, 0, "cache.NewCompositeClient") != nil }
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		a := callArgs(call.Common())
		at := k.pr.at(call)
		switch nm {
		case "cache.NewCompositeCache", "cache.NewCompositeClient":
			k.check(isParam(s.PT(a[0]), "arg0"), R, construct, at, "%s does not use the cluster asked for (path %s)", nm, s.Trace())
			k.check(!hasFlag(s, nm), R, construct, at, "more than one call of %s (path %s)", nm, s.Trace())
			addFlag(s, nm)
		case "discovery.NewDiscoveryClientForConfig":
			k.check(isParam(s.PT(a[0]), "arg0"), R, construct, at, "discovery does not use the cluster asked for (path %s)", s.Trace())
		case "cache.CompositeClient.SetCache":
			if cl(s.PT(a[0])) && cch(s.PT(a[1])) {
				addFlag(s, "set")
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, 1) == "nonnil" {
			return
		}
		at := k.pr.at(ret)
		l := k.literal(s, ret.Results[0])
		is := func(f string, ok func(*Term) bool) bool {
			v := l[f]
			return v.v != nil && ok(s.PTIn(v.c, v.v))
		}
		k.check(is("Cache", cch) && is("Client", cl) && hasFlag(s, "set"), R, construct, at, "the client of the API does not use the views of its cache (path %s)", s.Trace())
		disc := func(t *Term) bool { return isCallTo(t, "cache.NewCompositeDiscoveryClient") }
		k.check(is("Discovery", disc) && is("RESTMapper", func(t *Term) bool { return isCallTo(t, "cache.NewCompositeRESTMapper") && disc(t.Args[0]) }), R, construct, at, "discovery and REST mapper of the API do not belong together (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// exitCodes: a command that failed is seen to have failed.
func (k *K) exitCodes(R string) {
	var roots []*ssa.Function
	n := 0
	for _, f := range k.pr.Funcs {
		if !inMain(f) || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		k.funcs[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || staticName(in) != "os.Exit" {
					continue
				}
				n++
				v, isConst := c.Common().Args[0].(*ssa.Const)
				k.check(isConst && v.Value != nil && v.Value.String() != "0", R, fnName(f), k.pr.at(in), "the tool may exit with success after a failure")
			}
		}
		if f.Parent() == nil && (errResult(f.Signature) >= 0 || fnName(f) == "main.main") || f.Parent() != nil && (usedInGo(f) || errResult(f.Signature) >= 0) {
			roots = append(roots, f)
		}
	}
	k.check(n > 0, R, "main", "", "the tool never exits with failure")
	prints := map[string]string{"cobra.Command.MarkFlagRequired": "fails for unknown flags only, which S11 excludes", "x509.ParseCertificate": "of a certificate just verified, for display"}
	for _, p := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln"} {
		prints[p] = "output for humans"
	}
	checkFaults(k, &faultSpec{rule: R, roots: roots, skip: prints, sinks: map[string]bool{"logr.Logger.Error": true}})
	k.atLeast(R, 15)
}
