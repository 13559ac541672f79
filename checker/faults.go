package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract fault injection: for every call site that can return an error, explore every path on
// which that call fails and decide what the enclosing function does with the failure. The failure
// must reach the caller as a non-nil error, or one of the sanctioned sinks.

type faultSpec struct {
	rule  string
	roots []*ssa.Function
	// sinks: calls that report the error (logging, status, channels); only these count for
	// functions without an error result, and for listed (function, callee) pairs
	sinks map[string]bool
	// tolerated: "function|callee" -> reason. The failure may be dropped there.
	tolerated map[string]string
	// sinkOK: "function|callee" -> reason: reaching a sink is enough although the function
	// returns an error
	sinkOK map[string]string
	// predicates that, when true of the error, allow a nil result: "function|callee|predicate"
	except map[string]string
	// skip: callees whose error is not a failure of the guarantee (name -> reason)
	skip map[string]string
	// alternative: when callee n failed, another way of reading the same value may be tried with m
	alternative func(n, m string) bool
	used        map[string]bool
}

// excepted: a failure of callee name for which predicate p holds is no failure; exceptions without a
// function hold in all of them.
func (fs *faultSpec) excepted(key, name, p string) bool {
	return fs.except[key+"|"+p] != "" || fs.except["|"+name+"|"+p] != ""
}

var errorType = types.Universe.Lookup("error").Type()

func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	if types.Identical(sig.Results().At(n-1).Type(), errorType) {
		return n - 1
	}
	return -1
}

// a wrapper turns an error into another error: it does not fail by itself
func isErrWrapper(com *ssa.CallCommon) bool {
	sig := com.Signature()
	for i := 0; i < sig.Params().Len(); i++ {
		if types.Identical(sig.Params().At(i).Type(), errorType) {
			return true
		}
	}
	return false
}

var errConstructors = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "errors.Join": true, "errors.Unwrap": true, "context.Context.Err": true, "context.Cause": true,
}

// constructsErrors: every return of a module function yields a freshly made error and it calls
// nothing fallible (NewXError helpers)
func constructsErrors(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || len(f.Blocks) > 3 || errResult(f.Signature) < 0 {
		return false
	}
	ok := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Return:
				v := y.Results[len(y.Results)-1]
				if mi, is := v.(*ssa.MakeInterface); is {
					_ = mi
					ok = true
				} else if c, is := v.(*ssa.Call); is && (errConstructors[calleeName(c.Common())] || nonNilResult[calleeName(c.Common())]) {
					ok = true
				} else {
					return false
				}
			}
		}
	}
	return ok
}

func (k *K) fallible(name string, com *ssa.CallCommon, callee *ssa.Function) bool {
	if errResult(com.Signature()) < 0 {
		return false
	}
	if errConstructors[name] || nonNilResult[name] || isErrWrapper(com) {
		return false
	}
	if com.Signature().Results().Len() == 1 && constructsErrors(callee) {
		return false
	}
	return true
}

// checkFaults runs the analysis for every root.
func checkFaults(k *K, fs *faultSpec) {
	if fs.used == nil {
		fs.used = map[string]bool{}
	}
	inl := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		if isErrWrapper(call.Common()) || constructsErrors(callee) {
			return true
		}
		if errResult(callee.Signature) >= 0 {
			// closures handed to a helper are part of the function that creates them
			return callee.Parent() != nil
		}
		// helpers without an error result belong to their callers
		return callee.Parent() != nil || callee.Object() == nil || !callee.Object().Exported()
	}
	for _, f := range fs.roots {
		if cannotReport(f) {
			continue
		}
		// discovery
		sites := map[ssa.CallInstruction]string{}
		disc := &Rule{MaxDepth: 4, MaxStates: 60000, Inline: inl}
		disc.Call = func(s *St, call ssa.CallInstruction, name string) {
			c, ok := call.(*ssa.Call)
			if !ok {
				return
			}
			tg := k.R.callee(s.Ctx, c.Common())
			var cf *ssa.Function
			if tg != nil {
				cf = tg.fn
			}
			if !k.fallible(name, c.Common(), cf) || fs.skip[name] != "" {
				return
			}
			if cf != nil && cf.Blocks != nil && inModule(cf) && inl(s, call, cf) {
				return // entered: its own sites are discovered
			}
			if cannotReport(call.Parent()) {
				k.ok(fs.rule+" (sanctioned)", fnName(call.Parent())+" | "+name, k.pr.at(call))
				return
			}
			sites[call] = name
		}
		x := k.explore(disc)
		x.Run(f, "")
		k.done(x, fs.rule, fnName(f))
		var list []ssa.CallInstruction
		for c := range sites {
			list = append(list, c)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].Pos() < list[j].Pos() })
		for _, c := range list {
			k.faultSite(fs, f, c, sites[c], inl)
		}
	}
	for key := range fs.tolerated {
		if !fs.used[key] {
			k.note("exception %q matched nothing", key)
		}
	}
}

// errCall: the call an error comes from.
func errCall(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "ext" {
		t = t.Args[0]
	}
	if t.Op == "call" {
		return t
	}
	return nil
}

// cannotReport: renderings for humans and comparison functions have no way of reporting an error and
// decide nothing but a representation or an order of equals.
func cannotReport(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() != nil && f.Name() == "DeepCopyInto" && sig.Results().Len() == 0 {
		return true
	}
	if sig.Results().Len() != 1 {
		return false
	}
	if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok {
		if sig.Recv() != nil && f.Name() == "String" && sig.Params().Len() == 0 && b.Kind() == types.String {
			return true
		}
		if sig.Params().Len() == 2 && types.Identical(sig.Params().At(0).Type(), sig.Params().At(1).Type()) && b.Kind() == types.Int {
			return true
		}
	}
	return false
}

func (k *K) faultSite(fs *faultSpec, f *ssa.Function, site ssa.CallInstruction, name string, inl func(*St, ssa.CallInstruction, *ssa.Function) bool) {
	root := fnName(f)
	construct := root + " | " + name
	key := root + "|" + name
	if r := fs.tolerated[key]; r != "" || fs.tolerated["|"+name] != "" {
		fs.used[key] = true
		k.ok(fs.rule+" (sanctioned)", construct, k.pr.at(site))
		return
	}
	sinkOK := fs.sinkOK[key] != "" || fs.sinkOK["|"+name] != ""
	fs.used[key] = true
	hasErr := errResult(f.Signature) >= 0
	k.ok(fs.rule, construct, k.pr.at(site))
	var errKey *Term
	rule := &Rule{MaxDepth: 4, MaxStates: 120000, Inline: inl}
	rule.AfterCall = func(s *St, call ssa.CallInstruction, n string) {
		if call != site || s.Auto != "" {
			return
		}
		c := call.(*ssa.Call)
		ei := errResult(c.Common().Signature())
		bad := s.clone()
		bad.Auto = "E"
		if c.Common().Signature().Results().Len() == 1 {
			bad.set(bad.Ctx, c, "nonnil")
			errKey = bad.T(c)
		} else {
			bad.env[envKey{bad.Ctx.id, c, ei + 1}] = "nonnil"
			errKey = &Term{Op: "ext", Sym: itoa(ei), Args: []*Term{bad.T(c)}}
		}
		bad.Idx = instrIndex(call) + 1
		bad.Block = call.Block()
		s.x.push(bad)
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if s.Auto == "E" && fs.sinks[n] {
			// the sink must be given the error (or something made from it)
			for _, a := range callArgs(call.Common()) {
				if s.T(a).Has(func(t *Term) bool { return t.String() == errKey.String() }) {
					s.Auto = "H"
					return
				}
				// variadic: look into the backing array
				if strings.Contains(s.T(a).String(), "alloc") || s.T(a).Op == "slice" {
					if sliceHolds(s, a, errKey) {
						s.Auto = "H"
						return
					}
				}
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if sd, ok := in.(*ssa.Send); ok && s.Auto == "E" && fs.sinks["<-"] {
			if s.T(sd.X).Has(func(t *Term) bool { return t.String() == errKey.String() }) {
				s.Auto = "H"
			}
		}
		if sl, ok := in.(*ssa.Select); ok && s.Auto == "E" && fs.sinks["<-"] {
			for _, c := range sl.States {
				if c.Dir == types.SendOnly && s.T(c.Send).Has(func(t *Term) bool { return t.String() == errKey.String() }) {
					s.Auto = "H"
				}
			}
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if s.Auto != "E" {
			return
		}
		if fs.alternative != nil {
			if t, n := neg(s.condTerm(cond)); t.Op == "bin" && len(t.Args) == 2 && isNil(t.Args[1]) && (t.Sym == "==") == (taken != n) && (t.Sym == "==" || t.Sym == "!=") {
				a, b := errCall(t.Args[0]), errCall(errKey)
				if a != nil && b != nil && a.String() != b.String() && len(a.Args) > 0 && len(b.Args) > 0 && fs.alternative(b.Sym, a.Sym) && a.Args[0].String() == b.Args[0].String() {
					s.Stop = true
					return
				}
			}
		}
		if c, ok := cond.(*ssa.Call); ok && taken {
			n := k.R.calleeName(s.Ctx, c.Common())
			if fs.excepted(key, name, n) && len(c.Common().Args) > 0 {
				if s.T(c.Common().Args[0]).Has(func(t *Term) bool { return t.String() == errKey.String() }) {
					s.Stop = true
				}
			}
		}
		if b, ok := cond.(*ssa.BinOp); ok {
			if c, ok := b.X.(*ssa.Call); ok {
				n := k.R.calleeName(s.Ctx, c.Common())
				if fs.excepted(key, name, n) { // e.g. IgnoreNotFound(err) != nil is false
					if (b.Op.String() == "!=" && !taken) || (b.Op.String() == "==" && taken) {
						s.Stop = true
					}
				}
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.Auto != "E" && !(s.Auto == "H" && hasErr && !sinkOK) {
			return
		}
		if hasErr {
			if s.RetVal(ret, -1) == "nonnil" {
				return
			}
			rt := s.RetT(ret, len(ret.Results)-1)
			if errKey != nil && s.RetVal(ret, -1) != "nil" && rt.Op != "phi" && rt.Has(func(t *Term) bool { return t.String() == errKey.String() }) {
				return
			}
			if rt.Op == "call" && nonNilResult[rt.Sym] {
				return
			}
			how := "without an error"
			if s.RetVal(ret, -1) == "" {
				how = "with an error value unrelated to the failure"
			}
			k.fail(fs.rule, construct, k.pr.at(site), "when %s fails at %s, %s can return %s at %s: the failure is lost (path %s)", name, k.pr.at(site), root, how, k.pr.at(ret), s.Trace())
			return
		}
		k.fail(fs.rule, construct, k.pr.at(site), "when %s fails at %s, %s finishes at %s without reporting it (path %s)", name, k.pr.at(site), root, k.pr.at(ret), s.Trace())
	}
	x := k.explore(rule)
	x.Run(f, "")
	k.done(x, fs.rule, construct)
}

func itoa(i int) string { return string(rune('0' + i)) }

// sliceHolds: a variadic argument slice one of whose elements contains t
func sliceHolds(s *St, v ssa.Value, t *Term) bool {
	c, w := s.x.R.norm(s.Ctx, v)
	sl, ok := w.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					if s.x.R.T(c, st.Val).Has(func(x *Term) bool { return x.String() == t.String() }) {
						return true
					}
				}
			}
		}
	}
	return false
}

// faultRoots lists the functions of the given packages that are analysed on their own: those that
// return an error, and those no other function of the module calls directly.
func (k *K) faultRoots(pkgs ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range k.fnsIn(pkgs...) {
		if f.Parent() != nil {
			if usedInGo(f) || errResult(f.Signature) >= 0 {
				r = append(r, f)
			}
			continue
		}
		if errResult(f.Signature) >= 0 || (f.Object() != nil && f.Object().Exported()) || len(k.pr.callers[f]) == 0 {
			r = append(r, f)
		}
	}
	return r
}
