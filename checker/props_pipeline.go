package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// enumEdge keeps track of equality tests between a subject and constants: flags pfx=C and pfx!C.
// Contradictory branches are infeasible and stop the path.
func enumEdge(s *St, t *Term, taken bool, subj func(*Term) bool, pfx string) bool {
	for t.Op == "un" && t.Sym == "!" {
		t, taken = t.Args[0], !taken
	}
	if t.Op != "bin" || t.Sym != "==" && t.Sym != "!=" {
		return false
	}
	for i := 0; i < 2; i++ {
		c := t.Args[i]
		if c.Op != "const" || !subj(t.Args[1-i]) {
			continue
		}
		eq := (t.Sym == "==") == taken
		f := parseFlags(s.Auto)
		name := strings.Trim(c.Sym, `"`)
		if eq {
			for k := range f {
				if strings.HasPrefix(k, pfx+"=") && k != pfx+"="+name || k == pfx+"!"+name {
					s.Stop = true
					return true
				}
			}
			f[pfx+"="+name] = true
		} else {
			if f[pfx+"="+name] {
				s.Stop = true
				return true
			}
			for k := range f {
				if strings.HasPrefix(k, pfx+"=") {
					return true // already known to be something else
				}
			}
			f[pfx+"!"+name] = true
		}
		s.Auto = f.String()
		return true
	}
	return false
}

// enumValue is the value a subject is known to have on the path, "" if unknown.
func enumValue(s *St, pfx string) string {
	for k := range parseFlags(s.Auto) {
		if strings.HasPrefix(k, pfx+"=") {
			return strings.TrimPrefix(k, pfx+"=")
		}
	}
	return ""
}

// boolEdge records the truth of a condition recognised by is under the flags name / !name.
func boolEdge(s *St, t *Term, taken bool, is func(*Term) bool, name string) bool {
	for t.Op == "un" && t.Sym == "!" {
		t, taken = t.Args[0], !taken
	}
	if !is(t) {
		return false
	}
	f := parseFlags(s.Auto)
	if taken {
		if f["!"+name] {
			s.Stop = true
			return true
		}
		f[name] = true
	} else {
		if f[name] {
			s.Stop = true
			return true
		}
		f["!"+name] = true
	}
	s.Auto = f.String()
	return true
}

// nilEdge records whether a value is nil.
func nilEdge(s *St, t *Term, taken bool, is func(*Term) bool, name string) bool {
	x, eq, ok := eqConst(t, "nil", taken)
	if !ok || !is(x) {
		return false
	}
	f := parseFlags(s.Auto)
	n, o := name+":nil", name+":set"
	if !eq {
		n, o = o, n
	}
	if f[o] {
		s.Stop = true
		return true
	}
	f[n] = true
	s.Auto = f.String()
	return true
}

const storeP = "cache.Store."

// storeCall: a call of a cache.Store method; returns the method name.
func storeCall(n string) string {
	if strings.HasPrefix(n, storeP) {
		return strings.TrimPrefix(n, storeP)
	}
	return ""
}

func contentOf(t *Term) *Term {
	if t.Op == "call" && strings.HasSuffix(t.Sym, ".UnstructuredContent") && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}

func init() {
	register("P02", "source bookkeeping: typestate over every path of the conversion of an event into a Z-set, split by event type: which document is inserted with which sign, where it comes from, whether its UID was removed, and which cache operation accompanies it", runP02)
	register("P03", "target bookkeeping: decision table over every path of the loop that resolves the inserts and deletes of one object key: the emitted operation and the accompanying cache operation must be the ones the table gives for (has inserts, has deletes, existed before)", runP03)
	register("P04", "result conversion: typestate over every path that emits a delta: sign to delta type, validated metadata, target kind, name and namespace of the emitted object", runP04)
	register("P05", "pipeline compilation: exploration of the compiler for every operation name; constructor, expression and position of the operator each operation compiles to", runP05)
	register("P06", "synchronization: provenance of both sides of the state difference, completeness of the source and target scans", runP06)
	register("P07", "pipeline stages: paths of every stage evaluator", runP07)
}

func runP02(k *K) {
	const R = "event to Z-set"
	fn := k.fn("pipeline.Pipeline.ConvertDeltaToZSet")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	isObj := func(t *Term) bool { return isField(t, "Object") && isParam(t.Args[0], "arg0") }
	isNew := func(t *Term) bool { return isCallTo(t, "object.DeepCopy") && isObj(t.Args[0]) }
	isOld := func(t *Term) bool {
		some := false
		ok := allAlts(t, func(a *Term) bool {
			if isNil(a) {
				return true
			}
			if c := extOf(a, 0, storeP+"Get"); c != nil {
				some = true
				return isSourceCache(c.Args[0]) && (isNew(c.Args[1]) || isObj(c.Args[1]))
			}
			return false
		})
		return ok && some
	}
	isType := func(t *Term) bool { return isField(t, "Type") && isParam(t.Args[0], "arg0") }
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	once := func(s *St, f string, at ssa.Instruction) {
		if hasFlag(s, f) {
			k.fail(R, construct, k.pr.at(at), "the same change is made twice (%s) (path %s)", f, s.Trace())
		}
		addFlag(s, f)
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		args := callArgs(call.Common())
		switch {
		case n == "object.RemoveUID":
			if isNew(s.T(args[0])) {
				addFlag(s, "uid")
			}
		case isAddDoc(n):
			doc, cnt := s.T(args[1]), s.T(args[2])
			src := contentOf(doc)
			switch {
			case src != nil && isNew(src):
				k.check(cnt.Sym == "1", R, construct, k.pr.at(call), "the new version of an object must be inserted with multiplicity 1, is inserted with %s", cnt)
				k.check(hasFlag(s, "uid"), R, construct, k.pr.at(call), "an object is inserted with its UID: the pipeline would see two versions of an object as different because of it")
				once(s, "P", call)
			case src != nil && isOld(src):
				k.check(cnt.Sym == "-1" || cnt.Op == "un" && cnt.Sym == "-" && cnt.Args[0].Sym == "1", R, construct, k.pr.at(call), "the previous version of an object must be retracted with multiplicity -1, is inserted with %s", cnt)
				once(s, "N", call)
			case src != nil && isCallTo(src, "object.DeepCopy") && isOld(src.Args[0]):
				k.check(cnt.Sym == "-1", R, construct, k.pr.at(call), "the previous version of an object must be retracted with multiplicity -1, is inserted with %s", cnt)
				once(s, "N", call)
			default:
				k.fail(R, construct, k.pr.at(call), "only the new version of the object and the cached one may enter the Z-set, found %s", doc)
			}
		case storeCall(n) != "":
			if !isSourceCache(s.T(args[0])) {
				k.fail(R, construct, k.pr.at(call), "a cache other than the source cache of the object's kind is used: %s", s.T(args[0]))
				return
			}
			gvkOK := s.T(args[0]).HasCall("schema.ObjectKind.GroupVersionKind")
			k.check(gvkOK, R, construct, k.pr.at(call), "the source cache must be selected by the kind of the object, is %s", s.T(args[0]))
			switch storeCall(n) {
			case "Get":
				if hasFlag(s, "S") || hasFlag(s, "X") {
					k.fail(R, construct, k.pr.at(call), "the previous version is looked up after the cache was changed")
				}
				k.check(isNew(s.T(args[1])) || isObj(s.T(args[1])), R, construct, k.pr.at(call), "the previous version of another object is looked up: %s", s.T(args[1]))
			case "Add", "Update":
				k.check(isNew(s.T(args[1])), R, construct, k.pr.at(call), "the source cache must hold the version that was inserted, gets %s", s.T(args[1]))
				k.check(hasFlag(s, "uid"), R, construct, k.pr.at(call), "the cached version differs from the inserted one: its UID was not removed yet")
				once(s, "S", call)
			case "Delete":
				a := s.T(args[1])
				k.check(isNew(a) || isObj(a) || isOld(a), R, construct, k.pr.at(call), "another object is deleted from the source cache: %s", a)
				once(s, "X", call)
			}
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := k.R.T(s.Ctx, cond)
		if enumEdge(s, t, taken, isType, "type") || nilEdge(s, t, taken, isOld, "old") {
			return
		}
		boolEdge(s, t, taken, func(x *Term) bool {
			return isCallTo(x, "object.DeepEqual") && x.Has(isNew) && x.Has(func(y *Term) bool { return isOld(y) })
		}, "equal")
	}
	seen := map[string]bool{}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		f := parseFlags(s.Auto)
		ty := enumValue(s, "type")
		tr := s.Trace()
		bad := func(format string, a ...any) {
			k.fail(R, construct, k.pr.at(ret), "event type %q: "+format+" (path %s)", append(append([]any{ty}, a...), tr)...)
		}
		seen[ty] = true
		k.ok(R, construct+" on "+ty, k.pr.at(ret))
		switch ty {
		case "Added":
			if !f["P"] || f["N"] || !f["S"] || f["X"] {
				bad("an added object must be inserted once and cached (inserted %v, retracted %v, cached %v)", f["P"], f["N"], f["S"])
			}
		case "Updated", "Replaced", "Upserted":
			if f["equal"] && !f["P"] && !f["N"] && !f["S"] && !f["X"] {
				if !f["old:set"] {
					bad("an update is suppressed without a previous version")
				}
				return
			}
			if !f["P"] || !f["S"] || f["X"] {
				bad("an updated object must be inserted and cached (inserted %v, cached %v)", f["P"], f["S"])
			}
			if f["old:set"] && !f["N"] || f["old:nil"] && f["N"] || !f["old:set"] && !f["old:nil"] {
				bad("the previous version must be retracted exactly if there is one (retracted %v)", f["N"])
			}
		case "Deleted":
			if f["P"] || !f["N"] || f["S"] || !f["X"] {
				bad("a deleted object must be retracted and removed from the cache (retracted %v, removed %v)", f["N"], f["X"])
			}
			if !f["old:set"] {
				bad("an object that was never seen is retracted")
			}
		default:
			bad("an event of unknown type is accepted")
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	for _, ty := range []string{"Added", "Updated", "Replaced", "Upserted", "Deleted"} {
		k.check(seen[ty], R, construct+" on "+ty, k.pr.pos(fn.Pos()), "event type %s is not handled", ty)
	}
	// the cached old version is compared without its UID; the Z-set returned is the one filled
	k.zsetReturned(fn, R)
}

func isSourceCache(t *Term) bool {
	e := elemOf(t)
	if e != nil && isField(e, "sourceCache") {
		return true
	}
	ok := len(t.Alts()) > 1
	some := false
	for _, a := range t.Alts() {
		if e := elemOf(a); e != nil && isField(e, "sourceCache") {
			some = true
		} else if !isCallTo(a, "cache.NewStore") {
			ok = false
		}
	}
	return ok && some
}

// zsetReturned: what is returned on success is a Z-set made here.
func (k *K) zsetReturned(fn *ssa.Function, R string) {
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		t := s.RetT(ret, 0)
		k.check(allAlts(t, func(a *Term) bool { return isNil(a) || isCallTo(a, "dbsp.NewDocumentZSet") }), R, fnName(fn), k.pr.at(ret), "the result must be the Z-set built from the event, is %s", t)
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, fnName(fn))
}

// ---------------------------------------------------------------- P03

func runP03(k *K) {
	const R = "resolution of inserts and deletes"
	fn := k.fn("pipeline.Pipeline.Reconcile")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	// roles of the fields of the per-key record: filled from inserts, from deletes, from the cache
	addsF, delsF, exF := "", "", ""
	isDT := func(t *Term) bool {
		return isField(t, "Type") && elemOf(t.Args[0]) != nil && isParam(elemOf(t.Args[0]), "arg0")
	}
	pre := &Rule{MaxDepth: 4, Inline: helperInline}
	pre.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := loopOver(k.R, s.Ctx, cond); over != nil {
			s.Auto = ""
			return
		}
		enumEdge(s, k.R.T(s.Ctx, cond), taken, isDT, "type")
	}
	recBad := ""
	pre.Instr = func(s *St, in ssa.Instruction) {
		if mu, ok := in.(*ssa.MapUpdate); ok {
			kt := s.T(mu.Key)
			whole := kt.Has(func(t *Term) bool {
				return t.Op == "call" && (t.Sym == "client.ObjectKeyFromObject" || strings.HasSuffix(t.Sym, ".MetaObjectToName") || strings.HasSuffix(t.Sym, ".MetaNamespaceKeyFunc"))
			}) && !(isField(kt, "Name") || isField(kt, "Namespace"))
			parts := kt.Has(func(t *Term) bool { return t.Op == "call" && strings.HasSuffix(t.Sym, ".GetName") }) && kt.Has(func(t *Term) bool { return t.Op == "call" && strings.HasSuffix(t.Sym, ".GetNamespace") })
			if _, isRec := mu.Value.Type().Underlying().(*types.Pointer); isRec && !whole && !parts && kt.Has(func(t *Term) bool { return isParam(t, "arg0") }) {
				recBad = "deltas are grouped by something that does not identify the object: " + kt.String()
			}
			return
		}
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || typeShort(fa.X.Type()) == "object.Delta" {
			return
		}
		f := fieldName(fa.X.Type(), fa.Field)
		v := s.T(st.Val)
		if isCallTo(v, "builtin.append") {
			ty := enumValue(s, "type")
			if ty == "" {
				recBad = "a delta is recorded without looking at its type"
			}
			var el *Term
			if es := k.sliceElems(s.Ctx, st.Val.(*ssa.Call).Common().Args[1]); len(es) == 1 {
				el = k.R.T(es[0].c, es[0].v)
			}
			if el == nil || elemOf(el) == nil || !isParam(elemOf(el), "arg0") {
				recBad = "something else than the given delta is recorded"
			}
			switch ty {
			case "Added":
				if addsF != "" && addsF != f {
					recBad = "inserts are recorded in two places"
				}
				addsF = f
			case "Deleted":
				if delsF != "" && delsF != f {
					recBad = "deletes are recorded in two places"
				}
				delsF = f
			}
		}
		if anyAlt(v, func(a *Term) bool {
			c := extOf(a, 1, storeP+"Get")
			return c != nil && isField(c.Args[0], "targetCache")
		}) {
			exF = f
		}
	}
	x := k.explore(pre)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(recBad == "", R, construct, k.pr.pos(fn.Pos()), "%s", recBad)
	if !k.check(addsF != "" && delsF != "" && addsF != delsF && exF != "", R, construct, k.pr.pos(fn.Pos()), "the inserts (%q), deletes (%q) and previous existence (%q) of an object are not recorded separately", addsF, delsF, exF) {
		return
	}
	k.existedSnapshot(fn, R, exF)
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "recording the delta of the object", over: func(t *Term) bool { return isParam(t, "arg0") },
		instr: func(s *St, in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			f := fieldName(fa.X.Type(), fa.Field)
			return (f == addsF || f == delsF) && isCallTo(s.T(st.Val), "builtin.append")
		}})

	rec := func(t *Term) bool { // an element of the map of records
		e := elemOf(t)
		return e != nil && e.Op == "alloc"
	}
	isAdds := func(t *Term) bool { return isField(t, addsF) && rec(t.Args[0]) }
	isDels := func(t *Term) bool { return isField(t, delsF) && rec(t.Args[0]) }
	nonEmpty := func(is func(*Term) bool) func(*Term) (bool, bool) {
		return func(t *Term) (bool, bool) { // recognised, polarity
			if t.Op != "bin" || !isCallTo(t.Args[0], "builtin.len") || !is(t.Args[0].Args[0]) {
				return false, false
			}
			switch {
			case t.Sym == ">" && t.Args[1].Sym == "0", t.Sym == "!=" && t.Args[1].Sym == "0", t.Sym == ">=" && t.Args[1].Sym == "1":
				return true, true
			case t.Sym == "==" && t.Args[1].Sym == "0", t.Sym == "<" && t.Args[1].Sym == "1", t.Sym == "<=" && t.Args[1].Sym == "0":
				return true, false
			}
			return false, false
		}
	}
	hasA, hasD := nonEmpty(isAdds), nonEmpty(isDels)
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	overRecords := func(t *Term) bool { return t != nil && t.Op == "alloc" && strings.Contains(t.Sym, "map[string]") }
	judge := func(s *St, at ssa.Instruction) {
		f := parseFlags(s.Auto)
		if !f["in"] {
			return
		}
		// every situation compatible with what was tested must call for what was done
		act := "none"
		if f["U"] {
			act = "upsert"
		}
		if f["D"] {
			act = "delete"
		}
		for _, a := range []bool{true, false} {
			for _, d := range []bool{true, false} {
				for _, e := range []bool{true, false} {
					if a && f["!a"] || !a && f["a"] || d && f["!d"] || !d && f["d"] || e && f["!e"] || !e && f["e"] {
						continue
					}
					if !a && !d {
						continue // there is no record without a delta
					}
					want := "none"
					switch {
					case a && !d, a && d && e:
						want = "upsert"
					case d && e:
						want = "delete"
					}
					k.check(want == act, R, construct, k.pr.at(at), "an object with inserts=%v deletes=%v that existed=%v must result in %q, results in %q (path %s)", a, d, e, want, act, s.Trace())
				}
			}
		}
		if act == "upsert" {
			k.check(f["cA"] && !f["cD"], R, construct, k.pr.at(at), "an upsert is emitted although the target cache was not given the object (path %s)", s.Trace())
		} else if act == "delete" {
			k.check(f["cD"] && !f["cA"], R, construct, k.pr.at(at), "a delete is emitted although the object was not removed from the target cache (path %s)", s.Trace())
		} else {
			k.check(!f["cA"] && !f["cD"], R, construct, k.pr.at(at), "the target cache is changed without emitting anything (path %s)", s.Trace())
		}
	}
	loops := 0
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := loopOver(k.R, s.Ctx, cond); over != nil {
			if overRecords(over) {
				judge(s, cond.(ssa.Instruction))
				s.Auto = ""
				if taken && k.mapOfRecords(cond, addsF) {
					loops++
					s.Auto = "in"
				}
			}
			return
		}
		if !hasFlag(s, "in") {
			return
		}
		t := k.R.T(s.Ctx, cond)
		tk := taken
		for t.Op == "un" && t.Sym == "!" {
			t, tk = t.Args[0], !tk
		}
		set := func(name string, v bool) {
			f := parseFlags(s.Auto)
			if v && f["!"+name] || !v && f[name] {
				s.Stop = true
				return
			}
			if v {
				addFlag(s, name)
			} else {
				addFlag(s, "!"+name)
			}
		}
		if ok, pol := hasA(t); ok {
			set("a", pol == tk)
		} else if ok, pol := hasD(t); ok {
			set("d", pol == tk)
		} else if isField(t, exF) && rec(t.Args[0]) {
			set("e", tk)
		}
	}
	objOf := func(t *Term) string { // which list the object comes from
		if isField(t, "Object") {
			if e := elemOf(t.Args[0]); e != nil {
				if isAdds(e) {
					return "adds"
				}
				if isDels(e) {
					return "deletes"
				}
			}
		}
		return ""
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if !hasFlag(s, "in") || storeCall(n) == "" {
			return
		}
		args := callArgs(call.Common())
		if !isField(s.T(args[0]), "targetCache") {
			return
		}
		switch storeCall(n) {
		case "Add", "Update":
			k.check(objOf(s.T(args[1])) == "adds", R, construct, k.pr.at(call), "the target cache must hold the inserted object, gets %s", s.T(args[1]))
			k.lastElem(s, R, construct, args[1], call)
			addFlag(s, "cA")
		case "Delete":
			o := objOf(s.T(args[1]))
			k.check(o == "deletes" || o == "adds", R, construct, k.pr.at(call), "another object is removed from the target cache: %s", s.T(args[1]))
			addFlag(s, "cD")
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || !hasFlag(s, "in") {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || typeShort(fa.X.Type()) != "object.Delta" {
			return
		}
		switch fieldName(fa.X.Type(), fa.Field) {
		case "Type":
			switch v := strings.Trim(s.T(st.Val).String(), `"`); v {
			case "Upserted":
				addFlag(s, "U")
			case "Deleted":
				addFlag(s, "D")
			default:
				k.fail(R, construct, k.pr.at(in), "an operation of type %s is emitted", v)
			}
		case "Object":
			o := objOf(s.T(st.Val))
			if o == "" {
				k.fail(R, construct, k.pr.at(in), "the emitted object is not one of the deltas of the key: %s", s.T(st.Val))
			} else {
				addFlag(s, "o:"+o)
				if o == "adds" {
					k.lastElem(s, R, construct, st.Val, in)
				}
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		if f["in"] && s.RetVal(ret, -1) != "nonnil" {
			rt := s.RetT(ret, len(ret.Results)-1)
			if rt.Op != "call" && rt.Op != "ext" {
				k.fail(R, construct, k.pr.at(ret), "the resolution can end before all objects were handled (path %s)", s.Trace())
			}
		}
	}
	x = k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(loops > 0, R, construct, k.pr.pos(fn.Pos()), "no loop over the grouped deltas found")
	// an emitted upsert carries an inserted object (and not a deleted one)
	up := &Rule{MaxDepth: 4, Inline: helperInline}
	_ = up
	k.deltaOrder(fn, R)
}

// existedSnapshot: previous existence is looked up before the cache is changed, and only once per key.
func (k *K) existedSnapshot(fn *ssa.Function, R, exF string) {
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		switch storeCall(n) {
		case "Add", "Update", "Delete", "Replace":
			s.Auto = "changed"
		case "Get":
			k.check(s.Auto != "changed", R, fnName(fn), k.pr.at(call), "previous existence is looked up after the target cache was changed")
			args := callArgs(call.Common())
			t := s.T(args[1])
			k.check(isField(t, "Object") && elemOf(t.Args[0]) != nil && isParam(elemOf(t.Args[0]), "arg0"), R, fnName(fn), k.pr.at(call), "the existence of another object is looked up: %s", t)
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, fnName(fn))
}

// mapOfRecords: the loop ranges over a map whose values have the given field.
func (k *K) mapOfRecords(cond ssa.Value, field string) bool {
	e, ok := cond.(*ssa.Extract)
	if !ok {
		return false
	}
	n, ok := e.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	m, ok := n.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	el := m.Elem()
	if p, ok := el.Underlying().(*types.Pointer); ok {
		el = p.Elem()
	}
	st, ok := el.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return true
		}
	}
	return false
}

// lastElem: of several inserts the last one is used; a constant index other than the last is wrong.
func (k *K) lastElem(s *St, R, construct string, v ssa.Value, at ssa.Instruction) {
	c, w := k.R.norm(s.Ctx, v)
	// Object field of a delta loaded from the slice
	for i := 0; i < 8; i++ {
		switch y := w.(type) {
		case *ssa.UnOp:
			w = y.X
			continue
		case *ssa.FieldAddr:
			w = y.X
			continue
		case *ssa.Field:
			w = y.X
			continue
		case *ssa.Alloc:
			if sv := singleStore(y); sv != nil {
				c, w = k.R.norm(c, sv)
				continue
			}
		case *ssa.IndexAddr:
			if n, ok := intConst(y.Index); ok {
				k.fail(R, construct, k.pr.at(at), "of several inserts for the same object the last one must win, element %d is used", n)
			}
			return
		}
		break
	}
	_ = c
}

// deltaOrder: deletes are returned before upserts.
func (k *K) deltaOrder(fn *ssa.Function, R string) {
	isT := func(t *Term) bool {
		return isField(t, "Type") && elemOf(t.Args[0]) != nil && elemOf(t.Args[0]).Op == "alloc"
	}
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	n, unknown := 0, 0
	types_ := map[string]bool{}
	accTypes := map[string]map[string]bool{}
	outcome := map[string]map[string]int{} // loop -> type -> 1 emitted, 2 skipped
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := loopOver(k.R, s.Ctx, cond); over != nil {
			f := parseFlags(s.Auto)
			blk := fmt.Sprint(s.Ctx.id, loopIndex(cond))
			if over.Op == "alloc" && f["iter"] {
				if outcome[blk] == nil {
					outcome[blk] = map[string]int{}
				}
				for _, ty := range []string{"Deleted", "Upserted"} {
					if v := enumValue(s, "t"); v != "" && v != ty || f["t!"+ty] {
						continue
					}
					if f["app"] {
						outcome[blk][ty] |= 1
					} else {
						outcome[blk][ty] |= 2
					}
				}
			}
			delete(f, "app")
			delete(f, "iter")
			if taken {
				f["iter"] = true
			}
			for kk := range f {
				if strings.HasPrefix(kk, "t=") || strings.HasPrefix(kk, "t!") {
					delete(f, kk)
				}
			}
			s.Auto = f.String()
			return
		}
		enumEdge(s, k.R.T(s.Ctx, cond), taken, isT, "t")
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm != "builtin.append" || typeShort(call.Common().Args[0].Type().Underlying().(*types.Slice).Elem()) != "object.Delta" {
			return
		}
		es := k.appendArgs(s.Ctx, call)
		if len(es) != 1 {
			return
		}
		t := k.R.T(es[0].c, es[0].v)
		if e := elemOf(t); e == nil || e.Op != "alloc" {
			return // recording, not emitting
		}
		n++
		addFlag(s, "app")
		acc := accumulator(call.(*ssa.Call))
		if accTypes[acc] == nil {
			accTypes[acc] = map[string]bool{}
		}
		accTypes[acc][enumValue(s, "t")] = true
		switch enumValue(s, "t") {
		case "Deleted":
			types_["Deleted"] = true
			k.check(!hasFlag(s, "ups:"+acc), R+": order", fnName(fn), k.pr.at(call), "a delete can follow an upsert in the result (path %s)", s.Trace())
		case "Upserted":
			types_["Upserted"] = true
			addFlag(s, "ups:"+acc)
		default:
			unknown++
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		// two lists put together
		if c, ok := ret.Results[0].(*ssa.Call); ok && calleeName(c.Common()) == "builtin.append" && len(c.Call.Args) == 2 {
			x, y := accumulator(c.Call.Args[0]), accumulator(c.Call.Args[1])
			k.check(!(accTypes[y]["Deleted"] && accTypes[x]["Upserted"]), R+": order", fnName(fn), k.pr.at(ret), "a delete can follow an upsert in the result")
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, fnName(fn))
	if n == 0 || unknown > 0 && len(types_) == 0 {
		k.note("%s: the order of the result is not built by filtering on the operation type; not judged", fnName(fn))
		return
	}
	k.check(types_["Deleted"] && types_["Upserted"], R+": order", fnName(fn), k.pr.pos(fn.Pos()), "operations of a type never reach the result: only %v do", sortedKeys(types_))
	for ty := range types_ {
		always, some := false, false
		for _, o := range outcome {
			always = always || o[ty] == 1
			some = some || o[ty]&1 != 0
		}
		k.check(always || !some, R+": order", fnName(fn), k.pr.pos(fn.Pos()), "an operation of type %s can be left out of the result", ty)
	}
	k.check(unknown == 0, R+": order", fnName(fn), k.pr.pos(fn.Pos()), "operations are added to the result without looking at their type")
}

// accumulator identifies the list variable a chain of appends builds.
func accumulator(v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	best := ""
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				walk(e)
			}
		case *ssa.Call:
			if calleeName(y.Common()) == "builtin.append" {
				walk(y.Call.Args[0])
			}
		case *ssa.Slice:
			walk(y.X)
		case *ssa.MakeSlice, *ssa.Alloc:
			if n := y.Name(); best == "" || n < best {
				best = n
			}
		case *ssa.Const:
			if best == "" {
				best = "nil"
			}
		}
	}
	walk(v)
	if best == "nil" {
		// a nil list: named by its loop variables
		for x := range seen {
			if p, ok := x.(*ssa.Phi); ok && (best == "nil" || p.Name() < best) {
				best = p.Name()
			}
		}
	}
	return best
}

// ---------------------------------------------------------------- P04

func runP04(k *K) {
	const R = "emitted deltas"
	fn := k.fn("pipeline.Pipeline.ConvertZSetToDelta")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	isEntry := func(t *Term) bool {
		e := elemOf(t)
		return e != nil && e.HasCall("dbsp.DocumentZSet.List")
	}
	isMult := func(t *Term) bool { return isField(t, "Multiplicity") && isEntry(t.Args[0]) }
	isDoc := func(t *Term) bool { return isField(t, "Document") && isEntry(t.Args[0]) }
	isMeta := func(t *Term) bool {
		e := elemOf(t)
		return e != nil && isDoc(e) && t.Args[1].Sym == `"metadata"`
	}
	isMF := func(name string) func(*Term) bool {
		return func(t *Term) bool {
			e := elemOf(t)
			return e != nil && isMeta(e) && t.Args[1].Sym == `"`+name+`"`
		}
	}
	sign := func(s *St, t *Term, taken bool) bool {
		if t.Op != "bin" {
			return false
		}
		a, b, op := t.Args[0], t.Args[1], t.Sym
		if !isMult(a) {
			if !isMult(b) {
				return false
			}
			a, b = b, a
			op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
		}
		if b.Op != "const" {
			return false
		}
		// possible signs
		poss := map[string]bool{"+": true, "-": true, "0": true}
		keep := func(c string, v bool) {
			if v != taken {
				delete(poss, c)
			}
		}
		switch op + b.Sym {
		case ">0", ">=1":
			keep("+", true)
			keep("-", false)
			keep("0", false)
		case "<0", "<=-1":
			keep("-", true)
			keep("+", false)
			keep("0", false)
		case "==0":
			keep("0", true)
			keep("+", false)
			keep("-", false)
		case "!=0":
			keep("0", false)
			keep("+", true)
			keep("-", true)
		case ">=0":
			keep("+", true)
			keep("0", true)
			keep("-", false)
		case "<=0":
			keep("-", true)
			keep("0", true)
			keep("+", false)
		default:
			return false
		}
		f := parseFlags(s.Auto)
		for _, c := range []string{"+", "-", "0"} {
			if !poss[c] {
				f["not"+c] = true
			}
		}
		if f["not+"] && f["not-"] && f["not0"] {
			s.Stop = true
			return true
		}
		s.Auto = f.String()
		return true
	}
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := loopOver(k.R, s.Ctx, cond); over != nil {
			s.Auto = ""
			return
		}
		t := k.R.T(s.Ctx, cond)
		if sign(s, t, taken) {
			return
		}
		tk := taken
		for t.Op == "un" && t.Sym == "!" {
			t, tk = t.Args[0], !tk
		}
		// type tests
		if t.Op == "ext" && t.Sym == "1" {
			switch a := t.Args[0]; {
			case a.Op == "assert" && isMeta(a.Args[0]):
				if tk {
					addFlag(s, "metamap")
				}
			case a.Op == "assert" && isMF("name")(a.Args[0]) && strings.Contains(a.Sym, "string"):
				if tk {
					addFlag(s, "namestr")
				}
			case a.Op == "assert" && isMF("namespace")(a.Args[0]) && strings.Contains(a.Sym, "string"):
				if tk {
					addFlag(s, "nsstr")
				}
			case a.Op == "lookup" && isMF("namespace")(a):
				if !tk {
					addFlag(s, "nsstr")
				}
			}
			return
		}
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") {
			eq := (t.Sym == "==") == tk
			for i := 0; i < 2; i++ {
				c, o := t.Args[i], t.Args[1-i]
				if c.Op != "const" {
					continue
				}
				if c.Sym == `""` && o.Has(isMF("name")) && !o.HasCall("reflect.Value.Kind") {
					if !eq {
						addFlag(s, "nonempty")
					}
				}
				if strings.HasSuffix(o.String(), ")") && o.HasCall("reflect.Value.Kind") && isReflectString(c) && eq {
					if o.Has(isMF("name")) {
						addFlag(s, "namestr")
					}
					if o.Has(isMF("namespace")) {
						addFlag(s, "nsstr")
					}
				}
			}
		}
	}
	objs := map[string]bool{}
	setter := func(s *St, obj *Term, what string) { addFlag(s, what+"@"+short(obj)) }
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		args := callArgs(call.Common())
		switch {
		case strings.HasSuffix(n, ".SetGroupVersionKind"):
			if isParam(s.T(args[1]), "arg1") {
				setter(s, s.T(args[0]), "gvk")
			}
		case strings.HasSuffix(n, ".SetName"):
			if s.T(args[1]).Has(isMF("name")) {
				setter(s, s.T(args[0]), "name")
			}
		case strings.HasSuffix(n, ".SetNamespace"):
			if v := s.T(args[1]); allAlts(v, func(a *Term) bool { return a.Sym == `""` || a.Has(isMF("namespace")) }) && v.Has(isMF("namespace")) {
				setter(s, s.T(args[0]), "ns")
			}
		case n == "object.SetContent":
			if isDoc(s.T(args[1])) {
				setter(s, s.T(args[0]), "doc")
				// setting the content replaces what was set before
				dropFlag(s, "gvk@"+short(s.T(args[0])), "name@"+short(s.T(args[0])), "ns@"+short(s.T(args[0])))
			}
		case n == "object.NewViewObjectFromMap", strings.HasSuffix(n, ".SetUnstructuredContent"):
			if len(args) > 1 && isDoc(s.T(args[1])) {
				setter(s, s.T(args[0]), "doc")
				dropFlag(s, "gvk@"+short(s.T(args[0])), "name@"+short(s.T(args[0])), "ns@"+short(s.T(args[0])))
			}
		}
	}
	emit := 0
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || typeShort(fa.X.Type()) != "object.Delta" {
			return
		}
		f := parseFlags(s.Auto)
		switch fieldName(fa.X.Type(), fa.Field) {
		case "Object":
			emit++
			o := s.T(st.Val)
			objs[short(o)] = true
			k.check(f["metamap"], R, construct, k.pr.at(in), "a delta is emitted without checking that the metadata of the result is a map (path %s)", s.Trace())
			k.check(f["namestr"] && f["nonempty"], R, construct, k.pr.at(in), "a delta is emitted without checking that the result has a non-empty name (path %s)", s.Trace())
			k.check(f["nsstr"], R, construct, k.pr.at(in), "a delta is emitted without checking that the namespace of the result is a string (path %s)", s.Trace())
			for what, msg := range map[string]string{"doc": "the content of the result", "gvk": "the kind of the target", "name": "the validated name", "ns": "the validated namespace"} {
				k.check(f[what+"@"+short(o)], R, construct, k.pr.at(in), "the emitted object does not get %s (path %s)", msg, s.Trace())
			}
		case "Type":
			// possible types on this path
			v := s.T(st.Val)
			for _, a := range v.Alts() {
				switch strings.Trim(a.Sym, `"`) {
				case "Added", "Deleted":
				default:
					k.fail(R, construct, k.pr.at(in), "a delta of type %s is emitted", a)
				}
			}
			val := string(s.Val(s.Ctx, st.Val))
			pos, neg := !f["not+"], !f["not-"]
			k.check(f["not0"], R, construct, k.pr.at(in), "a delta is emitted for a document of multiplicity zero (path %s)", s.Trace())
			switch {
			case pos && !neg:
				k.check(strings.Contains(val, "Added"), R, construct, k.pr.at(in), "a document with positive multiplicity must become an addition, becomes %s (path %s)", val, s.Trace())
			case neg && !pos:
				k.check(strings.Contains(val, "Deleted"), R, construct, k.pr.at(in), "a document with negative multiplicity must become a deletion, becomes %s (path %s)", val, s.Trace())
			default:
				k.fail(R, construct, k.pr.at(in), "the type of the delta does not depend on the sign of the multiplicity (path %s)", s.Trace())
			}
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(emit > 0, R, construct, k.pr.pos(fn.Pos()), "no emission found")
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "emitting the document", over: func(t *Term) bool { return t.HasCall("dbsp.DocumentZSet.List") },
		action: func(s *St, call ssa.CallInstruction, n string) bool {
			return n == "builtin.append" && typeShort(call.Common().Args[0].Type().Underlying().(*types.Slice).Elem()) == "object.Delta"
		},
		skipOK: func(s *St, c *Term, taken bool) bool {
			// the only skippable entry has multiplicity zero: neither > 0 nor < 0
			if c.Op != "bin" || !isMult(c.Args[0]) {
				return false
			}
			return c.Sym == "<" && c.Args[1].Sym == "0" && !taken || c.Sym == "==" && c.Args[1].Sym == "0" && taken
		}})
}

func isReflectString(c *Term) bool { return c.Sym == "24" }

func short(t *Term) string {
	x := t.String()
	if len(x) > 120 {
		x = x[len(x)-120:]
	}
	return strings.NewReplacer(",", ";").Replace(x)
}

// ---------------------------------------------------------------- P05

func runP05(k *K) {
	const R = "compilation of operations"
	fn := k.fn("pipeline.New")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	isOps := func(t *Term) bool {
		if t.Op == "slice" {
			t = t.Args[0]
		}
		return isField(t, "Ops") && isParam(t.Args[0], "arg3")
	}
	isOpAt := func(t *Term) bool { e := elemOf(t); return e != nil && isOps(e) }
	isKind := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Sym, ".OpType") && isOpAt(t.Args[0])
	}
	isExpr := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Sym, ".GetExpression") && isOpAt(t.Args[0])
	}
	ctor := map[string]string{"@select": "dbsp.NewSelection", "@project": "dbsp.NewProjection", "@unwind": "dbsp.NewUnwind", "@demux": "dbsp.NewUnwind", "@gather": "dbsp.NewGather", "@mux": "dbsp.NewGather"}
	// the operator constructors wrap exactly one dbsp constructor
	rule := &Rule{MaxDepth: 5, Flow: true}
	rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		p := fnPkg(callee)
		return p != nil && p.Path() == modPath+"/pkg/pipeline"
	}
	inLoop := func(s *St) bool { return hasFlag(s, "loop") }
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := s.loopOver(cond); over != nil && isOps(over) {
			if hasFlag(s, "loop") && !hasFlag(s, "chained") {
				k.fail(R, construct, k.pr.at(cond.(ssa.Instruction)), "an operation of the pipeline can be skipped (path %s)", s.Trace())
			}
			f := parseFlags(s.Auto)
			for kk := range f {
				if kk == "loop" || kk == "chained" || strings.HasPrefix(kk, "op=") || strings.HasPrefix(kk, "op!") || strings.HasPrefix(kk, "made:") || strings.HasPrefix(kk, "expr") {
					delete(f, kk)
				}
			}
			if taken {
				f["loop"] = true
			} else {
				f["compiled"] = true
			}
			s.Auto = f.String()
			return
		}
		t := s.condTerm(cond)
		if inLoop(s) {
			if enumEdge(s, t, taken, isKind, "op") {
				return
			}
			if nilEdge(s, t, taken, isExpr, "expr") {
				return
			}
			return
		}
		// the join condition
		tk := taken
		for t.Op == "un" && t.Sym == "!" {
			t, tk = t.Args[0], !tk
		}
		if x, eq, ok := eqConst(t, `"@join"`, tk); ok && isKind(x) {
			if eq {
				addFlag(s, "join")
			} else {
				addFlag(s, "nojoin")
			}
			return
		}
		if t.Op == "bin" && isCallTo(t.Args[0], "builtin.len") && isOps(t.Args[0].Args[0]) {
			empty := t.Sym == ">" && t.Args[1].Sym == "0" && !tk || t.Sym == "==" && t.Args[1].Sym == "0" && tk
			if empty {
				addFlag(s, "nojoin")
			}
			return
		}
		if t.Op == "bin" && isCallTo(t.Args[0], "builtin.len") && isParam(t.Args[0].Args[0], "arg2") {
			switch {
			case t.Sym == ">" && t.Args[1].Sym == "1", t.Sym == ">=" && t.Args[1].Sym == "2":
				if tk {
					addFlag(s, "multi")
				} else {
					addFlag(s, "single")
				}
			}
			return
		}
		// a merged test of the join condition is decided on the path
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		args := callArgs(call.Common())
		switch n {
		case "dbsp.ChainGraph.SetJoin":
			k.check(hasFlag(s, "join"), R, construct, k.pr.at(call), "a join is set up although the pipeline does not start with one")
			addFlag(s, "joinset")
			k.check(hasFlag(s, "madejoin"), R, construct, k.pr.at(call), "a join must compile to a join operator, is %s", s.T(args[1]))
		case "dbsp.ChainGraph.AddToChain":
			if !inLoop(s) {
				k.fail(R, construct, k.pr.at(call), "an operator is added that belongs to no operation")
				return
			}
			addFlag(s, "chained")
			op := enumValue(s, "op")
			want := ctor[op]
			if want == "" {
				k.fail(R, construct, k.pr.at(call), "operation %q is accepted although it is unknown (path %s)", op, s.Trace())
				return
			}
			k.ok(R, construct+" on "+op, k.pr.at(call))
			k.check(hasFlag(s, "made:"+want), R, construct+" on "+op, k.pr.at(call), "operation %s must compile to %s (path %s)", op, want, s.Trace())
			for _, other := range ctor {
				if other != want && hasFlag(s, "made:"+other) {
					k.fail(R, construct+" on "+op, k.pr.at(call), "operation %s compiles to %s", op, other)
				}
			}
		default:
			for _, c := range ctor {
				if n == c && inLoop(s) {
					addFlag(s, "made:"+c)
					k.stageExpr(s, R, construct, call, isExpr)
				}
			}
		case "dbsp.NewIncrementalJoin", "dbsp.NewJoin":
			k.stageExpr(s, R, construct, call, isExpr)
			k.joinInputs(s, R, construct, call)
			addFlag(s, "madejoin")
		case "dbsp.LinearChainRewriteEngine.Optimize":
			k.check(hasFlag(s, "compiled"), R, construct, k.pr.at(call), "the graph is optimized before it is complete")
			addFlag(s, "optimized")
		case "dbsp.NewExecutor":
			k.check(hasFlag(s, "optimized"), R, construct, k.pr.at(call), "the executor is created before the graph is incrementalized: non-linear operators would process deltas as snapshots")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		f := parseFlags(s.Auto)
		k.check(f["optimized"], R, construct, k.pr.at(ret), "a pipeline is returned without incrementalizing its graph (path %s)", s.Trace())
		if f["multi"] {
			k.check(f["join"] && f["joinset"], R, construct, k.pr.at(ret), "a pipeline on several sources is accepted although it does not start with a join (path %s)", s.Trace())
		} else {
			k.check(f["single"] || f["joinset"], R, construct, k.pr.at(ret), "a pipeline is accepted without looking at the number of its sources")
		}
		k.check(!f["join"] || f["joinset"], R, construct, k.pr.at(ret), "the join of a pipeline is ignored (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	for op := range ctor {
		found := false
		for key := range k.obls {
			if strings.HasSuffix(key, construct+" on "+op) {
				found = true
			}
		}
		k.check(found, R, construct+" on "+op, k.pr.pos(fn.Pos()), "operation %s is not compiled", op)
	}
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "adding an input for the source", over: func(t *Term) bool { return isParam(t, "arg2") },
		at:     func(b *ssa.BasicBlock) bool { return b.Parent() == fn },
		action: func(s *St, call ssa.CallInstruction, n string) bool { return n == "dbsp.ChainGraph.AddInput" }})
	// the first chain operation directly follows the join
	k.chainStart(fn, R, isOps)
}

// stageExpr: the evaluator of a stage holds the expression of its own operation.
func (k *K) stageExpr(s *St, R, construct string, call ssa.CallInstruction, isExpr func(*Term) bool) {
	for _, a := range call.Common().Args {
		c, v := k.R.norm(s.Ctx, a)
		al, ok := v.(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			continue
		}
		for _, r := range *al.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || fa.Referrers() == nil {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(fa) || typeShort(st.Val.Type()) != "expression.Expression" {
					continue
				}
				t := k.R.T(c, st.Val)
				k.check(t.Has(isExpr), R, construct, k.pr.at(call), "a stage is given an expression that is not the one of its operation: %s", t)
			}
		}
	}
}

// joinInputs: the inputs of a join are the kinds of all sources in order.
func (k *K) joinInputs(s *St, R, construct string, call ssa.CallInstruction) {
	args := call.Common().Args
	c, v := k.R.norm(s.Ctx, args[len(args)-1])
	good := false
	if ms, ok := v.(*ssa.MakeSlice); ok && ms.Referrers() != nil {
		ln := k.R.T(c, ms.Len)
		for _, r := range *ms.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok || ia.Referrers() == nil {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					t := k.R.T(c, st.Val)
					good = isField(t, "Kind") && isCallTo(ln, "builtin.len") && elemOf(t.Args[0]) != nil
				}
			}
		}
	} else if t := k.R.T(c, v); t.Has(func(x *Term) bool { return isField(x, "Kind") }) || isCallTo(t, "builtin.append") {
		good = true
	}
	k.check(good, R, construct, k.pr.at(call), "the inputs of a join must be the kinds of the sources")
}

// chainStart: the loop over the operations starts right after the join (or at the first operation).
func (k *K) chainStart(fn *ssa.Function, R string, isOps func(*Term) bool) {
	c := k.R.rootCtx(fn)
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		over := loopOver(k.R, c, iff.Cond)
		if over == nil || !isOps(over) {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		phi, ok := bo.X.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, e := range phi.Edges {
			if phi.Block().Dominates(phi.Block().Preds[i]) {
				continue
			}
			for _, a := range k.R.T(c, e).Alts() {
				k.check(a.Sym == "0" || a.Sym == "1" || a.Sym == "-1", R, fnName(fn), k.pr.at(iff), "the first operations of a pipeline are skipped (start index %s)", a)
			}
		}
	}
}

// ---------------------------------------------------------------- P06

func runP06(k *K) {
	const R = "state-of-the-world synchronization"
	fn := k.fn("pipeline.Pipeline.Sync")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	// terms: the snapshot result, the current state
	isReq := func(t *Term) bool {
		c := extOf(t, 0, "dbsp.SnapshotExecutor.Process", "dbsp.Executor.Process")
		return c != nil && c.Args[0].Has(func(x *Term) bool { return isField(x, "snapshotExecutor") })
	}
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	subs := 0
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		args := callArgs(call.Common())
		switch n {
		case "dbsp.ToSnapshotGraph":
			k.check(isField(s.T(args[0]), "graph"), R, construct, k.pr.at(call), "the snapshot graph must be made from the graph of the pipeline, is made from %s", s.T(args[0]))
		case zp + "Subtract":
			subs++
			a, b := s.T(args[0]), s.T(args[1])
			k.check(allAlts(a, isReq) && isCallTo(b, "dbsp.NewDocumentZSet"), R, construct, k.pr.at(call), "the difference must be the required state minus the current one, is %s minus %s", a, b)
			addFlag(s, "sub")
		case "pipeline.Pipeline.ConvertZSetToDelta":
			c := extOf(s.T(args[1]), 0, zp+"Subtract")
			k.check(c != nil, R, construct, k.pr.at(call), "the difference of the states must be converted, is %s", s.T(args[1]))
			k.check(isField(s.T(args[2]), "target"), R, construct, k.pr.at(call), "the result must be converted to the kind of the target")
		case "pipeline.Pipeline.Reconcile":
			c := extOf(s.T(args[1]), 0, "pipeline.Pipeline.ConvertZSetToDelta")
			k.check(c != nil, R, construct, k.pr.at(call), "the converted difference must be reconciled, is %s", s.T(args[1]))
			addFlag(s, "rec")
		}
		if isAddDoc(n) {
			doc, cnt, zs := s.T(args[1]), s.T(args[2]), args[0]
			k.check(cnt.Sym == "1", R, construct, k.pr.at(call), "every cached object counts once, is inserted with %s", cnt)
			src := contentOf(doc)
			okDoc := src != nil && isCallTo(src, "object.DeepCopy") && elemOf(src.Args[0]) != nil && isCallTo(elemOf(src.Args[0]), storeP+"List")
			k.check(okDoc, R, construct, k.pr.at(call), "only copies of the cached objects enter a state, found %s", doc)
			if okDoc {
				k.check(hasFlag(s, "uid:"+short(src)), R, construct, k.pr.at(call), "an object enters a state with its UID")
				dropFlag(s, "uid:"+short(src))
			}
			_, w := k.R.norm(s.Ctx, zs)
			_ = w
		}
		if n == "object.RemoveUID" {
			addFlag(s, "uid:"+short(s.T(args[0])))
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		// the Z-set of a source is filed under the input of that source
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || typeShort(mu.Value.Type()) != "dbsp.DocumentZSet" {
			return
		}
		kt := s.T(mu.Key)
		k.check(kt.Has(func(x *Term) bool {
			return isField(x, "Kind") && elemOf(x.Args[0]) != nil && isField(elemOf(x.Args[0]), "sources")
		}), R, construct, k.pr.at(in), "the state of a source must be given to the input of that source, is filed under %s", kt)
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		k.check(hasFlag(s, "sub") && hasFlag(s, "rec"), R, construct, k.pr.at(ret), "synchronization succeeds without applying the difference of the states (path %s)", s.Trace())
		t := s.RetT(ret, 0)
		k.check(allAlts(t, func(a *Term) bool { return isNil(a) || extOf(a, 0, "pipeline.Pipeline.Reconcile") != nil }), R, construct, k.pr.at(ret), "the reconciled difference must be returned, is %s", t)
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(subs > 0, R, construct, k.pr.pos(fn.Pos()), "no difference of states is computed")
	// completeness
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "giving the state of the source to its input", over: func(t *Term) bool { return isField(t, "sources") },
		instr: func(s *St, in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && typeShort(mu.Value.Type()) == "dbsp.DocumentZSet"
		}})
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "inserting the cached object", over: func(t *Term) bool { return isCallTo(t, storeP+"List") },
		action: func(s *St, call ssa.CallInstruction, n string) bool { return isAddDoc(n) }})
	k.stateSource(fn, R)
	// Evaluate: the incremental path
	k.evaluatePath()
}

// stateSource: the Z-set that is subtracted holds the target cache; those of the inputs hold the
// source caches.
func (k *K) stateSource(fn *ssa.Function, R string) {
	construct := fnName(fn)
	type zid struct {
		c int
		v ssa.Value
	}
	id := func(s *St, v ssa.Value) zid {
		c, w := k.R.origin(s.Ctx, v)
		return zid{c.id, w}
	}
	filled := map[zid]string{} // Z-set -> cache
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	which := func(t *Term) string {
		r := ""
		t.Walk(func(x *Term) bool {
			if isCallTo(x, storeP+"List") {
				if isField(x.Args[0], "targetCache") {
					r = "target"
				} else if x.Args[0].Has(func(y *Term) bool { return isField(y, "sourceCache") }) {
					r = "source"
				}
			}
			return true
		})
		return r
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		args := callArgs(call.Common())
		if isAddDoc(n) {
			z := id(s, args[0])
			w := which(s.T(args[1]))
			if o := filled[z]; o != "" && o != w {
				k.fail(R, construct, k.pr.at(call), "the states of sources and target are mixed in one Z-set")
			}
			filled[z] = w
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	chk := &Rule{MaxDepth: 4, Inline: helperInline}
	chk.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n == zp+"Subtract" {
			z := id(s, callArgs(call.Common())[1])
			k.check(filled[z] == "target", R, construct, k.pr.at(call), "the state that is subtracted must be that of the target, is %q", filled[z])
		}
	}
	chk.Instr = func(s *St, in ssa.Instruction) {
		if mu, ok := in.(*ssa.MapUpdate); ok && typeShort(mu.Value.Type()) == "dbsp.DocumentZSet" {
			z := id(s, mu.Value)
			k.check(filled[z] != "target", R, construct, k.pr.at(in), "an input is given the state of the target")
		}
	}
	x = k.explore(chk)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// evaluatePath: the incremental path gives the Z-set of the event to the input of its kind and
// empty ones to the others, and passes the result through conversion and reconciliation.
func (k *K) evaluatePath() {
	const R = "incremental evaluation"
	fn := k.fn("pipeline.Pipeline.Evaluate")
	if fn == nil {
		return
	}
	construct := fnName(fn)
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Instr = func(s *St, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || typeShort(mu.Value.Type()) != "dbsp.DocumentZSet" {
			return
		}
		v, kt := s.T(mu.Value), s.T(mu.Key)
		switch {
		case isCallTo(v, "dbsp.NewDocumentZSet"):
			k.check(isField(kt, "Kind") && !hasFlag(s, "delta"), R, construct, k.pr.at(in), "the delta of an input is overwritten by an empty one (path %s)", s.Trace())
		case extOf(v, 0, "pipeline.Pipeline.ConvertDeltaToZSet") != nil:
			good := kt.Op == "call" && strings.HasSuffix(kt.Sym, ".GetKind") && kt.Has(func(x *Term) bool { return isField(x, "Object") && isParam(x.Args[0], "arg0") })
			good = good || isField(kt, "Kind") && kt.HasCall("schema.ObjectKind.GroupVersionKind")
			k.check(good, R, construct, k.pr.at(in), "the delta must be given to the input of the object's kind, is given to %s", kt)
			addFlag(s, "delta")
		default:
			k.fail(R, construct, k.pr.at(in), "an input is given %s", v)
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		args := callArgs(call.Common())
		switch n {
		case "dbsp.Executor.Process", "dbsp.IncrementalExecutor.Process":
			k.check(hasFlag(s, "delta"), R, construct, k.pr.at(call), "the graph is evaluated without the delta of the event (path %s)", s.Trace())
			addFlag(s, "proc")
		case "pipeline.Pipeline.ConvertZSetToDelta":
			t := s.T(args[1])
			k.check(t.Op == "ext" && t.Sym == "0" && strings.HasSuffix(t.Args[0].Sym, "Executor.Process"), R, construct, k.pr.at(call), "the result of the graph must be converted, is %s", t)
			k.check(isField(s.T(args[2]), "target"), R, construct, k.pr.at(call), "the result must be converted to the kind of the target")
		case "pipeline.Pipeline.Reconcile":
			k.check(extOf(s.T(args[1]), 0, "pipeline.Pipeline.ConvertZSetToDelta") != nil, R, construct, k.pr.at(call), "the converted result must be reconciled, is %s", s.T(args[1]))
			addFlag(s, "rec")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		k.check(hasFlag(s, "proc") && hasFlag(s, "rec"), R, construct, k.pr.at(ret), "evaluation succeeds without processing the event (path %s)", s.Trace())
		t := s.RetT(ret, 0)
		k.check(allAlts(t, func(a *Term) bool { return isNil(a) || extOf(a, 0, "pipeline.Pipeline.Reconcile") != nil }), R, construct, k.pr.at(ret), "the reconciled result must be returned, is %s", t)
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "giving the input an empty delta", over: func(t *Term) bool { return isField(t, "sources") },
		instr: func(s *St, in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && typeShort(mu.Value.Type()) == "dbsp.DocumentZSet"
		}})
}

// ---------------------------------------------------------------- P07

func runP07(k *K) {
	// filtering stages: the unchanged document exactly if the condition is true
	filters := 0
	for _, t := range k.implementers("pkg/pipeline", "dbsp.Evaluator") {
		fn := k.method(t, "Evaluate")
		if fn == nil {
			continue
		}
		calls := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					calls[calleeName(c.Common())] = true
				}
			}
		}
		for _, g := range k.calleesIn(fn, "pkg/pipeline") {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						calls[calleeName(c.Common())] = true
					}
				}
			}
		}
		if calls["expression.AsBool"] {
			filters++
			k.filterStage(fn)
		} else {
			k.projectStage(fn)
		}
	}
	k.check(filters >= 2, "filter stages", "inventory", "", "expected the selection and join stages, found %d filtering evaluators", filters)
	k.unwindStage()
	k.gatherStage()
}

// evalOf: t is the value of the stage's expression on the given document.
func evalOf(t *Term) bool {
	c := extOf(t, 0, "expression.Expression.Evaluate")
	return c != nil && c.Args[0].Has(func(x *Term) bool { return isParam(x, "recv") })
}

func (k *K) filterStage(fn *ssa.Function) {
	const R = "filter stages"
	construct := fnName(fn)
	isCond := func(t *Term) bool {
		c := extOf(t, 0, "expression.AsBool")
		return c != nil && evalOf(c.Args[0])
	}
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		boolEdge(s, k.R.T(s.Ctx, cond), taken, isCond, "keep")
	}
	n := 0
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm == "builtin.append" {
			es := k.appendArgs(s.Ctx, call)
			if len(es) == 1 && isParam(k.R.T(es[0].c, es[0].v), "arg0") {
				addFlag(s, "kept")
			} else {
				k.fail(R, construct, k.pr.at(call), "a filter must pass on the document unchanged")
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		n++
		f := parseFlags(s.Auto)
		kept := f["kept"]
		// a literal result
		if es := k.sliceElems(s.Ctx, ret.Results[0]); len(es) == 1 {
			kept = isParam(k.R.T(es[0].c, es[0].v), "arg0")
			if !kept {
				k.fail(R, construct, k.pr.at(ret), "a filter must pass on the document unchanged")
			}
		}
		k.check(f["keep"] && kept || f["!keep"] && !kept, R, construct, k.pr.at(ret), "a filter must keep the document exactly if its condition is true (condition tested %v, kept %v; path %s)", f["keep"] || f["!keep"], kept, s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(n >= 2, R, construct, k.pr.pos(fn.Pos()), "the filter does not depend on its condition")
}

func (k *K) projectStage(fn *ssa.Function) {
	const R = "projection stage"
	construct := fnName(fn)
	isList := func(t *Term) bool {
		c := extOf(t, 0, "expression.AsObjectOrObjectList")
		return c != nil && evalOf(c.Args[0])
	}
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "merging the partial result", over: isList,
		action: func(s *St, call ssa.CallInstruction, n string) bool { return n == "object.MergeAny" }})
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n == "object.MergeAny" {
			a := call.Common().Args
			k.check(elemOf(s.T(a[1])) != nil && isList(elemOf(s.T(a[1]))), R, construct, k.pr.at(call), "later partial results must be merged over earlier ones")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		es := k.sliceElems(s.Ctx, ret.Results[0])
		ok := len(es) == 1
		if ok {
			t := k.R.T(es[0].c, es[0].v)
			ok = t.HasCall("object.MergeAny") || isNil(t)
		}
		k.check(ok, R, construct, k.pr.at(ret), "a projection must return exactly the merged result")
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

func (k *K) unwindStage() {
	const R = "unwind stage"
	ex, tr := k.fn("pipeline.UnwindOp.Extract"), k.fn("pipeline.UnwindOp.Transform")
	if ex == nil || tr == nil {
		return
	}
	isList := func(t *Term) bool {
		return anyAlt(t, func(a *Term) bool { return extOf(a, 0, "expression.AsList") != nil })
	}
	checkLoops(k, ex, &loopSpec{rule: R, min: 1, what: "producing the list element", over: isList,
		instr: func(s *St, in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			_, ok = st.Addr.(*ssa.IndexAddr)
			return ok && st.Val.Type().Underlying() == types.Universe.Lookup("any").Type().Underlying()
		},
		action: func(s *St, call ssa.CallInstruction, n string) bool { return n == "builtin.append" }})
	// index and value of an element belong together
	c := k.R.rootCtx(ex)
	idx, val := false, false
	for _, b := range ex.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasPrefix(typeShort(fa.X.Type()), "pipeline.") {
				continue
			}
			t := k.R.T(c, st.Val)
			switch {
			case elemOf(t) != nil && isList(elemOf(t)):
				val = true
			case isInt(st.Val.Type()):
				_, w := k.R.norm(c, st.Val)
				if induction(w) {
					idx = true
				} else {
					k.fail(R, fnName(ex), k.pr.at(in), "the index of a list element must be its position, is %s", t)
				}
			}
		}
	}
	k.check(idx && val, R, fnName(ex), k.pr.pos(ex.Pos()), "an unwound element must carry its position and its value (position %v, value %v)", idx, val)
	// transformation
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n != "expression.SetJSONPathRaw" {
			return
		}
		a := call.Common().Args
		p, v, d := s.T(a[0]), s.T(a[1]), s.T(a[2])
		k.check(isParam(d, "arg0"), R, fnName(tr), k.pr.at(call), "the element must be set in the given document")
		switch {
		case p.Sym == `"$.metadata.name"`:
			ints := sprintfArgs(k, s, a[1])
			k.check(ints, R, fnName(tr), k.pr.at(call), "the name of an unwound object must be derived from its name and the position of the element, is %s", v)
			addFlag(s, "name")
		case p.HasCall("expression.Expression.GetLiteralString"):
			k.check(v.Has(func(x *Term) bool { return isParam(x, "arg1") }), R, fnName(tr), k.pr.at(call), "the list must be replaced by the element, is replaced by %s", v)
			addFlag(s, "value")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		f := parseFlags(s.Auto)
		k.check(f["name"] && f["value"], R, fnName(tr), k.pr.at(ret), "an unwound object must get the element (%v) and a distinct name (%v) (path %s)", f["value"], f["name"], s.Trace())
		k.check(isParam(s.RetT(ret, 0), "arg0"), R, fnName(tr), k.pr.at(ret), "the transformed document must be returned")
	}
	x := k.explore(rule)
	x.Run(tr, "")
	k.done(x, R, fnName(tr))
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// sprintfArgs: v is a formatted string one of whose operands is the name and one an integer taken
// from the element.
func sprintfArgs(k *K, s *St, v ssa.Value) bool {
	c, w := k.R.norm(s.Ctx, v)
	call, ok := w.(*ssa.Call)
	name, pos := false, false
	judge := func(t *Term, ty types.Type) {
		if t.HasCall("expression.GetJSONPathRaw") {
			name = true
		}
		if t.Has(func(x *Term) bool { return isParam(x, "arg1") }) {
			pos = true
		}
	}
	if ok {
		for _, a := range call.Common().Args {
			if es := k.sliceElems(c, a); es != nil {
				for _, e := range es {
					judge(k.R.T(e.c, e.v), e.v.Type())
				}
			} else {
				judge(k.R.T(c, a), a.Type())
			}
		}
	} else {
		judge(k.R.T(c, w), w.Type())
	}
	return name && pos
}

func (k *K) gatherStage() {
	const R = "gather stage"
	fn := k.fn("pipeline.Pipeline.NewGatherOp")
	tr := k.fn("pipeline.GatherOp.Transform")
	if fn == nil || tr == nil {
		return
	}
	// which expression plays which role: first the key, second the value
	argNo := func(c *Ctx, v ssa.Value) int64 {
		_, w := k.R.norm(c, v)
		if ia, ok := w.(*ssa.IndexAddr); ok {
			if n, ok := intConst(ia.Index); ok {
				return n
			}
		}
		return -1
	}
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	found := false
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n != "dbsp.NewGather" {
			return
		}
		found = true
		for i, want := range []int64{0, 1} {
			got := int64(-1)
			c, w := k.R.norm(s.Ctx, call.Common().Args[i])
			// a literal, possibly reached through a field of another literal
			if u, ok := w.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					bc, base := k.R.norm(c, fa.X)
					if al, ok := base.(*ssa.Alloc); ok {
						if v := literalField(al, fa.Field); v != nil {
							c, w = k.R.norm(bc, v)
						}
					}
				}
			}
			if al, ok := w.(*ssa.Alloc); ok {
				st := deref(al.Type()).Underlying().(*types.Struct)
				for f := 0; f < st.NumFields(); f++ {
					if typeShort(st.Field(f).Type()) == "expression.Expression" {
						if v := literalField(al, f); v != nil {
							got = argNo(c, v)
						}
					}
				}
			}
			k.check(got == want, R, fnName(fn), k.pr.at(call), "the %s of a gather must be extracted by its argument %d, is extracted by argument %d", []string{"group key", "value"}[i], want, got)
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, fnName(fn))
	k.check(found, R, fnName(fn), k.pr.pos(fn.Pos()), "no gather operator is built")
	rule = &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n == "expression.SetJSONPathRawExp" {
			a := call.Common().Args
			k.check(isField(s.T(a[1]), "Values") && s.T(a[1]).Has(func(x *Term) bool { return isParam(x, "arg1") }) && isParam(s.T(a[2]), "arg0"), R, fnName(tr), k.pr.at(call), "the values of the group must be set in the document of the group, sets %s", s.T(a[1]))
			addFlag(s, "set")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		k.check(hasFlag(s, "set") && isParam(s.RetT(ret, 0), "arg0"), R, fnName(tr), k.pr.at(ret), "the document of the group must be returned with its values (path %s)", s.Trace())
	}
	x = k.explore(rule)
	x.Run(tr, "")
	k.done(x, R, fnName(tr))
}

// literalField returns the only value stored to a field of a local literal.
func literalField(al *ssa.Alloc, field int) ssa.Value {
	var v ssa.Value
	n := 0
	if al.Referrers() == nil {
		return nil
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Field != field || fa.Referrers() == nil {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				n++
				v = st.Val
			}
		}
	}
	if n != 1 {
		return nil
	}
	return v
}
