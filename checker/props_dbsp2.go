package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- D02

// flags is a small set of facts kept in an automaton state.
type flags map[string]bool

func parseFlags(a string) flags {
	f := flags{}
	for _, p := range strings.Split(a, ",") {
		if p != "" {
			f[p] = true
		}
	}
	return f
}

func (f flags) String() string {
	var r []string
	for k, v := range f {
		if v {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func addFlag(s *St, names ...string) {
	f := parseFlags(s.Auto)
	for _, n := range names {
		f[n] = true
	}
	s.Auto = f.String()
}

func dropFlag(s *St, names ...string) {
	f := parseFlags(s.Auto)
	for _, n := range names {
		delete(f, n)
	}
	s.Auto = f.String()
}

func hasFlag(s *St, n string) bool { return parseFlags(s.Auto)[n] }

// eqZero: cond compares x with the constant 0; returns x and whether the edge means x == 0.
func eqConst(t *Term, c string, taken bool) (*Term, bool, bool) {
	if t.Op == "un" && t.Sym == "!" {
		return eqConst(t.Args[0], c, !taken)
	}
	if t.Op != "bin" || t.Sym != "==" && t.Sym != "!=" {
		return nil, false, false
	}
	for i := 0; i < 2; i++ {
		if t.Args[i].Op == "const" && t.Args[i].Sym == c {
			return t.Args[1-i], (t.Sym == "==") == taken, true
		}
	}
	return nil, false, false
}

func runD02(k *K) {
	z := k.zset()
	if z == nil {
		return
	}
	fn := k.fn(zp + "AddDocumentMutate")
	if fn != nil {
		k.zsetMutator(z, fn)
	}
	for _, n := range []string{"ShallowCopy", "DeepCopy"} {
		if f := k.fn(zp + n); f != nil {
			k.zsetCopy(z, f)
		}
	}
	// writes to the maps elsewhere would bypass the mutator
	for _, f := range k.fnsIn("pkg/dbsp") {
		name := fnName(f)
		if name == zp+"AddDocumentMutate" {
			continue
		}
		c := k.R.rootCtx(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch y := in.(type) {
				case *ssa.MapUpdate:
					m = y.Map
				case ssa.CallInstruction:
					if calleeName(y.Common()) == "builtin.delete" || calleeName(y.Common()) == "builtin.clear" {
						m = y.Common().Args[0]
					}
				}
				if m == nil {
					continue
				}
				t := k.R.T(c, m)
				// helpers of the mutator operate on their receiver
				if t.Op != "field" || t.Sym != z.counts && t.Sym != z.docs || !isZsetTerm(k, t) {
					continue
				}
				fresh := allAlts(t.Args[0], func(a *Term) bool {
					return a.Op == "alloc" || isCallTo(a, "dbsp.NewDocumentZSet", zp+"DeepCopy", zp+"ShallowCopy")
				})
				helper := k.onlyCalledFrom(f, zp+"AddDocumentMutate")
				k.check(fresh || helper, "Z-set maps are private", name, k.pr.at(in), "%s writes the representation of a Z-set it did not create: an entry can appear with a wrong key, a zero multiplicity, or in somebody else's Z-set", name)
			}
		}
	}
}

func isZsetTerm(k *K, t *Term) bool {
	if t.V == nil {
		return true
	}
	if fa, ok := t.V.(*ssa.UnOp); ok {
		if a, ok := fa.X.(*ssa.FieldAddr); ok {
			return typeShort(a.X.Type()) == "dbsp.DocumentZSet"
		}
	}
	return true
}

// onlyCalledFrom: f is an unexported helper reached only from root (transitively).
func (k *K) onlyCalledFrom(f *ssa.Function, root string) bool {
	seen := map[*ssa.Function]bool{}
	var up func(g *ssa.Function) bool
	up = func(g *ssa.Function) bool {
		if fnName(g) == root {
			return true
		}
		if seen[g] {
			return true
		}
		seen[g] = true
		if g.Parent() != nil {
			return up(g.Parent())
		}
		if g.Object() == nil || g.Object().Exported() {
			return false
		}
		cs := k.callers(g)
		if len(cs) == 0 {
			return false
		}
		for _, c := range cs {
			if !up(c) {
				return false
			}
		}
		return true
	}
	return up(f)
}

var callerIdx map[*ssa.Function][]*ssa.Function

// callers lists the module functions that call or reference f.
func (k *K) callers(f *ssa.Function) []*ssa.Function {
	if callerIdx == nil {
		callerIdx = map[*ssa.Function][]*ssa.Function{}
		for _, g := range k.pr.Funcs {
			seen := map[*ssa.Function]bool{}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok && !seen[h] {
							seen[h] = true
							callerIdx[h] = append(callerIdx[h], g)
						}
					}
				}
			}
		}
	}
	return callerIdx[f]
}

func (k *K) zsetMutator(z *zinfo, fn *ssa.Function) {
	rule0 := "Z-set representation"
	construct := fnName(fn)
	isCounts := func(t *Term) bool { return isField(t, z.counts) && isParam(t.Args[0], "recv") }
	isDocs := func(t *Term) bool { return isField(t, z.docs) && isParam(t.Args[0], "recv") }
	old := func(t *Term) bool { return elemOf(t) != nil && isCounts(elemOf(t)) }
	sum := func(t *Term) bool {
		return t.Op == "bin" && t.Sym == "+" && (old(t.Args[0]) && isParam(t.Args[1], "arg1") || old(t.Args[1]) && isParam(t.Args[0], "arg1"))
	}
	keyOK := func(s *St, v ssa.Value, in ssa.Instruction) {
		t := s.T(v)
		good := allAlts(t, func(a *Term) bool {
			return a.Op == "const" && a.Sym == `""` || a.Has(func(x *Term) bool { return isParam(x, "arg0") }) && !a.Has(func(x *Term) bool { return isParam(x, "arg1") || isParam(x, "recv") })
		}) && t.Has(func(x *Term) bool { return isParam(x, "arg0") })
		k.check(good, rule0, construct, k.pr.at(in), "entries must be keyed by the canonical form of the document, found key %s", t)
	}
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Instr = func(s *St, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		m := s.T(mu.Map)
		v := s.T(mu.Value)
		switch {
		case isCounts(m):
			keyOK(s, mu.Key, in)
			if hasFlag(s, "W") {
				k.fail(rule0, construct, k.pr.at(in), "the multiplicity is written twice on a path (path %s)", s.Trace())
			}
			good := allAlts(v, sum) || allAlts(v, func(t *Term) bool { return isParam(t, "arg1") }) && hasFlag(s, "absent")
			k.check(good, rule0, construct, k.pr.at(in), "the new multiplicity must be the old one plus the count, found %s", v)
			addFlag(s, "W")
			// a test of the sum made before the write still holds for the value written
			if hasFlag(s, "zero") {
				k.fail(rule0, construct, k.pr.at(in), "a zero multiplicity is stored (path %s)", s.Trace())
			}
		case isDocs(m):
			keyOK(s, mu.Key, in)
			good := isParam(v, "arg0") || isCallTo(v, "dbsp.DeepCopyDocument") && isParam(v.Args[0], "arg0")
			k.check(good, rule0, construct, k.pr.at(in), "the stored document must be the given one, found %s", v)
			dropFlag(s, "Dd")
			addFlag(s, "doc")
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n != "builtin.delete" {
			return
		}
		m := s.T(call.Common().Args[0])
		if isCounts(m) {
			keyOK(s, call.Common().Args[1], call)
			addFlag(s, "Dc")
		}
		if isDocs(m) {
			keyOK(s, call.Common().Args[1], call)
			addFlag(s, "Dd")
			dropFlag(s, "doc")
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := k.R.T(s.Ctx, cond)
		neg := taken
		for t.Op == "un" && t.Sym == "!" {
			t = t.Args[0]
			neg = !neg
		}
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "lookup" && (isCounts(t.Args[0].Args[0]) || isDocs(t.Args[0].Args[0])) {
			if neg {
				addFlag(s, "present")
			} else {
				addFlag(s, "absent")
			}
			return
		}
		x, eq, ok := eqConst(t, "0", neg)
		if !ok {
			return
		}
		switch {
		case isParam(x, "arg1"):
			if eq {
				addFlag(s, "nothing")
			}
		case old(x) && !hasFlag(s, "W"):
			if eq {
				addFlag(s, "absent")
			} else {
				addFlag(s, "present")
			}
		case old(x) || allAlts(x, sum) || allAlts(x, func(a *Term) bool { return sum(a) || isParam(a, "arg1") }):
			if eq {
				addFlag(s, "zero")
				dropFlag(s, "nonzero")
			} else {
				addFlag(s, "nonzero")
				dropFlag(s, "zero")
			}
		}
	}
	n := 0
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			if hasFlag(s, "W") {
				k.fail(rule0, construct, k.pr.at(ret), "an error is reported after the Z-set was changed (path %s)", s.Trace())
			}
			return
		}
		n++
		f := parseFlags(s.Auto)
		tr := s.Trace()
		switch {
		case f["nothing"] && !f["W"] && !f["Dc"] && !f["Dd"]:
			k.ok(rule0, construct, k.pr.at(ret))
		case f["zero"]:
			k.check(f["Dc"] && f["Dd"], rule0, construct, k.pr.at(ret), "a document whose multiplicity became zero must leave both maps (path %s)", tr)
		case f["nonzero"] || f["absent"] && f["W"] && !f["zero"] && countKnownNonZero(f):
			k.check(f["W"] && !f["Dc"] && !f["Dd"], rule0, construct, k.pr.at(ret), "a document with nonzero multiplicity is dropped or its multiplicity not updated (path %s)", tr)
			k.check(f["doc"] || f["present"], rule0, construct, k.pr.at(ret), "a multiplicity is recorded without its document (path %s)", tr)
		default:
			k.fail(rule0, construct, k.pr.at(ret), "the operation can succeed without testing whether the new multiplicity is zero (path %s)", tr)
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, rule0, construct)
	k.check(n >= 3, rule0, construct, k.pr.pos(fn.Pos()), "fewer successful paths than expected (%d)", n)
}

func countKnownNonZero(f flags) bool { return !f["nothing"] }

// zsetCopy: a copying operation copies every entry, documents with documents and counts with counts.
func (k *K) zsetCopy(z *zinfo, fn *ssa.Function) {
	rule0 := "Z-set copy"
	construct := fnName(fn)
	c := k.R.rootCtx(fn)
	roles := map[string]bool{}
	loops := map[string]map[*ssa.BasicBlock]bool{z.counts: {}, z.docs: {}}
	role := func(r *Resolver, cc *Ctx, in ssa.Instruction) string {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return ""
		}
		t := r.T(cc, mu.Map)
		if t.Op == "field" && t.Args[0].Op == "alloc" && (t.Sym == z.counts || t.Sym == z.docs) {
			return t.Sym
		}
		// a local map that becomes the field
		if t.Op == "alloc" {
			if m, ok := mu.Map.Type().Underlying().(*types.Map); ok {
				if b, ok := m.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return z.counts
				}
				return z.docs
			}
		}
		return ""
	}
	deep := strings.HasSuffix(construct, "DeepCopy")
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					f := fieldName(fa.X.Type(), fa.Field)
					v := k.R.T(c, st.Val)
					if isCallTo(v, "maps.Clone") && isField(v.Args[0], f) && isParam(v.Args[0].Args[0], "recv") && !(deep && f == z.docs) {
						roles[f] = true
					}
				}
			}
			r := role(k.R, c, in)
			if r == "" {
				continue
			}
			roles[r] = true
			mu := in.(*ssa.MapUpdate)
			v := k.R.T(c, mu.Value)
			src := v
			if isCallTo(v, "dbsp.DeepCopyDocument", "dbsp.DeepCopyAny") {
				src = v.Args[0]
			} else if deep && r == z.docs {
				k.fail(rule0, construct, k.pr.at(in), "the deep copy shares its documents with the original")
			}
			e := elemOf(src)
			k.check(e != nil && isField(e, r) && isParam(e.Args[0], "recv"), rule0, construct, k.pr.at(in), "entry of %s is copied from %s", r, v)
			kt := k.R.T(c, mu.Key)
			k.check(kt.Op == "rangekey" && isField(kt.Args[0], z.counts) || kt.Op == "rangekey" && isField(kt.Args[0], z.docs), rule0, construct, k.pr.at(in), "entry is copied under another key (%s)", kt)
			// innermost loop
			rc := reach(fn)
			var best *ssa.BasicBlock
			for _, h := range fn.Blocks {
				if h.Dominates(b) && rc[b.Index][h.Index] {
					if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok && loopOver(k.R, c, iff.Cond) != nil {
						if best == nil || best.Dominates(h) {
							best = h
						}
					}
				}
			}
			if best != nil {
				loops[r][best] = true
			}
		}
	}
	for _, r := range []string{z.counts, z.docs} {
		k.check(roles[r], rule0, construct, k.pr.pos(fn.Pos()), "the copy does not fill %s", r)
		if len(loops[r]) == 0 {
			continue
		}
		rr := r
		checkLoops(k, fn, &loopSpec{rule: rule0, what: "copying the entry of " + r, min: 1,
			over:  func(t *Term) bool { return true },
			at:    func(b *ssa.BasicBlock) bool { return loops[rr][b] },
			instr: func(s *St, in ssa.Instruction) bool { return role(k.R, s.Ctx, in) == rr }})
	}
}

// ---------------------------------------------------------------- D03

func runD03(k *K) {
	z := k.zset()
	if z == nil {
		return
	}
	for _, o := range k.operators() {
		if o.name == "dbsp.FusedOp" {
			continue // hands its input to its first node
		}
		k.isolation(z, o)
	}
	// reading operations hand out private copies of the documents
	for _, n := range []string{"List", "GetDocuments", "GetUniqueDocuments"} {
		fn := k.fn(zp + n)
		if fn == nil {
			continue
		}
		cnt := 0
		rule := &Rule{MaxDepth: 3, Inline: helperInline}
		rule.Instr = func(s *St, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if typeShort(st.Val.Type()) != "dbsp.Document" && !strings.HasPrefix(st.Val.Type().Underlying().String(), "map[string]") {
				return
			}
			cnt++
			v := s.T(st.Val)
			k.check(!(z.docOf(v) != nil), "documents handed out are copies", fnName(fn), k.pr.at(in), "%s hands out a document of the Z-set itself: a caller that changes it corrupts the Z-set", fnName(fn))
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, "documents handed out are copies", fnName(fn))
		k.check(cnt > 0, "documents handed out are copies", fnName(fn), k.pr.pos(fn.Pos()), "no document handed out")
	}
}

func (k *K) isolation(z *zinfo, o *opInfo) {
	construct := o.name
	ownRecv := func(t *Term) bool { return k.zsetFresh(t) }
	rule := &Rule{MaxDepth: 5, Inline: zInline}
	held := map[string]bool{} // terms stored into the receiver
	rule.Instr = func(s *St, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.Store:
			f := recvField(s.T(y.Addr))
			if f == "" || !strings.Contains(y.Val.Type().String(), "DocumentZSet") {
				return
			}
			v := s.T(y.Val)
			if strings.HasPrefix(y.Val.Type().String(), "*") {
				k.check(k.zsetFresh(v), "state is private", construct, k.pr.at(in), "the operator keeps a Z-set owned by somebody else as its state: %s", v)
			}
			held[v.String()] = true
		case *ssa.MapUpdate:
			t := s.T(y.Map)
			if t.Op == "field" && (t.Sym == z.counts || t.Sym == z.docs) {
				k.check(t.Args[0].Op == "alloc", "inputs are not modified", construct, k.pr.at(in), "the operator writes into the Z-set %s", t.Args[0])
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		args := callArgs(call.Common())
		switch {
		case n == zp+"AddDocumentMutate":
			r := s.T(args[0])
			k.check(ownRecv(r) && !allAlts(r, func(a *Term) bool { return recvField(a) != "" }), "inputs are not modified", construct, k.pr.at(call), "the operator inserts into the Z-set %s, which it does not own", r)
		case strings.HasSuffix(n, ".Transform") && call.Common().IsInvoke():
			d := s.T(args[1])
			good := allAlts(d, func(a *Term) bool {
				return isCallTo(a, "dbsp.DeepCopyDocument", "dbsp.DeepCopyAny") || extOf(a, 0, n) != nil
			})
			k.check(good, "documents are not modified", construct, k.pr.at(call), "a transformer, which modifies its document, is given %s instead of a private copy: the change leaks into the operator's input", d)
		case n == "builtin.delete":
			t := s.T(args[0])
			if t.Op == "field" && (t.Sym == z.counts || t.Sym == z.docs) {
				k.check(t.Args[0].Op == "alloc", "inputs are not modified", construct, k.pr.at(call), "the operator deletes from the Z-set %s", t.Args[0])
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, 1) == "nonnil" {
			return
		}
		v := s.RetT(ret, 0)
		for _, a := range v.Alts() {
			if isNil(a) || a.Op == "opaque" {
				continue
			}
			k.check(k.zsetFresh(a), "results are private", construct, k.pr.at(ret), "the operator returns a Z-set it does not own: %s", a)
			k.check(!held[a.String()], "results are private", construct, k.pr.at(ret), "the operator returns the Z-set it keeps as its state (%s): a consumer that changes the result corrupts the state", a)
			if f := recvField(a); f != "" {
				k.fail("results are private", construct, k.pr.at(ret), "the operator returns its own state field %s", f)
			}
		}
	}
	x := k.explore(rule)
	x.Run(o.process, "")
	k.done(x, "isolation", construct)
	k.ok("isolation", construct, k.pr.pos(o.process.Pos()))
}

// ---------------------------------------------------------------- type assumptions

// assumeType resolves type assertions on operators: those for which sel returns a type succeed
// exactly if they ask for it.
func (k *K) assumeType(s *St, in ssa.Instruction, sel func(*Term) *types.Named) bool {
	ta, ok := in.(*ssa.TypeAssert)
	if !ok {
		return false
	}
	if typeShort(ta.X.Type()) != "dbsp.Operator" && !types.IsInterface(ta.X.Type()) {
		return false
	}
	nt := sel(s.T(ta.X))
	if nt == nil {
		return false
	}
	match := false
	if it, ok := ta.AssertedType.Underlying().(*types.Interface); ok {
		match = types.Implements(types.NewPointer(nt), it)
	} else {
		match = types.Identical(ta.AssertedType, types.NewPointer(nt))
	}
	if ta.CommaOk {
		v := AVal("false")
		if match {
			v = "true"
		}
		s.env[envKey{s.Ctx.id, ta, 2}] = v
	} else if !match {
		s.Stop = true
	}
	return true
}

// graphOps: the operator types that can be in an operator graph: created by the pipeline compiler
// or by a rewrite rule.
func (k *K) graphOps() (chain, join map[string]*types.Named) {
	chain, join = map[string]*types.Named{}, map[string]*types.Named{}
	byName := map[string]*types.Named{}
	for _, o := range k.operators() {
		byName[o.name] = o.t
	}
	scan := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || fnPkg(g) == nil || fnPkg(g).Path() != modPath+"/pkg/dbsp" || !strings.HasPrefix(g.Name(), "New") {
					continue
				}
				r := g.Signature.Results()
				if r.Len() == 0 {
					continue
				}
				n := typeShort(r.At(0).Type())
				if t := byName[n]; t != nil && n != "dbsp.InputOp" {
					if joinOps[n] {
						join[n] = t
					} else {
						chain[n] = t
					}
				}
			}
		}
	}
	for _, f := range k.fnsIn("pkg/pipeline") {
		scan(f)
	}
	for _, t := range k.implementers("pkg/dbsp", "dbsp.LinearChainRule") {
		if m := k.method(t, "Apply"); m != nil {
			scan(m)
			for _, g := range k.calleesIn(m, "pkg/dbsp") {
				if !strings.HasPrefix(g.Name(), "New") {
					scan(g)
				}
			}
		}
	}
	return chain, join
}

// calleesIn: the functions of a package reachable from f by static calls.
func (k *K) calleesIn(f *ssa.Function, pkg string) []*ssa.Function {
	seen := map[*ssa.Function]bool{f: true}
	var r []*ssa.Function
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					h, ok := (*op).(*ssa.Function)
					if !ok || seen[h] || fnPkg(h) == nil || fnPkg(h).Path() != modPath+"/"+pkg {
						continue
					}
					seen[h] = true
					r = append(r, h)
					walk(h)
				}
			}
		}
	}
	walk(f)
	return r
}

func typeNames(m map[string]*types.Named) []string {
	var r []string
	for n := range m {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------- D01

func runD01(k *K) {
	g := k.named("dbsp.ChainGraph")
	if g == nil {
		return
	}
	chain, join := k.graphOps()
	k.check(len(chain) >= 6, "operator inventory", "chain operators", "", "expected at least 6 operator types in operator chains, found %v", typeNames(chain))
	k.check(len(join) >= 1, "operator inventory", "join operators", "", "expected a join operator type, found %v", typeNames(join))
	k.note("chain operator types: %v; join operator types: %v", typeNames(chain), typeNames(join))
	stateful := map[string]bool{}
	for _, o := range k.operators() {
		if len(k.stateFields(o)) > 0 {
			stateful[o.name] = true
		}
	}
	isChain := func(t *Term) bool {
		return t.Has(func(x *Term) bool { return elemOf(x) != nil && isField(elemOf(x), "chain") })
	}
	isJoin := func(t *Term) bool { return t.Has(func(x *Term) bool { return isField(x, "joinNode") }) }
	lifting := map[string]bool{"dbsp.IntegratorOp": true, "dbsp.DifferentiatorOp": true}
	for _, dir := range []string{"Snapshot", "Incremental"} {
		fn := k.fn("dbsp.To" + dir + "Graph")
		if fn == nil {
			continue
		}
		inl := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			return helperInline(s, call, callee)
		}
		all := map[string]*types.Named{}
		for n, t := range chain {
			all[n] = t
		}
		for n, t := range join {
			all[n] = t
		}
		for _, n := range typeNames(all) {
			t, isJ := all[n], joinOps[n]
			done, skipped := false, false
			var good func(s *St, at ssa.Instruction, v *Term)
			construct := fnName(fn) + " on " + n
			rule := &Rule{MaxDepth: 6, Inline: inl}
			rule.Instr = func(s *St, in ssa.Instruction) {
				hit := k.assumeType(s, in, func(x *Term) *types.Named {
					if !isJ && isChain(x) && !isJoin(x) {
						// the neighbours of a lifted operator are looked at too; assume the same type
						return t
					}
					if isJ && isJoin(x) {
						return t
					}
					return nil
				})
				if hit {
					addFlag(s, "conv")
				}
			}
			rule.Call = func(s *St, call ssa.CallInstruction, name string) {
				if !hasFlag(s, "conv") {
					return
				}
				if !isJ && name != "dbsp.ChainGraph.AddToChain" || isJ && name != "dbsp.ChainGraph.SetJoin" {
					return
				}
				done = true
				addFlag(s, "added")
				k.ok("every operator type is converted", construct, k.pr.at(call))
				// what is put in the graph
				args := callArgs(call.Common())
				v := s.T(args[1])
				good(s, call, v)
			}
			rule.Leave = func(s *St, ret *ssa.Return) {
				if !hasFlag(s, "conv") || len(ret.Results) == 0 || typeShort(ret.Results[0].Type()) != "dbsp.Operator" || len(ret.Results) > 1 && s.RetVal(ret, -1) == "nonnil" {
					return
				}
				good(s, ret, s.RetT(ret, 0))
			}
			rule.Exit = func(s *St, ret *ssa.Return) {
				if s.RetVal(ret, -1) == "nil" && hasFlag(s, "conv") && !hasFlag(s, "added") {
					skipped = true
				}
			}
			good = func(s *St, at ssa.Instruction, v *Term) {
				if isJ != isJoin(v) && (isJoin(v) || isChain(v)) {
					return // the other part of the graph
				}
				ok := false
				for _, a := range v.Alts() {
					if isNil(a) {
						continue
					}
					if a.Op == "ext" && a.Args[0].Op == "call" {
						if h := k.find(a.Args[0].Sym); h != nil && h.Object() != nil && !h.Object().Exported() {
							ok = true // judged where the helper returns
							continue
						}
					}
					same := a.Op == "field" && (isChain(a) || isJoin(a))
					if same && !stateful[n] {
						ok = true
					}
					if a.Op == "call" && strings.HasPrefix(a.Sym, "dbsp.New") && k.convResult(dir, n, a, isJ) {
						ok = true
					}
					if same && stateful[n] && dir == "Incremental" {
						ok = true
					}
				}
				k.check(ok, "converted operator is equivalent", construct, k.pr.at(at), "%s must become an equivalent %s operator built from the same evaluators and inputs (stateless, or freshly built), the graph gets %s", n, strings.ToLower(dir), v)
			}
			x := k.explore(rule)
			x.Run(fn, "")
			k.done(x, "every operator type is converted", construct)
			conv := done || skipped && lifting[n] && dir == "Snapshot"
			k.check(conv, "every operator type is converted", construct, k.pr.pos(fn.Pos()), "%s, which a compiled pipeline can contain, cannot be converted to %s mode: synchronization of such a pipeline always fails", n, strings.ToLower(dir))
			if skipped && !lifting[n] {
				k.fail("every operator type is converted", construct, k.pr.pos(fn.Pos()), "%s is left out of the converted graph", n)
			}
		}
		checkLoops(k, fn, &loopSpec{rule: "conversion is complete", inline: inl, min: 1, what: "adding the input", over: func(t *Term) bool { return isField(t, "inputs") && isParam(t.Args[0], "arg0") },
			action: func(s *St, call ssa.CallInstruction, n string) bool { return n == "dbsp.ChainGraph.AddInput" }})
		checkLoops(k, fn, &loopSpec{rule: "conversion is complete", inline: inl, min: 1, what: "adding the operator", over: func(t *Term) bool { return isField(t, "chain") && isParam(t.Args[0], "arg0") },
			action: func(s *St, call ssa.CallInstruction, n string) bool { return n == "dbsp.ChainGraph.AddToChain" },
			skipOK: func(s *St, c *Term, taken bool) bool {
				return taken && c.Has(func(x *Term) bool { return isField(x, "Lifted") })
			}})
	}
}

// convResult: the constructor call builds an operator of the wanted mode from the fields of the converted one.
func (k *K) convResult(dir, from string, call *Term, isJ bool) bool {
	to := strings.TrimPrefix(call.Sym, "dbsp.New")
	f := k.find(call.Sym)
	if f == nil {
		return false
	}
	to = typeShort(f.Signature.Results().At(0).Type())
	fields := map[string]bool{}
	for _, a := range call.Args {
		if a.Op != "field" {
			return false
		}
		if fields[a.Sym] {
			return false
		}
		fields[a.Sym] = true
	}
	if !isJ {
		return to == from
	}
	inc := strings.Contains(to, "Incremental")
	if inc != (dir == "Incremental") {
		return false
	}
	return !strings.Contains(to, "Binary") || strings.Contains(from, "Binary")
}

// stateFields: receiver fields an operator's Process writes.
func (k *K) stateFields(o *opInfo) map[string]ssa.Instruction {
	r := map[string]ssa.Instruction{}
	rule := &Rule{MaxDepth: 5, Inline: zInline}
	rule.Instr = func(s *St, in ssa.Instruction) {
		var f string
		switch y := in.(type) {
		case *ssa.Store:
			f = recvField(s.T(y.Addr))
		case *ssa.MapUpdate:
			f = recvField(s.T(y.Map))
		}
		if f != "" {
			r[strings.TrimSuffix(f, "[]")] = in
		}
	}
	x := k.explore(rule)
	x.Run(o.process, "")
	k.done(x, "operator state", o.name)
	return r
}

// ---------------------------------------------------------------- D06

func runD06(k *K) {
	fn := k.fn("dbsp.Executor.Reset")
	if fn == nil {
		return
	}
	chain, join := k.graphOps()
	incr := map[string]*types.Named{}
	// joins become incremental
	for n, t := range join {
		incr[n] = t
	}
	inl := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool { return true }
	nState := 0
	for _, o := range k.operators() {
		fields := k.stateFields(o)
		k.ok("operator state", o.name, k.pr.pos(o.process.Pos()))
		if len(fields) == 0 {
			continue
		}
		nState++
		if linearOps[o.name] || o.opType == "OpTypeNonLinear" || o.name == "dbsp.JoinOp" || o.name == "dbsp.BinaryJoinOp" {
			for f, in := range fields {
				k.fail("stateless operators keep no state", o.name, k.pr.at(in), "%s writes its field %s while processing: its result then depends on earlier inputs, although it is also used for full evaluation and never reset", o.name, f)
			}
			continue
		}
		_, inChain := chain[o.name]
		isJ := joinOps[o.name]
		pos := func(x *Term) bool {
			c := x.Has(func(y *Term) bool { return elemOf(y) != nil && isField(elemOf(y), "chain") })
			j := x.Has(func(y *Term) bool { return isField(y, "joinNode") })
			if isJ {
				return j
			}
			return c && !j
		}
		_ = inChain
		construct := "dbsp.Executor.Reset of " + o.name
		reset := map[string]bool{}
		nt := o.t
		rule := &Rule{MaxDepth: 6, Inline: inl}
		var cur func(t *Term) bool = pos
		rule.Instr = func(s *St, in ssa.Instruction) {
			if k.assumeType(s, in, func(x *Term) *types.Named {
				if cur(x) {
					return nt
				}
				return nil
			}) {
				return
			}
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			a := s.T(st.Addr)
			if e := elemOf(a); e != nil {
				a = e
			}
			if a.Op != "field" || !pos(a.Args[0]) {
				return
			}
			if _, ok := fields[a.Sym]; !ok {
				return
			}
			v := s.T(st.Val)
			fresh := isNil(v) || v.Op == "alloc" || isCallTo(v, "dbsp.NewDocumentZSet") || v.Op == "const"
			if k.check(fresh, "reset reinitialises the state", construct, k.pr.at(in), "field %s of %s is reset to %s, which is not empty", a.Sym, o.name, v) {
				reset[a.Sym] = true
				addFlag(s, a.Sym)
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, "reset reinitialises the state", construct)
		for _, f := range sortedKeys(fields) {
			k.check(reset[f], "reset reinitialises the state", construct, k.pr.pos(fn.Pos()), "resetting the executor does not reinitialise field %s of %s: results after a reset depend on inputs from before it", f, o.name)
		}
	}
	k.check(nState >= 5, "operator state", "stateful operators", "", "expected at least 5 stateful operator types, found %d", nState)
	// all operators are visited
	checkLoops(k, fn, &loopSpec{rule: "reset visits every operator", min: 1, what: "looking at the operator", over: func(t *Term) bool { return isField(t, "chain") },
		instr: func(s *St, in ssa.Instruction) bool {
			ta, ok := in.(*ssa.TypeAssert)
			return ok && typeShort(ta.X.Type()) == "dbsp.Operator"
		},
		action: func(s *St, call ssa.CallInstruction, n string) bool { return strings.HasSuffix(n, ".Reset") }})
	// the join is reset whenever there is one
	seen := false
	rule := &Rule{MaxDepth: 6, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if x, eq, ok := eqConst(k.R.T(s.Ctx, cond), `""`, taken); ok && isField(x, "joinNode") && eq {
			addFlag(s, "nojoin")
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if ta, ok := in.(*ssa.TypeAssert); ok && s.T(ta.X).Has(func(y *Term) bool { return isField(y, "joinNode") }) {
			addFlag(s, "join")
			seen = true
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		k.check(f["join"] || f["nojoin"], "reset visits every operator", fnName(fn), k.pr.at(ret), "the join of the graph is not reset (path %s)", s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, "reset visits every operator", fnName(fn))
	k.check(seen, "reset visits every operator", fnName(fn), k.pr.pos(fn.Pos()), "the join of the graph is never reset")
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------- D04

func runD04(k *K) {
	fn := k.fn("dbsp.Executor.Process")
	if fn == nil {
		return
	}
	proc := "dbsp.Operator.Process"
	isInputs := func(t *Term) bool { return isParam(t, "arg0") }
	inputElem := func(t *Term) bool {
		// inputs[graph.inputIdx[graph.inputs[i]]]
		if t.Op != "lookup" || !isInputs(t.Args[0]) {
			return false
		}
		n := t.Args[1]
		return n.Op == "lookup" && isField(n.Args[0], "inputIdx") && elemOf(n.Args[1]) != nil && isField(elemOf(n.Args[1]), "inputs")
	}
	procRes := func(t *Term) bool { return extOf(t, 0, proc) != nil }
	inl := helperInline
	// every operator of the chain runs
	checkLoops(k, fn, &loopSpec{rule: "every operator of the chain runs", inline: inl, min: 1, what: "running the operator", over: func(t *Term) bool { return isField(t, "chain") },
		action: func(s *St, call ssa.CallInstruction, n string) bool {
			return n == proc && s.T(callArgs(call.Common())[0]).Has(func(x *Term) bool { return elemOf(x) != nil && isField(elemOf(x), "chain") })
		}})
	// every declared input is present
	rule := &Rule{MaxDepth: 4, Inline: inl}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := k.R.T(s.Ctx, cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "lookup" && isInputs(t.Args[0].Args[0]) {
			k.ok("missing inputs are rejected", fnName(fn), k.pr.pos(condOrBlock(cond.(ssa.Instruction))))
			if !taken {
				addFlag(s, "missing")
			}
		}
		if x, eq, ok := eqConst(t, `""`, taken); ok && isField(x, "joinNode") {
			if eq {
				addFlag(s, "nojoin")
			} else {
				addFlag(s, "join")
			}
		}
	}
	joins := 0
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n != proc {
			return
		}
		recv := s.T(callArgs(call.Common())[0])
		isJoin := recv.Has(func(x *Term) bool { return isField(x, "joinNode") })
		if isJoin {
			joins++
			addFlag(s, "joined")
			return
		}
		k.check(!hasFlag(s, "join") || hasFlag(s, "joined"), "the join runs first", fnName(fn), k.pr.at(call), "an operator of the chain runs although the join has not run (path %s)", s.Trace())
		cv, _ := call.(*ssa.Call)
		var es []*Term
		if cv != nil {
			es = k.varargs(s.Ctx, cv)
		}
		if len(es) != 1 {
			k.fail("operators are chained", fnName(fn), k.pr.at(call), "a chain operator must get exactly one input")
			return
		}
		feeds := false
		for _, a := range es[0].Alts() {
			switch {
			case procRes(a):
				if !a.Args[0].Args[0].Has(func(x *Term) bool { return isField(x, "joinNode") }) {
					feeds = true
				}
			case inputElem(a), isNil(a), a.Op == "opaque":
			default:
				k.fail("operators are chained", fnName(fn), k.pr.at(call), "a chain operator gets %s, which is neither the result of the previous operator nor the input", a)
			}
		}
		// the loop-carried value is cut by the resolver: look for the phi in the raw operand
		k.check(feeds || k.loopCarried(call), "operators are chained", fnName(fn), k.pr.at(call), "the result of an operator is not passed on to the next one: each gets %s", es[0])
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, 1) == "nonnil" {
			return
		}
		f := parseFlags(s.Auto)
		k.check(!f["missing"], "missing inputs are rejected", fnName(fn), k.pr.at(ret), "a missing input is silently ignored (path %s)", s.Trace())
		k.check(!f["join"] || f["joined"], "the join runs first", fnName(fn), k.pr.at(ret), "the join of the graph is skipped (path %s)", s.Trace())
		v := s.RetT(ret, 0)
		last := false
		for _, a := range v.Alts() {
			if procRes(a) && a.Args[0].Args[0].Has(func(x *Term) bool { return elemOf(x) != nil && isField(elemOf(x), "chain") }) {
				last = true
			}
			k.check(procRes(a) || inputElem(a) || isNil(a) || a.Op == "opaque", "the last result is returned", fnName(fn), k.pr.at(ret), "the executor returns %s", a)
		}
		k.check(last || s.RetVal(ret, 1) == "", "the last result is returned", fnName(fn), k.pr.at(ret), "the result of the chain is not returned, returns %s", v)
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, "graph execution", fnName(fn))
	k.check(joins > 0, "the join runs first", fnName(fn), k.pr.pos(fn.Pos()), "the join operator is never run")
	k.atLeast("missing inputs are rejected", 1)
	// the operands of the join, in declared order
	n := 0
	rule2 := &Rule{MaxDepth: 4, Inline: inl}
	rule2.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok || !strings.Contains(st.Val.Type().String(), "DocumentZSet") {
			return
		}
		base := s.T(ia.X)
		if base.Op != "alloc" || !strings.Contains(base.Sym, "make:") {
			if _, ok := ia.X.(*ssa.Alloc); !ok {
				return
			}
			if !appended(ia.X.(*ssa.Alloc)) {
				return
			}
		}
		n++
		v := s.T(st.Val)
		k.check(inputElem(v), "join operands", fnName(fn), k.pr.at(in), "operand of the join must be the input declared at its position, found %s", v)
		if base.Op == "alloc" && strings.Contains(base.Sym, "make:") {
			// same position
			_, i := k.R.norm(s.Ctx, ia.Index)
			same := true
			var walk func(v ssa.Value, d int)
			walk = func(v ssa.Value, d int) {
				if d > 8 {
					return
				}
				switch y := v.(type) {
				case *ssa.IndexAddr:
					if _, j := k.R.norm(s.Ctx, y.Index); j != i {
						same = false
					}
				case *ssa.UnOp:
					walk(y.X, d+1)
				case *ssa.Lookup:
					walk(y.Index, d+1)
				case *ssa.Extract:
					walk(y.Tuple, d+1)
				}
			}
			_, sv := k.R.norm(s.Ctx, st.Val)
			walk(sv, 0)
			k.check(same, "join operands", fnName(fn), k.pr.at(in), "the operands of the join are permuted")
		}
	}
	x2 := k.explore(rule2)
	x2.Run(fn, "")
	k.done(x2, "join operands", fnName(fn))
	k.check(n > 0, "join operands", fnName(fn), k.pr.pos(fn.Pos()), "no operand of the join is set")
	// registering inputs and operators
	for _, m := range []string{"AddInput", "AddToChain"} {
		f := k.fn("dbsp.ChainGraph." + m)
		if f == nil {
			continue
		}
		field := map[string]string{"AddInput": "inputs", "AddToChain": "chain"}[m]
		r3 := &Rule{MaxDepth: 3, Inline: helperInline}
		r3.Instr = func(s *St, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				a := s.T(st.Addr)
				if isField(a, field) && isParam(a.Args[0], "recv") {
					v := s.T(st.Val)
					good := isCallTo(v, "builtin.append") && isField(v.Args[0], field)
					k.check(good, "operators are appended in order", fnName(f), k.pr.at(in), "%s must append to %s, sets it to %s", m, field, v)
					addFlag(s, "app")
				}
			}
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if t := s.T(mu.Map); isField(t, "nodes") {
					addFlag(s, "node")
				}
			}
		}
		r3.Edge = func(s *St, cond ssa.Value, taken bool) {
			t := k.R.T(s.Ctx, cond)
			if t.Op == "bin" && t.Sym == "==" && taken && t.Has(func(x *Term) bool { return isField(x, "inputIdx") }) {
				addFlag(s, "dup")
			}
		}
		r3.Exit = func(s *St, ret *ssa.Return) {
			f0 := parseFlags(s.Auto)
			k.check(f0["dup"] || f0["app"] && f0["node"], "operators are appended in order", fnName(f), k.pr.at(ret), "%s does not register the operator on a path (%s)", m, s.Trace())
		}
		x3 := k.explore(r3)
		x3.Run(f, "")
		k.done(x3, "operators are appended in order", fnName(f))
	}
}

// loopCarried: the single operand of the call is a loop phi fed by the call's own result.
func (k *K) loopCarried(call ssa.CallInstruction) bool {
	v := call.Value()
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok || e.Index != 0 || e.Referrers() == nil {
			continue
		}
		for _, r2 := range *e.Referrers() {
			if p, ok := r2.(*ssa.Phi); ok && p.Referrers() != nil {
				for _, r3 := range *p.Referrers() {
					if st, ok := r3.(*ssa.Store); ok {
						if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
							if al, ok := ia.X.(*ssa.Alloc); ok {
								for _, a := range call.Common().Args {
									if sl, ok := a.(*ssa.Slice); ok && sl.X == ssa.Value(al) {
										return true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// appended: the temporary array is the variadic part of an append.
func appended(al *ssa.Alloc) bool {
	if al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		if sl, ok := r.(*ssa.Slice); ok && sl.Referrers() != nil {
			for _, r2 := range *sl.Referrers() {
				if c, ok := r2.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.append" {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- D08
