package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- D08

// cpos is a position in the operator chain: an index variable plus a constant offset.
type cpos struct {
	base string
	off  int64
}

func (p cpos) String() string { return fmt.Sprintf("%s+%d", p.base, p.off) }

func (p cpos) next(n int64) cpos { return cpos{p.base, p.off + n} }

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(c.Value)
	return n, ok
}

// posOf splits an index value into base variable and offset.
func (k *K) posOf(c *Ctx, v ssa.Value) cpos {
	off := int64(0)
	for n := 0; n < 16; n++ {
		c, v = k.R.norm(c, v)
		if x, ok := intConst(v); ok {
			return cpos{"", off + x}
		}
		b, ok := v.(*ssa.BinOp)
		if !ok {
			break
		}
		if x, ok := intConst(b.Y); ok && b.Op == token.ADD {
			off += x
			v = b.X
		} else if ok && b.Op == token.SUB {
			off -= x
			v = b.X
		} else if x, ok := intConst(b.X); ok && b.Op == token.ADD {
			off += x
			v = b.Y
		} else {
			break
		}
	}
	id := 0
	if c != nil {
		id = c.id
	}
	return cpos{fmt.Sprintf("%d:%s", id, v.Name()), off}
}

// chainAt: v is the node id at a position of the chain.
func (k *K) chainAt(c *Ctx, v ssa.Value) (cpos, bool) {
	c, v = k.R.norm(c, v)
	switch y := v.(type) {
	case *ssa.UnOp:
		if ia, ok := y.X.(*ssa.IndexAddr); ok {
			if isField(k.R.T(c, ia.X), "chain") {
				return k.posOf(c, ia.Index), true
			}
		}
	}
	return cpos{}, false
}

// nodeAt: v is (a pointer to) the graph node at a position of the chain.
func (k *K) nodeAt(c *Ctx, v ssa.Value) (cpos, bool) {
	c, v = k.R.norm(c, v)
	if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
		v = e.Tuple
	}
	if l, ok := v.(*ssa.Lookup); ok && isField(k.R.T(c, l.X), "nodes") {
		return k.chainAt(c, l.Index)
	}
	return cpos{}, false
}

// opAt: v is the operator of the node at a position; asserted is the concrete type it was
// asserted to, if any.
func (k *K) opAt(c *Ctx, v ssa.Value) (p cpos, asserted string, ok bool) {
	for n := 0; n < 8; n++ {
		c, v = k.R.norm(c, v)
		switch y := v.(type) {
		case *ssa.Extract:
			if ta, o := y.Tuple.(*ssa.TypeAssert); o && y.Index == 0 {
				asserted = typeShort(ta.AssertedType)
				v = ta.X
				continue
			}
		case *ssa.TypeAssert:
			asserted = typeShort(y.AssertedType)
			v = y.X
			continue
		case *ssa.UnOp:
			if fa, o := y.X.(*ssa.FieldAddr); o && y.Op == token.MUL && fieldName(fa.X.Type(), fa.Field) == "Op" {
				p, ok = k.nodeAt(c, fa.X)
				return p, asserted, ok
			}
		}
		return
	}
	return
}

// evalAt: v is the evaluator of the operator at a position.
func (k *K) evalAt(c *Ctx, v ssa.Value) (cpos, string, bool) {
	c, v = k.R.norm(c, v)
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return cpos{}, "", false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || typeShort(deref(u.X.Type())) != "dbsp.Evaluator" {
		return cpos{}, "", false
	}
	return k.opAt(c, fa.X)
}

const (
	tProj = "dbsp.ProjectionOp"
	tSel  = "dbsp.SelectionOp"
	tInt  = "dbsp.IntegratorOp"
	tDiff = "dbsp.DifferentiatorOp"
	tDist = "dbsp.DistinctOp"
)

func runD08(k *K) {
	rules := k.implementers("pkg/dbsp", "dbsp.LinearChainRule")
	k.check(len(rules) >= 4, "rewrite rules", "inventory", "", "expected at least 4 rewrite rules, found %d", len(rules))
	k.ruleRegistration(rules)
	k.incrementalizeOp()
	for _, t := range rules {
		ap, can := k.method(t, "Apply"), k.method(t, "CanApply")
		if ap == nil || can == nil {
			continue
		}
		k.rewriteApply(t, ap)
		k.ruleApplicability(t, ap, can)
	}
	k.replaceInChain()
	k.fixpoint()
}

// ruleRegistration: the engine used by the pipeline compiler applies every rewrite rule that is
// needed for correctness.
func (k *K) ruleRegistration(rules []*types.Named) {
	fn := k.fn("dbsp.NewLinearChainRewriteEngine")
	if fn == nil {
		return
	}
	got := map[string]bool{}
	for _, f := range append([]*ssa.Function{fn}, k.calleesIn(fn, "pkg/dbsp")...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && typeShort(mi.Type()) == "dbsp.LinearChainRule" {
					got[typeShort(mi.X.Type())] = true
				}
			}
		}
	}
	need := map[string]bool{}
	for _, t := range rules {
		ap := k.method(t, "Apply")
		if ap == nil {
			continue
		}
		fs := append([]*ssa.Function{ap}, k.calleesIn(ap, "pkg/dbsp")...)
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						switch calleeName(c.Common()) {
						case "dbsp.IncrementalizeOp", "dbsp.NewIntegrator":
							need[typeShort(t)] = true
						}
					}
				}
			}
		}
	}
	k.check(len(need) >= 2, "rewrite rules", "incrementalizing rules", "", "the rules that incrementalize joins and lift non-linear operators were not found: %v", sortedKeys(need))
	for _, n := range sortedKeys(need) {
		k.check(got[n], "incrementalizing rules are applied", n, k.pr.pos(fn.Pos()), "the rewrite engine does not apply %s: the operators it converts would process deltas as if they were snapshots", n)
	}
}

// incrementalizeOp: every join is replaced by its incremental version built from the same evaluator
// and inputs; stateless operators stay as they are.
func (k *K) incrementalizeOp() {
	fn := k.fn("dbsp.IncrementalizeOp")
	if fn == nil {
		return
	}
	want := map[string]string{"dbsp.JoinOp": "dbsp.NewIncrementalJoin", "dbsp.BinaryJoinOp": "dbsp.NewIncrementalBinaryJoin"}
	for _, o := range k.operators() {
		o := o
		construct := fnName(fn) + " on " + o.name
		rule := &Rule{MaxDepth: 4, Inline: helperInline}
		rule.Instr = func(s *St, in ssa.Instruction) {
			k.assumeType(s, in, func(x *Term) *types.Named {
				if isParam(x, "arg0") {
					return o.t
				}
				return nil
			})
		}
		n := 0
		rule.Exit = func(s *St, ret *ssa.Return) {
			n++
			v := s.RetT(ret, 0)
			changed := s.RetVal(ret, 1)
			w := want[o.name]
			ok := false
			if w != "" {
				ok = changed == "true" && allAlts(v, func(a *Term) bool {
					return isCallTo(a, w) && len(a.Args) == 2 && isField(a.Args[0], "eval") && isParam(a.Args[0].Args[0], "arg0") && isField(a.Args[1], "inputs") && isParam(a.Args[1].Args[0], "arg0")
				})
			} else {
				ok = changed == "false" && isParam(v, "arg0")
			}
			k.check(ok, "incrementalization", construct, k.pr.at(ret), "incrementalizing %s gives %s (converted: %s)%s", o.name, v, changed, map[bool]string{true: "; it must give " + w + " of the same evaluator and inputs", false: ""}[w != ""])
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, "incrementalization", construct)
		k.check(n > 0, "incrementalization", construct, k.pr.pos(fn.Pos()), "no path handles %s", o.name)
	}
}

// rewriteApply: what a rule removes from a chain must be neutral or absorbed by the operator it puts
// in its place, and what it creates must be built from the operators it replaces, in chain order.
func (k *K) rewriteApply(t *types.Named, fn *ssa.Function) {
	name := typeShort(t)
	const R = "rewrite preserves the chain"
	isChainLen := func(c *Ctx, cond ssa.Value) (phi *ssa.Phi, ok bool) {
		b, o := cond.(*ssa.BinOp)
		if !o || b.Op != token.LSS {
			return nil, false
		}
		if over := loopOver2(k, c, cond); over == nil || !isField(over, "chain") {
			return nil, false
		}
		p, o := b.X.(*ssa.Phi)
		return p, o
	}
	edits := 0
	var rule *Rule
	rule = &Rule{MaxDepth: 5, Inline: helperInline, MaxStates: 400000}
	has := func(s *St, f string) bool { return hasFlag(s, f) }
	clear := func(s *St, base string) {
		f := parseFlags(s.Auto)
		for kk := range f {
			if strings.Contains(kk, "@"+base+"+") {
				delete(f, kk)
			}
		}
		s.Auto = f.String()
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		// facts about operator types
		if ex, ok := cond.(*ssa.Extract); ok {
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ex.Index == 1 {
				if p, _, ok := k.opAt(s.Ctx, ta.X); ok && taken {
					addFlag(s, fmt.Sprintf("is:%s@%s", typeShort(ta.AssertedType), p))
				}
			}
		}
		phi, ok := isChainLen(s.Ctx, cond)
		if !ok {
			return
		}
		base := k.posOf(s.Ctx, phi).base
		// the iteration that ended
		if s.Pred != nil {
			for i, pb := range phi.Block().Preds {
				if pb != s.Pred || phi.Block() != s.Block {
					continue
				}
				e := phi.Edges[i]
				if !phi.Block().Dominates(pb) {
					continue // entering the loop
				}
				p := k.posOf(s.Ctx, e)
				switch {
				case p.base == base:
					if rebuilds(phi.Parent()) {
						for o := int64(0); o < p.off; o++ {
							q := cpos{base, o}
							k.check(has(s, "kept@"+q.String()) || has(s, "gone@"+q.String()) || has(s, "acc@"+q.String()), R, name, k.pr.at(cond.(ssa.Instruction)), "an operator is dropped from the chain although nothing takes over its work (path %s)", s.Trace())
						}
						if p.off <= 0 {
							k.fail(R, name, k.pr.at(cond.(ssa.Instruction)), "the position does not advance")
						}
					}
				default:
					// jump past a run of operators absorbed by a fused one
					start := cpos{base, 0}
					k.check(has(s, "kept@"+start.String()) && has(s, "run@"+start.String()+">"+p.base), R, name, k.pr.at(cond.(ssa.Instruction)), "a run of operators is skipped although no fused operator replaces it (path %s)", s.Trace())
				}
			}
		}
		clear(s, base)
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.Store:
			fa, ok := y.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			fname, owner := fieldName(fa.X.Type(), fa.Field), typeShort(fa.X.Type())
			switch {
			case owner == "dbsp.GraphNode" && fname == "Op":
				edits++
				k.opReplaced(s, name, fa, y)
			case owner == "dbsp.ChainGraph" && fname == "chain":
				addFlag(s, "chainset")
				dropFlag(s, "outset")
			case owner == "dbsp.ChainGraph" && fname == "output":
				addFlag(s, "outset")
				v := s.T(y.Val)
				ok := allAlts(v, func(a *Term) bool {
					return a.Has(func(x *Term) bool { return isField(x, "chain") || isField(x, "joinNode") || isField(x, "inputs") })
				})
				k.check(ok, R, name, k.pr.at(in), "the output of the graph must be the last node of the chain, is %s", v)
				if idx := lastIndex(k, s.Ctx, y.Val); idx == "wrong" {
					k.fail(R, name, k.pr.at(in), "the output of the graph must be the last node of the chain, is %s", v)
				}
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		args := callArgs(call.Common())
		switch n {
		case "builtin.append":
			c0, first := k.R.norm(s.Ctx, args[0])
			_ = c0
			switch et := args[0].Type().Underlying().(*types.Slice).Elem(); {
			case typeShort(et) == "string":
				els := k.appendArgs(s.Ctx, call)
				for _, e := range els {
					if p, ok := k.chainAt(e.c, e.v); ok {
						if has(s, "gone@"+p.String()) {
							k.fail(R, name, k.pr.at(call), "the node of a removed operator is put in the chain")
						}
						// chain order: nothing later was kept already
						for f := range parseFlags(s.Auto) {
							if strings.HasPrefix(f, "kept@"+p.base+"+") {
								k.fail(R, name, k.pr.at(call), "two operators are kept in one step: their order is not the order of the chain")
							}
						}
						addFlag(s, "kept@"+p.String())
					}
				}
			case typeShort(et) == "dbsp.Evaluator":
				els := k.appendArgs(s.Ctx, call)
				if len(els) == 0 {
					k.fail(R, name, k.pr.at(call), "evaluators are concatenated in an order that cannot be related to the chain")
				}
				for _, e := range els {
					p, ty, ok := k.evalAt(e.c, e.v)
					k.check(ok && ty == tProj, R, name, k.pr.at(call), "the fused operator must chain the projections it replaces, appends %s", k.R.T(e.c, e.v))
					if ok {
						addFlag(s, "acc@"+p.String())
					}
				}
				_ = first
			}
		case "builtin.delete":
			if !isField(s.T(args[0]), "nodes") {
				return
			}
			edits++
			p, ok := k.chainAt(s.Ctx, args[1])
			if !ok {
				k.fail(R, name, k.pr.at(call), "a node is removed whose position in the chain is unknown")
				return
			}
			if k.pairRemoved(s, p) || has(s, "gone@"+p.String()) {
				addFlag(s, "gone@"+p.String())
				k.ok(R, name, k.pr.at(call))
				return
			}
			if lo, ok := k.loopStart(s.Ctx, args[1]); ok {
				// removal of the rest of a run
				k.check(lo.off >= 1 && has(s, "kept@"+cpos{lo.base, lo.off - 1}.String()), R, name, k.pr.at(call), "the removed run must start right after the operator that replaces it")
				return
			}
			if has(s, "kept@"+p.String()) {
				k.fail(R, name, k.pr.at(call), "the node of an operator kept in the chain is removed")
				return
			}
			k.fail(R, name, k.pr.at(call), "a node is removed without establishing that its operator is neutral or replaced (path %s)", s.Trace())
		case "dbsp.ChainGraph.ReplaceInChain":
			edits++
			k.lifting(s, name, call, args)
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nonnil" {
			return
		}
		if has(s, "chainset") && !has(s, "outset") {
			// the empty chain keeps its output only if nothing was removed
			k.note("%s: a path leaves the output of the graph unchanged", name)
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, name)
	k.check(edits > 0, R, name, k.pr.pos(fn.Pos()), "the rule changes nothing")
	// output is set after the chain was replaced
	k.outputFollowsChain(name, fn)
}

// rebuilds: the function replaces the chain of a graph.
func rebuilds(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "chain" {
					return true
				}
			}
		}
	}
	return false
}

// loopOver2 is loopOver that also accepts loops advanced by variable steps.
func loopOver2(k *K, c *Ctx, cond ssa.Value) *Term {
	if t := loopOver(k.R, c, cond); t != nil {
		return t
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS {
		return nil
	}
	if p, ok := b.X.(*ssa.Phi); !ok || p.Block() != b.Block() {
		return nil
	}
	t := k.R.T(c, b.Y)
	if isCallTo(t, "builtin.len") {
		return t.Args[0]
	}
	return nil
}

// lastIndex judges an index into the chain: "ok" if it is len-1, "wrong" if it is another one.
func lastIndex(k *K, c *Ctx, v ssa.Value) string {
	c, v = k.R.norm(c, v)
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok || !isField(k.R.T(c, ia.X), "chain") {
		return ""
	}
	t := k.R.T(c, ia.Index)
	if t.Op == "bin" && t.Sym == "-" && isCallTo(t.Args[0], "builtin.len") && t.Args[1].Sym == "1" {
		return "ok"
	}
	return "wrong"
}

// pairRemoved: the operator at p can be removed together with, or in favour of, its neighbour.
func (k *K) pairRemoved(s *St, p cpos) bool {
	is := func(t string, q cpos) bool { return hasFlag(s, fmt.Sprintf("is:%s@%s", t, q)) }
	if is(tInt, p) && is(tDiff, p.next(1)) || is(tDiff, p) && is(tInt, p.next(-1)) {
		return true
	}
	if is(tDist, p) && (is(tDist, p.next(1)) && !hasFlag(s, "gone@"+p.next(1).String()) || is(tDist, p.next(-1)) && !hasFlag(s, "gone@"+p.next(-1).String())) {
		return true
	}
	return false
}

type ctxVal struct {
	c *Ctx
	v ssa.Value
}

// appendArgs: the values appended by an append call with explicit elements.
func (k *K) appendArgs(c *Ctx, call ssa.CallInstruction) []ctxVal {
	args := call.Common().Args
	if len(args) < 2 {
		return nil
	}
	return k.sliceElems(c, args[1])
}

// sliceElems: the elements of a slice literal, in order.
func (k *K) sliceElems(c *Ctx, v ssa.Value) []ctxVal {
	c, v = k.R.norm(c, v)
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	els := map[int64]ctxVal{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		i, ok := intConst(ia.Index)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				els[i] = ctxVal{c, st.Val}
			}
		}
	}
	var out []ctxVal
	for i := int64(0); i < int64(len(els)); i++ {
		e, ok := els[i]
		if !ok {
			return nil
		}
		out = append(out, e)
	}
	return out
}

// loopStart: the index is a loop variable; returns its first value.
func (k *K) loopStart(c *Ctx, v ssa.Value) (cpos, bool) {
	c, v = k.R.norm(c, v)
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return cpos{}, false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return cpos{}, false
	}
	c2, iv := k.R.norm(c, ia.Index)
	phi, ok := iv.(*ssa.Phi)
	if !ok || !induction(phi) {
		return cpos{}, false
	}
	for i, e := range phi.Edges {
		if !phi.Block().Dominates(phi.Block().Preds[i]) {
			p := k.posOf(c2, e)
			if p.base != "" {
				return p, true
			}
		}
	}
	return cpos{}, false
}

// opReplaced judges an operator put into an existing node.
func (k *K) opReplaced(s *St, name string, fa *ssa.FieldAddr, st *ssa.Store) {
	const R = "replacement operator is equivalent"
	at := k.pr.at(st)
	_, v := k.R.norm(s.Ctx, st.Val)
	t := s.T(st.Val)
	p, onChain := k.nodeAt(s.Ctx, fa.X)
	// incremental version of the same operator
	if extOf(t, 0, "dbsp.IncrementalizeOp") != nil {
		src := extOf(t, 0, "dbsp.IncrementalizeOp").Args[0]
		nodeT := s.T(fa.X)
		ok := isField(src, "Op") && src.Args[0].String() == nodeT.String()
		k.check(ok, R, name, at, "the node must get the incremental version of its own operator, gets that of %s", src)
		return
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		k.fail(R, name, at, "a node gets an operator that is not derived from the operators it replaces: %s", t)
		return
	}
	args := callArgs(call.Common())
	switch calleeName(call.Common()) {
	case "dbsp.NewProjectThenSelect":
		p0, t0, ok0 := k.evalAt(s.Ctx, args[0])
		p1, t1, ok1 := k.evalAt(s.Ctx, args[1])
		good := ok0 && ok1 && t0 == tProj && t1 == tSel && p1 == p0.next(1) && onChain && (p == p0 || p == p1)
		k.check(good, R, name, at, "projecting then selecting must combine a projection with the selection that directly follows it, combines %s at %s with %s at %s in node %s", t0, p0, t1, p1, p)
		if good {
			other := p0
			if p == p0 {
				other = p1
			}
			addFlag(s, "gone@"+other.String())
		}
	case "dbsp.NewSelectThenProjections":
		c0, a0 := k.R.norm(s.Ctx, args[0])
		c1, a1 := k.R.norm(s.Ctx, args[1])
		_ = c1
		isNilSel := false
		if cst, ok := a0.(*ssa.Const); ok && cst.Value == nil {
			isNilSel = true
		}
		good, msg := true, ""
		if !isNilSel {
			ps, ts, oks := k.evalAt(c0, a0)
			if !oks || ts != tSel || !onChain || p != ps {
				good, msg = false, fmt.Sprintf("its selection must be the selection of the replaced node, is %s", s.T(args[0]))
			}
		}
		// the projections: accumulated over a run that starts at the node (no selection) or after it
		first, run, okRun := k.projRun(s, a1)
		if good {
			wantFirst := p
			if !isNilSel {
				wantFirst = p.next(1)
			}
			if !okRun || first != wantFirst {
				good, msg = false, fmt.Sprintf("its projections must be those that follow in the chain, starting at %s; they start at %s", wantFirst, first)
			}
		}
		k.check(good, R, name, at, "the fused operator is not equivalent to the operators it replaces: %s", msg)
		if good {
			addFlag(s, "run@"+p.String()+">"+run)
		}
	default:
		k.fail(R, name, at, "a node gets an operator that is not derived from the operators it replaces: %s", t)
	}
}

// projRun analyses an evaluator slice accumulated by appending in a loop: the position of its first
// element and the index variable of the loop.
func (k *K) projRun(s *St, v ssa.Value) (cpos, string, bool) {
	c := s.Ctx
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return cpos{}, "", false
	}
	var first cpos
	haveFirst := false
	run := ""
	for i, e := range phi.Edges {
		if !phi.Block().Dominates(phi.Block().Preds[i]) {
			// before the loop: empty, or a literal
			_, w := k.R.norm(c, e)
			if cst, ok := w.(*ssa.Const); ok && cst.Value == nil {
				continue
			}
			if els := k.sliceElems(c, w); len(els) == 1 {
				p, ty, ok := k.evalAt(els[0].c, els[0].v)
				if !ok || ty != tProj {
					return cpos{}, "", false
				}
				first, haveFirst = p, true
				continue
			}
			if _, ok := w.(*ssa.MakeSlice); ok {
				continue
			}
			return cpos{}, "", false
		}
		call, ok := e.(*ssa.Call)
		if !ok || calleeName(call.Common()) != "builtin.append" || call.Common().Args[0] != ssa.Value(phi) {
			return cpos{}, "", false
		}
		els := k.appendArgs(c, call)
		if len(els) != 1 {
			return cpos{}, "", false
		}
		p, ty, ok := k.evalAt(els[0].c, els[0].v)
		if !ok || ty != tProj || p.off != 0 {
			return cpos{}, "", false
		}
		run = p.base
		// where the run starts and how it advances
		for _, in := range phi.Block().Instrs {
			q, ok := in.(*ssa.Phi)
			if !ok || k.posOf(c, q).base != p.base {
				continue
			}
			for j, qe := range q.Edges {
				qp := k.posOf(c, qe)
				if q.Block().Dominates(q.Block().Preds[j]) {
					if qp.base != p.base || qp.off != 1 {
						return cpos{}, "", false
					}
				} else if !haveFirst {
					first, haveFirst = qp, true
				} else if qp != first.next(1) {
					return cpos{}, "", false
				}
			}
		}
	}
	return first, run, haveFirst && run != ""
}

// lifting: a non-linear operator becomes integrate, apply, differentiate, in this order.
func (k *K) lifting(s *St, name string, call ssa.CallInstruction, args []ssa.Value) {
	const R = "lifting"
	at := k.pr.at(call)
	els := k.sliceElems(s.Ctx, args[len(args)-1])
	if len(els) != 3 {
		k.fail(R, name, at, "a lifted operator must be replaced by integrator, operator and differentiator, got %d operators", len(els))
		return
	}
	idx := k.posOf(s.Ctx, args[1])
	p, _, ok := k.opAt(els[1].c, els[1].v)
	k.check(ok && p == idx, R, name, at, "the operator in the middle must be the one that is replaced")
	t0, t2 := k.R.T(els[0].c, els[0].v), k.R.T(els[2].c, els[2].v)
	k.check(isCallTo(t0, "dbsp.NewIntegrator"), R, name, at, "the deltas must be integrated before the lifted operator, found %s", t0)
	k.check(isCallTo(t2, "dbsp.NewDifferentiator"), R, name, at, "the result of the lifted operator must be differentiated, found %s", t2)
}

// outputFollowsChain: after the chain of a graph was replaced, its output is recomputed.
func (k *K) outputFollowsChain(name string, fn *ssa.Function) {
	const R = "output follows the chain"
	rule := &Rule{MaxDepth: 5, Inline: helperInline}
	some := false
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || typeShort(fa.X.Type()) != "dbsp.ChainGraph" {
			return
		}
		switch fieldName(fa.X.Type(), fa.Field) {
		case "chain":
			some = true
			s.Auto = "stale"
		case "output":
			s.Auto = ""
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		// an empty chain (without a join) leaves nothing to point at
		t := k.R.T(s.Ctx, cond)
		if s.Auto == "stale" && t.Op == "bin" && isCallTo(t.Args[0], "builtin.len") && isField(t.Args[0].Args[0], "chain") {
			nonEmpty := t.Sym == ">" && t.Args[1].Sym == "0" || t.Sym == "!=" && t.Args[1].Sym == "0" || t.Sym == ">=" && t.Args[1].Sym == "1"
			empty := t.Sym == "==" && t.Args[1].Sym == "0"
			if nonEmpty && !taken || empty && taken {
				s.Auto = "empty"
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) != "nonnil" {
			k.check(s.Auto != "stale", R, name, k.pr.at(ret), "the output of the graph is not updated after its chain was changed: it may name a removed node (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, name)
	_ = some
}

// ruleApplicability: a rule that incrementalizes operators may only decline a graph in which no
// operator needs it.
func (k *K) ruleApplicability(t *types.Named, ap, can *ssa.Function) {
	const R = "incrementalizing rules miss no operator"
	name := typeShort(t)
	lifts, incs, joins := false, false, false
	for _, f := range append([]*ssa.Function{ap}, k.unexportedCallees(ap)...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					switch calleeName(c.Common()) {
					case "dbsp.NewIntegrator":
						lifts = true
					case "dbsp.IncrementalizeOp":
						incs = true
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "joinNode" {
					joins = true
				}
			}
		}
	}
	nonlinear := func(c *Term, taken bool) bool { // the edge means: not (non-linear and unlifted)
		for c.Op == "un" && c.Sym == "!" {
			c, taken = c.Args[0], !taken
		}
		if isField(c, "Lifted") {
			return taken
		}
		if c.Op == "bin" && (c.Sym == "==" || c.Sym == "!=") && (c.Args[0].HasCall("dbsp.Operator.OpType") || c.Args[1].HasCall("dbsp.Operator.OpType")) {
			return (c.Sym == "==") != taken && k.isNonLinear(c)
		}
		return false
	}
	switch {
	case lifts:
		over := func(x *Term) bool { return isField(x, "chain") }
		skip := func(s *St, c *Term, taken bool) bool { return nonlinear(c, taken) }
		for _, m := range []*ssa.Function{ap, can} {
			m := m
			checkLoops2(k, m, &loopSpec{rule: R, min: 1, what: "lifting a non-linear operator that is not lifted yet", over: over, skipOK: skip,
				action: func(s *St, call ssa.CallInstruction, n string) bool {
					return n == "dbsp.ChainGraph.ReplaceInChain"
				}}, m == can)
		}
		// the mark that prevents lifting twice is set only on the operator in the middle
		k.liftMark(name, ap)
	case incs && joins:
		rule := &Rule{MaxDepth: 4, Inline: helperInline}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			c := k.R.T(s.Ctx, cond)
			if x, eq, ok := eqConst(c, `""`, taken); ok && isField(x, "joinNode") && eq {
				addFlag(s, "nojoin")
			}
			neg := taken
			for c.Op == "un" && c.Sym == "!" {
				c, neg = c.Args[0], !neg
			}
			if c.HasCall("dbsp.IncrementalizeOp") && !neg || c.HasCall("dbsp.Operator.OpType") {
				addFlag(s, "notneeded")
			}
		}
		rule.Exit = func(s *St, ret *ssa.Return) {
			v := s.RetVal(ret, 0)
			t := s.RetT(ret, 0)
			ok := v == "true" || v == "false" && s.Auto != "" || v == "" && allAlts(t, func(a *Term) bool {
				return a.Op == "const" || a.HasCall("dbsp.IncrementalizeOp", "dbsp.Operator.OpType")
			})
			k.check(ok, R, name, k.pr.at(ret), "the rule can decline a graph whose join is not incremental yet (path %s)", s.Trace())
		}
		x := k.explore(rule)
		x.Run(can, "")
		k.done(x, R, name)
	}
}

// isNonLinear: the comparison is with the non-linear operator class.
func (k *K) isNonLinear(c *Term) bool {
	for _, a := range c.Args {
		if cst, ok := a.V.(*ssa.Const); ok && cst != nil {
			return k.enumName("dbsp.OperatorType", cst) == "OpTypeNonLinear"
		}
	}
	return false
}

func (k *K) liftMark(name string, ap *ssa.Function) {
	const R = "lifting mark"
	n := 0
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if nm == "dbsp.ChainGraph.ReplaceInChain" {
			s.Auto = k.posOf(s.Ctx, call.Common().Args[1]).String()
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != "Lifted" {
			return
		}
		n++
		p, ok := k.nodeAt(s.Ctx, fa.X)
		k.check(ok && s.Auto != "" && p.next(-1).String() == s.Auto, R, name, k.pr.at(in), "the mark must be put on the lifted operator, which is one position after the replaced one; it is put on %s after replacing at %s", p, s.Auto)
	}
	x := k.explore(rule)
	x.Run(ap, "")
	k.done(x, R, name)
	k.check(n > 0, R, name, k.pr.pos(ap.Pos()), "lifted operators are not marked: they are lifted again and again")
}

// checkLoops2 is checkLoops for predicates: returning true early is not a dropped element.
func checkLoops2(k *K, fn *ssa.Function, ls *loopSpec, pred bool) {
	ls.trueOK = pred
	checkLoops(k, fn, ls)
}

// replaceInChain: the replacement keeps everything before and after the replaced position.
func (k *K) replaceInChain() {
	const R = "replacing in the chain"
	fn := k.fn("dbsp.ChainGraph.ReplaceInChain")
	if fn == nil {
		return
	}
	name := fnName(fn)
	pre, post := 0, 0
	c := k.R.rootCtx(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			sl, ok := in.(*ssa.Slice)
			if !ok || !isField(k.R.T(c, sl.X), "chain") {
				continue
			}
			if sl.High != nil && sl.Low == nil {
				p := k.posOf(c, sl.High)
				k.check(p == k.posOf(c, fn.Params[1]), R, name, k.pr.at(in), "the operators before the replaced one must be kept")
				pre++
			} else if sl.Low != nil && sl.High == nil {
				p := k.posOf(c, sl.Low)
				k.check(p == k.posOf(c, fn.Params[1]).next(1), R, name, k.pr.at(in), "the operators after the replaced one must be kept")
				post++
			}
		}
	}
	if pre == 0 && post == 0 {
		k.note("%s: no slicing of the chain found; not judged", name)
		return
	}
	// order: prefix, replacement, suffix
	rule := &Rule{MaxDepth: 3, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n != "builtin.append" || typeShort(call.Common().Args[0].Type().Underlying().(*types.Slice).Elem()) != "string" {
			return
		}
		a := call.Common().Args[1]
		_, w := k.R.norm(s.Ctx, a)
		what := "new"
		if sl, ok := w.(*ssa.Slice); ok && isField(s.T(sl.X), "chain") {
			if sl.Low == nil {
				what = "pre"
			} else {
				what = "post"
			}
		}
		if strings.HasSuffix(s.Auto, what) && what == "new" {
			return
		}
		s.Auto += " " + what
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if isField(s.T(st.Addr), "chain") {
			k.check(s.Auto == " pre new post", R, name, k.pr.at(in), "the chain must become the operators before, the replacement and the operators after, found%s", s.Auto)
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, name)
	k.outputFollowsChain(name, fn)
	checkLoops(k, fn, &loopSpec{rule: R, min: 1, what: "adding the operator to the graph", over: func(t *Term) bool { return isParam(t, "arg1") },
		instr: func(s *St, in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && isField(s.T(mu.Map), "nodes")
		}})
}

// fixpoint: optimization either reaches a graph no rule applies to, or fails.
func (k *K) fixpoint() {
	const R = "optimization reaches a fixpoint"
	fn := k.fn("dbsp.LinearChainRewriteEngine.Optimize")
	if fn == nil {
		return
	}
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if k.R.T(s.Ctx, cond).HasCall("dbsp.LinearChainRule.CanApply") && taken {
			s.Auto = "apply"
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if n == "dbsp.LinearChainRule.Apply" {
			k.check(s.Auto == "apply", R, fnName(fn), k.pr.at(call), "a rule is applied although it does not apply")
			s.Auto = "applied"
		} else if n == "dbsp.LinearChainRule.CanApply" && s.Auto == "apply" {
			k.fail(R, fnName(fn), k.pr.at(call), "a rule that applies is not applied (path %s)", s.Trace())
		} else if n == "dbsp.LinearChainRule.CanApply" {
			s.Auto = "tried"
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) != "nonnil" && s.Auto == "apply" {
			k.fail(R, fnName(fn), k.pr.at(ret), "optimization can end although a rule still applies (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, fnName(fn))
	// after an application the rules are tried again
	k.reoptimize(fn)
}

// reoptimize: when a rule was applied, the loop condition sees it: the flag that continues the loop
// is true on every back edge after an application.
func (k *K) reoptimize(fn *ssa.Function) {
	const R = "optimization reaches a fixpoint"
	rule := &Rule{MaxDepth: 4, Inline: helperInline}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		switch n {
		case "dbsp.LinearChainRule.Apply":
			addFlag(s, "dirty")
		case "dbsp.LinearChainRule.CanApply":
			dropFlag(s, "dirty")
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if over := loopOver(k.R, s.Ctx, cond); over != nil && isField(over, "rules") {
			if !taken {
				dropFlag(s, "dirty")
			}
			return
		}
		// the iteration limit is tested twice on the same counter
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return
		}
		op, x, y := b.Op, b.X, b.Y
		if op == token.GTR || op == token.LEQ {
			x, y = y, x
			op = map[token.Token]token.Token{token.GTR: token.LSS, token.LEQ: token.GEQ}[op]
		}
		if op != token.LSS && op != token.GEQ {
			return
		}
		lt := (op == token.LSS) == taken
		kx := x.Name() + "|" + y.Name()
		if _, isPhi := x.(*ssa.Phi); !isPhi {
			return
		}
		if lt && hasFlag(s, "ge:"+kx) || !lt && hasFlag(s, "lt:"+kx) {
			s.Stop = true
			return
		}
		dropFlag(s, "ge:"+kx, "lt:"+kx)
		if lt {
			return // holds for this iteration only
		}
		addFlag(s, "ge:"+kx)
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, -1) == "nil" && hasFlag(s, "dirty") {
			// only the iteration limit may stop here, and that is an error
			k.fail(R, fnName(fn), k.pr.at(ret), "optimization can succeed right after a rule changed the graph, without trying the rules again (path %s)", s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, fnName(fn))
}
