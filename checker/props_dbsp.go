package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// zinfo describes the Z-set representation, found by type rather than by name.
type zinfo struct {
	typ          *types.Named
	counts, docs string
}

func (k *K) zset() *zinfo {
	t := k.named("dbsp.DocumentZSet")
	if t == nil {
		return nil
	}
	z := &zinfo{typ: t}
	z.counts = structField(t, func(ty types.Type) bool {
		m, ok := ty.Underlying().(*types.Map)
		if !ok {
			return false
		}
		b, ok := m.Elem().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	})
	z.docs = structField(t, func(ty types.Type) bool {
		m, ok := ty.Underlying().(*types.Map)
		if !ok {
			return false
		}
		_, ok = m.Elem().Underlying().(*types.Map)
		return ok
	})
	if z.counts == "" || z.docs == "" {
		k.fail("anchor", "dbsp.DocumentZSet", "", "the multiplicity or document map of the Z-set was not found")
		return nil
	}
	return z
}

// countOf: t reads a multiplicity of zset x; returns x.
func (z *zinfo) countOf(t *Term) *Term {
	if e := elemOf(t); e != nil && isField(e, z.counts) {
		return e.Args[0]
	}
	if t.Op == "field" && t.Sym == "Multiplicity" {
		return t.Args[0]
	}
	return nil
}

func (z *zinfo) docOf(t *Term) *Term {
	if e := elemOf(t); e != nil && isField(e, z.docs) {
		return e.Args[0]
	}
	return nil
}

func (z *zinfo) mentionsCount(t *Term) bool {
	switch {
	case z.countOf(t) != nil:
		return true
	case t.Op == "bin" || t.Op == "un" || t.Op == "phi":
		for _, a := range t.Args {
			if z.mentionsCount(a) {
				return true
			}
		}
	}
	return false
}

// isInput: element of the variadic Process argument.
func isInput(t *Term) bool {
	e := elemOf(t)
	return e != nil && isParam(e, "arg0")
}

func inputNo(t *Term) string {
	if isInput(t) {
		return t.Args[1].String()
	}
	return ""
}

const zp = "dbsp.DocumentZSet."

// calls that yield a Z-set no one else holds
var zFresh = []string{zp + "Add", zp + "Subtract", zp + "Distinct", zp + "Unique", zp + "AddDocument", zp + "DeepCopy", zp + "ShallowCopy", "dbsp.NewDocumentZSet"}

func (k *K) zsetFresh(t *Term) bool {
	return allAlts(t, func(a *Term) bool {
		if isNil(a) || isCallTo(a, zFresh...) || extOf(a, 0, zFresh...) != nil {
			return true
		}
		if a.Op == "ext" && a.Sym == "0" && a.Args[0].Op == "call" && strings.HasSuffix(a.Args[0].Sym, ".Process") {
			return true
		}
		if a.Op == "ext" && a.Sym == "0" && a.Args[0].Op == "call" {
			// a recursive helper: its own results are judged at its returns
			if f := k.find(a.Args[0].Sym); f != nil && f.Object() != nil && !f.Object().Exported() {
				return true
			}
		}
		return a.Op == "alloc" && strings.HasPrefix(a.Sym, "new:dbsp.DocumentZSet@") || a.Op == "opaque"
	})
}

type opInfo struct {
	t       *types.Named
	name    string
	process *ssa.Function
	opType  string // constant returned by OpType, "" when promoted or not constant
}

func (k *K) operators() []*opInfo {
	var r []*opInfo
	for _, t := range k.implementers("pkg/dbsp", "dbsp.Operator") {
		o := &opInfo{t: t, name: typeShort(t), process: k.method(t, "Process")}
		if m := k.method(t, "OpType"); m != nil {
			for _, b := range m.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if c, ok := ret.Results[0].(*ssa.Const); ok {
						o.opType = k.enumName("dbsp.OperatorType", c)
					}
				}
			}
		}
		if o.process != nil {
			r = append(r, o)
		}
	}
	return r
}

// enumName names the constant of a module enum type with c's value.
func (k *K) enumName(typ string, c *ssa.Const) string {
	nt := k.named(typ)
	if nt == nil || c.Value == nil {
		return ""
	}
	sc := nt.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if cn, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(cn.Type(), nt) && constant.Compare(cn.Val(), 39 /* token.EQL */, c.Value) {
			return n
		}
	}
	return ""
}

var linearOps = map[string]bool{"dbsp.ProjectionOp": true, "dbsp.SelectionOp": true, "dbsp.UnwindOp": true, "dbsp.ProjectThenSelectOp": true, "dbsp.SelectThenProjectionsOp": true}
var joinOps = map[string]bool{"dbsp.JoinOp": true, "dbsp.BinaryJoinOp": true, "dbsp.IncrementalJoinOp": true, "dbsp.IncrementalBinaryJoinOp": true}

func zInline(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
	return helperInline(s, call, callee) && !strings.HasPrefix(fnName(callee), "dbsp.BaseOp.")
}

func isAddDoc(n string) bool { return n == zp+"AddDocumentMutate" || n == zp+"AddDocument" }

func init() {
	register("D07", "multiplicity algebra of the DBSP operators: symbolic terms of the multiplicity given to every document insertion, on every path through each operator (helpers inlined), must be the input multiplicity (linear operators), the product of one multiplicity per input (joins), or the operator's documented constant; no branch of a linear or bilinear operator may depend on a multiplicity (parametricity), every document and every evaluator result must be carried over, and the delta expansions, integration, differentiation and delay must combine exactly the documented terms and update their state by the input delta after using it", runD07)
	register("D03", "isolation of the DBSP operators: ownership of every Z-set returned, stored or mutated by an operator; Z-set maps are only written through the designated mutator on privately owned Z-sets; evaluators that modify documents get private copies", runD03)
	register("D06", "state of the DBSP operators: effect analysis of Process finds the operator types that keep state; the incremental executor's Reset must reach each of them and reinitialise every field Process writes; operator types used as stateless must not write their receiver", runD06)
	register("D02", "Z-set representation invariant: typestate over every path of the single-document mutator and the copying operations", runD02)
	register("D01", "mode conversion of operator graphs: for every operator type the pipeline compiler or the rewriter can put into a graph, every path of the conversion entry points on that concrete type", runD01)
	register("D04", "graph execution: loop obligations and dataflow of the executor", runD04)
	register("D08", "graph rewriting: provenance and ordering of every operator the rewrite rules create, type guards of every node they remove", runD08)
	register("D05", "abstract fault injection over every call site in the query engine that can return an error: every path on which the call fails must return a non-nil error", func(k *K) {
		checkFaults(k, &faultSpec{rule: "error propagation", roots: k.faultRoots("pkg/dbsp")})
		k.atLeast("error propagation", 40)
	})
}

// ---------------------------------------------------------------- D07

func runD07(k *K) {
	z := k.zset()
	if z == nil {
		return
	}
	ops := k.operators()
	seen := map[string]bool{}
	for _, o := range ops {
		seen[o.name] = true
		lin, join := linearOps[o.name], joinOps[o.name]
		if !lin && !join {
			continue
		}
		k.multiplicity(z, o, lin)
	}
	for n := range linearOps {
		k.check(seen[n], "operator present", n, "", "operator %s not found", n)
	}
	for n := range joinOps {
		k.check(seen[n], "operator present", n, "", "operator %s not found", n)
	}
	k.opTypes(ops)
	k.incrementalTerms(z, ops)
	k.zsetAlgebra(z)
}

// multiplicity: rules for linear operators and joins
func (k *K) multiplicity(z *zinfo, o *opInfo, lin bool) {
	fn := o.process
	stores := map[string][]*Term{} // values stored into local slices
	type add struct {
		call ssa.CallInstruction
		cnt  *Term
	}
	var adds []add
	seen := map[string]bool{}
	rule := &Rule{MaxDepth: 5, Inline: zInline}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				b := s.T(ia.X).String()
				stores[b] = append(stores[b], s.T(st.Val))
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if !isAddDoc(n) {
			return
		}
		t := s.T(callArgs(call.Common())[2])
		key := fmt.Sprintf("%p|%s", call, t)
		if !seen[key] {
			seen[key] = true
			adds = append(adds, add{call, t})
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := k.R.T(s.Ctx, cond)
		if lo := loopOver(k.R, s.Ctx, cond); lo != nil && !z.mentionsCount(lo) {
			return
		}
		cn := o.name + " branch"
		if z.mentionsCount(t) {
			k.fail("multiplicities are opaque", cn, k.pr.pos(condOrBlock(cond.(ssa.Instruction))), "the operator decides on a multiplicity (%s): it is no longer linear in its input, so incremental and full results differ", t)
		} else {
			k.ok("multiplicities are opaque", cn, k.pr.pos(fn.Pos()))
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, "multiplicity", o.name)
	for _, a := range adds {
		construct := o.name + " insertion"
		if lin {
			good := allAlts(a.cnt, func(t *Term) bool {
				zs := z.countOf(t)
				return zs != nil && anyAlt(zs, isInput)
			})
			k.check(good, "linear multiplicity", construct, k.pr.at(a.call), "a linear operator must give each output document exactly the multiplicity of its input document, found %s", a.cnt)
			continue
		}
		// joins: a product with one factor per input
		ins := map[string]bool{}
		badLeaf := ""
		var walk func(t *Term)
		walk = func(t *Term) {
			switch {
			case t.Op == "phi":
				for _, y := range t.Args {
					walk(y)
				}
			case t.Op == "bin" && t.Sym == "*":
				walk(t.Args[0])
				walk(t.Args[1])
			case t.Op == "const" && t.Sym == "1", t.Op == "opaque" && t.Sym == "…":
			case z.countOf(t) != nil:
				for _, y := range z.countOf(t).Alts() {
					ins[y.String()] = true
				}
			case elemOf(t) != nil && elemOf(t).Op == "alloc":
				vs := stores[elemOf(t).String()]
				if len(vs) == 0 {
					badLeaf = t.String() + " (never assigned)"
				}
				for _, v := range vs {
					if z.countOf(v) == nil {
						badLeaf = v.String()
					} else {
						ins["all"] = true
					}
				}
			default:
				badLeaf = t.String()
			}
		}
		walk(a.cnt)
		k.check(badLeaf == "", "bilinear multiplicity", construct, k.pr.at(a.call), "a join must multiply the multiplicities of the joined documents and nothing else, found factor %s in %s", badLeaf, a.cnt)
		k.check(len(ins) >= 2 || ins["all"], "bilinear multiplicity", construct, k.pr.at(a.call), "the multiplicity %s of a joined document does not depend on every joined document", a.cnt)
		if ins["all"] {
			k.check(strings.Contains(a.cnt.String(), "*"), "bilinear multiplicity", construct, k.pr.at(a.call), "the multiplicity %s of a joined tuple is not a product", a.cnt)
		}
	}
	delegates := o.name == "dbsp.IncrementalBinaryJoinOp"
	k.check(len(adds) > 0 || delegates, "operator inserts", o.name, k.pr.pos(fn.Pos()), "no document insertion found in %s", fnName(fn))
	if !delegates {
		// every document of every input is looked at
		checkLoops(k, fn, &loopSpec{rule: "every input document is processed", inline: zInline, min: 1, what: "evaluating the document",
			over: func(t *Term) bool {
				return isField(t, z.counts) || isField(t, z.docs)
			},
			action: func(s *St, call ssa.CallInstruction, n string) bool {
				if n == zp+"Add" {
					// joining the remaining inputs recursively
					return anyAlt(s.T(callArgs(call.Common())[1]), func(t *Term) bool {
						if t.Op != "ext" || t.Sym != "0" || t.Args[0].Op != "call" {
							return false
						}
						c, ok := t.Args[0].V.(*ssa.Call)
						return ok && c.Common().StaticCallee() != nil && onStack(s.Ctx, c.Common().StaticCallee())
					})
				}
				return strings.HasSuffix(n, ".Evaluate") || strings.HasSuffix(n, ".Extract") || isAddDoc(n)
			},
			// an inner input, group or match list may be empty
			inner: func(t *Term) bool { return true },
		})
		checkLoops(k, fn, &loopSpec{rule: "every evaluator result is kept", inline: zInline, min: 0, what: "inserting the resulting document",
			over: func(t *Term) bool {
				return anyAlt(t, func(a *Term) bool {
					return a.Op == "ext" && a.Sym == "0" && a.Args[0].Op == "call" && (strings.HasSuffix(a.Args[0].Sym, ".Evaluate") || strings.HasSuffix(a.Args[0].Sym, ".Extract"))
				}) && !strings.Contains(t.String(), "projEvals")
			},
			action: func(s *St, call ssa.CallInstruction, n string) bool {
				return isAddDoc(n) || strings.HasSuffix(n, ".Evaluate")
			}})
	}
}

// opTypes: the declared class of an operator decides how it is incrementalised
func (k *K) opTypes(ops []*opInfo) {
	want := map[string]string{}
	for n := range linearOps {
		want[n] = "OpTypeLinear"
	}
	for n := range joinOps {
		want[n] = "OpTypeBilinear"
	}
	want["dbsp.GatherOp"] = "OpTypeNonLinear"
	want["dbsp.DistinctOp"] = "OpTypeNonLinear"
	want["dbsp.IntegratorOp"] = "OpTypeLinear"
	want["dbsp.DifferentiatorOp"] = "OpTypeLinear"
	for _, o := range ops {
		if w := want[o.name]; w != "" {
			k.check(o.opType == w, "declared operator class", o.name, k.pr.pos(o.process.Pos()), "%s must declare %s, declares %q: the rewriter would make it incremental the wrong way", o.name, w, o.opType)
		}
	}
}

// stateTerms collects the values stored into receiver fields by Process, and the state at exit.
type fieldStore struct {
	field string
	val   *Term
	at    ssa.Instruction
}

func recvField(t *Term) string {
	if t.Op == "field" && isParam(t.Args[0], "recv") {
		return t.Sym
	}
	if e := elemOf(t); e != nil && e.Op == "field" && isParam(e.Args[0], "recv") {
		return e.Sym + "[]"
	}
	return ""
}

func (k *K) incrementalTerms(z *zinfo, ops []*opInfo) {
	by := map[string]*opInfo{}
	for _, o := range ops {
		by[o.name] = o
	}
	in0 := func(t *Term) bool { return inputNo(t) == "0" }
	// integration: state' = state + delta, result is state'
	if o := by["dbsp.IntegratorOp"]; o != nil {
		k.stateMachine(o, func(st fieldStore) string {
			c := extOf(st.val, 0, zp+"Add")
			if c == nil {
				return fmt.Sprintf("state must become state + delta, becomes %s", st.val)
			}
			a, b := c.Args[0], c.Args[1]
			if recvField(a) == st.field && in0(b) || recvField(b) == st.field && in0(a) {
				return ""
			}
			return fmt.Sprintf("state must become state + delta, becomes %s", st.val)
		}, func(t *Term, stored map[string]bool) string {
			// the accumulated state after the update, in a private copy
			if isCallTo(t, zp+"DeepCopy", zp+"ShallowCopy") {
				f := recvField(t.Args[0])
				if f != "" && stored[f] {
					return ""
				}
				if extOf(t.Args[0], 0, zp+"Add") != nil {
					return ""
				}
			}
			return fmt.Sprintf("must return the accumulated state including this delta, returns %s", t)
		}, 1)
	}
	// differentiation: delta = snapshot - previous; previous' = snapshot
	if o := by["dbsp.DifferentiatorOp"]; o != nil {
		k.stateMachine(o, func(st fieldStore) string {
			if isCallTo(st.val, zp+"DeepCopy", zp+"ShallowCopy") && in0(st.val.Args[0]) {
				return ""
			}
			return fmt.Sprintf("the previous snapshot must become the current one, becomes %s", st.val)
		}, func(t *Term, stored map[string]bool) string {
			c := extOf(t, 0, zp+"Subtract")
			if c != nil && in0(c.Args[0]) && recvField(c.Args[1]) != "" {
				return ""
			}
			return fmt.Sprintf("must return current - previous snapshot, returns %s", t)
		}, 1)
	}
	// delay: output buffer, buffer' = input
	if o := by["dbsp.DelayOp"]; o != nil {
		k.stateMachine(o, func(st fieldStore) string {
			if isCallTo(st.val, zp+"DeepCopy", zp+"ShallowCopy") && in0(st.val.Args[0]) {
				return ""
			}
			return fmt.Sprintf("the buffer must become the current input, becomes %s", st.val)
		}, func(t *Term, stored map[string]bool) string {
			if isCallTo(t, zp+"DeepCopy", zp+"ShallowCopy") && recvField(t.Args[0]) != "" {
				return ""
			}
			return fmt.Sprintf("must return the buffered input, returns %s", t)
		}, 1)
	}
	// binary delta join
	if o := by["dbsp.IncrementalBinaryJoinOp"]; o != nil {
		prev := map[string]string{} // input -> field
		k.stateMachine(o, func(st fieldStore) string {
			c := extOf(st.val, 0, zp+"Add")
			if c != nil {
				for i := 0; i < 2; i++ {
					if recvField(c.Args[i]) == st.field && isInput(c.Args[1-i]) {
						n := inputNo(c.Args[1-i])
						if p := prev[n]; p != "" && p != st.field {
							return fmt.Sprintf("two state fields integrate input %s", n)
						}
						prev[n] = st.field
						return ""
					}
				}
			}
			return fmt.Sprintf("the state must become state + delta of one input, becomes %s", st.val)
		}, nil, 2)
		k.check(prev["0"] != "" && prev["1"] != "" && prev["0"] != prev["1"], "delta join state", o.name, k.pr.pos(o.process.Pos()), "each input must be integrated into its own state, found %v", prev)
		// the set of joined pairs reachable in the result
		want := map[string]bool{"Δ0|Δ1": false, "S0|Δ1": false, "Δ0|S1": false}
		name := func(t *Term) string {
			if n := inputNo(t); n != "" {
				return "Δ" + n
			}
			for n, f := range prev {
				if recvField(t) == f {
					return "S" + n
				}
			}
			return "?" + t.String()
		}
		bad := ""
		rule := &Rule{MaxDepth: 4, Inline: zInline}
		rule.Exit = func(s *St, ret *ssa.Return) {
			if s.RetVal(ret, 1) == "nonnil" {
				return
			}
			got := map[string]int{}
			var walk func(t *Term)
			walk = func(t *Term) {
				if t.Op == "phi" {
					bad = "the result differs between paths: " + t.String()
					return
				}
				if c := extOf(t, 0, zp+"Add"); c != nil {
					walk(c.Args[0])
					walk(c.Args[1])
					return
				}
				if isCallTo(t, "dbsp.NewDocumentZSet") {
					return
				}
				if c := extOf(t, 0, "dbsp.BinaryJoinOp.Process"); c != nil {
					es := k.varargs(s.Ctx, c.V)
					if len(es) == 2 {
						got[name(es[0])+"|"+name(es[1])]++
						return
					}
				}
				bad = "unexpected term " + t.String()
			}
			walk(s.RetT(ret, 0))
			for w := range want {
				if got[w] == 1 {
					want[w] = true
				} else {
					bad = fmt.Sprintf("term %s occurs %d times in the delta", w, got[w])
				}
				delete(got, w)
			}
			for g := range got {
				bad = "unexpected term " + g
			}
		}
		x := k.explore(rule)
		x.Run(o.process, "")
		k.done(x, "delta join terms", o.name)
		k.check(bad == "" && want["Δ0|Δ1"], "delta join terms", o.name, k.pr.pos(o.process.Pos()), "the delta must be ΔL⋈ΔR + L⋈ΔR + ΔL⋈R: %s", bad)
		// state must be read before it is updated
		k.stateReadBeforeUpdate(o, func(n string) bool { return strings.HasSuffix(n, ".Process") })
	}
	if o := by["dbsp.IncrementalJoinOp"]; o != nil {
		k.naryJoin(z, o)
	}
}

// varargs returns the terms of the elements of a variadic call's last argument.
func (k *K) varargs(c *Ctx, v ssa.Value) []*Term {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	args := call.Common().Args
	if len(args) == 0 {
		return nil
	}
	cc, w := k.R.norm(c, args[len(args)-1])
	sl, ok := w.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	type el struct {
		i int64
		t *Term
	}
	var els []el
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		ix, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				els = append(els, el{ix.Int64(), k.R.T(cc, st.Val)})
			}
		}
	}
	sort.Slice(els, func(i, j int) bool { return els[i].i < els[j].i })
	var ts []*Term
	for _, e := range els {
		ts = append(ts, e.t)
	}
	return ts
}

// stateMachine checks the stores to receiver fields and the result of a stateful operator. On
// every successful path each of nfields fields must have been stored.
func (k *K) stateMachine(o *opInfo, store func(fieldStore) string, result func(*Term, map[string]bool) string, nfields int) {
	fn := o.process
	construct := o.name
	rule := &Rule{MaxDepth: 4, Inline: zInline}
	n := 0
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		f := recvField(s.T(st.Addr))
		if f == "" {
			return
		}
		n++
		if msg := store(fieldStore{f, s.T(st.Val), in}); msg != "" {
			k.fail("state update", construct, k.pr.at(in), "%s", msg)
		} else {
			k.ok("state update", construct, k.pr.at(in))
		}
		if !strings.Contains(s.Auto, f+";") {
			s.Auto += f + ";"
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, 1) == "nonnil" {
			return
		}
		if isCallTo(s.RetT(ret, 1), "dbsp.BaseOp.validateInputs") {
			return
		}
		stored := map[string]bool{}
		for _, f := range strings.Split(s.Auto, ";") {
			if f != "" {
				stored[f] = true
			}
		}
		if len(stored) < nfields {
			k.fail("state update", construct, k.pr.at(ret), "a successful path updates %d of %d state fields (path %s)", len(stored), nfields, s.Trace())
		}
		if result == nil {
			return
		}
		t := s.RetT(ret, 0)
		for _, a := range t.Alts() {
			if isNil(a) {
				continue
			}
			if msg := result(a, stored); msg != "" {
				k.fail("operator result", construct, k.pr.at(ret), "%s", msg)
			} else {
				k.ok("operator result", construct, k.pr.at(ret))
			}
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, "state update", construct)
	k.check(n >= nfields, "state update", construct, k.pr.pos(fn.Pos()), "no state update found")
}

// stateReadBeforeUpdate: on no path is the old state used by the operator after it was updated.
func (k *K) stateReadBeforeUpdate(o *opInfo, uses func(name string) bool) {
	rule := &Rule{MaxDepth: 4, Inline: zInline}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			t := s.T(st.Addr)
			f := recvField(t)
			if f == "" {
				return
			}
			// initialising an empty state is not an update
			if isCallTo(s.T(st.Val), "dbsp.NewDocumentZSet") {
				return
			}
			s.Auto = "updated"
		}
	}
	k.ok("old state used before the update", o.name, k.pr.pos(o.process.Pos()))
	rule.Call = func(s *St, call ssa.CallInstruction, n string) {
		if s.Auto == "updated" && uses(n) {
			k.fail("old state used before the update", o.name, k.pr.at(call), "%s runs after the operator's state was updated: the delta is joined with itself twice (path %s)", n, s.Trace())
		}
	}
	x := k.explore(rule)
	x.Run(o.process, "")
	k.done(x, "old state used before the update", o.name)
}

func (k *K) naryJoin(z *zinfo, o *opInfo) {
	fn := o.process
	// every input is integrated into its own state
	checkLoops(k, fn, &loopSpec{rule: "n-ary join state", inline: zInline, min: 1, what: "integrating the input into the state",
		over: func(t *Term) bool { return isParam(t, "arg0") },
		instr: func(s *St, in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			f := recvField(s.T(st.Addr))
			if !strings.HasSuffix(f, "[]") {
				return false
			}
			c := extOf(s.T(st.Val), 0, zp+"Add")
			if c == nil {
				return false
			}
			return recvField(c.Args[0]) == f && isInput(c.Args[1]) || recvField(c.Args[1]) == f && isInput(c.Args[0])
		}})
	// the same position is read and written
	rule := &Rule{MaxDepth: 4, Inline: zInline}
	rule.Instr = func(s *St, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			return
		}
		base := s.T(ia.X)
		idx := func(v ssa.Value) ssa.Value { _, w := k.R.norm(s.Ctx, v); return w }
		// find index operands used to compute the stored value
		var collect func(v ssa.Value, d int, f func(*ssa.IndexAddr))
		collect = func(v ssa.Value, d int, f func(*ssa.IndexAddr)) {
			if d > 6 {
				return
			}
			switch y := v.(type) {
			case *ssa.Extract:
				collect(y.Tuple, d+1, f)
			case *ssa.Call:
				for _, a := range callArgs(y.Common()) {
					collect(a, d+1, f)
				}
			case *ssa.UnOp:
				collect(y.X, d+1, f)
			case *ssa.Phi:
				for _, e := range y.Edges {
					collect(e, d+1, f)
				}
			case *ssa.IndexAddr:
				f(y)
			}
		}
		bad := false
		any := false
		collect(st.Val, 0, func(y *ssa.IndexAddr) {
			any = true
			if idx(y.Index) != idx(ia.Index) {
				bad = true
			}
		})
		if any && (recvField(base) != "" || base.Op == "alloc") {
			k.check(!bad, "n-ary join position", o.name, k.pr.at(in), "an input is combined with the state of another position")
		}
		// the chosen input of a term: the delta or the old state, at the same position
		if base.Op == "alloc" && strings.Contains(base.Sym, "[]dbsp.DocumentZSet") || base.Op == "alloc" && strings.Contains(base.Sym, "DocumentZSet") {
			v := s.T(st.Val)
			good := allAlts(v, func(a *Term) bool { return isInput(a) || recvField(a) != "" })
			k.check(good, "n-ary join terms", o.name, k.pr.at(in), "a term of the delta may only use input deltas and previous states, uses %s", v)
			for _, a := range v.Alts() {
				if isInput(a) {
					k.ok("n-ary join uses deltas", o.name, k.pr.at(in))
				} else if recvField(a) != "" {
					k.ok("n-ary join uses states", o.name, k.pr.at(in))
				}
			}
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, "n-ary join", o.name)
	k.atLeast("n-ary join uses deltas", 1)
	k.atLeast("n-ary join uses states", 1)
	k.atLeast("n-ary join position", 1)
	k.stateReadBeforeUpdate(o, func(n string) bool { return strings.HasSuffix(n, ".Evaluate") })
	// enumeration of the delta terms: every non-empty subset of changed inputs
	k.maskEnumeration(o)
}

// maskEnumeration: the loop over term masks must run from 1 below 1<<n, and a bit selects the delta.
func (k *K) maskEnumeration(o *opInfo) {
	found := false
	for _, f := range append([]*ssa.Function{o.process}, k.unexportedCallees(o.process)...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op.String() != "<" && bo.Op.String() != "<=" {
					continue
				}
				y := k.R.T(k.R.rootCtx(f), bo.Y)
				sh := y.Op == "bin" && y.Sym == "<<"
				if !sh && !(y.Op == "bin" && y.Sym == "-" && y.Args[0].Op == "bin" && y.Args[0].Sym == "<<") {
					continue
				}
				found = true
				phi, ok := bo.X.(*ssa.Phi)
				start, step := "", ""
				if ok {
					for _, e := range phi.Edges {
						if c, ok := e.(*ssa.Const); ok {
							start = c.Value.ExactString()
						} else if s, ok := e.(*ssa.BinOp); ok && s.Op.String() == "+" {
							if c, ok := s.Y.(*ssa.Const); ok {
								step = c.Value.ExactString()
							}
						}
					}
				}
				full := sh && bo.Op.String() == "<" || !sh && bo.Op.String() == "<=" && y.Args[1].Sym == "1"
				k.check(start == "1" && step == "1" && full, "n-ary join term enumeration", o.name, k.pr.at(in), "the delta must sum the terms of all non-empty subsets of changed inputs: masks start at %q step %q bound %s%s", start, step, bo.Op, y)
			}
		}
	}
	if !found {
		k.note("n-ary join: no bit-mask enumeration of terms; the enumeration itself is not judged")
	}
}

func (k *K) unexportedCallees(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{f: true}
	var r []*ssa.Function
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && inModule(h) && !seen[h] && h.Object() != nil && !h.Object().Exported() {
						seen[h] = true
						r = append(r, h)
						walk(h)
					}
				}
			}
		}
	}
	walk(f)
	return r
}

// zsetAlgebra: Add, Subtract, Distinct, Unique combine multiplicities as documented
func (k *K) zsetAlgebra(z *zinfo) {
	type alg struct {
		fn   string
		base string // what the result starts from
		ok   func(cnt *Term) bool
		want string
	}
	other := func(t *Term) bool { zs := z.countOf(t); return zs != nil && isParam(zs, "arg0") }
	self := func(t *Term) bool { zs := z.countOf(t); return zs != nil && isParam(zs, "recv") }
	_ = self
	algs := []alg{
		{"dbsp.DocumentZSet.Add", "copy", func(c *Term) bool { return other(c) }, "+count of the other operand"},
		{"dbsp.DocumentZSet.Subtract", "copy", func(c *Term) bool {
			return c.Op == "un" && c.Sym == "-" && other(c.Args[0]) || c.Op == "bin" && c.Sym == "-" && c.Args[0].Sym == "0" && other(c.Args[1]) ||
				c.Op == "bin" && c.Sym == "*" && (c.Args[0].Sym == "-1" && other(c.Args[1]) || c.Args[1].Sym == "-1" && other(c.Args[0]))
		}, "-count of the other operand"},
		{"dbsp.DocumentZSet.Distinct", "empty", func(c *Term) bool { return c.Op == "const" && c.Sym == "1" }, "1"},
		{"dbsp.DocumentZSet.Unique", "empty", func(c *Term) bool {
			return allAlts(c, func(a *Term) bool { return a.Op == "const" && (a.Sym == "1" || a.Sym == "-1") })
		}, "1 or -1"},
	}
	for _, a := range algs {
		fn := k.fn(a.fn)
		if fn == nil {
			continue
		}
		n := 0
		rule := &Rule{MaxDepth: 4, Inline: zInline}
		rule.Call = func(s *St, call ssa.CallInstruction, name string) {
			if !isAddDoc(name) {
				return
			}
			n++
			args := callArgs(call.Common())
			cnt, doc, recv := s.T(args[2]), s.T(args[1]), s.T(args[0])
			k.check(a.ok(cnt), "Z-set algebra", a.fn, k.pr.at(call), "must insert with multiplicity %s, inserts with %s", a.want, cnt)
			zs := z.docOf(doc)
			k.check(zs != nil && (a.base == "copy" && isParam(zs, "arg0") || a.base == "empty" && isParam(zs, "recv")), "Z-set algebra", a.fn, k.pr.at(call), "inserts an unexpected document %s", doc)
			base := recv
			okBase := allAlts(base, func(t *Term) bool {
				if a.base == "copy" {
					return isCallTo(t, zp+"DeepCopy", zp+"ShallowCopy") && isParam(t.Args[0], "recv") || extOf(t, 0, zp+"AddDocument") != nil
				}
				return isCallTo(t, "dbsp.NewDocumentZSet") || extOf(t, 0, zp+"AddDocument") != nil
			})
			k.check(okBase, "Z-set algebra", a.fn, k.pr.at(call), "the result must start from %s, starts from %s", map[string]string{"copy": "a copy of the receiver", "empty": "the empty Z-set"}[a.base], base)
			if a.fn == "dbsp.DocumentZSet.Distinct" {
				if s.Auto != "pos" {
					k.fail("Z-set algebra", a.fn, k.pr.at(call), "a document is kept although its multiplicity was not checked to be positive")
				}
			}
		}
		rule.Edge = func(s *St, cond ssa.Value, taken bool) {
			if loopOver(k.R, s.Ctx, cond) != nil {
				s.Auto = ""
				return
			}
			t := k.R.T(s.Ctx, cond)
			if t.Op == "bin" && z.countOf(t.Args[0]) != nil && t.Args[1].Sym == "0" {
				if t.Sym == ">" && taken || t.Sym == "<=" && !taken {
					s.Auto = "pos"
				}
			} else if t.Op == "bin" && z.countOf(t.Args[0]) != nil && t.Args[1].Sym == "1" {
				if t.Sym == ">=" && taken || t.Sym == "<" && !taken {
					s.Auto = "pos"
				}
			}
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, "Z-set algebra", a.fn)
		k.check(n > 0, "Z-set algebra", a.fn, k.pr.pos(fn.Pos()), "no insertion found")
		ls := &loopSpec{rule: "Z-set algebra is complete", inline: zInline, min: 1, what: "inserting the document",
			over:   func(t *Term) bool { return isField(t, z.counts) || isField(t, z.docs) },
			action: func(s *St, call ssa.CallInstruction, n string) bool { return isAddDoc(n) }}
		if a.fn == "dbsp.DocumentZSet.Distinct" {
			ls.skipOK = func(s *St, c *Term, taken bool) bool {
				return c.Op == "bin" && z.countOf(c.Args[0]) != nil && (c.Args[1].Sym == "0" && (c.Sym == ">" && !taken || c.Sym == "<=" && taken) || c.Args[1].Sym == "1" && (c.Sym == ">=" && !taken || c.Sym == "<" && taken))
			}
		}
		checkLoops(k, fn, ls)
	}
}
