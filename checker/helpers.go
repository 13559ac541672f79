package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- small queries shared by the rules ----

// pkgTypes lists the named struct types declared in a package of the module.
func (k *K) pkgTypes(pkg string) []*types.Named {
	var r []*types.Named
	for _, p := range k.pr.Order {
		if p.Types.Path() != modPath+"/"+pkg {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					r = append(r, nt)
				}
			}
		}
	}
	return r
}

// implementers lists the pointer-receiver implementations of an interface in a package.
func (k *K) implementers(pkg, iface string) []*types.Named {
	in := k.named(iface)
	if in == nil {
		return nil
	}
	it, ok := in.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*types.Named
	for _, t := range k.pkgTypes(pkg) {
		if types.IsInterface(t) {
			continue
		}
		if types.Implements(types.NewPointer(t), it) {
			r = append(r, t)
		}
	}
	return r
}

// method returns the body of method name of *T, only if T declares it itself.
func (k *K) method(t *types.Named, name string) *ssa.Function {
	for i := 0; i < t.NumMethods(); i++ {
		if m := t.Method(i); m.Name() == name {
			f := k.pr.SSA.FuncValue(m)
			if f != nil && f.Blocks != nil {
				k.funcs[f] = true
				return f
			}
		}
	}
	return nil
}

// structField finds a field of a struct type by a predicate on its type, so that rules do not
// depend on field names.
func structField(t *types.Named, pred func(types.Type) bool) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if pred(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func isNil(t *Term) bool { return t.Op == "const" && t.Sym == "nil" }

func allAlts(t *Term, p func(*Term) bool) bool {
	for _, a := range t.Alts() {
		if !p(a) {
			return false
		}
	}
	return true
}

func anyAlt(t *Term, p func(*Term) bool) bool {
	for _, a := range t.Alts() {
		if p(a) {
			return true
		}
	}
	return false
}

// extOf: t is result i of a call to one of names; returns the call term.
func extOf(t *Term, i int, names ...string) *Term {
	if t.Op == "ext" && t.Sym == itoa(i) && len(t.Args) == 1 && t.Args[0].Op == "call" {
		for _, n := range names {
			if t.Args[0].Sym == n {
				return t.Args[0]
			}
		}
	}
	return nil
}

func isCallTo(t *Term, names ...string) bool {
	if t.Op != "call" {
		return false
	}
	for _, n := range names {
		if t.Sym == n {
			return true
		}
	}
	return false
}

// elemOf: t is an element of (a map or slice) x, whatever the index.
func elemOf(t *Term) *Term {
	if t.Op == "index" || t.Op == "lookup" {
		return t.Args[0]
	}
	return nil
}

func isParam(t *Term, sym string) bool { return t.Op == "param" && t.Sym == sym }

// isField: t is field name of something.
func isField(t *Term, name string) bool { return t.Op == "field" && t.Sym == name }

// helperInline enters closures and unexported functions of the module: exported functions are the
// vocabulary of the rules.
func helperInline(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
	return callee.Parent() != nil || callee.Object() == nil || !callee.Object().Exported()
}

// ---- loops ----

type loopSpec struct {
	rule string
	// over says whether a loop over x is one the rule is about
	over func(x *Term) bool
	// at restricts the loops to those with this header
	at func(b *ssa.BasicBlock) bool
	// action says whether the call is what every iteration has to do; nil: only completeness
	action func(s *St, call ssa.CallInstruction, name string) bool
	// instr is like action for other instructions
	instr func(s *St, in ssa.Instruction) bool
	what  string // what the action is, for messages
	// fail exits are those that return a non-nil error; a function without an error result only
	// has success exits
	inline func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool
	// inner: starting a loop over x counts as the action (an inner collection may be empty)
	inner func(x *Term) bool
	// breakOK: leaving the loop early is allowed when this condition was taken
	skipOK func(s *St, cond *Term, taken bool) bool
	min    int  // number of loops that must be found
	trueOK bool // a predicate may return true early
	flow   bool // resolve values as they are on the path
}

// loopOver returns the term of what a loop condition iterates over, nil if it is not one.
func loopOver(r *Resolver, c *Ctx, cond ssa.Value) *Term {
	switch y := cond.(type) {
	case searchLoop:
		return r.T(c, y.Common().Args[0])
	case *ssa.Extract:
		if n, ok := y.Tuple.(*ssa.Next); ok && y.Index == 0 {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				return r.T(c, rg.X)
			}
		}
	case *ssa.BinOp:
		blk := y.Block()
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok || iff.Cond != ssa.Value(y) {
			return nil
		}
		if body := rangeInt(y); body != nil {
			t := r.T(c, y.Y)
			if isCallTo(t, "builtin.len") {
				return t.Args[0]
			}
			return t
		}
		rc := reach(y.Parent())
		if !rc[blk.Index][blk.Index] {
			return nil
		}
		var ind, b ssa.Value
		switch y.Op {
		case token.LSS, token.NEQ:
			ind, b = y.X, y.Y
		case token.GTR:
			ind, b = y.Y, y.X
		case token.GEQ:
			// counting down from len(x)-1
			if c0, ok := y.Y.(*ssa.Const); !ok || c0.Value == nil || c0.Value.ExactString() != "0" {
				return nil
			}
			if p, ok := y.X.(*ssa.Phi); ok {
				for _, e := range p.Edges {
					t := r.T(c, e)
					if t.Op == "bin" && t.Sym == "-" && isCallTo(t.Args[0], "builtin.len") && t.Args[1].Sym == "1" {
						return t.Args[0].Args[0]
					}
				}
			}
			return nil
		default:
			return nil
		}
		if !induction(ind) || !fromStart(ind) {
			return nil
		}
		t := r.T(c, b)
		if isCallTo(t, "builtin.len") {
			return t.Args[0]
		}
		return t
	}
	return nil
}

// rangeInt: the body of the loop over an integer that the condition, one of two, controls.
func rangeInt(y *ssa.BinOp) *ssa.BasicBlock {
	if len(y.Block().Succs) != 2 {
		return nil
	}
	b := y.Block().Succs[0]
	if y.Op != token.LSS || b.Comment != "rangeint.body" {
		return nil
	}
	if c, ok := y.X.(*ssa.Const); ok {
		if c.Value == nil || c.Value.ExactString() != "0" {
			return nil
		}
		return b
	}
	if s, ok := y.X.(*ssa.BinOp); ok && s.Op == token.ADD {
		if p, ok := s.X.(*ssa.Phi); ok && p.Block() == b {
			return b
		}
	}
	return nil
}

// loopIndex identifies a loop within its function by one of its conditions.
func loopIndex(cond ssa.Value) int {
	if y, ok := cond.(*ssa.BinOp); ok {
		if b := rangeInt(y); b != nil {
			return b.Index
		}
	}
	return cond.(ssa.Instruction).Block().Index
}

// loopOver is what a loop condition iterates over on this path.
func (s *St) loopOver(cond ssa.Value) *Term {
	r := s.x.R
	if !s.x.rule.Flow || r.path != nil {
		return loopOver(r, s.Ctx, cond)
	}
	cache := r.cache
	r.cache, r.path = map[tkey]*Term{}, s
	t := loopOver(r, s.Ctx, cond)
	r.cache, r.path = cache, nil
	return t
}

func (s *St) condTerm(cond ssa.Value) *Term {
	if s.x.rule.Flow {
		return s.condPT(cond)
	}
	return s.x.R.T(s.Ctx, cond)
}

// induction: v counts iterations: a phi advanced by a constant, or that sum.
func induction(v ssa.Value) bool {
	step := func(p *ssa.Phi, e ssa.Value) bool {
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		_, c := b.Y.(*ssa.Const)
		return c && b.X == ssa.Value(p)
	}
	switch y := v.(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			if step(y, e) {
				return true
			}
		}
	case *ssa.BinOp:
		if p, ok := y.X.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				if e == ssa.Value(y) && step(p, e) {
					return true
				}
			}
		}
	}
	return false
}

// fromStart: an ascending count that is not known to leave out numbers: it starts at zero, in steps of one.
func fromStart(v ssa.Value) bool {
	first := "0"
	p, ok := v.(*ssa.Phi)
	if b, isSum := v.(*ssa.BinOp); isSum {
		first = "-1"
		p, ok = b.X.(*ssa.Phi)
	}
	if !ok {
		return true
	}
	for _, e := range p.Edges {
		switch e := e.(type) {
		case *ssa.Const:
			if e.Value != nil && e.Value.ExactString() != first {
				return false
			}
		case *ssa.BinOp:
			if c, ok := e.Y.(*ssa.Const); ok && e.X == ssa.Value(p) && (e.Op != token.ADD || c.Value == nil || c.Value.ExactString() != "1") {
				return false
			}
		}
	}
	return true
}

// checkLoops verifies that every loop of fn over the given collection performs the action in each
// iteration, and that no successful exit happens before the loop is exhausted.
func checkLoops(k *K, fn *ssa.Function, ls *loopSpec) {
	if fn == nil {
		return
	}
	name := fnName(fn)
	found := map[string]bool{}
	get := func(a string) map[string]string {
		m := map[string]string{}
		for _, p := range strings.Split(a, ",") {
			if kk, v, ok := strings.Cut(p, "="); ok {
				m[kk] = v
			}
		}
		return m
	}
	put := func(m map[string]string) string {
		var r []string
		for kk, v := range m {
			r = append(r, kk+"="+v)
		}
		sort.Strings(r)
		return strings.Join(r, ",")
	}
	inl := ls.inline
	if inl == nil {
		inl = helperInline
	}
	rule := &Rule{MaxDepth: 5, Inline: inl, Flow: ls.flow}
	construct := name
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		over := s.loopOver(cond)
		m := get(s.Auto)
		if over != nil && ls.inner != nil && ls.inner(over) {
			self := fmt.Sprintf("%d/%d", s.Ctx.id, loopIndex(cond))
			for kk := range m {
				if kk != self {
					m[kk] = "1"
				}
			}
			s.Auto = put(m)
		}
		if over == nil || !ls.over(over) || ls.at != nil && !ls.at(cond.(ssa.Instruction).Block()) {
			if ls.skipOK != nil && len(m) > 0 && ls.skipOK(s, s.condTerm(cond), taken) {
				for kk := range m {
					m[kk] = "1"
				}
				s.Auto = put(m)
			}
			return
		}
		in := cond.(ssa.Instruction)
		id := fmt.Sprintf("%d/%d", s.Ctx.id, loopIndex(cond))
		found[fmt.Sprintf("%s/%d", fnName(in.Parent()), loopIndex(cond))] = true
		if partOf(over, ls.over) {
			k.fail(ls.rule, construct, k.pr.pos(condOrBlock(in)), "only some of the elements of %s are iterated over (path %s)", over, s.Trace())
		}
		if m[id] == "0" {
			k.fail(ls.rule, construct, k.pr.pos(condOrBlock(in)), "an iteration over %s can end without %s (path %s)", over, ls.what, s.Trace())
		}
		if taken {
			if ls.action == nil && ls.instr == nil {
				m[id] = "1"
			} else {
				m[id] = "0"
			}
		} else {
			delete(m, id)
		}
		s.Auto = put(m)
	}
	mark := func(s *St) {
		m := get(s.Auto)
		for kk := range m {
			m[kk] = "1"
		}
		s.Auto = put(m)
	}
	if ls.action != nil {
		rule.Call = func(s *St, call ssa.CallInstruction, n string) {
			if s.Auto != "" && ls.action(s, call, n) {
				mark(s)
			}
		}
	}
	if ls.instr != nil {
		rule.Instr = func(s *St, in ssa.Instruction) {
			if s.Auto != "" && ls.instr(s, in) {
				mark(s)
			}
		}
	}
	hasErr := errResult(fn.Signature) >= 0
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.Auto == "" {
			return
		}
		if hasErr && s.RetVal(ret, -1) == "nonnil" || ls.trueOK && s.RetVal(ret, 0) == "true" {
			return
		}
		if hasErr && s.RetVal(ret, -1) == "" {
			if rt := s.RetT(ret, len(ret.Results)-1); rt.Op == "call" || rt.Op == "ext" {
				return // passes a callee's error on
			}
		}
		k.fail(ls.rule, construct, k.pr.at(ret), "%s can return successfully before the loop is finished: the remaining elements are dropped (path %s)", name, s.Trace())
	}
	// leaving an inlined helper in the middle of its loop
	rule.Leave = func(s *St, ret *ssa.Return) {
		m := get(s.Auto)
		pre := fmt.Sprintf("%d/", s.Ctx.id)
		ch := false
		for kk := range m {
			if strings.HasPrefix(kk, pre) {
				he := errResult(s.Ctx.fn.Signature) >= 0
				if !(he && s.RetVal(ret, -1) != "nil") {
					k.fail(ls.rule, construct, k.pr.at(ret), "%s can return before the loop is finished (path %s)", fnName(s.Ctx.fn), s.Trace())
				}
				delete(m, kk)
				ch = true
			}
		}
		if ch {
			s.Auto = put(m)
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, ls.rule, construct)
	k.check(len(found) >= ls.min, ls.rule, construct, k.pr.pos(fn.Pos()), "expected at least %d loop(s), found %d: the elements are not all visited", ls.min, len(found))
}

func condOrBlock(in ssa.Instruction) token.Pos { return instrPos(in) }

// onStack: f is being explored already, so a call of it is recursive.
func onStack(c *Ctx, f *ssa.Function) bool {
	for ; c != nil; c = c.parent {
		if c.fn == f {
			return true
		}
	}
	return false
}
