package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AVal is an abstract value: what is known about a value on the current path.
type AVal string // "" unknown, "true", "false", "nil", "nonnil", or a constant "c:..."

type envKey struct {
	ctx int
	v   ssa.Value
	i   int // tuple index + 1, 0 for the value itself
}

type pathNode struct {
	prev *pathNode
	pos  token.Pos
	what string
}

type deferNode struct {
	prev *deferNode
	ctx  *Ctx
	d    *ssa.Defer
	id   int
}

// St is the state of one abstract path.
type St struct {
	Ctx    *Ctx
	Block  *ssa.BasicBlock
	Idx    int
	Pred   *ssa.BasicBlock
	env    map[envKey]AVal
	Auto   string // rule automaton state
	defers *deferNode
	path   *pathNode
	Stop   bool
	x      *Explorer
}

func (s *St) clone() *St {
	n := *s
	n.env = make(map[envKey]AVal, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	return &n
}

// library functions that search a slice with a predicate are explored as loops over the slice
var searchHOF = map[string]bool{"slices.ContainsFunc": true, "slices.IndexFunc": true}

// searchLoop stands for the loop condition of such a function.
type searchLoop struct{ *ssa.Call }

// searchSite: the context is the predicate of a search; returns the search.
func searchSite(c *Ctx) *ssa.Call {
	if c == nil || c.site == nil {
		return nil
	}
	y, ok := c.site.(*ssa.Call)
	if !ok || y.Common().IsInvoke() {
		return nil
	}
	if f := y.Common().StaticCallee(); f == nil || inModule(f) || !searchHOF[fnName(f)] {
		return nil
	}
	return y
}

// Rule drives an exploration.
type Rule struct {
	// Inline decides whether a resolved module callee is entered. nil: enter every module function.
	Inline func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool
	// SyncHOF: names of external functions that call their function argument before returning.
	// Call is invoked when a call executes (also deferred ones), before it is entered.
	Call func(s *St, call ssa.CallInstruction, name string)
	// AfterCall is invoked when a call returned (inlined or not).
	AfterCall func(s *St, call ssa.CallInstruction, name string)
	// Instr is invoked for every other instruction.
	Instr func(s *St, in ssa.Instruction)
	// Edge is invoked when a conditional branch is taken.
	Edge func(s *St, cond ssa.Value, taken bool)
	// Leave is invoked when an inlined callee returns, before results are bound.
	Leave func(s *St, ret *ssa.Return)
	// Exit is invoked when the root function returns.
	Exit func(s *St, ret *ssa.Return)
	// Prune is invoked before a state is compared with those seen.
	Prune func(s *St)
	// Panic is invoked at explicit panics.
	Panic     func(s *St, p *ssa.Panic)
	MaxDepth  int
	MaxStates int
	// Flow makes the explorer remember where the value of every merged variable came from on the
	// path (St.Root, St.PT, St.Lab).
	Flow    bool
	Asserts bool // a value of a type assertion is the same object as its operand
	Keep    bool // what merges were resolved to is remembered to the end
}

type Explorer struct {
	pr     *Program
	R      *Resolver
	rule   *Rule
	seen   map[string]bool
	states int
	Over   bool // state budget exceeded: undecided
	dn     int
	dmap   map[string]*deferNode
	Funcs  map[*ssa.Function]bool // functions entered
	work   []*St
	nonNil map[*ssa.Function]bool
	roots  []ctxVal
	zeros  map[string]ssa.Value
	rootID map[ctxVal]int
}

// functions outside the module that run their callback arguments synchronously
var syncHOF = map[string]bool{
	"retry.RetryOnConflict": true, "retry.OnError": true, "sort.Slice": true, "sort.SliceStable": true,
	"slices.SortFunc": true, "sync.Once.Do": true,
	"slices.SortStableFunc": true, "rate.Sometimes.Do": true, "maps.DeleteFunc": true, "slices.DeleteFunc": true,
}

func newExplorer(pr *Program, r *Resolver, rule *Rule) *Explorer {
	if rule.MaxDepth == 0 {
		rule.MaxDepth = 8
	}
	if rule.MaxStates == 0 {
		rule.MaxStates = 400000
	}
	return &Explorer{pr: pr, R: r, rule: rule, seen: map[string]bool{}, dmap: map[string]*deferNode{}, Funcs: map[*ssa.Function]bool{}}
}

// Run explores every path of fn from its entry, starting in automaton state auto.
func (x *Explorer) Run(fn *ssa.Function, auto string) { x.RunCtx(x.R.rootCtx(fn), auto) }

func (x *Explorer) RunCtx(c *Ctx, auto string) {
	if c.fn == nil || len(c.fn.Blocks) == 0 {
		return
	}
	st := &St{Ctx: c, Block: c.fn.Blocks[0], env: map[envKey]AVal{}, Auto: auto, x: x}
	x.Funcs[c.fn] = true
	x.push(st)
	x.drain()
}

// RunFrom explores from the instruction after in.
func (x *Explorer) RunFrom(c *Ctx, in ssa.Instruction, auto string) {
	b := in.Block()
	st := &St{Ctx: c, Block: b, Idx: instrIndex(in) + 1, env: map[envKey]AVal{}, Auto: auto, x: x}
	x.push(st)
	x.drain()
}

func instrIndex(in ssa.Instruction) int {
	for i, y := range in.Block().Instrs {
		if y == in {
			return i
		}
	}
	return -1
}

func (x *Explorer) drain() {
	for len(x.work) > 0 {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.step(st)
	}
}

func (x *Explorer) key(s *St) string {
	var parts []string
	for k, v := range s.env {
		parts = append(parts, fmt.Sprintf("%d/%s/%s/%d=%s", k.ctx, fnKey(k.v), k.v.Name(), k.i, v))
	}
	sort.Strings(parts)
	d := 0
	if s.defers != nil {
		d = s.defers.id
	}
	pred := -1
	if s.Pred != nil && s.Idx == 0 {
		pred = s.Pred.Index
	}
	return fmt.Sprintf("%d|%d|%d|%d|%d|%s|%s", s.Ctx.id, s.Block.Index, s.Idx, pred, d, s.Auto, strings.Join(parts, ";"))
}

func fnKey(v ssa.Value) string {
	if p := v.Parent(); p != nil {
		return p.Name()
	}
	return ""
}

func (x *Explorer) push(s *St) {
	if x.Over {
		return
	}
	s.prune()
	if x.rule.Prune != nil {
		x.rule.Prune(s)
	}
	k := x.key(s)
	if x.seen[k] {
		return
	}
	x.seen[k] = true
	x.states++
	if x.states > x.rule.MaxStates {
		x.Over = true
		return
	}
	x.work = append(x.work, s)
}

// keepFlow: only what merges were resolved to is forgotten after its last use.
func keepFlow(v ssa.Value) bool {
	_, phi := v.(*ssa.Phi)
	return !phi
}

// prune drops facts about values that cannot be used again from the current position.
func (s *St) prune() {
	for k := range s.env {
		if k.ctx == s.Ctx.id && k.i != labIdx && k.i > fieldIdx && !(k.i == flowIdx && (s.x.rule.Keep || keepFlow(k.v))) {
			if !liveAt(k.v, s.Block, s.Idx) {
				delete(s.env, k)
			}
		}
	}
}

var reachCache = map[*ssa.Function][][]bool{}

func reach(f *ssa.Function) [][]bool {
	if r := reachCache[f]; r != nil {
		return r
	}
	n := len(f.Blocks)
	r := make([][]bool, n)
	for i := range r {
		r[i] = make([]bool, n)
		var st []*ssa.BasicBlock
		st = append(st, f.Blocks[i].Succs...)
		for len(st) > 0 {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			if r[i][b.Index] {
				continue
			}
			r[i][b.Index] = true
			st = append(st, b.Succs...)
		}
	}
	reachCache[f] = r
	return r
}

func liveAt(v ssa.Value, b *ssa.BasicBlock, idx int) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	rc := reach(b.Parent())
	for _, ref := range *refs {
		rb := ref.Block()
		if rb == nil || rb.Parent() != b.Parent() {
			return true // used in a closure
		}
		if rb == b {
			if _, isPhi := ref.(*ssa.Phi); !isPhi || idx == 0 {
				for i := idx; i < len(b.Instrs); i++ {
					if b.Instrs[i] == ref {
						return true
					}
				}
			}
		}
		if rc[b.Index][rb.Index] {
			return true
		}
	}
	return false
}

// Val returns what is known about v in context c on this path.
func (s *St) Val(c *Ctx, v ssa.Value) AVal { return s.val(c, v, 0) }

func (s *St) val(c *Ctx, v ssa.Value, depth int) AVal {
	if depth > 20 {
		return ""
	}
	if k, ok := v.(*ssa.Const); ok {
		return constVal(k)
	}
	if a, ok := s.env[envKey{c.id, v, 0}]; ok {
		return a
	}
	switch y := v.(type) {
	case *ssa.Parameter:
		if c != nil && c.site != nil && y.Parent() == c.fn {
			if a := actual(c, paramIndex(y)); a != nil {
				return s.val(c.parent, a, depth+1)
			}
		}
	case *ssa.FreeVar:
		cc, w := s.x.R.norm(c, v)
		if w != v {
			return s.val(cc, w, depth+1)
		}
	case *ssa.MakeInterface:
		if _, ok := y.X.Type().Underlying().(*types.Pointer); ok {
			a := s.val(c, y.X, depth+1)
			_ = a
			return "nonnil" // an interface holding even a nil pointer is not nil
		}
		if types.IsInterface(y.X.Type()) {
			return s.val(c, y.X, depth+1)
		}
		if k, ok := y.X.(*ssa.Const); ok {
			return constVal(k)
		}
		return "nonnil"
	case *ssa.ChangeInterface:
		return s.val(c, y.X, depth+1)
	case *ssa.ChangeType:
		return s.val(c, y.X, depth+1)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function, *ssa.Global:
		return "nonnil"
	case *ssa.Extract:
		if a, ok := s.env[envKey{c.id, y.Tuple, y.Index + 1}]; ok {
			return a
		}
	case *ssa.UnOp:
		if y.Op == token.NOT {
			switch s.val(c, y.X, depth+1) {
			case "true":
				return "false"
			case "false":
				return "true"
			}
		}
		if y.Op == token.MUL {
			cc, w := s.x.R.norm(c, v)
			if w != v {
				return s.val(cc, w, depth+1)
			}
			// a tracked local variable
			cc, p := s.x.R.norm(c, y.X)
			if al, ok := p.(*ssa.Alloc); ok {
				if a, ok := s.env[envKey{cc.id, al, -1}]; ok {
					return a
				}
			}
			// sentinel error variables of other packages are not nil
			if g, ok := p.(*ssa.Global); ok && types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type()) {
				return "nonnil"
			}
		}
	case *ssa.BinOp:
		if y.Op == token.EQL || y.Op == token.NEQ {
			a, b := s.val(c, y.X, depth+1), s.val(c, y.Y, depth+1)
			if a != "" && b != "" {
				eq := ""
				switch {
				case a == b && a != "nonnil":
					eq = "true"
				case a == "nil" && b == "nonnil" || a == "nonnil" && b == "nil":
					eq = "false"
				case a != b && isConstV(a) && isConstV(b):
					eq = "false"
				case a == "nil" && isConstV(b) || b == "nil" && isConstV(a):
					eq = "false"
				}
				if eq != "" {
					if y.Op == token.NEQ {
						if eq == "true" {
							return "false"
						}
						return "true"
					}
					return AVal(eq)
				}
			}
		}
		if r := foldInt(y, s.val(c, y.X, depth+1), s.val(c, y.Y, depth+1)); r != "" {
			return r
		}
	case *ssa.Call:
		if nonNilResult[s.x.R.calleeName(c, y.Common())] {
			return "nonnil"
		}
		if types.Identical(y.Type(), types.Universe.Lookup("error").Type()) && s.x.alwaysNonNil(y.Common().StaticCallee(), 0) {
			return "nonnil"
		}
	case *ssa.TypeAssert:
		if !y.CommaOk {
			return s.val(c, y.X, depth+1)
		}
	}
	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isConstV(a AVal) bool { return strings.HasPrefix(string(a), "c:") || a == "true" || a == "false" }

// foldInt folds small counters kept in local variables; larger values are not distinguished.
func foldInt(y *ssa.BinOp, a, b AVal) AVal {
	if !strings.HasPrefix(string(a), "c:") || !strings.HasPrefix(string(b), "c:") {
		return ""
	}
	m, err1 := strconv.Atoi(string(a[2:]))
	n, err2 := strconv.Atoi(string(b[2:]))
	if err1 != nil || err2 != nil {
		return ""
	}
	r := false
	switch y.Op {
	case token.ADD:
		if u, ok := y.X.(*ssa.UnOp); ok && u.Op == token.MUL && m+n <= 2 {
			return AVal(fmt.Sprintf("c:%d", m+n))
		}
		return ""
	case token.LSS:
		r = m < n
	case token.LEQ:
		r = m <= n
	case token.GTR:
		r = m > n
	case token.GEQ:
		r = m >= n
	default:
		return ""
	}
	if r {
		return "true"
	}
	return "false"
}

func constVal(k *ssa.Const) AVal {
	if k.Value == nil {
		if isNilable(k.Type()) {
			return "nil"
		}
		return ""
	}
	s := k.Value.ExactString()
	if s == "true" || s == "false" {
		return AVal(s)
	}
	return AVal("c:" + s)
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

var nonNilResult = map[string]bool{
	"fmt.Errorf": true, "errors.New": true,
	"errors.NewNotFound": true, "errors.NewBadRequest": true, "errors.NewInternalError": true, "errors.NewAlreadyExists": true,
	"errors.NewServiceUnavailable": true, "errors.NewConflict": true, "errors.NewMethodNotSupported": true, "errors.NewInvalid": true,
	"errors.NewForbidden": true, "errors.NewUnauthorized": true, "errors.NewGone": true,
}

// predicates on an error that are only true of a non-nil error
var errPredicates = map[string]bool{
	"errors.IsNotFound": true, "errors.IsAlreadyExists": true, "errors.IsConflict": true, "errors.Is": true, "errors.As": true,
	"errors.IsInvalid": true, "errors.IsForbidden": true, "errors.IsGone": true, "errors.IsTimeout": true,
}

func (s *St) set(c *Ctx, v ssa.Value, a AVal) {
	if a == "" {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	// record on the value itself and on what it stands for
	s.env[envKey{c.id, v, 0}] = a
	if cc, w := s.x.R.norm(c, v); w != v || cc != c {
		if _, ok := w.(*ssa.Const); !ok {
			s.env[envKey{cc.id, w, 0}] = a
		}
	}
	if e, ok := v.(*ssa.Extract); ok {
		s.env[envKey{c.id, e.Tuple, e.Index + 1}] = a
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		cc, p := s.x.R.norm(c, u.X)
		if al, ok := p.(*ssa.Alloc); ok {
			s.env[envKey{cc.id, al, -1}] = a
		}
	}
}

// assume records that cond has the given truth value.
func (s *St) assume(c *Ctx, cond ssa.Value, truth bool, depth int) {
	if depth > 10 {
		return
	}
	tv := AVal("false")
	if truth {
		tv = "true"
	}
	switch y := cond.(type) {
	case *ssa.Phi:
		if s.x.rule.Flow {
			if cc, w := s.RootIn(c, y); w != ssa.Value(y) {
				s.assume(cc, w, truth, depth+1)
			}
		}
	case *ssa.UnOp:
		if y.Op == token.NOT {
			s.assume(c, y.X, !truth, depth+1)
		}
	case *ssa.BinOp:
		if y.Op == token.EQL || y.Op == token.NEQ {
			eq := (y.Op == token.EQL) == truth
			s.refineEq(c, y.X, y.Y, eq)
			s.refineEq(c, y.Y, y.X, eq)
		}
	case *ssa.Call:
		n := s.x.R.calleeName(c, y.Common())
		if truth && errPredicates[n] && len(y.Common().Args) > 0 {
			s.set(c, y.Common().Args[0], "nonnil")
		}
	}
	s.set(c, cond, tv)
}

func (s *St) refineEq(c *Ctx, a, b ssa.Value, eq bool) {
	bv := s.Val(c, b)
	if bv == "" {
		return
	}
	if eq {
		if s.Val(c, a) == "" || bv != "nonnil" {
			if bv != "nonnil" {
				s.set(c, a, bv)
			}
		}
		return
	}
	switch bv {
	case "nil":
		s.set(c, a, "nonnil")
	case "true":
		s.set(c, a, "false")
	case "false":
		s.set(c, a, "true")
	}
}

func (s *St) note(in ssa.Instruction, what string) {
	s.path = &pathNode{prev: s.path, pos: instrPos(in), what: what}
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common().Pos()
	}
	// nearest positioned instruction of the block
	if b := in.Block(); b != nil {
		for _, y := range b.Instrs {
			if y.Pos().IsValid() {
				return y.Pos()
			}
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}

func (x *Explorer) step(s *St) {
	for {
		if s.Stop {
			return
		}
		if s.Idx >= len(s.Block.Instrs) {
			return
		}
		in := s.Block.Instrs[s.Idx]
		// a (re)definition invalidates what was known
		if _, phi := in.(*ssa.Phi); phi && s.Pred != nil {
			// a merge may keep its value
		} else if v, ok := in.(ssa.Value); ok {
			delete(s.env, envKey{s.Ctx.id, v, 0})
			switch tp := v.Type().(type) {
			case *types.Tuple:
				for i := 0; i < tp.Len(); i++ {
					delete(s.env, envKey{s.Ctx.id, v, i + 1})
				}
			}
			if al, ok := in.(*ssa.Alloc); ok {
				delete(s.env, envKey{s.Ctx.id, al, -1})
			}
			if x.rule.Flow {
				s.forgetFlow(v)
			}
		}
		switch y := in.(type) {
		case *ssa.Phi:
			// resolve all phis of the block simultaneously
			if s.Pred != nil {
				pi := -1
				for i, p := range s.Block.Preds {
					if p == s.Pred {
						pi = i
					}
				}
				type upd struct {
					p    *ssa.Phi
					a, f AVal
				}
				var ups []upd
				j := s.Idx
				for ; j < len(s.Block.Instrs); j++ {
					p, ok := s.Block.Instrs[j].(*ssa.Phi)
					if !ok {
						break
					}
					var a, f AVal
					if pi >= 0 && p.Edges[pi] == ssa.Value(p) {
						continue
					}
					if pi >= 0 && !induction(p) { // any number of iterations may have been made
						a = s.Val(s.Ctx, p.Edges[pi])
						f = s.flowOf(s.Ctx, p.Edges[pi])
					}
					ups = append(ups, upd{p, a, f})
				}
				for _, u := range ups {
					delete(s.env, envKey{s.Ctx.id, u.p, 0})
					if x.rule.Flow {
						s.forgetFlow(u.p)
					}
					if u.f != "" {
						s.env[envKey{s.Ctx.id, u.p, flowIdx}] = u.f
					}
					if u.a != "" {
						s.env[envKey{s.Ctx.id, u.p, 0}] = u.a
					}
				}
				if x.rule.Instr != nil {
					for k := s.Idx; k < j; k++ {
						x.rule.Instr(s, s.Block.Instrs[k])
					}
				}
				s.Idx = j
				continue
			}
			s.Idx++
			continue

		case *ssa.If:
			known := s.Val(s.Ctx, y.Cond)
			for i, succ := range s.Block.Succs {
				truth := i == 0
				if known == "true" && !truth || known == "false" && truth {
					continue
				}
				n := s.clone()
				n.assume(n.Ctx, y.Cond, truth, 0)
				n.path = &pathNode{prev: s.path, pos: condPos(y), what: fmt.Sprintf("%v", truth)}
				if x.rule.Edge != nil {
					x.rule.Edge(n, y.Cond, truth)
					if !n.Stop {
						x.implied(n, y.Cond, truth, known == "", 0)
					}
				}
				if n.Stop {
					continue
				}
				n.Pred, n.Block, n.Idx = s.Block, succ, 0
				x.push(n)
			}
			return

		case *ssa.Jump:
			s.Pred, s.Block, s.Idx = s.Block, s.Block.Succs[0], 0
			x.push(s)
			return

		case *ssa.Return:
			if s.Ctx.site == nil {
				if x.rule.Exit != nil {
					x.rule.Exit(s, y)
				}
				return
			}
			if x.rule.Leave != nil {
				x.rule.Leave(s, y)
				if s.Stop {
					return
				}
			}
			if site := searchSite(s.Ctx); site != nil {
				x.searchRet(s, y, site)
				return
			}
			x.ret(s, y)
			x.push(s)
			return

		case *ssa.Panic:
			if x.rule.Panic != nil {
				x.rule.Panic(s, y)
			}
			return

		case *ssa.Defer:
			k := fmt.Sprintf("%p|%d|%p", s.defers, s.Ctx.id, y)
			d := x.dmap[k]
			if d == nil {
				// bound the defer stack in loops
				cnt := 0
				for q := s.defers; q != nil; q = q.prev {
					if q.d == y && q.ctx == s.Ctx {
						cnt++
					}
				}
				if cnt >= 1 {
					s.Idx++
					continue
				}
				x.dn++
				d = &deferNode{prev: s.defers, ctx: s.Ctx, d: y, id: x.dn}
				x.dmap[k] = d
			}
			s.defers = d
			if x.rule.Instr != nil {
				x.rule.Instr(s, in)
			}
			s.Idx++
			continue

		case *ssa.RunDefers:
			if s.defers != nil && s.defers.ctx == s.Ctx {
				d := s.defers
				s.defers = d.prev
				if x.call(s, d.d, in) {
					return
				}
				continue // run the next deferred call
			}
			s.Idx++
			continue

		case *ssa.Call:
			if x.call(s, y, nil) {
				return
			}
			continue

		case *ssa.Store:
			cc, p := x.R.norm(s.Ctx, y.Addr)
			if x.rule.Flow {
				s.storeField(cc, p, y.Val)
			}
			if al, ok := p.(*ssa.Alloc); ok && singleStore(al) == nil {
				k := envKey{cc.id, al, -1}
				delete(s.env, k)
				if a := s.Val(s.Ctx, y.Val); a != "" {
					s.env[k] = a
				}
				if f := s.flowOf(s.Ctx, y.Val); f != "" {
					s.env[envKey{cc.id, al, contIdx}] = f
				}
			}
			if x.rule.Instr != nil {
				x.rule.Instr(s, in)
			}
			s.Idx++
			continue

		default:
			if x.rule.Instr != nil {
				x.rule.Instr(s, in)
			}
			if ex, ok := in.(*ssa.Extract); ok && x.rule.Flow {
				if f := s.env[envKey{s.Ctx.id, ex.Tuple, -(10 + ex.Index)}]; f != "" {
					s.env[envKey{s.Ctx.id, ex, flowIdx}] = f
				}
			}
			if fd, ok := in.(*ssa.Field); ok && x.rule.Flow {
				if f := s.fieldIn(s.Ctx, fd.X, fd.Field); f != "" {
					s.env[envKey{s.Ctx.id, fd, flowIdx}] = f
				}
			}
			// remember abstract values that come from a tracked local
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if x.rule.Flow {
					if cc, p := x.R.norm(s.Ctx, u.X); p != nil {
						if al, ok := p.(*ssa.Alloc); ok {
							if s.loadStruct(cc, al, u) {
								// a struct with fields of its own
							} else if f := s.env[envKey{cc.id, al, contIdx}]; f != "" {
								s.env[envKey{s.Ctx.id, u, flowIdx}] = f
							}
						} else if fa, ok := p.(*ssa.FieldAddr); ok {
							if f := s.fieldIn(cc, fa.X, fa.Field); f != "" {
								s.env[envKey{s.Ctx.id, u, flowIdx}] = f
							}
						}
					}
				}
				if a := s.Val(s.Ctx, u); a != "" && (a == "nil" || a == "nonnil" || isConstV(a)) {
					s.env[envKey{s.Ctx.id, u, 0}] = a
				}
			}
			s.Idx++
			continue
		}
	}
}

func condPos(i *ssa.If) token.Pos {
	if i.Cond.Pos().IsValid() {
		return i.Cond.Pos()
	}
	return instrPos(i)
}

// call executes a call; it reports whether the state was handed to the worklist.
func (x *Explorer) call(s *St, ci ssa.CallInstruction, resume ssa.Instruction) bool {
	com := ci.Common()
	name := x.R.calleeName(s.Ctx, com)
	if tg := x.R.callee(s.Ctx, com); tg != nil && strings.HasPrefix(tg.fn.Synthetic, "bound method wrapper") && tg.fn.Blocks != nil && tg.mc != nil && !s.Ctx.onStack(tg.fn) {
		x.enter(s, ci, resume, tg) // a method value: its body calls the method on the bound receiver
		return true
	}
	if x.rule.Call != nil {
		x.rule.Call(s, ci, name)
		if s.Stop {
			return true
		}
	}
	if noReturn[name] {
		return true
	}
	tg := x.R.callee(s.Ctx, com)
	if tg != nil && tg.fn.Blocks != nil && inModuleOrWrapper(tg.fn) && s.Ctx.depth < x.rule.MaxDepth && !s.Ctx.onStack(tg.fn) {
		if x.rule.Inline == nil || x.rule.Inline(s, ci, tg.fn) {
			x.enter(s, ci, resume, tg)
			return true
		}
	}
	if y, ok := ci.(*ssa.Call); ok && resume == nil && searchHOF[name] && len(com.Args) == 2 {
		t := x.R.funcValue(s.Ctx, com.Args[1])
		if t != nil && t.fn.Blocks != nil && inModule(t.fn) && s.Ctx.depth < x.rule.MaxDepth && !s.Ctx.onStack(t.fn) && (x.rule.Inline == nil || x.rule.Inline(s, ci, t.fn)) {
			n := s.clone()
			if x.rule.Edge != nil {
				x.rule.Edge(n, searchLoop{y}, false)
			}
			x.found(n, y, false)
			if x.rule.Edge != nil {
				x.rule.Edge(s, searchLoop{y}, true)
			}
			if !s.Stop {
				x.enter(s, ci, nil, t)
			}
			return true
		}
	}
	// external higher-order function: run its callback once
	if syncHOF[name] {
		for _, a := range com.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			t := x.R.funcValue(s.Ctx, a)
			if t != nil && t.fn.Blocks != nil && inModule(t.fn) && s.Ctx.depth < x.rule.MaxDepth && !s.Ctx.onStack(t.fn) {
				if x.rule.Inline == nil || x.rule.Inline(s, ci, t.fn) {
					// the callback's error becomes the call's error (retry.*); others return nothing of interest
					x.enter(s, ci, resume, t)
					return true
				}
			}
		}
	}
	x.havoc(s, com)
	if x.rule.AfterCall != nil {
		x.rule.AfterCall(s, ci, name)
		if s.Stop {
			return true
		}
	}
	if resume == nil {
		s.Idx++
	}
	return false
}

// found continues after a search.
func (x *Explorer) found(s *St, y *ssa.Call, ok bool) {
	if s.Stop {
		return
	}
	s.Pred, s.Block, s.Idx = nil, y.Block(), instrIndex(y)+1
	r := AVal(fmt.Sprint(ok))
	if x.R.calleeName(s.Ctx, y.Common()) == "slices.IndexFunc" {
		r = map[bool]AVal{true: "c:0", false: "c:-1"}[ok]
	}
	s.env[envKey{s.Ctx.id, y, 0}] = r
	if x.rule.AfterCall != nil {
		x.rule.AfterCall(s, y, x.R.calleeName(s.Ctx, y.Common()))
	}
	if !s.Stop {
		x.push(s)
	}
}

// searchRet: the predicate of a search returns: the search ends or goes on.
func (x *Explorer) searchRet(s *St, ret *ssa.Return, site *ssa.Call) {
	known := s.Val(s.Ctx, ret.Results[0])
	for _, truth := range []bool{true, false} {
		if known == "true" && !truth || known == "false" && truth {
			continue
		}
		n := s.clone()
		if known == "" {
			n.assume(n.Ctx, ret.Results[0], truth, 0)
			n.path = &pathNode{prev: s.path, pos: instrPos(ret), what: fmt.Sprintf("%v", truth)}
			if x.rule.Edge != nil {
				x.rule.Edge(n, ret.Results[0], truth)
				if !n.Stop {
					x.implied(n, ret.Results[0], truth, true, 0)
				}
			}
			if n.Stop {
				continue
			}
		}
		c := n.Ctx
		for k := range n.env {
			if k.ctx == c.id && k.i != labIdx && k.i > fieldIdx {
				delete(n.env, k)
			}
		}
		for n.defers != nil && n.defers.ctx == c {
			n.defers = n.defers.prev
		}
		n.Ctx = c.parent
		if truth {
			x.found(n, site, true)
			continue
		}
		n.Pred, n.Block, n.Idx = nil, site.Block(), instrIndex(site)
		x.push(n)
	}
}

func inModuleOrWrapper(f *ssa.Function) bool { return inModule(f) }

// havoc forgets local variables whose address escapes into the call.
func (x *Explorer) havoc(s *St, com *ssa.CallCommon) {
	for _, a := range callArgs(com) {
		cc, p := x.R.norm(s.Ctx, a)
		if al, ok := p.(*ssa.Alloc); ok {
			delete(s.env, envKey{cc.id, al, -1})
			delete(s.env, envKey{cc.id, al, contIdx})
			s.dropFields(cc, al)
		}
	}
}

func (x *Explorer) enter(s *St, ci ssa.CallInstruction, resume ssa.Instruction, tg *target) {
	c := x.R.ctx(s.Ctx, ci, resume, tg.fn, tg.mc, tg.mcCtx)
	x.Funcs[tg.fn] = true
	s.Ctx = c
	s.Pred = nil
	s.Block = tg.fn.Blocks[0]
	s.Idx = 0
	x.push(s)
}

// isFlow: the entry tells what a value stands for on the path.
func isFlow(i int) bool { return i == flowIdx || i <= -10 && i > -20 }

var operandCache = map[ssa.Value]map[ssa.Value]bool{}

// operandsOf: the values v is computed from, in its function.
func operandsOf(v ssa.Value) map[ssa.Value]bool {
	if m := operandCache[v]; m != nil {
		return m
	}
	m := map[ssa.Value]bool{}
	operandCache[v] = m
	st := []ssa.Value{v}
	for len(st) > 0 {
		w := st[len(st)-1]
		st = st[:len(st)-1]
		in, ok := w.(ssa.Instruction)
		if m[w] || !ok {
			continue
		}
		m[w] = true
		for _, op := range in.Operands(nil) {
			if *op != nil {
				st = append(st, *op)
			}
		}
	}
	return m
}

// madeOf: one of the results was computed from v.
func (x *Explorer) madeOf(s *St, c *Ctx, flows []AVal, v ssa.Value) bool {
	for _, f := range flows {
		if f == "" || f[0] != 'v' {
			continue
		}
		rc, rv := s.root(f)
		for rc != nil && rc != c && rc.parent != nil {
			// by a helper, from what it was given
			call, ok := rc.site.(*ssa.Call)
			if !ok {
				break
			}
			rc, rv = rc.parent, call
		}
		if rc == c && operandsOf(rv)[v] {
			return true
		}
	}
	return false
}

// ret binds results and resumes the caller.
func (x *Explorer) ret(s *St, y *ssa.Return) {
	c := s.Ctx
	vals := make([]AVal, len(y.Results))
	flows := make([]AVal, len(y.Results))
	for i, v := range y.Results {
		vals[i] = s.Val(c, v)
		flows[i] = s.flowOf(c, v)
	}
	// drop what was known inside the callee, except for what the results were made of
	for k := range s.env {
		if k.ctx == c.id && k.i != labIdx && k.i > fieldIdx {
			if isFlow(k.i) && (x.rule.Keep || x.madeOf(s, c, flows, k.v)) {
				continue
			}
			delete(s.env, k)
		}
	}
	for s.defers != nil && s.defers.ctx == c {
		s.defers = s.defers.prev
	}
	site := c.site
	s.Ctx = c.parent
	s.Pred = nil
	if c.resume != nil {
		s.Block = c.resume.Block()
		s.Idx = instrIndex(c.resume) // run remaining defers
	} else {
		s.Block = site.Block()
		s.Idx = instrIndex(site) + 1
		if v := site.Value(); v != nil {
			nres := site.Common().Signature().Results().Len()
			if hof := syncHOF[x.R.calleeName(s.Ctx, site.Common())]; nres == len(vals) && (!hof || errResult(site.Common().Signature()) >= 0) {
				for i, f := range flows {
					if f == "" {
						continue
					}
					if nres == 1 {
						s.env[envKey{s.Ctx.id, v, flowIdx}] = f
					} else {
						s.env[envKey{s.Ctx.id, v, -(10 + i)}] = f
					}
				}
				if nres == 1 {
					if vals[0] != "" {
						s.env[envKey{s.Ctx.id, v, 0}] = vals[0]
					}
				} else {
					for i, a := range vals {
						if a != "" {
							s.env[envKey{s.Ctx.id, v, i + 1}] = a
						}
					}
				}
			}
		}
	}
	if x.rule.AfterCall != nil {
		x.rule.AfterCall(s, site, x.R.calleeName(s.Ctx, site.Common()))
	}
}

// ---- helpers for rules ----

func (s *St) T(v ssa.Value) *Term { return s.x.R.T(s.Ctx, v) }

// RetVal gives the abstract value of result i of a return.
func (s *St) RetVal(ret *ssa.Return, i int) AVal {
	if i < 0 {
		i += len(ret.Results)
	}
	if i < 0 || i >= len(ret.Results) {
		return ""
	}
	return s.Val(s.Ctx, ret.Results[i])
}

// RetT is the term of result i of a return; in a function with deferred calls the results go
// through local variables, and the value stored on this path is meant.
func (s *St) RetT(ret *ssa.Return, i int) *Term {
	v := ret.Results[i]
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			b := ret.Block()
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				if st, ok := b.Instrs[j].(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					return s.T(st.Val)
				}
			}
		}
	}
	return s.T(v)
}

// alwaysNonNil: a function of the program whose last result is never nil (an error constructor).
func (x *Explorer) alwaysNonNil(f *ssa.Function, depth int) bool {
	if f == nil || len(f.Blocks) == 0 || depth > 4 || f.Signature.Results().Len() == 0 {
		return false
	}
	if r, ok := x.nonNil[f]; ok {
		return r
	}
	if x.nonNil == nil {
		x.nonNil = map[*ssa.Function]bool{}
	}
	x.nonNil[f] = false
	rets := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover {
			continue
		}
		rets++
		v := ret.Results[len(ret.Results)-1]
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			// results of functions with deferred calls are reloaded after these have run
			if al, ok := u.X.(*ssa.Alloc); ok && !al.Heap {
				for j := len(b.Instrs) - 1; j >= 0; j-- {
					if st, ok := b.Instrs[j].(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						v = st.Val
						break
					}
				}
			}
		}
		for {
			if mi, ok := v.(*ssa.ChangeInterface); ok {
				v = mi.X
				continue
			}
			break
		}
		switch y := v.(type) {
		case *ssa.MakeInterface:
		case *ssa.Call:
			if nonNilResult[calleeName(y.Common())] {
				continue
			}
			if !x.alwaysNonNil(y.Common().StaticCallee(), depth+1) {
				return false
			}
		default:
			return false
		}
	}
	x.nonNil[f] = rets > 0
	return rets > 0
}

// Trace renders the decisions of the path.
func (s *St) Trace() string {
	var p []string
	for n := s.path; n != nil; n = n.prev {
		if n.pos.IsValid() {
			pos := s.x.pr.Fset.Position(n.pos)
			p = append(p, fmt.Sprintf("%s:%d=%s", shortFile(pos.Filename), pos.Line, n.what))
		}
	}
	// newest first; keep the last dozen in order
	if len(p) > 14 {
		p = p[:14]
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return strings.Join(p, " ")
}

func shortFile(f string) string { return strings.TrimPrefix(f, repoDir+"/") }

func (pr *Program) pos(p token.Pos) string {
	q := pr.Fset.Position(p)
	return fmt.Sprintf("%s:%d", shortFile(q.Filename), q.Line)
}

func (pr *Program) at(in ssa.Instruction) string { return pr.pos(instrPos(in)) }

// implied reports the condition behind a branch condition: the operand of a negation, and, when the
// value was not decided by the path already, the only non-constant value a merged boolean (or the
// result of an inlined predicate) can have.
func (x *Explorer) implied(s *St, cond ssa.Value, taken, undecided bool, depth int) {
	if depth > 6 {
		return
	}
	ctx := s.Ctx
	defer func() { s.Ctx = ctx }()
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		x.rule.Edge(s, u.X, !taken)
		if !s.Stop {
			x.implied(s, u.X, !taken, undecided, depth+1)
		}
		return
	}
	switch cond.(type) {
	case *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.Parameter, *ssa.UnOp:
	default:
		return
	}
	if !undecided {
		return
	}
	var only *Term
	for _, a := range x.R.T(s.Ctx, cond).Alts() {
		if a.Op == "const" {
			continue
		}
		if only != nil {
			return
		}
		only = a
	}
	if only == nil || only.V == nil || only.V == cond || only.Ctx == nil {
		return
	}
	if _, ok := only.V.(ssa.Instruction); !ok {
		return
	}
	if b, ok := only.V.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return
	}
	s.Ctx = only.Ctx
	x.rule.Edge(s, only.V, taken)
	if !s.Stop {
		x.implied(s, only.V, taken, true, depth+1)
	}
}

// noReturn: calls that end the process or the goroutine.
var noReturn = map[string]bool{"os.Exit": true, "runtime.Goexit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true}
