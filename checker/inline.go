package main

import (
	_ "embed"
	"go/constant"
	"go/token"
	"reflect"
	"slices"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Helpers that were split off a function of the original repository are put back before anything is
// analysed: the body of a function that does not exist there (it is not in vocabulary.txt) and that is
// only ever called directly is moved (copied, if there are several call sites) to the places it is called
// from. What is left has the same effects and values, seen as if it were written in one piece. Nothing is
// moved on a tree without new functions.

//go:embed vocabulary.txt
var vocabularyTxt string

func (pr *Program) vocabulary() []string {
	var r []string
	for _, f := range pr.Funcs {
		if f.Parent() == nil && f.Synthetic == "" {
			r = append(r, f.RelString(nil))
		}
	}
	return r
}

// priv is a settable view on an unexported field of an SSA object.
func priv(x any, names ...string) reflect.Value {
	v := reflect.ValueOf(x).Elem()
	for _, n := range names {
		v = v.FieldByName(n)
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func setBlock(in ssa.Instruction, b *ssa.BasicBlock) {
	priv(in, "block").Set(reflect.ValueOf(b))
}

func (pr *Program) inline() {
	known := map[string]bool{}
	for _, l := range strings.Split(vocabularyTxt, "\n") {
		known[l] = true
	}
	invoked := map[string]bool{}
	for _, f := range pr.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					invoked[c.Common().Method.Name()] = true
				}
			}
		}
	}
	gone := map[*ssa.Function]bool{}
	changed := map[*ssa.Function]bool{}
	for _, g := range pr.Funcs {
		if g.Parent() != nil || g.Synthetic != "" || len(known) < 10 || known[g.RelString(nil)] || pr.addrOf[g] || len(pr.callers[g]) == 0 ||
			g.Signature.TypeParams() != nil || g.Origin() != nil || g.Signature.RecvTypeParams() != nil ||
			g.Signature.Recv() != nil && (g.Object() == nil || g.Object().Exported() || invoked[g.Name()]) {
			continue
		}
		can, onlyLast := movable(g)
		if !can {
			continue
		}
		var sites []*ssa.Call
		ok := true
		for _, f := range pr.Funcs {
			if gone[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, isCall := in.(ssa.CallInstruction)
					if !isCall || c.Common().StaticCallee() != g {
						continue
					}
					call, plain := in.(*ssa.Call)
					if !plain || f == g || within(f, g) || onlyLast && !last(call) {
						ok = false
					} else {
						sites = append(sites, call)
					}
				}
			}
		}
		if !ok || len(sites) == 0 || len(sites) > 1 && len(g.AnonFuncs) > 0 {
			continue
		}
		for i, call := range sites {
			body := g
			if i < len(sites)-1 {
				body = cloneFn(g)
			}
			f := call.Parent()
			splice(call, body)
			changed[f] = true
		}
		gone[g] = true
	}
	for f := range changed {
		if gone[f] {
			continue
		}
		fuse(f)
		finish(f)
		for n := 0; n < 200 && thread(f); n++ {
			fuse(f)
			finish(f)
		}
		tailReturns(f)
		finish(f)
	}
	pr.gone = gone
}

func within(f, g *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if f == g {
			return true
		}
	}
	return false
}

// movable: it can return; a function with deferred calls can only be moved to the end of another one.
func movable(g *ssa.Function) (ok, onlyLast bool) {
	if len(g.FreeVars) > 0 {
		return false, false
	}
	ret, defers := false, g.Recover != nil
	for _, b := range g.Blocks {
		if b == g.Recover {
			continue
		}
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				defers = true
			case *ssa.Return:
				ret = true
			}
		}
	}
	return ret, defers
}

// last: nothing happens in the function after the call (but for deferred calls).
func last(call *ssa.Call) bool {
	b := call.Block()
	after := false
	for n := 0; n < 5; n++ {
		for _, in := range b.Instrs {
			if in == ssa.Instruction(call) {
				after = true
				continue
			}
			if !after {
				continue
			}
			switch y := in.(type) {
			case *ssa.Return:
				return true
			case *ssa.Extract, *ssa.RunDefers, *ssa.Jump:
			case *ssa.Store:
				if _, ok := y.Addr.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.UnOp:
				if _, ok := y.X.(*ssa.Alloc); !ok {
					return false
				}
			default:
				return false
			}
		}
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return false
}

// completeBefore: the variable is only used in the block of the load, before it.
func completeBefore(v ssa.Value, ld ssa.Instruction) bool {
	pos := func(x ssa.Instruction) int { return slices.Index(x.Block().Instrs, x) }
	for _, r := range *v.Referrers() {
		if r == ld {
			continue
		}
		if r.Block() != ld.Block() || pos(r) > pos(ld) {
			return false
		}
		switch y := r.(type) {
		case *ssa.FieldAddr:
			if !completeBefore(y, ld) {
				return false
			}
		case *ssa.Store:
			if y.Val == v {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// takeOver: the argument is the content of a local variable that is not used any more, and the function
// keeps it in a variable of its own: the two are the same.
func takeOver(call *ssa.Call, f *ssa.Function, arg ssa.Value, p *ssa.Parameter) {
	ld, ok := arg.(*ssa.UnOp)
	if !ok || len(*ld.Referrers()) != 1 || len(*p.Referrers()) != 1 || !last(call) {
		return
	}
	from, ok := ld.X.(*ssa.Alloc)
	st, isStore := (*p.Referrers())[0].(*ssa.Store)
	if !ok || !isStore || st.Val != ssa.Value(p) {
		return
	}
	to, ok := st.Addr.(*ssa.Alloc)
	if !ok || to.Block() != st.Block() || ld.Block() != call.Block() && !completeBefore(from, ld) {
		return
	}
	unrefer(to, st)
	unrefer(p, st)
	unrefer(ld.X, ld)
	unrefer(ld, call)
	st.Block().Instrs = without(st.Block().Instrs, st)
	to.Block().Instrs = without(to.Block().Instrs, to)
	ld.Block().Instrs = without(ld.Block().Instrs, ld)
	for i, l := range f.Locals {
		if l == to {
			f.Locals = append(f.Locals[:i:i], f.Locals[i+1:]...)
			break
		}
	}
	replace(to, from)
}

// splice moves the blocks of g to the place of the call.
func splice(call *ssa.Call, g *ssa.Function) {
	f := call.Parent()
	b := call.Block()
	for i, p := range g.Params {
		takeOver(call, g, call.Call.Args[i], p)
	}
	at := -1
	for i, in := range b.Instrs {
		if in == ssa.Instruction(call) {
			at = i
		}
	}
	rest := &ssa.BasicBlock{Comment: b.Comment + ".rest"}
	rest.Instrs = append([]ssa.Instruction{}, b.Instrs[at+1:]...)
	for _, in := range rest.Instrs {
		setBlock(in, rest)
	}
	rest.Succs = b.Succs
	for _, s := range rest.Succs {
		for i, p := range s.Preds {
			if p == b {
				s.Preds[i] = rest
			}
		}
	}
	b.Instrs = append([]ssa.Instruction{}, b.Instrs[:at]...)
	for _, a := range call.Call.Args {
		unrefer(a, call)
	}
	for i, p := range g.Params {
		replace(p, call.Call.Args[i])
	}

	entry := g.Blocks[0]
	jump := &ssa.Jump{}
	setBlock(jump, b)
	b.Instrs = append(b.Instrs, jump)
	b.Succs = []*ssa.BasicBlock{entry}
	entry.Preds = append(entry.Preds, b)

	n := g.Signature.Results().Len()
	results := make([][]ssa.Value, n)
	for _, gb := range g.Blocks {
		ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return)
		if !ok || gb == g.Recover {
			continue
		}
		for i, v := range ret.Results {
			unrefer(v, ret)
			results[i] = append(results[i], v)
		}
		j := &ssa.Jump{}
		setBlock(j, gb)
		gb.Instrs[len(gb.Instrs)-1] = j
		gb.Succs = []*ssa.BasicBlock{rest}
		rest.Preds = append(rest.Preds, gb)
	}
	vals := make([]ssa.Value, n)
	var phis []ssa.Instruction
	for i := range vals {
		if len(rest.Preds) == 1 {
			vals[i] = results[i][0]
			continue
		}
		phi := &ssa.Phi{Comment: "result", Edges: results[i]}
		setBlock(phi, rest)
		priv(phi, "register", "typ").Set(reflect.ValueOf(g.Signature.Results().At(i).Type()))
		priv(phi, "register", "pos").Set(reflect.ValueOf(call.Pos()))
		for _, e := range phi.Edges {
			refer(e, phi)
		}
		vals[i] = phi
		phis = append(phis, phi)
	}
	rest.Instrs = append(phis, rest.Instrs...)
	if n == 1 {
		replace(call, vals[0])
	} else {
		for _, r := range append([]ssa.Instruction{}, *call.Referrers()...) {
			if x, ok := r.(*ssa.Extract); ok {
				replace(x, vals[x.Index])
				x.Block().Instrs = without(x.Block().Instrs, x)
			}
		}
	}

	if g.Recover != nil && f.Recover == nil {
		f.Recover = g.Recover
	} else if g.Recover != nil {
		g.Blocks = slices.DeleteFunc(g.Blocks, func(x *ssa.BasicBlock) bool { return x == g.Recover })
	}
	var blocks []*ssa.BasicBlock
	for _, x := range f.Blocks {
		blocks = append(blocks, x)
		if x == b {
			blocks = append(append(blocks, g.Blocks...), rest)
		}
	}
	f.Blocks = blocks
	f.Locals = append(f.Locals, g.Locals...)
	for _, a := range g.AnonFuncs {
		priv(a, "parent").Set(reflect.ValueOf(f))
		priv(a, "anonIdx").SetInt(int64(len(f.AnonFuncs)))
		f.AnonFuncs = append(f.AnonFuncs, a)
	}
	renumber(f)
}

func without(l []ssa.Instruction, x ssa.Instruction) []ssa.Instruction {
	var r []ssa.Instruction
	for _, in := range l {
		if in != x {
			r = append(r, in)
		}
	}
	return r
}

func renumber(f *ssa.Function) {
	num := 0
	for i, b := range f.Blocks {
		b.Index = i
		priv(b, "parent").Set(reflect.ValueOf(f))
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				priv(v, "register", "num").SetInt(int64(num))
				num++
			}
		}
	}
}

// fuse joins a block and its only successor, if it is the only predecessor of that.
func fuse(f *ssa.Function) {
	for again := true; again; {
		again = false
		for _, a := range f.Blocks {
			if len(a.Succs) != 1 || len(a.Instrs) == 0 {
				continue
			}
			b := a.Succs[0]
			if _, isJump := a.Instrs[len(a.Instrs)-1].(*ssa.Jump); !isJump || len(b.Preds) != 1 || a == b || b == f.Blocks[0] || f.Recover == b {
				continue
			}
			var body []ssa.Instruction
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					unrefer(phi.Edges[0], phi)
					replace(phi, phi.Edges[0])
					continue
				}
				setBlock(in, a)
				body = append(body, in)
			}
			a.Instrs = append(a.Instrs[:len(a.Instrs)-1:len(a.Instrs)-1], body...)
			a.Succs = b.Succs
			for _, s := range a.Succs {
				for i, p := range s.Preds {
					if p == b {
						s.Preds[i] = a
					}
				}
			}
			var blocks []*ssa.BasicBlock
			for _, x := range f.Blocks {
				if x != b {
					blocks = append(blocks, x)
				}
			}
			f.Blocks = blocks
			again = true
			break
		}
	}
	renumber(f)
}

// tailReturns gives every predecessor of a block that only returns merged values a return of its own.
func tailReturns(f *ssa.Function) {
	var blocks []*ssa.BasicBlock
	for _, b := range f.Blocks {
		ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		ok := isRet && b != f.Recover && len(b.Preds) > 1 && b != f.Blocks[0] && len(b.Instrs) > 1
		phis := map[ssa.Value]*ssa.Phi{}
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			phi, isPhi := in.(*ssa.Phi)
			if !isPhi || phi.Comment != "result" {
				ok = false
				continue
			}
			phis[phi] = phi
			for _, r := range *phi.Referrers() {
				if r != ssa.Instruction(ret) {
					ok = false
				}
			}
		}
		for _, p := range b.Preds {
			if _, isJump := p.Instrs[len(p.Instrs)-1].(*ssa.Jump); !isJump {
				ok = false
			}
		}
		if !ok {
			blocks = append(blocks, b)
			continue
		}
		for i, p := range b.Preds {
			r := &ssa.Return{}
			priv(r, "pos").Set(reflect.ValueOf(ret.Pos()))
			setBlock(r, p)
			for _, v := range ret.Results {
				if phi := phis[v]; phi != nil {
					v = phi.Edges[i]
				}
				r.Results = append(r.Results, v)
				refer(v, r)
			}
			p.Instrs[len(p.Instrs)-1] = r
			p.Succs = nil
		}
		for _, v := range ret.Results {
			unrefer(v, ret)
		}
		for _, phi := range phis {
			for _, e := range phi.Edges {
				unrefer(e, phi)
			}
		}
	}
	f.Blocks = blocks
	renumber(f)
}

// finish computes the dominator tree anew.
func finish(f *ssa.Function) {
	n := len(f.Blocks)
	var post []*ssa.BasicBlock
	seen := make([]bool, n)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	if f.Recover != nil && !seen[f.Recover.Index] {
		dfs(f.Recover)
	}
	order := make([]int, n)
	for i, b := range post {
		order[b.Index] = i
	}
	idom := make([]*ssa.BasicBlock, n)
	root := f.Blocks[0]
	idom[root.Index] = root
	if f.Recover != nil {
		idom[f.Recover.Index] = f.Recover
	}
	for again := true; again; {
		again = false
		for i := len(post) - 1; i >= 0; i-- {
			b := post[i]
			if b == root || b == f.Recover {
				continue
			}
			var d *ssa.BasicBlock
			for _, p := range b.Preds {
				if !seen[p.Index] || idom[p.Index] == nil {
					continue
				}
				if d == nil {
					d = p
					continue
				}
				x, y := p, d
				for x != y {
					for order[x.Index] < order[y.Index] && idom[x.Index] != x {
						x = idom[x.Index]
					}
					for order[y.Index] < order[x.Index] && idom[y.Index] != y {
						y = idom[y.Index]
					}
					if x != y && (idom[x.Index] == x || idom[y.Index] == y) {
						break
					}
				}
				d = x
			}
			if idom[b.Index] != d {
				idom[b.Index] = d
				again = true
			}
		}
	}
	children := make([][]*ssa.BasicBlock, n)
	for _, b := range f.Blocks {
		if d := idom[b.Index]; d != nil && d != b {
			children[d.Index] = append(children[d.Index], b)
		}
	}
	var pre, pst int32
	var number func(b *ssa.BasicBlock)
	number = func(b *ssa.BasicBlock) {
		priv(b, "dom", "pre").SetInt(int64(pre))
		pre++
		for _, c := range children[b.Index] {
			number(c)
		}
		priv(b, "dom", "post").SetInt(int64(pst))
		pst++
		priv(b, "dom", "children").Set(reflect.ValueOf(children[b.Index]))
		d := idom[b.Index]
		if d == b {
			d = nil
		}
		priv(b, "dom", "idom").Set(reflect.ValueOf(d))
	}
	number(root)
	if f.Recover != nil && f.Recover != root {
		number(f.Recover)
	}
}

// cloneFn copies the body of a function without closures.
func cloneFn(g *ssa.Function) *ssa.Function {
	f := new(ssa.Function)
	f.Signature = g.Signature
	vals := map[ssa.Value]ssa.Value{}
	for _, p := range g.Params {
		q := new(ssa.Parameter)
		*q = *p
		priv(q, "referrers").SetZero()
		vals[p] = q
		f.Params = append(f.Params, q)
	}
	blocks := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, b := range g.Blocks {
		c := &ssa.BasicBlock{Comment: b.Comment}
		blocks[b] = c
		f.Blocks = append(f.Blocks, c)
		for _, in := range b.Instrs {
			old := reflect.ValueOf(in).Elem()
			nv := reflect.New(old.Type())
			nv.Elem().Set(old)
			ni := nv.Interface().(ssa.Instruction)
			switch y := ni.(type) {
			case *ssa.Phi:
				y.Edges = append([]ssa.Value{}, y.Edges...)
			case *ssa.Call:
				y.Call.Args = append([]ssa.Value{}, y.Call.Args...)
			case *ssa.Go:
				y.Call.Args = append([]ssa.Value{}, y.Call.Args...)
			case *ssa.Return:
				y.Results = append([]ssa.Value{}, y.Results...)
			case *ssa.MakeClosure:
				y.Bindings = append([]ssa.Value{}, y.Bindings...)
			case *ssa.Select:
				var st []*ssa.SelectState
				for _, s := range y.States {
					t := *s
					st = append(st, &t)
				}
				y.States = st
			}
			setBlock(ni, c)
			if v, ok := ni.(ssa.Value); ok {
				priv(v, "register", "referrers").SetZero()
				vals[in.(ssa.Value)] = v
			}
			c.Instrs = append(c.Instrs, ni)
		}
	}
	for _, b := range g.Blocks {
		c := blocks[b]
		for _, s := range b.Succs {
			c.Succs = append(c.Succs, blocks[s])
		}
		for _, s := range b.Preds {
			c.Preds = append(c.Preds, blocks[s])
		}
		for _, in := range c.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if v := vals[*op]; v != nil {
					*op = v
				}
				refer(*op, in)
			}
		}
	}
	f.Recover = blocks[g.Recover]
	for _, l := range g.Locals {
		if v, ok := vals[l].(*ssa.Alloc); ok {
			f.Locals = append(f.Locals, v)
		}
	}
	return f
}

// thread lets every predecessor of a block that merges the results of a moved function and branches on one
// of them branch by itself, where the outcome is usually known: "v, err := helper(); if err != nil" becomes
// the branches the helper was made of.
func thread(f *ssa.Function) bool {
	for _, r := range f.Blocks {
		if threadBlock(f, r) {
			return true
		}
	}
	return false
}

func threadBlock(f *ssa.Function, r *ssa.BasicBlock) bool {
	iff, ok := r.Instrs[len(r.Instrs)-1].(*ssa.If)
	if !ok || len(r.Preds) < 2 || r == f.Blocks[0] {
		return false
	}
	var phis []*ssa.Phi
	var test, vars, sets []ssa.Instruction
	for _, in := range r.Instrs[:len(r.Instrs)-1] {
		switch y := in.(type) {
		case *ssa.Phi:
			if y.Comment != "result" {
				return false
			}
			phis = append(phis, y)
		case *ssa.BinOp, *ssa.UnOp:
			if u, ok := y.(*ssa.UnOp); ok && u.Op != token.NOT {
				return false
			}
			test = append(test, in)
		case *ssa.Alloc:
			if y.Heap && repeats(r) {
				return false
			}
			vars = append(vars, y)
		case *ssa.Store:
			_, toVar := y.Addr.(*ssa.Alloc)
			if phi, ok := y.Val.(*ssa.Phi); !toVar || !ok || phi.Block() != r {
				return false
			}
			sets = append(sets, y)
		default:
			return false
		}
	}
	// the condition is a merged value, its negation or its comparison with a constant
	var on *ssa.Phi
	var cmp *ssa.BinOp
	neg := false
	cond := iff.Cond
	for {
		switch y := cond.(type) {
		case *ssa.Phi:
			on = y
		case *ssa.UnOp:
			if y.Op == token.NOT && y.Block() == r {
				neg, cond = !neg, y.X
				continue
			}
		case *ssa.BinOp:
			if _, isC := y.Y.(*ssa.Const); isC && (y.Op == token.EQL || y.Op == token.NEQ) && y.Block() == r && cmp == nil {
				cmp = y
				if y.Op == token.NEQ {
					neg = !neg
				}
				cond = y.X
				continue
			}
		}
		break
	}
	if on == nil || on.Block() != r || len(test) > 2 {
		return false
	}
	for _, in := range test {
		for _, u := range *in.(ssa.Value).Referrers() {
			if u.Block() != r {
				return false
			}
		}
	}
	if len(sets) > 0 {
		// set the variables in both branches instead of before
		for _, s := range r.Succs {
			if len(s.Preds) != 1 || isPhi(s.Instrs[0]) || s == r {
				return false
			}
		}
		if r.Succs[0] == r.Succs[1] {
			return false
		}
		r.Instrs = slices.DeleteFunc(r.Instrs, func(in ssa.Instruction) bool { return slices.Contains(sets, in) })
		for i, s := range r.Succs {
			var front []ssa.Instruction
			for _, in := range sets {
				st := in.(*ssa.Store)
				if i == 1 {
					c := new(ssa.Store)
					*c = *st
					refer(c.Addr, c)
					refer(c.Val, c)
					st = c
				}
				setBlock(st, s)
				front = append(front, st)
			}
			s.Instrs = append(front, s.Instrs...)
		}
	}
	if len(vars) > 0 {
		r.Instrs = slices.DeleteFunc(r.Instrs, func(in ssa.Instruction) bool { return slices.Contains(vars, in) })
		e := f.Blocks[0]
		for _, in := range vars {
			setBlock(in, e)
		}
		e.Instrs = append(append([]ssa.Instruction{}, vars...), e.Instrs...)
	}
	// every branch is entered from here only, and every use is behind one of them
	side := func(u ssa.Instruction, v ssa.Value) int {
		blocks := []*ssa.BasicBlock{u.Block()}
		if phi, ok := u.(*ssa.Phi); ok {
			blocks = nil
			for i, e := range phi.Edges {
				if e == v {
					blocks = append(blocks, phi.Block().Preds[i])
				}
			}
		}
		at := -1
		for _, b := range blocks {
			now := -1
			for i, s := range r.Succs {
				if s.Dominates(b) {
					now = i
				}
			}
			if now < 0 || at >= 0 && at != now {
				return -1
			}
			at = now
		}
		return at
	}
	if r.Succs[0] == r.Succs[1] {
		return false
	}
	for _, s := range r.Succs {
		if len(s.Preds) != 1 || isPhi(s.Instrs[0]) || s == r {
			return false
		}
	}
	for _, p := range phis {
		for _, e := range p.Edges {
			if q, ok := e.(*ssa.Phi); ok && q.Block() == r {
				return false
			}
		}
	}
	for _, p := range phis {
		for _, u := range *p.Referrers() {
			if u.Block() == r && !isPhi(u) {
				continue
			}
			if side(u, p) < 0 {
				return false
			}
		}
	}

	type edge struct {
		from *ssa.BasicBlock
		i    int // number of the predecessor
	}
	in := [2][]edge{}
	var added []*ssa.BasicBlock
	for i, p := range r.Preds {
		v := on.Edges[i]
		truth := unknown
		if cmp == nil {
			if c, ok := v.(*ssa.Const); ok && c.Value != nil {
				truth = no
				if constant.BoolVal(c.Value) {
					truth = yes
				}
			}
		} else {
			truth = equal(v, cmp.Y.(*ssa.Const), p)
		}
		if neg && truth != unknown {
			truth = yes + no - truth
		}
		from := p
		if last := p.Instrs[len(p.Instrs)-1]; truth == unknown || !isJump(last) {
			// a block of its own
			from = &ssa.BasicBlock{Comment: "branch"}
			priv(from, "parent").Set(reflect.ValueOf(f))
			for k, s := range p.Succs {
				if s == r {
					p.Succs[k] = from
					break
				}
			}
			from.Preds = []*ssa.BasicBlock{p}
			j := &ssa.Jump{}
			setBlock(j, from)
			from.Instrs = []ssa.Instruction{j}
			added = append(added, from)
		}
		switch truth {
		case yes, no:
			from.Succs = []*ssa.BasicBlock{r.Succs[truth]}
			in[truth] = append(in[truth], edge{from, i})
		default:
			n := v
			from.Instrs = nil
			if cmp != nil {
				c := new(ssa.BinOp)
				*c = *cmp
				priv(c, "register", "referrers").SetZero()
				c.X = v
				setBlock(c, from)
				refer(v, c)
				from.Instrs = append(from.Instrs, c)
				n = c
			}
			nots := neg
			if cmp != nil && cmp.Op == token.NEQ {
				nots = !nots
			}
			succs := []*ssa.BasicBlock{r.Succs[0], r.Succs[1]}
			ins := [2]int{0, 1}
			if nots {
				succs[0], succs[1] = succs[1], succs[0]
				ins = [2]int{1, 0}
			}
			g := &ssa.If{Cond: n}
			refer(n, g)
			setBlock(g, from)
			from.Instrs = append(from.Instrs, g)
			from.Succs = succs
			in[ins[0]] = append(in[ins[0]], edge{from, i})
			in[ins[1]] = append(in[ins[1]], edge{from, i})
		}
	}
	for k, s := range r.Succs {
		s.Preds = nil
		for _, e := range in[k] {
			s.Preds = append(s.Preds, e.from)
		}
		var front []ssa.Instruction
		for _, p := range phis {
			var v ssa.Value
			switch len(in[k]) {
			case 0:
				continue
			case 1:
				v = p.Edges[in[k][0].i]
			default:
				q := new(ssa.Phi)
				*q = *p
				priv(q, "register", "referrers").SetZero()
				q.Edges = nil
				for _, e := range in[k] {
					q.Edges = append(q.Edges, p.Edges[e.i])
					refer(p.Edges[e.i], q)
				}
				setBlock(q, s)
				front = append(front, q)
				v = q
			}
			for _, u := range append([]ssa.Instruction{}, *p.Referrers()...) {
				if u.Block() == r || side(u, p) != k {
					continue
				}
				for _, op := range u.Operands(nil) {
					if *op == ssa.Value(p) {
						*op = v
						refer(v, u)
					}
				}
				unrefer(p, u)
			}
		}
		s.Instrs = append(front, s.Instrs...)
	}
	for _, p := range phis {
		for _, e := range p.Edges {
			unrefer(e, p)
		}
	}
	var blocks []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if b == r {
			blocks = append(blocks, added...)
			continue
		}
		blocks = append(blocks, b)
	}
	f.Blocks = blocks
	prune(f)
	return true
}

const (
	yes = iota
	no
	unknown
)

func isPhi(u ssa.Instruction) bool  { _, ok := u.(*ssa.Phi); return ok }
func isJump(u ssa.Instruction) bool { _, ok := u.(*ssa.Jump); return ok }

// equal: whether the value is known to be (not to be) the constant at the end of the block.
func equal(v ssa.Value, c *ssa.Const, at *ssa.BasicBlock) int {
	if x, ok := v.(*ssa.Const); ok {
		switch {
		case x.Value == nil && c.Value == nil:
			return yes
		case x.Value != nil && c.Value != nil:
			if constant.Compare(x.Value, token.EQL, c.Value) {
				return yes
			}
			return no
		}
		return unknown
	}
	if c.Value != nil {
		return unknown
	}
	if neverNil(v, 0) {
		return no
	}
	if v.Referrers() == nil {
		return unknown
	}
	for _, u := range *v.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok || b.X != v || b.Op != token.EQL && b.Op != token.NEQ {
			continue
		}
		if y, ok := b.Y.(*ssa.Const); !ok || y.Value != nil {
			continue
		}
		for _, w := range *b.Referrers() {
			iff, ok := w.(*ssa.If)
			if !ok {
				continue
			}
			for i, s := range iff.Block().Succs {
				if len(s.Preds) == 1 && s.Dominates(at) {
					if (b.Op == token.EQL) == (i == 0) {
						return yes
					}
					return no
				}
			}
		}
	}
	return unknown
}

// neverNil: an error, pointer or interface that was just made.
func neverNil(v ssa.Value, d int) bool {
	switch y := v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.FieldAddr:
		return true
	case *ssa.ChangeInterface:
		return neverNil(y.X, d)
	case *ssa.Call:
		g := y.Call.StaticCallee()
		if g == nil || g.Signature.Results().Len() != 1 {
			return false
		}
		switch g.RelString(nil) {
		case "fmt.Errorf", "errors.New":
			return true
		}
		if g.Blocks == nil || d > 3 {
			return false
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != g.Recover && !neverNil(ret.Results[0], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// prune removes blocks that cannot be reached.
func prune(f *ssa.Function) {
	live := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	if f.Recover != nil {
		walk(f.Recover)
	}
	var blocks []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if !live[b] {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						unrefer(*op, in)
					}
				}
			}
			continue
		}
		blocks = append(blocks, b)
		for i := len(b.Preds) - 1; i >= 0; i-- {
			if live[b.Preds[i]] {
				continue
			}
			b.Preds = append(b.Preds[:i:i], b.Preds[i+1:]...)
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					e := phi.Edges[i]
					phi.Edges = append(phi.Edges[:i:i], phi.Edges[i+1:]...)
					if !slices.Contains(phi.Edges, e) {
						unrefer(e, phi)
					}
				}
			}
		}
	}
	f.Blocks = blocks
	renumber(f)
}

func repeats(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b || !seen[s] && func() bool { seen[s] = true; return walk(s) }() {
				return true
			}
		}
		return false
	}
	return walk(b)
}
