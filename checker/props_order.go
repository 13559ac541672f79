package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- order independence (D09, E07)

// reachable: the functions with bodies in the given packages that roots can reach through static
// references and interface calls (any implementation declared in the packages).
func (k *K) reachable(roots []*ssa.Function, pkgs ...string) []*ssa.Function {
	in := map[string]bool{}
	for _, p := range pkgs {
		in[modPath+"/"+p] = true
	}
	seen := map[*ssa.Function]bool{}
	var out, work []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		p := fnPkg(f)
		if p == nil || !in[p.Path()] {
			return
		}
		seen[f] = true
		out = append(out, f)
		work = append(work, f)
	}
	for _, f := range roots {
		add(f)
	}
	var methods []*types.Named
	for _, p := range pkgs {
		methods = append(methods, k.pkgTypes(p)...)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		k.funcs[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
						if o := g.Origin(); o != nil {
							add(o)
						}
					}
				}
				c, ok := ins.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() {
					continue
				}
				it, ok := c.Common().Value.Type().Underlying().(*types.Interface)
				if !ok {
					continue
				}
				for _, t := range methods {
					if types.IsInterface(t) {
						continue
					}
					if types.Implements(types.NewPointer(t), it) {
						sel := k.pr.SSA.MethodSets.MethodSet(types.NewPointer(t)).Lookup(c.Common().Method.Pkg(), c.Common().Method.Name())
						if sel != nil {
							g := k.pr.SSA.MethodValue(sel)
							if g != nil && g.Synthetic != "" {
								if fo, ok := sel.Obj().(*types.Func); ok {
									g = k.pr.SSA.FuncValue(fo)
								}
							}
							add(g)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// mapLoops lists the loops of f over maps (and over unsorted key sequences): the Next instructions.
func mapLoops(f *ssa.Function) []*ssa.Next {
	var r []*ssa.Next
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				if rg, ok := n.Iter.(*ssa.Range); ok {
					if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
						r = append(r, n)
					}
				}
			}
		}
	}
	return r
}

// orderFree reports why the outcome of the map loops of f can depend on the iteration order.
func (k *K) orderFree(rule string, f *ssa.Function) int {
	rc := reach(f)
	c := k.R.rootCtx(f)
	loops := mapLoops(f)
	for _, n := range loops {
		head := n.Block()
		construct := fnName(f)
		pos := k.pr.at(n)
		m := n.Iter.(*ssa.Range).X
		k.ok(rule, construct, pos)
		body := map[*ssa.BasicBlock]bool{}
		for _, b := range f.Blocks {
			if b != head && rc[head.Index][b.Index] && rc[b.Index][head.Index] && head.Dominates(b) {
				body[b] = true
			}
		}
		fromElem := func(v ssa.Value) bool { return dependsOn(v, n, map[ssa.Value]bool{}) }
		fromKey := func(v ssa.Value) bool { return isRangeKey(k, c, v, n) }
		bad := func(in ssa.Instruction, what string) {
			k.fail(rule, construct, k.pr.at(in), "the result depends on the iteration order of map %s: %s", k.R.T(c, m), what)
		}
		// values carried from one iteration to the next
		for _, in := range head.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			for i, e := range p.Edges {
				if !body[head.Preds[i]] {
					continue
				}
				k.carried(p, e, body, fromElem, func(what string) { bad(p, what) }, f)
			}
		}
		for b := range body {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.MapUpdate:
					if fromKey(y.Key) || !fromElem(y.Value) && !fromElem(y.Key) || isBoolConst(y.Value) || k.perElement(y.Map, n) {
						continue
					}
					if !fromElem(y.Value) {
						continue // same value whoever writes it
					}
					if k.accumulates(c, y) {
						continue
					}
					bad(in, "entries of another map are written under a key that several elements can share, so the first or last one wins")
				case *ssa.Store:
					if _, ok := y.Val.(*ssa.Const); ok {
						continue
					}
					if k.localTo(y.Addr, body) || k.perElement(y.Addr, n) {
						continue
					}
					if !fromElem(y.Val) || scratch(y, body) {
						continue
					}
					bad(in, "a variable outside the loop is overwritten with a value of the element")
				case *ssa.Call:
					g := y.Common().StaticCallee()
					if g == nil || !inModule(g) || strings.HasPrefix(fnName(g), zp) {
						continue
					}
					elem := false
					for _, a := range y.Common().Args {
						elem = elem || fromElem(a)
					}
					if !elem {
						continue
					}
					for i, a := range y.Common().Args {
						if fromElem(a) || k.localTo(a, body) || k.madeIn(a, n) || typeShort(a.Type()) == "dbsp.DocumentZSet" {
							continue
						}
						if k.mutates(g, i) && !k.recursesInto(g, f) {
							bad(in, fnName(g)+" modifies "+k.R.T(c, a).String()+" for one element after the other")
						}
					}
				}
			}
			// leaving the loop with a value of the element
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				k.elementReturn(ret, fromElem, func(what string) { bad(ret, what) })
			}
		}
		// returns reached from the body without passing the header
		for _, b := range f.Blocks {
			if body[b] || b == head {
				continue
			}
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, p := range b.Preds {
				if body[p] && !rc[b.Index][head.Index] {
					k.elementReturn(ret, fromElem, func(what string) { bad(ret, what) })
				}
			}
		}
	}
	// key sequences that were not sorted
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			nm := calleeName(call.Common())
			if nm == "slices.Collect" || nm == "x/slices.Collect" {
				t := k.R.T(c, call.Common().Args[0])
				if t.HasCall("maps.Keys", "maps.Values") && !sortedLater(call, f) {
					k.fail(rule, fnName(f), k.pr.at(in), "the keys or values of a map are collected in random order and not sorted")
				} else if t.HasCall("maps.Keys", "maps.Values") {
					k.ok(rule, fnName(f), k.pr.at(in))
				}
			}
		}
	}
	return len(loops)
}

// elementReturn: returning a value of the element from inside the loop makes the choice of the
// element visible, unless it is only an error.
func (k *K) elementReturn(ret *ssa.Return, fromElem func(ssa.Value) bool, bad func(string)) {
	if ei := errResult(ret.Parent().Signature); ei >= 0 {
		if ei < len(ret.Results) {
			if c, ok := ret.Results[ei].(*ssa.Const); !ok || c.Value != nil {
				return // an error exit
			}
		}
	}
	for _, r := range ret.Results {
		if fromElem(r) {
			if b, ok := r.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				continue
			}
			bad("a value of whichever element comes first is returned")
		}
	}
}

// carried judges a loop-carried variable.
func (k *K) carried(p *ssa.Phi, e ssa.Value, body map[*ssa.BasicBlock]bool, fromElem func(ssa.Value) bool, bad func(string), f *ssa.Function) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v == ssa.Value(p) {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Const:
			return
		case *ssa.Phi:
			if !body[y.Block()] {
				return
			}
			for _, x := range y.Edges {
				walk(x)
			}
			return
		case *ssa.BinOp:
			switch y.Op {
			case token.ADD, token.OR, token.AND, token.MUL, token.XOR:
				if b, ok := y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return // commutative accumulation
				}
				if b, ok := y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					return
				}
			}
		case *ssa.Call:
			n := calleeName(y.Common())
			if n == "builtin.append" {
				if !fromElem(y) {
					return
				}
				if sortedLater(p, f) || sortedLater(y, f) {
					return
				}
				bad("elements are appended to a slice that is not sorted afterwards")
				return
			}
			if n == "builtin.max" || n == "builtin.min" {
				return
			}
		case *ssa.Extract:
			if c, ok := y.Tuple.(*ssa.Call); ok && (isAddDoc(calleeName(c.Common())) || strings.HasPrefix(calleeName(c.Common()), zp)) {
				return // Z-set addition commutes
			}
		}
		if typeShort(v.Type()) == "dbsp.DocumentZSet" {
			return
		}
		if v.Type() == errorType {
			return
		}
		if _, inBody := v.(ssa.Instruction); inBody && fromElem(v) {
			bad("a variable keeps a value of the last element")
		}
	}
	walk(e)
}

func isBoolConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// dependsOn: v is computed from the element of the iteration (without memory).
func dependsOn(v ssa.Value, n *ssa.Next, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v == ssa.Value(n) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if al, ok := v.(*ssa.Alloc); ok {
		if al.Referrers() != nil {
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == ssa.Value(al) && dependsOn(y.Val, n, seen) {
						return true
					}
				case *ssa.FieldAddr:
					if y.Referrers() != nil {
						for _, r2 := range *y.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(y) && dependsOn(st.Val, n, seen) {
								return true
							}
						}
					}
				case *ssa.IndexAddr:
					if y.Referrers() != nil {
						for _, r2 := range *y.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(y) && dependsOn(st.Val, n, seen) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOn(*op, n, seen) {
			return true
		}
	}
	return false
}

// isRangeKey: v is the key of the iteration, possibly converted or extended by constants or by values
// that do not depend on the iteration (still different for different elements).
func isRangeKey(k *K, c *Ctx, v ssa.Value, n *ssa.Next) bool {
	_, v = k.R.norm(c, v)
	if e, ok := v.(*ssa.Extract); ok {
		return e.Tuple == ssa.Value(n) && e.Index == 1
	}
	switch y := v.(type) {
	case *ssa.BinOp:
		if y.Op == token.ADD {
			return isRangeKey(k, c, y.X, n) != isRangeKey(k, c, y.Y, n) && (!dependsOn(y.X, n, map[ssa.Value]bool{}) || !dependsOn(y.Y, n, map[ssa.Value]bool{}))
		}
	case *ssa.Convert:
		return isRangeKey(k, c, y.X, n)
	case *ssa.ChangeType:
		return isRangeKey(k, c, y.X, n)
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if al, ok := y.X.(*ssa.Alloc); ok {
				if s := singleStore(al); s != nil {
					return isRangeKey(k, c, s, n)
				}
			}
		}
	}
	return false
}

// perElement: the memory belongs to the element of the iteration or was made in this iteration.
func (k *K) perElement(addr ssa.Value, n *ssa.Next) bool {
	for i := 0; i < 16; i++ {
		switch y := addr.(type) {
		case *ssa.FieldAddr:
			addr = y.X
		case *ssa.IndexAddr:
			addr = y.X
		case *ssa.UnOp:
			addr = y.X
		case *ssa.Extract:
			if y.Tuple == ssa.Value(n) {
				return true
			}
			if l, ok := y.Tuple.(*ssa.Lookup); ok {
				addr = l
				continue
			}
			return false
		case *ssa.Lookup:
			// an entry selected by the key of the iteration
			if e, ok := y.Index.(*ssa.Extract); ok && e.Tuple == ssa.Value(n) && e.Index == 1 {
				return true
			}
			return false
		case *ssa.TypeAssert:
			addr = y.X
		case *ssa.MakeInterface:
			addr = y.X
		default:
			return k.madeIn(addr, n)
		}
	}
	return false
}

func (k *K) madeIn(v ssa.Value, n *ssa.Next) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	switch v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Call:
		h := n.Block()
		rc := reach(h.Parent())
		b := in.Block()
		return b != h && h.Dominates(b) && rc[b.Index][h.Index]
	}
	return false
}

// localTo: the address is a variable of the loop body.
func (k *K) localTo(addr ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for i := 0; i < 16; i++ {
		switch y := addr.(type) {
		case *ssa.FieldAddr:
			addr = y.X
		case *ssa.IndexAddr:
			addr = y.X
		case *ssa.Slice:
			addr = y.X
		case *ssa.Alloc:
			return body[y.Block()]
		case *ssa.MakeSlice:
			return body[y.Block()]
		default:
			return false
		}
	}
	return false
}

// accumulates: m[k] = m[k] + x on numbers, or m[k] = append(m[k], ..) is judged elsewhere.
func (k *K) accumulates(c *Ctx, y *ssa.MapUpdate) bool {
	b, ok := y.Value.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	if t, ok := b.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
		return false
	}
	m := k.R.T(c, y.Map).String()
	for _, x := range []ssa.Value{b.X, b.Y} {
		if t := k.R.T(c, x); t.Op == "lookup" && t.Args[0].String() == m {
			return true
		}
	}
	return false
}

// sortedLater: v, or a value it flows into by phi, is sorted in f.
func sortedLater(v ssa.Value, f *ssa.Function) bool {
	seen := map[ssa.Value]bool{}
	var walk func(x ssa.Value) bool
	walk = func(x ssa.Value) bool {
		if seen[x] || x.Referrers() == nil {
			return false
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Call:
				n := calleeName(y.Common())
				if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
					return true
				}
				if g := y.Common().StaticCallee(); g != nil && inModule(g) && g.Blocks != nil {
					for i, a := range y.Common().Args {
						if a == x && i < len(g.Params) && sortedLater(g.Params[i], g) {
							return true
						}
					}
				}
			case *ssa.Phi:
				if walk(y) {
					return true
				}
			case *ssa.MakeInterface:
				if walk(y) {
					return true
				}
			case *ssa.MakeClosure:
				// captured by the comparison function of a sort
			case *ssa.Store:
				if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == x && al.Referrers() != nil {
					for _, r2 := range *al.Referrers() {
						if ld, ok := r2.(*ssa.UnOp); ok && walk(ld) {
							return true
						}
					}
				}
			case *ssa.ChangeType:
				if walk(y) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

func init() {
	register("D09", "order independence of the query engine: every loop over a Go map in the functions reachable from the operators is classified; a loop may only insert under the loop key, accumulate commutatively (Z-set addition, integer sums), or collect into a slice that is sorted; anything else (first or last element wins, unsorted collection, early return of an element) makes the result depend on the random iteration order", runD09)
	register("E07", "order independence of expression evaluation: every loop over a Go map in the functions reachable from the evaluator is classified as in D09", runE07)
}

func runD09(k *K) {
	var roots []*ssa.Function
	for _, o := range k.operators() {
		roots = append(roots, o.process)
	}
	for _, n := range []string{"dbsp.DocumentZSet.Add", "dbsp.DocumentZSet.Subtract", "dbsp.DocumentZSet.Distinct", "dbsp.DocumentZSet.Unique"} {
		if f := k.fn(n); f != nil {
			roots = append(roots, f)
		}
	}
	fs := k.reachable(roots, "pkg/dbsp", "pkg/pipeline")
	n := 0
	for _, f := range fs {
		n += k.orderFree("map iteration order", f)
	}
	k.note("%d functions reachable from the operators, %d loops over maps", len(fs), n)
	k.check(n >= 8, "map iteration order", "inventory", "", "expected at least 8 loops over maps in the operators, found %d", n)
}

func runE07(k *K) {
	f := k.fn("expression.Expression.Evaluate")
	if f == nil {
		return
	}
	fs := k.reachable([]*ssa.Function{f}, "pkg/expression", "pkg/object", "pkg/util")
	n := 0
	for _, f := range fs {
		n += k.orderFree("map iteration order", f)
	}
	k.note("%d functions reachable from expression evaluation, %d loops over maps", len(fs), n)
	k.check(n >= 2 && len(fs) >= 20, "map iteration order", "inventory", "", "expected the evaluator to reach at least 20 functions with 2 loops over maps, found %d with %d", len(fs), n)
}

// scratch: a slot that is filled before a call of the same iteration reads it.
func scratch(st *ssa.Store, body map[*ssa.BasicBlock]bool) bool {
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok || ia.X.Referrers() == nil {
		return false
	}
	for _, r := range *ia.X.Referrers() {
		if c, ok := r.(*ssa.Call); ok && body[c.Block()] && (c.Block() == st.Block() && instrIndex(c) > instrIndex(st) || st.Block() != c.Block() && st.Block().Dominates(c.Block())) {
			return true
		}
	}
	return false
}

var mutMemo = map[*ssa.Function]map[int]bool{}

// mutates: g writes memory it reaches through parameter i.
func (k *K) mutates(g *ssa.Function, i int) bool {
	if mutMemo[g] == nil {
		mutMemo[g] = map[int]bool{}
	}
	if v, ok := mutMemo[g][i]; ok {
		return v
	}
	mutMemo[g][i] = false // recursion
	if i >= len(g.Params) || g.Blocks == nil {
		return false
	}
	p := g.Params[i]
	reaches := func(v ssa.Value) bool { return rootedAt(v, p, 0) }
	res := false
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.MapUpdate:
				res = res || reaches(y.Map)
			case *ssa.Store:
				if _, isAl := y.Addr.(*ssa.Alloc); !isAl {
					res = res || reaches(y.Addr)
				}
			case ssa.CallInstruction:
				com := y.Common()
				switch calleeName(com) {
				case "builtin.delete", "builtin.copy", "builtin.clear":
					res = res || reaches(com.Args[0])
				}
				if h := com.StaticCallee(); h != nil && inModule(h) {
					for j, a := range com.Args {
						if reaches(a) && k.mutates(h, j) {
							res = true
						}
					}
				}
			}
		}
	}
	mutMemo[g][i] = res
	return res
}

// rootedAt: v is memory reached from p.
func rootedAt(v ssa.Value, p ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	if v == p {
		return true
	}
	switch y := v.(type) {
	case *ssa.FieldAddr:
		return rootedAt(y.X, p, d+1)
	case *ssa.IndexAddr:
		return rootedAt(y.X, p, d+1)
	case *ssa.Field:
		return rootedAt(y.X, p, d+1)
	case *ssa.Index:
		return rootedAt(y.X, p, d+1)
	case *ssa.Lookup:
		return rootedAt(y.X, p, d+1)
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			for _, s := range allStores(al) {
				if rootedAt(s, p, d+1) {
					return true
				}
			}
			return false
		}
		return rootedAt(y.X, p, d+1)
	case *ssa.Extract:
		return rootedAt(y.Tuple, p, d+1)
	case *ssa.Next:
		return rootedAt(y.Iter, p, d+1)
	case *ssa.Range:
		return rootedAt(y.X, p, d+1)
	case *ssa.TypeAssert:
		return rootedAt(y.X, p, d+1)
	case *ssa.MakeInterface:
		return rootedAt(y.X, p, d+1)
	case *ssa.ChangeType:
		return rootedAt(y.X, p, d+1)
	case *ssa.Slice:
		return rootedAt(y.X, p, d+1)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if e != v && rootedAt(e, p, d+4) {
				return true
			}
		}
	}
	return false
}

// recursesInto: the loop belongs to a recursive traversal whose steps fill a scratch buffer.
func (k *K) recursesInto(g, f *ssa.Function) bool { return g == f }
