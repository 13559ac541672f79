package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shape of a value, for type assertions on it.
const (
	shNil = iota
	shMap
	shList
	shOther
	shScalar // and the ones after it
)

var shNames = []string{"null", "a map", "a list", "something else", "a string", "a bool", "an integer", "a number"}
var shTypes = []string{"", "", "", "", "string", "bool", "int64", "float64"}

// shapeAtom folds the conditions on the type of some value.
func shapeAtom(is func(*Term) bool, sh int) func(t *Term) (string, bool) {
	tf := func(b bool) (string, bool) { return fmt.Sprint(b), true }
	return func(t *Term) (string, bool) {
		switch {
		case t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && is(t.Args[0].Args[0]):
			n := strings.Trim(t.Args[0].Sym, "<>")
			switch {
			case strings.HasPrefix(n, "map["):
				return tf(sh == shMap)
			case strings.HasPrefix(n, "[]"):
				return tf(sh == shList)
			case n == "bool" || n == "int64" || n == "float64" || n == "string":
				return tf(shTypes[sh] == n)
			}
			return tf(false)
		case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && is(t.Args[0]):
			return tf((t.Sym == "==") == (sh == shNil))
		}
		return "", false
	}
}

// filling: what an instruction puts into a container.
type filling struct {
	to       ssa.Value // the container
	c        *Ctx
	key, val *Term
	at       ssa.Instruction
	typ      types.Type
	raw, idx ctxVal
}

func (k *K) filling(s *St, in ssa.Instruction) *filling {
	iface := func(v ssa.Value) *Term { return s.PT(v) }
	switch y := in.(type) {
	case *ssa.MapUpdate:
		c, w := s.Root(y.Map)
		return &filling{w, c, s.PT(y.Key), iface(y.Value), in, y.Map.Type(), ctxVal{s.Ctx, y.Value}, ctxVal{}}
	case *ssa.Store:
		if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
			if _, is := ia.X.Type().Underlying().(*types.Slice); is {
				c, w := s.Root(ia.X)
				return &filling{w, c, s.PT(ia.Index), iface(y.Val), in, ia.X.Type(), ctxVal{s.Ctx, y.Val}, ctxVal{s.Ctx, ia.Index}}
			}
		}
	}
	return nil
}

// sameIndex: what is stored in an element of a list was made from the element of another list at the
// same place; is tells the other list.
func (f *filling) sameIndex(s *St, is func(*Term) bool) bool {
	if f.idx.v == nil {
		return true
	}
	var walk func(c *Ctx, v ssa.Value, d int) (bool, bool)
	walk = func(c *Ctx, v ssa.Value, d int) (found, same bool) {
		if d > 8 {
			return false, false
		}
		c, v = s.RootIn(c, v)
		switch y := v.(type) {
		case *ssa.MakeInterface:
			return walk(c, y.X, d+1)
		case *ssa.Extract:
			return walk(c, y.Tuple, d+1)
		case *ssa.Call:
			for _, a := range y.Call.Args {
				if f, m := walk(c, a, d+1); f {
					found, same = true, m
					if !m {
						return true, false
					}
				}
			}
		case *ssa.UnOp:
			if ia, ok := y.X.(*ssa.IndexAddr); ok && is(s.PTIn(c, ia.X)) {
				return true, s.x.rootKey(c, ia.Index) == s.x.rootKey(f.idx.c, f.idx.v)
			}
		}
		return found, same
	}
	found, same := walk(f.raw.c, f.raw.v, 0)
	return !found || same
}

// converted: a value is turned into one of another type.
func converted(s *St, c *Ctx, v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		c, v = s.RootIn(c, v)
		switch y := v.(type) {
		case *ssa.MakeInterface:
			v = y.X
		case *ssa.Convert:
			return true
		default:
			return false
		}
	}
	return false
}

// structural: fn goes through all of a value, maps and lists are made anew.
func (k *K) structural(R string, fn *ssa.Function) {
	if fn == nil {
		return
	}
	name := fnName(fn)
	isV := func(t *Term) bool { return isParam(t, "arg0") }
	rec := func(t *Term) *Term {
		if t.Op == "ext" && t.Sym == "0" {
			t = t.Args[0]
		}
		if t.Op == "call" && t.Sym == name {
			return t.Args[0]
		}
		return nil
	}
	hasErr := fn.Signature.Results().Len() == 2
	elems := func(t *Term) bool { return isV(unassert(t)) }
	inline := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return helperInline(s, call, callee) && callee != fn
	}
	one := func(s *St, f *filling, construct string) bool {
		e := rec(f.val)
		if e == nil {
			k.fail(R, construct, k.pr.at(f.at), "an element is %s rather than a copy", f.val)
			return false
		}
		good := elemOf(e) != nil && elems(elemOf(e))
		if f.key.Op == "rangekey" {
			good = good && elems(f.key.Args[0])
		} else if good && e.Op == "index" && e.Args[1].Sym != "*" {
			good = e.Args[1].String() == f.key.String()
		} else {
			good = good && f.key.Op != "const"
		}
		good = good && f.sameIndex(s, elems)
		return k.check(good, R, construct, k.pr.at(f.at), "element %s becomes %s", f.key, f.val)
	}
	failed := func(s *St, t *Term, taken bool) {
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && t.Args[0].Op == "ext" && t.Args[0].Sym == "1" && rec(&Term{Op: "ext", Sym: "0", Args: t.Args[0].Args}) != nil && (t.Sym == "!=") == taken {
			addFlag(s, "failed")
		}
	}
	for sh := range shNames {
		sh := sh
		construct := name + ": " + shNames[sh]
		atom := shapeAtom(isV, sh)
		sc := &scen{R: R, construct: construct, inline: inline}
		sc.atom = func(s *St, t *Term) (string, bool) { return atom(t) }
		sc.edge = func(s *St, t *Term, cond ssa.Value, taken bool) { failed(s, t, taken) }
		sc.instr = func(s *St, in ssa.Instruction) {
			if f := k.filling(s, in); f != nil && sh != shOther && isAnyTree(f.typ) {
				one(s, f, construct)
			}
		}
		sc.call = func(s *St, call *ssa.Call, nm string) {
			if nm == "builtin.append" && isAnyTree(call.Type()) {
				es := k.elemTerms(s, s.PT(call.Call.Args[1]))
				for _, e := range es {
					if r := rec(e); !k.check(r != nil && elemOf(r) != nil && elems(elemOf(r)), R, construct, k.pr.at(call), "an element is %s rather than a copy", e) {
						return
					}
				}
				k.check(len(es) == 1, R, construct, k.pr.at(call), "undecided: what is appended")
			}
		}
		sc.exit = func(s *St, ret *ssa.Return) string {
			if hasErr {
				c, v := s.Root(ret.Results[1])
				if hasFlag(s, "failed") {
					if isNil(s.PTIn(c, v)) {
						return "a failure is passed over"
					}
					return ""
				}
				if !isNil(s.PTIn(c, v)) {
					return fmt.Sprintf("refused: %s", s.PTIn(c, v))
				}
			}
			c, v := s.Root(ret.Results[0])
			if mi, ok := v.(*ssa.MakeInterface); ok {
				c, v = s.RootIn(c, mi.X)
			}
			t := s.PTIn(c, v)
			switch sh {
			case shMap:
				if _, ok := v.(*ssa.MakeMap); !ok {
					return fmt.Sprintf("the result is %s rather than a new map", t)
				}
			case shList:
				switch x := v.(type) {
				case *ssa.MakeSlice:
					n := s.PTIn(c, x.Len)
					if !isCallTo(n, "builtin.len") || !elems(n.Args[0]) {
						return fmt.Sprintf("the length of the result is %s", n)
					}
				case *ssa.Call:
					if !isAppend(x) {
						return fmt.Sprintf("the result is %s rather than a new list", t)
					}
				case *ssa.Slice:
					if t.Sym != "empty" {
						return fmt.Sprintf("the result is %s rather than a new list", t)
					}
				default:
					return fmt.Sprintf("the result is %s rather than a new list", t)
				}
			default:
				if !isV(unassert(t)) && !(sh == shNil && isNil(t)) || converted(s, c, v) {
					return fmt.Sprintf("the result is %s", t)
				}
			}
			return ""
		}
		k.scenario(fn, sc)
		if sh != shMap && sh != shList {
			continue
		}
		k.each(fn, &eachSpec{R: R, what: "every element of " + shNames[sh] + " is copied", leaf: elems,
			outside: func(call ssa.CallInstruction, callee *ssa.Function) bool { return callee == fn },
			instr: func(s *St, in ssa.Instruction) int {
				if f := k.filling(s, in); f != nil && isAnyTree(f.typ) && rec(f.val) != nil {
					return 1
				}
				return 0
			},
			call: func(s *St, call ssa.CallInstruction, nm string) int {
				if nm == "builtin.append" && isAnyTree(call.Value().Type()) {
					return 1
				}
				return 0
			},
			exempt: func(s *St, cond ssa.Value, taken bool) bool {
				v, ok := fold(s, s.condPT(cond), func(s *St, t *Term) (string, bool) { return atom(t) })
				return ok && (v == "true") != taken
			},
		})
	}
}

// isAnyTree: map[string]any or []any.
func isAnyTree(t types.Type) bool {
	n := types.TypeString(t.Underlying(), nil)
	n = strings.ReplaceAll(n, "interface{}", "any")
	return n == "map[string]any" || n == "[]any"
}

// ---------------------------------------------------------------- merging and patching

// loopFlags: flags that hold for one element only.
func dropElemFlags(s *St) {
	for f := range parseFlags(s.Auto) {
		if strings.HasPrefix(f, "e:") {
			dropFlag(s, f)
		}
	}
}

// keyOf: K of an element X[K] or of a range over X.
func keyOf(t *Term) *Term {
	if (t.Op == "index" || t.Op == "lookup") && len(t.Args) == 2 {
		return t.Args[1]
	}
	return nil
}

// combine: fn puts two values together, by structural recursion over both. of is the value that comes
// on top, the other one is below.
type combine struct {
	k           *K
	R           string
	fn          *ssa.Function
	below, over string
	merge       bool // lists are joined; nothing is removed
}

func (m *combine) isBelow(t *Term) bool { return isParam(unassert(t), m.below) }
func (m *combine) isOver(t *Term) bool  { return isParam(unassert(t), m.over) }

func (m *combine) elem(t *Term, is func(*Term) bool) bool {
	for t.Op == "ext" && t.Sym == "0" {
		t = t.Args[0]
	}
	e := elemOf(t)
	if e == nil && (t.Op == "lookup" || t.Op == "index") {
		e = t.Args[0]
	}
	return e != nil && is(e)
}

func isCopy(t *Term) *Term {
	t = unassert(t)
	if isCallTo(t, "object.DeepCopyAny", "runtime.DeepCopyJSONValue", "runtime.DeepCopyJSON", "dbsp.DeepCopyAny") {
		return t.Args[0]
	}
	return nil
}

func orCopy(t *Term) *Term {
	if c := isCopy(t); c != nil {
		return c
	}
	return t
}

// rec: the recursive call.
func (m *combine) rec(t *Term) *Term {
	if t.Op == "ext" && t.Sym == "0" {
		t = t.Args[0]
	}
	if t.Op == "call" && t.Sym == fnName(m.fn) && len(t.Args) == 2 {
		return t
	}
	return nil
}

func (m *combine) of(f *filling) string {
	v := f.val
	if r := m.rec(v); r != nil {
		b, o := r.Args[0], r.Args[1]
		if m.below == "arg1" {
			b, o = o, b
		}
		if m.elem(b, m.isBelow) && m.elem(o, m.isOver) {
			return "both"
		}
		return ""
	}
	switch x := orCopy(v); {
	case m.elem(x, m.isOver):
		if isCopy(v) != nil {
			return "over"
		}
		return "over itself"
	case m.elem(x, m.isBelow):
		return "below"
	}
	return ""
}

func (m *combine) run() {
	if m.fn == nil {
		return
	}
	k, R := m.k, m.R
	name := fnName(m.fn)
	inline := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return helperInline(s, call, callee) && callee != m.fn
	}
	hasErr := m.fn.Signature.Results().Len() == 2
	for _, lo := range []int{shNil, shMap, shList, shScalar, shScalar + 2} {
		for hi := range shNames {
			for _, equal := range []bool{false, true} {
				m.pair(R, name, lo, hi, equal, hasErr, inline)
			}
		}
	}
	// all elements
	for _, sh := range []int{shMap, shList} {
		if sh == shList && m.merge {
			continue
		}
		la, ha := shapeAtom(m.isBelow, sh), shapeAtom(m.isOver, sh)
		atom := func(s *St, t *Term) (string, bool) {
			if v, ok := la(t); ok {
				return v, true
			}
			if v, ok := ha(t); ok {
				return v, true
			}
			if isCallTo(t, "reflect.DeepEqual") && (m.isBelow(t.Args[0]) && m.isOver(t.Args[1]) || m.isOver(t.Args[0]) && m.isBelow(t.Args[1])) {
				return "false", true
			}
			return "", false
		}
		spec := func(what string, leaf, other func(*Term) bool, mayMiss bool) *eachSpec {
			return &eachSpec{R: R, what: what, leaf: leaf,
				outside: func(call ssa.CallInstruction, callee *ssa.Function) bool { return callee == m.fn },
				instr: func(s *St, in ssa.Instruction) int {
					f := k.filling(s, in)
					if f != nil && isAnyTree(f.typ) && m.of(f) != "" {
						return 1
					}
					return 0
				},
				call: func(s *St, call ssa.CallInstruction, nm string) int {
					if (nm == "builtin.delete" || nm == "builtin.append") && isAnyTree(call.Common().Args[0].Type()) {
						return 1
					}
					return 0
				},
				skip: func(s *St, cond ssa.Value, taken bool) bool {
					t := s.condPT(cond)
					for t.Op == "un" && t.Sym == "!" {
						t, taken = t.Args[0], !taken
					}
					// what both have is dealt with elsewhere
					if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "lookup" && other(t.Args[0].Args[0]) {
						return taken == mayMiss
					}
					return false
				},
				exempt: func(s *St, cond ssa.Value, taken bool) bool {
					v, ok := fold(s, s.condPT(cond), atom)
					return ok && (v == "true") != taken
				},
			}
		}
		if m.merge {
			// shared keys by one loop, the rest of the upper one by another
			k.each(m.fn, spec("every key of the first map", m.isBelow, m.isOver, false))
			k.each(m.fn, spec("every key of the second map", m.isOver, m.isBelow, true))
		} else {
			e := spec("every element of "+shNames[sh], m.isOver, m.isBelow, false)
			e.skip = nil
			k.each(m.fn, e)
		}
	}
}

func (m *combine) pair(R, name string, lo, hi int, equal, hasErr bool, inline func(*St, ssa.CallInstruction, *ssa.Function) bool) {
	k := m.k
	if equal && lo != hi {
		return
	}
	if m.merge && equal {
		return
	}
	construct := fmt.Sprintf("%s: %s onto %s", name, shNames[hi], shNames[lo])
	if equal {
		construct += " that is equal"
	}
	la, ha := shapeAtom(m.isBelow, lo), shapeAtom(m.isOver, hi)
	sc := &scen{R: R, construct: construct, inline: inline}
	sc.atom = func(s *St, t *Term) (string, bool) {
		if v, ok := la(t); ok {
			return v, true
		}
		if v, ok := ha(t); ok {
			return v, true
		}
		if isCallTo(t, "reflect.DeepEqual") && (m.isBelow(t.Args[0]) && m.isOver(t.Args[1]) || m.isOver(t.Args[0]) && m.isBelow(t.Args[1])) {
			return fmt.Sprint(equal), true
		}
		return "", false
	}
	sc.edge = func(s *St, t *Term, cond ssa.Value, taken bool) {
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if ov := s.loopOver(cond); ov != nil && (m.isBelow(ov) || m.isOver(ov)) {
			dropElemFlags(s)
			if taken && m.isOver(ov) {
				addFlag(s, "e:over")
			}
			return
		}
		switch {
		case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]):
			x := t.Args[0]
			eq := (t.Sym == "==") == taken
			switch {
			case m.elem(x, m.isOver):
				addFlag(s, map[bool]string{true: "e:null", false: "e:value"}[eq])
			case x.Op == "ext" && x.Sym == "1" && m.rec(&Term{Op: "ext", Sym: "0", Args: x.Args}) != nil && !eq:
				addFlag(s, "failed")
			}
		case t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "lookup":
			switch x := t.Args[0].Args[0]; {
			case m.isBelow(x) && !taken, m.isOver(x) && !taken:
				addFlag(s, "e:missing")
			}
		case isCallTo(t, "reflect.DeepEqual") && taken:
			a, b := t.Args[0], t.Args[1]
			if m.elem(a, m.isBelow) && m.elem(b, m.isOver) || m.elem(b, m.isBelow) && m.elem(a, m.isOver) {
				addFlag(s, "e:equal")
			}
		case t.Op == "bin":
			a, b, op := t.Args[0], t.Args[1], t.Sym
			if isCallTo(a, "builtin.len") {
				a, b = b, a
				op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
			}
			if isCallTo(b, "builtin.len") && m.isBelow(b.Args[0]) && (op == ">=" && taken || op == "<" && !taken) {
				addFlag(s, "e:missing")
			}
		}
	}
	fill := func(s *St, what string, key string, at ssa.Instruction) {
		switch what {
		case "both":
			k.check(!hasFlag(s, "e:null") || m.merge, R, construct, k.pr.at(at), "null does not remove %s", key)
		case "over", "over itself":
			k.check(hasFlag(s, "e:missing") || hasFlag(s, "e:equal"), R, construct, k.pr.at(at), "%s is replaced rather than combined (path %s)", key, s.Trace())
			k.check(m.merge || what == "over", R, construct, k.pr.at(at), "%s is not copied", key)
			k.check(!hasFlag(s, "e:null") || m.merge, R, construct, k.pr.at(at), "null does not remove %s", key)
		case "below":
			k.check(hasFlag(s, "e:missing") && !hasFlag(s, "e:over"), R, construct, k.pr.at(at), "%s keeps its old value (path %s)", key, s.Trace())
		default:
			k.fail(R, construct, k.pr.at(at), "%s becomes something else", key)
		}
	}
	own := func(s *St, c *Ctx, v ssa.Value) bool {
		t := s.PTIn(c, v)
		x := isCopy(t)
		return x != nil && m.isBelow(x) || isCallTo(t, "maps.Clone", "slices.Clone") && m.isBelow(t.Args[0])
	}
	sc.instr = func(s *St, in ssa.Instruction) {
		f := k.filling(s, in)
		if f == nil || !isAnyTree(f.typ) {
			return
		}
		if _, ok := f.to.(*ssa.Alloc); ok {
			return // arguments
		}
		if _, ok := f.to.(*ssa.Slice); ok {
			return
		}
		if !own(s, f.c, f.to) && !isMakeMap(f.to) && !isCallTo(s.PTIn(f.c, f.to), "builtin.append") {
			k.fail(R, construct, k.pr.at(in), "%s is changed in place", s.PTIn(f.c, f.to))
			return
		}
		if !hasFlag(s, "failed") {
			fill(s, m.of(f), f.key.String(), in)
		}
		k.check(f.sameIndex(s, func(t *Term) bool { return m.isBelow(t) || m.isOver(t) }), R, construct, k.pr.at(in), "an element becomes that of another place")
		if kk := f.key; kk.Op == "rangekey" || kk.Op == "const" {
			k.check(kk.Op == "rangekey", R, construct, k.pr.at(in), "%s becomes %s", kk, f.val)
		}
	}
	sc.call = func(s *St, call *ssa.Call, nm string) {
		switch {
		case nm == "builtin.delete":
			k.check(hasFlag(s, "e:null") && !m.merge, R, construct, k.pr.at(call), "%s is removed (path %s)", s.PT(call.Call.Args[1]), s.Trace())
			c, v := s.Root(call.Call.Args[0])
			k.check(own(s, c, v) && s.PT(call.Call.Args[1]).Op == "rangekey", R, construct, k.pr.at(call), "removed from %s", s.PTIn(c, v))
		case nm == "builtin.append" && isAnyTree(call.Type()) && !m.merge:
			es := k.elemTerms(s, s.PT(call.Call.Args[1]))
			if k.check(len(es) == 1, R, construct, k.pr.at(call), "undecided: what is appended") {
				fill(s, m.of(&filling{val: es[0]}), "an element", call)
			}
		}
	}
	sc.exit = func(s *St, ret *ssa.Return) string {
		c, v := s.Root(ret.Results[0])
		t := s.PTIn(c, v)
		if mi, ok := v.(*ssa.MakeInterface); ok {
			c, v = s.RootIn(c, mi.X)
		}
		if hasErr {
			ec, ev := s.Root(ret.Results[1])
			isErr := !isNil(s.PTIn(ec, ev))
			if hasFlag(s, "failed") {
				if !isErr {
					return "a failure is passed over"
				}
				return ""
			}
			if (hi == shOther || hi == shNil) && lo != shNil {
				return ""
			}
			if isErr {
				return "refused"
			}
		}
		if hi >= shScalar && converted(s, c, v) {
			return "the value is converted"
		}
		switch {
		case equal:
			if x := orCopy(t); !m.isBelow(x) && !m.isOver(x) {
				return fmt.Sprintf("the result is %s", t)
			}
		case lo == shNil:
			if x := orCopy(t); !m.isOver(x) {
				return fmt.Sprintf("the result is %s", t)
			}
			if !m.merge && (hi == shMap || hi == shList) && isCopy(t) == nil {
				return "the result is not a copy"
			}
		case hi == shNil || hi == shOther:
		case hi >= shScalar || lo != hi:
			if x := orCopy(t); !m.isOver(x) {
				return fmt.Sprintf("the result is %s", t)
			}
			if !m.merge && hi < shScalar && isCopy(t) == nil {
				return "the result is not a copy"
			}
		case hi == shMap:
			if !own(s, c, v) && !(m.merge && isMakeMap(v)) {
				return fmt.Sprintf("the result is %s", t)
			}
		case hi == shList && m.merge:
			x := unassert(t)
			if isCallTo(x, "slices.Concat") {
				es := k.elemTerms(s, x.Args[0])
				if len(es) == 2 && m.isBelow(es[0]) && m.isOver(es[1]) {
					return ""
				}
			}
			if !isCallTo(x, "builtin.append") {
				return fmt.Sprintf("the result is %s", t)
			}
			b := x.Args[0]
			if isCallTo(b, "slices.Clip", "slices.Clone") {
				b = b.Args[0]
			} else if y := isCopy(b); y != nil {
				b = y
			} else {
				return fmt.Sprintf("the second list is appended to %s in place", b)
			}
			if !m.isBelow(b) || !m.isOver(x.Args[1]) {
				return fmt.Sprintf("the result is %s", t)
			}
		case hi == shList:
			for i := 0; i < 12; i++ {
				call, ok := v.(*ssa.Call)
				if !ok || !isAppend(call) {
					break
				}
				c, v = s.RootIn(c, call.Call.Args[0])
			}
			if !own(s, c, v) && !allAlts(s.PTIn(c, v), func(a *Term) bool {
				return a.Op == "rec" || isCallTo(a, "builtin.append") || isCopy(a) != nil && m.isBelow(isCopy(a))
			}) {
				return fmt.Sprintf("the result is %s", s.PTIn(c, v))
			}
		}
		return ""
	}
	k.scenario(m.fn, sc)
}

func isMakeMap(v ssa.Value) bool { _, ok := v.(*ssa.MakeMap); return ok }

// recursion: the function with that many arguments that fn hands its own ones to and that calls itself.
func (k *K) recursion(fn *ssa.Function, n int) *ssa.Function {
	if fn == nil {
		return nil
	}
	if recursive(fn) {
		return fn
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && inModule(g) && fnPkg(g) == fnPkg(fn) && recursive(g) && len(g.Params) == n {
					return g
				}
			}
		}
	}
	return nil
}

// outcome runs fn and judges what it returns when it does not fail. fails tells the errors it may fail
// with.
func (k *K) outcome(R string, fn *ssa.Function, what string, opaque map[string]bool, fails func(*Term) bool, good func(s *St, t *Term) string) {
	if fn == nil {
		return
	}
	res := fn.Signature.Results()
	hasErr := res.Len() > 1 && types.TypeString(res.At(res.Len()-1).Type(), nil) == "error"
	sc := &scen{R: R, construct: fnName(fn) + ": " + what}
	sc.inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return helperInline(s, call, callee) && !recursive(callee) && !opaque[fnName(callee)]
	}
	n := 0
	sc.atom = func(s *St, t *Term) (string, bool) { return "", false }
	sc.edge = func(s *St, t *Term, cond ssa.Value, taken bool) {
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && (t.Sym == "!=") == taken && fails != nil && fails(t.Args[0]) {
			addFlag(s, "failed")
		}
	}
	sc.exit = func(s *St, ret *ssa.Return) string {
		if hasErr {
			c, v := s.Root(ret.Results[res.Len()-1])
			et := s.PTIn(c, v)
			isErr := !isNil(et) && !(fails != nil && fails(et) && !hasFlag(s, "failed"))
			if hasFlag(s, "failed") {
				if !isErr {
					return "a failure is passed over"
				}
				return ""
			}
			if isErr {
				return fmt.Sprintf("refused: %s", et)
			}
		}
		n++
		c, v := s.Root(ret.Results[0])
		return good(s, s.PTIn(c, v))
	}
	k.scenario(fn, sc)
	k.check(n > 0, R, sc.construct, k.pr.pos(fn.Pos()), "never succeeds")
}

// ---------------------------------------------------------------- D10: documents

func init() {
	register("D10", "identity of documents: the functions that give the identity are found by what they do, and every path through them must return the encoding of the whole value; structural recursion is checked shape by shape", runD10)
}

func unconv(t *Term) *Term {
	for t.Op == "convert" || t.Op == "iface" || t.Op == "makeinterface" {
		t = t.Args[0]
	}
	return t
}

func runD10(k *K) {
	const R = "identity"
	ids := map[string]bool{}
	forms := map[*ssa.Function]bool{}
	n := 0
	for _, fn := range k.fnsIn("pkg/dbsp") {
		res := fn.Signature.Results()
		if res.Len() != 2 || fn.Parent() != nil || len(fn.Params) != 1 || fn.Signature.Recv() != nil || types.TypeString(res.At(0).Type(), nil) != "string" {
			continue
		}
		encodes := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && staticName(c) == "json.Marshal" {
					encodes = true
				}
			}
		}
		if !encodes {
			continue
		}
		n++
		ids[fnName(fn)] = true
		form := func(t *Term) *ssa.Function { // a normal form of the value
			if t.Op == "ext" {
				t = t.Args[0]
			}
			c, ok := t.V.(*ssa.Call)
			if t.Op != "call" || !ok || len(t.Args) != 1 || !isParam(unconv(t.Args[0]), "arg0") {
				return nil
			}
			g := c.Call.StaticCallee()
			if g == nil || !inModule(g) || !recursive(g) {
				return nil
			}
			forms[g] = true
			return g
		}
		fails := func(t *Term) bool {
			return t.Op == "ext" && t.Sym == "1" && (isCallTo(t.Args[0], "json.Marshal") || form(t) != nil)
		}
		k.outcome(R, fn, "the whole value is encoded", nil, fails, func(s *St, t *Term) string {
			m := extOf(unconv(t), 0, "json.Marshal")
			if m == nil {
				return fmt.Sprintf("the identity is %s", t)
			}
			if x := unconv(m.Args[0]); !isParam(x, "arg0") && !(x.Op == "ext" && x.Sym == "0" && form(x) != nil) && form(x) == nil {
				return fmt.Sprintf("what is encoded is %s", x)
			}
			return ""
		})
	}
	k.check(n > 0, R, "pkg/dbsp", "", "undecided: nothing gives the identity of a document")
	for g := range forms {
		k.structural(R, g)
	}
	formed := func(t *Term) *Term {
		if t.Op == "ext" && t.Sym == "0" {
			t = t.Args[0]
		}
		if c, ok := t.V.(*ssa.Call); ok && t.Op == "call" && len(t.Args) == 1 && forms[c.Call.StaticCallee()] {
			t = t.Args[0]
		}
		return unconv(t)
	}
	key := func(t *Term, arg string) bool {
		if t.Op == "ext" && t.Sym == "0" && t.Args[0].Op == "call" && ids[t.Args[0].Sym] {
			return isParam(unconv(t.Args[0].Args[0]), arg)
		}
		found := false
		return allAlts(t, func(a *Term) bool {
			m := extOf(unconv(a), 0, "json.Marshal")
			found = found || m != nil
			return a.Sym == `""` || m != nil && isParam(formed(unconv(m.Args[0])), arg)
		}) && found
	}
	fails := func(t *Term) bool { return t.V != nil && types.TypeString(t.V.Type(), nil) == "error" }
	k.outcome(R, k.fn("dbsp.DeepEqual"), "both documents are compared", ids, fails, func(s *St, t *Term) string {
		if t.Op == "bin" && t.Sym == "==" && (key(t.Args[0], "arg0") && key(t.Args[1], "arg1") || key(t.Args[0], "arg1") && key(t.Args[1], "arg0")) {
			return ""
		}
		return fmt.Sprintf("equality is %s", t)
	})
	k.structural("copies", k.recursion(k.fn("dbsp.DeepCopyAny"), 1))
	k.outcome("copies", k.fn("dbsp.DeepCopyDocument"), "the copy", nil, nil, func(s *St, t *Term) string {
		if x := unassert(t); !isCallTo(x, "dbsp.DeepCopyAny") || !isParam(unconv(x.Args[0]), "arg0") {
			return fmt.Sprintf("the copy is %s", t)
		}
		return ""
	})
}

// ---------------------------------------------------------------- V11: objects

func init() {
	register("V11", "primitives on objects: structural recursion over values is checked shape by shape (copies), and pair of shapes by pair of shapes (merging, patching); the helpers that set contents, names, kinds and identifiers are explored on all their paths", runV11)
}

// getter: part m of an object.
func getter(t *Term, m string, of func(*Term) bool) bool {
	t = unconv(t)
	if t.Op == "call" && strings.HasSuffix(t.Sym, ".GetObjectKind") && m == "" {
		return of(t.Args[0])
	}
	if t.Op != "call" || !strings.HasSuffix(t.Sym, "."+m) || len(t.Args) == 0 {
		return false
	}
	o := t.Args[0]
	if o.Op == "call" && strings.HasSuffix(o.Sym, ".GetObjectKind") && len(o.Args) == 1 {
		o = o.Args[0]
	}
	return of(unconv(o))
}

// objEdit: what is set in an object by a call; parts are gvk, ns, name, content, uid.
func (k *K) objEdit(s *St, call ssa.CallInstruction, nm string) (o *Term, parts map[string]ctxVal) {
	args := callArgs(call.Common())
	if len(args) < 2 {
		return nil, nil
	}
	o = unconv(s.PT(args[0]))
	if o.Op == "call" && strings.HasSuffix(o.Sym, ".GetObjectKind") {
		o = unconv(o.Args[0])
	}
	v := func(i int) ctxVal {
		c, w := s.Root(args[i])
		return ctxVal{c, w}
	}
	m := nm[strings.LastIndexByte(nm, '.')+1:]
	switch {
	case nm == "object.DeepCopyInto":
		c, w := s.Root(args[1])
		return s.PTIn(c, w), map[string]ctxVal{"copy": v(0)}
	case nm == "object.SetName":
		return o, map[string]ctxVal{"ns": v(1), "name": v(2)}
	case nm == "object.SetContent":
		return o, map[string]ctxVal{"copied": v(1)}
	case m == "SetNamespace":
		return o, map[string]ctxVal{"ns": v(1)}
	case m == "SetName":
		return o, map[string]ctxVal{"name": v(1)}
	case m == "SetGroupVersionKind":
		return o, map[string]ctxVal{"gvk": v(1)}
	case m == "SetUnstructuredContent":
		return o, map[string]ctxVal{"content": v(1)}
	case m == "SetUID" && s.PT(args[1]).Sym == `""`:
		return o, map[string]ctxVal{"no uid": v(1)}
	case nm == "unstructured.RemoveNestedField" && (isContent(o, func(*Term) bool { return true })):
		var path []string
		for _, e := range k.elemTerms(s, s.PT(args[1])) {
			path = append(path, unq(e.Sym))
		}
		return unconv(o.Args[0]), map[string]ctxVal{map[bool]string{true: "no uid", false: strings.Join(path, ".")}[strings.Join(path, ".") == "metadata.uid"]: v(1)}
	case m == "SetUID":
		return o, map[string]ctxVal{"uid": v(1)}
	}
	return nil, nil
}

type editSpec struct {
	R, name string
	obj     func(*Term) bool                     // the object that is written
	want    map[string]func(s *St, t *Term) bool // parts that must be set, and to what
	opt     map[string]func(s *St, t *Term) bool // parts that may be set
	after   map[string]string                    // parts that must be set after another one
	before  map[string]bool                      // the values of these parts must be taken before the contents are replaced
	need    func(s *St) (bool, bool)             // what is known of this path: nothing to do, undecided
	edge    func(s *St, t *Term, taken bool)
	instr   func(s *St, in ssa.Instruction)
	fails   func(*Term) bool
	result  func(s *St, t *Term) string
}

func (k *K) edits(e *editSpec) {
	fn := k.fn(e.name)
	if fn == nil {
		return
	}
	construct := e.name
	k.ok(e.R, construct, k.pr.pos(fn.Pos()))
	tab := &vt{}
	res := fn.Signature.Results()
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return helperInline(s, call, callee) && !recursive(callee)
	}}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := contents(s, s.condPT(cond))
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && (t.Sym == "!=") == taken && e.fails != nil && e.fails(t.Args[0]) {
			addFlag(s, "failed")
		}
		if e.edge != nil {
			e.edge(s, t, taken)
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if c, ok := call.(*ssa.Call); ok && hasFlag(s, "set:content") {
			addFlag(s, "late:"+tab.put(call, s.Ctx, c))
		}
		o, parts := k.objEdit(s, call, nm)
		if o == nil || !e.obj(o) {
			return
		}
		for p, v := range parts {
			t := s.PTIn(v.c, v.v)
			w := e.want[p]
			if w == nil {
				w = e.opt[p]
			}
			if !k.check(w != nil, e.R, construct, k.pr.at(call), "%s is set to %s", p, t) {
				continue
			}
			k.check(w(s, t), e.R, construct, k.pr.at(call), "%s becomes %s", p, t)
			if e.before[p] {
				cv := v.v
				if c, ok := cv.(*ssa.Call); ok {
					k.check(!hasFlag(s, "late:"+tab.put(c, v.c, c)), e.R, construct, k.pr.at(call), "%s is taken from the new contents", p)
				}
			}
			for a, b := range e.after {
				if b == p {
					dropFlag(s, "set:"+a)
				}
			}
			addFlag(s, "set:"+p)
		}
	}
	n := 0
	rule.Instr = func(s *St, in ssa.Instruction) {
		if e.instr != nil {
			e.instr(s, in)
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if hasFlag(s, "failed") {
			if i := errResult(fn.Signature); i >= 0 {
				c, v := s.Root(ret.Results[i])
				k.check(!isNil(s.PTIn(c, v)), e.R, construct, k.pr.at(ret), "a failure is passed over")
			}
			return
		}
		if e.need != nil {
			nothing, undecided := e.need(s)
			if undecided {
				k.fail(e.R, construct, k.pr.at(ret), "it is not known whether there is something to do (path %s)", s.Trace())
				return
			}
			if nothing {
				for p := range e.want {
					k.check(!hasFlag(s, "set:"+p), e.R, construct, k.pr.at(ret), "%s is set though it must not be (path %s)", p, s.Trace())
				}
				return
			}
		}
		n++
		for p := range e.want {
			k.check(hasFlag(s, "set:"+p), e.R, construct, k.pr.at(ret), "%s is not set (path %s)", p, s.Trace())
		}
		if e.result != nil && res.Len() > 0 {
			c, v := s.Root(ret.Results[0])
			bad := e.result(s, s.PTIn(c, v))
			k.check(bad == "", e.R, construct, k.pr.at(ret), "%s", bad)
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, e.R, construct)
	k.check(n > 0, e.R, construct, k.pr.pos(fn.Pos()), "never does anything")
}

func runV11(k *K) {
	arg := func(n string) func(*Term) bool { return func(t *Term) bool { return isParam(unconv(t), n) } }
	from := func(m string, of func(*Term) bool) func(*St, *Term) bool {
		return func(s *St, t *Term) bool { return getter(t, m, of) }
	}
	is := func(n string) func(*St, *Term) bool {
		return func(s *St, t *Term) bool { return isParam(unconv(t), n) }
	}
	deep := func(of func(*Term) bool) func(*St, *Term) bool {
		return func(s *St, t *Term) bool {
			c := isCopy(unconv(t))
			return c != nil && of(unconv(unassert(c)))
		}
	}
	content := func(of func(*Term) bool) func(*Term) bool {
		return func(t *Term) bool { return isContent(t, func(x *Term) bool { return of(unconv(x)) }) }
	}
	// copies
	k.structural("copies", k.recursion(k.fn("object.DeepCopyAny"), 1))
	nilEdge := func(s *St, t *Term, taken bool) {
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && t.Args[0].Op == "param" && (t.Sym == "==") == taken {
			addFlag(s, "nothing")
		}
	}
	unlessNil := func(s *St) (bool, bool) { return hasFlag(s, "nothing"), false }
	k.edits(&editSpec{R: "copies", name: "object.DeepCopyInto", obj: arg("arg1"), edge: nilEdge, need: unlessNil,
		want: map[string]func(*St, *Term) bool{"content": deep(content(arg("arg0")))},
		opt:  map[string]func(*St, *Term) bool{"gvk": from("GroupVersionKind", arg("arg0"))}})
	isNew := func(t *Term) bool {
		return t.Op == "new" || t.Op == "alloc" || isCallTo(t, "object.New")
	}
	k.edits(&editSpec{R: "copies", name: "object.DeepCopy", obj: isNew, edge: nilEdge, need: unlessNil,
		want: map[string]func(*St, *Term) bool{"copy": is("arg0")},
		instr: func(s *St, in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				if t := s.PT(c); strings.HasSuffix(t.Sym, ".DeepCopy") && len(t.Args) > 0 && isParam(t.Args[0], "arg0") {
					addFlag(s, "set:copy")
				}
			}
		},
		result: func(s *St, t *Term) string {
			if isNew(t) || t.Op == "call" && strings.HasSuffix(t.Sym, ".DeepCopy") && isParam(t.Args[0], "arg0") {
				return ""
			}
			return fmt.Sprintf("the copy is %s", t)
		}})
	// contents
	self := arg("arg0")
	k.edits(&editSpec{R: "contents", name: "object.SetContent", obj: self,
		want:   map[string]func(*St, *Term) bool{"content": deep(arg("arg1")), "gvk": from("GroupVersionKind", self), "ns": from("GetNamespace", self), "name": from("GetName", self)},
		after:  map[string]string{"gvk": "content", "ns": "content", "name": "content"},
		before: map[string]bool{"gvk": true, "ns": true, "name": true}})
	k.edits(&editSpec{R: "contents", name: "object.SetName", obj: self,
		want: map[string]func(*St, *Term) bool{"ns": is("arg1"), "name": is("arg2")}})
	gvkOf := func(s *St, t *Term) bool {
		return isCallTo(t, "view/v1alpha1.GroupVersionKind") && isParam(t.Args[0], "arg0") && isParam(t.Args[1], "arg1")
	}
	anyContent := func(s *St, t *Term) bool { return !t.Has(func(x *Term) bool { return x.Op == "param" }) }
	k.edits(&editSpec{R: "contents", name: "object.NewViewObject", obj: isNew,
		want:  map[string]func(*St, *Term) bool{"gvk": gvkOf},
		opt:   map[string]func(*St, *Term) bool{"content": anyContent},
		after: map[string]string{"gvk": "content"},
		result: func(s *St, t *Term) string {
			if !isNew(t) {
				return fmt.Sprintf("the result is %s", t)
			}
			return ""
		}})
	conv := func(t *Term) bool {
		t = unconv(t)
		return t.Op == "ext" && t.Sym == "0" && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].Sym, ".ToUnstructured") && isParam(unconv(t.Args[0].Args[len(t.Args[0].Args)-1]), "arg2")
	}
	isView := func(t *Term) bool {
		return isCallTo(t, "object.NewViewObject") && isParam(t.Args[0], "arg0") && isParam(t.Args[1], "arg1")
	}
	k.edits(&editSpec{R: "contents", name: "object.NewViewObjectFromNativeObject", obj: isView,
		want: map[string]func(*St, *Term) bool{"ns": from("GetNamespace", arg("arg2")), "name": from("GetName", arg("arg2")),
			"copied": func(s *St, t *Term) bool {
				if conv(t) {
					return true
				}
				// kept in a object of its own
				if !isContent(t, isNew) {
					return false
				}
				return hasFlag(s, "converted")
			}},
		instr: func(s *St, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, is := st.Addr.(*ssa.FieldAddr); is && isNew(s.PT(fa.X)) && structOf(fa.X.Type()).Field(fa.Field).Name() == "Object" && conv(s.PT(st.Val)) {
					addFlag(s, "converted")
				}
			}
		},
		fails: func(t *Term) bool {
			return t.Op == "ext" && t.Sym == "1" && strings.HasSuffix(t.Args[0].Sym, ".ToUnstructured")
		},
		result: func(s *St, t *Term) string {
			if !isView(t) {
				return fmt.Sprintf("the result is %s", t)
			}
			return ""
		}})
	// identifiers
	gvk := func(t *Term) bool { return getter(t, "GroupVersionKind", self) }
	facts := func(s *St, t *Term, taken bool) {
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		switch {
		case isCallTo(t, "view/v1alpha1.IsViewKind") && gvk(t.Args[0]), isCallTo(t, "view/v1alpha1.IsViewObject") && self(t.Args[0]):
			addFlag(s, map[bool]string{true: "view", false: "native"}[taken])
		case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && getter(t.Args[0], "GetUID", self) && t.Args[1].Sym == `""`:
			addFlag(s, map[bool]string{true: "none", false: "some"}[(t.Sym == "==") == taken])
		}
	}
	when := func(uid, not string) func(s *St) (bool, bool) {
		return func(s *St) (bool, bool) {
			if hasFlag(s, "native") || hasFlag(s, not) {
				return true, false
			}
			return false, !hasFlag(s, "view") || !hasFlag(s, uid)
		}
	}
	k.edits(&editSpec{R: "identifiers", name: "object.WithUID", obj: self, edge: facts, need: when("none", "some"),
		want: map[string]func(*St, *Term) bool{"uid": func(s *St, t *Term) bool {
			return isCallTo(t, "object.NewUID") && gvk(t.Args[0]) && getter(t.Args[1], "GetNamespace", self) && getter(t.Args[2], "GetName", self)
		}}})
	k.edits(&editSpec{R: "identifiers", name: "object.RemoveUID", obj: self, edge: facts, need: when("some", "none"),
		want: map[string]func(*St, *Term) bool{"no uid": func(s *St, t *Term) bool { return true }}})
	k.outcome("identifiers", k.fn("object.NewUID"), "different objects get different identifiers", nil, nil, func(s *St, t *Term) string {
		t = unconv(t)
		if !isCallTo(t, "fmt.Sprintf", "fmt.Sprint", "hex.EncodeToString") {
			return fmt.Sprintf("undecided: the identifier is %s", t)
		}
		n, next, sum := 0, 0, (*Term)(nil)
		parts := []*Term{t.Args[0]}
		if !isCallTo(t, "hex.EncodeToString") {
			parts = k.elemTerms(s, t.Args[len(t.Args)-1])
		}
		for _, p := range parts {
			p = unconv(p)
			lo, hi := 0, 32
			if l, h := sliceBounds(k.R, p); p.Op == "slice" {
				fmt.Sscan(constSym(l, "0"), &lo)
				fmt.Sscan(constSym(h, "32"), &hi)
				p = p.Args[0]
			}
			for p.Op == "un" || p.Op == "deref" {
				p = p.Args[0]
			}
			if al, ok := p.V.(*ssa.Alloc); ok && wholeStore(al) != nil {
				p = s.PTIn(p.Ctx, wholeStore(al))
			}
			if !isCallTo(p, "sha256.Sum256") || sum != nil && sum.String() != p.String() {
				return fmt.Sprintf("a part of the identifier is %s", p)
			}
			sum = p
			if lo != next {
				return fmt.Sprintf("the parts of the hash are not adjacent at %d", lo)
			}
			n += hi - lo
			next = hi
		}
		if n < 16 {
			return fmt.Sprintf("only %d bytes of the hash are used", n)
		}
		var seen []string
		sep := true
		for _, p := range k.strParts(s, unconv(sum.Args[0])) {
			if p.Op == "const" {
				sep = sep || len(unq(p.Sym)) > 0
				continue
			}
			if !sep {
				return fmt.Sprintf("%s is not separated from what precedes it", p)
			}
			sep = false
			switch {
			case p.Op == "field" && isParam(p.Args[0], "arg0"):
				seen = append(seen, p.Sym)
			case isParam(p, "arg1"):
				seen = append(seen, "namespace")
			case isParam(p, "arg2"):
				seen = append(seen, "name")
			default:
				return fmt.Sprintf("undecided: the identifier is made of %s", p)
			}
		}
		sort.Strings(seen)
		if got := strings.Join(seen, " "); got != "Group Kind Version name namespace" {
			return fmt.Sprintf("the identifier is made of %s only", got)
		}
		return ""
	})
	// merging and patching
	(&combine{k: k, R: "merging", fn: k.recursion(k.fn("object.MergeAny"), 2), below: "arg0", over: "arg1", merge: true}).run()
	if rec := k.recursion(k.fn("object.Patch"), 2); k.check(rec != nil, "patching", "object.Patch", "", "undecided: nothing goes through the patch") {
		c := &combine{k: k, R: "patching", fn: rec, below: "arg0", over: "arg1"}
		c.run()
		k.edits(&editSpec{R: "patching", name: "object.Patch", obj: self,
			want: map[string]func(*St, *Term) bool{"content": func(s *St, t *Term) bool {
				r := c.rec(unassert(t))
				return r != nil && content(self)(unconv(r.Args[0])) && isParam(unconv(r.Args[1]), "arg1")
			}},
			edge: func(s *St, t *Term, taken bool) {
				for t.Op == "un" && t.Sym == "!" {
					t, taken = t.Args[0], !taken
				}
				if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && c.rec(t.Args[0].Args[0]) != nil && !taken {
					addFlag(s, "failed")
				}
			}})
	}
	k.secrets(self)
}

func constSym(t *Term, def string) string {
	if t == nil || t.Op != "const" {
		return def
	}
	return t.Sym
}

// secrets: every value of the data of a secret is decoded, in a secret only.
func (k *K) secrets(self func(*Term) bool) {
	const R = "secrets"
	fn := k.fn("object.DecodeSecretData")
	if fn == nil {
		return
	}
	isData := func(t *Term) bool {
		t = unassert(t)
		if t.Op == "ext" && t.Sym == "0" {
			t = t.Args[0]
		}
		return (t.Op == "lookup" || t.Op == "index") && t.Args[1].Sym == `"data"` && isContent(t.Args[0], func(x *Term) bool { return self(x) })
	}
	value := func(t *Term) bool { e := elemOf(unassert(t)); return e != nil && isData(e) }
	decoded := func(t *Term, i string) bool {
		t = unconv(t)
		return t.Op == "ext" && t.Sym == i && isCallTo(t.Args[0], "base64.Encoding.DecodeString") && isStd(t.Args[0].Args[0]) && value(t.Args[0].Args[1])
	}
	edge := func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		for t.Op == "un" && t.Sym == "!" {
			t, taken = t.Args[0], !taken
		}
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && getter(t.Args[0], "GetKind", self) && t.Args[1].Sym == `"Secret"` && (t.Sym == "==") == taken {
			addFlag(s, "secret")
		}
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && decoded(t.Args[0], "1") && (t.Sym == "==") == taken {
			addFlag(s, "it:ok")
		}
	}
	k.each(fn, &eachSpec{R: R, what: "every value is decoded", leaf: isData, edge: edge,
		instr: func(s *St, in ssa.Instruction) int {
			u, ok := in.(*ssa.MapUpdate)
			if !ok {
				return 0
			}
			at := k.pr.at(in)
			k.check(hasFlag(s, "secret"), R, fnName(fn), at, "the data of what may not be a secret is decoded")
			k.check(isData(s.PT(u.Map)), R, fnName(fn), at, "%s is changed", s.PT(u.Map))
			key, v := s.PT(u.Key), s.PT(u.Value)
			k.check(key.Op == "rangekey" && isData(key.Args[0]), R, fnName(fn), at, "the decoded value becomes %s", key)
			k.check(decoded(v, "0"), R, fnName(fn), at, "the value becomes %s", v)
			k.check(hasFlag(s, "it:ok"), R, fnName(fn), at, "a value that cannot be decoded is replaced")
			return 1
		},
		skip: func(s *St, cond ssa.Value, taken bool) bool {
			t := s.condPT(cond)
			for t.Op == "un" && t.Sym == "!" {
				t, taken = t.Args[0], !taken
			}
			if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && value(t.Args[0].Args[0]) {
				return !taken
			}
			return t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && decoded(t.Args[0], "1") && (t.Sym == "!=") == taken
		},
		exempt: func(s *St, cond ssa.Value, taken bool) bool {
			t := s.condPT(cond)
			for t.Op == "un" && t.Sym == "!" {
				t, taken = t.Args[0], !taken
			}
			switch {
			case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!="):
				eq := (t.Sym == "==") == taken
				return self(t.Args[0]) && isNil(t.Args[1]) && eq || getter(t.Args[0], "GetKind", self) && t.Args[1].Sym == `"Secret"` && !eq || isData(t.Args[0]) && isNil(t.Args[1]) && eq
			case t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isData(t.Args[0].Args[0]), t.Op == "ext" && t.Sym == "1" && isData(t.Args[0]):
				return !taken
			}
			return false
		},
	})
	k.outcome(R, fn, "the result", nil, nil, func(s *St, t *Term) string {
		if !self(t) && !isNil(t) {
			return fmt.Sprintf("the result is %s", t)
		}
		return ""
	})
}

func isStd(t *Term) bool {
	for t.Op == "un" || t.Op == "deref" {
		t = t.Args[0]
	}
	return strings.HasSuffix(t.Sym, "base64.StdEncoding") || strings.HasSuffix(t.String(), "base64.StdEncoding")
}
