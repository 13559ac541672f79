package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E01", "expression operators: the evaluator is explored once per operator with the branches of the other operators pruned; the value returned on every path is compared with the documented meaning of the operator", runE01)
}

const (
	evalName = "expression.Expression.Evaluate"
	argsName = "expression.AsExpOrExpList"
)

// constTerm evaluates a condition over the operator of the expression, given the operator.
func opValue(t *Term, op string) (string, bool) {
	q := func(s string) string { return `"` + s + `"` }
	b := func(x bool) string {
		if x {
			return "true"
		}
		return "false"
	}
	switch t.Op {
	case "const":
		return t.Sym, true
	case "field":
		if isField(t, "Op") && t.Args[0].Op == "param" && t.Args[0].Sym == "recv" {
			return q(op), true
		}
	case "index", "lookup":
		x, ok := opValue(t.Args[0], op)
		if ok && t.Args[1].Sym == "0" && len(x) > 2 {
			return x[1:2], true
		}
	case "slice":
		if v, ok := t.V.(*ssa.Slice); ok && v.Low == nil && v.High != nil {
			if n, ok := intConst(v.High); ok {
				if x, ok := opValue(t.Args[0], op); ok && int(n) <= len(x)-2 {
					return q(x[1 : 1+n]), true
				}
			}
		}
	case "un":
		if x, ok := opValue(t.Args[0], op); ok && t.Sym == "!" {
			return b(x == "false"), true
		}
	case "call":
		if isCallTo(t, "builtin.len") {
			if x, ok := opValue(t.Args[0], op); ok {
				return itoaN(len(x) - 2), true
			}
		}
		if isCallTo(t, "strings.HasPrefix") {
			x, ok := opValue(t.Args[0], op)
			y, ok2 := opValue(t.Args[1], op)
			if ok && ok2 {
				return b(strings.HasPrefix(strings.Trim(x, `"`), strings.Trim(y, `"`))), true
			}
		}
	case "bin":
		x, ok := opValue(t.Args[0], op)
		y, ok2 := opValue(t.Args[1], op)
		if !ok || !ok2 {
			return "", false
		}
		ch := func(s string) string {
			if s == "64" {
				return "@"
			}
			return strings.Trim(s, `"`)
		}
		switch t.Sym {
		case "==":
			return b(x == y || ch(x) == ch(y)), true
		case "!=":
			return b(!(x == y || ch(x) == ch(y))), true
		case ">":
			if x == "0" {
				return "false", true
			}
			if y == "0" {
				return b(x != "0"), true
			}
		case "<":
			if x == "0" {
				return b(y != "0"), true
			}
		}
	}
	return "", false
}

// contents replaces local copies of expressions by what was copied.
func contents(s *St, t *Term) *Term { return contentsN(s, t, 0) }

func contentsN(s *St, t *Term, d int) *Term {
	if t == nil || d > 12 {
		return t
	}
	if al, ok := t.V.(*ssa.Alloc); ok && t.Op == "alloc" && structOf(al.Type()) != nil {
		if f, ok := s.env[envKey{t.Ctx.id, al, contIdx}]; ok {
			c, v := s.root(f)
			return contentsN(s, s.PTIn(c, v), d+1)
		}
		if sv := wholeStore(al); sv != nil {
			return contentsN(s, s.PTIn(t.Ctx, sv), d+1)
		}
		return t
	}
	if t.Op == "un" && t.Sym == "*" && len(t.Args) == 1 {
		return contentsN(s, t.Args[0], d+1)
	}
	if len(t.Args) == 0 || t.Op == "phi" {
		return t
	}
	n := *t
	n.str = ""
	n.Args = make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		n.Args[i] = contentsN(s, a, d+1)
		ch = ch || n.Args[i] != a
	}
	if !ch {
		return t
	}
	return &n
}

// ev is the exploration of the evaluator for one operator.
type ev struct {
	k        *K
	R, op    string
	spec     *opSpec
	outcomes map[string]bool
}

type opSpec struct {
	// pred: the term is (+1) or negates (-1) the value of a boolean operator
	pred func(e *ev, s *St, t *Term) int
	// loop: the collection whose elements are all visited
	loop func(e *ev, s *St, t *Term) bool
	// elem: the term is (+1) or negates (-1) the condition tested on an element
	elem func(e *ev, s *St, t *Term) int
	// done: the element is dealt with by this instruction
	done func(e *ev, s *St, in ssa.Instruction) bool
	edge func(e *ev, s *St, t *Term, taken bool)
	call func(e *ev, s *St, call ssa.CallInstruction, nm string)
	// exit: what is wrong with returning t
	exit func(e *ev, s *St, t *Term) string
	// outcomes that must be possible
	needs []string
	lazy  string // no element is evaluated after one of this value
}

func isArg(t *Term) bool {
	return isField(t, "Arg") && isParam(t.Args[0], "recv")
}

// valueOf: the result of evaluating an expression.
func valueOf(t *Term) *Term {
	if c := extOf(t, 0, evalName); c != nil {
		return c.Args[0]
	}
	return nil
}

// isE: the value of the argument.
func isE(t *Term) bool { x := valueOf(t); return x != nil && isArg(x) }

// opArg: argument i of the operator, not evaluated; -1: any one of them in a loop
func opArg(t *Term, i int) bool {
	if t == nil || t.Op != "index" {
		return false
	}
	c := extOf(t.Args[0], 0, argsName)
	if c == nil || !isArg(c.Args[0]) {
		return false
	}
	return idxIs(t, i)
}

func idxIs(t *Term, i int) bool {
	if i >= 0 {
		return t.Args[1].Op == "const" && t.Args[1].Sym == itoaN(i)
	}
	return t.Args[1].Op != "const"
}

// convOf: result i of a conversion; returns what was converted.
func convOf(t *Term, i int, names ...string) *Term {
	for n := range names {
		names[n] = "expression." + strings.TrimPrefix(names[n], "expression.")
	}
	if c := extOf(t, i, names...); c != nil {
		return c.Args[0]
	}
	return nil
}

// listArg: element i of the argument converted to a list.
func listArg(t *Term, i int, conv string) bool {
	if t == nil || t.Op != "index" || !idxIs(t, i) {
		return false
	}
	x := convOf(t.Args[0], 0, conv)
	return x != nil && isE(x)
}

// truth: what is known of a boolean on this path.
func (s *St) truth(v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if a := s.val(s.Ctx, v, 0); a == "true" || a == "false" {
		return string(a)
	}
	c, w := s.Root(v)
	if u, ok := w.(*ssa.UnOp); ok && u.Op == token.NOT {
		cc, x := s.RootIn(c, u.X)
		switch s.val(cc, x, 0) {
		case "true":
			return "false"
		case "false":
			return "true"
		}
		return ""
	}
	if a := s.val(c, w, 0); a == "true" || a == "false" {
		return string(a)
	}
	return ""
}

// countEdge excludes the small numbers that do not satisfy a condition on a count.
func countEdge(s *St, t *Term, taken bool, is func(*Term) bool, pfx string) {
	t, n := neg(t)
	taken = taken != n
	if t.Op != "bin" {
		return
	}
	l, c, op := t.Args[0], t.Args[1], t.Sym
	if l.Op == "const" {
		l, c = c, l
		if o := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]; o != "" {
			op = o
		}
	}
	if c.Op != "const" || !is(l) {
		return
	}
	f := parseFlags(s.Auto)
	left, last := 0, ""
	for i := 0; i < 6; i++ {
		x := map[bool]int{true: 1, false: 0}
		lim := -1
		for j := 0; j < 8; j++ {
			if itoaN(j) == c.Sym {
				lim = j
			}
		}
		if lim < 0 {
			return
		}
		v := map[string]int{"==": x[i == lim], "!=": x[i != lim], "<": x[i < lim], "<=": x[i <= lim], ">": x[i > lim], ">=": x[i >= lim]}[op] == 1
		if v != taken {
			f[pfx+"!"+itoaN(i)] = true
		}
		if !f[pfx+"!"+itoaN(i)] {
			left++
			last = itoaN(i)
		}
	}
	if left == 0 {
		s.Stop = true
	}
	if left == 1 && last != "5" {
		f[pfx+"="+last] = true
	}
	s.Auto = f.String()
}

// neg strips negations.
func neg(t *Term) (*Term, bool) {
	n := false
	for t.Op == "un" && t.Sym == "!" {
		t, n = t.Args[0], !n
	}
	return t, n
}

func sgn(b bool) int {
	if b {
		return 1
	}
	return -1
}

// numSide: which of the numeric results (ints, floats) of a conversion the term is.
func numSide(t *Term, conv string) string {
	for i, n := range []string{"int", "float"} {
		if x := convOf(t, i, conv); x != nil && isE(x) {
			return n
		}
	}
	return ""
}

// kindOK: the numbers of that kind are the ones to be used on this path.
func kindOK(s *St, side, pfx string) bool {
	f := parseFlags(s.Auto)
	switch side {
	case "int":
		return f[pfx+"=6"] || f[pfx+"!14"]
	case "float":
		return f[pfx+"=14"] || f[pfx+"!6"]
	}
	return false
}

// kindEdge records what is known of the kind of the numbers; kinds other than int64 and float64 come
// with an error.
func kindEdge(s *St, t *Term, taken bool, is func(*Term) bool, pfx string) bool {
	if !enumEdge(s, t, taken, is, pfx) {
		return false
	}
	f := parseFlags(s.Auto)
	if f[pfx+"!6"] && f[pfx+"!14"] {
		s.Stop = true
	}
	return true
}

// pair: both sides of a binary numeric operation; returns the operator as if the first argument was on
// the left.
func pair(e *ev, s *St, t *Term, conv string) (string, string) {
	if t.Op != "bin" || t.Args[0].Op != "index" || t.Args[1].Op != "index" {
		return "", ""
	}
	a, b := t.Args[0], t.Args[1]
	op := t.Sym
	if idxIs(a, 1) && idxIs(b, 0) {
		a, b = b, a
		sw := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "+": "+", "*": "*"}
		op = sw[op]
	}
	sd := numSide(a.Args[0], conv)
	if !idxIs(a, 0) || !idxIs(b, 1) || sd == "" || sd != numSide(b.Args[0], conv) {
		return "", ""
	}
	return op, sd
}

func numKind(conv string) func(*Term) bool {
	return func(t *Term) bool { x := convOf(t, 2, conv); return x != nil && isE(x) }
}

func compare(op string) *opSpec {
	const conv = "AsBinaryIntOrFloatList"
	inv := map[string]string{"<": ">=", ">=": "<", ">": "<=", "<=": ">"}
	return &opSpec{
		edge: func(e *ev, s *St, t *Term, taken bool) { kindEdge(s, t, taken, numKind(conv), "kind") },
		pred: func(e *ev, s *St, t *Term) int {
			o, side := pair(e, s, t, conv)
			switch {
			case o == "" || !kindOK(s, side, "kind"):
				return 0
			case o == op:
				return 1
			case o == inv[op]:
				return -1
			}
			return 0
		},
	}
}

func arith(op string) *opSpec {
	const conv = "AsBinaryIntOrFloatList"
	return &opSpec{
		edge: func(e *ev, s *St, t *Term, taken bool) {
			if kindEdge(s, t, taken, numKind(conv), "kind") {
				return
			}
			// a successful conversion yields two numbers
			for _, side := range []string{"int", "float"} {
				if lenEdge(s, t, taken, func(x *Term) bool { return numSide(x, conv) == side && kindOK(s, side, "kind") }, "some") && hasFlag(s, "!some") {
					s.Stop = true
				}
			}
		},
		exit: func(e *ev, s *St, t *Term) string {
			o, side := pair(e, s, t, conv)
			if o != op || !kindOK(s, side, "kind") {
				return "not the two arguments combined with " + op
			}
			return ""
		},
	}
}

func unaryFloat(f string) *opSpec {
	return &opSpec{exit: func(e *ev, s *St, t *Term) string {
		if isCallTo(t, f) {
			if x := convOf(t.Args[0], 0, "AsFloat"); x != nil && isE(x) {
				return ""
			}
		}
		return "not " + f + " of the argument"
	}}
}

func nilTest(want int) *opSpec {
	return &opSpec{pred: func(e *ev, s *St, t *Term) int {
		x, eq, ok := eqConst(t, "nil", true)
		if !ok || !isE(x) {
			return 0
		}
		return want * sgn(eq)
	}}
}

func extreme(f string) *opSpec {
	const conv = "AsIntOrFloatList"
	return &opSpec{
		edge: func(e *ev, s *St, t *Term, taken bool) {
			if kindEdge(s, t, taken, numKind(conv), "kind") {
				return
			}
			for _, side := range []string{"int", "float"} {
				lenEdge(s, t, taken, func(x *Term) bool { return numSide(x, conv) == side && kindOK(s, side, "kind") }, "some")
			}
		},
		exit: func(e *ev, s *St, t *Term) string {
			if isNil(t) {
				if hasFlag(s, "!some") {
					e.outcomes["none"] = true
					return ""
				}
				return "nothing although the list may not be empty"
			}
			if isCallTo(t, f) && kindOK(s, numSide(t.Args[0], conv), "kind") {
				e.outcomes["some"] = true
				if !hasFlag(s, "some") {
					return "taken from a list that may be empty"
				}
				return ""
			}
			return "not " + f + " of the argument"
		},
		needs: []string{"none", "some"},
	}
}

// isElem: an element of the list being iterated over.
func isElem(t, list *Term) bool {
	return t != nil && t.Op == "index" && idxIs(t, -1) && t.Args[0].String() == list.String()
}

// listOpElem: an element of the list that the second argument evaluates to.
func listOpList(t *Term) bool {
	x := convOf(t, 0, "AsList")
	return x != nil && valueOf(x) != nil && opArg(valueOf(x), 1)
}

func listOpElem(t *Term) bool {
	return t != nil && t.Op == "index" && idxIs(t, -1) && listOpList(t.Args[0])
}

// isBoolOf: the truth of the value of an expression.
func isBoolOf(t *Term, who func(*Term) bool) bool {
	x := convOf(t, 0, "AsBool")
	return x != nil && valueOf(x) != nil && who(valueOf(x))
}

// junction: the conjunction (all) or disjunction of the arguments.
func junction(all bool) *opSpec {
	return &opSpec{
		loop: func(e *ev, s *St, t *Term) bool {
			c := extOf(t, 0, argsName)
			return c != nil && isArg(c.Args[0])
		},
		elem: func(e *ev, s *St, t *Term) int {
			if isBoolOf(t, func(x *Term) bool { return opArg(x, -1) }) {
				return 1
			}
			return 0
		},
		exit:  quantified(all, true),
		needs: []string{"true", "false"},
		lazy:  map[bool]string{true: "saw:false", false: "saw:true"}[all],
	}
}

// quantified: "all elements satisfy" (value when they do: pos) or its dual.
func quantified(all, pos bool) func(e *ev, s *St, t *Term) string {
	return func(e *ev, s *St, t *Term) string {
		f := parseFlags(s.Auto)
		dec := "saw:true" // what decides early
		if all {
			dec = "saw:false"
		}
		v := t.Sym
		if t.Op != "const" || v != "true" && v != "false" {
			return "undecided: how is it computed?"
		}
		e.outcomes[v] = true
		if (v == "true") == (all == pos) {
			if !f["all"] || f["miss"] {
				return "decided before every element was tested"
			}
			if f[dec] {
				return "decided although an element says otherwise"
			}
			return ""
		}
		if !f[dec] {
			return "decided without an element that says so"
		}
		return ""
	}
}

func perElem(all, pos bool) *opSpec {
	return &opSpec{
		loop: func(e *ev, s *St, t *Term) bool { return listOpList(t) },
		elem: func(e *ev, s *St, t *Term) int {
			if isBoolOf(t, func(x *Term) bool { return opArg(x, 0) }) {
				return 1
			}
			return 0
		},
		exit:  quantified(all, pos),
		needs: []string{"true", "false"},
	}
}

// emptyList: a list nothing was put into.
func emptyList(t *Term) bool {
	if strings.HasPrefix(t.Sym, "make:[]") && t.Op == "alloc" {
		return true
	}
	return t.Op == "slice" && len(t.Args) == 1 && strings.HasPrefix(t.Args[0].Sym, "new:[0]")
}

// collected: the list of what was appended.
func collected(e *ev, s *St, t *Term) string {
	f := parseFlags(s.Auto)
	switch {
	case !f["all"] || f["miss"]:
		return "returned before every element was visited"
	case emptyList(t) && f["placed"]:
		e.outcomes["some"] = true
	case emptyList(t):
		e.outcomes["none"] = true
		if f["put"] {
			return "what was collected is dropped"
		}
	case isCallTo(t, "builtin.append"):
		e.outcomes["some"] = true
	default:
		return "not the list of what was collected"
	}
	return ""
}

// puts: the instruction appends one value, which must be as told.
func puts(is func(e *ev, s *St, c ctxVal) string) func(e *ev, s *St, in ssa.Instruction) bool {
	return func(e *ev, s *St, in ssa.Instruction) bool {
		if st, ok := in.(*ssa.Store); ok {
			return e.place(s, st, is)
		}
		c, ok := in.(*ssa.Call)
		if !ok || !isAppend(c) || typeShort(c.Type()) != "[]any" && typeShort(c.Type()) != "[]interface {}" {
			return false
		}
		cc, v := s.Root(c.Call.Args[1])
		els := e.k.sliceElems(cc, v)
		bad := ""
		if len(els) != 1 {
			bad = "undecided: what is collected?"
		} else {
			bad = is(e, s, els[0])
		}
		e.k.check(bad == "", e.R, e.construct(), e.k.pr.at(in), "%s (path %s)", bad, s.Trace())
		addFlag(s, "put")
		return true
	}
}

// place: a value is put at its place in a list of the right length.
func (e *ev) place(s *St, st *ssa.Store, is func(e *ev, s *St, c ctxVal) string) bool {
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	_, m := s.Root(ia.X)
	ms, ok := m.(*ssa.MakeSlice)
	if !ok || !induction(ia.Index) {
		return false
	}
	n := contents(s, s.PT(ms.Len))
	bad := ""
	if !isCallTo(n, "builtin.len") || e.spec.loop == nil || !e.spec.loop(e, s, n.Args[0]) {
		bad = "undecided: how long is the list?"
	} else {
		bad = is(e, s, ctxVal{s.Ctx, st.Val})
	}
	e.k.check(bad == "", e.R, e.construct(), e.k.pr.at(st), "%s (path %s)", bad, s.Trace())
	addFlag(s, "put")
	addFlag(s, "placed")
	return true
}

func (e *ev) construct() string { return "operator " + e.op }

func (e *ev) term(s *St, c ctxVal) *Term { return contents(s, s.PTIn(c.c, c.v)) }

// literalOp: @bool, @int, @float: the literal, or the value of the argument, converted.
func literalOp(conv string, exit func(e *ev, s *St, t *Term) string) *opSpec {
	conv = "expression." + conv
	return &opSpec{
		edge: func(e *ev, s *St, t *Term, taken bool) { nilEdge(s, t, taken, isArg, "arg") },
		call: func(e *ev, s *St, call ssa.CallInstruction, nm string) {
			if nm != conv {
				return
			}
			a := contents(s, s.PT(call.Common().Args[0]))
			lit := isField(a, "Literal") && isParam(a.Args[0], "recv") && hasFlag(s, "arg:nil")
			ok := lit || isE(a) && hasFlag(s, "arg:set")
			e.k.check(ok, e.R, e.construct(), e.k.pr.at(call), "what is converted is neither the value of the argument nor, without an argument, the literal: %s (path %s)", short(a), s.Trace())
			if lit {
				e.outcomes["literal"] = true
			} else {
				e.outcomes["argument"] = true
			}
			addFlag(s, "conv")
		},
		exit: func(e *ev, s *St, t *Term) string {
			if exit != nil {
				return exit(e, s, t)
			}
			if extOf(t, 0, conv) == nil || !hasFlag(s, "conv") {
				return "not the converted literal or argument"
			}
			return ""
		},
		needs: []string{"literal", "argument"},
	}
}

var opSpecs = map[string]*opSpec{
	"@bool":  literalOp("AsBool", nil),
	"@int":   literalOp("AsInt", nil),
	"@float": literalOp("AsFloat", nil),
	"@string": func() *opSpec {
		path := func(t *Term) bool {
			c := extOf(t, 0, "expression.GetJSONPath")
			return c != nil && isParam(c.Args[0], "arg0") && extOf(c.Args[1], 0, "expression.AsString") != nil
		}
		sp := literalOp("AsString", func(e *ev, s *St, t *Term) string {
			switch {
			case path(t):
				e.outcomes["value"] = true
				if hasFlag(s, "now") {
					return "the current time is not filled in"
				}
			case t.Has(func(x *Term) bool { return isCallTo(x, "time.Now") }) && hasFlag(s, "now"):
				e.outcomes["now"] = true
			default:
				return "neither what the string refers to nor the time"
			}
			if !hasFlag(s, "conv") {
				return "not the converted literal or argument"
			}
			return ""
		})
		inner := sp.edge
		sp.edge = func(e *ev, s *St, t *Term, taken bool) {
			inner(e, s, t, taken)
			if x, eq, ok := eqConst(t, `"@now"`, taken); ok && path(x) && eq {
				addFlag(s, "now")
			}
		}
		sp.needs = append(sp.needs, "value", "now")
		return sp
	}(),
	"@list": {
		edge: func(e *ev, s *St, t *Term, taken bool) { nilEdge(s, t, taken, isArg, "arg") },
		loop: func(e *ev, s *St, t *Term) bool { return isField(t, "Literal") && isParam(t.Args[0], "recv") },
		done: puts(func(e *ev, s *St, c ctxVal) string {
			x := valueOf(e.term(s, c))
			if x == nil || x.Op != "index" || !idxIs(x, -1) || !isField(x.Args[0], "Literal") {
				return "what is collected is not the value of the element"
			}
			return ""
		}),
		exit: func(e *ev, s *St, t *Term) string {
			if hasFlag(s, "arg:nil") && (!hasFlag(s, "all") || hasFlag(s, "miss")) {
				return "returned before every element was evaluated"
			}
			if hasFlag(s, "arg:nil") {
				e.outcomes["literal"] = true
			} else {
				e.outcomes["argument"] = true
			}
			return ""
		},
		needs: []string{"literal", "argument"},
	},
	"@dict": {
		edge: func(e *ev, s *St, t *Term, taken bool) { nilEdge(s, t, taken, isArg, "arg") },
		loop: func(e *ev, s *St, t *Term) bool {
			return isField(t, "Literal") && isParam(t.Args[0], "recv") || strings.HasPrefix(t.Sym, "make:[]string") || isCallTo(t, "builtin.append")
		},
		done: func(e *ev, s *St, in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok {
				return false
			}
			if isAppend(c) {
				els := e.k.sliceElemsOn(s, c.Call.Args[1])
				return len(els) == 1 && els[0].Op == "rangekey"
			}
			if f := c.Common().StaticCallee(); f == nil || fnName(f) != "expression.SetJSONPath" {
				return false
			}
			a := c.Common().Args
			k, v, m := contents(s, s.PT(a[1])), contents(s, s.PT(a[2])), s.PT(a[3])
			x := valueOf(v)
			bad := ""
			switch {
			case !isParam(s.PT(a[0]), "arg0"):
				bad = "the value is not resolved in the context of the evaluation"
			case x == nil || x.Op != "lookup" && x.Op != "index" && x.Op != "ext" && x.Op != "rangeval" || !x.Has(func(y *Term) bool { return isField(y, "Literal") && isParam(y.Args[0], "recv") }):
				bad = "what is set is not the value of an entry: " + short(v)
			case !x.Has(func(y *Term) bool { return y.String() == k.String() }) && !(k.Op == "rangekey"):
				bad = "what is set at " + short(k) + " is the value of another key: " + short(v)
			case !strings.HasPrefix(m.Sym, "make:map"):
				bad = "what is filled is not a new map: " + short(m)
			}
			e.k.check(bad == "", e.R, e.construct(), e.k.pr.at(in), "%s (path %s)", bad, s.Trace())
			return true
		},
		exit: func(e *ev, s *St, t *Term) string {
			if hasFlag(s, "arg:nil") {
				if !hasFlag(s, "all") || hasFlag(s, "miss") {
					return "returned before every entry was evaluated"
				}
				if !strings.HasPrefix(t.Sym, "make:map") {
					return "not the map that was filled"
				}
				e.outcomes["literal"] = true
				return ""
			}
			e.outcomes["argument"] = true
			if !isE(t) {
				return "not the value of the argument"
			}
			return ""
		},
		needs: []string{"literal", "argument"},
	},
	"@noop": {exit: func(e *ev, s *St, t *Term) string {
		if !isNil(t) {
			return "not null"
		}
		return ""
	}},
	"@cond": {
		edge: func(e *ev, s *St, t *Term, taken bool) {
			boolEdge(s, t, taken, func(x *Term) bool { return isBoolOf(x, func(y *Term) bool { return opArg(y, 0) }) }, "cond")
			argCount(s, t, taken)
		},
		call: func(e *ev, s *St, call ssa.CallInstruction, nm string) {
			if nm != evalName {
				return
			}
			a := contents(s, s.PT(call.Common().Args[0]))
			if opArg(a, 1) && !hasFlag(s, "cond") || opArg(a, 2) && !hasFlag(s, "!cond") {
				e.k.fail(e.R, e.construct(), e.k.pr.at(call), "a branch is evaluated although the condition does not select it (path %s)", s.Trace())
			}
		},
		exit: func(e *ev, s *St, t *Term) string {
			x := valueOf(t)
			switch {
			case hasFlag(s, "cond"):
				e.outcomes["then"] = true
				if !opArg(x, 1) {
					return "not the value of the first branch although the condition holds"
				}
			case hasFlag(s, "!cond"):
				if isNil(t) {
					e.outcomes["none"] = true
					if !hasFlag(s, "n=2") && !hasFlag(s, "n!3") {
						return "null although there is a second branch"
					}
					return ""
				}
				e.outcomes["else"] = true
				if !opArg(x, 2) {
					return "not the value of the second branch although the condition does not hold"
				}
			default:
				return "decided without testing the condition"
			}
			return ""
		},
		needs: []string{"then", "else", "none"},
	},
	"@definedOr": {
		edge: func(e *ev, s *St, t *Term, taken bool) {
			nilEdge(s, t, taken, func(x *Term) bool { return opArg(valueOf(x), 0) }, "first")
		},
		call: func(e *ev, s *St, call ssa.CallInstruction, nm string) {
			if nm == evalName && opArg(contents(s, s.PT(call.Common().Args[0])), 1) && !hasFlag(s, "first:nil") {
				e.k.fail(e.R, e.construct(), e.k.pr.at(call), "the default is evaluated although it may not be needed (path %s)", s.Trace())
			}
		},
		exit: func(e *ev, s *St, t *Term) string {
			x := valueOf(t)
			switch {
			case opArg(x, 0) && hasFlag(s, "first:set"):
				e.outcomes["first"] = true
			case opArg(x, 1) && hasFlag(s, "first:nil"):
				e.outcomes["default"] = true
			default:
				return "not the first argument, or the second one when the first is null"
			}
			return ""
		},
		needs: []string{"first", "default"},
	},
	"@switch": {
		loop: junction(true).loop,
		elem: func(e *ev, s *St, t *Term) int {
			if isBoolOf(t, func(x *Term) bool { return switchPart(x, 0) }) {
				return 1
			}
			return 0
		},
		call: func(e *ev, s *St, call ssa.CallInstruction, nm string) {
			if nm == evalName && switchPart(contents(s, s.PT(call.Common().Args[0])), 1) && !hasFlag(s, "it:true") {
				e.k.fail(e.R, e.construct(), e.k.pr.at(call), "an action is evaluated although its case does not match (path %s)", s.Trace())
			}
		},
		exit: func(e *ev, s *St, t *Term) string {
			f := parseFlags(s.Auto)
			if isNil(t) {
				e.outcomes["none"] = true
				if !f["all"] || f["miss"] || f["saw:true"] {
					return "null although a case may match"
				}
				return ""
			}
			e.outcomes["action"] = true
			if !switchPart(valueOf(t), 1) || !f["it:true"] {
				return "not the action of the first case that matches"
			}
			return ""
		},
		needs: []string{"none", "action"},
		lazy:  "saw:true",
	},
	"@and":  junction(true),
	"@or":   junction(false),
	"@any":  perElem(false, true),
	"@all":  perElem(true, true),
	"@none": perElem(false, false),
	"@filter": {
		loop: func(e *ev, s *St, t *Term) bool { return listOpList(t) },
		elem: perElem(true, true).elem,
		done: puts(func(e *ev, s *St, c ctxVal) string {
			if !listOpElem(e.term(s, c)) {
				return "what is collected is not the element"
			}
			if !hasFlag(s, "it:true") {
				return "an element is collected that may not satisfy the condition"
			}
			return ""
		}),
		exit:  collected,
		needs: []string{"none", "some"},
	},
	"@map": {
		loop: func(e *ev, s *St, t *Term) bool { return listOpList(t) },
		done: puts(func(e *ev, s *St, c ctxVal) string {
			if !opArg(valueOf(e.term(s, c)), 0) {
				return "what is collected is not the value of the expression for the element"
			}
			return ""
		}),
		exit:  collected,
		needs: []string{"none", "some"},
	},
	"@isnil":  nilTest(1),
	"@exists": nilTest(-1),
	"@has":    nilTest(-1),
	"@not": {pred: func(e *ev, s *St, t *Term) int {
		x := convOf(t, 0, "AsBool")
		if x != nil && isE(x) {
			return -1
		}
		return 0
	}},
	"@eq": {
		edge: func(e *ev, s *St, t *Term, taken bool) {
			for i, n := range []string{"n0", "n1"} {
				nilEdge(s, t, taken, func(x *Term) bool { return listArg(x, i, "AsList") }, n)
			}
		},
		pred: func(e *ev, s *St, t *Term) int {
			if isDeepEqual(t) {
				return 1
			}
			return 0
		},
		exit: func(e *ev, s *St, t *Term) string {
			f := parseFlags(s.Auto)
			known := f["n0:set"] || f["n1:set"]
			switch {
			case isDeepEqual(t):
				if !known {
					return "two missing values are taken as equal"
				}
			case t.Sym == "true":
				if !f["P:true"] || !known {
					return "true although the arguments may differ"
				}
			case t.Sym == "false":
				if !f["P:false"] && !f["n0:nil"] && !f["n1:nil"] {
					return "false although the arguments may be equal"
				}
			default:
				return "not the deep equality of the arguments"
			}
			return ""
		},
	},
	"@lt":  compare("<"),
	"@lte": compare("<="),
	"@gt":  compare(">"),
	"@gte": compare(">="),
	"@add": arith("+"),
	"@sub": arith("-"),
	"@mul": arith("*"),
	"@div": {
		edge: func(e *ev, s *St, t *Term, taken bool) {
			for i, n := range []string{"k0", "k1"} {
				kindEdge(s, t, taken, func(x *Term) bool {
					y := convOf(x, 2, "AsIntOrFloat")
					return listArg(y, i, "AsList")
				}, n)
			}
		},
		exit: func(e *ev, s *St, t *Term) string {
			if t.Op != "bin" || t.Sym != "/" {
				return "not a quotient"
			}
			if v, ok := t.V.(*ssa.BinOp); !ok || typeShort(v.Type()) != "float64" {
				return "not a quotient of floating-point numbers"
			}
			for i, n := range []string{"k0", "k1"} {
				good := false
				for j, side := range []string{"int", "float"} {
					y := convOf(t.Args[i], j, "AsIntOrFloat")
					good = good || listArg(y, i, "AsList") && kindOK(s, side, n)
				}
				if !good {
					f := convOf(t.Args[i], 0, "AsFloat")
					if !listArg(f, i, "AsList") {
						return "argument " + itoaN(i+1) + " is not used as it is"
					}
				}
			}
			return ""
		},
	},
	"@abs":   unaryFloat("math.Abs"),
	"@ceil":  unaryFloat("math.Ceil"),
	"@floor": unaryFloat("math.Floor"),
	"@min":   extreme("slices.Min"),
	"@max":   extreme("slices.Max"),
	"@sum": {
		edge: func(e *ev, s *St, t *Term, taken bool) {
			kindEdge(s, t, taken, numKind("AsIntOrFloatList"), "kind")
		},
		loop: func(e *ev, s *St, t *Term) bool {
			sd := numSide(t, "AsIntOrFloatList")
			return sd != "" && kindOK(s, sd, "kind")
		},
		done: func(e *ev, s *St, in ssa.Instruction) bool {
			b, ok := in.(*ssa.BinOp)
			return ok && b.Op == token.ADD && elementOf(s, b.X, b.Y, func(t *Term) bool { return numSide(t, "AsIntOrFloatList") != "" })
		},
		exit: func(e *ev, s *St, t *Term) string {
			if !hasFlag(s, "all") || hasFlag(s, "miss") {
				return "returned before every number was added"
			}
			return accumulated(t, "0", func(x *Term) bool { return numSide(x, "AsIntOrFloatList") != "" })
		},
	},
	"@concat": {
		loop: func(e *ev, s *St, t *Term) bool { return stringList(t) },
		done: func(e *ev, s *St, in ssa.Instruction) bool {
			if b, ok := in.(*ssa.BinOp); ok && b.Op == token.ADD {
				return elementOf(s, b.Y, b.Y, stringList)
			}
			if strings.HasSuffix(staticName(in), ".WriteString") {
				c := in.(ssa.CallInstruction).Common()
				return elementOf(s, c.Args[len(c.Args)-1], c.Args[len(c.Args)-1], stringList)
			}
			return false
		},
		exit: func(e *ev, s *St, t *Term) string {
			if isCallTo(t, "strings.Join") {
				if !stringList(t.Args[0]) || t.Args[1].Sym != `""` {
					return "not the strings one after the other"
				}
				return ""
			}
			if !hasFlag(s, "all") || hasFlag(s, "miss") {
				return "returned before every string was appended"
			}
			if strings.HasSuffix(t.Sym, "Builder.String") || strings.HasSuffix(t.Sym, "Buffer.String") {
				return ""
			}
			for _, a := range t.Alts() {
				if a.Op == "bin" && !(a.Args[1].Op == "index" && stringList(a.Args[1].Args[0])) {
					return "the strings are not in order"
				}
			}
			return accumulated(t, `""`, stringList)
		},
	},
	"@len": {exit: func(e *ev, s *St, t *Term) string {
		if isCallTo(t, "builtin.len") {
			if x := convOf(t.Args[0], 0, "AsList"); x != nil && isE(x) {
				return ""
			}
		}
		return "not the number of items of the argument"
	}},
	"@in": {
		loop: func(e *ev, s *St, t *Term) bool {
			x := convOf(t, 0, "AsList")
			return listArg(x, 1, "AsList")
		},
		elem: func(e *ev, s *St, t *Term) int {
			if !isCallTo(t, "reflect.DeepEqual") {
				return 0
			}
			for i := 0; i < 2; i++ {
				el := t.Args[i]
				if listArg(t.Args[1-i], 0, "AsList") && el.Op == "index" && idxIs(el, -1) && listArg(convOf(el.Args[0], 0, "AsList"), 1, "AsList") {
					return 1
				}
			}
			return 0
		},
		exit:  quantified(false, true),
		needs: []string{"true", "false"},
	},
	"@range": {
		edge: func(e *ev, s *St, t *Term, taken bool) {
			if t, n := neg(t); t.Op == "bin" && len(t.Args) == 2 {
				for i, op := range []string{t.Sym, map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[t.Sym]} {
					if listArg(t.Args[i], 0, "AsIntList") && listArg(t.Args[1-i], 1, "AsIntList") {
						if up := op == ">" || op == ">="; up && taken != n || op == "<" && taken == n {
							addFlag(s, "empty")
						}
					}
				}
			}
		},
		loop: func(e *ev, s *St, t *Term) bool { return listArg(t, 1, "AsIntList") },
		done: puts(func(e *ev, s *St, c ctxVal) string {
			p, ok := c.v.(*ssa.Phi)
			if mi, isMI := c.v.(*ssa.MakeInterface); isMI {
				p, ok = mi.X.(*ssa.Phi)
			}
			if !ok || !induction(p) {
				return "undecided: what is collected?"
			}
			for _, x := range p.Edges {
				if b, ok := x.(*ssa.BinOp); ok && b.X == ssa.Value(p) {
					if n, _ := intConst(b.Y); b.Op != token.ADD || n != 1 {
						return "the numbers are not consecutive"
					}
					continue
				}
				if t := s.PTIn(c.c, x); !listArg(t, 0, "AsIntList") {
					return "the numbers do not start with the first argument: " + short(t)
				}
			}
			return ""
		}),
		exit: func(e *ev, s *St, t *Term) string {
			if emptyList(t) && hasFlag(s, "empty") {
				e.outcomes["none"] = true
				return ""
			}
			return collected(e, s, t)
		},
		needs: []string{"none", "some"},
	},
	"@hash": {exit: func(e *ev, s *St, t *Term) string {
		hash := func(x *Term) bool {
			if !isCallTo(x, "base36.Md5Base36") {
				return false
			}
			c := extOf(x.Args[0], 0, "json.Marshal")
			return c != nil && isE(c.Args[0])
		}
		if t.Op == "slice" && allAlts(t.Args[0], func(x *Term) bool { return hash(x) || x.Op == "bin" && x.Sym == "+" && hash(x.Args[0]) }) {
			v, ok := t.V.(*ssa.Slice)
			if !ok {
				return "undecided: which part of the hash?"
			}
			lo := int64(0)
			if v.Low != nil {
				lo, ok = intConst(v.Low)
			}
			hi, ok2 := int64(0), false
			if v.High != nil {
				hi, ok2 = intConst(v.High)
			}
			if !ok || !ok2 || hi-lo != 6 {
				return "not six characters"
			}
			e.outcomes["cut"] = true
			return ""
		}
		if t.Op == "bin" && t.Sym == "+" && hash(t.Args[0]) {
			return ""
		}
		return "not the short hash of the argument"
	}, needs: []string{"cut"}},
	"@rnd": {exit: func(e *ev, s *St, t *Term) string {
		lo := func(x *Term) bool { return listArg(x, 0, "AsIntList") }
		hi := func(x *Term) bool { return listArg(x, 1, "AsIntList") }
		if t.Op == "bin" && t.Sym == "+" {
			for i := 0; i < 2; i++ {
				r, m := t.Args[i], t.Args[1-i]
				if lo(m) && r.Op == "call" && strings.HasPrefix(r.Sym, "rand.") {
					b := r.Args[len(r.Args)-1]
					if b.Op == "bin" && b.Sym == "-" && hi(b.Args[0]) && lo(b.Args[1]) {
						return ""
					}
				}
			}
		}
		return "not a random number from the first argument up to, but without, the second one"
	}},
	"@selector": {
		edge: func(e *ev, s *St, t *Term, taken bool) {
			for i, n := range []string{"n0", "n1"} {
				nilEdge(s, t, taken, func(x *Term) bool { return listArg(x, i, "AsList") }, n)
			}
		},
		pred: func(e *ev, s *St, t *Term) int {
			if x := convOf(t, 0, "AsBool"); x != nil {
				t = x
			}
			c := extOf(t, 0, "expression.MatchLabels")
			if c == nil {
				return 0
			}
			l, sel := convOf(c.Args[0], 0, "AsObject"), convOf(c.Args[1], 0, "AsObject")
			if listArg(l, 1, "AsList") && listArg(sel, 0, "AsList") {
				return 1
			}
			return 0
		},
		exit: func(e *ev, s *St, t *Term) string {
			if t.Sym == "false" && (hasFlag(s, "n0:nil") || hasFlag(s, "n1:nil")) {
				return ""
			}
			if !e.isPred(s, t) {
				return "not whether the selector (first argument) matches the labels (second argument)"
			}
			e.outcomes["match"] = true
			return ""
		},
		needs: []string{"match"},
	},
	"name": {exit: func(e *ev, s *St, t *Term) string {
		if !strings.HasPrefix(t.Sym, "make:map[string]any") && !strings.HasPrefix(t.Sym, "make:map[string]interface") {
			return "not a map from the name to the value of the argument"
		}
		if !hasFlag(s, "entry") {
			return "the map does not have the entry"
		}
		return ""
	}},
	// an operator there is none of: always an error
	"@?": {exit: func(e *ev, s *St, t *Term) string { return "an unknown operator yields a value" }},
	"":   {exit: func(e *ev, s *St, t *Term) string { return "an expression without an operator yields a value" }},
}

func isDeepEqual(t *Term) bool {
	if !isCallTo(t, "reflect.DeepEqual") {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	if listArg(a, 1, "AsList") {
		a, b = b, a
	}
	return listArg(a, 0, "AsList") && listArg(b, 1, "AsList")
}

func stringList(t *Term) bool {
	x := convOf(t, 0, "AsStringList")
	return x != nil && isE(x)
}

func elementOf(s *St, a, b ssa.Value, list func(*Term) bool) bool {
	for _, v := range []ssa.Value{a, b} {
		if t := s.PT(v); t.Op == "index" && idxIs(t, -1) && list(t.Args[0]) {
			return true
		}
	}
	return false
}

// accumulated: the elements of a list added to a neutral value.
func accumulated(t *Term, zero string, list func(*Term) bool) string {
	for _, a := range t.Alts() {
		switch {
		case a.Op == "const" && (a.Sym == zero || zero == "0" && a.Sym == "0"):
		case a.Op == "opaque":
		case a.Op == "bin" && a.Sym == "+":
			n := 0
			for _, y := range a.Args {
				if y.Op == "index" && idxIs(y, -1) && list(y.Args[0]) {
					n++
				} else if b := accumulated(y, zero, list); b != "" {
					return b
				}
			}
			if n != 1 {
				return "not every element is added once"
			}
		default:
			return "not the elements put together: " + short(a)
		}
	}
	return ""
}

// argCount records what is known about the number of arguments.
func argCount(s *St, t *Term, taken bool) {
	countEdge(s, t, taken, func(x *Term) bool {
		if !isCallTo(x, "builtin.len") {
			return false
		}
		c := extOf(x.Args[0], 0, argsName)
		return c != nil && isArg(c.Args[0])
	}, "n")
}

// switchPart: part i of a [case, action] pair.
func switchPart(t *Term, i int) bool {
	if t == nil || t.Op != "index" || !idxIs(t, i) {
		return false
	}
	c := extOf(t.Args[0], 0, argsName)
	return c != nil && opArg(c.Args[0], -1)
}

func (e *ev) isPred(s *St, t *Term) bool {
	t, n := neg(t)
	if t.Op == "const" {
		v := t.Sym == "true"
		return (t.Sym == "true" || t.Sym == "false") && hasFlag(s, map[bool]string{true: "P:true", false: "P:false"}[v != n])
	}
	p := e.spec.pred(e, s, t)
	return p == 1 && !n || p == -1 && n
}

var listOps = map[string]bool{"@filter": true, "@map": true, "@any": true, "@all": true, "@none": true}

func (e *ev) run(fn *ssa.Function) {
	k, sp := e.k, e.spec
	op := e.op
	construct := e.construct()
	k.ok(e.R, construct, k.pr.pos(fn.Pos()))
	successes := 0
	mark := func(s *St) { dropFlag(s, "pend") }
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := contents(s, s.condPT(cond))
		if v, ok := opValue(t, op); ok {
			if v != "true" && v != "false" || (v == "true") != taken {
				s.Stop = true
			}
			return
		}
		if x, eq, ok := eqConst(t, "nil", taken); ok && isParam(x, "recv") {
			s.Stop = eq
			return
		}
		if sp.edge != nil {
			sp.edge(e, s, t, taken)
		}
		if sp.pred != nil {
			x, n := neg(t)
			if p := sp.pred(e, s, x); p != 0 {
				v := (p == 1) == (taken != n)
				if hasFlag(s, map[bool]string{true: "P:false", false: "P:true"}[v]) {
					s.Stop = true
				}
				addFlag(s, map[bool]string{true: "P:true", false: "P:false"}[v])
			}
		}
		if sp.loop == nil {
			return
		}
		if ov := s.loopOver(cond); ov != nil && sp.loop(e, s, contents(s, ov)) {
			if partOf(ov, func(x *Term) bool { return sp.loop(e, s, x) }) {
				addFlag(s, "miss")
			}
			if hasFlag(s, "pend") {
				addFlag(s, "miss")
			}
			for f := range parseFlags(s.Auto) {
				if strings.HasPrefix(f, "it:") {
					dropFlag(s, f)
				}
			}
			if taken {
				addFlag(s, "pend")
				dropFlag(s, "all")
			} else {
				dropFlag(s, "pend")
				addFlag(s, "all")
			}
			return
		}
		if sp.elem != nil {
			x, n := neg(t)
			if p := sp.elem(e, s, x); p != 0 {
				v := (p == 1) == (taken != n)
				if hasFlag(s, map[bool]string{true: "it:false", false: "it:true"}[v]) {
					s.Stop = true
					return
				}
				addFlag(s, map[bool]string{true: "it:true", false: "it:false"}[v])
				addFlag(s, map[bool]string{true: "saw:true", false: "saw:false"}[v])
				if sp.done == nil || !v {
					mark(s)
				}
			}
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if sp.call != nil {
			sp.call(e, s, call, nm)
		}
		if in, ok := call.(*ssa.Call); ok && sp.done != nil && sp.done(e, s, in) {
			mark(s)
		}
		if nm != evalName {
			return
		}
		a := call.Common().Args
		who := contents(s, s.PT(a[0]))
		if sp.lazy != "" && hasFlag(s, sp.lazy) && !switchPart(who, 1) {
			k.fail(e.R, construct, k.pr.at(call), "an argument is evaluated although the result is already decided (path %s)", s.Trace())
		}
		ctx := contents(s, s.PT(a[1]))
		if listOps[op] && opArg(who, 0) {
			lit := k.literal(s, a[1])
			good := lit != nil
			if good {
				o, sub := contents(s, k.lit(s, lit, "Object")), contents(s, k.lit(s, lit, "Subject"))
				good = isField(o, "Object") && isParam(o.Args[0], "arg0") && listOpElem(sub)
			}
			k.check(good, e.R, construct, k.pr.at(call), "the expression is not evaluated with the element as the local subject and the object as the global one (path %s)", s.Trace())
			return
		}
		k.check(isParam(ctx, "arg0"), e.R, construct, k.pr.at(call), "an argument is not evaluated in the context of the expression but in %s (path %s)", short(ctx), s.Trace())
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if _, ok := in.(*ssa.Call); ok {
			return
		}
		if mu, ok := in.(*ssa.MapUpdate); ok && op == "name" {
			kt, v := s.PT(mu.Key), contents(s, s.PT(mu.Value))
			if isField(kt, "Op") && isE(v) {
				addFlag(s, "entry")
			}
		}
		if sp.done != nil && sp.done(e, s, in) {
			mark(s)
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		if s.RetVal(ret, 1) == "nonnil" {
			return
		}
		successes++
		t := contents(s, s.RetPT(ret, 0))
		if _, n := neg(t); n || t.Op != "const" && (sp.pred != nil || sp.elem != nil) {
			if v := s.truth(s.retVal(ret, 0)); v != "" {
				t = &Term{Op: "const", Sym: v}
			}
		}
		bad := ""
		switch {
		case sp.exit != nil:
			bad = sp.exit(e, s, t)
		case !e.isPred(s, t):
			bad = "not the documented truth value"
		}
		k.check(bad == "", e.R, construct, k.pr.at(ret), "the value returned is wrong: %s: %s (path %s)", bad, short(t), s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, e.R, construct)
	if op == "" || op == "@?" {
		return
	}
	k.check(successes > 0, e.R, construct, k.pr.pos(fn.Pos()), "the operator never yields a value")
	for _, n := range sp.needs {
		k.check(e.outcomes[n], e.R, construct+": "+n, k.pr.pos(fn.Pos()), "this outcome is not possible")
	}
}

func runE01(k *K) {
	fn := k.fn(evalName)
	if fn == nil {
		return
	}
	const R = "operator"
	for _, op := range sortedKeys(opSpecs) {
		e := &ev{k: k, R: R, op: op, spec: opSpecs[op], outcomes: map[string]bool{}}
		e.run(fn)
	}
}
