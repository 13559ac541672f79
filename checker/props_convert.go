package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- scenarios

// scen explores a function for one class of inputs: conditions that are decided for the class are
// folded, what is returned on the remaining paths is judged.
type scen struct {
	R, construct string
	atom         func(s *St, t *Term) (string, bool)
	edge         func(s *St, t *Term, cond ssa.Value, taken bool)
	call         func(s *St, call *ssa.Call, nm string)
	instr        func(s *St, in ssa.Instruction)
	exit         func(s *St, ret *ssa.Return) string
	inline       func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool
	keep         bool
	ctx          *Ctx // where fn is called
}

// fold evaluates a term, given the values of atoms.
func fold(s *St, t *Term, atom func(s *St, t *Term) (string, bool)) (string, bool) {
	if t == nil {
		return "", false
	}
	if v, ok := atom(s, t); ok {
		return v, true
	}
	switch t.Op {
	case "const":
		return t.Sym, true
	case "un":
		if t.Sym == "!" {
			v, ok := fold(s, t.Args[0], atom)
			return map[string]string{"true": "false", "false": "true"}[v], ok
		}
	case "call":
		switch {
		case isCallTo(t, "slices.Contains"):
			x, ok := fold(s, t.Args[1], atom)
			els := s.x.k().elemTerms(s, t.Args[0])
			if !ok || els == nil {
				return "", false
			}
			for _, e := range els {
				y, ok := fold(s, e, atom)
				if !ok {
					return "", false
				}
				if x == y {
					return "true", true
				}
			}
			return "false", true
		case isCallTo(t, "strings.HasPrefix"), isCallTo(t, "strings.HasSuffix"):
			x, ok := fold(s, t.Args[0], atom)
			y, ok2 := fold(s, t.Args[1], atom)
			if ok && ok2 {
				f := strings.HasPrefix
				if isCallTo(t, "strings.HasSuffix") {
					f = strings.HasSuffix
				}
				return strconv.FormatBool(f(unq(x), unq(y))), true
			}
		case isCallTo(t, "builtin.len"):
			x, ok := fold(s, t.Args[0], atom)
			if ok && strings.HasPrefix(x, `"`) {
				return itoaN(len(unq(x))), true
			}
		}
	case "slice":
		// a part of a constant string with constant bounds
		sl, isSlice := t.V.(*ssa.Slice)
		if len(t.Args) == 0 || !isSlice || sl.Max != nil {
			return "", false
		}
		x, ok := fold(s, t.Args[0], atom)
		if !ok || !strings.HasPrefix(x, `"`) {
			return "", false
		}
		str := unq(x)
		lo, hi := 0, len(str)
		for b, v := range map[*int]ssa.Value{&lo: sl.Low, &hi: sl.High} {
			if v == nil {
				continue
			}
			n, ok := intConst(v)
			if !ok {
				return "", false
			}
			*b = int(n)
		}
		if lo < 0 || lo > hi || hi > len(str) {
			return "", false
		}
		return strconv.Quote(str[lo:hi]), true
	case "index", "lookup":
		x, ok := fold(s, t.Args[0], atom)
		i, ok2 := fold(s, t.Args[1], atom)
		if n, err := strconv.Atoi(i); ok && ok2 && err == nil && strings.HasPrefix(x, `"`) && n < len(unq(x)) {
			return itoaN(int(unq(x)[n])), true
		}
	case "bin":
		x, ok := fold(s, t.Args[0], atom)
		y, ok2 := fold(s, t.Args[1], atom)
		if !ok || !ok2 {
			return "", false
		}
		if t.Sym == "+" && strings.HasPrefix(x, `"`) && strings.HasPrefix(y, `"`) {
			return strconv.Quote(unq(x) + unq(y)), true
		}
		a, err := strconv.Atoi(x)
		b, err2 := strconv.Atoi(y)
		num := err == nil && err2 == nil
		switch t.Sym {
		case "==":
			return strconv.FormatBool(x == y), true
		case "!=":
			return strconv.FormatBool(x != y), true
		case "<":
			return strconv.FormatBool(a < b), num
		case "<=":
			return strconv.FormatBool(a <= b), num
		case ">":
			return strconv.FormatBool(a > b), num
		case ">=":
			return strconv.FormatBool(a >= b), num
		}
	}
	return "", false
}

func unq(s string) string {
	if u, err := strconv.Unquote(s); err == nil {
		return u
	}
	return strings.Trim(s, `"`)
}

func (x *Explorer) k() *K {
	return &K{pr: x.pr, R: x.R, obls: map[string]*Obl{}, funcs: map[*ssa.Function]bool{}}
}

// elemTerms: the elements of a slice written down at one place, nil if they are not known.
func (k *K) elemTerms(s *St, t *Term) []*Term {
	if t.V == nil || t.Ctx == nil {
		return nil
	}
	c, v := s.RootIn(t.Ctx, t.V)
	var r []*Term
	for _, e := range k.sliceElems(c, v) {
		r = append(r, s.PTIn(e.c, e.v))
	}
	return r
}

func (k *K) scenario(fn *ssa.Function, sc *scen) {
	if fn == nil {
		return
	}
	k.ok(sc.R, sc.construct, k.pr.pos(fn.Pos()))
	exits := 0
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline, Keep: sc.keep}
	if sc.inline != nil {
		rule.Inline = sc.inline
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := contents(s, s.condPT(cond))
		if v, ok := fold(s, t, sc.atom); ok && (v == "true" || v == "false") {
			if (v == "true") != taken {
				s.Stop = true
			}
			return
		}
		if sc.edge != nil {
			sc.edge(s, t, cond, taken)
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if c, ok := call.(*ssa.Call); ok && sc.call != nil {
			sc.call(s, c, nm)
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if sc.instr != nil {
			sc.instr(s, in)
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		exits++
		bad := sc.exit(s, ret)
		k.check(bad == "", sc.R, sc.construct, k.pr.at(ret), "%s (path %s)", bad, s.Trace())
	}
	x := k.explore(rule)
	if sc.ctx != nil {
		x.RunCtx(sc.ctx, "")
	} else {
		x.Run(fn, "")
	}
	k.done(x, sc.R, sc.construct)
	k.check(exits > 0, sc.R, sc.construct, k.pr.pos(fn.Pos()), "never returns")
}

// ---------------------------------------------------------------- E04: conversions

func init() {
	register("E04", "conversions: every converter of the expression package is explored once per kind of value (reflect.Kind), with the conditions on the kind folded; accepted values must be the ones the kind stands for, other kinds must be refused; list converters visit every element in order", runE04)
}

var kinds = map[int]string{0: "nil", 1: "bool", 2: "int", 3: "int8", 4: "int16", 5: "int32", 6: "int64", 7: "uint", 8: "uint8", 9: "uint16", 10: "uint32", 11: "uint64",
	13: "float32", 14: "float64", 17: "array", 21: "map", 22: "pointer", 23: "slice", 24: "string", 25: "struct"}

func isD(t *Term) bool { return isParam(t, "arg0") }

// reflD: method m of the reflected argument.
func reflD(t *Term, m string) bool {
	return isCallTo(t, "reflect.Value."+m) && isCallTo(t.Args[0], "reflect.ValueOf") && isD(t.Args[0].Args[0])
}

// kindAtom: conditions decided by the kind of the argument.
func kindAtom(kd int) func(s *St, t *Term) (string, bool) {
	isNum := kd >= 2 && kd <= 14
	tf := func(b bool) (string, bool) { return strconv.FormatBool(b), true }
	return func(s *St, t *Term) (string, bool) {
		switch {
		case reflD(t, "Kind"), isCallTo(t, "reflect.Type.Kind") && isCallTo(t.Args[0], "reflect.TypeOf") && isD(t.Args[0].Args[0]):
			return itoaN(kd), true
		case reflD(t, "IsValid"):
			return tf(kd != 0)
		case reflD(t, "CanInt"):
			return tf(kd >= 2 && kd <= 6)
		case reflD(t, "CanUint"):
			return tf(kd >= 7 && kd <= 12)
		case reflD(t, "CanFloat"):
			return tf(kd == 13 || kd == 14)
		case isCallTo(t, "expression.IsList") && isD(t.Args[0]):
			return tf(kd == 17 || kd == 23)
		case reflD(t, "CanConvert") && isCallTo(t.Args[1], "reflect.TypeOf"):
			if c, ok := t.Args[1].V.(*ssa.Call); ok {
				if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
					if b, ok := mi.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
						return tf(isNum)
					}
				}
			}
		case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isD(t.Args[0]) && isNil(t.Args[1]) && !hasFlag(s, "assert"):
			return tf((t.Sym == "==") == (kd == 0))
		case t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isD(t.Args[0].Args[0]):
			for i, n := range kinds {
				if t.Args[0].Sym == "<"+n+">" && i != kd {
					return tf(false)
				}
			}
			if strings.HasPrefix(t.Args[0].Sym, "<map[") && kd != 21 || strings.HasPrefix(t.Args[0].Sym, "<[]") && kd != 23 {
				return tf(false)
			}
		}
		return "", false
	}
}

// asserted: the value of the argument taken by a type assertion that holds on this path.
func asserted(s *St, t *Term) bool { return isD(t) && hasFlag(s, "assert") }

func isNumParse(t *Term, i int, names ...string) *Term {
	c := extOf(t, i, names...)
	if c == nil || !(reflD(c.Args[0], "String") || isD(c.Args[0])) {
		return nil
	}
	want := map[string][]string{"strconv.ParseInt": {"10", "64"}, "strconv.ParseFloat": {"64"}}[c.Sym]
	for j, w := range want {
		if len(c.Args) <= j+1 || c.Args[j+1].Sym != w {
			return nil
		}
	}
	return c
}

func isIntVal(s *St, t *Term) bool   { return reflD(t, "Int") || asserted(s, t) }
func isUintVal(s *St, t *Term) bool  { return reflD(t, "Uint") || asserted(s, t) }
func isFloatVal(s *St, t *Term) bool { return reflD(t, "Float") || asserted(s, t) }
func viaFloat(t *Term) bool {
	return isCallTo(t, "reflect.Value.Float", "reflect.Value.Interface") && isCallTo(t.Args[0], "reflect.Value.Convert") && reflD(t.Args[0], "Convert")
}

type convSpec struct {
	// value: t is what the converter makes of a value of kind kd
	value func(k *K, s *St, kd int, t *Term) bool
	yes   func(kd int) bool // kinds that must be accepted
	free  func(kd int) bool // kinds that may be
	parse []string          // parsers for strings
}

func between(a, b int) func(int) bool { return func(k int) bool { return k >= a && k <= b } }
func never(int) bool                  { return false }

var convSpecs = map[string]*convSpec{
	"AsBool": {
		value: func(k *K, s *St, kd int, t *Term) bool { return reflD(t, "Bool") || asserted(s, t) },
		yes:   between(1, 1), free: never},
	"AsString": {
		value: func(k *K, s *St, kd int, t *Term) bool {
			switch {
			case kd == 24:
				return reflD(t, "String") || asserted(s, t)
			case kd <= 12:
				if isCallTo(t, "fmt.Sprintf", "fmt.Sprint") {
					args := k.elemTerms(s, t.Args[len(t.Args)-1])
					if len(args) != 1 || !(isD(args[0]) || isIntVal(s, args[0]) || isUintVal(s, args[0])) {
						return false
					}
					return len(t.Args) == 1 || t.Args[0].Sym == `"%d"` || t.Args[0].Sym == `"%v"`
				}
				return isCallTo(t, "strconv.FormatInt") && kd <= 6 && isIntVal(s, t.Args[0]) && t.Args[1].Sym == "10" ||
					isCallTo(t, "strconv.FormatUint") && kd > 6 && isUintVal(s, t.Args[0]) && t.Args[1].Sym == "10" ||
					isCallTo(t, "strconv.Itoa") && kd <= 6 && isIntVal(s, t.Args[0])
			}
			return isCallTo(t, "strconv.FormatFloat") && isFloatVal(s, t.Args[0]) && t.Args[1].Sym == "102" && t.Args[2].Sym == "-1" && t.Args[3].Sym == "64"
		},
		yes: func(kd int) bool { return kd == 24 || kd >= 2 && kd <= 14 }, free: never},
	"AsInt": {
		value: func(k *K, s *St, kd int, t *Term) bool {
			return kd <= 6 && isIntVal(s, t) || kd >= 7 && kd <= 12 && isUintVal(s, t) || kd == 24 && isNumParse(t, 0, "strconv.ParseInt", "strconv.Atoi") != nil
		},
		yes: func(kd int) bool { return kd == 2 || kd == 5 || kd == 6 || kd == 24 }, free: between(3, 12), parse: []string{"strconv.ParseInt", "strconv.Atoi"}},
	"AsFloat": {
		value: func(k *K, s *St, kd int, t *Term) bool {
			return kd <= 6 && isIntVal(s, t) || kd >= 7 && kd <= 12 && isUintVal(s, t) || (kd == 13 || kd == 14) && isFloatVal(s, t) ||
				kd <= 14 && viaFloat(t) || kd == 24 && isNumParse(t, 0, "strconv.ParseFloat") != nil
		},
		yes: func(kd int) bool { return kd >= 2 && kd <= 14 || kd == 24 }, free: never, parse: []string{"strconv.ParseFloat"}},
	"AsList": {
		value: func(k *K, s *St, kd int, t *Term) bool { return asserted(s, t) },
		yes:   never, free: between(23, 23)},
	"AsMap": {
		value: func(k *K, s *St, kd int, t *Term) bool {
			return asserted(s, t) || reflD(t, "Interface") && hasFlag(s, "assert")
		},
		yes: never, free: between(21, 21)},
	"AsObject": {
		value: func(k *K, s *St, kd int, t *Term) bool {
			return (isD(t) || reflD(t, "Interface")) && hasFlag(s, "assert") && hasFlag(s, "d:set")
		},
		yes: never, free: between(21, 21)},
}

func assertEdge(s *St, t *Term, taken bool) {
	x, n := neg(t)
	if x.Op == "ext" && x.Sym == "1" && x.Args[0].Op == "assert" && (isD(x.Args[0].Args[0]) || reflD(x.Args[0].Args[0], "Interface")) {
		boolEdge(s, x, taken != n, func(y *Term) bool { return true }, "assert")
	}
}

func runE04(k *K) {
	const R = "conversion"
	for _, name := range sortedKeys(convSpecs) {
		cs := convSpecs[name]
		fn := k.fn("expression." + name)
		for kd := 0; kd <= 25; kd++ {
			if kinds[kd] == "" {
				continue
			}
			kd := kd
			good := 0
			construct := "expression." + name + " of " + kinds[kd]
			k.scenario(fn, &scen{R: R, construct: construct, atom: kindAtom(kd),
				edge: func(s *St, t *Term, _ ssa.Value, taken bool) {
					assertEdge(s, t, taken)
					nilEdge(s, t, taken, func(x *Term) bool { return isD(x) || reflD(x, "Interface") }, "d")
					nilEdge(s, t, taken, func(x *Term) bool { return isNumParse(x, 1, cs.parse...) != nil }, "parse")
				},
				exit: func(s *St, ret *ssa.Return) string {
					t := contents(s, s.RetPT(ret, 0))
					if s.RetVal(ret, 1) == "nonnil" {
						switch {
						case !cs.yes(kd), hasFlag(s, "parse:set"):
							return ""
						}
						if s.val(s.Ctx, ret.Results[1], 0) == "nonnil" && isNumParse(s.RetPT(ret, 1), 1, cs.parse...) != nil {
							return ""
						}
						return "a " + kinds[kd] + " is refused"
					}
					if !cs.yes(kd) && !cs.free(kd) {
						return "a " + kinds[kd] + " is accepted as " + short(t)
					}
					if !cs.value(k, s, kd, t) {
						return "a " + kinds[kd] + " is turned into " + short(t)
					}
					if kd == 24 && len(cs.parse) > 0 && !hasFlag(s, "parse:nil") && isNumParse(s.RetPT(ret, 1), 1, cs.parse...) == nil {
						return "a string that is not a number is accepted"
					}
					good++
					return ""
				}})
			if fn != nil && (cs.yes(kd) || name == "AsList" && kd == 23 || kd == 21 && cs.free(21)) {
				k.check(good > 0, R, construct, k.pr.pos(fn.Pos()), "never accepted")
			}
		}
	}
	if fn := k.fn("expression.IsList"); fn != nil {
		for kd := range kinds {
			k.scenario(fn, &scen{R: R, construct: "expression.IsList of " + kinds[kd], atom: func(s *St, t *Term) (string, bool) {
				if isCallTo(t, "expression.IsList") {
					return "", false
				}
				return kindAtom(kd)(s, t)
			}, exit: func(s *St, ret *ssa.Return) string {
				want := strconv.FormatBool(kd == 17 || kd == 23)
				t := s.RetPT(ret, 0)
				v, ok := fold(s, t, kindAtom(kd))
				if !ok {
					v = s.truth(s.retVal(ret, 0))
				}
				if v != want {
					return "decided to be " + short(t)
				}
				return ""
			}})
		}
	}
	k.lossy(R)
	k.listConversions(R)
	k.alternatives(R)
	k.expressions(R)
}

// lossy: numbers are not narrowed on the way.
func (k *K) lossy(R string) {
	bits := func(t types.Type) (int, bool) {
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return 0, false
		}
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8, true
		case types.Int16, types.Uint16:
			return 16, true
		case types.Int32, types.Uint32:
			return 32, true
		case types.Float32:
			return 24, true
		case types.Float64:
			return 100, true // larger than any integer: converting it to one loses the fraction
		}
		return 64, true
	}
	for _, f := range k.fnsIn("pkg/expression") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Convert)
				if !ok {
					continue
				}
				from, ok := bits(c.X.Type())
				to, ok2 := bits(c.Type())
				if _, isC := c.X.(*ssa.Const); isC || !ok || !ok2 {
					continue
				}
				k.check(to >= from, R+": no narrowing", fnName(f)+" "+typeShort(c.X.Type())+" to "+typeShort(c.Type()), k.pr.at(in), "a number is converted from %s to %s, which changes it", typeShort(c.X.Type()), typeShort(c.Type()))
			}
		}
	}
}

var listConvs = map[string][]string{"AsBoolList": {"AsBool"}, "AsStringList": {"AsString"}, "AsIntList": {"AsInt"}, "AsFloatList": {"AsFloat"}, "AsObjectList": {"AsObject", "AsMap"}}

// listConversions: every element of the list is converted, in order.
func (k *K) listConversions(R string) {
	for _, name := range sortedKeys(listConvs) {
		fn := k.fn("expression." + name)
		if fn == nil {
			continue
		}
		one := listConvs[name]
		for kd := range kinds {
			kd := kd
			list := kd == 17 || kd == 23
			loop := func(t *Term) bool { return reflD(t, "Len") || isD(t) }
			elem := func(t *Term) bool {
				c := extOf(t, 0, prefixed(one)...)
				return c != nil && isElemOfD(c.Args[0])
			}
			appendOne := func(s *St, in ssa.Instruction, v ctxVal) string {
				if !elem(contents(s, s.PTIn(v.c, v.v))) {
					return "what is collected is not the converted element: " + short(s.PTIn(v.c, v.v))
				}
				return ""
			}
			construct := "expression." + name + " of " + kinds[kd]
			good := 0
			put := func(s *St, bad string, at ssa.Instruction) {
				k.check(bad == "", R, construct, k.pr.at(at), "%s (path %s)", bad, s.Trace())
				if hasFlag(s, "put") {
					addFlag(s, "miss")
				}
				addFlag(s, "put")
				dropFlag(s, "pend")
			}
			k.scenario(fn, &scen{R: R, construct: construct, atom: kindAtom(kd),
				edge: func(s *St, t *Term, cond ssa.Value, taken bool) {
					assertEdge(s, t, taken)
					nilEdge(s, t, taken, func(x *Term) bool { c := extOf(x, 1, prefixed(one)...); return c != nil && isElemOfD(c.Args[0]) }, "it:err")
					ov := s.loopOver(cond)
					if ov == nil || !loop(ov) {
						return
					}
					if hasFlag(s, "pend") {
						addFlag(s, "miss")
					}
					for _, f := range []string{"put", "it:err:nil", "it:err:set"} {
						dropFlag(s, f)
					}
					if taken {
						addFlag(s, "pend")
						dropFlag(s, "all")
					} else {
						dropFlag(s, "pend")
						addFlag(s, "all")
					}
				},
				call: func(s *St, c *ssa.Call, nm string) {
					if !isAppend(c) {
						return
					}
					cc, v := s.Root(c.Call.Args[1])
					els := k.sliceElems(cc, v)
					if len(els) != 1 {
						put(s, "undecided: what is collected?", c)
						return
					}
					put(s, appendOne(s, c, els[0]), c)
				},
				instr: func(s *St, in ssa.Instruction) {
					st, ok := in.(*ssa.Store)
					if !ok {
						return
					}
					ia, ok := st.Addr.(*ssa.IndexAddr)
					if !ok {
						return
					}
					if _, m := s.Root(ia.X); m == nil {
						return
					} else if ms, ok := m.(*ssa.MakeSlice); !ok || !loop(lenTerm(s.PT(ms.Len))) || !induction(ia.Index) {
						return
					}
					addFlag(s, "placed")
					put(s, appendOne(s, st, ctxVal{s.Ctx, st.Val}), st)
				},
				exit: func(s *St, ret *ssa.Return) string {
					if s.RetVal(ret, 1) == "nonnil" {
						if list && !hasFlag(s, "it:err:set") {
							return "a list is refused although no element is"
						}
						return ""
					}
					if !list {
						return "a " + kinds[kd] + " is accepted as a list"
					}
					f := parseFlags(s.Auto)
					t := s.RetPT(ret, 0)
					switch {
					case !f["all"] || f["miss"]:
						return "not every element is converted exactly once"
					case isCallTo(t, "builtin.append"), emptyList(t), isNil(t):
						good++
						return ""
					case t.Op == "alloc" && f["placed"]:
						good++
						return ""
					}
					return "not the list of converted elements: " + short(t)
				}})
			if list {
				k.check(good > 0, R, construct, k.pr.pos(fn.Pos()), "a list is never accepted")
			}
		}
	}
}

func lenTerm(t *Term) *Term {
	if isCallTo(t, "builtin.len") {
		return t.Args[0]
	}
	return t
}

func prefixed(ns []string) []string {
	var r []string
	for _, n := range ns {
		r = append(r, "expression."+n)
	}
	return r
}

// isElemOfD: the element of the argument a loop is at.
func isElemOfD(t *Term) bool {
	if t.Op == "index" && idxIs(t, -1) {
		return isD(t.Args[0])
	}
	if !isCallTo(t, "reflect.Value.Interface") || !reflD(t.Args[0], "Index") {
		return false
	}
	c, ok := t.Args[0].V.(*ssa.Call)
	return ok && induction(c.Call.Args[1]) || t.Args[0].Args[1].Op != "const"
}

// assertOf: the operand and the type of a checked type assertion.
func assertOf(t *Term) (*Term, types.Type) {
	if t.Op != "ext" || t.Sym != "1" || t.Args[0].Op != "assert" {
		return nil, nil
	}
	v := t.Args[0].V
	if e, ok := t.V.(*ssa.Extract); ok && v == nil {
		v = e.Tuple
	}
	ta, ok := v.(*ssa.TypeAssert)
	if !ok {
		return nil, nil
	}
	return t.Args[0].Args[0], ta.AssertedType
}

// alternatives: AsIntOrFloat and its lists, the binary lists, AsObjectOrObjectList.
func (k *K) alternatives(R string) {
	none := func(s *St, t *Term) (string, bool) { return "", false }
	of := func(t *Term, i int, n string) bool {
		c := extOf(t, i, "expression."+n)
		return c != nil && isD(c.Args[0])
	}
	for _, sfx := range []string{"", "List"} {
		name := "AsIntOrFloat" + sfx
		fn := k.fn("expression." + name)
		seen := map[string]bool{}
		k.scenario(fn, &scen{R: R, construct: "expression." + name, atom: none,
			edge: func(s *St, t *Term, _ ssa.Value, taken bool) {
				nilEdge(s, t, taken, func(x *Term) bool { return of(x, 1, "AsInt"+sfx) }, "int")
				nilEdge(s, t, taken, func(x *Term) bool { return of(x, 1, "AsFloat"+sfx) }, "float")
			},
			exit: func(s *St, ret *ssa.Return) string {
				f := parseFlags(s.Auto)
				kind := s.RetPT(ret, 2)
				if s.RetVal(ret, 3) == "nonnil" {
					if !f["int:set"] || !f["float:set"] {
						return "refused although it was not tried as an integer and as a float"
					}
					seen["err"] = true
					return ""
				}
				switch {
				case kind.Sym == "6" && of(s.RetPT(ret, 0), 0, "AsInt"+sfx) && f["int:nil"]:
					seen["int"] = true
				case kind.Sym == "14" && of(s.RetPT(ret, 1), 0, "AsFloat"+sfx) && f["float:nil"] && f["int:set"]:
					seen["float"] = true
				default:
					return "neither the integer nor, if it is none, the float with its kind is returned"
				}
				return ""
			}})
		if fn != nil {
			k.check(seen["int"] && seen["float"] && seen["err"], R, "expression."+name, k.pr.pos(fn.Pos()), "one of the outcomes integer, float and error is not possible")
		}
	}
	for _, name := range []string{"AsBinaryBoolList", "AsBinaryStringList", "AsBinaryIntList", "AsBinaryFloatList", "AsBinaryIntOrFloatList"} {
		inner := strings.Replace(name, "Binary", "", 1)
		last := 1
		if strings.Contains(name, "Or") {
			last = 3
		}
		fn := k.fn("expression." + name)
		for _, kd := range []string{"6", "14"} {
			if last == 1 && kd == "14" {
				continue
			}
			res := 0
			if kd == "14" {
				res = 1
			}
			good := 0
			construct := "expression." + name
			if last == 3 {
				construct += " of kind " + kd
			}
			k.scenario(fn, &scen{R: R, construct: construct,
				atom: func(s *St, t *Term) (string, bool) {
					if last == 3 && of(t, 2, inner) {
						return kd, true
					}
					return "", false
				},
				edge: func(s *St, t *Term, _ ssa.Value, taken bool) {
					nilEdge(s, t, taken, func(x *Term) bool { return of(x, last, inner) }, "err")
					countEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "builtin.len") && of(x.Args[0], res, inner) }, "n")
				},
				exit: func(s *St, ret *ssa.Return) string {
					f := parseFlags(s.Auto)
					if s.RetVal(ret, last) == "nonnil" {
						if f["err:nil"] && !f["n!2"] {
							return "a pair is refused"
						}
						return ""
					}
					good++
					if !f["err:nil"] || !f["n=2"] {
						return "accepted although the length is not known to be two"
					}
					for i := 0; i < last; i++ {
						if !of(s.RetPT(ret, i), i, inner) && !(i == 2 && s.RetPT(ret, i).Sym == kd) && i != 1-res {
							return "not the list that was converted: " + short(s.RetPT(ret, i))
						}
					}
					return ""
				}})
			if fn != nil {
				k.check(good > 0, R, construct, k.pr.pos(fn.Pos()), "never accepted")
			}
		}
	}
	fn := k.fn("expression.AsObjectOrObjectList")
	seen := map[string]bool{}
	k.scenario(fn, &scen{R: R, construct: "expression.AsObjectOrObjectList", atom: none,
		edge: func(s *St, t *Term, _ ssa.Value, taken bool) {
			nilEdge(s, t, taken, func(x *Term) bool { return of(x, 1, "AsObject") }, "one")
			nilEdge(s, t, taken, func(x *Term) bool { return of(x, 1, "AsObjectList") }, "many")
		},
		exit: func(s *St, ret *ssa.Return) string {
			f := parseFlags(s.Auto)
			t := s.RetPT(ret, 0)
			if s.RetVal(ret, 1) == "nonnil" {
				if !f["one:set"] || !f["many:set"] {
					return "refused although it was not tried as an object and as a list of objects"
				}
				return ""
			}
			c, v := s.retVal2(ret, 0)
			els := k.sliceElems(c, v)
			switch {
			case of(t, 0, "AsObjectList") && !f["many:set"]:
				seen["many"] = true
			case len(els) == 1 && of(s.PTIn(els[0].c, els[0].v), 0, "AsObject") && f["one:nil"]:
				seen["one"] = true
			default:
				return "neither the object nor the list of objects: " + short(t)
			}
			return ""
		}})
	if fn != nil {
		k.check(seen["one"] && seen["many"], R, "expression.AsObjectOrObjectList", k.pr.pos(fn.Pos()), "an object or a list of objects is never accepted")
	}
}

func (s *St) retVal2(ret *ssa.Return, i int) (*Ctx, ssa.Value) { return s.Root(s.retVal(ret, i)) }

// expressions: AsExpOrExpList takes an argument apart.
func (k *K) expressions(R string) {
	fn := k.fn(argsName)
	tf := func(b bool) (string, bool) { return strconv.FormatBool(b), true }
	for _, arg := range []string{"an expression", "a pointer to an expression", "a nil pointer", "another value"} {
		for _, op := range []string{"@list", "@op"} {
			for _, lit := range []bool{true, false} {
				construct := argsName + " of " + arg
				valid := arg == "an expression" || arg == "a pointer to an expression"
				if !valid && (op == "@op" || lit) || op == "@op" && lit {
					continue
				}
				if valid {
					construct += " with operator " + op
					if op == "@list" && !lit {
						construct += " without elements"
					}
				}
				isArgE := func(t *Term) bool {
					for t.Op == "un" && t.Sym == "*" || t.Op == "deref" {
						t = t.Args[0]
					}
					return isD(t)
				}
				k.scenario(fn, &scen{R: R, construct: construct, atom: func(s *St, t *Term) (string, bool) {
					x, typ := assertOf(t)
					switch {
					case x != nil && isD(x) && typeShort(typ) == "expression.Expression":
						if _, ok := typ.(*types.Pointer); ok {
							return tf(strings.Contains(arg, "pointer"))
						}
						return tf(arg == "an expression")
					case t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && t.Args[0].Sym == "<[]expression.Expression>" && isField(t.Args[0].Args[0], "Literal"):
						return tf(lit)
					case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isArgE(t.Args[0]) && isNil(t.Args[1]):
						return tf((t.Sym == "==") == (arg == "a nil pointer"))
					case isField(t, "Op") && isArgE(t.Args[0]):
						return strconv.Quote(op), true
					}
					return "", false
				}, exit: func(s *St, ret *ssa.Return) string {
					isErr := s.RetVal(ret, 1) == "nonnil"
					t := contents(s, s.RetPT(ret, 0))
					wantErr := !valid || op == "@list" && !lit
					switch {
					case wantErr && !isErr:
						return "no error is returned"
					case wantErr:
						return ""
					case isErr:
						return "refused"
					case op == "@list":
						if isField(t, "Literal") && isArgE(t.Args[0]) {
							return ""
						}
						return "not the elements of the list: " + short(t)
					}
					c, v := s.retVal2(ret, 0)
					els := k.sliceElems(c, v)
					if len(els) != 1 || !isArgE(contents(s, s.PTIn(els[0].c, els[0].v))) {
						return "not the expression itself"
					}
					return ""
				}})
			}
		}
	}
}
