package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E06", "references: GetJSONPath and SetJSONPath are explored once per class of keys (empty, plain, root, path, subject path), with the conditions a class decides folded; what is read and written on every path must be what the class stands for; the keys of a map are set in the order root, plain keys, paths", runE06)
	register("E09", "label selectors: every label and every requirement of the selector reaches the selector that is matched, for-each obligations over every path; malformed requirements are refused", runE09)
}

// keyClass is a set of keys: one string, or all strings with a prefix and some minimal length but a few.
type keyClass struct {
	name   string
	exact  bool
	str    string // the string, or the prefix
	min    int    // minimal length
	not    string // a character that does not follow the prefix
	except []string
}

var keyClasses = []*keyClass{
	{name: `empty key`, exact: true, str: ""},
	{name: `plain key`, min: 1, not: "$"},
	{name: `"$"`, exact: true, str: "$"},
	{name: `"$."`, exact: true, str: "$."},
	{name: `"$$"`, exact: true, str: "$$"},
	{name: `"$$."`, exact: true, str: "$$."},
	{name: `path of the object`, str: "$", min: 2, not: "$", except: []string{"$."}},
	{name: `path of the subject`, str: "$$", min: 3, except: []string{"$$."}},
}

// has: whether all (true) or none (false) of the keys are equal to x, if either.
func (c *keyClass) equal(x string) (bool, bool) {
	if c.exact {
		return c.str == x, true
	}
	in := strings.HasPrefix(x, c.str) && len(x) >= c.min
	if in && c.not != "" && len(x) > len(c.str) && x[len(c.str)] == c.not[0] {
		in = false
	}
	for _, e := range c.except {
		in = in && e != x
	}
	return false, !in
}

func (c *keyClass) prefix(x string) (bool, bool) {
	switch {
	case c.exact:
		return strings.HasPrefix(c.str, x), true
	case strings.HasPrefix(c.str, x):
		return true, true
	case !strings.HasPrefix(x, c.str):
		return false, true
	}
	return false, c.not != "" && x[len(c.str)] == c.not[0]
}

// atom decides conditions on the key.
func (c *keyClass) atom(isKey func(*Term) bool) func(s *St, t *Term) (string, bool) {
	tf := func(b, ok bool) (string, bool) { return strconv.FormatBool(b), ok }
	char := func(t *Term) (int, bool) {
		if t.Op != "index" && t.Op != "lookup" || !isKey(t.Args[0]) {
			return 0, false
		}
		i, err := strconv.Atoi(t.Args[1].Sym)
		return i, err == nil && t.Args[1].Op == "const"
	}
	return func(s *St, t *Term) (string, bool) {
		switch {
		case isKey(t) && c.exact:
			return strconv.Quote(c.str), true
		case isCallTo(t, "strings.HasPrefix") && isKey(t.Args[0]) && t.Args[1].Op == "const":
			return tf(c.prefix(unq(t.Args[1].Sym)))
		case t.Op == "ext" && t.Sym == "1" && isCallTo(t.Args[0], "strings.CutPrefix") && isKey(t.Args[0].Args[0]) && t.Args[0].Args[1].Op == "const":
			return tf(c.prefix(unq(t.Args[0].Args[1].Sym)))
		case t.Op == "index" || t.Op == "lookup":
			if i, ok := char(t); ok && i < len(c.str) {
				return itoaN(int(c.str[i])), true
			}
		case t.Op == "bin" && t.Args[1].Op == "const":
			k := t.Args[1].Sym
			if isKey(t.Args[0]) {
				eq, ok := c.equal(unq(k))
				switch t.Sym {
				case "==":
					return tf(eq, ok)
				case "!=":
					return tf(!eq, ok)
				}
			}
			if i, ok := char(t.Args[0]); ok && !c.exact && i == len(c.str) && c.not != "" && k == itoaN(int(c.not[0])) {
				return tf(t.Sym == "!=", t.Sym == "==" || t.Sym == "!=")
			}
			if sl, ok := t.Args[0].V.(*ssa.Slice); ok && t.Args[0].Op == "slice" && isKey(t.Args[0].Args[0]) && (t.Sym == "==" || t.Sym == "!=") && sl.High != nil {
				// key[:n] == "…"
				lo, hi := int64(0), int64(-1)
				if sl.Low != nil {
					lo = -1
					if n, ok := intConst(sl.Low); ok {
						lo = int64(n)
					}
				}
				if n, ok := intConst(sl.High); ok {
					hi = int64(n)
				}
				if lo == 0 && int(hi) == len(unq(k)) {
					in, ok := c.prefix(unq(k))
					return tf(in == (t.Sym == "=="), ok)
				}
			}
			n, err := strconv.Atoi(k)
			if err != nil || !isCallTo(t.Args[0], "builtin.len") || !isKey(t.Args[0].Args[0]) {
				return "", false
			}
			if c.exact {
				return "", false // folded
			}
			switch t.Sym {
			case "==":
				return tf(false, n < c.min)
			case "!=", ">=":
				return tf(true, n < c.min || t.Sym == ">=" && n == c.min)
			case ">":
				return tf(true, n < c.min)
			case "<":
				return tf(false, n <= c.min)
			case "<=":
				return tf(false, n < c.min)
			}
		}
		return "", false
	}
}

// restOf: the key without its first character.
func restOf(s *St, t *Term, isKey func(*Term) bool) bool {
	if t.Op == "slice" && isKey(t.Args[0]) {
		v, ok := t.V.(*ssa.Slice)
		if !ok || v.Low == nil || v.High != nil {
			return false
		}
		n, ok := intConst(v.Low)
		return ok && n == 1
	}
	dollar := func(c *Term) bool { return isKey(c.Args[0]) && c.Args[1].Sym == `"$"` }
	return isCallTo(t, "strings.TrimPrefix") && dollar(t) || extOf(t, 0, "strings.CutPrefix") != nil && dollar(t.Args[0])
}

func jsonpathInline(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
	n := fnName(callee)
	return fnPkg(callee) == fnPkg(call.Parent()) && (n == "expression.GetJSONPathRaw" || n == "expression.SetJSONPathRaw" || helperInline(s, call, callee)) && !recursive(callee)
}

func runE06(k *K) {
	const R = "reference"
	parse := "jp.ParseString"
	isKey := func(t *Term) bool { return isParam(t, "arg1") }
	fn := k.fn("expression.GetJSONPath")
	parsed := func(t *Term) *Term {
		if c := extOf(t, 0, parse); c != nil {
			return c.Args[0]
		}
		return nil
	}
	for _, c := range keyClasses {
		for _, subj := range []bool{true, false} {
			base := c.atom(isKey)
			atom := func(s *St, t *Term) (string, bool) {
				if isField(t, "Subject") && isParam(t.Args[0], "arg0") {
					return map[bool]string{true: "set", false: "nil"}[subj], true
				}
				return base(s, t)
			}
			path := c.str != "" && c.str[0] == '$'
			construct := "expression.GetJSONPath: " + c.name + map[bool]string{true: " with subject", false: " without subject"}[subj]
			ok := 0
			k.scenario(fn, &scen{R: R, construct: construct, atom: atom, inline: jsonpathInline, keep: true,
				edge: func(s *St, t *Term, _ ssa.Value, taken bool) {
					nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, parse) != nil }, "parse")
					lenEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "jp.Expr.Get") }, "found")
				},
				exit: func(s *St, ret *ssa.Return) string {
					t := contents(s, s.RetPT(ret, 0))
					if s.RetVal(ret, 1) == "nonnil" {
						if path && (hasFlag(s, "parse:set") || extOf(s.RetPT(ret, 1), 1, parse) != nil) {
							return ""
						}
						return "fails with " + short(s.RetPT(ret, 1))
					}
					ok++
					if !path {
						if isKey(t) || c.exact && t.Sym == `""` {
							return ""
						}
						return "the result is " + short(t) + ", not the string"
					}
					if !hasFlag(s, "parse:nil") {
						return "the path is not known to be well-formed"
					}
					if isNil(t) && hasFlag(s, "!found") {
						return ""
					}
					var get *Term
					switch {
					case t.Op == "index" && t.Args[1].Sym == "0" && isCallTo(t.Args[0], "jp.Expr.Get") && hasFlag(s, "found"):
						get = t.Args[0]
					case isCallTo(t, "jp.Expr.First"):
						get = t
					}
					if get == nil {
						return "the result is " + short(t) + ", not the first value found, or nil"
					}
					q, x := parsed(get.Args[0]), get.Args[1]
					if q == nil {
						return "the path applied is " + short(get.Args[0])
					}
					local := subj && strings.HasPrefix(c.str, "$$")
					if want := map[bool]string{true: "Subject", false: "Object"}[local]; !isField(x, want) || !isParam(x.Args[0], "arg0") {
						return "the path is applied to " + short(x) + ", not the " + strings.ToLower(want)
					}
					v, folded := fold(s, q, atom)
					switch {
					case local && c.exact, c.str == "$." || c.exact && c.str == "$":
						if v == `"$"` || v == `""` || local && c.exact && restOf(s, q, isKey) && c.str == "$$" || isRoot(s, q, atom) {
							return ""
						}
					case local:
						if restOf(s, q, isKey) {
							return ""
						}
					case c.str == "$$" || c.str == "$$.":
						return "" // no subject to refer to
					default:
						if isKey(q) {
							return ""
						}
					}
					_ = folded
					return "the path applied is " + short(q)
				}})
			if fn != nil {
				k.check(ok > 0, R, construct, k.pr.pos(fn.Pos()), "never yields a value")
			}
		}
	}
	k.setPath(R)
	k.keyOrder(R)
}

// isRoot: a constant path with its first character removed that is a reference to the root.
func isRoot(s *St, q *Term, atom func(*St, *Term) (string, bool)) bool {
	if q.Op == "slice" || isCallTo(q, "strings.TrimPrefix") {
		v, ok := fold(s, q.Args[0], atom)
		return ok && restOf(s, q, func(x *Term) bool { return x == q.Args[0] }) && (v == `"$"` || v == `"$$"`)
	}
	return false
}

func (k *K) setPath(R string) {
	fn := k.fn("expression.SetJSONPath")
	isKey := func(t *Term) bool { return isParam(t, "arg1") }
	isVal := func(t *Term) bool { return isParam(t, "arg2") }
	isData := func(t *Term) bool { return isParam(t, "arg3") }
	get := func(t *Term, i int) bool {
		c := extOf(t, i, "expression.GetJSONPath")
		return c != nil && isParam(c.Args[0], "arg0") && isVal(c.Args[1])
	}
	// the value to be set
	value := func(str bool) func(t *Term) bool {
		return func(t *Term) bool {
			if isCallTo(t, "object.DeepCopyAny") {
				t = t.Args[0]
			}
			return !str && isVal(t) || str && get(t, 0)
		}
	}
	for _, c := range keyClasses {
		for _, str := range []bool{true, false} {
			for _, mp := range []bool{true, false} {
				root := c.name == `"$."`
				isV := value(str)
				base := c.atom(isKey)
				atom := func(s *St, t *Term) (string, bool) {
					if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" {
						switch x := t.Args[0].Args[0]; {
						case isVal(x) && t.Args[0].Sym == "<string>":
							return strconv.FormatBool(str), true
						case isData(x) && strings.HasPrefix(t.Args[0].Sym, "<map["):
							return strconv.FormatBool(mp), true
						}
					}
					return base(s, t)
				}
				construct := "expression.SetJSONPath: " + c.name + map[bool]string{true: ", string", false: ", value"}[str] + map[bool]string{true: " in map", false: ""}[mp]
				put := func(s *St, what, bad string) {
					if hasFlag(s, "put") && !root {
						bad = "more than one value is set"
					}
					addFlag(s, "put")
					addFlag(s, what)
					if bad != "" && !hasFlag(s, "bad") {
						addFlag(s, "bad")
						addFlag(s, "bad:"+strings.ReplaceAll(bad, ",", ";"))
					}
				}
				ok := 0
				k.scenario(fn, &scen{R: R, construct: construct, atom: atom, inline: jsonpathInline, keep: true,
					edge: func(s *St, t *Term, _ ssa.Value, taken bool) {
						nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, "jp.ParseString") != nil }, "parse")
						nilEdge(s, t, taken, func(x *Term) bool { return get(x, 1) }, "get")
						nilEdge(s, t, taken, func(x *Term) bool { return isCallTo(x, "jp.Expr.Set") }, "set")
						boolEdge(s, t, taken, func(x *Term) bool {
							return x.Op == "ext" && x.Sym == "1" && x.Args[0].Op == "assert" && isV(x.Args[0].Args[0]) && strings.HasPrefix(x.Args[0].Sym, "<map[")
						}, "vmap")
					},
					instr: func(s *St, in ssa.Instruction) {
						m, isUp := in.(*ssa.MapUpdate)
						if !isUp || !isData(s.PT(m.Map)) {
							return
						}
						key, v := contents(s, s.PT(m.Key)), contents(s, s.PT(m.Value))
						switch {
						case root && key.Op == "rangekey" && isV(key.Args[0]) && elemOf(v) != nil && isV(v.Args[0]):
							put(s, "member", "")
						case root:
							put(s, "member", "member "+short(key)+" is set to "+short(v))
						case !isKey(key):
							put(s, "plain", "the key that is set is "+short(key))
						case !isV(v):
							put(s, "plain", "the key is set to "+short(v))
						case c.str != "":
							put(s, "plain", "a path is set as a plain key")
						default:
							put(s, "plain", "")
						}
					},
					call: func(s *St, call *ssa.Call, nm string) {
						if nm == "jp.Expr.Set" {
							a := callArgs(call.Common())
							q := extOf(contents(s, s.PT(a[0])), 0, "jp.ParseString")
							v := contents(s, s.PT(a[2]))
							switch {
							case root:
								put(s, "path", "the root is set as a path")
							case q == nil || !isKey(q.Args[0]):
								put(s, "path", "the path that is set is "+short(contents(s, s.PT(a[0]))))
							case !isData(s.PT(a[1])):
								put(s, "path", "the path is set in "+short(s.PT(a[1])))
							case !isV(v):
								put(s, "path", "the path is set to "+short(v))
							case c.str == "" && mp:
								put(s, "path", "a plain key is set as a path")
							default:
								put(s, "path", "")
							}
							return
						}
						if (nm == "builtin.delete" || nm == "builtin.clear") && isData(s.PT(call.Call.Args[0])) && !root {
							put(s, "delete", "members of the data are removed")
						}
					},
					exit: func(s *St, ret *ssa.Return) string {
						failed := hasFlag(s, "parse:set") || hasFlag(s, "get:set") || hasFlag(s, "set:set") || hasFlag(s, "!vmap") && root
						et := s.RetPT(ret, 0)
						own := isCallTo(et, "jp.Expr.Set") || extOf(et, 1, "jp.ParseString") != nil // tested by the caller
						if s.RetVal(ret, 0) == "nonnil" {
							if c.exact && c.str == "" || failed || root && !mp || own || !mp && c.str == "" {
								return ""
							}
							return "fails with " + short(et)
						}
						switch {
						case c.exact && c.str == "":
							return "an empty key is accepted"
						case root && !mp || root && !hasFlag(s, "vmap"):
							return "something other than a map is set as the root"
						case failed && !own:
							return "succeeds after a failure"
						}
						for f := range parseFlags(s.Auto) {
							if strings.HasPrefix(f, "bad:") {
								return f[4:]
							}
						}
						if root {
							ok++
							return "" // for each member, see below
						}
						if !hasFlag(s, "put") {
							return "nothing is set"
						}
						ok++
						return ""
					}})
				if fn != nil && !(c.exact && c.str == "") && (mp || !root && c.str != "") {
					k.check(ok > 0, R, construct, k.pr.pos(fn.Pos()), "never succeeds")
				}
			}
		}
	}
	both := func(t *Term) bool {
		if isCallTo(t, "object.DeepCopyAny") {
			t = t.Args[0]
		}
		return allAlts(t, func(x *Term) bool { return value(true)(x) || value(false)(x) })
	}
	k.each(fn, &eachSpec{R: R, what: "every member of the map is set at the root", leaf: both,
		outside: func(call ssa.CallInstruction, callee *ssa.Function) bool {
			return callee.Object() != nil && callee.Object().Exported()
		},
		exempt: func(s *St, cond ssa.Value, taken bool) bool {
			x, eq, ok := eqConst(s.condPT(cond), `"$."`, taken)
			return ok && !eq && isKey(x)
		},
		instr: func(s *St, in ssa.Instruction) int {
			if m, ok := in.(*ssa.MapUpdate); ok && isData(s.PT(m.Map)) {
				key, v := s.PT(m.Key), contents(s, s.PT(m.Value))
				if key.Op == "rangekey" && both(key.Args[0]) && elemOf(v) != nil && both(v.Args[0]) {
					return 1
				}
			}
			return 0
		}})
}

// keyOrder: the keys of a map are set in the order root, plain keys, paths (parents first).
func (k *K) keyOrder(R string) {
	fn := k.fn("expression.sortedDictKeys")
	if fn == nil {
		return
	}
	construct := "the order keys are set in"
	k.each(fn, &eachSpec{R: R, what: "every key is set", leaf: func(t *Term) bool { return isParam(t, "arg0") },
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			for _, x := range k.appendTo(s, call, "string") {
				if e := s.PTIn(x.c, x.v); true {
					if e.Op == "rangekey" && isParam(e.Args[0], "arg0") {
						return 1
					}
				}
			}
			return 0
		}})
	var less []*target
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			n := staticName(call)
			if n != "slices.SortFunc" && n != "slices.SortStableFunc" {
				continue
			}
			if t := k.R.funcValue(k.R.rootCtx(fn), call.Call.Args[1]); t != nil && t.fn != nil {
				less = append(less, t)
			}
		}
	}
	if len(less) != 1 {
		k.fail(R, construct, k.pr.pos(fn.Pos()), "the keys are not sorted")
		return
	}
	rank := func(c *keyClass) int {
		switch {
		case c.str == "$.":
			return 0
		case c.str == "":
			return 1
		}
		return 2
	}
	sgnOf := func(v string) int {
		switch {
		case strings.HasPrefix(v, "-"):
			return -1
		case v == "0":
			return 0
		}
		return 1
	}
	for _, a := range keyClasses {
		for _, b := range keyClasses {
			isA := func(t *Term) bool { return isParam(t, "arg0") }
			isB := func(t *Term) bool { return isParam(t, "arg1") }
			fa, fb := a.atom(isA), b.atom(isB)
			atom := func(s *St, t *Term) (string, bool) {
				if v, ok := fa(s, t); ok {
					return v, ok
				}
				return fb(s, t)
			}
			var cmpOf func(s *St, t *Term) (string, bool)
			cmpOf = func(s *St, t *Term) (string, bool) {
				switch {
				case isCallTo(t, "cmp.Compare", "strings.Compare") && isA(t.Args[0]) && isB(t.Args[1]):
					return "names", true
				case isCallTo(t, "cmp.Compare"):
					x, ok := fold(s, t.Args[0], atom)
					y, ok2 := fold(s, t.Args[1], atom)
					n, err := strconv.Atoi(x)
					m, err2 := strconv.Atoi(y)
					if !ok || !ok2 || err != nil || err2 != nil {
						return "", false
					}
					return itoaN(map[bool]int{true: 1}[n > m] - map[bool]int{true: 1}[n < m]), true
				case isCallTo(t, "cmp.Or"):
					for _, e := range k.elemTerms(s, t.Args[0]) {
						if v, ok := cmpOf(s, e); !ok || v != "0" {
							return v, ok
						}
					}
					return "0", true
				}
				return fold(s, t, atom)
			}
			k.scenario(less[0].fn, &scen{R: R, ctx: k.R.ctx(k.R.rootCtx(fn), nil, nil, less[0].fn, less[0].mc, less[0].mcCtx), construct: construct + ": " + a.name + " and " + b.name, atom: atom,
				inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool { return helperInline(s, call, callee) },
				exit: func(s *St, ret *ssa.Return) string {
					t := contents(s, s.RetPT(ret, 0))
					v, ok := cmpOf(s, t)
					if !ok {
						return "the order is " + short(t)
					}
					if d := rank(a) - rank(b); d != 0 {
						if v == "names" || sgnOf(v) != map[bool]int{true: 1, false: -1}[d > 0] {
							return "in the wrong order"
						}
					} else if rank(a) == 2 && v != "names" {
						return "a path may be set before its parent"
					}
					return ""
				}})
		}
	}
}

// ---------------------------------------------------------------- E09: label selectors

func runE09(k *K) {
	const R = "label selector"
	fn := k.fn("expression.MatchLabels")
	isSel := func(t *Term) bool { return isParam(t, "arg1") }
	part := func(name string) func(*Term) bool {
		return func(t *Term) bool {
			return (t.Op == "index" || t.Op == "lookup") && isSel(t.Args[0]) && t.Args[1].Sym == strconv.Quote(name)
		}
	}
	isReqs := part("matchExpressions")
	isReq := func(t *Term) bool {
		return (t.Op == "index" || t.Op == "lookup") && isReqs(t.Args[0]) && t.Args[1].Op != "const"
	}
	reqPart := func(name string) func(*Term) bool {
		return func(t *Term) bool {
			return (t.Op == "index" || t.Op == "lookup") && isReq(t.Args[0]) && t.Args[1].Sym == strconv.Quote(name)
		}
	}
	// text of a value
	text := func(s *St, t *Term, is func(*Term) bool) bool {
		if !isCallTo(t, "fmt.Sprint", "fmt.Sprintf") || len(t.Args) == 2 && t.Args[0].Sym != `"%v"` {
			return false
		}
		e := k.elemTerms(s, t.Args[len(t.Args)-1])
		return len(e) == 1 && is(e[0])
	}
	elem := func(of func(*Term) bool) func(*Term) bool {
		return func(t *Term) bool {
			return (t.Op == "index" || t.Op == "lookup") && of(t.Args[0]) && t.Args[1].Op != "const"
		}
	}
	given := func(name string, want bool) func(s *St, cond ssa.Value, taken bool) bool {
		return func(s *St, cond ssa.Value, taken bool) bool {
			t, n := neg(s.condPT(cond))
			return t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && part(name)(t.Args[0].Args[0]) && (taken != n) == want
		}
	}
	outside := func(call ssa.CallInstruction, callee *ssa.Function) bool {
		return callee.Object() != nil && callee.Object().Exported()
	}
	// copied: a member of a map of the matcher is that of the collection
	copied := func(typ string, of func(*Term) bool) func(s *St, in ssa.Instruction) int {
		return func(s *St, in ssa.Instruction) int {
			m, ok := in.(*ssa.MapUpdate)
			if !ok || typeShort(m.Map.Type()) != typ {
				return 0
			}
			key, v := s.PT(m.Key), s.PT(m.Value)
			if key.Op == "rangekey" && of(key.Args[0]) && text(s, v, elem(of)) {
				return 1
			}
			return 0
		}
	}
	isLabels := func(t *Term) bool { return isParam(t, "arg0") }
	k.each(fn, &eachSpec{R: R, what: "every label can match", leaf: isLabels, outside: outside, instr: copied("labels.Set", isLabels), quick: true})
	k.each(fn, &eachSpec{R: R, what: "every label in matchLabels is required", leaf: part("matchLabels"), outside: outside, exempt: given("matchLabels", false),
		instr: copied("map[string]string", part("matchLabels"))})
	either := func(s *St, cond ssa.Value, taken bool) bool {
		return given("matchLabels", true)(s, cond, taken) || given("matchExpressions", true)(s, cond, taken)
	}
	k.each(fn, &eachSpec{R: R, what: "every label of a plain selector is required", leaf: isSel, outside: outside, exempt: either, instr: copied("map[string]string", isSel)})
	k.each(fn, &eachSpec{R: R, what: "every requirement is required", leaf: isReqs, outside: outside, exempt: given("matchExpressions", false),
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			for _, e := range k.appendTo(s, call, "meta/v1.LabelSelectorRequirement") {
				m := k.literalIn(s, e.c, e.v)
				if reqPart("key")(k.lit(s, m, "Key")) && reqPart("operator")(k.lit(s, m, "Operator")) {
					return 1
				}
			}
			return 0
		}})
	k.each(fn, &eachSpec{R: R, what: "every value of a requirement counts", leaf: reqPart("values"), group: isReqs, outside: outside, exempt: given("matchExpressions", false),
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			for _, e := range k.appendTo(s, call, "string") {
				if text(s, s.PTIn(e.c, e.v), elem(reqPart("values"))) {
					return 1
				}
			}
			return 0
		}})
	// nothing else gets into the matcher, and the answer is that of the matcher
	construct := "expression.MatchLabels: the answer"
	if fn == nil {
		return
	}
	as := "meta/v1.LabelSelectorAsSelector"
	bad := func(s *St, f string, args ...any) {
		if !hasFlag(s, "bad") {
			addFlag(s, "bad")
			k.fail(R, construct, k.pr.pos(fn.Pos()), f, append(args, s.Trace())...)
		}
	}
	k.scenario(fn, &scen{R: R, construct: construct, keep: true, atom: func(s *St, t *Term) (string, bool) { return "", false },
		edge: func(s *St, t *Term, cond ssa.Value, taken bool) {
			nilEdge(s, t, taken, func(x *Term) bool { return extOf(x, 1, as) != nil }, "as")
			if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isReq(t.Args[0].Args[0]) && !taken {
				addFlag(s, "malformed")
			}
		},
		instr: func(s *St, in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			key, v := s.PT(m.Key), s.PT(m.Value)
			of := func(ps ...func(*Term) bool) bool {
				for _, p := range ps {
					if key.Op == "rangekey" && p(key.Args[0]) && text(s, v, elem(p)) {
						return true
					}
				}
				return false
			}
			switch typeShort(m.Map.Type()) {
			case "labels.Set":
				if !of(isLabels) {
					bad(s, "label %s is %s in the set that is matched (path %s)", short(key), short(v))
				}
			case "map[string]string":
				if !of(isSel, part("matchLabels")) {
					bad(s, "label %s must be %s (path %s)", short(key), short(v))
				}
			}
		},
		call: func(s *St, call *ssa.Call, nm string) {
			for _, e := range k.appendTo(s, call, "meta/v1.LabelSelectorRequirement") {
				m := k.literalIn(s, e.c, e.v)
				if key, op := k.lit(s, m, "Key"), k.lit(s, m, "Operator"); !reqPart("key")(key) || !reqPart("operator")(op) {
					bad(s, "a requirement has key %s and operator %s (path %s)", short(key), short(op))
				}
			}
			for _, e := range k.appendTo(s, call, "string") {
				if v := s.PTIn(e.c, e.v); !text(s, v, elem(reqPart("values"))) {
					bad(s, "a value of a requirement is %s (path %s)", short(v))
				}
			}
		},
		exit: func(s *St, ret *ssa.Return) string {
			if s.RetVal(ret, 1) == "nonnil" {
				return ""
			}
			t := contents(s, s.RetPT(ret, 0))
			switch {
			case !isCallTo(t, "labels.Selector.Matches"):
				return "the answer is " + short(t)
			case extOf(t.Args[0], 0, as) == nil || !hasFlag(s, "as:nil"):
				return "the selector is " + short(t.Args[0])
			case !strings.HasPrefix(t.Args[1].Sym, "make:labels.Set@"):
				return "the labels matched are " + short(t.Args[1])
			case hasFlag(s, "malformed"):
				return "a malformed requirement is passed over"
			}
			return ""
		}})
}

// ---------------------------------------------------------------- E05: nothing evaluated is changed

func init() {
	register("E05", "evaluation is free of side effects: ownership analysis of every instruction that changes a map, a list or an object in the functions reachable from the evaluators; what is changed must have been made during the evaluation (parameters are followed to the callers), values placed into a map that is changed by path must be deep copies", runE05)
}

type owner struct {
	k      *K
	reach  map[*ssa.Function]bool
	roots  map[*ssa.Function]bool
	callOf map[*ssa.Function][]ssa.CallInstruction
	busy   map[string]bool
	own    func(f *ssa.Function, i int) bool // parameter i is owned by the function
}

// made: t was made during the evaluation.
func (o *owner) made(f *ssa.Function, t *Term, d int) bool {
	if d > 14 {
		return false
	}
	return allAlts(t, func(a *Term) bool { return o.made1(f, a, d) })
}

var makers = []string{"object.DeepCopyAny", "object.DeepCopy", "maps.Clone", "slices.Clone", "util.Map", "dbsp.DeepCopyDocument", "slices.Concat", "slices.Sorted", "slices.Collect"}

func (o *owner) made1(f *ssa.Function, a *Term, d int) bool {
	switch {
	case a.Op == "const", a.Op == "alloc":
		return true
	case a.Op == "opaque" && a.Sym == "…":
		return true // the value before, in a loop
	case isCallTo(a, makers...):
		return true
	case isCallTo(a, "builtin.append") && o.clipped(a.Args[0]):
		return true // appending moves the list
	case isCallTo(a, "builtin.append"), isCallTo(a, "slices.Clip"), isCallTo(a, "slices.Grow"), a.Op == "slice", a.Op == "un" && a.Sym == "*":
		return o.made(f, a.Args[0], d+1)
	case a.Op == "assert":
		return o.made(f, a.Args[0], d+1)
	case a.Op == "ext" && a.Sym == "0" && a.Args[0].Op == "assert":
		return o.made(f, a.Args[0].Args[0], d+1)
	case a.Op == "call", a.Op == "ext" && a.Args[0].Op == "call":
		i, c := 0, a
		if a.Op == "ext" {
			c = a.Args[0]
			for j := 0; j < 4; j++ {
				if a.Sym == itoaN(j) {
					i = j
				}
			}
		}
		g := o.k.find(c.Sym)
		if g == nil || !o.reach[g] {
			return false
		}
		key := c.Sym + "#" + itoaN(i)
		if o.busy[key] {
			return true
		}
		o.busy[key] = true
		defer delete(o.busy, key)
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok && i < len(ret.Results) && !o.made(g, o.k.R.T(o.k.R.rootCtx(g), ret.Results[i]), d+1) {
					return false
				}
			}
		}
		return true
	case a.Op == "param":
		g, i := f, -1
		if p, ok := a.V.(*ssa.Parameter); ok {
			g, i = p.Parent(), paramIndex(p)
		} else if f.Parent() == nil {
			for j := range f.Params {
				sym := "arg" + itoaN(j)
				if f.Signature.Recv() != nil {
					sym = "arg" + itoaN(j-1)
					if j == 0 {
						sym = "recv"
					}
				}
				if isParam(a, sym) {
					i = j
				}
			}
		}
		if i < 0 {
			return false
		}
		if o.own(g, i) {
			return true
		}
		if o.roots[g] || len(o.callOf[g]) == 0 {
			return false
		}
		key := fnName(g) + "@" + itoaN(i)
		if o.busy[key] {
			return true
		}
		o.busy[key] = true
		defer delete(o.busy, key)
		for _, call := range o.callOf[g] {
			args := callArgs(call.Common())
			if i >= len(args) || !o.made(call.Parent(), o.k.R.T(o.k.R.rootCtx(call.Parent()), args[i]), d+1) {
				return false
			}
		}
		return true
	case a.Op == "field":
		// a member of a struct made here
		return o.made(f, a.Args[0], d+1) && o.members(f, a, d)
	case a.Op == "index" || a.Op == "lookup":
		return false
	}
	return false
}

// clipped: a list without room at its end, so that appending to it makes a new one.
func (o *owner) clipped(t *Term) bool {
	return allAlts(t, func(a *Term) bool {
		if isCallTo(a, "slices.Clip") {
			return true
		}
		if sl, ok := a.V.(*ssa.Slice); ok && a.Op == "slice" && sl.Max != nil {
			if sl.Max == sl.High {
				return true
			}
			lenOf := func(v ssa.Value) ssa.Value {
				if c, ok := v.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						return c.Call.Args[0]
					}
				}
				return nil
			}
			if x := lenOf(sl.Max); x != nil && (sl.High == nil || x == lenOf(sl.High)) && x == sl.X {
				return true
			}
			m, mok := sl.Max.(*ssa.Const)
			h, hok := sl.High.(*ssa.Const)
			return mok && hok && m.Value != nil && h.Value != nil && m.Value.ExactString() == h.Value.ExactString()
		}
		return false
	})
}

// members: what the field of a local struct is set to was made here.
func (o *owner) members(f *ssa.Function, a *Term, d int) bool {
	al, ok := a.Args[0].V.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	return o.field(al, a.Sym, d)
}

// field: everything the field of the variable is set to was made here; the variable may be set as a
// whole to a literal (another variable of the same kind).
func (o *owner) field(al *ssa.Alloc, name string, d int) bool {
	if d > 20 {
		return false
	}
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if c, ok := st.Val.(*ssa.Const); ok && c.Value == nil {
				continue // the zero value
			}
			ld, ok := st.Val.(*ssa.UnOp)
			if !ok {
				return false
			}
			from, ok := ld.X.(*ssa.Alloc)
			if !ok || from == al || !o.field(from, name, d+1) {
				return false
			}
			continue
		}
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != name || fa.Referrers() == nil {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				key := "field:" + al.Name() + "." + name + "@" + fnName(al.Parent())
				if o.busy[key] {
					continue
				}
				o.busy[key] = true
				ok := o.made(al.Parent(), o.k.R.T(o.k.R.rootCtx(st.Parent()), st.Val), d+1)
				delete(o.busy, key)
				if !ok {
					return false
				}
			}
		}
	}
	return true
}

func runE05(k *K) {
	const R = "side effects"
	o := &owner{k: k, reach: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}, callOf: map[*ssa.Function][]ssa.CallInstruction{}, busy: map[string]bool{}}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || o.reach[f] || f.Blocks == nil || !inModule(f) {
			return
		}
		o.reach[f] = true
		k.funcs[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if g != nil && inModule(g) {
						o.callOf[g] = append(o.callOf[g], c)
					}
					add(g)
				}
			}
		}
	}
	for _, f := range append(k.fnsIn("pkg/pipeline"), k.fnsIn("pkg/expression")...) {
		if n := f.Name(); f.Signature.Recv() != nil && (n == "Evaluate" || n == "Extract" || n == "Transform") && f.Parent() == nil && typeShort(f.Signature.Recv().Type()) != "pipeline.Pipeline" {
			o.roots[f] = true
			add(f)
		}
	}
	if !k.check(len(o.roots) >= 5, R, "evaluators", "pkg/pipeline/op.go", "only %d evaluators found", len(o.roots)) {
		return
	}
	// a transformer is given a private copy of the document (D03)
	o.own = func(f *ssa.Function, i int) bool { return o.roots[f] && f.Name() == "Transform" && i == 1 }
	n := 0
	for _, f := range k.pr.Funcs {
		if !o.reach[f] {
			continue
		}
		c := k.R.rootCtx(f)
		construct := fnName(f)
		must := func(in ssa.Instruction, v ssa.Value, what string) {
			n++
			t := k.R.T(c, v)
			k.check(o.made(f, t, 0), R, construct, k.pr.at(in), "%s %s, which was not made during the evaluation", what, short(t))
		}
		k.ok(R, construct, k.pr.pos(f.Pos()))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.MapUpdate:
					must(in, y.Map, "changes the map")
				case *ssa.Store:
					switch a := y.Addr.(type) {
					case *ssa.IndexAddr:
						must(in, a.X, "changes the list")
					case *ssa.FieldAddr:
						must(in, a.X, "changes a field of")
					case *ssa.Global:
						k.fail(R, construct, k.pr.at(in), "changes the variable %s", a.Name())
					case *ssa.Alloc:
					default:
						must(in, y.Addr, "changes")
					}
				case ssa.CallInstruction:
					nm := k.R.calleeName(c, y.Common())
					args := callArgs(y.Common())
					switch {
					case nm == "builtin.append":
						if o.clipped(k.R.T(c, args[0])) {
							n++
							continue
						}
						must(in, args[0], "appends to the list")
					case nm == "builtin.delete", nm == "builtin.clear", nm == "builtin.copy":
						must(in, args[0], "changes")
					case strings.HasPrefix(nm, "jp.Expr.") && (strings.Contains(nm, "Set") || strings.Contains(nm, "Del") || strings.Contains(nm, "Mod") || strings.Contains(nm, "Remove")):
						must(in, args[1], "changes a part of")
					case strings.HasPrefix(nm, "sort."), strings.HasPrefix(nm, "slices.Sort") && !strings.HasPrefix(nm, "slices.Sorted"), nm == "slices.Reverse",
						strings.HasPrefix(nm, "slices.Delete"), strings.HasPrefix(nm, "slices.Compact"), strings.HasPrefix(nm, "slices.Insert"), strings.HasPrefix(nm, "slices.Replace"):
						must(in, args[0], "changes the order or content of")
					case strings.HasPrefix(nm, "maps.Copy"), strings.HasPrefix(nm, "maps.DeleteFunc"):
						must(in, args[0], "changes the map")
					case strings.HasPrefix(nm, "unstructured.SetNested"), strings.HasPrefix(nm, "unstructured.RemoveNested"), nm == "object.SetContent", nm == "object.SetNestedField":
						must(in, args[0], "changes a part of")
					case strings.HasPrefix(nm, "reflect.Value.Set"):
						k.fail(R, construct, k.pr.at(in), "changes a value by reflection")
					}
				}
			}
		}
	}
	k.check(n >= 10, R, "changes", "pkg/expression", "only %d found", n)

	// a map is built key by key, so that a key may be set inside the value of another one: the value
	// must not be a part of the document
	if f := k.fn("expression.SetJSONPath"); f != nil {
		const R = "values are copied"
		var copied func(t *Term, d int) bool
		copied = func(t *Term, d int) bool {
			return d < 8 && allAlts(t, func(a *Term) bool {
				switch {
				case isCallTo(a, "object.DeepCopyAny"), a.Op == "const":
					return true
				case a.Op == "index", a.Op == "lookup", a.Op == "assert", a.Op == "ext" && len(a.Args) > 0 && (a.Args[0].Op == "assert" || a.Args[0].Op == "lookup"):
					return copied(a.Args[0], d+1)
				}
				return false
			})
		}
		n := 0
		set := func(s *St, at ssa.Instruction, v ssa.Value) {
			n++
			t := s.PT(v)
			k.check(copied(t, 0), R, fnName(f), k.pr.at(at), "puts %s, which is not a copy, into the map under construction", short(t))
		}
		x := k.explore(&Rule{Inline: helperInline, Flow: true, Instr: func(s *St, in ssa.Instruction) {
			if y, ok := in.(*ssa.MapUpdate); ok {
				set(s, in, y.Value)
			}
		}, Call: func(s *St, call ssa.CallInstruction, nm string) {
			if nm == "expression.SetJSONPathRaw" || nm == "jp.Expr.Set" {
				args := callArgs(call.Common())
				if nm == "jp.Expr.Set" {
					set(s, call, args[2])
				} else {
					set(s, call, args[1])
				}
			}
		}})
		x.Run(f, "")
		k.done(x, R, fnName(f))
		k.check(n >= 2, R, fnName(f), k.pr.pos(f.Pos()), "no place where the value is set")
	}
}
