package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E08", "textual form of expressions: the reader is explored once per form of JSON and the writer once per operator, with the conditions on the form and on the operator folded; what the reader stores for a form and what the writer writes for it must be inverse to each other", runE08)
}

// vt is a table of values seen on paths: flags of a state refer to its entries.
type vt struct {
	vals []ctxVal
	pos  []ssa.Instruction
	idx  map[string]int
}

func (t *vt) put(in ssa.Instruction, c *Ctx, v ssa.Value) string {
	key := fmt.Sprintf("%d/%p/%p", c.id, v, in)
	if t.idx == nil {
		t.idx = map[string]int{}
	}
	if _, ok := t.idx[key]; !ok {
		t.idx[key] = len(t.vals)
		t.vals = append(t.vals, ctxVal{c, v})
		t.pos = append(t.pos, in)
	}
	return itoaN(t.idx[key])
}

// setFact replaces a fact of a state.
func setFact(s *St, name, val string) {
	for f := range parseFlags(s.Auto) {
		if strings.HasPrefix(f, name+"=") {
			dropFlag(s, f)
		}
	}
	addFlag(s, name+"="+val)
}

func fact(s *St, name string) string {
	for f := range parseFlags(s.Auto) {
		if strings.HasPrefix(f, name+"=") {
			return f[len(name)+1:]
		}
	}
	return ""
}

func (t *vt) get(s *St, name string) (ctxVal, bool) {
	f := fact(s, name)
	for i := range t.vals {
		if itoaN(i) == f {
			return t.vals[i], true
		}
	}
	return ctxVal{}, false
}

func typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// jsonTarget: the variable a call of json.Unmarshal reads into.
func jsonTarget(s *St, v ssa.Value) (*Ctx, ssa.Value) {
	c, w := s.Root(v)
	if mi, ok := w.(*ssa.MakeInterface); ok {
		c, w = s.RootIn(c, mi.X)
	}
	return c, w
}

// loaded: the variable a value was loaded from.
func loaded(s *St, c *Ctx, v ssa.Value) (*Ctx, *ssa.Alloc) {
	for i := 0; i < 6; i++ {
		c, v = s.RootIn(c, v)
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, nil
			}
			cc, p := s.RootIn(c, x.X)
			if al, ok := p.(*ssa.Alloc); ok {
				return cc, al
			}
			return nil, nil
		default:
			return nil, nil
		}
	}
	return nil, nil
}

type jsonForm struct {
	name string
	ok   map[string]bool // the types it can be read as
	null bool
	n    int    // number of keys
	key  string // the first one
	op   string // what must be stored
	typ  string
}

const (
	tList = "[]expression.Expression"
	tMap  = "map[string]expression.Expression"
)

func (k *K) reader(R string, fn *ssa.Function) {
	if fn == nil {
		return
	}
	set := func(ts ...string) map[string]bool {
		m := map[string]bool{}
		for _, t := range ts {
			m[t] = true
		}
		return m
	}
	all := set("bool", "int64", "int", "float64", "string", tList, tMap)
	forms := []jsonForm{
		{name: "null", ok: all, null: true, n: 0, op: "@noop"},
		{name: "a bool", ok: set("bool"), op: "@bool", typ: "bool"},
		{name: "an integer", ok: set("int64", "int", "float64"), op: "@int", typ: "int64"},
		{name: "a number with a fraction", ok: set("float64"), op: "@float", typ: "float64"},
		{name: "a string", ok: set("string"), op: "@string", typ: "string"},
		{name: "a list", ok: set(tList), op: "@list", typ: tList},
		{name: "an operator", ok: set(tMap), n: 1, key: `"@op"`, op: "", typ: ""},
		{name: "an empty map", ok: set(tMap), n: 0, op: "@dict", typ: tMap},
		{name: "a map of one key", ok: set(tMap), n: 1, key: `"kk"`, op: "@dict", typ: tMap},
		{name: "a map with an empty key", ok: set(tMap), n: 1, key: `""`, op: "@dict", typ: tMap},
		{name: "a map of several keys", ok: set(tMap), n: 2, key: `"@op"`, op: "@dict", typ: tMap},
		{name: "something else", ok: set()},
	}
	for _, f := range forms {
		f := f
		tab := &vt{}
		construct := fnName(fn) + ": " + f.name
		isRaw := func(t *Term) bool {
			for t.Op == "convert" || isCallTo(t, "bytes.TrimSpace", "strings.TrimSpace") {
				t = t.Args[0]
			}
			return isParam(t, "arg0")
		}
		isText := func(t *Term) bool { return strings.Contains(t.String(), `"null"`) }
		tf := func(b bool) (string, bool) { return fmt.Sprint(b), true }
		parse := func(t *Term) (string, bool) { // success of a parse
			if !isCallTo(t, "json.Unmarshal") || !isRaw(t.Args[0]) || t.Args[1].V == nil {
				return "", false
			}
			p, ok := t.Args[1].V.Type().Underlying().(*types.Pointer)
			if mi, is := t.Args[1].V.(*ssa.MakeInterface); is {
				p, ok = mi.X.Type().Underlying().(*types.Pointer)
			}
			if !ok || !all[typeText(p.Elem())] {
				return "", false
			}
			return fmt.Sprint(f.ok[typeText(p.Elem())]), true
		}
		isTop := func(t *Term) bool { // what an operator is read from
			for t.Op == "un" && t.Sym == "*" {
				t = t.Args[0]
			}
			return t.V != nil && (typeText(t.V.Type()) == tMap || typeText(t.V.Type()) == "*"+tMap)
		}
		isKey := func(t *Term) bool {
			return t.Op == "rangekey" || t.Op == "phi" && anyAlt(t, func(a *Term) bool { return a.Op == "rangekey" }) && allAlts(t, func(a *Term) bool { return a.Op == "rangekey" || a.Sym == `""` })
		}
		sc := &scen{R: R, construct: construct}
		sc.atom = func(s *St, t *Term) (string, bool) {
			switch {
			case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && (isRaw(t.Args[0]) && isText(t.Args[1]) || isRaw(t.Args[1]) && isText(t.Args[0])):
				return tf((t.Sym == "==") == f.null)
			case isCallTo(t, "bytes.Equal") && (isRaw(t.Args[0]) && isText(t.Args[1]) || isRaw(t.Args[1]) && isText(t.Args[0])):
				return tf(f.null)
			case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]):
				if v, ok := parse(t.Args[0]); ok {
					return tf((t.Sym == "==") == (v == "true"))
				}
			case isCallTo(t, "builtin.len") && isTop(t.Args[0]):
				return itoaN(f.n), true
			case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && f.n > 0:
				// the first character, as a character or as a string
				x := t.Args[0]
				for x.Op == "convert" {
					x = x.Args[0]
				}
				if (x.Op == "index" || x.Op == "lookup") && isKey(x.Args[0]) && x.Args[1].Sym == "0" && len(f.key) > 2 {
					want := map[string]byte{"64": '@', `"@"`: '@'}[t.Args[1].Sym]
					return tf((t.Sym == "==") == (want == f.key[1]))
				}
			case isKey(t) && f.n > 0:
				return f.key, true
			}
			return "", false
		}
		sc.edge = func(s *St, t *Term, cond ssa.Value, taken bool) {
			// a map that is not empty is entered
			if ov := s.loopOver(cond); ov != nil && isTop(ov) && f.n > 0 && !taken && !hasFlag(s, "in") {
				s.Stop = true
			} else if ov != nil && taken {
				addFlag(s, "in")
			}
		}
		sc.call = func(s *St, call *ssa.Call, nm string) {
			if nm != "json.Unmarshal" {
				return
			}
			args := callArgs(&call.Call)
			c, w := jsonTarget(s, args[1])
			if v, ok := parse(s.PT(call)); ok && v == "true" {
				setFact(s, "src", tab.put(call, c, w))
				return
			} else if !ok {
				k.fail(R, construct, k.pr.at(call), "undecided: read as something else: %s", s.PT(call))
			}
		}
		sc.instr = func(s *St, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if fa, is := st.Addr.(*ssa.FieldAddr); is && isParam(s.PT(fa.X), "recv") {
				setFact(s, structOf(fa.X.Type()).Field(fa.Field).Name(), tab.put(in, s.Ctx, st.Val))
				addFlag(s, "set")
				return
			}
			if !isParam(s.PT(st.Addr), "recv") {
				return
			}
			m := k.literal(s, st.Val)
			c, v := s.Root(st.Val)
			if cst, is := v.(*ssa.Const); m == nil && !(is && cst.Value == nil) {
				k.fail(R, construct, k.pr.at(in), "undecided: the expression is not built here: %s", s.PTIn(c, v))
			}
			for _, n := range []string{"Op", "Arg", "Literal"} {
				if e, is := m[n]; is && e.v != nil {
					setFact(s, n, tab.put(in, e.c, e.v))
				} else {
					dropFact(s, n)
				}
			}
			addFlag(s, "set")
		}
		sc.exit = func(s *St, ret *ssa.Return) string {
			c, v := s.Root(ret.Results[0])
			isErr := !isNil(s.PTIn(c, v))
			if f.op == "" && f.typ == "" && f.n == 0 {
				if !isErr {
					return "accepted"
				}
				return ""
			}
			if isErr {
				return "refused: " + s.PTIn(c, v).String()
			}
			if !hasFlag(s, "set") {
				return "the expression is not set"
			}
			op, ok := tab.get(s, "Op")
			if !ok {
				return "no operator is set"
			}
			ot := contents(s, s.PTIn(op.c, op.v))
			src, hasSrc := tab.get(s, "src")
			arg, hasArg := tab.get(s, "Arg")
			if hasArg && isNil(s.PTIn(arg.c, arg.v)) {
				hasArg = false
			}
			lit, hasLit := tab.get(s, "Literal")
			if hasLit && isNil(s.PTIn(lit.c, lit.v)) {
				hasLit = false
			}
			if f.op == "" {
				if !isKey(ot) {
					return fmt.Sprintf("the operator is %s rather than the key", ot)
				}
				if hasLit {
					return "an operator gets a literal"
				}
				if !hasArg {
					return "the argument is lost"
				}
				c, v := s.RootIn(arg.c, arg.v)
				al, ok := v.(*ssa.Alloc)
				if !ok {
					return fmt.Sprintf("the argument is %s", s.PTIn(arg.c, arg.v))
				}
				at := contents(s, s.PTIn(c, al))
				if at.Op == "alloc" && wholeStore(al) != nil {
					at = s.PTIn(c, wholeStore(al))
				}
				good := at.Op == "lookup" && isTop(at.Args[0]) && (isKey(at.Args[1]) || at.Args[1].String() == ot.String()) || at.Op == "index" && isTop(at.Args[0])
				if !good {
					return fmt.Sprintf("the argument is %s rather than the value of the key", at)
				}
				return ""
			}
			if s, ok := fold(s, ot, func(*St, *Term) (string, bool) { return "", false }); !ok || s != `"`+f.op+`"` {
				return fmt.Sprintf("it is read as %s instead of %q", ot, f.op)
			}
			if hasArg {
				return "a literal gets an argument"
			}
			if f.typ == "" {
				if hasLit {
					return "null gets a literal"
				}
				return ""
			}
			if !hasLit || !hasSrc {
				return "the value is lost"
			}
			c, al := loaded(s, lit.c, lit.v)
			if al == nil || src.v != al || src.c != c {
				return fmt.Sprintf("the value is %s rather than what was read", s.PTIn(lit.c, lit.v))
			}
			lt := lit.v.Type()
			if mi, ok := lit.v.(*ssa.MakeInterface); ok {
				lt = mi.X.Type()
			}
			if typeText(lt) != f.typ {
				return fmt.Sprintf("the value is a %s instead of a %s", typeText(lt), f.typ)
			}
			return ""
		}
		k.scenario(fn, sc)
	}
}

func dropFact(s *St, name string) {
	for f := range parseFlags(s.Auto) {
		if strings.HasPrefix(f, name+"=") {
			dropFlag(s, f)
		}
	}
}

func runE08(k *K) {
	const R = "round trip"
	k.reader(R, k.fn("expression.Expression.UnmarshalJSON"))
	k.writer(R, k.fn("expression.Expression.MarshalJSON"))
	k.exprCopy(R, k.fn("expression.Expression.DeepCopyInto"))
	k.newLiteral(R, k.fn("expression.NewLiteralExpression"))
	ops := k.pipelineOps(R)
	for _, o := range []string{"@join", "@select", "@project", "@unwind", "@gather"} {
		k.check(ops[o] != nil, R, "operations of a pipeline: "+o, "", "no operation of a pipeline stands for it")
	}
	k.pipelineReader(R, k.fn("operator/v1alpha1.Pipeline.UnmarshalJSON"), ops)
	k.pipelineWriter(R, k.fn("operator/v1alpha1.Pipeline.MarshalJSON"))
	k.pipelineCopy(R, k.fn("operator/v1alpha1.Pipeline.DeepCopyInto"), ops)
}

// ---------------------------------------------------------------- writer

// entry: the only entry of a map built here.
func (k *K) entries(s *St, c *Ctx, v ssa.Value) (*ssa.MakeMap, *Ctx, []*ssa.MapUpdate) {
	c, v = s.RootIn(c, v)
	for i := 0; i < 4; i++ {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			c, v = s.RootIn(c, mi.X)
			continue
		}
		break
	}
	mm, ok := v.(*ssa.MakeMap)
	if !ok || mm.Referrers() == nil {
		return nil, nil, nil
	}
	var us []*ssa.MapUpdate
	for _, r := range *mm.Referrers() {
		if u, ok := r.(*ssa.MapUpdate); ok && u.Map == mm {
			us = append(us, u)
		}
	}
	return mm, c, us
}

func (k *K) writer(R string, fn *ssa.Function) {
	if fn == nil {
		return
	}
	isRecv := func(t *Term, f string) bool {
		for t.Op == "field" && t.Sym == f || t.Op == "un" && t.Sym == "*" {
			if t.Op == "field" {
				x := t.Args[0]
				for x.Op == "un" && x.Sym == "*" {
					x = x.Args[0]
				}
				return isParam(x, "recv")
			}
			t = t.Args[0]
		}
		return false
	}
	tf := func(b bool) (string, bool) { return fmt.Sprint(b), true }
	conv := map[string]string{"@bool": "expression.AsBool", "@int": "expression.AsInt", "@float": "expression.AsFloat", "@string": "expression.AsString"}
	atomOf := func(op, mode string) func(s *St, t *Term) (string, bool) {
		return func(s *St, t *Term) (string, bool) {
			switch {
			case isRecv(t, "Op"):
				return `"` + op + `"`, true
			case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && isRecv(t.Args[0], "Arg"):
				return tf((t.Sym == "!=") == (mode == "arg"))
			case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && extOf(t.Args[0], 1, "json.Marshal") != nil:
				return tf(t.Sym == "==")
			case isCallTo(t, "bytes.ContainsAny", "strings.ContainsAny"):
				x := t.Args[0]
				for x.Op == "convert" {
					x = x.Args[0]
				}
				if m := extOf(x, 0, "json.Marshal"); m != nil {
					set := unq(t.Args[1].Sym)
					if strings.Contains(set, ".") && strings.ContainsAny(set, "eE") && strings.Trim(set, ".eE") == "" {
						return tf(mode == "dot")
					}
				}
			}
			return "", false
		}
	}
	ops := []string{"@bool", "@int", "@float", "@string", "@noop", "@list", "@dict", "@other", "", "plain"}
	for _, op := range ops {
		for _, mode := range []string{"arg", "literal", "dot"} {
			op, mode := op, mode
			if mode == "dot" && op != "@float" || mode != "arg" && op == "@other" || mode == "arg" && (op == "" || op == "plain") {
				continue
			}
			construct := fnName(fn) + ": " + op
			switch {
			case mode == "arg":
				construct += " of an expression"
			case mode == "dot":
				construct += " of a number with a fraction"
			case op == "":
				construct = fnName(fn) + ": no operator"
			}
			sc := &scen{R: R, construct: construct}
			good := 0
			sc.atom = atomOf(op, mode)
			sc.edge = func(s *St, t *Term, cond ssa.Value, taken bool) {
				if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && extOf(t.Args[0], 1, conv[op]) != nil && isRecv(extOf(t.Args[0], 1, conv[op]).Args[0], "Literal") {
					if (t.Sym == "!=") == taken {
						addFlag(s, "refused")
					} else {
						addFlag(s, "fine")
					}
				}
				if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isRecv(t.Args[0].Args[0], "Literal") && strings.Contains(t.Args[0].Sym, map[string]string{"@list": tList, "@dict": tMap, "": "-"}[op]) {
					if !taken {
						addFlag(s, "refused")
					} else {
						addFlag(s, "fine")
					}
				}
			}
			// what is marshalled
			wanted := func(s *St, c *Ctx, v ssa.Value) string {
				t := s.PTIn(c, v)
				cc, w := s.RootIn(c, v)
				if mi, ok := w.(*ssa.MakeInterface); ok {
					cc, w = s.RootIn(cc, mi.X)
				}
				if bad := hidden(w.Type(), true); bad != "" {
					return bad
				}
				switch {
				case mode == "arg" || op == "@other":
					_, mc, us := k.entries(s, cc, w)
					if len(us) != 1 {
						return fmt.Sprintf("an expression with an argument is written as %s", t)
					}
					if x := s.PTIn(mc, us[0].Key); !isRecv(x, "Op") {
						if f, ok := fold(s, x, sc.atom); !ok || f != `"`+op+`"` || op == "@other" {
							return fmt.Sprintf("the operator is written as %s", x)
						}
					}
					if x := s.PTIn(mc, us[0].Value); !isRecv(x, "Arg") {
						return fmt.Sprintf("the argument is written as %s", x)
					}
				case conv[op] != "":
					if e := extOf(t, 0, conv[op]); e == nil || !isRecv(e.Args[0], "Literal") {
						return fmt.Sprintf("the literal is written as %s", t)
					}
				case op == "@list":
					if x := unassert(t); !isRecv(x, "Literal") {
						return fmt.Sprintf("the list is written as %s", t)
					}
				case op == "@dict":
					if x := unassert(t); isRecv(x, "Literal") {
						return ""
					}
					_, mc, us := k.entries(s, cc, w)
					if len(us) != 1 {
						return fmt.Sprintf("the map is written as %s", t)
					}
					key := s.PTIn(mc, us[0].Key)
					if key.Op != "rangekey" || !isRecv(unassert(key.Args[0]), "Literal") {
						return fmt.Sprintf("an entry is written with the key %s", key)
					}
					vc, vv := s.RootIn(mc, us[0].Value)
					if al, ok := vv.(*ssa.Alloc); ok {
						sv := wholeStore(al)
						for sv != nil {
							vc, vv = s.RootIn(vc, sv)
							sv = nil
							if u, ok := vv.(*ssa.UnOp); ok && u.Op == token.MUL {
								if al2, ok := u.X.(*ssa.Alloc); ok {
									sv = wholeStore(al2)
								}
							}
						}
					}
					e := s.PTIn(vc, vv)
					if c := elemOrKey(e); c == nil || e.Op == "rangekey" || !isRecv(unassert(c), "Literal") {
						return fmt.Sprintf("an entry is written with the value %s", e)
					}
				default:
					return fmt.Sprintf("%s is written", t)
				}
				return ""
			}
			sc.exit = func(s *St, ret *ssa.Return) string {
				ec, ev := s.Root(ret.Results[1])
				et := s.PTIn(ec, ev)
				bc, bv := s.Root(ret.Results[0])
				bt := s.PTIn(bc, bv)
				if op == "" {
					return ""
				}
				if op == "plain" {
					if isNil(et) {
						return "an operator without @ is written"
					}
					good++
					return ""
				}
				if hasFlag(s, "refused") {
					if isNil(et) {
						return "a literal that cannot be converted is written"
					}
					return ""
				}
				m := extOf(et, 1, "json.Marshal")
				if !isNil(et) && m == nil {
					return fmt.Sprintf("refused: %s", et)
				}
				if mode != "arg" && op != "@noop" && op != "@other" && !hasFlag(s, "fine") {
					return "a literal is written without knowing that it can be"
				}
				good++
				if op == "@noop" && mode == "literal" {
					x := bt
					for x.Op == "convert" {
						x = x.Args[0]
					}
					if x.Sym != `"null"` {
						return fmt.Sprintf("nothing is written as %s", bt)
					}
					return ""
				}
				x := bt
				if op == "@float" && mode == "literal" {
					if !isCallTo(x, "builtin.append") || !strings.Contains(x.Args[1].String(), `".0"`) {
						return fmt.Sprintf("a whole number is written as %s and would be read back as an integer", bt)
					}
					x = x.Args[0]
				}
				b := extOf(x, 0, "json.Marshal")
				if b == nil || m != nil && b.String() != m.String() {
					return fmt.Sprintf("undecided: %s is written", bt)
				}
				call, ok := b.V.(*ssa.Call)
				if !ok {
					return fmt.Sprintf("undecided: %s is written", bt)
				}
				return wanted(s, b.Ctx, call.Call.Args[0])
			}
			k.scenario(fn, sc)
			k.check(good > 0 || op == "", R, construct, k.pr.pos(fn.Pos()), "never written")
		}
	}
	// all entries of a map
	k.each(fn, &eachSpec{R: R, what: "every entry of a map is written",
		leaf: func(t *Term) bool { return isRecv(unassert(t), "Literal") },
		instr: func(s *St, in ssa.Instruction) int {
			if u, ok := in.(*ssa.MapUpdate); ok && s.PT(u.Key).Op == "rangekey" {
				return 1
			}
			return 0
		},
		exempt: func(s *St, cond ssa.Value, taken bool) bool {
			v, ok := fold(s, contents(s, s.condPT(cond)), atomOf("@dict", "literal"))
			return ok && (v == "true") != taken
		},
	})
}

// unassert: what was asserted.
func unassert(t *Term) *Term {
	for t.Op == "assert" || t.Op == "ext" && t.Sym == "0" && t.Args[0].Op == "assert" {
		t = t.Args[0]
	}
	return t
}

// hidden: values of this type hold expressions whose own writer would be ignored.
func hidden(t types.Type, top bool) string {
	switch u := t.(type) {
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Name() == "Expression" {
			return ""
		}
		return hidden(u.Elem(), false)
	case *types.Named:
		if u.Obj().Name() == "Expression" && top {
			return "an expression that is not addressable is written field by field"
		}
	case *types.Map:
		return hidden(u.Elem(), true)
	case *types.Slice:
		return hidden(u.Elem(), false)
	}
	return ""
}

// ---------------------------------------------------------------- copies and literals

// deepCopy: a copy is read back from what was written.
func (k *K) exprCopy(R string, fn *ssa.Function) {
	if fn == nil {
		return
	}
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	isMar := func(t *Term) bool {
		return t != nil && isCallTo(t, "json.Marshal", "expression.Expression.MarshalJSON") && isParam(t.Args[0], "recv")
	}
	n := 0
	rule := &Rule{MaxDepth: 5, Flow: true, Inline: helperInline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		t := s.condPT(cond)
		if t.Op != "bin" || t.Sym != "==" && t.Sym != "!=" || !isNil(t.Args[1]) {
			return
		}
		isnil := (t.Sym == "==") == taken
		switch {
		case isnil && (isParam(t.Args[0], "recv") || isParam(t.Args[0], "arg0")):
			addFlag(s, "nothing")
		case !isnil && isMar(extOf(t.Args[0], 1, "json.Marshal", "expression.Expression.MarshalJSON")):
			addFlag(s, "failed")
		}
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		args := callArgs(call.Common())
		if nm == "json.Unmarshal" && isMar(extOf(s.PT(args[0]), 0, "json.Marshal", "expression.Expression.MarshalJSON")) && isParam(s.PT(args[1]), "arg0") ||
			nm == "expression.Expression.UnmarshalJSON" && isMar(extOf(s.PT(args[1]), 0, "json.Marshal", "expression.Expression.MarshalJSON")) && isParam(s.PT(args[0]), "arg0") {
			addFlag(s, "copied")
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		k.check(hasFlag(s, "nothing") || hasFlag(s, "failed") || hasFlag(s, "copied"), R, construct, k.pr.at(ret), "returns without making a copy of its own (path %s)", s.Trace())
		if hasFlag(s, "copied") {
			n++
		}
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(n > 0, R, construct, k.pr.pos(fn.Pos()), "never copies")
}

func (k *K) newLiteral(R string, fn *ssa.Function) {
	if fn == nil {
		return
	}
	want := func(kd int) string {
		switch {
		case kd == 1:
			return "@bool"
		case kd >= 2 && kd <= 11:
			return "@int"
		case kd == 13 || kd == 14:
			return "@float"
		case kd == 24:
			return "@string"
		}
		return ""
	}
	for kd, name := range kinds {
		kd := kd
		sc := &scen{R: R, construct: fnName(fn) + ": " + name}
		base := kindAtom(kd)
		sc.atom = func(s *St, t *Term) (string, bool) {
			if v, ok := base(s, t); ok {
				return v, true
			}
			// the kinds here are those of the types of this name
			if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && isD(t.Args[0].Args[0]) && t.Args[0].Sym == "<"+name+">" {
				return "true", true
			}
			return "", false
		}
		sc.exit = func(s *St, ret *ssa.Return) string {
			c, v := s.Root(ret.Results[1])
			et := s.PTIn(c, v)
			op := want(kd)
			if op == "" {
				if isNil(et) {
					return "accepted"
				}
				return ""
			}
			if !isNil(et) {
				return "refused"
			}
			m := k.literal(s, ret.Results[0])
			if m == nil {
				return fmt.Sprintf("undecided: the literal is not built here: %s", s.PT(ret.Results[0]))
			}
			if o := k.lit(s, m, "Op"); o.Sym != `"`+op+`"` {
				return fmt.Sprintf("it becomes %s instead of %q", o, op)
			}
			if l := k.lit(s, m, "Literal"); !isD(unassert(l)) {
				return fmt.Sprintf("the value becomes %s", l)
			}
			return ""
		}
		k.scenario(fn, sc)
	}
}

// ---------------------------------------------------------------- pipelines

// pipelineOps: the operations of a pipeline, by the operator they stand for.
func (k *K) pipelineOps(R string) map[string]types.Type {
	r := map[string]types.Type{}
	impl := k.implementers("pkg/api/operator/v1alpha1", "operator/v1alpha1.PipelineOp")
	for _, t := range impl {
		fn := k.method(t, "OpType")
		if fn == nil {
			continue
		}
		sc := &scen{R: R, construct: fnName(fn)}
		sc.atom = func(s *St, t *Term) (string, bool) { return "", false }
		sc.exit = func(s *St, ret *ssa.Return) string {
			o := s.PT(ret.Results[0])
			if o.Op != "const" {
				return fmt.Sprintf("undecided: the operator is %s", o)
			}
			r[unq(o.Sym)] = t
			return ""
		}
		k.scenario(fn, sc)
		ge := k.method(t, "GetExpression")
		if ge == nil {
			continue
		}
		sc = &scen{R: R, construct: fnName(ge)}
		sc.atom = func(s *St, t *Term) (string, bool) { return "", false }
		sc.exit = func(s *St, ret *ssa.Return) string {
			if o := s.PT(ret.Results[0]); !isExprOf(o, "recv") {
				return fmt.Sprintf("the expression of the operation is %s", o)
			}
			return ""
		}
		k.scenario(ge, sc)
	}
	return r
}

// isExprOf: the (address of the) expression of an operation.
func isExprOf(t *Term, of string) bool {
	for t.Op == "un" || t.Op == "addr" {
		t = t.Args[0]
	}
	if !isField(t, "Expression") {
		return false
	}
	t = unassert(t.Args[0])
	for t.Op == "un" {
		t = unassert(t.Args[0])
	}
	return isParam(t, of)
}

func (k *K) pipelineReader(R string, fn *ssa.Function, ops map[string]types.Type) {
	if fn == nil {
		return
	}
	alias := map[string]string{"@demux": "@unwind", "@mux": "@gather"}
	names := []string{"@unknown", "two operations", "no operation", "something else", "@demux", "@mux"}
	for o := range ops {
		names = append(names, o)
	}
	sort.Strings(names)
	tf := func(b bool) (string, bool) { return fmt.Sprint(b), true }
	isTop := func(t *Term) bool {
		for t.Op == "un" && t.Sym == "*" {
			t = t.Args[0]
		}
		return t.V != nil && (typeText(t.V.Type()) == tMap || typeText(t.V.Type()) == "*"+tMap)
	}
	isList := func(t *Term) bool {
		for t.Op == "un" && t.Sym == "*" {
			t = t.Args[0]
		}
		return t.V != nil && strings.HasSuffix(typeText(t.V.Type()), "[]json.RawMessage")
	}
	isKey := func(t *Term) bool { return t.Op == "rangekey" && isTop(t.Args[0]) }
	target := func(t *Term) string {
		if t.V == nil {
			return ""
		}
		v := t.V
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		p, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			return ""
		}
		return typeText(p.Elem())
	}
	// exprOf: v is the value of the only key
	exprOf := func(s *St, c *Ctx, v ssa.Value) bool {
		t := contents(s, s.PTIn(c, v))
		for t.Op == "un" && t.Sym == "*" {
			t = t.Args[0]
		}
		for i := 0; i < 4; i++ {
			if (t.Op == "lookup" || t.Op == "index") && isTop(t.Args[0]) {
				return true
			}
			al, ok := t.V.(*ssa.Alloc)
			if !ok || wholeStore(al) == nil || t.Ctx == nil {
				return false
			}
			t = contents(s, s.PTIn(t.Ctx, wholeStore(al)))
		}
		return false
	}
	for _, name := range names {
		name := name
		n := map[string]string{"two operations": "2", "no operation": "0"}[name]
		if n == "" {
			n = "1"
		}
		op := name
		if alias[name] != "" {
			op = alias[name]
		}
		typ := ops[op]
		for _, array := range []bool{false, true} {
			array := array
			construct := fnName(fn) + ": " + name
			if array {
				construct += " in a list"
			}
			tab := &vt{}
			sc := &scen{R: R, construct: construct}
			sc.inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
				return fnPkg(callee) == fnPkg(fn) && !recursive(callee)
			}
			sc.atom = func(s *St, t *Term) (string, bool) {
				switch {
				case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && isCallTo(t.Args[0], "json.Unmarshal"):
					c := t.Args[0]
					switch target(c.Args[1]) {
					case "[]json.RawMessage":
						return tf((t.Sym == "==") == array)
					case tMap:
						return tf((t.Sym == "==") == (name != "something else"))
					}
				case isCallTo(t, "builtin.len") && isTop(t.Args[0]):
					return n, true
				case isKey(t) && n == "2":
					return `"@join"`, true
				case isKey(t):
					return `"` + name + `"`, true
				}
				return "", false
			}
			sc.edge = func(s *St, t *Term, cond ssa.Value, taken bool) {
				ov := s.loopOver(cond)
				if ov == nil {
					return
				}
				f := ""
				switch {
				case isTop(ov) && n != "0":
					f = "map"
				case isList(ov):
					f = "list"
				default:
					return
				}
				if taken {
					// one element of each
					if f == "list" && hasFlag(s, "list") {
						s.Stop = true
						return
					}
					addFlag(s, f)
				} else if !hasFlag(s, f) {
					s.Stop = true
				}
			}
			sc.call = func(s *St, call *ssa.Call, nm string) {
				if nm != "json.Unmarshal" {
					return
				}
				args := callArgs(&call.Call)
				from := s.PT(args[0])
				for from.Op == "convert" {
					from = from.Args[0]
				}
				tg := target(s.PT(args[1]))
				good := isParam(from, "arg0")
				if array && tg == tMap {
					good = (from.Op == "index" || from.Op == "lookup") && isList(from.Args[0])
				}
				k.check(good, R, construct, k.pr.at(call), "read from %s", from)
			}
			sc.instr = func(s *St, in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				if fa, is := st.Addr.(*ssa.FieldAddr); is && isParam(s.PT(fa.X), "recv") {
					setFact(s, "Ops", tab.put(in, s.Ctx, st.Val))
				}
				if ia, is := st.Addr.(*ssa.IndexAddr); is && strings.HasSuffix(typeText(ia.X.Type()), "[]v1alpha1.PipelineOp") {
					setFact(s, "Elem", tab.put(in, s.Ctx, st.Val))
				}
			}
			sc.exit = func(s *St, ret *ssa.Return) string {
				c, v := s.Root(ret.Results[0])
				isErr := !isNil(s.PTIn(c, v))
				if typ == nil {
					if !isErr {
						return "accepted"
					}
					return ""
				}
				if isErr {
					return "refused: " + s.PTIn(c, v).String()
				}
				o, ok := tab.get(s, "Ops")
				if !ok {
					return "the operations are not set"
				}
				oc, ow := s.RootIn(o.c, o.v)
				var e ctxVal
				if el, ok := tab.get(s, "Elem"); ok && array && isMake(ow) {
					e = el
				} else if array {
					call, ok := ow.(*ssa.Call)
					if !ok || !isAppend(call) {
						return fmt.Sprintf("the operations become %s", s.PTIn(oc, ow))
					}
					base := s.PTIn(oc, call.Call.Args[0])
					if _, bv := s.RootIn(oc, call.Call.Args[0]); isSlice(bv) {
						return "only a part of the operations is kept"
					}
					if !isField(base, "Ops") && !allAlts(base, func(a *Term) bool {
						return a.Op == "slice" && a.Sym == "empty" || a.Op == "rec" || isNil(a) || a.Op == "alloc" && strings.HasPrefix(a.Sym, "make:") || isCallTo(a, "builtin.append")
					}) {
						return fmt.Sprintf("operations are added to %s", base)
					}
					es := k.sliceElems(oc, call.Call.Args[1])
					if len(es) != 1 {
						return "undecided: what is added to the operations"
					}
					e = ctxVal{es[0].c, es[0].v}
				} else {
					es := k.sliceElems(oc, ow)
					if len(es) != 1 {
						return fmt.Sprintf("the operations become %s", s.PTIn(oc, ow))
					}
					e = ctxVal{es[0].c, es[0].v}
				}
				ec, ew := s.RootIn(e.c, e.v)
				for i := 0; i < 4; i++ {
					if mi, ok := ew.(*ssa.MakeInterface); ok {
						ec, ew = s.RootIn(ec, mi.X)
					}
				}
				al, ok := ew.(*ssa.Alloc)
				if !ok {
					return fmt.Sprintf("undecided: the operation is %s", s.PTIn(ec, ew))
				}
				if g := al.Type().(*types.Pointer).Elem(); !types.Identical(g, typ) {
					return fmt.Sprintf("%s becomes a %s", name, typeText(g))
				}
				x := k.literalIn(s, ec, al)
				ex := x["Expression"]
				if b, ok := x["@Expression"]; ok {
					ex = b
				}
				if ex.v == nil || !exprOf(s, ex.c, ex.v) {
					return "the expression of the operation is not the one that was read"
				}
				return ""
			}
			k.scenario(fn, sc)
		}
	}
	k.each(fn, &eachSpec{R: R, what: "every operation of a list is read", leaf: isList,
		instr: func(s *St, in ssa.Instruction) int {
			if st, ok := in.(*ssa.Store); ok {
				if fa, is := st.Addr.(*ssa.FieldAddr); is && isParam(s.PT(fa.X), "recv") && isCallTo(s.PT(st.Val), "builtin.append") {
					return 1
				}
				if ia, is := st.Addr.(*ssa.IndexAddr); is && isMake(rootOf(s, ia.X)) && strings.HasSuffix(typeText(ia.X.Type()), "[]v1alpha1.PipelineOp") {
					if s.PT(ia.Index).Op != "const" {
						return 1
					}
				}
			}
			return 0
		},
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			// a list of its own, see above
			if c, ok := call.(*ssa.Call); ok && isAppend(c) && strings.HasSuffix(typeText(c.Type()), "[]v1alpha1.PipelineOp") {
				return 1
			}
			return 0
		},
		exempt: func(s *St, cond ssa.Value, taken bool) bool {
			t := s.condPT(cond)
			return t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && isCallTo(t.Args[0], "json.Unmarshal") && target(t.Args[0].Args[1]) == "[]json.RawMessage" && (t.Sym == "!=") == taken
		},
	})
}

func (k *K) pipelineWriter(R string, fn *ssa.Function) {
	if fn == nil {
		return
	}
	isOps := func(t *Term) bool {
		for t.Op == "un" {
			t = t.Args[0]
		}
		if !isField(t, "Ops") {
			return false
		}
		t = t.Args[0]
		for t.Op == "un" {
			t = t.Args[0]
		}
		return isParam(t, "recv")
	}
	isElem := func(t *Term) bool { return (t.Op == "index" || t.Op == "lookup") && isOps(t.Args[0]) }
	onElem := func(t *Term, m string) *Term {
		if t.Op == "call" && strings.HasSuffix(t.Sym, "."+m) && len(t.Args) == 1 && isElem(t.Args[0]) {
			return t.Args[0]
		}
		return nil
	}
	// single: the operation some text stands for
	single := func(s *St, t *Term) (*Term, string) {
		b := extOf(t, 0, "json.Marshal")
		if b == nil {
			return nil, fmt.Sprintf("an operation is written as %s", t)
		}
		call, ok := b.V.(*ssa.Call)
		if !ok {
			return nil, fmt.Sprintf("undecided: an operation is written as %s", t)
		}
		mm, mc, us := k.entries(s, b.Ctx, call.Call.Args[0])
		if len(us) != 1 || hidden(mm.Type(), true) != "" {
			return nil, fmt.Sprintf("an operation is written as %s", b)
		}
		ko, eo := onElem(s.PTIn(mc, us[0].Key), "OpType"), onElem(s.PTIn(mc, us[0].Value), "GetExpression")
		if ko == nil || eo == nil || ko.String() != eo.String() {
			return nil, fmt.Sprintf("an operation is written as the operator %s with the expression %s", s.PTIn(mc, us[0].Key), s.PTIn(mc, us[0].Value))
		}
		return ko, ""
	}
	inline := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(fn) && !recursive(callee) && callee.Name() != "OpType" && callee.Name() != "GetExpression"
	}
	failed := func(s *St, t *Term, taken bool) {
		if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) {
			isnil := (t.Sym == "==") == taken
			if extOf(t.Args[0], 1, "json.Marshal") != nil && !isnil || onElem(t.Args[0], "GetExpression") != nil && isnil {
				addFlag(s, "failed")
			}
		}
	}
	for n, name := range []string{"no operation", "one operation", "two operations"} {
		n := n
		sc := &scen{R: R, construct: fnName(fn) + ": " + name, inline: inline}
		sc.atom = func(s *St, t *Term) (string, bool) {
			if isCallTo(t, "builtin.len") && isOps(t.Args[0]) {
				return itoaN(n), true
			}
			return "", false
		}
		sc.edge = func(s *St, t *Term, cond ssa.Value, taken bool) {
			if ov := s.loopOver(cond); ov != nil && isOps(ov) {
				if taken && n == 0 {
					s.Stop = true
				}
				return
			}
			failed(s, t, taken)
		}
		sc.exit = func(s *St, ret *ssa.Return) string {
			c, v := s.Root(ret.Results[1])
			et := s.PTIn(c, v)
			c, v = s.Root(ret.Results[0])
			bt := s.PTIn(c, v)
			if hasFlag(s, "failed") {
				if isNil(et) {
					return "a failure is passed over"
				}
				return ""
			}
			b := extOf(bt, 0, "json.Marshal")
			if b == nil || !isNil(et) && extOf(et, 1, "json.Marshal") == nil {
				return fmt.Sprintf("it is written as %s", bt)
			}
			call, ok := b.V.(*ssa.Call)
			if !ok {
				return "undecided: what is written"
			}
			cc, w := s.RootIn(b.Ctx, call.Call.Args[0])
			if mi, ok := w.(*ssa.MakeInterface); ok {
				cc, w = s.RootIn(cc, mi.X)
			}
			if strings.HasSuffix(typeText(w.Type()), "[]json.RawMessage") {
				return "" // see below
			}
			e, bad := single(s, bt)
			if bad != "" {
				return bad
			}
			if n != 1 || e.Args[1].Sym != "0" {
				return fmt.Sprintf("%s are written as the one operation %s", name, e)
			}
			return ""
		}
		k.scenario(fn, sc)
	}
	// lists
	idx := func(t *Term) string { return t.Args[1].String() }
	k.each(fn, &eachSpec{R: R, what: "every operation is written", leaf: isOps,
		outside: func(call ssa.CallInstruction, callee *ssa.Function) bool { return !inline(nil, call, callee) },
		instr: func(s *St, in ssa.Instruction) int {
			st, ok := in.(*ssa.Store)
			if !ok {
				return 0
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !strings.HasSuffix(typeText(ia.X.Type()), "[]json.RawMessage") {
				return 0
			}
			v := s.PT(st.Val)
			for v.Op == "convert" {
				v = v.Args[0]
			}
			e, bad := single(s, v)
			if !k.check(bad == "", R, fnName(fn), k.pr.at(in), "%s", bad) {
				return 0
			}
			if i := s.PT(ia.Index).String(); i != idx(e) && idx(e) != "*" {
				k.fail(R, fnName(fn), k.pr.at(in), "operation %s is written at %s", idx(e), i)
			}
			return 1
		},
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			c, ok := call.(*ssa.Call)
			if !ok || !isAppend(c) || !strings.HasSuffix(typeText(c.Type()), "[]json.RawMessage") {
				return 0
			}
			for _, x := range k.elemTerms(s, s.PT(c.Call.Args[1])) {
				for x.Op == "convert" {
					x = x.Args[0]
				}
				_, bad := single(s, x)
				if k.check(bad == "", R, fnName(fn), k.pr.at(call), "%s", bad) {
					return 1
				}
			}
			return 0
		},
		exempt: func(s *St, cond ssa.Value, taken bool) bool {
			t := contents(s, s.condPT(cond))
			if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isCallTo(t.Args[0], "builtin.len") && isOps(t.Args[0].Args[0]) && t.Args[1].Sym == "1" {
				return (t.Sym == "==") == taken
			}
			return false
		},
	})
}

// pipelineCopy: every kind of operation is copied as what it is.
func (k *K) pipelineCopy(R string, fn *ssa.Function, ops map[string]types.Type) {
	if fn == nil {
		return
	}
	isOps := func(t *Term) bool { return isField(t, "Ops") && isParam(t.Args[0], "recv") }
	var names []string
	for o := range ops {
		names = append(names, o)
	}
	sort.Strings(names)
	inline := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(fn) && !recursive(callee) && callee.Name() != "OpType" && callee.Name() != "GetExpression"
	}
	for _, name := range names {
		typ := ops[name]
		construct := fnName(fn) + ": " + name
		n := 0
		sc := &scen{R: R, construct: construct, inline: inline}
		elem := func(t *Term) bool {
			t = unassert(t)
			return (t.Op == "index" || t.Op == "lookup") && isOps(t.Args[0])
		}
		sc.atom = func(s *St, t *Term) (string, bool) {
			switch {
			case t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && elem(t.Args[0].Args[0]):
				return fmt.Sprint(t.Args[0].Sym == "<"+typeShort(types.NewPointer(typ))+">" || t.Args[0].Sym == "<*"+typeShort(typ)+">"), true
			case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && (elem(t.Args[0]) || isOps(t.Args[0])):
				return fmt.Sprint(t.Sym == "!="), true
			}
			return "", false
		}
		sc.instr = func(s *St, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !strings.HasSuffix(typeText(ia.X.Type()), "[]v1alpha1.PipelineOp") {
				return
			}
			n++
			c, w := s.Root(st.Val)
			if mi, ok := w.(*ssa.MakeInterface); ok {
				c, w = s.RootIn(c, mi.X)
			}
			al, ok := w.(*ssa.Alloc)
			if !k.check(ok, R, construct, k.pr.at(in), "the copy of an operation is %s", s.PTIn(c, w)) {
				return
			}
			if g := al.Type().(*types.Pointer).Elem(); !types.Identical(g, typ) {
				k.fail(R, construct, k.pr.at(in), "the copy is a %s", typeText(g))
				return
			}
			x := k.literalIn(s, c, al)
			var t *Term
			if b, ok := x["@Expression"]; ok {
				t = s.PTIn(b.c, b.v)
			} else if b, ok := x["Expression"]; ok && b.v != nil {
				t = s.PTIn(b.c, b.v)
			}
			good := t != nil && t.Has(elem) && (isField(t, "Expression") || isCallTo(t, "expression.Expression.DeepCopy") || t.Op == "un")
			k.check(good, R, construct, k.pr.at(in), "the expression of the copy is %s", t)
		}
		sc.exit = func(s *St, ret *ssa.Return) string { return "" }
		k.scenario(fn, sc)
		k.check(n > 0, R, construct, k.pr.pos(fn.Pos()), "operations are not copied")
	}
	k.each(fn, &eachSpec{R: R, what: "every operation is copied", leaf: isOps,
		instr: func(s *St, in ssa.Instruction) int {
			st, ok := in.(*ssa.Store)
			if !ok {
				return 0
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if ok && strings.HasSuffix(typeText(ia.X.Type()), "[]v1alpha1.PipelineOp") {
				return 1
			}
			return 0
		},
		exempt: func(s *St, cond ssa.Value, taken bool) bool {
			t := s.condPT(cond)
			return t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) && isOps(t.Args[0]) && (t.Sym == "==") == taken
		},
	})
}

func isSlice(v ssa.Value) bool { _, ok := v.(*ssa.Slice); return ok }

func isMake(v ssa.Value) bool { _, ok := v.(*ssa.MakeSlice); return ok }

func rootOf(s *St, v ssa.Value) ssa.Value {
	_, w := s.Root(v)
	return w
}
