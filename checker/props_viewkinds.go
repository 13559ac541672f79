package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V13: the names of the groups of views.

func init() {
	register("V13", "names of view groups: the functions that make kinds of views, recognise them and take them apart, evaluated over texts put together from constants and unknown parts (abstract interpretation; unknown operator names and versions contain no dot, unknown native groups may): what was made is recognised and taken apart into what it was made of, and nothing else is", runV13)
}

const viewPkg = "pkg/api/view/v1alpha1"

// piece of a text: a constant or something unknown that is not empty.
type piece struct {
	c    string // constant
	sym  string
	dots bool // the unknown may contain dots
}

type text []piece

func (t text) add(ps ...piece) text {
	t = append(text(nil), t...)
	for _, p := range ps {
		if p.sym == "" && len(t) > 0 && t[len(t)-1].sym == "" {
			t[len(t)-1].c += p.c
		} else if p.sym != "" || p.c != "" {
			t = append(t, p)
		}
	}
	return t
}

func lit(c string) piece { return piece{c: c} }

func (t text) String() string {
	s := ""
	for _, p := range t {
		if p.sym != "" {
			s += "<" + p.sym + ">"
		} else {
			s += p.c
		}
	}
	return strconv.Quote(s)
}

func (t text) constant() (string, bool) {
	switch {
	case len(t) == 0:
		return "", true
	case len(t) == 1 && t[0].sym == "":
		return t[0].c, true
	}
	return "", false
}

// cut removes a suffix. Unknown native groups do not end like the groups of views.
func (t text) cut(sfx text) (rest text, has, known bool) {
	rest = append(text(nil), t...)
	for i := len(sfx) - 1; i >= 0; i-- {
		p := sfx[i]
		if len(rest) == 0 {
			return t, false, true
		}
		l := rest[len(rest)-1]
		switch {
		case p.sym != "" && l.sym == p.sym:
			rest = rest[:len(rest)-1]
		case p.sym != "" || l.sym != "":
			// an unknown part against something else
			if i == len(sfx)-1 && p.sym == "" && l.sym != "" && strings.Contains(p.c, ".") {
				return t, false, true // unknown parts do not end with the suffix of views
			}
			if p.sym == "" && p.c[len(p.c)-1] == '.' && l.sym != "" {
				return t, false, true
			}
			return t, false, false
		case strings.HasSuffix(l.c, p.c):
			rest[len(rest)-1].c = strings.TrimSuffix(l.c, p.c)
			if rest[len(rest)-1].c == "" {
				rest = rest[:len(rest)-1]
			}
		case len(l.c) >= len(p.c) || len(rest) == 1:
			return t, false, true
		default:
			if !strings.HasSuffix(p.c, l.c) {
				return t, false, true
			}
			return t, false, false
		}
	}
	return rest, true, true
}

// lastDot splits at the last dot.
func (t text) lastDot() (before, after text, has, known bool) {
	for i := len(t) - 1; i >= 0; i-- {
		p := t[i]
		if p.sym != "" {
			if p.dots {
				return nil, nil, false, false
			}
			continue
		}
		if j := strings.LastIndexByte(p.c, '.'); j >= 0 {
			before = text(nil).add(t[:i]...).add(lit(p.c[:j]))
			after = text(nil).add(lit(p.c[j+1:])).add(t[i+1:]...)
			return before, after, true, true
		}
	}
	return nil, nil, false, true
}

func sameText(a, b text) (same, known bool) {
	if a.String() == b.String() {
		return true, true
	}
	x, c1 := a.constant()
	y, c2 := b.constant()
	if c1 && c2 {
		return x == y, true
	}
	if c1 && x == "" || c2 && y == "" {
		return false, true // unknown parts are not empty
	}
	if len(a) == 1 && len(b) == 1 && (a[0].sym != b[0].sym) {
		return false, true // different unknowns, and unknowns and constants, are different in the scenario
	}
	return false, false
}

type viewNames struct {
	k      *K
	params map[string]text // by parameter (and field)
}

// text of a term.
func (n *viewNames) text(s *St, t *Term) (text, bool) {
	if t == nil {
		return nil, false
	}
	switch {
	case t.Op == "const":
		if c, err := strconv.Unquote(t.Sym); err == nil {
			return text(nil).add(lit(c)), true
		}
		return nil, false
	case t.Op == "param":
		x, ok := n.params[t.Sym]
		return x, ok
	case t.Op == "field":
		b := t.Args[0]
		for isCallTo(b, "schema.GroupVersionKind.GroupVersion") && t.Sym != "Kind" || isCallTo(b, "schema.GroupVersionKind.GroupKind") && t.Sym != "Version" {
			b = b.Args[0]
		}
		if b.Op == "param" {
			x, ok := n.params[b.Sym+"."+t.Sym]
			return x, ok
		}
		if p := n.k.gvkTerm(s, b); p != nil {
			if p[t.Sym] == nil {
				return nil, true
			}
			return n.text(s, p[t.Sym])
		}
		return nil, false
	case isCallTo(t, "strings.TrimSuffix") || t.Op == "ext" && t.Sym == "0" && isCallTo(t.Args[0], "strings.CutSuffix"):
		if t.Op == "ext" {
			t = t.Args[0]
		}
		x, ok1 := n.text(s, t.Args[0])
		y, ok2 := n.text(s, t.Args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		r, _, known := x.cut(y)
		return r, known
	case t.Op == "slice":
		var lo, hi *Term
		if sl, isSlice := t.V.(*ssa.Slice); isSlice && t.Ctx != nil {
			if sl.Low != nil {
				lo = s.PTIn(t.Ctx, sl.Low)
			}
			if sl.High != nil {
				hi = s.PTIn(t.Ctx, sl.High)
			}
		}
		x, ok := n.text(s, t.Args[0])
		if !ok {
			return nil, false
		}
		dot := func(i *Term) bool {
			return isCallTo(i, "strings.LastIndex") || isCallTo(i, "strings.LastIndexByte")
		}
		ofThis := func(i *Term) bool {
			y, ok := n.text(s, i.Args[0])
			sep := i.Args[1].Sym
			return ok && y.String() == x.String() && (sep == `"."` || sep == "46")
		}
		switch {
		case lo == nil && hi != nil && dot(hi) && ofThis(hi):
			b, _, has, known := x.lastDot()
			return b, has && known
		case hi == nil && lo != nil && lo.Op == "bin" && lo.Sym == "+" && dot(lo.Args[0]) && ofThis(lo.Args[0]) && lo.Args[1].Sym == "1":
			_, a, has, known := x.lastDot()
			if known && !has {
				a = x
			}
			return a, known
		case (lo == nil || lo.Sym == "0") && hi != nil && hi.Op == "bin" && hi.Sym == "-" && isCallTo(hi.Args[0], "builtin.len"):
			y, ok := n.text(s, hi.Args[0].Args[0])
			c, err := strconv.Atoi(hi.Args[1].Sym)
			if isCallTo(hi.Args[1], "builtin.len") {
				if z, ok := n.text(s, hi.Args[1].Args[0]); ok {
					if str, isC := z.constant(); isC {
						c, err = len(str), nil
					}
				}
			}
			if !ok || err != nil || y.String() != x.String() || len(x) == 0 {
				return nil, false
			}
			l := x[len(x)-1]
			if l.sym != "" || len(l.c) < c {
				return nil, false
			}
			return text(nil).add(x[:len(x)-1]...).add(lit(l.c[:len(l.c)-c])), true
		}
		return nil, false
	case t.Op == "index" && isCallTo(t.Args[0], "strings.Split") && len(t.Args) > 1 && t.Args[0].Args[1].Sym == `"."`:
		x, ok := n.text(s, t.Args[0].Args[0])
		i := t.Args[1]
		if u, isLoad := t.V.(*ssa.UnOp); isLoad && t.Ctx != nil {
			if ia, isElem := u.X.(*ssa.IndexAddr); isElem {
				i = s.PTIn(t.Ctx, ia.Index)
			}
		}
		if !ok || i.Op != "bin" || i.Sym != "-" || i.Args[1].Sym != "1" || !isCallTo(i.Args[0], "builtin.len") || i.Args[0].Args[0].String() != t.Args[0].String() {
			return nil, false
		}
		_, a, has, known := x.lastDot()
		if known && !has {
			a = x
		}
		return a, known
	case isCallTo(t, "schema.GroupVersion.String"):
		return nil, false
	}
	p := n.k.strParts(s, t)
	if len(p) <= 1 {
		return nil, false
	}
	var r text
	for _, x := range p {
		y, ok := n.text(s, x)
		if !ok {
			return nil, false
		}
		r = r.add(y...)
	}
	return r, true
}

// gvkTerm resolves a kind, given as a term.
func (k *K) gvkTerm(s *St, t *Term) map[string]*Term {
	if t.V == nil || t.Ctx == nil {
		return nil
	}
	return k.gvkParts(s, t.Ctx, t.V)
}

func (n *viewNames) atom(s *St, t *Term) (string, bool) {
	tf := func(b, known bool) (string, bool) { return map[bool]string{true: "true", false: "false"}[b], known }
	switch {
	case isCallTo(t, "strings.HasSuffix") || t.Op == "ext" && t.Sym == "1" && isCallTo(t.Args[0], "strings.CutSuffix"):
		if t.Op == "ext" {
			t = t.Args[0]
		}
		x, ok1 := n.text(s, t.Args[0])
		y, ok2 := n.text(s, t.Args[1])
		if !ok1 || !ok2 {
			return "", false
		}
		_, has, known := x.cut(y)
		return tf(has, known)
	case t.Op == "bin" && isCallTo(t.Args[0], "builtin.len"):
		empty, ok := map[string]bool{"== 0": true, "!= 0": false, "> 0": false, "< 1": true, ">= 1": false, "<= 0": true}[t.Sym+" "+t.Args[1].Sym]
		x, known := n.text(s, t.Args[0].Args[0])
		return tf((len(x) == 0) == empty, ok && known)
	case t.Op == "bin" && (isCallTo(t.Args[0], "strings.LastIndex") || isCallTo(t.Args[0], "strings.LastIndexByte")):
		when, ok := map[string]bool{"< 0": false, ">= 0": true, "== -1": false, "!= -1": true, "> -1": true, "<= -1": false}[t.Sym+" "+t.Args[1].Sym]
		if !ok {
			return "", false
		}
		x, ok := n.text(s, t.Args[0].Args[0])
		if !ok || t.Args[0].Args[1].Sym != `"."` && t.Args[0].Args[1].Sym != "46" {
			return "", false
		}
		_, _, has, known := x.lastDot()
		return tf(has == when, known)
	case t.Op == "bin" && (t.Sym == "==" || t.Sym == "!="):
		x, ok1 := n.text(s, t.Args[0])
		y, ok2 := n.text(s, t.Args[1])
		if !ok1 || !ok2 {
			return "", false
		}
		same, known := sameText(x, y)
		return tf(same == (t.Sym == "=="), known)
	}
	return "", false
}

func runV13(k *K) {
	const R = "names"
	const sfx = ".view.dcontroller.io"
	op, view, ver, grp := piece{sym: "operator"}, piece{sym: "view"}, piece{sym: "version"}, piece{sym: "group", dots: true}
	tx := func(ps ...piece) text { return text(nil).add(ps...) }
	v1 := k.viewVersion()
	vv, err := strconv.Unquote(v1)
	if !k.check(err == nil && vv != "", R, viewPkg, "", "undecided: the version of views was not found") {
		return
	}
	version := tx(lit(vv))
	isErr := func(s *St, ret *ssa.Return, i int) bool { return s.RetVal(ret, i) == "nonnil" }
	type result struct {
		str  text
		bit  string
		gvk  map[string]text
		fail bool
	}
	run := func(name, what string, params map[string]text, want result) {
		fn := k.fn("view/v1alpha1." + name)
		if fn == nil {
			k.fail(R, "view/v1alpha1."+name, "", "undecided: the function was not found")
			return
		}
		n := &viewNames{k: k, params: params}
		k.scenario(fn, &scen{R: R, construct: fnName(fn) + " of " + what, inline: samePkg(fn), atom: n.atom,
			exit: func(s *St, ret *ssa.Return) string {
				if len(ret.Results) == 2 {
					if want.fail {
						if !isErr(s, ret, 1) {
							return "this is not refused"
						}
						return ""
					}
					if isErr(s, ret, 1) {
						return "this is refused"
					}
				}
				t := s.RetPT(ret, 0)
				switch {
				case want.bit != "":
					v, ok := fold(s, t, n.atom)
					if c := s.RetVal(ret, 0); !ok && (c == "true" || c == "false") {
						v, ok = string(c), true
					}
					if !ok {
						return "undecided: the answer is " + short(t)
					}
					if v != want.bit {
						return "the answer is " + v
					}
				case want.gvk != nil:
					p := k.gvkParts(s, s.Ctx, s.retVal(ret, 0))
					if p == nil {
						return "undecided: the result is " + short(t)
					}
					for f, w := range want.gvk {
						var x text
						if p[f] != nil {
							var ok bool
							if x, ok = n.text(s, p[f]); !ok {
								return "undecided: the " + strings.ToLower(f) + " is " + short(p[f])
							}
						}
						if x.String() != w.String() {
							return "the " + strings.ToLower(f) + " is " + x.String() + " instead of " + w.String()
						}
					}
				default:
					x, ok := n.text(s, t)
					if !ok {
						return "undecided: the result is " + short(t)
					}
					if x.String() != want.str.String() {
						return "the result is " + x.String() + " instead of " + want.str.String()
					}
				}
				return ""
			}})
	}
	group := tx(op, lit(sfx))
	gvk := func(p string, g, v, kd text) map[string]text {
		return map[string]text{p + ".Group": g, p + ".Version": v, p + ".Kind": kd}
	}
	with := func(m map[string]text, p string, t text) map[string]text { m[p] = t; return m }
	// made
	run("Group", "an operator", map[string]text{"arg0": tx(op)}, result{str: group})
	run("GroupVersion", "an operator", map[string]text{"arg0": tx(op)}, result{gvk: map[string]text{"Group": group, "Version": version}})
	run("GroupVersionKind", "a view", map[string]text{"arg0": tx(op), "arg1": tx(view)}, result{gvk: map[string]text{"Group": group, "Version": version, "Kind": tx(view)}})
	kind := tx(view)
	type native struct {
		what   string
		g, esc text
	}
	for _, x := range []native{{"a native kind", tx(grp), tx(grp)}, {"a kind of the core group", tx(), tx(lit("core"))}} {
		mapped := tx().add(x.esc...).add(lit(".")).add(ver).add(lit(".")).add(group...)
		run("MapIntoView", x.what, with(gvk("arg1", x.g, tx(ver), kind), "arg0", tx(op)), result{gvk: map[string]text{"Group": mapped, "Version": version, "Kind": kind}})
		run("MapFromView", "the view of "+x.what, gvk("arg0", mapped, version, kind), result{gvk: map[string]text{"Group": x.g, "Version": tx(ver), "Kind": kind}})
		run("MapFromView", x.what, gvk("arg0", x.g, tx(ver), kind), result{fail: true})
		run("GetOperator", "the view of "+x.what, gvk("arg0", mapped, version, kind), result{str: tx(op)})
		run("GetOperator", x.what, gvk("arg0", x.g, tx(ver), kind), result{str: tx()})
		run("IsViewKind", "the view of "+x.what, gvk("arg0", mapped, version, kind), result{bit: "true"})
		run("IsViewKind", x.what, gvk("arg0", x.g, tx(ver), kind), result{bit: "false"})
		run("IsViewKind", x.what+" of the version of views", gvk("arg0", x.g, version, kind), result{bit: "false"})
		run("IsViewGroup", x.what, map[string]text{"arg0": x.g}, result{bit: "false"})
		run("IsViewGroupVersion", x.what, gvk("arg0", x.g, version, nil), result{bit: "false"})
	}
	run("MapFromView", "a view", gvk("arg0", group, version, kind), result{fail: true})
	run("GetOperator", "a view", gvk("arg0", group, version, kind), result{str: tx(op)})
	run("IsViewGroup", "a view", map[string]text{"arg0": group}, result{bit: "true"})
	run("IsViewGroupVersion", "a view", gvk("arg0", group, version, nil), result{bit: "true"})
	run("IsViewGroupVersion", "a view of another version", gvk("arg0", group, tx(ver), nil), result{bit: "false"})
	run("IsViewKind", "a view", gvk("arg0", group, version, kind), result{bit: "true"})
	run("IsViewKind", "a view of another version", gvk("arg0", group, tx(ver), kind), result{bit: "false"})
	for _, f := range []string{"HasViewGroupVersion", "HasViewGroupVersionKind"} {
		run(f, "a view of the group", with(gvk("arg1", tx(grp), version, kind), "arg0", tx(grp)), result{bit: "true"})
		run(f, "a view of another group", with(gvk("arg1", tx(piece{sym: "other"}), version, kind), "arg0", tx(grp)), result{bit: "false"})
		run(f, "a view of another version", with(gvk("arg1", tx(grp), tx(ver), kind), "arg0", tx(grp)), result{bit: "false"})
	}
}
