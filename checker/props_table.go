package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S14: tables of views. The columns and the cells of every row are read off the paths of ConvertToTable,
// helpers included; the functions that render labels, annotations and conditions are the ones whose
// results end up in the cells.

func init() {
	register("S14", "tables: every path of the conversion of objects to tables, per kind of object and scope: the cells of every row in the order of the columns, each read from the row's own object, one row per object of a list, in order; the renderings of labels, annotations and conditions mention every entry once or count it as left out, whatever the order of maps", runS14)
}

type tabler struct {
	k         *K
	R         string
	fn        *ssa.Function
	cols      map[string]map[string]bool // by scope
	rows      map[string]map[string]bool
	renderers map[string]map[*ssa.Function]bool
}

func runS14(k *K) {
	const R = "tables"
	fn := k.fn("apiserver.ClientDelegatedStorage.ConvertToTable")
	if fn == nil {
		return
	}
	w := &tabler{k: k, R: R, fn: fn, cols: map[string]map[string]bool{}, rows: map[string]map[string]bool{}, renderers: map[string]map[*ssa.Function]bool{}}
	w.table()
	w.list()
	for _, sc := range []string{"namespaced", "cluster"} {
		c, r := keysOf(w.cols[sc]), keysOf(w.rows[sc])
		k.check(len(c) == 1 && len(r) == 1 && c[0] == r[0], R, "columns of "+sc+" objects", k.pr.pos(fn.Pos()), "the columns are %s, the cells %s", strings.Join(c, " or "), strings.Join(r, " or "))
		all := "," + strings.Join(c, ",") + ","
		k.check(strings.Contains(all, ",Name,") && strings.Contains(all, ",Namespace,") == (sc == "namespaced"), R, "columns of "+sc+" objects", k.pr.pos(fn.Pos()), "the columns are %s", all)
	}
	for _, what := range []string{"Labels", "Annotations", "Conditions"} {
		k.check(len(w.renderers[what]) == 1, R, "rendering of "+what, "", "undecided: %d functions render it", len(w.renderers[what]))
		for f := range w.renderers[what] {
			switch what {
			case "Labels":
				w.labels(f)
			case "Annotations":
				w.annotations(f)
			case "Conditions":
				w.conditions(f)
			}
		}
	}
}

func keysOf(m map[string]bool) []string {
	var r []string
	for x := range m {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}

func (w *tabler) inline(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
	if fnPkg(callee) != fnPkg(w.fn) || recursive(callee) {
		return false
	}
	res := callee.Signature.Results()
	return res.Len() != 1 || types.TypeString(res.At(0).Type(), nil) != "string"
}

// scope remembers what is known about the scope; contradictions are no paths.
func (w *tabler) scope(s *St, t *Term, taken bool) {
	for t.Op == "not" || t.Op == "un" && t.Sym == "!" {
		t, taken = t.Args[0], !taken
	}
	ns := isCallTo(t, "apiserver.ClientDelegatedStorage.NamespaceScoped") || t.Op == "field" && isParam(t.Args[0], "recv") && t.V != nil && types.TypeString(t.V.Type(), nil) == "bool"
	if t.Op == "field" && isParam(t.Args[0], "recv") && t.Sym == "namespaced" {
		ns = true
	}
	if !ns {
		return
	}
	yes, no := "namespaced", "cluster"
	if !taken {
		yes, no = no, yes
	}
	if hasFlag(s, no) {
		s.Stop = true
	}
	addFlag(s, yes)
}

func (w *tabler) object(t *Term) bool {
	for t.Op == "assert" || t.Op == "convert" || t.Op == "addr" {
		t = t.Args[0]
	}
	return isParam(t, "arg1")
}

// items: the objects of the list.
func (w *tabler) items(t *Term) bool {
	return (isField(t, "Items") || isField(t, "f1")) && w.object(t.Args[0])
}

// elements of a list put together from literals.
func (w *tabler) elements(s *St, c *Ctx, v ssa.Value, d int) ([]ctxVal, bool) {
	c, v = s.RootIn(c, v)
	if d > 6 {
		return nil, false
	}
	switch y := v.(type) {
	case *ssa.Const:
		return nil, y.IsNil()
	case *ssa.Slice:
		if y.Low == nil && y.High == nil {
			if e := w.k.sliceElems(c, v); e != nil {
				return e, true
			}
			if _, ok := y.X.(*ssa.Alloc); !ok {
				return w.elements(s, c, y.X, d+1)
			}
			return nil, true
		}
		return nil, false
	case *ssa.Call:
		args := callArgs(y.Common())
		switch {
		case isAppend(y), s.x.R.calleeName(c, y.Common()) == "slices.Concat" && false:
			a, ok1 := w.elements(s, c, args[0], d+1)
			b, ok2 := w.elements(s, c, args[1], d+1)
			return append(append([]ctxVal{}, a...), b...), ok1 && ok2
		}
	}
	return nil, false
}

// cells of a row about obj, in the names of their columns.
func (w *tabler) row(s *St, c *Ctx, v ssa.Value, obj func(*Term) bool) string {
	row := w.k.literalIn(s, c, v)
	if row == nil {
		return "undecided: the row is " + s.PTIn(c, v).String()
	}
	o, ok := row["Object"]
	if !ok {
		return "a row without object"
	}
	ext := w.k.literalIn(s, o.c, o.v)
	if e, ok := ext["Object"]; !ok {
		return fmt.Sprintf("the object of the row is %s", s.PTIn(o.c, o.v))
	} else if x := s.PTIn(e.c, e.v); !obj(x) {
		return fmt.Sprintf("the object of the row is %s", x)
	}
	cl, ok := row["Cells"]
	if !ok {
		return "a row without cells"
	}
	es, ok := w.elements(s, cl.c, cl.v, 0)
	if !ok {
		return fmt.Sprintf("undecided: the cells are %s", s.PTIn(cl.c, cl.v))
	}
	var names []string
	for _, e := range es {
		t := unconv(s.PTIn(e.c, e.v))
		name := ""
		var f *ssa.Function
		last := &Term{}
		if cc, v := s.RootIn(e.c, e.v); isCall(v) {
			f = v.(*ssa.Call).Call.StaticCallee()
			if a := v.(*ssa.Call).Call.Args; f != nil && f.Blocks != nil && fnPkg(f) == fnPkg(w.fn) && len(a) > 0 {
				last = unconv(s.PTIn(cc, a[len(a)-1]))
			} else {
				f = nil
			}
		}
		get := func(t *Term, m string) bool {
			return t.Op == "call" && strings.HasSuffix(t.Sym, "."+m) && len(t.Args) == 1 && obj(t.Args[0])
		}
		switch {
		case get(t, "GetNamespace"):
			name = "Namespace"
		case get(t, "GetName"):
			name = "Name"
		case f != nil && get(last, "GetLabels"):
			name = "Labels"
		case f != nil && get(last, "GetAnnotations"):
			name = "Annotations"
		case f != nil && obj(last):
			name = "Conditions"
		default:
			return fmt.Sprintf("a cell is %s", t)
		}
		if name == "Labels" || name == "Annotations" || name == "Conditions" {
			if w.renderers[name] == nil {
				w.renderers[name] = map[*ssa.Function]bool{}
			}
			w.renderers[name][f] = true
		}
		names = append(names, name)
	}
	if !hasFlag(s, "namespaced") && !hasFlag(s, "cluster") {
		return "undecided: the scope of the objects"
	}
	for _, sc := range []string{"namespaced", "cluster"} {
		if hasFlag(s, sc) {
			if w.rows[sc] == nil {
				w.rows[sc] = map[string]bool{}
			}
			w.rows[sc][strings.Join(names, ",")] = true
		}
	}
	return ""
}

func (w *tabler) columns(s *St, v ctxVal) string {
	es, ok := w.elements(s, v.c, v.v, 0)
	if !ok {
		return fmt.Sprintf("undecided: the columns are %s", s.PTIn(v.c, v.v))
	}
	var names []string
	for _, e := range es {
		n, ok := w.k.literalIn(s, e.c, e.v)["Name"]
		if !ok {
			return "undecided: a column without name"
		}
		t := s.PTIn(n.c, n.v)
		if t.Op != "const" {
			return fmt.Sprintf("undecided: a column is named %s", t)
		}
		names = append(names, unq(t.Sym))
	}
	for _, sc := range []string{"namespaced", "cluster"} {
		if hasFlag(s, sc) {
			if w.cols[sc] == nil {
				w.cols[sc] = map[string]bool{}
			}
			w.cols[sc][strings.Join(names, ",")] = true
		}
	}
	return ""
}

// table: what is returned, per kind of object.
func (w *tabler) table() {
	kinds := map[string]string{"an object": "unstructured.Unstructured", "a list": "unstructured.UnstructuredList", "something else": ""}
	var names []string
	for n := range kinds {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		typ := kinds[name]
		sc := &scen{R: w.R, construct: fnName(w.fn) + ": " + name, inline: w.inline}
		sc.atom = func(s *St, t *Term) (string, bool) {
			if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && w.object(t.Args[0].Args[0]) {
				sym := strings.Trim(t.Args[0].Sym, "<>*")
				return fmt.Sprint(typ != "" && (sym == typ || strings.HasSuffix(sym, "/"+typ))), true
			}
			return "", false
		}
		sc.edge = func(s *St, t *Term, cond ssa.Value, taken bool) { w.scope(s, t, taken) }
		sc.instr = func(s *St, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldAddrName(fa) == "ResourceVersion" {
					t := s.PT(st.Val)
					if t.Op == "call" && strings.HasSuffix(t.Sym, "List.GetResourceVersion") && w.object(t.Args[0]) {
						addFlag(s, "version")
					}
				}
			}
		}
		sc.call = func(s *St, call *ssa.Call, nm string) {
			if strings.HasSuffix(nm, ".SetResourceVersion") {
				a := callArgs(call.Common())
				if t := s.PT(a[len(a)-1]); t.Op == "call" && strings.HasSuffix(t.Sym, "List.GetResourceVersion") && w.object(t.Args[0]) {
					addFlag(s, "version")
				}
			}
		}
		sc.exit = func(s *St, ret *ssa.Return) string {
			c, v := s.Root(ret.Results[1])
			et := s.PTIn(c, v)
			if typ == "" {
				if isNil(et) {
					return "a table of something that cannot be shown"
				}
				return ""
			}
			if !isNil(et) {
				return fmt.Sprintf("refused: %s", et)
			}
			lit := w.k.literalIn(s, s.Ctx, ret.Results[0])
			cols, ok := lit["ColumnDefinitions"]
			if !ok || cols.v == nil {
				return "a table without columns"
			}
			if bad := w.columns(s, cols); bad != "" {
				return bad
			}
			rows, ok := lit["Rows"]
			if !ok || rows.v == nil {
				return "a table without rows"
			}
			if name == "a list" {
				if !hasFlag(s, "version") {
					return "the table does not carry the version of the list"
				}
				return "" // see below
			}
			es, ok := w.elements(s, rows.c, rows.v, 0)
			if !ok || len(es) != 1 {
				return fmt.Sprintf("the rows are %s", s.PTIn(rows.c, rows.v))
			}
			return w.row(s, es[0].c, es[0].v, w.object)
		}
		w.k.scenario(w.fn, sc)
	}
}

func fieldAddrName(fa *ssa.FieldAddr) string {
	if st := structOf(fa.X.Type()); st != nil {
		return st.Field(fa.Field).Name()
	}
	return ""
}

// list: a row for every object.
func (w *tabler) list() {
	k, R := w.k, w.R
	construct := fnName(w.fn) + ": a row for every object"
	rowsOf := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && typeShort(sl.Elem()) == "meta/v1.TableRow"
	}
	elem := func(t *Term) *Term {
		for t.Op == "addr" || t.Op == "convert" || t.Op == "un" {
			t = t.Args[0]
		}
		if al, ok := t.V.(*ssa.Alloc); ok && t.Ctx != nil {
			// the variable of the loop, if every round has its own
			if sv := singleStore(al); sv != nil && !hasFieldStores(al) && inCycle(al.Block()) {
				t = k.R.T(t.Ctx, sv)
			}
		}
		if t.Op == "index" && w.items(t.Args[0]) && t.Args[1].Op != "const" {
			return t
		}
		return nil
	}
	isElem := func(t *Term) bool { return elem(t) != nil }
	k.each(w.fn, &eachSpec{R: R, what: "a row for every object", leaf: w.items,
		outside: func(call ssa.CallInstruction, callee *ssa.Function) bool { return !w.inline(nil, call, callee) },
		edge: func(s *St, cond ssa.Value, taken bool) {
			w.scope(s, s.condPT(cond), taken)
			t := s.condPT(cond)
			if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && w.object(t.Args[0].Args[0]) {
				if strings.HasSuffix(strings.Trim(t.Args[0].Sym, "<>*"), "unstructured.UnstructuredList") == taken {
					addFlag(s, "aslist")
				} else if taken {
					s.Stop = true
				}
			}
		},
		instr: func(s *St, in ssa.Instruction) int {
			st, ok := in.(*ssa.Store)
			if !ok {
				return 0
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !rowsOf(ia.X.Type()) {
				return 0
			}
			bad := w.row(s, s.Ctx, st.Val, isElem)
			k.check(bad == "", R, construct, k.pr.at(in), "%s (path %s)", bad, s.Trace())
			k.check(len(indexUses(w.fn, ia.Index, w.itemsAddr(s))) > 0 || s.Ctx != s.rootCtx(), R, construct, k.pr.at(in), "the row is put at %s, not at the place of its object", s.PT(ia.Index))
			c, v := s.Root(ia.X)
			mk, ok := v.(*ssa.MakeSlice)
			if !ok {
				if u, isLoad := v.(*ssa.UnOp); isLoad && u.Op == token.MUL {
					if e, has := k.literalIn(s, c, ownerOf(u.X))["Rows"]; has {
						mk, ok = rootIn(s, e.c, e.v).(*ssa.MakeSlice)
						c = e.c
					}
				}
			}
			if ok {
				l := s.PTIn(c, mk.Len)
				k.check(isCallTo(l, "builtin.len") && w.items(l.Args[0]), R, construct, k.pr.at(in), "%s rows are made", l)
			}
			return 1
		},
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			c, ok := call.(*ssa.Call)
			if !ok || !isAppend(c) || !rowsOf(c.Type()) {
				return 0
			}
			n := 0
			for _, e := range k.sliceElems(func() (*Ctx, ssa.Value) { return s.Root(c.Call.Args[1]) }()) {
				bad := w.row(s, e.c, e.v, isElem)
				k.check(bad == "", R, construct, k.pr.at(call), "%s (path %s)", bad, s.Trace())
				n = 1
			}
			if mk, ok := rootOf(s, c.Call.Args[0]).(*ssa.MakeSlice); ok {
				l, isC := intConst(mk.Len)
				k.check(isC && l == 0, R, construct, k.pr.at(call), "rows are appended to empty ones")
			}
			return n
		},
		exempt: func(s *St, cond ssa.Value, taken bool) bool { return false },
		exit: func(s *St, ret *ssa.Return) {
			if !hasFlag(s, "aslist") {
				addFlag(s, "exempt")
			}
		},
	})
}

func ownerOf(addr ssa.Value) ssa.Value {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		return fa.X
	}
	return addr
}

// ---------------------------------------------------------------- renderings

const noneText = `"<none>"`

// shortened: the text mentions all entries, or the first ones and how many are left out.
func (w *tabler) shortened(s *St, t *Term, all func(*Term) bool) string {
	join := func(t *Term) *Term {
		if isCallTo(t, "strings.Join") && t.Args[1].Op == "const" {
			return t.Args[0]
		}
		return nil
	}
	if x := join(t); x != nil {
		if !all(x) {
			return fmt.Sprintf("only %s is shown", x)
		}
		return ""
	}
	p := w.k.strParts(s, t)
	if len(p) != 4 || p[1].Op != "const" || p[3].Op != "const" || join(p[0]) == nil {
		return fmt.Sprintf("undecided: shown as %s", t)
	}
	x := join(p[0])
	lo, hi := sliceBounds(s.x.R, x)
	if x.Op != "slice" || hi == nil || hi.Op != "const" || lo != nil && lo.Sym != "0" || !all(x.Args[0]) {
		return fmt.Sprintf("undecided: the entries shown are %s", x)
	}
	n := p[2]
	if isCallTo(n, "strconv.Itoa") {
		n = n.Args[0]
	}
	n = unconv(n)
	if n.Op != "bin" || n.Sym != "-" || !isCallTo(n.Args[0], "builtin.len") || !all(n.Args[0].Args[0]) || n.Args[1].String() != hi.String() {
		return fmt.Sprintf("%s entries are shown and %s counted as left out", hi, n)
	}
	return ""
}

func (w *tabler) rendered(f *ssa.Function, none func(s *St) bool, edge func(s *St, t *Term, taken bool), good func(s *St, t *Term) string) {
	k := w.k
	sc := &scen{R: w.R, construct: fnName(f)}
	sc.atom = func(s *St, t *Term) (string, bool) { return "", false }
	sc.edge = func(s *St, t *Term, cond ssa.Value, taken bool) { edge(s, t, taken) }
	texts := 0
	sc.exit = func(s *St, ret *ssa.Return) string {
		c, v := s.Root(ret.Results[0])
		t := s.PTIn(c, v)
		if t.Op == "const" {
			if t.Sym != noneText {
				return fmt.Sprintf("shown as %s", t)
			}
			if !none(s) {
				return "entries are left out"
			}
			return ""
		}
		texts++
		return good(s, t)
	}
	k.scenario(f, sc)
	k.check(texts > 0, w.R, sc.construct, k.pr.pos(f.Pos()), "nothing is ever shown")
}

// empty: a condition tells that a collection has no entries.
func emptyEdge(t *Term, taken bool, of func(*Term) bool) bool {
	if t.Op != "bin" || !isCallTo(t.Args[0], "builtin.len") || !of(t.Args[0].Args[0]) {
		return t.Op == "bin" && (t.Sym == "==") == taken && (t.Sym == "==" || t.Sym == "!=") && of(t.Args[0]) && isNil(t.Args[1])
	}
	switch t.Sym + t.Args[1].Sym {
	case "==0", "<1", "<=0":
		return taken
	case "!=0", ">0", ">=1":
		return !taken
	}
	return false
}

func (w *tabler) labels(f *ssa.Function) {
	k := w.k
	is := func(t *Term) bool { return isParam(t, "arg0") }
	k.orderFree(w.R, f)
	k.each(f, &eachSpec{R: w.R, what: "every label is shown", leaf: is,
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			c, ok := call.(*ssa.Call)
			if !ok || !isAppend(c) {
				return 0
			}
			for _, e := range k.sliceElems(func() (*Ctx, ssa.Value) { return s.Root(c.Call.Args[1]) }()) {
				p := k.strParts(s, s.PTIn(e.c, e.v))
				good := len(p) == 3 && p[0].Op == "rangekey" && is(p[0].Args[0]) && p[1].Op == "const" && (p[2].Op == "index" || p[2].Op == "lookup") && is(p[2].Args[0])
				k.check(good, w.R, fnName(f), k.pr.at(call), "a label is shown as %v", p)
				return 1
			}
			return 0
		},
		exempt: func(s *St, cond ssa.Value, taken bool) bool { return emptyEdge(contents(s, s.condPT(cond)), taken, is) },
	})
	w.rendered(f, func(s *St) bool { return hasFlag(s, "empty") }, func(s *St, t *Term, taken bool) {
		if emptyEdge(t, taken, is) {
			addFlag(s, "empty")
		}
	}, func(s *St, t *Term) string {
		return w.shortened(s, t, func(x *Term) bool { return !partial(x) && x.Op != "const" })
	})
}

func (w *tabler) annotations(f *ssa.Function) {
	is := func(t *Term) bool { return isParam(t, "arg0") }
	w.rendered(f, func(s *St) bool { return hasFlag(s, "empty") }, func(s *St, t *Term, taken bool) {
		if emptyEdge(t, taken, is) {
			addFlag(s, "empty")
		}
	}, func(s *St, t *Term) string {
		p := w.k.strParts(s, t)
		n := 0
		for _, x := range p {
			if isCallTo(x, "strconv.Itoa") {
				x = x.Args[0]
			}
			if x = unconv(x); isCallTo(x, "builtin.len") && is(x.Args[0]) {
				n++
			} else if x.Op != "const" {
				return fmt.Sprintf("shown as %s", t)
			}
		}
		if n != 1 {
			return fmt.Sprintf("shown as %s", t)
		}
		return ""
	})
}

func (w *tabler) conditions(f *ssa.Function) {
	k := w.k
	field := func(t *Term) bool {
		e := extOf(t, 0, "unstructured.NestedFieldNoCopy", "unstructured.NestedSlice", "unstructured.NestedFieldCopy")
		if e == nil {
			return false
		}
		els := k.elemTerms0(e)
		return len(els) == 2 && els[0] == "status" && els[1] == "conditions" && e.Has(func(x *Term) bool { return isParam(x, "arg0") })
	}
	list := func(t *Term) bool {
		for t.Op == "assert" || t.Op == "ext" && t.Sym == "0" && t.Args[0].Op == "assert" {
			t = t.Args[0]
		}
		return field(t)
	}
	elem := func(t *Term) bool {
		t = unassert(t)
		return t.Op == "index" && list(t.Args[0])
	}
	part := func(t *Term, key string) bool {
		t = unassert(t)
		return (t.Op == "lookup" || t.Op == "index") && len(t.Args) == 2 && t.Args[1].Sym == `"`+key+`"` && elem(t.Args[0])
	}
	pair := func(s *St, c *Ctx, v ssa.Value) bool {
		p := k.strParts(s, s.PTIn(c, v))
		return len(p) == 3 && part(p[0], "type") && p[1].Op == "const" && part(p[2], "status")
	}
	lost := func(s *St, t *Term, taken bool) bool {
		// not a list, not found, not a map, or without type or status
		if t.Op == "ext" && t.Sym == "1" && t.Args[0].Op == "assert" && !taken {
			x := t.Args[0].Args[0]
			return elem(x) || part(x, "type") || part(x, "status") || field(unassert(x))
		}
		if t.Op == "ext" && t.Sym == "1" && !taken && field(&Term{Op: "ext", Sym: "0", Args: t.Args}) {
			return true
		}
		if t.Op == "bin" && (t.Sym == "!=" || t.Sym == "==") && isNil(t.Args[1]) && (t.Sym == "!=") == taken && t.Args[0].Op == "ext" && t.Args[0].Sym == "2" {
			return true
		}
		return emptyEdge(t, taken, list)
	}
	known, other := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	note := func(s *St, c *ssa.Call) {
		if hasFlag(s, "it:known") {
			known[c] = true
		} else if hasFlag(s, "it:other") {
			other[c] = true
		}
	}
	rank := func(t *Term) (bool, bool) { // of the condition, of another one
		for t.Op == "ext" && t.Sym == "0" {
			t = t.Args[0]
		}
		if t.Op != "lookup" && t.Op != "index" || len(t.Args) != 2 || list(t.Args[0]) || elem(t.Args[0]) {
			return false, false
		}
		own := part(t.Args[1], "type")
		return own, !own
	}
	k.each(f, &eachSpec{R: w.R, what: "every condition is shown", leaf: list,
		edge: func(s *St, cond ssa.Value, taken bool) {
			t := contents(s, s.condPT(cond))
			if t.Op == "ext" && t.Sym == "1" && (t.Args[0].Op == "lookup" || t.Args[0].Op == "index") && len(t.Args[0].Args) == 2 && part(t.Args[0].Args[1], "type") {
				dropFlag(s, "it:known", "it:other")
				addFlag(s, map[bool]string{true: "it:known", false: "it:other"}[taken])
			}
			if t.Op != "bin" || len(t.Args) != 2 {
				return
			}
			a, b := t.Args[0], t.Args[1]
			op := t.Sym
			if own, _ := rank(a); own {
				a, b = b, a
				op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
			}
			if _, oth := rank(a); !oth {
				return
			}
			if own, _ := rank(b); !own {
				return
			}
			later := op == ">" && taken || op == ">=" && taken || op == "<=" && !taken || op == "<" && !taken
			dropFlag(s, "it:later", "it:earlier")
			addFlag(s, map[bool]string{true: "it:later", false: "it:earlier"}[later])
		},
		call: func(s *St, call ssa.CallInstruction, nm string) int {
			c, ok := call.(*ssa.Call)
			if !ok {
				return 0
			}
			if nm == "slices.Insert" {
				for _, e := range k.sliceElems(func() (*Ctx, ssa.Value) { return s.Root(c.Call.Args[2]) }()) {
					if pair(s, e.c, e.v) {
						note(s, c)
						k.check(!hasFlag(s, "it:earlier"), w.R, fnName(f), k.pr.at(call), "a condition is put before one that comes first")
						return 1
					}
				}
			}
			if !isAppend(c) {
				return 0
			}
			// appended, or put between the two parts of a list
			cc, v := s.Root(c.Call.Args[1])
			es := k.sliceElems(cc, v)
			if len(es) == 1 && pair(s, es[0].c, es[0].v) {
				if x := s.PT(c.Call.Args[0]); x.Op == "slice" && partial(x) {
					k.fail(w.R, fnName(f), k.pr.at(call), "a condition replaces the end of %s", x)
				}
				note(s, c)
				return 1
			}
			in, ok := v.(*ssa.Call)
			if !ok || !isAppend(in) {
				return 0
			}
			ic, iv := s.RootIn(cc, in.Call.Args[0])
			es = k.sliceElems(ic, iv)
			if len(es) != 1 || !pair(s, es[0].c, es[0].v) {
				return 0
			}
			a, okA := rootOf(s, c.Call.Args[0]).(*ssa.Slice)
			b, okB := rootIn(s, cc, in.Call.Args[1]).(*ssa.Slice)
			good := okA && okB && a.Low == nil && b.High == nil && a.High != nil && b.Low != nil && rootOf(s, a.X) == rootOf(s, b.X) && rootOf(s, a.High) == rootOf(s, b.Low)
			k.check(good, w.R, fnName(f), k.pr.at(call), "a condition is not put between the ones before and after it: %s", s.PT(c))
			k.check(!hasFlag(s, "it:earlier"), w.R, fnName(f), k.pr.at(call), "a condition is put before one that comes first")
			note(s, c)
			return 1
		},
		skip: func(s *St, cond ssa.Value, taken bool) bool { return lost(s, contents(s, s.condPT(cond)), taken) },
		exempt: func(s *St, cond ssa.Value, taken bool) bool {
			t := contents(s, s.condPT(cond))
			return lost(s, t, taken) && !t.Has(elem)
		},
	})
	// the conditions everybody knows come first
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !isAppend(c) || known[c] || other[c] {
				continue
			}
			k.check(!(grown(c.Call.Args[0], other, 0) && grown(c.Call.Args[1], known, 0)), w.R, fnName(f), k.pr.at(c), "the conditions everybody knows come after the others")
		}
	}
	strs := func(t *Term) bool { return t.V != nil && types.TypeString(t.V.Type(), nil) == "[]string" }
	w.rendered(f, func(s *St) bool { return hasFlag(s, "empty") }, func(s *St, t *Term, taken bool) {
		if lost(s, t, taken) && !t.Has(elem) || emptyEdge(t, taken, strs) {
			addFlag(s, "empty")
		}
	}, func(s *St, t *Term) string {
		return w.shortened(s, t, func(x *Term) bool {
			if isCallTo(x, "slices.Concat") {
				return true
			}
			return isCallTo(x, "builtin.append") && len(x.Args) == 2 && !partial(x.Args[0]) && !partial(x.Args[1]) && x.Args[1].Op != "const"
		})
	})
}

// elemTerms0: the constant texts at the end of a variadic call.
func (k *K) elemTerms0(t *Term) []string {
	var r []string
	call, ok := t.V.(*ssa.Call)
	if !ok {
		return nil
	}
	for _, e := range k.varargs(t.Ctx, call) {
		if e.Op != "const" {
			return nil
		}
		r = append(r, unq(e.Sym))
	}
	return r
}

// partial: not the whole of another list.
func partial(t *Term) bool {
	sl, ok := t.V.(*ssa.Slice)
	return t.Op == "slice" && (!ok || sl.Low != nil || sl.High != nil)
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

func (w *tabler) itemsAddr(s *St) func(*ssa.IndexAddr) bool {
	return func(ia *ssa.IndexAddr) bool {
		sl, ok := ia.X.Type().Underlying().(*types.Slice)
		return ok && typeShort(sl.Elem()) == "unstructured.Unstructured"
	}
}

// indexUses: the elements addressed with the very index.
func indexUses(fn *ssa.Function, ix ssa.Value, of func(*ssa.IndexAddr) bool) []*ssa.IndexAddr {
	var r []*ssa.IndexAddr
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == ix && of(ia) {
				r = append(r, ia)
			}
		}
	}
	return r
}

// grown: the list has grown by one of the calls.
func grown(v ssa.Value, by map[ssa.Value]bool, d int) bool {
	if by[v] {
		return true
	}
	if d > 12 {
		return false
	}
	switch y := v.(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			if grown(e, by, d+1) {
				return true
			}
		}
	case *ssa.Slice:
		return grown(y.X, by, d+1)
	case *ssa.Call:
		return isAppend(y) && grown(y.Call.Args[0], by, d+1)
	}
	return false
}
