package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// O04: the copies of operators and of everything they are made of are complete and share nothing with
// the original. Every method DeepCopyInto of the API packages is explored once; what is stored or copied
// where is kept per path as facts about places (in.F, out.F, what a pointer at out.F points to, elements),
// and compared at the end with what the type demands: places that are or contain pointers, slices, maps or
// interfaces need memory of their own with the content of the original.

func init() {
	register("O04", "copies: every method DeepCopyInto and DeepCopy of the API packages is explored path by path; the places of the type that hold references (found from the type) must get memory of their own with the content of the same place of the original, elements one by one, all others the original's value; predicates are encoded as what they are and read back", runO04)
}

var copyPkgs = []string{"pkg/api/operator/v1alpha1", "pkg/predicate", "pkg/expression"}

func runO04(k *K) {
	const R = "copies"
	n, m := 0, 0
	var fns []*ssa.Function
	fns = append(fns, k.fnsIn(copyPkgs...)...)
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, fn := range fns {
		if fn.Signature.Recv() == nil || fn.Parent() != nil {
			continue
		}
		switch fn.Name() {
		case "DeepCopyInto":
			if fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 0 {
				n++
				(&copier{k: k, R: R, fn: fn}).run()
			}
		case "DeepCopy", "DeepCopyObject":
			if fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
				m++
				k.copyOf(R, fn)
			}
		}
	}
	k.atLeast("copies", 20)
	if fn := k.fn("predicate.Predicate.MarshalJSON"); fn != nil {
		k.predWriter("encoding", fn)
	}
	if fn := k.fn("predicate.Predicate.UnmarshalJSON"); fn != nil {
		k.predReader("encoding", fn)
	}
	k.check(n >= 12, R, "methods DeepCopyInto", "", "only %d found", n)
	k.check(m >= 12, R, "methods DeepCopy", "", "only %d found", m)
}

// ---------------------------------------------------------------- types

func copyMethod(t types.Type) bool {
	if _, ok := t.(*types.Named); !ok {
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i)
		if f.Obj().Name() == "DeepCopyInto" && len(f.Index()) == 1 {
			return true
		}
	}
	return false
}

// shares: values of the type hold references.
func shares(t types.Type, depth int) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if depth > 8 || shares(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return shares(u.Elem(), depth+1)
	}
	return true
}

// ---------------------------------------------------------------- places

type copier struct {
	k   *K
	R   string
	fn  *ssa.Function
	tab map[string]string // long names
	rev map[string]string
	nl  int
	al  map[string]ssa.Value // memory made here
	alc map[string]*Ctx
}

func (c *copier) short(p string) string {
	if c.tab == nil {
		c.tab, c.rev = map[string]string{}, map[string]string{}
	}
	if x, ok := c.tab[p]; ok {
		return x
	}
	c.nl++
	x := fmt.Sprintf("#%d", c.nl)
	c.tab[p], c.rev[x] = x, p
	return x
}

func (c *copier) made(x *Ctx, v ssa.Value) string {
	n := "new" + c.short(fmt.Sprintf("%d/%p", x.id, v))
	if c.al == nil {
		c.al, c.alc = map[string]ssa.Value{}, map[string]*Ctx{}
	}
	c.al[n], c.alc[n] = v, x
	return n
}

// place: what a pointer points to, or a slice or map holds.
func (c *copier) place(s *St, x *Ctx, v ssa.Value) string {
	for i := 0; i < 8; i++ {
		x, v = s.RootIn(x, v)
		switch y := v.(type) {
		case *ssa.Parameter:
			if x == s.rootCtx() {
				if len(c.fn.Params) > 0 && y == c.fn.Params[0] {
					return "in"
				}
				if len(c.fn.Params) > 1 && y == c.fn.Params[1] {
					return "out"
				}
			}
			return "?" + y.Name()
		case *ssa.FieldAddr:
			st := y.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return c.place(s, x, y.X) + "." + st.Field(y.Field).Name()
		case *ssa.Field:
			st := y.X.Type().Underlying().(*types.Struct)
			return c.where(s, x, y.X) + "." + st.Field(y.Field).Name() + "*"
		case *ssa.IndexAddr:
			b := c.place(s, x, y.X)
			return b + "[" + c.index(s, x, y.Index) + "]"
		case *ssa.UnOp:
			if y.Op == token.MUL {
				return c.place(s, x, y.X) + "*"
			}
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return c.made(x, v)
		case *ssa.TypeAssert:
			v = y.X
			continue
		case *ssa.Extract:
			if ta, ok := y.Tuple.(*ssa.TypeAssert); ok && y.Index == 0 {
				v = ta.X
				continue
			}
			if nx, ok := y.Tuple.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					return c.place(s, x, rg.X) + "[key" + c.short(fmt.Sprintf("%p", nx)) + "]*"
				}
			}
		case *ssa.Slice:
			if y.Low == nil && y.High == nil {
				v = y.X
				continue
			}
		}
		break
	}
	return "?" + v.Name()
}

// where: the place a value was read from.
func (c *copier) where(s *St, x *Ctx, v ssa.Value) string {
	x, v = s.RootIn(x, v)
	if _, ok := v.(*ssa.Parameter); ok {
		return c.place(s, x, v)
	}
	if p := c.place(s, x, v); strings.HasSuffix(p, "*") {
		return strings.TrimSuffix(p, "*")
	}
	return "?"
}

func (c *copier) index(s *St, x *Ctx, v ssa.Value) string {
	x, v = s.RootIn(x, v)
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		return k.Value.String()
	}
	return c.short(fmt.Sprintf("%d/%p", x.id, v))
}

func (s *St) rootCtx() *Ctx {
	x := s.Ctx
	for x.parent != nil {
		x = x.parent
	}
	return x
}

// ---------------------------------------------------------------- facts

// fact kinds: what place d holds now.
//
//	same:d=p   the value read from p        deep:d=p   a deep copy of what is at p
//	val:d=m    a reference to memory m      items:d=p  the (plain) elements of p
//	none:d     a zero value                 odd:d=t    something else
func (c *copier) set(s *St, kind, d, what string, pre string) {
	d = c.short(d)
	for f := range parseFlags(s.Auto) {
		for _, kd := range []string{"same", "deep", "val", "odd", "none"} {
			if strings.HasPrefix(f, pre+kd+":"+d+"=") {
				dropFlag(s, f)
			}
		}
	}
	addFlag(s, pre+kind+":"+d+"="+c.short(what))
}

func (c *copier) get(s *St, kind, d string) (string, bool) {
	d = c.short(d)
	for f := range parseFlags(s.Auto) {
		f = strings.TrimPrefix(f, "it:")
		if strings.HasPrefix(f, kind+":"+d+"=") {
			return c.rev[f[len(kind)+len(d)+2:]], true
		}
	}
	return "", false
}

func (c *copier) instr(s *St, in ssa.Instruction, pre string) string {
	st, ok := in.(*ssa.Store)
	if !ok {
		return ""
	}
	d := c.place(s, s.Ctx, st.Addr)
	x, v := s.Root(st.Val)
	switch y := v.(type) {
	case *ssa.Const:
		if y.IsNil() || y.Value == nil {
			c.set(s, "none", d, "", pre)
			return d
		}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		c.set(s, "val", d, c.made(x, v), pre)
		return d
	case *ssa.Parameter, *ssa.Field:
		c.set(s, "same", d, c.where(s, x, v), pre)
		return d
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if cx, w := s.RootIn(x, y.X); isCall(w) {
				args := callArgs(w.(*ssa.Call).Common())
				if strings.HasSuffix(s.x.R.calleeName(cx, w.(*ssa.Call).Common()), ".DeepCopy") && len(args) == 1 {
					c.set(s, "deep", d, c.place(s, cx, args[0]), pre)
					return d
				}
			}
			c.set(s, "same", d, c.place(s, x, y.X), pre)
			return d
		}
	case *ssa.TypeAssert, *ssa.Extract:
		if p := c.where(s, x, v); p != "?" {
			c.set(s, "same", d, p, pre)
			return d
		}
	case *ssa.Call:
		nm := s.x.R.calleeName(x, y.Common())
		args := callArgs(y.Common())
		switch {
		case strings.HasSuffix(nm, ".DeepCopy") && len(args) == 1:
			c.set(s, "deep", d, strings.TrimSuffix(c.place(s, x, args[0]), "*"), pre)
			return d
		case (nm == "slices.Clone" || nm == "maps.Clone" || nm == "bytes.Clone") && len(args) == 1:
			c.set(s, "val", d, c.made(x, v), pre)
			addFlag(s, pre+"items:"+c.short(c.made(x, v))+"="+c.short(c.place(s, x, args[0])))
			return d
		case isAppend(y) && len(args) == 2:
			_, b := s.RootIn(x, args[0])
			if k, ok := b.(*ssa.Const); ok && k.IsNil() {
				c.set(s, "val", d, c.made(x, v), pre)
				addFlag(s, pre+"items:"+c.short(c.made(x, v))+"="+c.short(c.place(s, x, args[1])))
				return d
			}
		}
	}
	c.set(s, "odd", d, s.PTIn(x, v).String(), pre)
	return d
}

func (c *copier) call(s *St, call ssa.CallInstruction, nm, pre string) string {
	args := callArgs(call.Common())
	if b, ok := call.Common().Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" {
			addFlag(s, pre+"items:"+c.short(c.place(s, s.Ctx, args[0]))+"="+c.short(c.place(s, s.Ctx, args[1])))
		}
		return ""
	}
	switch {
	case strings.HasSuffix(nm, ".DeepCopyInto") && len(args) == 2:
		d := c.place(s, s.Ctx, args[1])
		src := c.place(s, s.Ctx, args[0])
		if f := call.Common().StaticCallee(); f != nil && f.Signature.Recv() != nil {
			if _, ptr := f.Signature.Recv().Type().(*types.Pointer); !ptr {
				src = c.where(s, s.Ctx, args[0])
			}
		}
		c.set(s, "deep", d, src, pre)
		return d
	case nm == "json.Unmarshal" && len(args) == 2:
		t := s.PT(args[0])
		if m := extOf(t, 0, "json.Marshal"); m != nil && m.V != nil {
			if mc, ok := m.V.(*ssa.Call); ok {
				mx, mv := m.Ctx, mc.Call.Args[0]
				mx, mv = s.RootIn(mx, mv)
				src := c.place(s, mx, mv)
				if _, ok := mv.Type().Underlying().(*types.Pointer); !ok {
					src = c.where(s, mx, mv)
					if _, isp := mv.(*ssa.Parameter); isp {
						src = "in"
					}
				}
				c.set(s, "deep", c.place(s, s.Ctx, args[1]), src, pre)
			}
		}
	}
	return ""
}

// edge: what a condition tells about nil.
func (c *copier) edge(s *St, cond ssa.Value, taken bool) {
	x, v := s.Root(cond)
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return
	}
	lx, l := s.RootIn(x, b.X)
	_, r := s.RootIn(x, b.Y)
	if k, ok := r.(*ssa.Const); !ok || !k.IsNil() {
		if k, ok := r.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "0" && (b.Op == token.EQL) == taken {
			if cl, ok := l.(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					addFlag(s, "nil:"+c.short(c.where(s, lx, cl.Call.Args[0])))
				}
			}
		}
		return
	}
	isnil := (b.Op == token.EQL) == taken
	if types.TypeString(l.Type(), nil) == "error" {
		if !isnil {
			addFlag(s, "failed")
		}
		return
	}
	p := c.where(s, lx, l)
	if _, ok := l.(*ssa.Parameter); ok {
		p = c.place(s, lx, l)
	}
	if isnil {
		addFlag(s, "nil:"+c.short(p))
	}
}

// ---------------------------------------------------------------- what is needed

// holds: place d holds a copy of place p of that type. whole: it was assigned p's value as a part of
// something bigger.
func (c *copier) holds(s *St, t types.Type, d, p string, whole bool) string {
	if x, ok := c.get(s, "deep", d); ok {
		if x != p {
			return fmt.Sprintf("%s is copied from %s", d, x)
		}
		return ""
	}
	if x, ok := c.get(s, "odd", d); ok {
		return fmt.Sprintf("%s becomes %s", d, x)
	}
	nilp := hasFlag(s, "nil:"+c.short(p))
	if _, ok := c.get(s, "none", d); ok {
		if _, ok := t.Underlying().(*types.Interface); ok || nilp {
			return "" // which kinds there are is decided elsewhere (E08)
		}
		return fmt.Sprintf("%s is dropped", d)
	}
	if x, ok := c.get(s, "same", d); ok {
		if x != p {
			return fmt.Sprintf("%s becomes the value of %s", d, x)
		}
		whole = true
	}
	if !shares(t, 0) {
		if whole {
			return ""
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if bad := c.holds(s, st.Field(i).Type(), d+"."+st.Field(i).Name(), p+"."+st.Field(i).Name(), false); bad != "" {
					return bad
				}
			}
			return ""
		}
		return fmt.Sprintf("%s is not copied", d)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if bad := c.holds(s, f.Type(), d+"."+f.Name(), p+"."+f.Name(), whole); bad != "" {
				return bad
			}
		}
		return ""
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		m, made := c.get(s, "val", d)
		if nilp {
			return "" // nothing to copy: whatever was made is empty
		}
		if !made {
			if whole {
				return fmt.Sprintf("%s shares what %s refers to", d, p)
			}
			return fmt.Sprintf("%s is not copied", d)
		}
		switch u := u.(type) {
		case *types.Pointer:
			for _, at := range []string{d + "*", m} {
				for _, kd := range []string{"deep", "same", "odd"} {
					if _, ok := c.get(s, kd, at); ok {
						return c.holds(s, u.Elem(), at, p+"*", false)
					}
				}
			}
			return c.holds(s, u.Elem(), m, p+"*", false)
		case *types.Slice:
			// elements of their own are judged by the loops
			for _, at := range []string{d + "*", m} {
				if x, ok := c.get(s, "items", at); ok {
					if x != p+"*" {
						return fmt.Sprintf("%s gets the elements of %s", d, x)
					}
					if shares(u.Elem(), 0) {
						return fmt.Sprintf("the elements of %s share what those of %s refer to", d, p)
					}
					return ""
				}
			}
			if mk, ok := c.al[m].(*ssa.MakeSlice); ok {
				l := s.PTIn(c.alc[m], mk.Len)
				if !isCallTo(l, "builtin.len") {
					return fmt.Sprintf("%s has %s elements", d, l)
				}
				if cl, ok := l.V.(*ssa.Call); ok && c.where(s, l.Ctx, cl.Call.Args[0]) != p {
					return fmt.Sprintf("%s has as many elements as %s", d, c.where(s, l.Ctx, cl.Call.Args[0]))
				}
			}
			return ""
		case *types.Interface:
			al, ok := c.al[m].(*ssa.Alloc)
			if !ok {
				return fmt.Sprintf("undecided: %s", d)
			}
			return c.holds(s, al.Type().Underlying().(*types.Pointer).Elem(), m, p+"*", false)
		}
	}
	return fmt.Sprintf("undecided: the copy of %s", p)
}

func (c *copier) run() {
	k, fn, R := c.k, c.fn, c.R
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	pt, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		k.fail(R, construct, k.pr.pos(fn.Pos()), "undecided: copies into a %s", typeText(fn.Signature.Params().At(0).Type()))
		return
	}
	T := pt.Elem()
	inline := func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(fn) && !recursive(callee) && callee.Name() != "DeepCopyInto" && callee.Name() != "DeepCopy" &&
			callee.Signature.Recv() == nil
	}
	rule := &Rule{MaxDepth: 5, Flow: true, Asserts: true, Inline: inline}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) { c.edge(s, cond, taken) }
	rule.Instr = func(s *St, in ssa.Instruction) { c.instr(s, in, "") }
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) { c.call(s, call, nm, "") }
	rule.Exit = func(s *St, ret *ssa.Return) {
		if hasFlag(s, "nil:"+c.short("in")) || hasFlag(s, "nil:"+c.short("out")) {
			return
		}
		if hasFlag(s, "failed") {
			return // encoding fails only for what cannot be an expression or predicate
		}
		bad := c.holds(s, T, "out", "in", false)
		k.check(bad == "", R, construct, k.pr.at(ret), "%s (path %s)", bad, s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	// slices with elements that were not copied at once
	c.slices(T, "in", inline, 0)
}

// slices: the elements of every slice of the type are copied one by one, unless the slice is copied by
// something else.
func (c *copier) slices(T types.Type, p string, inline func(*St, ssa.CallInstruction, *ssa.Function) bool, depth int) {
	st, ok := T.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return
	}
	k, fn, R := c.k, c.fn, c.R
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		sl, ok := f.Type().Underlying().(*types.Slice)
		if !ok {
			if _, ok := f.Type().Underlying().(*types.Struct); ok && !copyMethod(f.Type()) {
				c.slices(f.Type(), p+"."+f.Name(), inline, depth+1)
			}
			continue
		}
		src := p + "." + f.Name()
		dst := "out" + strings.TrimPrefix(src, "in")
		isSrc := func(t *Term) bool { return c.isPlace(t, src) || c.isPlace(t, dst) }
		copied := func(s *St, d string) int {
			j := strings.LastIndex(d, "[")
			if j < 0 || !strings.HasSuffix(d, "]") {
				return 0
			}
			ok := d[:j] == dst+"*"
			if mk, isMk := c.al[d[:j]]; isMk && types.Identical(mk.Type().Underlying(), sl) {
				ok = true
			}
			if !ok {
				return 0
			}
			bad := c.holds(s, sl.Elem(), d, src+"*"+d[j:], false)
			if !k.check(bad == "", R, fnName(fn)+": "+f.Name(), k.pr.pos(fn.Pos()), "elements: %s (path %s)", bad, s.Trace()) {
				return 1
			}
			return 1
		}
		k.each(fn, &eachSpec{R: R, what: "elements of " + f.Name(), leaf: isSrc,
			outside: func(call ssa.CallInstruction, callee *ssa.Function) bool { return !inline(nil, call, callee) },
			instr: func(s *St, in ssa.Instruction) int {
				d := c.instr(s, in, "it:")
				if d == "" {
					return 0
				}
				return copied(s, d)
			},
			call: func(s *St, call ssa.CallInstruction, nm string) int {
				d := c.call(s, call, nm, "it:")
				if _, ok := c.get(s, "items", dst+"*"); ok {
					addFlag(s, "exempt")
				}
				for m, v := range c.al {
					if _, ok := v.(*ssa.MakeSlice); ok && types.Identical(v.Type().Underlying(), sl) {
						if _, ok := c.get(s, "items", m); ok {
							addFlag(s, "exempt")
						}
					}
				}
				if x, ok := c.get(s, "deep", "out"); ok && x == "in" {
					addFlag(s, "exempt")
				}
				if d == "" {
					return 0
				}
				return copied(s, d)
			},
			exempt: func(s *St, cond ssa.Value, taken bool) bool {
				c.edge(s, cond, taken)
				return hasFlag(s, "nil:"+c.short(src)) || hasFlag(s, "nil:"+c.short("in")) || hasFlag(s, "nil:"+c.short("out")) || hasFlag(s, "failed")
			},
			exit: func(s *St, ret *ssa.Return) {
				if m, ok := c.get(s, "val", dst); ok {
					if v := c.al[m]; isCall(v) {
						addFlag(s, "exempt") // copied at once
					}
				}
			},
		})
	}
}

// isPlace: a term for the value at that place (a field of the original or of the copy).
func (c *copier) isPlace(t *Term, p string) bool {
	parts := strings.Split(p, ".")
	for i := len(parts) - 1; i > 0; i-- {
		if !isField(t, parts[i]) {
			return false
		}
		t = t.Args[0]
	}
	if parts[0] == "in" {
		return isParam(t, "recv")
	}
	return isParam(t, "arg0")
}

// copyOf: DeepCopy returns something new DeepCopyInto was called for, nil only for nil.
func (k *K) copyOf(R string, fn *ssa.Function) {
	construct := fnName(fn)
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	c := &copier{k: k, R: R, fn: fn}
	rule := &Rule{MaxDepth: 4, Flow: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(fn) && !recursive(callee) && !strings.HasPrefix(callee.Name(), "DeepCopy")
	}}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		c.edge(s, cond, taken)
		x, v := s.Root(cond)
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			if t := s.PTIn(x, b.X); t.Op == "call" && strings.HasSuffix(t.Sym, ".DeepCopy") && isParam(t.Args[0], "recv") && isNil(s.PTIn(x, b.Y)) && (b.Op == token.EQL) == taken {
				addFlag(s, "nil:"+c.short("in"))
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) { c.instr(s, in, "") }
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) { c.call(s, call, nm, "") }
	rule.Exit = func(s *St, ret *ssa.Return) {
		x, v := s.RootIn(s.Ctx, ret.Results[0])
		if cst, ok := v.(*ssa.Const); ok && cst.IsNil() {
			k.check(hasFlag(s, "nil:"+c.short("in")), R, construct, k.pr.at(ret), "returns nil for something (path %s)", s.Trace())
			return
		}
		if hasFlag(s, "nil:"+c.short("in")) {
			return
		}
		switch y := v.(type) {
		case *ssa.Alloc:
			d, ok := c.get(s, "deep", c.made(x, y))
			k.check(ok && d == "in", R, construct, k.pr.at(ret), "returns something the original was not copied to (path %s)", s.Trace())
			return
		case *ssa.Call:
			t := s.PTIn(x, v)
			if t.Op == "call" && strings.HasSuffix(t.Sym, ".DeepCopy") && isParam(t.Args[0], "recv") {
				return
			}
		}
		k.fail(R, construct, k.pr.at(ret), "returns %s (path %s)", s.PTIn(x, v), s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
}

// ---------------------------------------------------------------- predicates

var predForms = []string{"BasicPredicate", "BoolPredicate"}

// predWriter: a predicate is written as the form it has.
func (k *K) predWriter(R string, fn *ssa.Function) {
	for _, form := range append(predForms, "") {
		sc := &scen{R: R, construct: fnName(fn) + ": " + form}
		sc.inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			return fnPkg(callee) == fnPkg(fn) && !recursive(callee)
		}
		is := func(t *Term, f string) bool { return isField(t, f) && isParam(t.Args[0], "recv") }
		sc.atom = func(s *St, t *Term) (string, bool) {
			if t.Op == "bin" && (t.Sym == "==" || t.Sym == "!=") && isNil(t.Args[1]) {
				for _, f := range predForms {
					if is(t.Args[0], f) {
						return fmt.Sprint((t.Sym == "!=") == (f == form)), true
					}
				}
			}
			return "", false
		}
		sc.exit = func(s *St, ret *ssa.Return) string {
			c, v := s.Root(ret.Results[1])
			et := s.PTIn(c, v)
			c, v = s.Root(ret.Results[0])
			bt := s.PTIn(c, v)
			if form == "" {
				if isNil(et) || extOf(et, 1, "json.Marshal") != nil {
					return "nothing is written without an error"
				}
				return ""
			}
			if isNil(bt) && extOf(et, 1, "json.Marshal") != nil {
				return ""
			}
			m := extOf(bt, 0, "json.Marshal")
			if m == nil || !isNil(et) && extOf(et, 1, "json.Marshal") == nil {
				return fmt.Sprintf("a predicate is written as %s, %s", bt, et)
			}
			if a := unconv(m.Args[0]); !is(a, form) && !(a.Op == "un" && is(a.Args[0], form)) {
				return fmt.Sprintf("a %s is written as %s", form, a)
			}
			return ""
		}
		k.scenario(fn, sc)
	}
}

// predReader: a predicate becomes the form that could be read, and nothing else.
func (k *K) predReader(R string, fn *ssa.Function) {
	construct := fnName(fn)
	c := &copier{k: k, R: R, fn: fn}
	k.ok(R, construct, k.pr.pos(fn.Pos()))
	rule := &Rule{MaxDepth: 5, Flow: true, Asserts: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(fn) && !recursive(callee)
	}}
	n := 0
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		x, v := s.Root(cond)
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || !isNil(s.PTIn(x, b.Y)) {
			return
		}
		cx, w := s.RootIn(x, b.X)
		cl, ok := w.(*ssa.Call)
		if !ok || s.x.R.calleeName(cx, cl.Common()) != "json.Unmarshal" {
			return
		}
		if d := s.PTIn(cx, cl.Call.Args[0]); !isParam(unconv(d), "arg0") {
			return
		}
		res := "good:"
		if (b.Op == token.EQL) != taken {
			res = "bad:"
		}
		if p, ok := rootIn(s, cx, cl.Call.Args[1]).Type().Underlying().(*types.Pointer); ok {
			addFlag(s, res+typeShort(p.Elem()))
			addFlag(s, res+c.short(c.place(s, cx, cl.Call.Args[1])))
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) { c.instr(s, in, "") }
	rule.Exit = func(s *St, ret *ssa.Return) {
		x, v := s.Root(ret.Results[0])
		et := s.PTIn(x, v)
		if cst, ok := v.(*ssa.Const); !ok || !cst.IsNil() {
			for _, f := range predForms {
				k.check(hasFlag(s, "bad:predicate."+f), R, construct, k.pr.at(ret), "refused with %s although it may be a %s (path %s)", et, f, s.Trace())
			}
			return
		}
		n++
		src, all := c.get(s, "same", "in")
		set := 0
		for _, f := range predForms {
			m, ok := c.get(s, "val", "in."+f)
			if !ok && all {
				m, ok = c.get(s, "val", src+"."+f)
			}
			if !ok {
				_, none := c.get(s, "none", "in."+f)
				k.check(all || none, R, construct, k.pr.at(ret), "%s keeps what it was (path %s)", f, s.Trace())
				continue
			}
			set++
			k.check(hasFlag(s, "good:"+c.short(m)) && !hasFlag(s, "bad:"+c.short(m)), R, construct, k.pr.at(ret), "%s is set although it could not be read (path %s)", f, s.Trace())
		}
		k.check(set == 1, R, construct, k.pr.at(ret), "%d forms are set (path %s)", set, s.Trace())
	}
	x := k.explore(rule)
	x.Run(fn, "")
	k.done(x, R, construct)
	k.check(n > 1, R, construct, k.pr.pos(fn.Pos()), "not every form can be read")
}

func rootIn(s *St, c *Ctx, v ssa.Value) ssa.Value {
	_, w := s.RootIn(c, v)
	return w
}
