package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one activation of a function on an inlined path: the chain of call sites that leads from
// an analysis root to fn. Terms of values are resolved through it, so a helper extracted from a
// function, or inlined back into it, yields the same terms.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.CallInstruction // call site in parent (nil for a root)
	resume ssa.Instruction     // RunDefers instruction when entered by a deferred call
	fn     *ssa.Function
	mc     *ssa.MakeClosure // closure value being called, for free variables
	mcCtx  *Ctx
	depth  int
}

func (c *Ctx) onStack(f *ssa.Function) bool {
	for x := c; x != nil; x = x.parent {
		if x.fn == f {
			return true
		}
	}
	return false
}

func (c *Ctx) root() *Ctx {
	for c.parent != nil {
		c = c.parent
	}
	return c
}

// Term is a symbolic description of a value.
type Term struct {
	Op   string // param const field call ext index rangekey rangeval phi bin un alloc closure fn global lookup make slice opaque
	Sym  string
	Args []*Term
	V    ssa.Value
	Ctx  *Ctx
	str  string
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.str != "" {
		return t.str
	}
	var a []string
	for _, x := range t.Args {
		a = append(a, x.String())
	}
	switch t.Op {
	case "param", "const", "global", "fn", "opaque", "alloc", "closure":
		t.str = t.Sym
	case "field":
		t.str = a[0] + "." + t.Sym
	case "call":
		t.str = t.Sym + "(" + strings.Join(a, ",") + ")"
	case "ext":
		t.str = a[0] + "#" + t.Sym
	case "index", "lookup":
		t.str = a[0] + "[" + a[1] + "]"
	case "phi":
		sort.Strings(a)
		t.str = "phi{" + strings.Join(a, "|") + "}"
	case "bin":
		t.str = "(" + a[0] + t.Sym + a[1] + ")"
	case "un":
		t.str = t.Sym + a[0]
	default:
		t.str = t.Op + t.Sym + "(" + strings.Join(a, ",") + ")"
	}
	return t.str
}

// Walk visits t and its subterms.
func (t *Term) Walk(f func(*Term) bool) {
	if t == nil || !f(t) {
		return
	}
	for _, a := range t.Args {
		a.Walk(f)
	}
}

// Has reports whether some subterm satisfies p.
func (t *Term) Has(p func(*Term) bool) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if found {
			return false
		}
		if p(x) {
			found = true
		}
		return !found
	})
	return found
}

// HasCall reports whether a call to one of the named functions occurs in t.
func (t *Term) HasCall(names ...string) bool {
	return t.Has(func(x *Term) bool {
		if x.Op != "call" {
			return false
		}
		for _, n := range names {
			if x.Sym == n {
				return true
			}
		}
		return false
	})
}

// Alts flattens the phi structure of t: the set of values it may stand for.
func (t *Term) Alts() []*Term {
	if t.Op != "phi" {
		return []*Term{t}
	}
	var r []*Term
	for _, a := range t.Args {
		r = append(r, a.Alts()...)
	}
	return r
}

var versionRe = regexp.MustCompile(`^v[0-9]`)
var modPkgNames = map[string]bool{}

func pkgShort(p *types.Package) string {
	if p == nil {
		return ""
	}
	path := p.Path()
	name := p.Name()
	if versionRe.MatchString(name) {
		parts := strings.Split(path, "/")
		if len(parts) >= 2 {
			name = parts[len(parts)-2] + "/" + name
		}
	}
	if strings.HasPrefix(path, modPath) {
		return name
	}
	if modPkgNames[name] {
		return "x/" + name
	}
	return name
}

func typeShort(t types.Type) string {
	switch t := t.(type) {
	case *types.Pointer:
		return typeShort(t.Elem())
	case *types.Named:
		return pkgShort(t.Obj().Pkg()) + "." + t.Obj().Name()
	case *types.Alias:
		return typeShort(types.Unalias(t))
	}
	return types.TypeString(t, func(p *types.Package) string { return pkgShort(p) })
}

// fnName is the stable name of a function: pkg.Func or pkg.Type.Method.
func fnName(f *ssa.Function) string {
	if f == nil {
		return "<unknown>"
	}
	if o := f.Origin(); o != nil && o != f {
		return fnName(o)
	}
	if f.Parent() != nil {
		return fnName(f.Parent()) + "." + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$") + "$"
	}
	if obj, ok := f.Object().(*types.Func); ok {
		return funcObjName(obj)
	}
	if recv := f.Signature.Recv(); recv != nil {
		return typeShort(recv.Type()) + "." + f.Name()
	}
	if f.Pkg != nil {
		return pkgShort(f.Pkg.Pkg) + "." + f.Name()
	}
	return f.Name()
}

func funcObjName(obj *types.Func) string {
	sig := obj.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkgShort(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + obj.Name()
		}
		return pkgShort(obj.Pkg()) + "." + obj.Name()
	}
	return pkgShort(obj.Pkg()) + "." + obj.Name()
}

// calleeName names the target of a call without context: static callee, interface method, builtin.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return ifaceMethodName(c)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "dyn"
}

func ifaceMethodName(c *ssa.CallCommon) string {
	t := c.Value.Type()
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return pkgShort(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + c.Method.Name()
	}
	return funcObjName(c.Method)
}

// Resolver turns SSA values into terms relative to a context.
type Resolver struct {
	pr    *Program
	ctxs  map[string]*Ctx
	cache map[tkey]*Term
	busy  map[tkey]bool
	path  *St // values are resolved as they are on this path
	// helper calls are looked through when they are module functions of at most this many blocks
	maxBlocks int
}

type tkey struct {
	c *Ctx
	v ssa.Value
}

func newResolver(pr *Program) *Resolver {
	return &Resolver{pr: pr, ctxs: map[string]*Ctx{}, cache: map[tkey]*Term{}, busy: map[tkey]bool{}, maxBlocks: 12}
}

func (r *Resolver) rootCtx(f *ssa.Function) *Ctx { return r.ctx(nil, nil, nil, f, nil, nil) }

func (r *Resolver) ctx(parent *Ctx, site ssa.CallInstruction, resume ssa.Instruction, fn *ssa.Function, mc *ssa.MakeClosure, mcCtx *Ctx) *Ctx {
	pid := 0
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	mid := 0
	if mcCtx != nil {
		mid = mcCtx.id
	}
	key := fmt.Sprintf("%d|%p|%p|%p|%p|%d", pid, site, resume, fn, mc, mid)
	if c := r.ctxs[key]; c != nil {
		return c
	}
	c := &Ctx{id: len(r.ctxs) + 1, parent: parent, site: site, resume: resume, fn: fn, mc: mc, mcCtx: mcCtx, depth: d}
	r.ctxs[key] = c
	return c
}

// actual returns the argument value bound to parameter i of ctx's function.
func actual(c *Ctx, i int) ssa.Value {
	if c.site == nil {
		return nil
	}
	com := c.site.Common()
	if f := com.StaticCallee(); f != nil && f != c.fn && f.Origin() != c.fn && c.fn.Origin() != f && !inModule(f) {
		return nil // c.fn is a callback of an external function: its arguments are not those of the call
	}
	if com.IsInvoke() {
		if c.fn.Parent() != nil {
			return nil
		}
		if i == 0 {
			return com.Value
		}
		i--
	}
	if i < len(com.Args) {
		return com.Args[i]
	}
	return nil
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// norm follows parameters to arguments, free variables to bindings, value-preserving conversions
// and single-assignment locals, and returns the context and value it ends at.
func (r *Resolver) norm(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	for n := 0; n < 64; n++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if c == nil || x.Parent() != c.fn || c.site == nil {
				return c, v
			}
			a := actual(c, paramIndex(x))
			if a == nil {
				return c, v
			}
			c, v = c.parent, a
		case *ssa.FreeVar:
			if c == nil || x.Parent() != c.fn {
				return c, v
			}
			idx := -1
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					idx = i
				}
			}
			mc, mctx := c.mc, c.mcCtx
			if mc == nil || idx < 0 || idx >= len(mc.Bindings) {
				return c, v
			}
			c, v = mctx, mc.Bindings[idx]
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return c, v
			}
			cc, p := r.norm(c, x.X)
			if a, ok := p.(*ssa.Alloc); ok {
				if s := singleStore(a); s != nil {
					c, v = cc, s
					continue
				}
			}
			return c, v
		case *ssa.Phi:
			var only ssa.Value
			same := true
			for _, e := range x.Edges {
				if e == ssa.Value(x) {
					continue
				}
				if only == nil {
					only = e
				} else if only != e {
					same = false
				}
			}
			if !same || only == nil {
				return c, v
			}
			v = only
		default:
			return c, v
		}
	}
	return c, v
}

// passedOn: the value is an argument of a call.
func passedOn(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok {
			for _, a := range c.Common().Args {
				if a == v {
					return true
				}
			}
		}
	}
	return false
}

// singleStore returns the only value ever stored to a whole local variable, if there is exactly
// one store and the variable's address is otherwise only read, captured or used for field access.
func singleStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	var scan func(addr ssa.Value, depth int) bool
	scan = func(addr ssa.Value, depth int) bool {
		if addr.Referrers() == nil || depth > 4 {
			return false
		}
		for _, ref := range *addr.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					n++
					val = x.Val
				}
			case *ssa.FieldAddr:
				// a struct that is modified after it was copied
				if x.X == addr && x.Referrers() != nil {
					for _, r2 := range *x.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
							return false
						}
					}
				}
			case *ssa.MakeInterface:
				// decoded into, for instance by json.Unmarshal
				if _, isStruct := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !isStruct && passedOn(x) {
					return false
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == addr {
						if fn, ok := x.Fn.(*ssa.Function); ok && i < len(fn.FreeVars) {
							if !scan(fn.FreeVars[i], depth+1) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}
	if !scan(a, 0) || n != 1 {
		return nil
	}
	return val
}

func (r *Resolver) T(c *Ctx, v ssa.Value) *Term {
	if r.path != nil {
		c, v = r.path.RootIn(c, v)
	} else {
		c, v = r.norm(c, v)
	}
	k := tkey{c, v}
	if t := r.cache[k]; t != nil {
		return t
	}
	if r.path != nil {
		if t := r.path.lazyField(c, v); t != nil {
			t.V, t.Ctx = v, c
			r.cache[k] = t
			return t
		}
	}
	if r.busy[k] {
		return &Term{Op: "opaque", Sym: "…", V: v, Ctx: c}
	}
	r.busy[k] = true
	t := r.mk(c, v)
	delete(r.busy, k)
	t.V, t.Ctx = v, c
	if len(t.String()) > 4000 {
		t = &Term{Op: "opaque", Sym: fmt.Sprintf("big:%s", v.Name()), V: v, Ctx: c}
	}
	if len(r.busy) == 0 || !strings.Contains(t.String(), "…") {
		r.cache[k] = t
	}
	return t
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprintf("f%d", i)
}

func (r *Resolver) mk(c *Ctx, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return &Term{Op: "const", Sym: "nil"}
		}
		if x.Value.Kind() == constant.String {
			return &Term{Op: "const", Sym: fmt.Sprintf("%q", constant.StringVal(x.Value))}
		}
		return &Term{Op: "const", Sym: x.Value.ExactString()}
	case *ssa.Parameter:
		if site := searchSite(c); site != nil && c.fn == x.Parent() {
			return &Term{Op: "index", Args: []*Term{r.T(c.parent, site.Common().Args[0]), {Op: "opaque", Sym: "*"}}}
		}
		if c != nil && c.fn == x.Parent() || c == nil {
			i := paramIndex(x)
			if i == 0 && x.Parent().Signature.Recv() != nil {
				return &Term{Op: "param", Sym: "recv"}
			}
			if x.Parent().Signature.Recv() != nil {
				i--
			}
			return &Term{Op: "param", Sym: fmt.Sprintf("arg%d", i)}
		}
		return &Term{Op: "param", Sym: "outer:" + x.Name()}
	case *ssa.FreeVar:
		return &Term{Op: "param", Sym: "captured:" + x.Name()}
	case *ssa.Global:
		return &Term{Op: "global", Sym: pkgShort(x.Package().Pkg) + "." + x.Name()}
	case *ssa.Function:
		return &Term{Op: "fn", Sym: fnName(x)}
	case *ssa.Builtin:
		return &Term{Op: "fn", Sym: "builtin." + x.Name()}
	case *ssa.MakeClosure:
		return &Term{Op: "closure", Sym: fnName(x.Fn.(*ssa.Function))}
	case *ssa.Alloc:
		if v := structCopy(x); v != nil {
			return r.T(c, v)
		}
		return &Term{Op: "alloc", Sym: fmt.Sprintf("new:%s@%s#%s", typeShort(x.Type()), fnName(x.Parent()), x.Name())}
	case *ssa.FieldAddr:
		return &Term{Op: "field", Sym: fieldName(x.X.Type(), x.Field), Args: []*Term{r.T(c, x.X)}}
	case *ssa.Field:
		return &Term{Op: "field", Sym: fieldName(x.X.Type(), x.Field), Args: []*Term{r.T(c, x.X)}}
	case *ssa.IndexAddr:
		return &Term{Op: "index", Args: []*Term{r.T(c, x.X), r.idx(c, x.Index)}}
	case *ssa.Index:
		return &Term{Op: "index", Args: []*Term{r.T(c, x.X), r.idx(c, x.Index)}}
	case *ssa.Lookup:
		m, key := r.T(c, x.X), r.T(c, x.Index)
		if key.Op == "rangekey" && len(key.Args) == 1 && key.Args[0].String() == m.String() && !x.CommaOk {
			return &Term{Op: "index", Args: []*Term{m, {Op: "opaque", Sym: "*"}}} // the value of the entry a loop is at
		}
		return &Term{Op: "lookup", Args: []*Term{m, key}}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			t := r.T(c, x.X)
			// load of a struct field of a local composite: use the stored value if unique
			if f := r.localFieldStore(c, x.X); f != nil {
				return f
			}
			if t.Op == "alloc" {
				if al, ok := t.V.(*ssa.Alloc); ok {
					if vals := allStores(al); len(vals) > 0 && len(vals) <= 6 {
						return r.phi(t.Ctx, vals)
					}
				}
				return &Term{Op: "un", Sym: "*", Args: []*Term{t}}
			}
			return t
		}
		if x.Op == token.ARROW {
			return &Term{Op: "un", Sym: "<-", Args: []*Term{r.T(c, x.X)}}
		}
		return &Term{Op: "un", Sym: x.Op.String(), Args: []*Term{r.T(c, x.X)}}
	case *ssa.BinOp:
		return &Term{Op: "bin", Sym: x.Op.String(), Args: []*Term{r.T(c, x.X), r.T(c, x.Y)}}
	case *ssa.Convert:
		return r.T(c, x.X)
	case *ssa.MultiConvert:
		return r.T(c, x.X)
	case *ssa.SliceToArrayPointer:
		return r.T(c, x.X)
	case *ssa.TypeAssert:
		if x.CommaOk {
			return &Term{Op: "assert", Sym: "<" + typeShort(x.AssertedType) + ">", Args: []*Term{r.T(c, x.X)}}
		}
		return r.T(c, x.X)
	case *ssa.Slice:
		return &Term{Op: "slice", Sym: sliceKind(r, c, x), Args: []*Term{r.T(c, x.X)}}
	case *ssa.MakeSlice:
		if src := copiedFrom(x); src != nil {
			if t := r.T(c, src); len(t.Args) > 0 && r.T(c, x.Len).String() == "builtin.len("+t.String()+")" {
				return &Term{Op: "call", Sym: "slices.Clone", Args: []*Term{t}}
			}
		}
		return &Term{Op: "alloc", Sym: fmt.Sprintf("make:%s@%s#%s", typeShort(v.Type()), fnName(v.Parent()), v.Name())}
	case *ssa.MakeMap, *ssa.MakeChan:
		return &Term{Op: "alloc", Sym: fmt.Sprintf("make:%s@%s#%s", typeShort(v.Type()), fnName(v.Parent()), v.Name())}
	case *ssa.Range:
		return &Term{Op: "range", Args: []*Term{r.T(c, x.X)}}
	case *ssa.Next:
		return &Term{Op: "next", Args: []*Term{r.T(c, x.Iter)}}
	case *ssa.Extract:
		t := r.T(c, x.Tuple)
		switch t.Op {
		case "next":
			if x.Index == 1 {
				return &Term{Op: "rangekey", Args: t.Args[0].Args}
			}
			if x.Index == 2 {
				return &Term{Op: "index", Args: []*Term{t.Args[0].Args[0], {Op: "opaque", Sym: "*"}}}
			}
		case "lookup":
			if x.Index == 0 {
				return t
			}
		case "assert":
			if x.Index == 0 {
				return t.Args[0]
			}
		case "tuple":
			if x.Index < len(t.Args) {
				return t.Args[x.Index]
			}
		case "phi":
			return r.mapPhi(t, func(a *Term) *Term {
				if a.Op == "tuple" && x.Index < len(a.Args) {
					return a.Args[x.Index]
				}
				return &Term{Op: "ext", Sym: fmt.Sprint(x.Index), Args: []*Term{a}}
			})
		}
		return &Term{Op: "ext", Sym: fmt.Sprint(x.Index), Args: []*Term{t}}
	case *ssa.Phi:
		return r.phi(c, x.Edges)
	case *ssa.Call:
		return r.callTerm(c, x)
	case *ssa.Select:
		return &Term{Op: "opaque", Sym: "select"}
	}
	return &Term{Op: "opaque", Sym: fmt.Sprintf("?%T", v)}
}

func (r *Resolver) mapPhi(t *Term, f func(*Term) *Term) *Term {
	out := &Term{Op: "phi"}
	seen := map[string]bool{}
	for _, a := range t.Alts() {
		m := f(a)
		if !seen[m.String()] {
			seen[m.String()] = true
			out.Args = append(out.Args, m)
		}
	}
	if len(out.Args) == 1 {
		return out.Args[0]
	}
	return out
}

func (r *Resolver) idx(c *Ctx, v ssa.Value) *Term {
	if k, ok := v.(*ssa.Const); ok {
		return r.T(c, k)
	}
	_, nv := r.norm(c, v)
	if k, ok := nv.(*ssa.Const); ok {
		return r.T(c, k)
	}
	return &Term{Op: "opaque", Sym: "*"}
}

func (r *Resolver) phi(c *Ctx, vals []ssa.Value) *Term {
	out := &Term{Op: "phi"}
	seen := map[string]bool{}
	for _, e := range vals {
		t := r.T(c, e)
		for _, a := range t.Alts() {
			if a.Op == "opaque" && a.Sym == "…" {
				continue
			}
			if !seen[a.String()] {
				seen[a.String()] = true
				out.Args = append(out.Args, a)
			}
		}
	}
	if len(out.Args) == 1 {
		return out.Args[0]
	}
	if len(out.Args) == 0 {
		return &Term{Op: "opaque", Sym: "…"}
	}
	return out
}

// structCopy: a local struct variable that is only ever a copy of one value (a spilled parameter,
// a loop variable): the value copied.
func structCopy(a *ssa.Alloc) ssa.Value {
	pt, ok := a.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); !ok || a.Referrers() == nil {
		return nil
	}
	var val ssa.Value
	var reads func(refs *[]ssa.Instruction) bool
	reads = func(refs *[]ssa.Instruction) bool {
		if refs == nil {
			return true
		}
		for _, ref := range *refs {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
			case *ssa.FieldAddr:
				if !reads(x.Referrers()) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(a) || val != nil {
				return nil
			}
			val = x.Val
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
		case *ssa.FieldAddr:
			if !reads(x.Referrers()) {
				return nil
			}
		default:
			return nil
		}
	}
	return val
}

func allStores(a *ssa.Alloc) []ssa.Value {
	var vals []ssa.Value
	if a.Referrers() == nil {
		return nil
	}
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(a) {
				vals = append(vals, x.Val)
			}
		case *ssa.MakeClosure:
			fn, ok := x.Fn.(*ssa.Function)
			if !ok {
				return nil
			}
			for i, b := range x.Bindings {
				if b == ssa.Value(a) && i < len(fn.FreeVars) && fn.FreeVars[i].Referrers() != nil {
					for _, r2 := range *fn.FreeVars[i].Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(fn.FreeVars[i]) {
							return nil // stored from a closure: not described here
						}
					}
				}
			}
		}
	}
	return vals
}

// localFieldStore resolves a load of field f of a local struct variable or composite literal that
// has exactly one store to that field.
func (r *Resolver) localFieldStore(c *Ctx, addr ssa.Value) *Term {
	c, addr = r.norm(c, addr)
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	bc, base := r.norm(c, fa.X)
	al, ok := base.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var val ssa.Value
	n := 0
	for _, ref := range *al.Referrers() {
		switch y := ref.(type) {
		case *ssa.FieldAddr:
			if y.Field == fa.Field && y.Referrers() != nil {
				for _, r2 := range *y.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
						n++
						val = s.Val
					}
				}
			}
		case *ssa.Store:
			if y.Addr == ssa.Value(al) {
				return nil
			}
		}
	}
	if n != 1 {
		return nil
	}
	return r.T(bc, val)
}

type target struct {
	fn    *ssa.Function
	mc    *ssa.MakeClosure
	mcCtx *Ctx
}

// callee resolves the function a call enters, through context.
func (r *Resolver) callee(c *Ctx, call *ssa.CallCommon) *target {
	if call.IsInvoke() {
		_, v := r.norm(c, call.Value)
		// norm strips MakeInterface: a concrete named type here identifies the method
		t := v.Type()
		if types.IsInterface(t) {
			return nil
		}
		ms := r.pr.SSA.MethodSets.MethodSet(t)
		sel := ms.Lookup(call.Method.Pkg(), call.Method.Name())
		if sel == nil {
			return nil
		}
		fn := r.pr.SSA.MethodValue(sel)
		if fn == nil {
			return nil
		}
		return &target{fn: fn}
	}
	if mc, ok := call.Value.(*ssa.MakeClosure); ok {
		return &target{fn: mc.Fn.(*ssa.Function), mc: mc, mcCtx: c}
	}
	if f := call.StaticCallee(); f != nil {
		return &target{fn: f}
	}
	return r.funcValue(c, call.Value)
}

func (r *Resolver) funcValue(c *Ctx, v ssa.Value) *target {
	cc, w := r.norm(c, v)
	switch f := w.(type) {
	case *ssa.MakeClosure:
		return &target{fn: f.Fn.(*ssa.Function), mc: f, mcCtx: cc}
	case *ssa.Function:
		return &target{fn: f}
	case *ssa.Call:
		// a module function that returns one function
		tg := r.callee(cc, f.Common())
		if tg == nil || tg.fn.Blocks == nil || !inModule(tg.fn) || f.Common().IsInvoke() || (cc != nil && (cc.onStack(tg.fn) || cc.depth > 8)) {
			return nil
		}
		if vs := returnedValues(tg.fn, 0); len(vs) == 1 && tg.fn.Signature.Results().Len() == 1 {
			return r.funcValue(r.ctx(cc, f, nil, tg.fn, tg.mc, tg.mcCtx), vs[0])
		}
	}
	return nil
}

// calleeName names a call's target through context.
func (r *Resolver) calleeName(c *Ctx, call *ssa.CallCommon) string {
	if call.IsInvoke() {
		return ifaceMethodName(call)
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if t := r.callee(c, call); t != nil {
		return fnName(t.fn)
	}
	return "dyn:" + r.T(c, call.Value).String()
}

func callArgs(call *ssa.CallCommon) []ssa.Value {
	if call.IsInvoke() {
		return append([]ssa.Value{call.Value}, call.Args...)
	}
	return call.Args
}

func (r *Resolver) callTerm(c *Ctx, x *ssa.Call) *Term {
	com := x.Common()
	name := r.calleeName(c, com)
	t := &Term{Op: "call", Sym: name}
	for _, a := range callArgs(com) {
		t.Args = append(t.Args, r.T(c, a))
	}
	// look through small module helpers: the term of a call is the term of what it returns
	if tg := r.callee(c, com); tg != nil && tg.fn.Blocks != nil && inModule(tg.fn) && !keepCall[name] {
		depth := 0
		if c != nil {
			depth = c.depth
		}
		if tg.fn.Object() != nil && !tg.fn.Object().Exported() || tg.fn.Parent() != nil {
			if len(tg.fn.Blocks) <= r.maxBlocks && depth < 8 && (c == nil || !c.onStack(tg.fn)) {
				if rt := r.returnTerm(c, x, tg); rt != nil {
					return rt
				}
			}
		}
	}
	return t
}

// keepCall lists helpers whose calls are anchors of a rule and must stay visible in terms.
var keepCall = map[string]bool{}

// returnedValues: what a function can return as result i. By convention a zero value accompanying an
// error is no result.
func returnedValues(f *ssa.Function, i int) []ssa.Value {
	n := f.Signature.Results().Len()
	var all, good []ssa.Value
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != n {
			continue
		}
		v := ret.Results[i]
		all = append(all, v)
		if c, ok := v.(*ssa.Const); ok && c.Value == nil && i < n-1 && errResult(f.Signature) == n-1 {
			if e, ok := ret.Results[n-1].(*ssa.Const); !ok || e.Value != nil {
				continue
			}
		}
		good = append(good, v)
	}
	if len(good) == 0 {
		return all
	}
	return good
}

// origin follows a value to where it was made, through variables, parameters and the results of
// helpers that return one value.
func (r *Resolver) origin(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	for i := 0; i < 10; i++ {
		c, v = r.norm(c, v)
		idx := 0
		call, ok := v.(*ssa.Call)
		if e, isExt := v.(*ssa.Extract); isExt {
			call, ok = e.Tuple.(*ssa.Call)
			idx = e.Index
		}
		if !ok {
			return c, v
		}
		tg := r.callee(c, call.Common())
		if tg == nil || tg.fn.Blocks == nil || !inModule(tg.fn) || c.onStack(tg.fn) || tg.fn.Object() != nil && tg.fn.Object().Exported() {
			return c, v
		}
		vals := returnedValues(tg.fn, idx)
		for _, w := range vals {
			if w != vals[0] {
				return c, v
			}
		}
		if len(vals) == 0 {
			return c, v
		}
		c, v = r.ctx(c, call, nil, tg.fn, tg.mc, tg.mcCtx), vals[0]
	}
	return c, v
}

func (r *Resolver) returnTerm(c *Ctx, site ssa.CallInstruction, tg *target) *Term {
	cc := r.ctx(c, site, nil, tg.fn, tg.mc, tg.mcCtx)
	n := tg.fn.Signature.Results().Len()
	if n == 0 {
		return nil
	}
	cols := make([][]ssa.Value, n)
	for i := range cols {
		cols[i] = returnedValues(tg.fn, i)
	}
	if len(cols[0]) == 0 {
		return nil
	}
	if n == 1 {
		return r.phi(cc, cols[0])
	}
	t := &Term{Op: "tuple"}
	for i := range cols {
		t.Args = append(t.Args, r.phi(cc, cols[i]))
	}
	return t
}

// sliceKind: "" if the slice expression keeps every element, "empty" for x[:0], "part" otherwise.
func sliceKind(r *Resolver, c *Ctx, x *ssa.Slice) string {
	if x.Low != nil {
		if t := r.T(c, x.Low); t.Sym != "0" {
			return "part"
		}
	}
	if x.High != nil {
		t := r.T(c, x.High)
		switch {
		case t.Op == "const" && t.Sym == "0":
			return "empty"
		case t.Op == "call" && t.Sym == "builtin.len" && t.Args[0].String() == r.T(c, x.X).String():
		case t.Op == "const":
			// the whole of an array
			if a, ok := deref(x.X.Type()).Underlying().(*types.Array); !ok || t.Sym != strconv.FormatInt(a.Len(), 10) {
				return "part"
			}
		default:
			return "part"
		}
	}
	return ""
}

// partOf: t iterates over, or holds, only some of the elements of what satisfies pred.
func partOf(t *Term, pred func(*Term) bool) bool {
	return t.Has(func(x *Term) bool { return x.Op == "slice" && x.Sym == "part" && x.Args[0].Has(pred) })
}

// copiedFrom: the list is made to hold a copy of another one, and filled in no other way.
func copiedFrom(m *ssa.MakeSlice) ssa.Value {
	var src ssa.Value
	if m.Referrers() == nil {
		return nil
	}
	for _, in := range *m.Referrers() {
		switch x := in.(type) {
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "copy" {
				continue
			}
			if x.Call.Args[0] != ssa.Value(m) || src != nil {
				return nil
			}
			src = x.Call.Args[1]
		case *ssa.IndexAddr:
			if x.Referrers() == nil {
				return nil
			}
			for _, u := range *x.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					return nil
				}
			}
		}
	}
	return src
}
