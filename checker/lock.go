package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guardSpec says which fields of a type are protected by which mutex field of the same object.
type guardSpec struct {
	typ    string // pkg.Type
	mutex  string
	fields []string
	// class: the mutex belongs to another object; any held lock of this class (pkg.Type.field) counts
	class string
	// atomicRMW: fields of type atomic.Value whose Store must happen under the mutex
	atomicStore []string
}

func (g *guardSpec) guards(f string) bool {
	for _, x := range g.fields {
		if x == f {
			return true
		}
	}
	return false
}

type lockRule struct {
	k        *K
	specs    map[string]*guardSpec
	pkgs     map[string]bool
	rel      map[*ssa.Function]bool
	order    map[string]map[string]string // lock class -> lock class acquired while held -> where
	exempt   map[string]string            // construct -> reason
	hits     map[string]int               // accesses per type.field
	internal map[string]bool              // exported steps that run only with the lock held
}

func isMutexType(t types.Type) bool {
	s := typeShort(deref(t))
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// lock operations on a mutex, by stable callee name
var lockOps = map[string]string{
	"sync.Mutex.Lock": "W", "sync.RWMutex.Lock": "W", "sync.RWMutex.RLock": "R",
	"sync.Mutex.Unlock": "-W", "sync.RWMutex.Unlock": "-W", "sync.RWMutex.RUnlock": "-R",
	"sync.Locker.Lock": "W", "sync.Locker.Unlock": "-W",
}

type held map[string]string // lock term -> mode

func parseHeld(a string) held {
	h := held{}
	for _, p := range strings.Split(a, "\x01") {
		if p != "" {
			h[p[1:]] = p[:1]
		}
	}
	return h
}

func (h held) String() string {
	var p []string
	for k, m := range h {
		p = append(p, m+k)
	}
	sort.Strings(p)
	return strings.Join(p, "\x01")
}

func (h held) pretty() string {
	if len(h) == 0 {
		return "no lock"
	}
	var p []string
	for k, m := range h {
		p = append(p, m+":"+k)
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

// checkLocks decides, for the given types, that guarded fields are only touched with their mutex
// held in the right mode, that locks are released on every exit, and never taken twice.
func checkLocks(k *K, pkgs []string, specs []*guardSpec, internal ...string) {
	lr := &lockRule{k: k, specs: map[string]*guardSpec{}, pkgs: map[string]bool{}, order: map[string]map[string]string{}, hits: map[string]int{}, internal: map[string]bool{}}
	for _, n := range internal {
		lr.internal[n] = true
	}
	for _, p := range pkgs {
		lr.pkgs[modPath+"/"+p] = true
	}
	for _, g := range specs {
		nt := k.named(g.typ)
		if nt == nil {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			k.fail("anchor", g.typ, "", "not a struct")
			continue
		}
		have := map[string]types.Type{}
		for i := 0; i < st.NumFields(); i++ {
			have[st.Field(i).Name()] = st.Field(i).Type()
		}
		if t := have[g.mutex]; g.class == "" && (t == nil || !isMutexType(t)) {
			k.fail("anchor", g.typ+"."+g.mutex, "", "no mutex field %s in %s", g.mutex, g.typ)
			continue
		}
		for _, f := range append(append([]string{}, g.fields...), g.atomicStore...) {
			if have[f] == nil {
				k.fail("anchor", g.typ+"."+f, "", "no field %s in %s", f, g.typ)
			}
		}
		lr.specs[g.typ] = g
	}
	lr.computeRelevant()
	roots := lr.roots()
	entered := map[*ssa.Function]bool{}
	run := func(f *ssa.Function) {
		x := k.explore(lr.rule(f))
		x.Run(f, "")
		k.done(x, "lock discipline", fnName(f))
		k.ok("lock discipline", fnName(f), k.pr.pos(f.Pos()))
		for g := range x.Funcs {
			entered[g] = true
		}
	}
	for _, f := range roots {
		run(f)
	}
	// whatever was not entered from a root (escaping closures, functions used as values) is a root
	for _, f := range k.pr.Funcs {
		if lr.rel[f] && lr.inScope(f) && !entered[f] && f.Synthetic == "" {
			run(f)
		}
	}
	// lock order
	for a, m := range lr.order {
		for b, where := range m {
			if lr.reaches(b, a, map[string]bool{}) {
				k.fail("lock order", a+" -> "+b, where, "locks %s and %s are acquired in both orders (deadlock): %s is taken at %s while holding %s", a, b, b, where, a)
			} else {
				k.ok("lock order", a+" -> "+b, where)
			}
		}
	}
	for t, g := range lr.specs {
		for _, f := range g.fields {
			if lr.hits[t+"."+f] == 0 {
				k.fail("instances", t+"."+f, "", "no access to guarded field %s.%s was seen", t, f)
			}
		}
	}
}

func (lr *lockRule) reaches(from, to string, seen map[string]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	for n := range lr.order[from] {
		if lr.reaches(n, to, seen) {
			return true
		}
	}
	return false
}

func (lr *lockRule) inScope(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && lr.pkgs[p.Path()]
}

// relevant functions: those that (transitively) touch a guarded field or a mutex
func (lr *lockRule) computeRelevant() {
	lr.rel = map[*ssa.Function]bool{}
	for _, f := range lr.k.pr.Funcs {
		if !lr.inScope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.FieldAddr:
					t := typeShort(deref(y.X.Type()))
					if g := lr.specs[t]; g != nil {
						fn := fieldName(y.X.Type(), y.Field)
						if fn == g.mutex || g.guards(fn) {
							lr.rel[f] = true
						}
						for _, a := range g.atomicStore {
							if a == fn {
								lr.rel[f] = true
							}
						}
					}
				case *ssa.Send, *ssa.Select:
					lr.rel[f] = true
				case *ssa.UnOp:
					if y.Op == token.ARROW {
						lr.rel[f] = true
					}
				case ssa.CallInstruction:
					if _, ok := lockOps[calleeName(y.Common())]; ok {
						lr.rel[f] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range lr.k.pr.Funcs {
			if lr.rel[f] || !lr.inScope(f) {
				continue
			}
			hit := false
			for _, a := range f.AnonFuncs {
				if lr.rel[a] {
					hit = true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && lr.rel[g] {
							hit = true
						}
					}
				}
			}
			if hit {
				lr.rel[f] = true
				changed = true
			}
		}
	}
}

func (lr *lockRule) roots() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range lr.k.pr.Funcs {
		if !lr.rel[f] || !lr.inScope(f) || f.Synthetic != "" {
			continue
		}
		if f.Parent() != nil {
			if usedInGo(f) {
				r = append(r, f)
			}
			continue
		}
		exported := f.Object() != nil && f.Object().Exported() && !lr.internal[fnName(f)]
		if exported || len(lr.k.pr.callers[f]) == 0 || usedInGoStatic(lr.k.pr, f) {
			r = append(r, f)
		}
	}
	return r
}

func usedInGo(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok {
				switch v := g.Call.Value.(type) {
				case *ssa.MakeClosure:
					if v.Fn == f {
						return true
					}
				case *ssa.Function:
					if v == f {
						return true
					}
				}
			}
		}
	}
	return false
}

func usedInGoStatic(pr *Program, f *ssa.Function) bool {
	for _, c := range pr.callers[f] {
		if _, ok := c.(*ssa.Go); ok {
			return true
		}
	}
	return false
}

func (lr *lockRule) rule(root *ssa.Function) *Rule {
	k := lr.k
	report := func(s *St, rule string, in ssa.Instruction, format string, a ...any) {
		c := fnName(in.Parent())
		if rule == "" {
			rule = "lock discipline"
		}
		k.fail(rule, c, k.pr.at(in), "%s (entry point %s; path %s)", fmt.Sprintf(format, a...), fnName(root), s.Trace())
	}
	lockTerm := func(s *St, v ssa.Value) *Term { return s.T(v) }

	// need checks an access to base.field
	need := func(s *St, in ssa.Instruction, base *Term, typ, field string, write bool) {
		g := lr.specs[typ]
		if g == nil || !g.guards(field) {
			return
		}
		if base.Op == "alloc" && strings.HasPrefix(base.Sym, "new:") {
			return // object under construction, not shared yet
		}
		lr.hits[typ+"."+field]++
		h := parseHeld(s.Auto)
		m := h[base.String()+"."+g.mutex]
		lockName := base.String() + "." + g.mutex
		if g.class != "" {
			m = ""
			lockName = g.class
			for t, mode := range h {
				if classOf[t] == g.class && (m == "" || mode == "W") {
					m = mode
				}
			}
		}
		what := "read"
		if write {
			what = "written"
		}
		if m == "" || write && m == "R" {
			report(s, "guarded field", in, "%s.%s is %s at %s holding %s; it needs %s%s", typ, field, what, k.pr.at(in), h.pretty(), lockName,
				map[bool]string{true: " (exclusively)", false: ""}[write])
		} else {
			k.ok("guarded field", fnName(in.Parent()), k.pr.at(in))
		}
	}
	// the guarded field a term denotes
	fieldOf := func(t *Term) (base *Term, typ, field string) {
		if t.Op != "field" {
			return nil, "", ""
		}
		var xt types.Type
		switch v := t.V.(type) {
		case *ssa.FieldAddr:
			xt = v.X.Type()
		case *ssa.Field:
			xt = v.X.Type()
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				xt = fa.X.Type()
			}
		}
		if xt == nil {
			return nil, "", ""
		}
		return t.Args[0], typeShort(deref(xt)), t.Sym
	}
	// element of a guarded map/slice (any depth)
	container := func(t *Term) *Term {
		for t != nil && (t.Op == "index" || t.Op == "lookup" || t.Op == "slice") {
			t = t.Args[0]
		}
		return t
	}

	access := func(s *St, in ssa.Instruction, v ssa.Value, write bool) {
		t := container(s.T(v))
		for _, a := range t.Alts() {
			if b, typ, f := fieldOf(container(a)); b != nil {
				need(s, in, b, typ, f, write)
			}
		}
	}

	blocking := func(s *St, in ssa.Instruction, what string) {
		if h := parseHeld(s.Auto); len(h) > 0 {
			report(s, "blocking under lock", in, "%s at %s %s while holding %s: every other user of the lock waits with it", fnName(in.Parent()), k.pr.at(in), what, h.pretty())
		} else {
			k.ok("blocking under lock", fnName(in.Parent()), k.pr.at(in))
		}
	}

	r := &Rule{MaxDepth: 7, MaxStates: 300000}
	r.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return lr.rel[callee] && lr.inScope(callee)
	}
	r.Call = func(s *St, call ssa.CallInstruction, name string) {
		com := call.Common()
		if op, ok := lockOps[name]; ok {
			args := callArgs(com)
			if len(args) == 0 {
				return
			}
			lt := lockTerm(s, args[0])
			key := lt.String()
			h := parseHeld(s.Auto)
			cur := h[key]
			switch op {
			case "W":
				if cur != "" {
					report(s, "lock balance", call, "%s is locked while already held (%s): self-deadlock", key, cur)
				}
				lr.noteOrder(s, h, lt, call)
				h[key] = "W"
			case "R":
				if cur == "W" {
					report(s, "lock balance", call, "%s is read-locked while held exclusively: self-deadlock", key)
				}
				lr.noteOrder(s, h, lt, call)
				if cur == "" {
					h[key] = "R"
				}
			case "-W":
				if cur != "W" {
					report(s, "lock balance", call, "%s is unlocked while %s", key, heldAs(cur))
				}
				delete(h, key)
			case "-R":
				if cur != "R" {
					report(s, "lock balance", call, "%s is read-unlocked while %s", key, heldAs(cur))
				}
				delete(h, key)
			}
			s.Auto = h.String()
			return
		}
		if strings.HasPrefix(name, "builtin.") {
			switch name {
			case "builtin.delete", "builtin.clear":
				access(s, call, com.Args[0], true)
			case "builtin.copy":
				access(s, call, com.Args[0], true)
				access(s, call, com.Args[1], false)
			case "builtin.len":
				if _, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
					access(s, call, com.Args[0], false)
				}
			}
			return
		}
		if name == "atomic.Value.Store" || name == "atomic.Value.Swap" || name == "atomic.Value.CompareAndSwap" {
			if t := s.T(com.Args[0]); t.Op == "field" {
				if b, typ, f := fieldOf(t); b != nil {
					if g := lr.specs[typ]; g != nil {
						for _, a := range g.atomicStore {
							if a == f && !(b.Op == "alloc" && strings.HasPrefix(b.Sym, "new:")) {
								h := parseHeld(s.Auto)
								if h[b.String()+"."+g.mutex] != "W" {
									report(s, "guarded field", call, "%s.%s is replaced without holding %s.%s: concurrent updates are lost", typ, f, b, g.mutex)
								} else {
									k.ok("guarded field", fnName(call.Parent()), k.pr.at(call))
								}
							}
						}
					}
				}
			}
		}
		// maps.* helpers on guarded maps
		if strings.HasPrefix(name, "maps.") || strings.HasPrefix(name, "slices.") {
			for _, a := range com.Args {
				switch a.Type().Underlying().(type) {
				case *types.Map, *types.Slice:
				default:
					continue
				}
				access(s, call, a, name == "maps.Copy" && a == com.Args[0] || strings.HasPrefix(name, "maps.Delete"))
			}
		}
	}
	r.Instr = func(s *St, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if ia, ok := y.X.(*ssa.IndexAddr); ok {
					access(s, in, ia.X, false)
				}
				if fa, ok := y.X.(*ssa.FieldAddr); ok {
					need(s, in, s.T(fa.X), typeShort(deref(fa.X.Type())), fieldName(fa.X.Type(), fa.Field), false)
				}
			}
			if y.Op == token.ARROW {
				blocking(s, in, "receives from a channel")
			}
		case *ssa.Send:
			blocking(s, in, "sends on a channel")
		case *ssa.Select:
			if !y.Blocking {
				return
			}
			for _, c := range y.States {
				if s.T(c.Chan).HasCall("time.After") {
					return // bounded wait
				}
			}
			blocking(s, in, "waits in a select")
		case *ssa.Store:
			if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
				need(s, in, s.T(fa.X), typeShort(deref(fa.X.Type())), fieldName(fa.X.Type(), fa.Field), true)
			} else if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
				access(s, in, ia.X, true)
			}
		case *ssa.MapUpdate:
			access(s, in, y.Map, true)
		case *ssa.Lookup:
			if _, ok := y.X.Type().Underlying().(*types.Map); ok {
				access(s, in, y.X, false)
			}
		case *ssa.Range:
			access(s, in, y.X, false)
		case *ssa.Next:
			if rg, ok := y.Iter.(*ssa.Range); ok {
				access(s, in, rg.X, false)
			}
		}
	}
	r.Exit = func(s *St, ret *ssa.Return) {
		h := parseHeld(s.Auto)
		if len(h) > 0 {
			report(s, "lock balance", ret, "%s returns still holding %s", fnName(root), h.pretty())
		} else {
			k.ok("lock balance", fnName(root), k.pr.pos(root.Pos()))
		}
	}
	return r
}

func heldAs(m string) string {
	switch m {
	case "":
		return "it is not held"
	case "W":
		return "it is held exclusively"
	}
	return "it is held for reading"
}

func (lr *lockRule) noteOrder(s *St, h held, lt *Term, at ssa.Instruction) {
	cls := lockClass(lt)
	for _, other := range lr.heldClasses(h) {
		if other == cls {
			continue
		}
		if lr.order[other] == nil {
			lr.order[other] = map[string]string{}
		}
		lr.order[other][cls] = lr.k.pr.at(at)
	}
	classOf[lt.String()] = cls
}

var classOf = map[string]string{}

func (lr *lockRule) heldClasses(h held) []string {
	var r []string
	for t := range h {
		if c := classOf[t]; c != "" {
			r = append(r, c)
		}
	}
	sort.Strings(r)
	return r
}

// lockClass names the lock by the type that owns it.
func lockClass(t *Term) string {
	if t.Op == "field" {
		if fa, ok := t.V.(*ssa.FieldAddr); ok {
			return typeShort(deref(fa.X.Type())) + "." + t.Sym
		}
	}
	return t.String()
}
