package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive provenance: with Rule.Flow the explorer remembers, for every variable merged from
// several assignments and every result of an entered helper, which value it holds on the current
// path.

const (
	flowIdx = -2 // where the value came from
	contIdx = -3 // where the content of a local variable came from
	labIdx  = -5 // a label given by the rule
	// fields of a local struct: fieldIdx - number
	fieldIdx = -100
)

func (s *St) forgetFlow(v ssa.Value) {
	delete(s.env, envKey{s.Ctx.id, v, flowIdx})
	delete(s.env, envKey{s.Ctx.id, v, labIdx})
	if _, ok := v.(*ssa.Alloc); ok {
		delete(s.env, envKey{s.Ctx.id, v, contIdx})
	}
	for i := 0; i < 4; i++ {
		delete(s.env, envKey{s.Ctx.id, v, -(10 + i)})
	}
	s.dropFields(s.Ctx, v)
}

func structOf(t types.Type) *types.Struct {
	st, _ := deref(t).Underlying().(*types.Struct)
	return st
}

func (s *St) dropFields(c *Ctx, v ssa.Value) {
	if st := structOf(v.Type()); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			delete(s.env, envKey{c.id, v, fieldIdx - i})
		}
	}
}

// storeField records a store to (a field of) a local struct.
func (s *St) storeField(c *Ctx, addr ssa.Value, val ssa.Value) {
	switch a := addr.(type) {
	case *ssa.Alloc:
		s.dropFields(c, a)
	case *ssa.FieldAddr:
		cc, b := s.RootIn(c, a.X)
		if al, ok := b.(*ssa.Alloc); ok {
			s.env[envKey{cc.id, al, fieldIdx - a.Field}] = s.flowOf(s.Ctx, val)
		}
	}
}

// loadStruct records what the fields of a struct read from a local variable are; it reports whether
// the variable has fields that were set one by one.
func (s *St) loadStruct(c *Ctx, al *ssa.Alloc, v ssa.Value) bool {
	st := structOf(v.Type())
	if _, ptr := v.Type().Underlying().(*types.Pointer); ptr || st == nil {
		return false
	}
	own := false
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := s.env[envKey{c.id, al, fieldIdx - i}]; ok {
			own = true
		}
	}
	if !own {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := s.fieldIn(c, al, i)
		if f == "" && onlyFields(al) {
			// never set on this path
			f = s.flowOf(c, s.x.zeroOf(st.Field(i).Type()))
		}
		if f != "" {
			s.env[envKey{s.Ctx.id, v, fieldIdx - i}] = f
		}
	}
	return true
}

// onlyFields: the local struct is filled field by field, and read, but never handed on by address.
func onlyFields(al *ssa.Alloc) bool {
	if al.Referrers() == nil {
		return false
	}
	for _, ref := range *al.Referrers() {
		switch r := ref.(type) {
		case *ssa.FieldAddr:
			if r.Referrers() == nil {
				continue
			}
			for _, r2 := range *r.Referrers() {
				switch q := r2.(type) {
				case *ssa.Store:
					if q.Addr != ssa.Value(r) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// zeroOf is the zero value of a type, the same one every time.
func (x *Explorer) zeroOf(t types.Type) ssa.Value {
	key := t.String()
	if c, ok := x.zeros[key]; ok {
		return c
	}
	if x.zeros == nil {
		x.zeros = map[string]ssa.Value{}
	}
	c := ssa.NewConst(nil, t)
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			c = ssa.NewConst(constant.MakeString(""), t)
		case b.Info()&types.IsBoolean != 0:
			c = ssa.NewConst(constant.MakeBool(false), t)
		case b.Info()&types.IsNumeric != 0:
			c = ssa.NewConst(constant.MakeInt64(0), t)
		}
	}
	x.zeros[key] = c
	return c
}

// fieldIn is what field f of the struct (or local variable) v is on this path: a value, or the field
// of another struct ("L:").
func (s *St) fieldIn(c *Ctx, v ssa.Value, f int) AVal {
	moved := false
	for i := 0; i < 20; i++ {
		cc, w := s.RootIn(c, v)
		if cc != c || w != v {
			c, v, moved = cc, w, true
		}
		if a, ok := s.env[envKey{c.id, v, fieldIdx - f}]; ok {
			return a
		}
		al, ok := v.(*ssa.Alloc)
		if !ok {
			break
		}
		if a, ok := s.env[envKey{c.id, al, contIdx}]; ok {
			c, v = s.root(a)
			moved = true
			continue
		}
		sv := singleStore(al)
		if sv == nil {
			sv = wholeStore(al)
		}
		if sv == nil {
			break
		}
		c, v = s.RootIn(c, sv)
		moved = true
	}
	if _, ok := v.(*ssa.Alloc); ok || !moved {
		return ""
	}
	if _, ptr := v.Type().Underlying().(*types.Pointer); ptr {
		return ""
	}
	return AVal(fmt.Sprintf("L:%s:%d", string(s.x.rootKey(c, v))[2:], f))
}

// wholeStore is the only value stored to a local struct as a whole.
func wholeStore(al *ssa.Alloc) ssa.Value {
	if al.Referrers() == nil {
		return nil
	}
	var r ssa.Value
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if r != nil {
				return nil
			}
			r = st.Val
		}
	}
	return r
}

func (x *Explorer) rootKey(c *Ctx, v ssa.Value) AVal {
	k := ctxVal{c, v}
	if x.rootID == nil {
		x.rootID = map[ctxVal]int{}
	}
	id, ok := x.rootID[k]
	if !ok {
		id = len(x.roots)
		x.roots = append(x.roots, k)
		x.rootID[k] = id
	}
	return AVal(fmt.Sprintf("v:%d", id))
}

func (s *St) flowOf(c *Ctx, v ssa.Value) AVal {
	if !s.x.rule.Flow {
		return ""
	}
	rc, rv := s.RootIn(c, v)
	return s.x.rootKey(rc, rv)
}

// Root is the value v stands for on this path.
func (s *St) Root(v ssa.Value) (*Ctx, ssa.Value) { return s.RootIn(s.Ctx, v) }

func (s *St) RootIn(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	for i := 0; i < 20; i++ {
		// step by step, since a recorded choice takes precedence over what norm would assume
		if f, ok := s.env[envKey{c.id, v, flowIdx}]; ok {
			if f[0] == 'L' {
				return c, v
			}
			return s.root(f)
		}
		switch y := v.(type) {
		case *ssa.ChangeType:
			v = y.X
			continue
		case *ssa.ChangeInterface:
			v = y.X
			continue
		case *ssa.MakeInterface:
			v = y.X
			continue
		case *ssa.TypeAssert:
			if !y.CommaOk && s.x.rule.Asserts {
				v = y.X
				continue
			}
			return c, v
		case *ssa.Extract:
			if ta, ok := y.Tuple.(*ssa.TypeAssert); ok && y.Index == 0 && s.x.rule.Asserts {
				v = ta.X
				continue
			}
			if f, ok := s.env[envKey{c.id, y.Tuple, -(10 + y.Index)}]; ok {
				return s.root(f)
			}
			return c, v
		case *ssa.UnOp:
			if y.Op == token.MUL {
				cc, p := s.x.R.norm(c, y.X)
				if al, ok := p.(*ssa.Alloc); ok {
					if sv := singleStore(al); sv != nil {
						c, v = cc, sv
						continue
					}
				}
			}
			return c, v
		case *ssa.Parameter:
			if c != nil && y.Parent() == c.fn && c.site != nil {
				if a := actual(c, paramIndex(y)); a != nil {
					c, v = c.parent, a
					continue
				}
			}
			return c, v
		case *ssa.FreeVar:
			cc, w := s.x.R.norm(c, v)
			if w == v {
				return c, v
			}
			c, v = cc, w
			continue
		}
		return c, v
	}
	return c, v
}

func (s *St) root(f AVal) (*Ctx, ssa.Value) {
	var id int
	fmt.Sscanf(string(f), "v:%d", &id)
	r := s.x.roots[id]
	return r.c, r.v
}

// PT is the term of the value v stands for on this path.
func (s *St) PT(v ssa.Value) *Term {
	return s.PTIn(s.Ctx, v)
}

func (s *St) PTIn(c *Ctx, v ssa.Value) *Term {
	r := s.x.R
	cache, path := r.cache, r.path
	if path == nil {
		r.cache, r.path = map[tkey]*Term{}, s
	}
	t := r.T(c, v)
	r.cache, r.path = cache, path
	return t
}

// RetPT is PT of result i of a return.
func (s *St) RetPT(ret *ssa.Return, i int) *Term { return s.PT(s.retVal(ret, i)) }

func (s *St) retVal(ret *ssa.Return, i int) ssa.Value {
	if i < 0 {
		i += len(ret.Results)
	}
	v := ret.Results[i]
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			b := ret.Block()
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				if st, ok := b.Instrs[j].(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					return st.Val
				}
			}
		}
	}
	return v
}

// Lab is the label given to the value v stands for; SetLab gives one.
func (s *St) Lab(v ssa.Value) string {
	c, w := s.Root(v)
	return string(s.env[envKey{c.id, w, labIdx}])
}

func (s *St) SetLab(v ssa.Value, l string) {
	c, w := s.Root(v)
	if l == "" {
		delete(s.env, envKey{c.id, w, labIdx})
		return
	}
	s.env[envKey{c.id, w, labIdx}] = AVal(l)
}

// lazyField is the term of a value that is known to be a field of another struct on this path.
func (s *St) lazyField(c *Ctx, v ssa.Value) *Term {
	if c == nil {
		return nil
	}
	a := s.env[envKey{c.id, v, flowIdx}]
	if a == "" || a[0] != 'L' {
		return nil
	}
	var id, f int
	fmt.Sscanf(string(a), "L:%d:%d", &id, &f)
	b := s.x.roots[id]
	return &Term{Op: "field", Sym: fieldName(b.v.Type(), f), Args: []*Term{s.x.R.T(b.c, b.v)}}
}
