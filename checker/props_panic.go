package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E02", "every instruction that can panic in the expression, pipeline and object packages (indexing, slicing, type assertion, allocation, division, reflection, nil pointers) is reached only on paths whose conditions exclude it", runE02)
}

// Freedom from run time panics: every instruction that can panic is reached only on paths on which
// the conditions taken so far exclude it. The facts a path has established are kept in the state:
//
//	lo:K:n   the integer K is at least n
//	hi:K:n   the integer K is at most n
//	lt:K:L   K < L           le:K:L   K <= L
//	nn:K     K is not nil    nil:K    K is nil     nz:K   K is not zero
//	ty:K:T   the dynamic type of K is T
//	is:K:n   the enumeration value K is n
//	has:K    the test K was true
//
// where a key stands for a value: the parameter, call or merge it comes from and the fields and
// elements on the way to it.
type panics struct {
	k    *K
	R    string
	x    *Explorer
	name string

	lives map[liveKey]bool
	ticks map[string]bool // fields that hold the period of a ticker
}

var panicKeyRepl = strings.NewReplacer(",", ";", "|", "/")

func (p *panics) key(s *St, v ssa.Value) string { return p.keyIn(s, s.Ctx, v, 0) }

func (p *panics) keyIn(s *St, c *Ctx, v ssa.Value, d int) string {
	if d > 12 {
		return "?"
	}
	c, v = s.RootIn(c, v)
	id := func(w ssa.Value) string { return panicKeyRepl.Replace(string(s.x.rootKey(c, w))) }
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value == nil {
			return "#nil"
		}
		return "#" + panicKeyRepl.Replace(y.Value.ExactString())
	case *ssa.ChangeType:
		return p.keyIn(s, c, y.X, d+1)
	case *ssa.ChangeInterface:
		return p.keyIn(s, c, y.X, d+1)
	case *ssa.MakeInterface:
		return p.keyIn(s, c, y.X, d+1)
	case *ssa.Convert:
		if isInt(y.Type()) && isInt(y.X.Type()) || types.Identical(y.Type().Underlying(), y.X.Type().Underlying()) {
			return p.keyIn(s, c, y.X, d+1)
		}
	case *ssa.Field:
		return p.keyIn(s, c, y.X, d+1) + "." + fieldName(y.X.Type(), y.Field)
	case *ssa.FieldAddr:
		return "&" + strings.TrimPrefix(p.keyIn(s, c, y.X, d+1), "&") + "." + fieldName(y.X.Type(), y.Field)
	case *ssa.Alloc:
		if w := wholeStore(y); w != nil {
			return "&" + p.keyIn(s, c, w, d+1)
		}
	case *ssa.IndexAddr:
		return "&" + p.keyIn(s, c, y.X, d+1) + "[" + p.keyIn(s, c, y.Index, d+1) + "]"
	case *ssa.UnOp:
		if y.Op == token.MUL {
			a := p.keyIn(s, c, y.X, d+1)
			if strings.HasPrefix(a, "&") {
				return a[1:]
			}
			return "*" + a
		}
		return y.Op.String() + p.keyIn(s, c, y.X, d+1)
	case *ssa.Lookup:
		if !y.CommaOk {
			return p.keyIn(s, c, y.X, d+1) + "[" + p.keyIn(s, c, y.Index, d+1) + "]"
		}
	case *ssa.BinOp:
		return "(" + p.keyIn(s, c, y.X, d+1) + y.Op.String() + p.keyIn(s, c, y.Y, d+1) + ")"
	case *ssa.Call:
		cm := y.Common()
		if b, ok := cm.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return b.Name() + "(" + p.keyIn(s, c, cm.Args[0], d+1) + ")"
		}
		switch n := s.x.R.calleeName(c, cm); n {
		case "reflect.ValueOf":
			return "rv(" + p.keyIn(s, c, cm.Args[0], d+1) + ")"
		case "reflect.Value.Kind":
			return "kind(" + p.keyIn(s, c, cm.Args[0], d+1) + ")"
		case "reflect.Value.Len":
			return "len(" + p.keyIn(s, c, cm.Args[0], d+1) + ")"
		case "reflect.Value.Index":
			return "at(" + p.keyIn(s, c, cm.Args[0], d+1) + ";" + p.keyIn(s, c, cm.Args[1], d+1) + ")"
		case "reflect.Value.Interface":
			a := p.keyIn(s, c, cm.Args[0], d+1)
			if strings.HasPrefix(a, "rv(") {
				return strings.TrimSuffix(a[3:], ")")
			}
			return "if(" + a + ")"
		}
	}
	return id(v)
}

func (p *panics) add(s *St, f string) {
	if strings.Contains(f, "?") {
		return
	}
	addFlag(s, f)
}

func (p *panics) has(s *St, f string) bool { return !strings.Contains(f, "?") && hasFlag(s, f) }

// best is the greatest (lowest) bound recorded for key.
func (p *panics) best(s *St, pfx, key string, low bool) (int64, bool) {
	if strings.Contains(key, "?") {
		return 0, false
	}
	var r int64
	ok := false
	for f := range parseFlags(s.Auto) {
		if !strings.HasPrefix(f, pfx+":"+key+":") && !strings.HasPrefix(f, "is:"+key+":") {
			continue
		}
		n, err := strconv.ParseInt(f[strings.Index(f, ":"+key+":")+len(key)+2:], 10, 64)
		if err != nil {
			continue
		}
		if !ok || low && n < r || !low && n > r {
			r, ok = n, true
		}
	}
	return r, ok
}

func constInt(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k.Value)
}

func (p *panics) constOf(s *St, v ssa.Value) (int64, bool) {
	_, w := s.Root(v)
	if cv, ok := w.(*ssa.Convert); ok {
		w = cv.X
	}
	return constInt(w)
}

// lo is a lower bound of an integer.
func (p *panics) lo(s *St, v ssa.Value) (int64, bool) { return p.loIn(s, s.Ctx, v, 0) }

func (p *panics) loIn(s *St, c *Ctx, v ssa.Value, d int) (int64, bool) {
	if d > 6 {
		return 0, false
	}
	c, w := s.RootIn(c, v)
	if n, ok := constInt(w); ok {
		return n, true
	}
	r, ok := p.best(s, "lo", p.keyIn(s, c, w, 0), false)
	better := func(n int64, k bool) {
		if k && (!ok || n > r) {
			r, ok = n, true
		}
	}
	switch y := w.(type) {
	case *ssa.Convert:
		if isInt(y.X.Type()) {
			better(p.loIn(s, c, y.X, d+1))
		}
	case *ssa.Call:
		if b, isB := y.Common().Value.(*ssa.Builtin); isB && b.Name() == "len" {
			better(p.minLenIn(s, c, y.Common().Args[0], d+1), true)
		}
		switch s.x.R.calleeName(c, y.Common()) {
		case "reflect.Value.Len", "rand.Intn", "rand.Int63n", "rand.Int", "rand.Int63":
			better(0, true)
		}
	case *ssa.BinOp:
		a, okA := p.loIn(s, c, y.X, d+1)
		switch y.Op {
		case token.ADD:
			if b, okB := p.loIn(s, c, y.Y, d+1); okA && okB {
				better(a+b, true)
			}
		case token.SUB:
			if h, okH := p.hiIn(s, c, y.Y, d+1); okA && okH {
				better(a-h, true)
			}
			ka, kb := p.keyIn(s, c, y.X, 0), p.keyIn(s, c, y.Y, 0)
			if b, okB := p.loIn(s, c, y.Y, d+1); !okB || b < 0 {
				break // may overflow
			}
			if p.has(s, "lt:"+kb+":"+ka) {
				better(1, true)
			}
			if p.has(s, "le:"+kb+":"+ka) {
				better(0, true)
			}
		}
	case *ssa.Phi:
		if from, up := countsUp(y); up {
			better(from, true)
		}
	}
	return r, ok
}

// leastConst: the least of the constants the value is one of.
func leastConst(v ssa.Value, d int) (int64, bool) {
	if n, ok := constInt(v); ok {
		return n, true
	}
	y, ok := v.(*ssa.Phi)
	if !ok || d > 3 {
		return 0, false
	}
	from, first := int64(0), true
	for _, e := range y.Edges {
		n, k := leastConst(e, d+1)
		if !k {
			return 0, false
		}
		if first || n < from {
			from, first = n, false
		}
	}
	return from, true
}

// countsUp: the loop variable starts at a constant and only grows.
func countsUp(y *ssa.Phi) (int64, bool) {
	from, ok := int64(0), false
	for _, e := range y.Edges {
		if n, k := leastConst(e, 0); k {
			if !ok || n < from {
				from, ok = n, true
			}
			continue
		}
		b, k := e.(*ssa.BinOp)
		if !k || b.Op != token.ADD || b.X != ssa.Value(y) {
			return 0, false
		}
		if n, k := constInt(b.Y); !k || n < 0 {
			return 0, false
		}
	}
	return from, ok
}

func (p *panics) hiIn(s *St, c *Ctx, v ssa.Value, d int) (int64, bool) {
	if d > 6 {
		return 0, false
	}
	c, w := s.RootIn(c, v)
	if n, ok := constInt(w); ok {
		return n, true
	}
	return p.best(s, "hi", p.keyIn(s, c, w, 0), true)
}

// minLen is the length a list, string or map has at least.
func (p *panics) minLen(s *St, v ssa.Value) int64 { return p.minLenIn(s, s.Ctx, v, 0) }

func (p *panics) minLenIn(s *St, c *Ctx, v ssa.Value, d int) int64 {
	if d > 6 {
		return 0
	}
	c, w := s.RootIn(c, v)
	r, _ := p.best(s, "lo", "len("+p.keyIn(s, c, w, 0)+")", false)
	better := func(n int64) {
		if n > r {
			r = n
		}
	}
	if a, ok := deref(w.Type()).Underlying().(*types.Array); ok {
		better(a.Len())
	}
	switch y := w.(type) {
	case *ssa.Const:
		if y.Value != nil && y.Value.Kind() == constant.String {
			better(int64(len(constant.StringVal(y.Value))))
		}
	case *ssa.MakeSlice:
		if n, ok := p.loIn(s, c, y.Len, d+1); ok {
			better(n)
		}
	case *ssa.ChangeType:
		better(p.minLenIn(s, c, y.X, d+1))
	case *ssa.BinOp:
		if y.Op == token.ADD { // concatenation
			better(p.minLenIn(s, c, y.X, d+1) + p.minLenIn(s, c, y.Y, d+1))
		}
	case *ssa.Slice:
		n := p.minLenIn(s, c, y.X, d+1)
		if y.High != nil {
			h, ok := constInt(y.High)
			if !ok {
				break
			}
			n = h
		}
		if y.Low != nil {
			l, ok := constInt(y.Low)
			if !ok {
				break
			}
			n -= l
		}
		better(n)
	case *ssa.Call:
		cm := y.Common()
		if b, ok := cm.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(cm.Args) == 2 {
			better(p.minLenIn(s, c, cm.Args[0], d+1) + p.minLenIn(s, c, cm.Args[1], d+1))
		}
		switch s.x.R.calleeName(c, cm) {
		case "strings.Split":
			if p.minLenIn(s, c, cm.Args[1], d+1) > 0 {
				better(1)
			}
		case "strings.SplitN":
			if n, ok := constInt(cm.Args[2]); ok && n > 0 && p.minLenIn(s, c, cm.Args[1], d+1) > 0 {
				better(1)
			}
		}
	}
	return r
}

// lens are the keys of lengths the list is at least as long as.
func (p *panics) lens(s *St, c *Ctx, v ssa.Value, d int) []string {
	if d > 6 {
		return nil
	}
	c, w := s.RootIn(c, v)
	k := p.keyIn(s, c, w, 0)
	r := []string{"len(" + k + ")"}
	for f := range parseFlags(s.Auto) {
		if strings.HasPrefix(f, "as:"+k+":") {
			r = append(r, f[len("as:"+k+":"):])
		}
	}
	switch y := w.(type) {
	case *ssa.MakeSlice:
		r = append(r, p.keyIn(s, c, y.Len, 0))
	case *ssa.TypeAssert:
		r = append(r, p.lens(s, c, y.X, d+1)...)
	case *ssa.Extract:
		if a, ok := y.Tuple.(*ssa.TypeAssert); ok {
			r = append(r, p.lens(s, c, a.X, d+1)...)
		}
	case *ssa.MakeInterface:
		r = append(r, p.lens(s, c, y.X, d+1)...)
	case *ssa.ChangeType:
		r = append(r, p.lens(s, c, y.X, d+1)...)
	case *ssa.Slice:
		if y.Low == nil && y.High == nil {
			r = append(r, p.lens(s, c, y.X, d+1)...)
			if a, ok := deref(y.X.Type()).Underlying().(*types.Array); ok {
				r = append(r, fmt.Sprintf("#%d", a.Len()))
			}
		}
	case *ssa.Call:
		cm := y.Common()
		if b, ok := cm.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			r = append(r, p.lens(s, c, cm.Args[0], d+1)...)
		}
		switch s.x.R.calleeName(c, cm) {
		case "object.DeepCopyAny", "slices.Clone", "slices.Clip":
			r = append(r, p.lens(s, c, cm.Args[0], d+1)...)
		}
	}
	if a, ok := deref(w.Type()).Underlying().(*types.Array); ok {
		r = append(r, fmt.Sprintf("#%d", a.Len()))
	}
	return r
}

func negateOp(op token.Token) token.Token {
	return map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
}

func flipOp(op token.Token) token.Token {
	return map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
}

// learn records what a condition tells.
func (p *panics) learn(s *St, c *Ctx, cond ssa.Value, taken bool, d int) {
	if d > 8 {
		return
	}
	c, w := s.RootIn(c, cond)
	switch y := w.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			p.learn(s, c, y.X, !taken, d+1)
		}
	case *ssa.BinOp:
		op := y.Op
		if !taken {
			op = negateOp(op)
		}
		if op == token.ILLEGAL {
			return
		}
		p.compare(s, c, y.X, op, y.Y)
		p.compare(s, c, y.Y, flipOp(op), y.X)
	case *ssa.Extract:
		if a, ok := y.Tuple.(*ssa.TypeAssert); ok && y.Index == 1 && taken {
			p.add(s, "ty:"+p.keyIn(s, c, a.X, 0)+":"+typeKey(a.AssertedType))
			p.add(s, "nn:"+p.keyIn(s, c, a.X, 0))
		}
		if l, ok := y.Tuple.(*ssa.Lookup); ok && y.Index == 1 && taken {
			for _, ref := range *l.Referrers() { // entries are set to what exists
				if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
					p.add(s, "nn:"+p.keyIn(s, c, e, 0))
				}
			}
		}
	case *ssa.Call:
		cm := y.Common()
		n := s.x.R.calleeName(c, cm)
		switch n {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			if taken {
				p.add(s, fmt.Sprintf("lo:len(%s):%d", p.keyIn(s, c, cm.Args[0], 0), p.minLenIn(s, c, cm.Args[1], 0)))
			}
		case "reflect.Value.IsNil":
			if !taken {
				p.add(s, "nn:"+p.keyIn(s, c, cm.Args[0], 0))
			}
		case "reflect.Value.CanConvert", "reflect.Value.IsValid", "reflect.Value.CanInterface":
			if taken {
				p.add(s, "ok:"+p.keyIn(s, c, cm.Args[0], 0))
			}
		}
	}
}

func typeKey(t types.Type) string { return panicKeyRepl.Replace(types.TypeString(t, nil)) }

func (p *panics) compare(s *St, c *Ctx, x ssa.Value, op token.Token, y ssa.Value) {
	cy, wy := s.RootIn(c, y)
	kx, ky := p.keyIn(s, c, x, 0), p.keyIn(s, cy, wy, 0)
	if isNilConst(wy) {
		_, wx := s.RootIn(c, x)
		switch wx.(type) {
		case *ssa.Const, *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeSlice, *ssa.MakeMap, *ssa.FieldAddr, *ssa.IndexAddr:
			return
		}
		switch op {
		case token.NEQ:
			p.add(s, "nn:"+kx)
		case token.EQL:
			p.add(s, "nil:"+kx)
		}
		return
	}
	if k, ok := wy.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		n := int64(len(constant.StringVal(k.Value)))
		switch {
		case op == token.EQL:
			p.add(s, fmt.Sprintf("lo:len(%s):%d", kx, n))
		case op == token.NEQ && n == 0:
			p.add(s, fmt.Sprintf("lo:len(%s):1", kx))
		}
		return
	}
	if !isInt(x.Type()) {
		return
	}
	if n, ok := constInt(wy); ok {
		_, wx := s.RootIn(c, x)
		m, known := constInt(wx)
		if !known {
			m, known = staticKindOf(s, c, x)
		}
		if !known {
			for f := range parseFlags(s.Auto) {
				if v, ok := strings.CutPrefix(f, "is:"+kx+":"); ok {
					m, _ = strconv.ParseInt(v, 10, 64)
					known = true
				}
			}
		}
		if known && !map[token.Token]bool{token.EQL: m == n, token.NEQ: m != n, token.LSS: m < n, token.LEQ: m <= n, token.GTR: m > n, token.GEQ: m >= n}[op] {
			s.Stop = true // cannot be
			return
		}
		if strings.HasPrefix(kx, "#") {
			return
		}
		switch op {
		case token.EQL:
			p.add(s, fmt.Sprintf("is:%s:%d", kx, n))
		case token.NEQ:
			if n == 0 {
				p.add(s, "nz:"+kx)
				if strings.HasPrefix(kx, "len(") {
					p.add(s, "lo:"+kx+":1")
				}
			}
		case token.GTR:
			p.add(s, fmt.Sprintf("lo:%s:%d", kx, n+1))
			if n >= 0 {
				p.add(s, "nz:"+kx)
			}
		case token.GEQ:
			p.add(s, fmt.Sprintf("lo:%s:%d", kx, n))
			if n > 0 {
				p.add(s, "nz:"+kx)
			}
		case token.LSS:
			p.add(s, fmt.Sprintf("hi:%s:%d", kx, n-1))
		case token.LEQ:
			p.add(s, fmt.Sprintf("hi:%s:%d", kx, n))
		}
		return
	}
	if strings.HasPrefix(kx, "#") {
		return
	}
	switch op {
	case token.LSS:
		p.add(s, "lt:"+kx+":"+ky)
	case token.LEQ:
		p.add(s, "le:"+kx+":"+ky)
	case token.EQL:
		p.add(s, "le:"+kx+":"+ky)
	}
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil && isNilable(k.Type())
}

// forget drops what is known about a variable that is assigned to, or a value computed anew.
func (p *panics) forget(s *St, part string) {
	f := parseFlags(s.Auto)
	n := len(f)
	for x := range f {
		if strings.Contains(x, part) {
			delete(f, x)
		}
	}
	if len(f) != n {
		s.Auto = f.String()
	}
}

func (p *panics) oblige(s *St, in ssa.Instruction, ok bool, kind, format string, a ...any) {
	if !ok && os.Getenv("DBGP") != "" {
		fmt.Println("DBG", p.k.pr.at(in), kind, s.Auto)
	}
	p.k.check(ok, p.R, p.name+": "+kind, p.k.pr.at(in), format+" (path %s)", append(a, s.Trace())...)
}

// inBounds: 0 <= idx < len(x)
func (p *panics) inBounds(s *St, idx, x ssa.Value) bool {
	if n, ok := p.constOf(s, idx); ok {
		return n >= 0 && n < p.minLen(s, x)
	}
	lens := p.lens(s, s.Ctx, x, 0)
	// the last element(s)
	ci, wi := s.Root(idx)
	if b, ok := wi.(*ssa.BinOp); ok && b.Op == token.SUB {
		if n, ok := constInt(b.Y); ok && n >= 1 {
			for _, l := range lens {
				if p.keyIn(s, ci, b.X, 0) == l && p.minLen(s, x) >= n {
					return true
				}
			}
		}
	}
	if n, ok := p.lo(s, idx); !ok || n < 0 {
		return false
	}
	ki := p.key(s, idx)
	for _, l := range lens {
		if p.has(s, "lt:"+ki+":"+l) {
			return true
		}
	}
	h, ok := p.hiIn(s, s.Ctx, idx, 0)
	return ok && h < p.minLen(s, x)
}

// atMost: v <= len(x)
func (p *panics) atMost(s *St, v, x ssa.Value) bool {
	if n, ok := p.constOf(s, v); ok {
		return n >= 0 && n <= p.minLen(s, x)
	}
	if p.inBounds(s, v, x) {
		return true
	}
	lens := p.lens(s, s.Ctx, x, 0)
	kv := p.key(s, v)
	for _, l := range lens {
		if kv == l || p.has(s, "le:"+kv+":"+l) {
			return true
		}
	}
	ci, wi := s.Root(v)
	if b, ok := wi.(*ssa.BinOp); ok {
		n, isC := constInt(b.Y)
		for _, l := range lens {
			kx := p.keyIn(s, ci, b.X, 0)
			if isC && b.Op == token.SUB && kx == l && n >= 0 && p.minLen(s, x) >= n {
				return true
			}
			if isC && b.Op == token.ADD && n == 1 && p.has(s, "lt:"+kx+":"+l) {
				return true
			}
		}
	}
	return false
}

// kinds a reflect.Value may have for a method that is restricted
var reflectKinds = map[string][]int64{
	"Int": {2, 3, 4, 5, 6}, "Uint": {7, 8, 9, 10, 11, 12}, "Float": {13, 14}, "Bool": {1}, "Complex": {15, 16},
	"Len": {17, 18, 21, 23, 24}, "Index": {17, 23, 24}, "IsNil": {18, 19, 20, 21, 22, 23, 26},
	"MapKeys": {21}, "MapRange": {21}, "MapIndex": {21}, "Elem": {20, 22}, "NumField": {25}, "Field": {25},
}

func (p *panics) call(s *St, call ssa.CallInstruction, n string) {
	cm := call.Common()
	args := callArgs(cm)
	if b, ok := cm.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		if v := call.Value(); v != nil {
			grown := p.lens(s, s.Ctx, cm.Args[0], 0)
			k := panicKeyRepl.Replace(string(s.x.rootKey(s.Ctx, v)))
			for _, l := range grown {
				if l != "len("+k+")" {
					p.add(s, "as:"+k+":"+l)
				}
			}
		}
		return
	}
	switch n {
	case "rand.Intn", "rand.Int63n", "rand.Int31n", "rand.IntN", "rand.N":
		lo, ok := p.lo(s, args[len(args)-1])
		p.oblige(s, call, ok && lo > 0, "range", "%s panics unless its range is positive", n)
		return
	case "time.NewTicker", "time.Tick", "time.Ticker.Reset":
		v := args[len(args)-1]
		lo, ok := p.lo(s, v)
		_, w := s.Root(v)
		if f := loadedField(w); f != "" && p.ticks[f] {
			return // what is stored in the field is positive
		}
		p.oblige(s, call, ok && lo > 0, "period", "%s panics unless the period is positive", n)
		return
	case "strings.Repeat":
		lo, ok := p.lo(s, args[1])
		p.oblige(s, call, ok && lo >= 0, "count", "%s panics on a negative count", n)
		return
	case "regexp.MustCompile":
		c, isC := unwrapConst(s, args[0])
		ok := isC
		if ok {
			_, err := regexp.Compile(c)
			ok = err == nil
		}
		p.oblige(s, call, ok, "must", "%s panics on an invalid expression", n)
		return
	}
	if i := strings.LastIndexByte(n, '.'); i >= 0 && strings.HasPrefix(n[i+1:], "Must") && n[i+1:] != "Must" {
		ok := true
		for _, a := range args {
			_, w := s.Root(a)
			if _, isC := w.(*ssa.Const); !isC {
				ok = false
			}
		}
		p.oblige(s, call, ok, "must", "%s panics on a value it refuses", n)
		return
	}
	if m, ok := strings.CutPrefix(n, "reflect.Value."); ok {
		kv := p.key(s, args[0])
		if ks := reflectKinds[m]; ks != nil {
			good := false
			for _, kk := range ks {
				good = good || p.has(s, fmt.Sprintf("is:kind(%s):%d", kv, kk))
			}
			// a value converted to a known type
			good = good || p.converted(s, args[0], ks)
			// a value of a known type
			if !good {
				good = p.staticKind(s, args[0], ks)
			}
			p.oblige(s, call, good, "reflect", "reflect.Value.%s panics unless the kind has been checked", m)
			if m == "Index" {
				p.oblige(s, call, p.reflectIndex(s, args), "reflect", "the index may be out of range")
			}
		}
		switch m {
		case "Interface", "Type", "Convert":
			p.oblige(s, call, p.valid(s, args[0], m), "reflect", "reflect.Value.%s panics on the zero value", m)
		}
	}
}

// converted: the value is the result of a conversion to the type of a value of one of the kinds.
func (p *panics) converted(s *St, v ssa.Value, ks []int64) bool {
	c, w := s.Root(v)
	call, ok := w.(*ssa.Call)
	if !ok || s.x.R.calleeName(c, call.Common()) != "reflect.Value.Convert" {
		return false
	}
	c, w = s.RootIn(c, callArgs(call.Common())[1])
	call, ok = w.(*ssa.Call)
	if !ok || s.x.R.calleeName(c, call.Common()) != "reflect.TypeOf" {
		return false
	}
	return kindIn(dynType(s, c, call.Common().Args[0]), ks)
}

// dynType is the type of what an interface holds, if that is known.
func dynType(s *St, c *Ctx, v ssa.Value) types.Type {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X.Type()
	}
	_, a := s.RootIn(c, v)
	if mi, ok := a.(*ssa.MakeInterface); ok {
		return mi.X.Type()
	}
	return a.Type()
}

func kindOf(t types.Type) int64 {
	k := int64(0)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		k = 23
	case *types.Map:
		k = 21
	case *types.Pointer:
		k = 22
	case *types.Struct:
		k = 25
	case *types.Interface:
		k = 20
	case *types.Array:
		k = 17
	case *types.Basic:
		k = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8,
			types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Float32: 13, types.Float64: 14, types.String: 24}[u.Kind()]
	}
	return k
}

func kindIn(t types.Type, ks []int64) bool {
	k := kindOf(t)
	for _, x := range ks {
		if x == k && k != 0 {
			return true
		}
	}
	return false
}

// staticKind: the operand of reflect.ValueOf has a static type of one of the kinds.
func (p *panics) staticKind(s *St, v ssa.Value, ks []int64) bool {
	t := reflected(s, s.Ctx, v, 0)
	return t != nil && kindIn(t, ks)
}

// reflected is the type a reflect.Value or reflect.Type is known to have (be).
func reflected(s *St, c *Ctx, v ssa.Value, d int) types.Type {
	if d > 6 {
		return nil
	}
	c, w := s.RootIn(c, v)
	call, ok := w.(*ssa.Call)
	if !ok {
		return nil
	}
	args := callArgs(call.Common())
	elem := func(t types.Type) types.Type {
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		case *types.Pointer:
			return u.Elem()
		}
		return nil
	}
	switch n := s.x.R.calleeName(c, call.Common()); n {
	case "reflect.ValueOf", "reflect.TypeOf":
		if t := dynType(s, c, args[0]); t != nil && !types.IsInterface(t) {
			return t
		}
	case "reflect.Value.Type":
		return reflected(s, c, args[0], d+1)
	case "reflect.Value.Index", "reflect.Value.MapIndex", "reflect.Type.Elem":
		return elem(reflected(s, c, args[0], d+1))
	}
	return nil
}

func staticKindOf(s *St, c *Ctx, v ssa.Value) (int64, bool) {
	c, w := s.RootIn(c, v)
	call, ok := w.(*ssa.Call)
	if !ok {
		return 0, false
	}
	switch n := s.x.R.calleeName(c, call.Common()); n {
	case "reflect.Value.Kind", "reflect.Type.Kind":
		if t := reflected(s, c, callArgs(call.Common())[0], 0); t != nil {
			k := kindOf(t)
			return k, k != 0
		}
	}
	return 0, false
}

func (p *panics) reflectIndex(s *St, args []ssa.Value) bool {
	l := "len(" + p.key(s, args[0]) + ")"
	if n, ok := p.constOf(s, args[1]); ok {
		m, _ := p.best(s, "lo", l, false)
		return n >= 0 && n < m
	}
	n, ok := p.lo(s, args[1])
	return ok && n >= 0 && p.has(s, "lt:"+p.key(s, args[1])+":"+l)
}

// valid: the reflect.Value is not the zero one.
func (p *panics) valid(s *St, v ssa.Value, m string) bool {
	kv := p.key(s, v)
	if m == "Convert" {
		return p.has(s, "ok:"+kv)
	}
	if strings.HasPrefix(kv, "at(") || p.has(s, "ok:"+kv) {
		return true // an element
	}
	for f := range parseFlags(s.Auto) {
		if strings.HasPrefix(f, "is:kind("+kv+"):") && !strings.HasSuffix(f, ":0") {
			return true
		}
	}
	if strings.HasPrefix(kv, "rv(") {
		return p.has(s, "nn:"+strings.TrimSuffix(kv[3:], ")"))
	}
	return false
}

func fieldID(fa *ssa.FieldAddr) string {
	n, ok := deref(fa.X.Type()).(*types.Named)
	if !ok {
		return ""
	}
	return typeKey(n) + "." + fieldName(fa.X.Type(), fa.Field)
}

func loadedField(v ssa.Value) string {
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		if fa, ok := l.X.(*ssa.FieldAddr); ok {
			return fieldID(fa)
		}
	}
	return ""
}

// tickerFields are the fields that hold the period of a ticker.
func (k *K) tickerFields() map[string]bool {
	r := map[string]bool{}
	for _, f := range k.pr.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				switch k.R.calleeName(k.R.rootCtx(f), call.Common()) {
				case "time.NewTicker", "time.Tick":
					if id := loadedField(call.Common().Args[0]); id != "" {
						r[id] = true
					}
				}
			}
		}
	}
	return r
}

func unwrapConst(s *St, v ssa.Value) (string, bool) {
	_, w := s.Root(v)
	k, ok := w.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

func (p *panics) instr(s *St, in ssa.Instruction) {
	switch y := in.(type) {
	case *ssa.Store:
		if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
			if p.ticks[fieldID(fa)] {
				lo, ok := p.lo(s, y.Val)
				p.oblige(s, in, ok && lo > 0, "period", "%s is used as the period of a ticker, which panics unless it is positive", fieldID(fa))
			}
			p.forget(s, "."+fieldName(fa.X.Type(), fa.Field))
		}
	case *ssa.IndexAddr:
		p.oblige(s, in, p.inBounds(s, y.Index, y.X), "index", "the index %s may be out of range", s.PT(y.Index))
	case *ssa.Index:
		p.oblige(s, in, p.inBounds(s, y.Index, y.X), "index", "the index %s may be out of range", s.PT(y.Index))
	case *ssa.Slice:
		if y.High != nil {
			p.oblige(s, in, p.atMost(s, y.High, y.X), "slice", "the upper bound %s may be out of range", s.PT(y.High))
		}
		if y.Low != nil {
			ok := p.atMost(s, y.Low, y.X)
			if ok && y.High != nil {
				ok = p.ordered(s, y.Low, y.High)
			}
			p.oblige(s, in, ok, "slice", "the lower bound %s may be out of range", s.PT(y.Low))
		}
	case *ssa.MakeSlice:
		for _, v := range []ssa.Value{y.Len, y.Cap} {
			p.oblige(s, in, p.size(s, s.Ctx, v, 0), "make", "the size %s is neither bounded nor the size of something that exists", s.PT(v))
		}
	case *ssa.TypeAssert:
		if !y.CommaOk {
			p.oblige(s, in, p.typed(s, s.Ctx, y.X, y.AssertedType, 0), "assert", "the type of %s is not known to be %s", s.PT(y.X), y.AssertedType)
		}
	case *ssa.BinOp:
		if (y.Op == token.QUO || y.Op == token.REM) && isInt(y.Type()) {
			n, isC := p.constOf(s, y.Y)
			lo, okL := p.lo(s, y.Y)
			hi, okH := p.hiIn(s, s.Ctx, y.Y, 0)
			p.oblige(s, in, isC && n != 0 || p.has(s, "nz:"+p.key(s, y.Y)) || okL && lo > 0 || okH && hi < 0, "divide", "the divisor %s may be zero", s.PT(y.Y))
		}
	case *ssa.UnOp:
		if y.Op == token.MUL {
			p.deref(s, in, y.X)
		}
	case *ssa.FieldAddr:
		p.deref(s, in, y.X)
	case *ssa.MapUpdate:
		_, w := s.Root(y.Map)
		bad := isNilConst(w) || p.has(s, "nil:"+p.key(s, y.Map))
		p.oblige(s, in, !bad, "map", "an entry is set in a nil map")
		e := p.key(s, y.Map) + "[" + p.key(s, y.Key) + "]"
		p.forget(s, p.key(s, y.Map)+"[")
		c, v := s.Root(y.Value)
		switch v.(type) {
		case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeSlice, *ssa.MakeMap, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure:
			p.add(s, "nn:"+e)
		default:
			if s.Val(c, v) == "nonnil" || p.has(s, "nn:"+p.keyIn(s, c, v, 0)) {
				p.add(s, "nn:"+e)
			}
		}
	case *ssa.Send, *ssa.Defer, *ssa.Go:
	}
	if phi, ok := in.(*ssa.Phi); ok {
		if in == in.Block().Instrs[0] {
			p.merge(s, phi.Block())
		}
		return
	}
	if v, ok := in.(ssa.Value); ok { // a new value
		if id, ok := s.x.rootID[ctxVal{s.Ctx, v}]; ok {
			p.forgetID(s, id)
		}
	}
}

// merge: what is known about the value a loop variable gets is known about the variable.
func (p *panics) merge(s *St, b *ssa.BasicBlock) {
	pi := -1
	for i, pr := range b.Preds {
		if pr == s.Pred {
			pi = i
		}
	}
	var gone []int
	var add []string
	facts := parseFlags(s.Auto)
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, w := s.Root(phi); w != ssa.Value(phi) {
			continue
		}
		kp := string(s.x.rootKey(s.Ctx, phi))
		gone = append(gone, s.x.rootID[ctxVal{s.Ctx, phi}])
		if pi < 0 || !isInt(phi.Type()) {
			continue
		}
		n, isC := constInt(phi.Edges[pi])
		ke := p.key(s, phi.Edges[pi])
		for f := range facts {
			for _, pfx := range []string{"lt:", "le:", "lo:", "hi:", "is:", "nz:"} {
				if rest, ok := strings.CutPrefix(f, pfx+ke); ok && !isC && (rest == "" || rest[0] == ':') {
					add = append(add, pfx+kp+rest)
				}
			}
			if rest, ok := strings.CutPrefix(f, "lo:"); isC && ok {
				if i := strings.LastIndexByte(rest, ':'); i > 0 && strings.HasPrefix(rest, "len(") {
					if m, err := strconv.ParseInt(rest[i+1:], 10, 64); err == nil && n < m {
						add = append(add, "lt:"+kp+":"+rest[:i])
					}
				}
			}
		}
	}
	for _, id := range gone {
		p.forgetID(s, id)
	}
	for _, f := range add {
		own := 0
		for _, id := range idsOf(f) {
			for _, g := range gone {
				if id == g {
					own++
				}
			}
		}
		if own == 1 {
			p.add(s, f)
		}
	}
}

// leave: a callee that copes with a value being nil says nothing about what its callers hand to it.
func (p *panics) leave(s *St, ret *ssa.Return) {
	if s.Ctx.site == nil || !strings.Contains(s.Auto, "nil:") {
		return
	}
	f := parseFlags(s.Auto)
	n := len(f)
	for x := range f {
		if !strings.HasPrefix(x, "nil:") {
			continue
		}
		for _, id := range idsOf(x) {
			if id < len(s.x.roots) && s.x.roots[id].c != s.Ctx {
				delete(f, x)
			}
		}
	}
	if len(f) != n {
		s.Auto = f.String()
	}
}

// idsOf are the values a fact is about.
func idsOf(f string) []int {
	var r []int
	for i := 0; i+2 < len(f); i++ {
		if f[i] != 'v' || f[i+1] != ':' || i > 0 && (f[i-1] >= 'a' && f[i-1] <= 'z' || f[i-1] >= 'A' && f[i-1] <= 'Z') {
			continue
		}
		n, j := 0, i+2
		for ; j < len(f) && f[j] >= '0' && f[j] <= '9'; j++ {
			n = n*10 + int(f[j]-'0')
		}
		if j > i+2 {
			r = append(r, n)
			i = j - 1
		}
	}
	return r
}

func (p *panics) forgetID(s *St, id int) {
	if !strings.Contains(s.Auto, "v:"+strconv.Itoa(id)) {
		return
	}
	f := parseFlags(s.Auto)
	n := len(f)
	for x := range f {
		for _, i := range idsOf(x) {
			if i == id {
				delete(f, x)
			}
		}
	}
	if len(f) != n {
		s.Auto = f.String()
	}
}

// prune drops the facts about values that are not used any more.
func (p *panics) prune(s *St) {
	if s.Auto == "" {
		return
	}
	held := map[string]bool{}
	for _, v := range s.env {
		if strings.HasPrefix(string(v), "v:") {
			held[string(v)] = true
		}
	}
	f := parseFlags(s.Auto)
	n := len(f)
	for x := range f {
		for _, id := range idsOf(x) {
			if id < len(s.x.roots) && !held["v:"+strconv.Itoa(id)] && !p.live(s, s.x.roots[id]) {
				delete(f, x)
			}
		}
	}
	if len(f) != n {
		s.Auto = f.String()
	}
}

type liveKey struct {
	v   ssa.Value
	b   *ssa.BasicBlock
	idx int
}

func (p *panics) live(s *St, r ctxVal) bool {
	if r.v.Parent() == nil {
		return true
	}
	b, idx := s.Block, s.Idx
	if r.c != s.Ctx {
		var at *Ctx
		for c := s.Ctx; c != nil; c = c.parent {
			if c.parent == r.c {
				at = c
			}
		}
		if at == nil || at.site == nil {
			return false
		}
		b = at.site.Block()
		idx = instrIndex(at.site) + 1
	}
	k := liveKey{r.v, b, idx}
	if l, ok := p.lives[k]; ok {
		return l
	}
	l := usedAt(r.v, b, idx, 0)
	p.lives[k] = l
	return l
}

// usedAt: the value, or one computed from it that the same facts are about, is used from here on.
func usedAt(v ssa.Value, b *ssa.BasicBlock, idx, d int) bool {
	if v.Parent() != b.Parent() || liveAt(v, b, idx) {
		return true
	}
	if d > 6 {
		return true
	}
	for _, ref := range *v.Referrers() {
		switch w := ref.(type) {
		case *ssa.Store:
			if al, ok := w.Addr.(*ssa.Alloc); ok && w.Val == v && usedAt(al, b, idx, d+1) {
				return true
			}
		case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Convert, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.BinOp, *ssa.Slice, *ssa.TypeAssert, *ssa.Extract, *ssa.Call, *ssa.MakeSlice, *ssa.Lookup:
			if usedAt(w.(ssa.Value), b, idx, d+1) {
				return true
			}
		}
	}
	return false
}

// ordered: a <= b
func (p *panics) ordered(s *St, a, b ssa.Value) bool {
	m, ok1 := p.constOf(s, a)
	n, ok2 := p.constOf(s, b)
	if ok1 && ok2 {
		return m <= n
	}
	if ok1 {
		lo, ok := p.lo(s, b)
		return ok && m <= lo
	}
	ka, kb := p.key(s, a), p.key(s, b)
	return ka == kb || p.has(s, "lt:"+ka+":"+kb) || p.has(s, "le:"+ka+":"+kb)
}

// size: a number of elements that can be allocated: a constant, or derived from sizes of what exists.
func (p *panics) size(s *St, c *Ctx, v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	c, w := s.RootIn(c, v)
	if n, ok := constInt(w); ok {
		return n >= 0
	}
	if h, ok := p.hiIn(s, c, w, 0); ok && h <= 1<<30 {
		if l, ok := p.loIn(s, c, w, 0); ok && l >= 0 {
			return true
		}
	}
	switch y := w.(type) {
	case *ssa.Convert:
		return p.size(s, c, y.X, d+1)
	case *ssa.Call:
		if b, ok := y.Common().Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		switch s.x.R.calleeName(c, y.Common()) {
		case "reflect.Value.Len", "cache.Indexer.Len":
			return true
		}
	case *ssa.BinOp:
		switch y.Op {
		case token.ADD:
			return p.size(s, c, y.X, d+1) && p.size(s, c, y.Y, d+1)
		case token.SUB:
			l, ok := p.loIn(s, c, w, 0)
			return ok && l >= 0 && p.size(s, c, y.X, d+1)
		case token.QUO:
			return p.size(s, c, y.X, d+1)
		case token.MUL:
			n, ok := constInt(y.Y)
			return ok && n >= 0 && n < 1024 && p.size(s, c, y.X, d+1)
		}
	case *ssa.Field, *ssa.UnOp:
		// the declared arity of an operator
		return strings.HasSuffix(p.keyIn(s, c, w, 0), ".n")
	}
	return false
}

// typed: the dynamic type of the value is known to be t.
func (p *panics) typed(s *St, c *Ctx, v ssa.Value, t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	c, w := s.RootIn(c, v)
	if p.has(s, "ty:"+p.keyIn(s, c, w, 0)+":"+typeKey(t)) {
		return true
	}
	if call, ok := w.(*ssa.Call); ok {
		if n := s.x.R.calleeName(c, call.Common()); n == "reflect.Value.Interface" {
			if r := reflected(s, c, callArgs(call.Common())[0], 0); r != nil {
				return types.Identical(r, t)
			}
		}
	}
	if !types.IsInterface(w.Type()) && !types.IsInterface(t) {
		return types.Identical(w.Type(), t)
	}
	switch y := w.(type) {
	case *ssa.MakeInterface:
		if types.IsInterface(t) {
			return types.Implements(y.X.Type(), t.Underlying().(*types.Interface))
		}
		return types.Identical(y.X.Type(), t)
	case *ssa.ChangeInterface:
		return p.typed(s, c, y.X, t, d+1)
	case *ssa.Call:
		// copying keeps the type
		if n := s.x.R.calleeName(c, y.Common()); n == "object.DeepCopyAny" && len(y.Common().Args) > 0 {
			return p.typed(s, c, y.Common().Args[0], t, d+1)
		}
	case *ssa.Extract:
		if a, ok := y.Tuple.(*ssa.TypeAssert); ok && y.Index == 0 {
			return types.Identical(a.AssertedType, t)
		}
	case *ssa.TypeAssert:
		return types.Identical(y.AssertedType, t)
	}
	return false
}

// deref: the pointer is not nil. Pointers that are fields, elements or map entries may be nil.
func (p *panics) deref(s *St, in ssa.Instruction, v ssa.Value) {
	c, w := s.Root(v)
	if isNilConst(w) {
		p.oblige(s, in, false, "nil", "a nil pointer is used")
		return
	}
	k := p.keyIn(s, c, w, 0)
	if p.has(s, "nil:"+k) && !p.has(s, "nn:"+k) {
		p.oblige(s, in, false, "nil", "%s is nil here", s.PT(v))
		return
	}
	if !p.mayBeNil(w) {
		return
	}
	p.oblige(s, in, p.has(s, "nn:"+k) || s.Val(c, w) == "nonnil", "nil", "%s may be nil", s.PT(v))
}

// mayBeNil: a pointer read from a place where a missing value is a nil pointer.
func (p *panics) mayBeNil(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return false
		}
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			return optional(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return optional(y.X.Type(), y.Field)
	case *ssa.Lookup:
		return !keyOfMap(y)
	case *ssa.Extract:
		if l, ok := y.Tuple.(*ssa.Lookup); ok && y.Index == 0 {
			return !keyOfMap(l)
		}
	}
	return false
}

// keyOfMap: the key looked up is one of the keys of the map.
func keyOfMap(l *ssa.Lookup) bool {
	e, ok := l.Index.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return false
	}
	n, ok := e.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	r, ok := n.Iter.(*ssa.Range)
	return ok && r.X == l.X
}

// optional: the pointer field is filled from data given by users: it is exported and has a JSON tag,
// or belongs to an expression.
func optional(t types.Type, f int) bool {
	st := structOf(t)
	if st == nil {
		return false
	}
	if n, ok := deref(t).(*types.Named); ok && n.Obj().Name() == "Expression" {
		return true
	}
	return strings.Contains(st.Tag(f), "json:")
}

// inlinable: the function is analysed as part of its callers.
func inlinable(f, callee *ssa.Function) bool {
	return callee.Pkg == f.Pkg && !hasLoop(callee) && len(callee.Blocks) <= 40
}

// onlyInlined: an unexported function that is only ever called, where it is analysed with the caller.
func (k *K) onlyInlined(fn *ssa.Function) bool {
	o, ok := fn.Object().(*types.Func)
	if !ok || o.Exported() || fn.Signature.Recv() != nil || !inlinable(fn, fn) || fn.Referrers() != nil && len(*fn.Referrers()) > 0 {
		return false
	}
	n := 0
	for _, f := range k.pr.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					c, isCall := in.(*ssa.Call)
					if !isCall || c.Call.Value != ssa.Value(fn) || f.Pkg != fn.Pkg || f == fn {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

func (k *K) panicsIn(R string, fns []*ssa.Function) int {
	n := 0
	ticks := k.tickerFields()
	for _, fn := range fns {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		if k.onlyInlined(fn) {
			continue
		}
		p := &panics{k: k, R: R, name: fnName(fn), lives: map[liveKey]bool{}, ticks: ticks}
		rule := &Rule{Flow: true, MaxDepth: 6, MaxStates: 200000}
		rule.Inline = func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
			return inlinable(fn, callee) && !onStack(s.Ctx, callee)
		}
		rule.Instr, rule.Prune, rule.Leave = p.instr, p.prune, p.leave
		rule.Call = p.call
		rule.Edge = func(s *St, cond ssa.Value, taken bool) { p.learn(s, s.Ctx, cond, taken, 0) }
		rule.Panic = func(s *St, in *ssa.Panic) {
			if mi, ok := in.X.(*ssa.MakeInterface); ok {
				if c, ok := mi.X.(*ssa.Const); ok && c.Value != nil && strings.Contains(c.Value.ExactString(), "blocking select") {
					return // made by the compiler
				}
			}
			p.oblige(s, in, false, "panic", "an explicit panic")
		}
		x := k.explore(rule)
		x.Run(fn, "")
		k.done(x, R, p.name)
		n++
	}
	return n
}

func runE02(k *K) {
	const R = "panics"
	var fns []*ssa.Function
	for _, pkg := range []string{"pkg/expression", "pkg/pipeline", "pkg/object", "pkg/util", "pkg/reconciler", "pkg/controller", "pkg/auth", "pkg/predicate", "pkg/operator"} {
		fns = append(fns, k.fnsIn(pkg)...)
	}
	k.panicsIn(R, fns)
	k.atLeast(R, 60)
}
