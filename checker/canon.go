package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// canon brings comparisons of the program into one form, so that it does not matter which way round they
// are written: the constant is on the right, other operands are compared with < and <= only, and a length
// is compared with > or <, or == 0.
func (pr *Program) canon() {
	for _, f := range pr.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if y, ok := in.(*ssa.BinOp); ok {
					canonOp(y)
				}
			}
		}
		for again := true; again; {
			again = false
			for _, b := range f.Blocks {
				for i, in := range b.Instrs {
					if y, ok := in.(*ssa.UnOp); ok && y.Op == token.NOT {
						if v := negated(y.X, y); v != nil {
							unrefer(y.X, y)
							replace(y, v)
							b.Instrs = append(append([]ssa.Instruction{}, b.Instrs[:i]...), b.Instrs[i+1:]...)
							again = true
							break
						}
					}
				}
			}
		}
	}
}

var opposite = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}

// negated is a value that is the negation of v, which is turned into it if it has no other use.
func negated(v ssa.Value, by ssa.Instruction) ssa.Value {
	sole := func(v ssa.Value, by ssa.Instruction) bool {
		for _, r := range *v.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); !dbg && r != by {
				return false
			}
		}
		return true
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return y.X
		}
	case *ssa.BinOp:
		op, ok := opposite[y.Op]
		t, _ := y.X.Type().Underlying().(*types.Basic)
		ordered := t != nil && t.Info()&(types.IsInteger|types.IsString) != 0
		if ok && sole(y, by) && (ordered || y.Op == token.EQL || y.Op == token.NEQ) {
			y.Op = op
			canonOp(y)
			return y
		}
	case *ssa.Phi:
		if !sole(y, by) {
			return nil
		}
		for _, e := range y.Edges {
			switch e := e.(type) {
			case *ssa.Const:
			case *ssa.UnOp:
				if e.Op != token.NOT {
					return nil
				}
			case *ssa.BinOp:
				if e.Op != token.EQL && e.Op != token.NEQ || !sole(e, y) {
					return nil
				}
			default:
				return nil
			}
		}
		for i, e := range y.Edges {
			switch e := e.(type) {
			case *ssa.BinOp:
				e.Op = opposite[e.Op]
				canonOp(e)
			case *ssa.Const:
				y.Edges[i] = ssa.NewConst(constant.MakeBool(!constant.BoolVal(e.Value)), e.Type())
			case *ssa.UnOp:
				unrefer(e, y)
				y.Edges[i] = e.X
				refer(e.X, y)
			}
		}
		return y
	}
	return nil
}

func refer(v ssa.Value, by ssa.Instruction) {
	if rs := v.Referrers(); rs != nil {
		*rs = append(*rs, by)
	}
}

func unrefer(v ssa.Value, by ssa.Instruction) {
	if rs := v.Referrers(); rs != nil {
		*rs = slices.DeleteFunc(*rs, func(r ssa.Instruction) bool { return r == by })
	}
}

func replace(old, v ssa.Value) {
	for _, r := range *old.Referrers() {
		for _, op := range r.Operands(nil) {
			if *op == old {
				*op = v
				refer(v, r)
			}
		}
	}
}

var flipped = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

func canonOp(y *ssa.BinOp) {
	op, isCmp := flipped[y.Op]
	_, xc := y.X.(*ssa.Const)
	_, yc := y.Y.(*ssa.Const)
	switch {
	case isCmp && y.Op == token.LSS && len(y.Block().Succs) == 2 && y.Block().Succs[0].Comment == "rangeint.body":
		return
	case isCmp && (xc && !yc || !xc && !yc && (y.Op == token.GTR || y.Op == token.GEQ)):
		y.X, y.Y, y.Op = y.Y, y.X, op
	case (y.Op == token.ADD || y.Op == token.MUL) && xc && !yc:
		if t, ok := y.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
			y.X, y.Y = y.Y, y.X
		}
	}
	call, ok := y.X.(*ssa.Call)
	c, isC := y.Y.(*ssa.Const)
	if !ok || !isC || c.Value == nil || c.Value.Kind() != constant.Int {
		return
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return
	}
	n, exact := constant.Int64Val(c.Value)
	if !exact {
		return
	}
	set := func(op token.Token, m int64) {
		if y.Op = op; m != n {
			y.Y = ssa.NewConst(constant.MakeInt64(m), c.Type())
		}
	}
	switch {
	case y.Op == token.LEQ && n == 0, y.Op == token.LSS && n == 1:
		set(token.EQL, 0)
	case y.Op == token.NEQ && n == 0:
		set(token.GTR, 0)
	case y.Op == token.GEQ:
		set(token.GTR, n-1)
	case y.Op == token.LEQ:
		set(token.LSS, n+1)
	}
}
