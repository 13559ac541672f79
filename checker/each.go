package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// eachSpec: on every path to success some loop over a collection does something for each element. The
// elements may have been grouped in a map before, in which case two nested loops visit them.
type eachSpec struct {
	R, what string
	leaf    func(*Term) bool                                          // loops over these visit the elements
	group   func(*Term) bool                                          // loops over these visit groups of elements
	call    func(s *St, call ssa.CallInstruction, nm string) int      // 1: done for this element, 2: for its whole group
	instr   func(s *St, in ssa.Instruction) int                       // likewise
	skip    func(s *St, cond ssa.Value, taken bool) bool              // nothing is needed for this element
	exempt  func(s *St, cond ssa.Value, taken bool) bool              // nothing is needed on this path
	outside func(call ssa.CallInstruction, callee *ssa.Function) bool // not followed
	edge    func(s *St, cond ssa.Value, taken bool)                   // further facts
	exit    func(s *St, ret *ssa.Return)                              // on success
	quick   bool                                                      // what follows does not matter once all elements were visited
	anchor  func(in ssa.Instruction) bool                             // what call and instr look for: loops without it are not followed
	used    map[string]bool                                           // the groupings iterated over by a complete loop
}

func (k *K) each(fn *ssa.Function, e *eachSpec) {
	if fn == nil {
		return
	}
	construct := fnName(fn) + ": " + e.what
	k.ok(e.R, construct, k.pr.pos(fn.Pos()))
	holds := map[*ssa.Function]bool{}
	if e.anchor != nil {
		holds = k.holding(e.anchor)
	}
	rule := &Rule{MaxDepth: 6, Flow: true, Asserts: true, Inline: func(s *St, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(fn) && !recursive(callee) && (e.outside == nil || !e.outside(call, callee)) &&
			(e.anchor == nil || !hasLoop(callee) || holds[callee])
	}}
	loops := map[string]int{}
	over := map[string]string{}
	mark := func(s *St, lvl int) {
		for f := range parseFlags(s.Auto) {
			if strings.HasPrefix(f, "pend:") && (lvl == 2 || loops[f[5:]] == 1) {
				dropFlag(s, f)
			}
		}
	}
	rule.Edge = func(s *St, cond ssa.Value, taken bool) {
		if e.edge != nil {
			e.edge(s, cond, taken)
		}
		ov := s.loopOver(cond)
		lvl := 0
		switch {
		case ov == nil:
		case e.leaf(ov):
			lvl = 1
		case e.group != nil && e.group(ov):
			lvl = 2
		}
		if lvl == 0 {
			switch {
			case e.exempt != nil && e.exempt(s, cond, taken):
				addFlag(s, "exempt")
			case e.skip != nil && e.skip(s, cond, taken):
				mark(s, 1)
			}
			return
		}
		if partOf(ov, func(t *Term) bool { return e.leaf(t) || e.group != nil && e.group(t) }) {
			addFlag(s, "part")
		}
		id := fmt.Sprintf("%d/%d", s.Ctx.id, loopIndex(cond))
		loops[id], over[id] = lvl, ov.String()
		for f := range parseFlags(s.Auto) {
			if strings.HasPrefix(f, "it:") {
				dropFlag(s, f) // a fact about one element
			}
		}
		if hasFlag(s, "pend:"+id) {
			addFlag(s, "miss:"+id)
		}
		if taken {
			addFlag(s, "pend:"+id)
			return
		}
		if !hasFlag(s, "miss:"+id) && !hasFlag(s, "part") {
			in := false
			for f := range parseFlags(s.Auto) {
				if lvl == 1 && strings.HasPrefix(f, "pend:") && loops[f[5:]] == 2 {
					dropFlag(s, f)
					in = true
				}
			}
			if !in {
				addFlag(s, "done:"+id)
				if e.used != nil {
					e.used[over[id]] = true
				}
				s.Stop = e.quick
			}
		}
		dropFlag(s, "part")
		dropFlag(s, "pend:"+id)
		dropFlag(s, "miss:"+id)
	}
	rule.Call = func(s *St, call ssa.CallInstruction, nm string) {
		if e.call != nil {
			if l := e.call(s, call, nm); l > 0 {
				mark(s, l)
			}
		}
	}
	rule.Instr = func(s *St, in ssa.Instruction) {
		if e.instr != nil {
			if l := e.instr(s, in); l > 0 {
				mark(s, l)
			}
		}
	}
	rule.Exit = func(s *St, ret *ssa.Return) {
		f := parseFlags(s.Auto)
		if errResult(fn.Signature) >= 0 && s.RetVal(ret, -1) == "nonnil" {
			return
		}
		if e.exit != nil {
			e.exit(s, ret)
		}
		if f["exempt"] {
			return
		}
		done := false
		for x := range f {
			if strings.HasPrefix(x, "done:") {
				done = true
			}
		}
		k.check(done, e.R, construct, k.pr.at(ret), "this may not have been done for every element (path %s)", s.Trace())
	}
	x := k.explore(rule)
	t0 := time.Now()
	x.Run(fn, "")
	if os.Getenv("EACH") != "" {
		println(construct, time.Since(t0).String())
	}
	k.done(x, e.R, construct)
}

func hasLoop(f *ssa.Function) bool {
	rc := reach(f)
	for i := range rc {
		if rc[i][i] {
			return true
		}
	}
	return false
}

// holding: the functions that contain, or call or create functions that contain, such an instruction.
func (k *K) holding(is func(ssa.Instruction) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	uses := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range k.pr.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if is(in) {
					r[f] = true
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						addEdge(uses, f, g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && inModule(g) {
						addEdge(uses, f, g)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for f, gs := range uses {
			for g := range gs {
				if r[g] && !r[f] {
					r[f], changed = true, true
				}
			}
		}
	}
	return r
}

func staticName(in ssa.Instruction) string {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	if f := c.Common().StaticCallee(); f != nil {
		return fnName(f)
	}
	if c.Common().IsInvoke() {
		return c.Common().Method.Name()
	}
	return ""
}
