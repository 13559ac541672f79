package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dumpCalls prints the calls of the functions whose name starts with prefix.
func dumpCalls(prefix string) {
	pr, err := load(repoDir, filepath.Join(verifDir, ".build/deps"))
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, p := range pr.Order {
		modPkgNames[p.Name] = true
	}
	r := newResolver(pr)
	for _, f := range pr.Funcs {
		if !strings.HasPrefix(fnName(f), prefix) {
			continue
		}
		fmt.Println("##", fnName(f))
		c := r.rootCtx(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case ssa.CallInstruction:
					var a []string
					for _, x := range callArgs(y.Common()) {
						a = append(a, short(r.T(c, x)))
					}
					fmt.Printf("  %s %s(%s)\n", pr.at(in), r.calleeName(c, y.Common()), strings.Join(a, ", "))
				case *ssa.If:
					fmt.Printf("  %s if %s\n", pr.at(in), short(r.T(c, y.Cond)))
				case *ssa.Return:
					var a []string
					for _, x := range y.Results {
						a = append(a, short(r.T(c, x)))
					}
					fmt.Printf("  %s return %s\n", pr.at(in), strings.Join(a, ", "))
				}
			}
		}
	}
}
