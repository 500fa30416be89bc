package main

import (
	"go/constant"

	"golang.org/x/tools/go/ssa"
)

// reachLabels collects the constant labels of sym.Reach calls in a harness (and helpers in the same package named verif*).
func reachLabels(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	var out []string
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil {
					continue
				}
				if cal.String() == symPkg+".Reach" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						out = append(out, constant.StringVal(k.Value))
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	return out
}
