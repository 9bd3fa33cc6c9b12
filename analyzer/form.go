package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A rule reads what the loops of a function compute in the ways that the analysis understands. The same
// can be written with other loops, or with the functions of slices and maps, in a way that it does not
// understand. The form of a function is how many loops of each kind it has, which of those functions it
// calls and which types of maps it makes. A rule that can not be established where the functions looked
// into have a loop, such a call or such a map more than those the rules were written against is
// undecided. Where nothing was added to the form, what can not be established is a violation.

type form map[string]int

// loopHeads are the blocks that a block which they dominate goes back to.
func loopHeads(fn *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				out = append(out, b)
				break
			}
		}
	}
	return out
}

var formPkgs = map[string]bool{"slices": true, "maps": true, "sort": true, "iter": true}

func formOf(fn *ssa.Function) form {
	out := form{}
	for _, b := range loopHeads(fn) {
		kind := "loop"
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				kind = "loop over a map"
			}
		}
		out[kind]++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case ssa.CallInstruction:
				if c := in.Common().StaticCallee(); c != nil {
					if o := c.Origin(); o != nil {
						c = o
					}
					if c.Pkg != nil && formPkgs[c.Pkg.Pkg.Path()] {
						out["call of "+c.Pkg.Pkg.Path()+"."+c.Name()]++
					}
				}
			case *ssa.MakeMap:
				out["make of "+types.TypeString(in.Type(), func(p *types.Package) string { return p.Path() })]++
			}
		}
	}
	return out
}

// recursive: the function can reach itself.
func recursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := c.Common().StaticCallee()
				if t == fn {
					return true
				}
				if t == nil || seen[t] || t.Pkg != fn.Pkg {
					continue
				}
				seen[t] = true
				if visit(t) {
					return true
				}
			}
		}
		return false
	}
	return visit(fn)
}

func (p *Prog) dumpForms() string {
	var lines []string
	for n, fn := range p.fns {
		fm := formOf(fn)
		for d, c := range fm {
			lines = append(lines, fmt.Sprintf("l\t%s\t%s\t%d\n", n, d, c))
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "")
}

func (b *baseline) addForm(f []string) {
	if b.forms == nil {
		b.forms = map[string]form{}
	}
	if b.forms[f[1]] == nil {
		b.forms[f[1]] = form{}
	}
	b.forms[f[1]][f[2]], _ = strconv.Atoi(f[3])
}

// rewritten says what the functions that were looked into have that the rules do not know of.
func (x *Exec) rewritten() string {
	if x == nil || x.p.base.forms == nil {
		return ""
	}
	if x.formKnown == len(x.fns) {
		return x.formDiff
	}
	x.formKnown, x.formDiff = len(x.fns), ""
	cur := form{}
	where := map[string]string{}
	var fns []*ssa.Function
	for fn := range x.fns {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, fn := range fns {
		n := fnName(fn)
		if fn.Parent() == nil && x.p.base.isNew(n) && recursive(fn) {
			x.formDiff = n + " is recursive"
			return x.formDiff
		}
		known := x.p.base.forms[n]
		for d, c := range formOf(fn) {
			cur[d] += c
			if c > known[d] {
				where[d] = n
			}
		}
		for d, c := range known {
			cur[d] -= c
		}
	}
	// what a function lost that is not there any more may be somewhere else now
	for _, n := range x.p.base.lostF {
		for d, c := range x.p.base.forms[n] {
			cur[d] -= c
		}
	}
	var ds []string
	for d, c := range cur {
		if c > 0 {
			ds = append(ds, d)
		}
	}
	sort.Strings(ds)
	if len(ds) > 0 {
		x.formDiff = "another " + ds[0] + " in " + where[ds[0]]
	}
	return x.formDiff
}

// unsure reports whether a rule that can not be established is undecided, and notes it.
func (k *Checker) unsure(rule, where string, x *Exec) bool {
	if x == nil {
		x = k.cur
	}
	d := x.rewritten()
	if d == "" {
		return false
	}
	k.undecided(rule, where, "not established, and the code has a form that the rule does not know: "+d)
	return true
}
