package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// rootArgs makes symbolic arguments.
func rootArgs(fn *ssa.Function) []*Term {
	var out []*Term
	ps := fn.Params
	i := 0
	for k, p := range ps {
		name := ""
		if k == 0 && fn.Signature.Recv() != nil {
			name = "recv"
		} else {
			name = fmt.Sprintf("p%d", i)
			i++
		}
		t := sym(name, p.Type())
		if isUnsigned(p.Type()) {
			t.nonneg = true
		}
		out = append(out, t)
	}
	return out
}

func (x *Exec) root(fn *ssa.Function) []Out {
	st := newState()
	args := rootArgs(fn)
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			st.assume(eqT(args[0], tNil), false)
		}
	}
	return x.run(fn, args, nil, st, fnName(fn), nil)
}

func dumpFn(p *Prog, name string, capN int, opq string) {
	fn := p.fns[name]
	if fn == nil {
		for n := range p.fns {
			if strings.Contains(n, name) {
				fmt.Println("candidate", n)
			}
		}
		os.Exit(1)
	}
	x := newExec(p, pkgOf(fn))
	x.cap = capN
	x.memEv = true
	for _, o := range strings.Split(opq, ",") {
		if o == "provider" {
			provider()(x)
		}
		x.opaque[o] = true
	}
	outs := x.root(fn)
	fmt.Printf("%s: %d outcomes, %d events, %d steps, merges %d, fail=%q\n", name, len(outs), len(x.events), x.steps, x.merges, x.fail)
	for i, o := range outs {
		fmt.Printf("--- outcome %d at %s\n", i, p.prog.Fset.Position(o.pos))
		for _, r := range o.results {
			fmt.Printf("   result %s\n", x.snap(o.st, r, 0))
		}
		if len(o.results) > 0 && o.results[len(o.results)-1].op == "err" && os.Getenv("ALL") == "" {
			continue
		}
		dumpFacts(o.st.facts, "     ")
		for _, k := range sortedKeys(o.st.heap) {
			if k.op != "alloc" && k.op != "mkbuf" {
				fmt.Printf("     heap %s = %s\n", k, o.st.heap[k])
			}
		}
	}
	if os.Getenv("EVENTS") != "" {
		for _, e := range x.events {
			fmt.Printf("*** %s %s %v at %s\n", e.kind, e.name, e.args, p.prog.Fset.Position(e.pos))
		}
	}
}

func dumpFacts(f *Facts, ind string) {
	for _, t := range f.order {
		fmt.Printf("%s%s\n", ind, litString(t, f.lits[t]))
	}
	for _, a := range f.foralls {
		dumpForall(a, ind)
	}
}

func dumpForall(a *Forall, ind string) {
	fmt.Printf("%sforall #%s < %s:\n", ind, a.h.aux, a.bound)
	for i, d := range a.disjuncts {
		if i > 0 {
			fmt.Printf("%s  or\n", ind)
		}
		for _, l := range d.lits {
			fmt.Printf("%s  %s\n", ind, l)
		}
		for _, b := range d.foralls {
			dumpForall(b, ind+"  ")
		}
	}
}

func batch(p *Prog, capN int) {
	for _, fn := range p.all {
		if fn.Synthetic != "" || fn.Parent() != nil || fn.Name() == "init" {
			continue
		}
		t0 := nowMS()
		x := newExec(p, pkgOf(fn))
		x.cap = capN
		outs := x.root(fn)
		dt := nowMS() - t0
		if x.fail != "" || dt > 300 || x.merges > 0 {
			fmt.Printf("%-70s outs=%d ev=%d steps=%d merges=%d %dms fail=%q\n", fnName(fn), len(outs), len(x.events), x.steps, x.merges, dt, x.fail)
		}
	}
}

func nowMS() int64 { return time.Now().UnixMilli() }
