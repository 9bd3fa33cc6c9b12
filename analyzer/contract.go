package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions of the repository that return a pointer and an error return a
// pointer that is not nil when the error is nil. This is checked, for every
// function that it is used for, on all returns of the function.

var nonNilMemo = map[string]bool{}

func nonNilOnSuccess(fn *ssa.Function, i int) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	res := fn.Signature.Results()
	n := res.Len()
	if i >= n-1 || !isErrorType(res.At(n-1).Type()) {
		return false
	}
	if _, ok := res.At(i).Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	key := fnName(fn) + "/" + strconv.Itoa(i)
	if v, ok := nonNilMemo[key]; ok {
		return v
	}
	nonNilMemo[key] = true // recursive calls
	ok := true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			r, isRet := ins.(*ssa.Return)
			if !isRet {
				continue
			}
			if !pairOK(r.Results[i], r.Results[n-1], b, map[ssa.Value]bool{}) {
				ok = false
			}
		}
	}
	nonNilMemo[key] = ok
	return ok
}

// pairOK: at the end of block b, v is not nil or err is not nil.
func pairOK(v, err ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if valNonNil(v) || errNonNil(err, b) {
		return true
	}
	if pv, ok := v.(*ssa.Phi); ok && pv.Block() == b && !seen[v] {
		seen[v] = true
		pe, _ := err.(*ssa.Phi)
		for j, p := range b.Preds {
			e := err
			if pe != nil && pe.Block() == b {
				e = pe.Edges[j]
			}
			if !pairOK(pv.Edges[j], e, p, seen) {
				return false
			}
		}
		return true
	}
	if x, ok := v.(*ssa.Extract); ok {
		if y, ok := err.(*ssa.Extract); ok && x.Tuple == y.Tuple {
			if c, ok := x.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
				return nonNilOnSuccess(c.Call.StaticCallee(), x.Index)
			}
		}
		if c, ok := x.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() != nil && nonNilOnSuccess(c.Call.StaticCallee(), x.Index) {
			// the error of that call is nil here
			n := c.Call.Signature().Results().Len()
			for _, r := range *c.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == n-1 && knownNil(e, b) {
					return true
				}
			}
		}
	}
	return false
}

func valNonNil(v ssa.Value) bool {
	switch n := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeInterface, *ssa.Global, *ssa.IndexAddr:
		return true
	case *ssa.ChangeType:
		return valNonNil(n.X)
	case *ssa.Call:
		if f := n.Call.StaticCallee(); f != nil && f.Signature.Results().Len() == 1 {
			return alwaysNonNil(fnName(f))
		}
	}
	return false
}

func errNonNil(e ssa.Value, b *ssa.BasicBlock) bool {
	switch n := e.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if c := n.Call.StaticCallee(); c != nil {
			switch c.String() {
			case "errors.New", "fmt.Errorf":
				return true
			}
		}
	case *ssa.UnOp:
		if g, ok := n.X.(*ssa.Global); ok && isErrorType(derefType(g.Type())) {
			return true
		}
	}
	return guarded(e, b, true)
}

func knownNil(e ssa.Value, b *ssa.BasicBlock) bool { return guarded(e, b, false) }

// guarded: every path to b went through a test that found e to be non-nil (or nil).
func guarded(e ssa.Value, b *ssa.BasicBlock, nonnil bool) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		var isNilTest bool
		if k, ok := c.Y.(*ssa.Const); ok && k.IsNil() && c.X == e {
			isNilTest = true
		}
		if k, ok := c.X.(*ssa.Const); ok && k.IsNil() && c.Y == e {
			isNilTest = true
		}
		if !isNilTest {
			continue
		}
		neq := c.Op.String() == "!="
		if (p.Succs[0] == d) == (neq == nonnil) {
			return true
		}
	}
	return false
}

// successFacts are what follows from a call having returned no error.
func successFacts(t *Term) []*Term {
	if t.op != "eq" {
		return nil
	}
	var c *Term
	for _, a := range t.args {
		if a.op == "res" {
			c = a
		}
	}
	if c == nil || !(t.args[0].op == "nil" || t.args[1].op == "nil") || c.args[0].op != "call" {
		return nil
	}
	fn := funcByName[stripOcc(c.args[0].aux)]
	if fn == nil {
		return nil
	}
	n := fn.Signature.Results().Len()
	if c.aux != strconv.Itoa(n-1) {
		return nil
	}
	var out []*Term
	for i := 0; i < n-1; i++ {
		if nonNilOnSuccess(fn, i) {
			out = append(out, eqT(mk("res", strconv.Itoa(i), c.args[0]), tNil))
		}
	}
	return out
}

func isRepo(name string) bool { return !strings.Contains(name, "/") }

var alwaysMemo = map[string]bool{}

// alwaysNonNil: the only result of the function is a pointer that is never nil.
func alwaysNonNil(name string) bool {
	if v, ok := alwaysMemo[name]; ok {
		return v
	}
	alwaysMemo[name] = false
	fn := funcByName[name]
	if fn == nil || fn.Signature.Results().Len() != 1 || len(fn.Blocks) == 0 {
		return false
	}
	if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok && !valNonNil(r.Results[0]) {
				return false
			}
		}
	}
	alwaysMemo[name] = true
	return true
}

// findContracts interprets the functions for which the shape of the code does not show that a result
// is not nil when there is no error.
func (p *Prog) findContracts() {
	for n := -1; n != len(nonNilMemo); {
		n = len(nonNilMemo)
		p.findContracts1()
		for k, v := range nonNilMemo {
			if !v {
				delete(nonNilMemo, k)
			}
		}
	}
}

func (p *Prog) findContracts1() {
	for name, fn := range p.fns {
		res := fn.Signature.Results()
		if fn.Parent() != nil || res.Len() < 2 || !isErrorType(res.At(res.Len()-1).Type()) {
			continue
		}
		for i := 0; i < res.Len()-1; i++ {
			if _, ok := res.At(i).Type().Underlying().(*types.Pointer); !ok || nonNilOnSuccess(fn, i) {
				continue
			}
			x := newExec(p, pkgOf(fn))
			x.maxSteps = 20000
			r := &Run{fn: fn, x: x, name: name, st: newState()}
			args := rootArgs(fn)
			if fn.Signature.Recv() != nil && isPtr(fn.Params[0].Type()) {
				r.st.assume(eqT(args[0], tNil), false)
			}
			outs := x.run(fn, args, nil, r.st, fnName(fn), nil)
			ok := x.fail == ""
			for _, o := range outs {
				if !r.success(o) {
					continue
				}
				st := o.st.clone()
				st.assume(eqT(o.results[res.Len()-1], tNil), true)
				if known, isNil := x.nilness(st, o.results[i]); !known || isNil {
					ok = false
				}
			}
			if ok {
				nonNilMemo[name+"/"+strconv.Itoa(i)] = true
			}
		}
	}
}
