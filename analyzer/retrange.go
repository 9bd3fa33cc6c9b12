package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// What a function returns as one of its results is, for some functions, one of a few constants: this is
// read from its return statements, through the functions and methods that it passes the result on from.

type interval struct {
	lo, hi int64
	ok     bool
}

type retKey struct {
	fn *ssa.Function
	i  int
}

type retRanges struct {
	p    *Prog
	memo map[retKey]interval
}

const maxConst = 1 << 16

func (r *retRanges) of(fn *ssa.Function, i int) interval {
	k := retKey{fn, i}
	if v, ok := r.memo[k]; ok {
		return v
	}
	r.memo[k] = interval{} // a recursive function is not known
	if fn.Blocks == nil || !r.p.inRepo(fn) {
		return interval{}
	}
	var out interval
	first := true
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := r.value(ret.Results[i], map[ssa.Value]bool{})
		if !v.ok {
			return interval{}
		}
		if first {
			out, first = v, false
			continue
		}
		out.lo, out.hi = min(out.lo, v.lo), max(out.hi, v.hi)
	}
	r.memo[k] = out
	return out
}

func (r *retRanges) value(v ssa.Value, seen map[ssa.Value]bool) interval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil || v.Value.Kind() != constant.Int {
			return interval{}
		}
		n, ok := constant.Int64Val(v.Value)
		if !ok || n > maxConst || n < -maxConst {
			return interval{}
		}
		return interval{n, n, true}
	case *ssa.Phi:
		if seen[v] {
			return interval{}
		}
		seen[v] = true
		var out interval
		for j, e := range v.Edges {
			w := r.value(e, seen)
			if !w.ok {
				return interval{}
			}
			if j == 0 {
				out = w
			} else {
				out.lo, out.hi = min(out.lo, w.lo), max(out.hi, w.hi)
			}
		}
		return out
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return r.call(c, v.Index)
		}
	case *ssa.Call:
		return r.call(v, 0)
	case *ssa.UnOp:
		if v.Op == token.SUB {
			w := r.value(v.X, seen)
			return interval{-w.hi, -w.lo, w.ok}
		}
	}
	return interval{}
}

func (r *retRanges) call(c *ssa.Call, i int) interval {
	cc := c.Common()
	if fn := cc.StaticCallee(); fn != nil {
		return r.of(fn, i)
	}
	if !cc.IsInvoke() {
		return interval{}
	}
	iface, ok := cc.Value.Type().Underlying().(*types.Interface)
	n, isNamed := types.Unalias(cc.Value.Type()).(*types.Named)
	if !ok || !isNamed || n.Obj().Pkg() == nil || !r.p.inPkgs(n.Obj().Pkg()) {
		return interval{}
	}
	var out interval
	first := true
	for _, fn := range r.p.fns {
		recv := fn.Signature.Recv()
		if recv == nil || fn.Name() != cc.Method.Name() || !types.Implements(recv.Type(), iface) {
			continue
		}
		w := r.of(fn, i)
		if !w.ok {
			return interval{}
		}
		if first {
			out, first = w, false
		} else {
			out.lo, out.hi = min(out.lo, w.lo), max(out.hi, w.hi)
		}
	}
	return out
}

func (p *Prog) inPkgs(q *types.Package) bool {
	for _, sp := range p.ssa {
		if sp.Pkg == q {
			return true
		}
	}
	return false
}

// knownRange assumes what is known of the results of a call.
func (x *Exec) knownRange(st *State, target *ssa.Function, call *Term) {
	if target == nil || !x.p.inRepo(target) {
		return
	}
	if x.p.ranges == nil {
		x.p.ranges = &retRanges{p: x.p, memo: map[retKey]interval{}}
	}
	res := target.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		b, ok := res.At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned != 0 {
			continue
		}
		r := x.p.ranges.of(target, i)
		if !r.ok || r.hi-r.lo > 8 {
			continue
		}
		t := call
		if res.Len() > 1 {
			t = mk("res", strconv.Itoa(i), call)
		}
		st.assume(ltT(t, tInt(r.lo)), false)
		st.assume(ltT(tInt(r.hi), t), false)
	}
}
