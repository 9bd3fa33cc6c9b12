package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file decides that no failure is swallowed: from every call that may
// fail, on every path of the control flow graph of the function that makes it,
// the error is tested before the function reports success, and if it is not nil
// the function reports a failure too, unless the error was handed on.

var errType = types.Universe.Lookup("error").Type()

// infallible lists calls whose documentation says that the error is always nil.
func infallible(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		m := c.Method.Name()
		return m == "Write" && strings.HasSuffix(c.Value.Type().String(), "hash.Hash")
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	n := f.String()
	if n == "encoding/binary.Write" && len(c.Args) == 3 { // a number of a fixed size, to memory
		w, ok := c.Args[0].(*ssa.MakeInterface)
		v, ok2 := c.Args[2].(*ssa.MakeInterface)
		if !ok || !ok2 || w.X.Type().String() != "*bytes.Buffer" {
			return false
		}
		b, ok := v.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0 && b.Kind() != types.Int && b.Kind() != types.Uint && b.Kind() != types.Uintptr
	}
	if n == "crypto/rand.Read" { // it ends the program instead
		return true
	}
	return strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint")
}

func (k *Checker) errorsKept(rule string, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			res := com.Signature().Results()
			at := errAt(res)
			if at < 0 || infallible(com) || unreachable(fn, b) {
				continue
			}
			if _, ok := in.(*ssa.Call); !ok { // deferred or concurrent: there is nobody to tell
				continue
			}
			k.obls++
			k.sites++
			v := errOf(in.(*ssa.Call), res.Len(), at)
			what := describeCall(com)
			if v == nil {
				k.violatePos(rule, in.Pos(), "the error of %s is not looked at", what)
				continue
			}
			if p := dropped(fn, b, i, v, in); p != "" {
				k.violatePos(rule, in.Pos(), "the error of %s %s", what, p)
				continue
			}
			k.proved++
		}
	}
}

func describeCall(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Value.Type().String() + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "a function value"
}

// errAt is the position of the error among results, or -1. It is the last one
// by convention, but a helper may return it elsewhere.
func errAt(res *types.Tuple) int {
	for i := res.Len() - 1; i >= 0; i-- {
		if types.Identical(res.At(i).Type(), errType) {
			return i
		}
	}
	return -1
}

// errOf is the value that holds the error of a call.
func errOf(c *ssa.Call, n, at int) ssa.Value {
	if n == 1 {
		if len(*c.Referrers()) == 0 {
			return nil
		}
		return c
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == at {
			return e
		}
	}
	return nil
}

func constBool(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// unreachable reports whether no path of the function leads to a block.
func unreachable(fn *ssa.Function, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(*ssa.BasicBlock)
	visit = func(x *ssa.BasicBlock) {
		if seen[x] {
			return
		}
		seen[x] = true
		for i, s := range x.Succs {
			if j, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
				if v, ok := constBool(j.Cond); ok && v != (i == 0) {
					continue
				}
			}
			visit(s)
		}
	}
	visit(fn.Blocks[0])
	return !seen[b]
}

type errPath struct {
	known bool                    // the error is known not to be nil
	env   map[ssa.Value]ssa.Value // the values of the phis on this path
	non   map[ssa.Value]bool      // other errors known not to be nil
	null  map[ssa.Value]bool      // other errors known to be nil
}

func (p *errPath) clone() *errPath {
	q := &errPath{known: p.known, env: map[ssa.Value]ssa.Value{}, non: map[ssa.Value]bool{}, null: map[ssa.Value]bool{}}
	for k, v := range p.env {
		q.env[k] = v
	}
	for k := range p.non {
		q.non[k] = true
	}
	for k := range p.null {
		q.null[k] = true
	}
	return q
}

func (p *errPath) key(b *ssa.BasicBlock) string {
	var s []string
	for k, v := range p.env {
		s = append(s, k.Name()+"="+v.Name())
	}
	for k := range p.non {
		s = append(s, "+"+k.Name())
	}
	for k := range p.null {
		s = append(s, "-"+k.Name())
	}
	sort.Strings(s)
	return fmt.Sprint(b.Index, p.known, s)
}

func (p *errPath) val(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.Phi:
			if w, ok := p.env[x]; ok && w != v {
				return w
			}
		}
		return v
	}
}

// dropped returns how the error can get lost, or "".
func dropped(fn *ssa.Function, b *ssa.BasicBlock, at int, err ssa.Value, call ssa.Instruction) string {
	results := fn.Signature.Results()
	pos := errAt(results)
	reports := pos >= 0
	seen := map[string]bool{}
	steps := 0
	var walk func(b *ssa.BasicBlock, at int, p *errPath) string
	edge := func(from, to *ssa.BasicBlock, p *errPath) string {
		p = p.clone()
		i := -1
		for j, x := range to.Preds {
			if x == from {
				i = j
			}
		}
		vals := map[ssa.Value]ssa.Value{}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if i >= 0 && (types.Identical(ph.Type(), errType) || types.Identical(ph.Type(), types.Typ[types.Bool])) {
				vals[ph] = p.val(ph.Edges[i])
			}
		}
		for ph, v := range vals {
			p.env[ph] = v
			delete(p.non, ph)
			delete(p.null, ph)
		}
		k := p.key(to)
		if seen[k] {
			return ""
		}
		seen[k] = true
		return walk(to, 0, p)
	}
	walk = func(b *ssa.BasicBlock, at int, p *errPath) string {
		if steps++; steps > 20000 {
			return ""
		}
		for i := at; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == call {
				if p.known && candidate(call) {
					return ""
				}
				if p.known {
					return "is overwritten by a further attempt after it was found not to be nil"
				}
				return "is overwritten before it is looked at"
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.Extract, *ssa.ChangeInterface:
				continue
			case *ssa.Panic:
				return ""
			case *ssa.Return:
				if !reports {
					if p.known {
						return ""
					}
					return "is not looked at on a path to the end"
				}
				// deferred functions may use named results: those are loads
				r := p.val(x.Results[pos])
				switch y := r.(type) {
				case *ssa.Const:
					if isNilConst(y) {
						if p.known {
							return "is not nil on a path that reports success at line " + line(fn, x.Pos())
						}
						return "is not looked at on a path that reports success at line " + line(fn, x.Pos())
					}
				case *ssa.MakeInterface, *ssa.UnOp:
					return ""
				}
				if r == err || p.non[r] || makesError(r) {
					return ""
				}
				if p.known {
					return "is not nil on a path that may report success at line " + line(fn, x.Pos())
				}
				return "is not looked at on a path that may report success at line " + line(fn, x.Pos())
			case *ssa.If:
				cond := p.val(x.Cond)
				neg := false
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, neg = p.val(u.X), !neg
				}
				if v, ok := constBool(cond); ok {
					if v != neg {
						return edge(b, b.Succs[0], p)
					}
					return edge(b, b.Succs[1], p)
				}
				if o, ok := cond.(*ssa.BinOp); ok && (o.Op == token.EQL || o.Op == token.NEQ) {
					l, r := p.val(o.X), p.val(o.Y)
					if isNilConst(l) {
						l, r = r, l
					}
					if isNilConst(r) && types.Identical(l.Type(), errType) {
						isnil, not := b.Succs[0], b.Succs[1]
						if (o.Op == token.NEQ) != neg {
							isnil, not = not, isnil
						}
						q := p.clone()
						if l == err {
							q.known = true
							return edge(b, not, q)
						}
						if !p.non[l] && !makesError(l) {
							q := p.clone()
							q.null[l] = true
							if s := edge(b, isnil, q); s != "" {
								return s
							}
						}
						if p.null[l] || isNilConst(l) {
							return ""
						}
						q.non[l] = true
						return edge(b, not, q)
					}
					if l == err || r == err { // compared with a particular error: handled if it is that one
						other := b.Succs[1]
						if (o.Op == token.NEQ) != neg {
							other = b.Succs[0]
						}
						return edge(b, other, p)
					}
				}
				for _, s := range b.Succs {
					if r := edge(b, s, p); r != "" {
						return r
					}
				}
				return ""
			case *ssa.Jump:
				return edge(b, b.Succs[0], p)
			case *ssa.BinOp:
				continue
			default:
				// the error is handed on
				for _, o := range in.Operands(nil) {
					if *o != nil && p.val(*o) == err {
						return ""
					}
				}
			}
		}
		return ""
	}
	return walk(b, at+1, &errPath{env: map[ssa.Value]ssa.Value{}, non: map[ssa.Value]bool{}, null: map[ssa.Value]bool{}})
}

// candidate reports whether a call tries to decode a candidate: it may fail, and
// be tried again with another one.
func candidate(in ssa.Instruction) bool {
	f := in.(*ssa.Call).Call.StaticCallee()
	return f != nil && f.Name() == "SetBytes"
}

func makesError(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	return f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf")
}

func line(fn *ssa.Function, p token.Pos) string {
	return fmt.Sprint(fn.Prog.Fset.Position(p).Line)
}

func init() {
	register("C24", ``, func(k *Checker) {
		for _, fn := range k.p.all {
			if fn.Synthetic != "" && len(fn.TypeArgs()) == 0 || fn.TypeParams().Len() > len(fn.TypeArgs()) { // instances of generic functions are checked
				continue
			}
			k.funcs[fnName(fn)] = true
			k.errorsKept("error.kept", fn)
		}
		k.rules = append(k.rules, "error.kept")
	})
}
