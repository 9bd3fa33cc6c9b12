package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file decides arithmetic on the positions of tree nodes by abstract
// interpretation of the bits: every bit of a word is 0, 1, a symbol for a bit of
// the input, the opposite of such a symbol, or unknown. Inputs are split into
// cases by their shape (a node by its level, a size by its highest and lowest
// set bits), of which there are finitely many and which together are every
// input. Loops are followed as long as the bits decide their conditions; a
// condition that a single symbol decides splits the case in two. Nothing is
// executed: a case stands for all the numbers that have its shape.

type bit int32

const bUnknown bit = -1

func symBit(i int) bit { return bit(2 + 2*i) }

func (b bit) not() bit {
	if b == bUnknown {
		return b
	}
	return b ^ 1
}

func bAnd(a, b bit) bit {
	switch {
	case a == 0 || b == 0:
		return 0
	case a == 1:
		return b
	case b == 1:
		return a
	case a == bUnknown || b == bUnknown:
		return bUnknown
	case a == b:
		return a
	case a == b.not():
		return 0
	}
	return bUnknown
}

func bOr(a, b bit) bit { return bAnd(a.not(), b.not()).not() }

func bXor(a, b bit) bit {
	switch {
	case a == bUnknown || b == bUnknown:
		return bUnknown
	case a == 0:
		return b
	case b == 0:
		return a
	case a == 1:
		return b.not()
	case b == 1:
		return a.not()
	case a == b:
		return 0
	case a == b.not():
		return 1
	}
	return bUnknown
}

func bMaj(a, b, c bit) bit {
	switch {
	case a == b && a != bUnknown:
		return a
	case a == c && a != bUnknown:
		return a
	case b == c && b != bUnknown:
		return b
	case a != bUnknown && a == b.not():
		return c
	case a != bUnknown && a == c.not():
		return b
	case b != bUnknown && b == c.not():
		return a
	}
	return bUnknown
}

type word struct {
	w    int // its width
	b    [64]bit
	neg  bool // signed
	cond *bcond
}

// bcond is a comparison that the bits do not decide.
type bcond struct {
	op   token.Token
	l, r word
	not  bool
}

func wconst(v uint64, w int) word {
	x := word{w: w}
	for i := 0; i < w; i++ {
		x.b[i] = bit(v >> i & 1)
	}
	return x
}

func (x word) value() (uint64, bool) {
	var v uint64
	for i := 0; i < x.w; i++ {
		switch x.b[i] {
		case 0:
		case 1:
			v |= 1 << i
		default:
			return 0, false
		}
	}
	return v, true
}

func (x word) String() string {
	var s strings.Builder
	if x.cond != nil {
		c := ""
		if x.cond.not {
			c = "not "
		}
		return fmt.Sprintf("%s(%s %s %s)", c, x.cond.l, x.cond.op, x.cond.r)
	}
	for i := x.w - 1; i >= 0; i-- {
		switch b := x.b[i]; {
		case b == 0:
			s.WriteByte('0')
		case b == 1:
			s.WriteByte('1')
		case b == bUnknown:
			s.WriteByte('?')
		case b&1 == 0:
			fmt.Fprintf(&s, "[%d]", (b-2)/2)
		default:
			fmt.Fprintf(&s, "[!%d]", (b-3)/2)
		}
	}
	return s.String()
}

func (x word) same(y word) bool {
	if (x.cond == nil) != (y.cond == nil) {
		return false
	}
	if x.cond != nil {
		return x.cond.op == y.cond.op && x.cond.not == y.cond.not && x.cond.l.same(y.cond.l) && x.cond.r.same(y.cond.r)
	}
	if x.w != y.w {
		return false
	}
	for i := 0; i < x.w; i++ {
		if x.b[i] != y.b[i] || x.b[i] == bUnknown {
			return false
		}
	}
	return true
}

func wmap(x, y word, f func(a, b bit) bit) word {
	z := word{w: x.w, neg: x.neg}
	for i := 0; i < x.w; i++ {
		z.b[i] = f(x.b[i], y.b[i])
	}
	return z
}

func wadd(x, y word, carry bit) word {
	z := word{w: x.w, neg: x.neg}
	for i := 0; i < x.w; i++ {
		z.b[i] = bXor(bXor(x.b[i], y.b[i]), carry)
		carry = bMaj(x.b[i], y.b[i], carry)
	}
	return z
}

func wnot(x word) word {
	for i := 0; i < x.w; i++ {
		x.b[i] = x.b[i].not()
	}
	return x
}

func wshl(x word, n uint64) word {
	z := word{w: x.w, neg: x.neg}
	for i := 0; i < x.w; i++ {
		if uint64(i) >= n {
			z.b[i] = x.b[uint64(i)-n]
		}
	}
	return z
}

func wshr(x word, n uint64) word {
	z := word{w: x.w, neg: x.neg}
	fill := bit(0)
	if x.neg {
		fill = x.b[x.w-1]
	}
	for i := 0; i < x.w; i++ {
		if j := uint64(i) + n; j >= n && j < uint64(x.w) {
			z.b[i] = x.b[j]
		} else {
			z.b[i] = fill
		}
	}
	return z
}

type bitStop struct {
	why   string
	split bit // a symbol which decides the condition
}

type bitPanic struct{}

// less tells whether x < y, 0 or 1, or the symbol to split on.
func wless(x, y word) (known, val bool, split bit) {
	if x.neg {
		// the order of signed numbers is that of unsigned ones with the sign turned
		x.b[x.w-1], y.b[y.w-1] = x.b[x.w-1].not(), y.b[y.w-1].not()
	}
	for i := x.w - 1; i >= 0; i-- {
		a, b := x.b[i], y.b[i]
		if a == b && a != bUnknown {
			continue
		}
		if a == 0 && b == 1 {
			return true, true, 0
		}
		if a == 1 && b == 0 {
			return true, false, 0
		}
		return false, false, pick(a, b)
	}
	return true, false, 0
}

func weq(x, y word) (known, val bool, split bit) {
	split = -1
	for i := x.w - 1; i >= 0; i-- {
		a, b := x.b[i], y.b[i]
		if a == bUnknown || b == bUnknown {
			if split == -1 {
				split = bUnknown
			}
			continue
		}
		if a == b {
			continue
		}
		if a == b.not() {
			return true, false, 0
		}
		if split == -1 {
			split = pick(a, b)
		}
	}
	if split == -1 {
		return true, true, 0
	}
	return false, false, split
}

func pick(a, b bit) bit {
	if a > 1 {
		return a &^ 1
	}
	if b > 1 {
		return b &^ 1
	}
	return bUnknown
}

// bitRun interprets a function over words.
type bitRun struct {
	p     *Prog
	steps int
	keep  bool // comparisons that are only returned are kept
}

func (r *bitRun) stop(format string, a ...any) {
	panic(bitStop{why: fmt.Sprintf(format, a...)})
}

func widthOf(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	}
	return 0, false, false
}

func (r *bitRun) call(fn *ssa.Function, args []word, depth int) []word {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "math/bits" {
		return []word{r.bitsCall(fn.Name(), args)}
	}
	if len(fn.Blocks) == 0 || depth > 20 {
		r.stop("a call of %s cannot be followed", fnName(fn))
	}
	env := map[ssa.Value]word{}
	tuples := map[ssa.Value][]word{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	get := func(v ssa.Value) word {
		if c, ok := v.(*ssa.Const); ok {
			w, neg, ok := widthOf(c.Type())
			if !ok || c.Value == nil {
				r.stop("the constant %s is not a number", c)
			}
			if c.Value.Kind() == constant.Bool {
				if constant.BoolVal(c.Value) {
					return wconst(1, 1)
				}
				return wconst(0, 1)
			}
			iv := constant.ToInt(c.Value)
			var x word
			if u, ok := constant.Uint64Val(iv); ok {
				x = wconst(u, w)
			} else if i, ok := constant.Int64Val(iv); ok {
				x = wconst(uint64(i), w)
			}
			x.neg = neg
			return x
		}
		x, ok := env[v]
		if !ok {
			r.stop("%s is not a number that the bits tell", v.Name())
		}
		return x
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for {
		vals := map[ssa.Value]word{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					vals[ph] = get(ph.Edges[i])
				}
			}
		}
		for k, v := range vals {
			env[k] = v
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			if r.steps++; r.steps > 200000 {
				r.stop("%s does not end", fnName(fn))
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp:
				env[x] = r.binop(x, get(x.X), get(x.Y))
			case *ssa.UnOp:
				v := get(x.X)
				switch x.Op {
				case token.NOT:
					env[x] = notWord(v)
				case token.XOR:
					env[x] = wnot(v)
				case token.SUB:
					env[x] = wadd(wnot(v), wconst(0, v.w), 1)
				default:
					r.stop("%s in %s", x.Op, fnName(fn))
				}
			case *ssa.Convert, *ssa.ChangeType:
				v := get(*in.Operands(nil)[0])
				w, neg, ok := widthOf(x.(ssa.Value).Type())
				if !ok {
					r.stop("a conversion in %s", fnName(fn))
				}
				z := word{w: w, neg: neg}
				for i := 0; i < w; i++ {
					switch {
					case i < v.w:
						z.b[i] = v.b[i]
					case v.neg:
						z.b[i] = v.b[v.w-1]
					}
				}
				env[x.(ssa.Value)] = z
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil {
					r.stop("a call in %s", fnName(fn))
				}
				var as []word
				for _, a := range x.Call.Args {
					as = append(as, get(a))
				}
				res := r.call(f, as, depth+1)
				if len(res) == 1 {
					env[x] = res[0]
				} else {
					tuples[x] = res
				}
			case *ssa.Extract:
				t, ok := tuples[x.Tuple]
				if !ok {
					r.stop("a result in %s", fnName(fn))
				}
				env[x] = t[x.Index]
			case *ssa.If:
				v := get(x.Cond)
				if v.cond != nil {
					r.decide(v.cond)
				}
				c, ok := v.value()
				if !ok {
					panic(bitStop{why: "a condition in " + fnName(fn) + " is not decided", split: pick(v.b[0], 0)})
				}
				if c == 1 {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var out []word
				for _, v := range x.Results {
					out = append(out, get(v))
				}
				return out
			case *ssa.Panic:
				panic(bitPanic{})
			case *ssa.MakeInterface:
				// the text of a panic
			default:
				r.stop("%T in %s", in, fnName(fn))
			}
		}
		prev, b = b, next
	}
}

func notWord(v word) word {
	if v.cond != nil {
		c := *v.cond
		c.not = !c.not
		return word{w: 1, cond: &c}
	}
	return wnot(v)
}

func (r *bitRun) decide(c *bcond) {
	var split bit
	if c.op == token.EQL {
		_, _, split = weq(c.l, c.r)
	} else {
		_, _, split = wless(c.l, c.r)
	}
	panic(bitStop{why: fmt.Sprintf("whether %s %s %s is not decided", c.l, c.op, c.r), split: split})
}

func (r *bitRun) binop(x *ssa.BinOp, a, b word) word {
	amount := func() uint64 {
		n, ok := b.value()
		if !ok {
			s := bUnknown
			for i := 0; i < b.w; i++ {
				if b.b[i] > 1 {
					s = b.b[i] &^ 1
				}
			}
			panic(bitStop{why: "the amount of a shift is not decided", split: s})
		}
		return n
	}
	boolean := func(known, val bool, op token.Token, l, rr word, not bool) word {
		if !known {
			return word{w: 1, cond: &bcond{op, l, rr, not}}
		}
		if val != not {
			return wconst(1, 1)
		}
		return wconst(0, 1)
	}
	switch x.Op {
	case token.ADD:
		return wadd(a, b, 0)
	case token.SUB:
		return wadd(a, wnot(b), 1)
	case token.AND:
		return wmap(a, b, bAnd)
	case token.OR:
		return wmap(a, b, bOr)
	case token.XOR:
		return wmap(a, b, bXor)
	case token.AND_NOT:
		return wmap(a, wnot(b), bAnd)
	case token.SHL:
		return wshl(a, amount())
	case token.SHR:
		return wshr(a, amount())
	case token.MUL:
		if _, ok := a.value(); ok {
			a, b = b, a
		}
		n, ok := b.value()
		if !ok {
			r.stop("a product of two unknown numbers")
		}
		z := word{w: a.w, neg: a.neg}
		for i := 0; i < a.w; i++ {
			if n>>i&1 == 1 {
				z = wadd(z, wshl(a, uint64(i)), 0)
			}
		}
		return z
	case token.REM, token.QUO:
		n, ok := b.value()
		if ok && n != 0 && n&(n-1) == 0 && !a.neg {
			k := uint64(0)
			for n>>k > 1 {
				k++
			}
			if x.Op == token.QUO {
				return wshr(a, k)
			}
			return wmap(a, wconst(n-1, a.w), bAnd)
		}
		v, ok2 := a.value()
		if !ok || !ok2 || n == 0 {
			r.stop("a quotient of unknown numbers")
		}
		z := v / n
		if x.Op == token.REM {
			z = v % n
		}
		if a.neg && (a.b[a.w-1] != 0 || b.b[b.w-1] != 0) {
			r.stop("a quotient of negative numbers")
		}
		q := wconst(z, a.w)
		q.neg = a.neg
		return q
	case token.EQL, token.NEQ:
		known, v, _ := weq(a, b)
		return boolean(known, v, token.EQL, a, b, x.Op == token.NEQ)
	case token.LSS:
		known, v, _ := wless(a, b)
		return boolean(known, v, token.LSS, a, b, false)
	case token.GTR:
		known, v, _ := wless(b, a)
		return boolean(known, v, token.LSS, b, a, false)
	case token.LEQ: // not b < a
		known, v, _ := wless(b, a)
		return boolean(known, v, token.LSS, b, a, true)
	case token.GEQ:
		known, v, _ := wless(a, b)
		return boolean(known, v, token.LSS, a, b, true)
	}
	r.stop("the operation %s", x.Op)
	return word{}
}

// bitsCall gives the functions of math/bits their meaning.
func (r *bitRun) bitsCall(name string, args []word) word {
	x := args[0]
	intw := func(n int) word {
		z := wconst(uint64(n), 64)
		z.neg = true
		return z
	}
	switch {
	case strings.HasPrefix(name, "Len"), strings.HasPrefix(name, "LeadingZeros"):
		for i := x.w - 1; i >= 0; i-- {
			if x.b[i] == 0 {
				continue
			}
			if x.b[i] != 1 {
				panic(bitStop{why: "the highest bit is not decided", split: pick(x.b[i], 0)})
			}
			if strings.HasPrefix(name, "Len") {
				return intw(i + 1)
			}
			return intw(x.w - 1 - i)
		}
		if strings.HasPrefix(name, "Len") {
			return intw(0)
		}
		return intw(x.w)
	case strings.HasPrefix(name, "TrailingZeros"):
		for i := 0; i < x.w; i++ {
			if x.b[i] == 0 {
				continue
			}
			if x.b[i] != 1 {
				panic(bitStop{why: "the lowest bit is not decided", split: pick(x.b[i], 0)})
			}
			return intw(i)
		}
		return intw(x.w)
	}
	r.stop("a call of bits.%s", name)
	return word{}
}

func substBit(b, s, v bit) bit {
	switch b {
	case s:
		return v
	case s.not():
		return v.not()
	}
	return b
}

func (x word) subst(s, v bit) word {
	for i := 0; i < x.w; i++ {
		x.b[i] = substBit(x.b[i], s, v)
	}
	if x.cond != nil {
		c := *x.cond
		c.l, c.r = c.l.subst(s, v), c.r.subst(s, v)
		x.cond = &c
	}
	return x
}

type bitResult struct {
	args, out []word
	panics    bool
}

// bitCases runs a function on one case, which is split where it has to be.
func (k *Checker) bitCases(fn *ssa.Function, args []word, want word, f func(res bitResult, want word)) (failed string) {
	n := 0
	var run func(args []word, want word) string
	run = func(args []word, want word) string {
		if n++; n > 5000 {
			return "too many cases"
		}
		r := &bitRun{p: k.p}
		res := bitResult{args: args}
		var stop *bitStop
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case bitStop:
					stop = &e
				case bitPanic:
					res.panics = true
				default:
					panic(e)
				}
			}()
			res.out = r.call(fn, args, 0)
		}()
		k.steps += r.steps
		if stop == nil {
			f(res, want)
			return ""
		}
		if stop.split <= 1 {
			return stop.why
		}
		for v := bit(0); v < 2; v++ {
			var as []word
			for _, a := range args {
				as = append(as, a.subst(stop.split, v))
			}
			if e := run(as, want.subst(stop.split, v)); e != "" {
				return e
			}
		}
		return ""
	}
	return run(args, want)
}
