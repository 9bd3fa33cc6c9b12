package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) val(c *Cfg, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return tZero(v.Type())
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && v.Value.Kind() != constant.Int {
			return mk("const", v.Value.ExactString())
		}
		return tConst(v.Value, v.Type())
	case *ssa.Global:
		t := mkT("global", globName(v), v.Type())
		return t
	case *ssa.Function:
		return x.funcTerm(v)
	case *ssa.Builtin:
		return mk("func", "builtin."+v.Name())
	}
	if t, ok := c.env[v]; ok && t != nil {
		return t
	}
	t := mkT("undef", v.Parent().String()+"."+v.Name(), v.Type())
	return t
}

var funcByName = map[string]*ssa.Function{}

func (x *Exec) funcTerm(f *ssa.Function) *Term {
	n := fnName(f)
	funcByName[n] = f
	return mk("func", n)
}

func globName(g *ssa.Global) string { return shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name() }

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// heap ------------------------------------------------------------------------------------------

// concrete are the names of the types that are no interfaces: a value has at most one of them.
var concrete = map[string]bool{}

func (x *Exec) initial(base *Term) *Term {
	switch x.kind[base] {
	case 'm':
		if base.op == "mkmap" {
			return mk("mempty", "")
		}
		return base
	case 's':
		return base
	}
	return mkT("ld", "", derefType(base.typ), base)
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (x *Exec) load(st *State, p *Term) *Term {
	if v, ok := st.heap[p]; ok {
		return v
	}
	switch p.op {
	case "fa":
		return field(x.load(st, p.args[0]), p.aux)
	case "ia":
		b := p.args[0]
		if x.kind[p] == 'a' { // pointer to an array
			return elemT(x.load(st, b), p.args[1])
		}
		return elemT(x.sliceVal(st, b), p.args[1])
	case "ref":
		return p.args[0]
	}
	for _, K := range st.loops {
		if x.varies[K] && mentions(p, K) {
			return mkT("ld", "", derefType(p.typ), p, mk("it", "", K))
		}
	}
	return mkT("ld", "", derefType(p.typ), p)
}

func (x *Exec) store(st *State, p, v *Term) {
	switch v.op {
	case "comp", "lit", "cat":
		// a list whose elements were assigned after it was built by appending
		if w, ok := st.heap[v]; ok && x.kind[v] == 's' {
			v = w
		}
	}
	switch p.op {
	case "fa":
		x.store(st, p.args[0], updField(x.load(st, p.args[0]), p.aux, v))
		return
	case "ia":
		b := p.args[0]
		if x.kind[p] == 'a' {
			x.store(st, b, eupd(x.load(st, b), p.args[1], v))
			return
		}
		x.sliceStore(st, b, p.args[1], v)
		return
	}
	st.heap[p] = v
}

// sliceVal is the current contents of a slice value.
func (x *Exec) sliceVal(st *State, s *Term) *Term {
	if v, ok := st.heap[s]; ok && x.kind[s] == 's' {
		return v
	}
	if s.op == "slice" {
		b := s.args[0]
		if b.op == "arrptr" {
			return sliceT(x.load(st, b.args[0]), s.args[1], s.args[2])
		}
		return sliceT(x.sliceVal(st, b), s.args[1], s.args[2])
	}
	if s.op == "arrptr" {
		return x.load(st, s.args[0])
	}
	return s
}

func (x *Exec) sliceStore(st *State, s, i, v *Term) {
	if s.op == "slice" {
		b := s.args[0]
		if b.op == "arrptr" {
			x.store(st, b.args[0], eupd(x.load(st, b.args[0]), sum(s.args[1], i), v))
			return
		}
		x.sliceStore(st, b, sum(s.args[1], i), v)
		return
	}
	if s.op == "arrptr" {
		x.store(st, s.args[0], eupd(x.load(st, s.args[0]), i, v))
		return
	}
	x.kind[s] = 's'
	st.heap[s] = eupd(x.sliceVal(st, s), i, v)
}

func (x *Exec) mapVal(st *State, m *Term) *Term {
	x.kind[m] = 'm'
	if v, ok := st.heap[m]; ok {
		return v
	}
	return x.initial(m)
}

// snap describes a value without reference to memory that was allocated on this path.
func (x *Exec) snap(st *State, t *Term, d int) *Term {
	if d > 6 {
		return t
	}
	switch t.op {
	case "alloc", "mkbuf", "mkhash":
		v := x.load(st, t)
		if v.op == "ld" {
			return t
		}
		return mk("ref", "", x.snap(st, v, d+1))
	case "iface":
		return mk("iface", t.aux, x.snap(st, t.args[0], d+1))
	case "upd":
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = x.snap(st, a, d+1)
		}
		r := t
		names := strings.Split(t.aux, ",")
		r = args[0]
		for i, n := range names {
			r = updField(r, n, args[i+1])
		}
		if t.args[0].typ != nil {
			if s, ok := t.args[0].typ.Underlying().(*types.Struct); ok {
				r = etaStruct(r, s)
			}
		}
		return r
	case "lit", "cat", "comp":
		if v, ok := st.heap[t]; ok && v != t && x.kind[t] == 's' {
			return x.snap(st, v, d+1)
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = x.snap(st, a, d+1)
		}
		return rebuild(t, args)
	case "slice", "arrptr", "mkslice":
		v := x.sliceVal(st, t)
		if v != t {
			return x.snap(st, v, d+1)
		}
		return t
	case "mkmap":
		v := x.mapVal(st, t)
		if v != t {
			return x.snap(st, v, d+1)
		}
		return t
	case "mput":
		return mk("mput", "", x.snap(st, t.args[0], d+1), x.snap(st, t.args[1], d+1), x.snap(st, t.args[2], d+1))
	case "fa":
		if p := rootPtr(t); p.op == "alloc" {
			return mk("ref", "", x.snap(st, x.load(st, t), d+1))
		}
		if p := rootPtr(t); st.heap[p] != nil && x.kind[p] == 0 {
			return mk("ref", "", x.snap(st, x.load(st, t), d+1))
		}
		return t
	case "ia":
		if p := rootPtr(t); p.op == "alloc" {
			return mk("ref", "", x.snap(st, x.load(st, t), d+1))
		}
	}
	if v, ok := st.heap[t]; ok && v != t {
		switch x.kind[t] {
		case 's', 'm':
			return x.snap(st, v, d+1)
		case 0:
			if t.op != "global" && d > 0 {
				return mk("ref", "", x.deep(st, t, v, d))
			}
		}
	} else if !ok {
		v := mkT("ld", "", derefType(t.typ), t)
		if w := x.deep(st, t, v, d); w != v {
			return mk("ref", "", w)
		}
	}
	return t
}

// deep is the contents v of the memory at p, with changes to what its fields lead to.
func (x *Exec) deep(st *State, p, v *Term, d int) *Term {
	var nested []*Term
	for b := range st.heap {
		if b.op != "f" {
			continue
		}
		r := b
		for r.op == "f" {
			r = r.args[0]
		}
		if r.op == "ld" && r.args[0] == p {
			nested = append(nested, b)
		}
	}
	sort.Slice(nested, func(i, j int) bool { return nested[i].id < nested[j].id })
	for _, b := range nested {
		var path []string
		for r := b; r.op == "f"; r = r.args[0] {
			path = append([]string{r.aux}, path...)
		}
		cur := v
		for _, f := range path {
			cur = field(cur, f)
		}
		if cur != b {
			continue
		}
		var w *Term
		if k := x.kind[b]; k == 's' || k == 'm' {
			w = x.snap(st, st.heap[b], d+1)
		} else {
			w = mk("ref", "", x.snap(st, st.heap[b], d+1))
		}
		if w != b {
			v = setPath(v, path, w)
		}
	}
	return v
}

func setPath(v *Term, path []string, w *Term) *Term {
	if len(path) == 0 {
		return w
	}
	return updField(v, path[0], setPath(field(v, path[0]), path[1:], w))
}

func rootPtr(t *Term) *Term {
	for t.op == "fa" || t.op == "ia" || t.op == "slice" || t.op == "arrptr" {
		t = t.args[0]
	}
	return t
}

// blocks ----------------------------------------------------------------------------------------

type pend struct {
	c *Cfg
	i int
}

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, c0 *Cfg, push func(from, to *ssa.BasicBlock, c *Cfg)) (rets []Out) {
	work := []pend{{c0, 0}}
	for len(work) > 0 && x.fail == "" {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		c := w.c
	instrs:
		for i := w.i; i < len(b.Instrs); i++ {
			x.steps++
			if x.steps > x.maxSteps {
				x.fail = "the analysis budget ran out in " + fnName(fr.fn)
				return
			}
			if c.st.facts.bad {
				break
			}
			instr := b.Instrs[i]
			switch n := instr.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				if a, eb, same, ok := boolEq(n.Cond); ok && (comparison(x.val(c, a)) || comparison(x.val(c, eb))) {
					// two conditions are compared: each of them is decided by itself
					at, bt := x.val(c, a), x.val(c, eb)
					for _, av := range []bool{true, false} {
						for _, bv := range []bool{true, false} {
							cc := c.clone()
							if !cc.st.assume(at, av) || !cc.st.assume(bt, bv) {
								continue
							}
							i := 1
							if (av == bv) == same {
								i = 0
							}
							push(b, b.Succs[i], cc)
						}
					}
					break instrs
				}
				cond := x.val(c, n.Cond)
				t, f := c, c
				v, known := c.st.facts.quick(cond)
				if !known {
					f = c.clone()
					if !f.st.assume(cond, false) {
						f = nil
					}
					if !t.st.assume(cond, true) {
						t = nil
					}
				} else if v {
					f = nil
				} else {
					t = nil
				}
				if t != nil {
					push(b, b.Succs[0], t)
				}
				if f != nil {
					push(b, b.Succs[1], f)
				}
				break instrs
			case *ssa.Jump:
				push(b, b.Succs[0], c)
				break instrs
			case *ssa.Return:
				var rs []*Term
				for _, r := range n.Results {
					rs = append(rs, x.val(c, r))
				}
				rets = append(rets, Out{st: c.st, results: rs, pos: n.Pos()})
				break instrs
			case *ssa.Panic:
				x.ev(&Event{kind: "panic", name: "panic", args: []*Term{x.val(c, n.X)}, pos: n.Pos(), fn: fr.fn}, c)
				break instrs
			case *ssa.RunDefers:
				cs := []*Cfg{c}
				for k := len(c.defers) - 1; k >= 0; k-- {
					d := c.defers[k]
					var next []*Cfg
					for _, cc := range cs {
						for _, r := range x.call(fr, cc, d.instr, d.fn, d.args) {
							next = append(next, r.c)
						}
					}
					cs = next
				}
				for _, cc := range cs {
					cc.defers = nil
				}
				if len(cs) == 0 {
					break instrs
				}
				for _, cc := range cs[1:] {
					work = append(work, pend{cc, i + 1})
				}
				c = cs[0]
			case *ssa.Defer:
				fn, args := x.callee(c, &n.Call)
				c.defers = append(c.defers[:len(c.defers):len(c.defers)], &deferred{instr: n, fn: fn, args: args})
				x.ev(&Event{kind: "defer", name: x.calleeName(&n.Call, fn), args: args, pos: n.Pos(), fn: fr.fn}, c)
			case *ssa.Go:
				fn, args := x.callee(c, &n.Call)
				var snaps []*Term
				for _, a := range args {
					snaps = append(snaps, x.snap(c.st, a, 0))
				}
				x.ev(&Event{kind: "go", name: x.calleeName(&n.Call, fn), args: append([]*Term{fn}, snaps...), raw: append([]*Term{fn}, args...), pos: n.Pos(), fn: fr.fn}, c)
				c.st.assume(mk("did", "", mk("started", "", args...)), true)
			case *ssa.Call:
				fn, args := x.callee(c, &n.Call)
				outs := x.call(fr, c, n, fn, args)
				if len(outs) == 0 {
					break instrs
				}
				for _, o := range outs[1:] {
					o.c.env[n] = o.v
					work = append(work, pend{o.c, i + 1})
				}
				c = outs[0].c
				c.env[n] = outs[0].v
			default:
				if !x.simple(fr, c, instr) {
					break instrs
				}
			}
		}
	}
	return rets
}

func comparison(t *Term) bool {
	for t.op == "not" {
		t = t.args[0]
	}
	return t.op == "eq" || t.op == "lt" || t.op == "is"
}

// boolEq recognises a condition that compares two other conditions.
func boolEq(v ssa.Value) (a, b ssa.Value, same, ok bool) {
	same = true
	for {
		u, isNot := v.(*ssa.UnOp)
		if !isNot || u.Op != token.NOT {
			break
		}
		v, same = u.X, !same
	}
	n, isBin := v.(*ssa.BinOp)
	if !isBin || n.Op != token.EQL && n.Op != token.NEQ {
		return nil, nil, false, false
	}
	if t, isB := n.X.Type().Underlying().(*types.Basic); !isB || t.Info()&types.IsBoolean == 0 {
		return nil, nil, false, false
	}
	if n.Op == token.NEQ {
		same = !same
	}
	return n.X, n.Y, same, true
}

func (x *Exec) set(c *Cfg, v ssa.Value, t *Term) {
	if isUnsigned(v.Type()) && t.op != "const" {
		t.nonneg = true
	}
	if t.typ == nil && (t.op == "f" || t.op == "elem" || t.op == "res" || t.op == "ld" || t.op == "lookup" || t.op == "as") {
		t.typ = v.Type()
	}
	c.env[v] = t
}

func (x *Exec) simple(fr *Frame, c *Cfg, instr ssa.Instruction) bool {
	st := c.st
	switch n := instr.(type) {
	case *ssa.Alloc:
		k := fr.path + "|" + fr.fn.String() + "|" + n.Name()
		id, ok := x.allocs[k]
		if !ok {
			id = len(x.allocs) + 1
			x.allocs[k] = id
		}
		el := n.Type().Underlying().(*types.Pointer).Elem()
		t := mkT("alloc", typeName(el)+"#"+strconv.Itoa(id), n.Type())
		st.heap[t] = tZero(el)
		if isBuffer(el) {
			st.heap[t] = lit()
		}
		c.env[n] = t
	case *ssa.Store:
		p, v := x.val(c, n.Addr), x.val(c, n.Val)
		x.memAccess(fr, c, n.Addr, p, n.Pos())
		if r := rootPtr(p); r.op != "alloc" || true {
			x.ev(&Event{kind: "store", name: storeName(n.Addr), recv: p, args: []*Term{x.snap(st, v, 0)}, raw: []*Term{v}, pos: n.Pos(), fn: fr.fn}, c)
		}
		x.store(st, p, v)
	case *ssa.FieldAddr:
		p := x.val(c, n.X)
		x.memAccess(fr, c, n.X, p, n.Pos())
		stt := n.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		t := mkT("fa", stt.Field(n.Field).Name(), n.Type(), p)
		c.env[n] = t
	case *ssa.Field:
		stt := n.X.Type().Underlying().(*types.Struct)
		x.set(c, n, field(x.val(c, n.X), stt.Field(n.Field).Name()))
	case *ssa.IndexAddr:
		s, i := x.val(c, n.X), x.val(c, n.Index)
		isArr := false
		if pt, ok := n.X.Type().Underlying().(*types.Pointer); ok {
			isArr = true
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && !isConst(i) {
				x.indexEv(fr, c, tInt(at.Len()), i, n.Pos())
			}
		} else {
			x.indexEv(fr, c, lenT(x.sliceVal(st, s)), i, n.Pos())
		}
		var t *Term
		if isArr {
			t = mkT("ia", "", n.Type(), s, i)
			x.kind[t] = 'a'
		} else {
			t = x.elemAddr(s, i, n.Type())
		}
		c.env[n] = t
	case *ssa.Index:
		x.set(c, n, elemT(x.val(c, n.X), x.val(c, n.Index)))
	case *ssa.UnOp:
		switch n.Op {
		case token.MUL:
			p := x.val(c, n.X)
			x.memAccess(fr, c, n.X, p, n.Pos())
			if g, ok := n.X.(*ssa.Global); ok {
				if x.p.sentinels[g] {
					c.env[n] = mk("err", "@"+globName(g))
					return true
				}
			}
			x.set(c, n, x.load(st, p))
		case token.NOT:
			c.env[n] = notT(x.val(c, n.X))
		case token.SUB:
			x.set(c, n, sub(tZeroI, x.val(c, n.X)))
		case token.ARROW:
			ch := x.val(c, n.X)
			t := x.fresh(st, "recv", ch)
			x.ev(&Event{kind: "recv", name: "recv", recv: ch, res: t, pos: n.Pos(), fn: fr.fn}, c)
			if n.CommaOk {
				c.env[n] = mk("tuple", "", mk("res", "0", t), mk("res", "1", t))
			} else {
				x.set(c, n, t)
			}
		default:
			if v, ok := intVal(x.val(c, n.X)); ok && n.Op == token.XOR && isUnsigned(n.Type()) {
				if w := uintBits(n.Type()); w > 0 {
					all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1))
					x.set(c, n, tBig(all.Xor(all, v)))
					break
				}
			}
			x.set(c, n, mk("un", n.Op.String(), x.val(c, n.X)))
		}
	case *ssa.BinOp:
		if n.Op == token.QUO || n.Op == token.REM {
			if y := x.val(c, n.Y); !isConst(y) && !st.facts.Proves(eqT(y, tZeroI), false) {
				x.ev(&Event{kind: "div", name: "div", args: []*Term{y}, pos: n.Pos(), fn: fr.fn}, c)
			}
		}
		a, b := x.val(c, n.X), x.val(c, n.Y)
		x.set(c, n, x.binopT(st, n, a, b))
	case *ssa.Convert:
		x.set(c, n, x.convert(st, n, x.val(c, n.X)))
	case *ssa.ChangeType:
		c.env[n] = x.val(c, n.X)
	case *ssa.ChangeInterface:
		c.env[n] = x.val(c, n.X)
	case *ssa.MultiConvert:
		c.env[n] = mk("conv", typeName(n.Type()), x.val(c, n.X))
	case *ssa.SliceToArrayPointer:
		s := x.val(c, n.X)
		t := mk("ref", "", sliceT(x.sliceVal(st, s), tZeroI, tInt(n.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		c.env[n] = t
	case *ssa.MakeInterface:
		c.env[n] = mkT("iface", typeName(n.X.Type()), n.X.Type(), x.val(c, n.X))
	case *ssa.MakeClosure:
		f := n.Fn.(*ssa.Function)
		ft := x.funcTerm(f)
		args := []*Term{ft}
		for _, b := range n.Bindings {
			args = append(args, x.val(c, b))
		}
		c.env[n] = mk("closure", ft.aux, args...)
	case *ssa.MakeMap:
		t := mkT("mkmap", x.site(fr, n), n.Type())
		x.kind[t] = 'm'
		st.heap[t] = mk("mempty", "")
		c.env[n] = t
	case *ssa.MakeChan:
		sz := x.val(c, n.Size)
		t := mkT("mkchan", x.site(fr, n), n.Type(), sz)
		x.ev(&Event{kind: "makechan", name: "makechan", args: []*Term{sz}, res: t, pos: n.Pos(), fn: fr.fn}, c)
		c.env[n] = t
	case *ssa.MakeSlice:
		l := x.val(c, n.Len)
		cp := x.val(c, n.Cap)
		x.ev(&Event{kind: "makeslice", name: typeName(n.Type()), args: []*Term{l, cp}, pos: n.Pos(), fn: fr.fn}, c)
		if l == tZeroI {
			c.env[n] = lit()
			return true
		}
		t := mkT("mkslice", x.site(fr, n), n.Type(), l)
		x.kind[t] = 's'
		st.heap[t] = t
		c.env[n] = t
	case *ssa.Slice:
		x.slice(fr, c, n)
	case *ssa.MapUpdate:
		m, k, v := x.val(c, n.Map), x.val(c, n.Key), x.val(c, n.Value)
		x.ev(&Event{kind: "mapupdate", name: typeName(n.Map.Type()), recv: m, args: []*Term{x.snap(st, k, 0), x.snap(st, v, 0)}, pos: n.Pos(), fn: fr.fn}, c)
		mv := x.mapVal(st, m)
		st.heap[m] = mk("mput", "", mv, k, v)
	case *ssa.Lookup:
		m, k := x.val(c, n.X), x.val(c, n.Index)
		if _, ok := n.X.Type().Underlying().(*types.Map); !ok {
			x.set(c, n, elemT(m, k)) // string
			return true
		}
		mv := x.mapVal(st, m)
		k = x.snap(st, k, 0)
		v := x.lookup(st, mv, k)
		h := x.has(st, mv, k)
		mt := n.X.Type().Underlying().(*types.Map)
		v.typ = mt.Elem()
		if n.CommaOk {
			if h == tFalse {
				v = tZero(mt.Elem())
			}
			c.env[n] = mk("tuple", "", v, h)
		} else {
			if h == tFalse {
				v = tZero(mt.Elem())
			} else if v.op == "lookup" {
				if hv, ok := st.facts.quick(h); ok && !hv {
					v = tZero(mt.Elem())
				} else if !ok {
					v = mk("get", "", mv, k) // the element or the zero value
				}
			}
			x.set(c, n, v)
		}
	case *ssa.Range:
		m := x.val(c, n.X)
		if _, ok := n.X.Type().Underlying().(*types.Map); ok {
			c.env[n] = mk("range", "", x.mapVal(st, m))
		} else {
			c.env[n] = mk("range", "", m)
		}
	case *ssa.Next:
		r := x.val(c, n.Iter)
		K := tZeroI
		if len(st.loops) > 0 {
			K = st.loops[len(st.loops)-1]
		}
		m := r.args[0]
		ok := ltT(K, mk("len", "", m))
		if m.op == "mempty" {
			ok = tFalse
		}
		if n.IsString {
			c.env[n] = mk("tuple", "", ok, mk("runeidx", "", m, K), mk("rune", "", m, K))
			return true
		}
		k := mk("mkey", "", m, K)
		mt := n.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		k.typ = mt.Key()
		if isUnsigned(mt.Key()) {
			k.nonneg = true
		}
		v := mk("lookup", "", m, k)
		v.typ = mt.Elem()
		if isUnsigned(mt.Elem()) {
			v.nonneg = true
		}
		c.env[n] = mk("tuple", "", ok, k, v)
	case *ssa.Extract:
		t := x.val(c, n.Tuple)
		if t.op == "tuple" {
			x.set(c, n, t.args[n.Index])
		} else {
			x.set(c, n, mk("res", strconv.Itoa(n.Index), t))
		}
	case *ssa.TypeAssert:
		v := x.val(c, n.X)
		var ok, r *Term
		if v.op == "iface" && !types.IsInterface(n.AssertedType) {
			if v.aux == typeName(n.AssertedType) {
				ok, r = tTrue, v.args[0]
			} else {
				ok, r = tFalse, tZero(n.AssertedType)
			}
		} else {
			ok = mk("is", typeName(n.AssertedType), v)
			if !types.IsInterface(n.AssertedType) {
				concrete[typeName(n.AssertedType)] = true
			}
			r = mk("as", typeName(n.AssertedType), v)
			r.typ = n.AssertedType
			if types.IsInterface(n.AssertedType) {
				r = v
			}
		}
		if n.CommaOk {
			c.env[n] = mk("tuple", "", r, ok)
		} else {
			x.ev(&Event{kind: "assert", name: typeName(n.AssertedType), args: []*Term{v}, pos: n.Pos(), fn: fr.fn}, c)
			st.assume(ok, true)
			c.env[n] = r
		}
	case *ssa.Send:
		ch, v := x.val(c, n.Chan), x.val(c, n.X)
		x.ev(&Event{kind: "send", name: "send", recv: ch, args: []*Term{x.snap(st, v, 0)}, raw: []*Term{v}, pos: n.Pos(), fn: fr.fn}, c)
		st.assume(mk("did", "", mk("send", "", ch, x.snap(st, v, 0))), true)
	case *ssa.Select:
		var args []*Term
		for _, s := range n.States {
			args = append(args, x.val(c, s.Chan))
		}
		t := x.fresh(st, "selected", args...)
		x.ev(&Event{kind: "select", name: fmt.Sprint("select blocking=", n.Blocking), args: args, res: t, pos: n.Pos(), fn: fr.fn}, c)
		for i, s := range n.States {
			if s.Dir == types.SendOnly {
				x.ev(&Event{kind: "send", name: "select", recv: args[i], args: []*Term{x.snap(st, x.val(c, s.Send), 0)}, pos: n.Pos(), fn: fr.fn}, c)
			}
		}
		rs := []*Term{mk("res", "0", t), mk("res", "1", t)}
		for i := range n.States {
			rs = append(rs, mk("res", strconv.Itoa(2+i), t))
		}
		c.env[n] = mk("tuple", "", rs...)
	default:
		x.fail = fmt.Sprintf("unsupported instruction %T in %s", instr, fnName(fr.fn))
		return false
	}
	return true
}

func (x *Exec) site(fr *Frame, v ssa.Value) string {
	k := fr.path + "|" + fr.fn.String() + "|" + v.Name()
	id, ok := x.allocs[k]
	if !ok {
		id = len(x.allocs) + 1
		x.allocs[k] = id
	}
	return strconv.Itoa(x.serial) + "." + strconv.Itoa(id)
}

func (x *Exec) elemAddr(s, i *Term, t types.Type) *Term {
	if s.op == "slice" {
		return x.elemAddr(s.args[0], sum(s.args[1], i), t)
	}
	if s.op == "arrptr" {
		r := mkT("ia", "", t, s.args[0], i)
		x.kind[r] = 'a'
		return r
	}
	return mkT("ia", "", t, s, i)
}

// fresh is an unknown value that is distinct for every occurrence on a path.
func (x *Exec) fresh(st *State, name string, args ...*Term) *Term {
	k := name
	for _, a := range args {
		k += "|" + strconv.Itoa(a.id)
	}
	n := st.occ[k]
	st.occ[k] = n + 1
	if n > 0 {
		name += "#" + strconv.Itoa(n)
	}
	if len(st.loops) > 0 {
		args = append(append([]*Term(nil), args...), mk("it", "", st.loops...))
	}
	return mk(name, "", args...)
}

func (x *Exec) lookup(st *State, mv, k *Term) *Term {
	if mv.op == "mput" && mv.args[1] != k && !distinctConst(mv.args[1], k) {
		if v, ok := st.facts.quick(eqT(mv.args[1], k)); ok {
			if v {
				return mv.args[2]
			}
			return x.lookup(st, mv.args[0], k)
		}
	}
	return lookupT(mv, k)
}

func (x *Exec) has(st *State, mv, k *Term) *Term {
	if mv.op == "mput" && mv.args[1] != k && !distinctConst(mv.args[1], k) {
		if v, ok := st.facts.quick(eqT(mv.args[1], k)); ok {
			if v {
				return tTrue
			}
			return x.has(st, mv.args[0], k)
		}
	}
	return hasT(mv, k)
}

func (x *Exec) indexEv(fr *Frame, c *Cfg, n, i *Term, pos token.Pos) {
	if !x.memEv || x.silent > 0 {
		return
	}
	x.ev(&Event{kind: "index", name: "index", args: []*Term{i, n}, pos: pos, fn: fr.fn}, c)
}

// memAccess records the use of a pointer. The access assumes that it is not nil from then on.
func (x *Exec) memAccess(fr *Frame, c *Cfg, v ssa.Value, p *Term, pos token.Pos) {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
		return
	}
	if nonNil(p) || p.op == "ref" {
		return
	}
	if p == tNil {
		x.ev(&Event{kind: "deref", name: "deref", args: []*Term{p}, pos: pos, fn: fr.fn}, c)
		if x.silent == 0 || true {
			c.st.assume(tFalse, true)
		}
		return
	}
	a := eqT(p, tNil)
	if v, ok := c.st.facts.quick(a); ok && !v {
		return
	}
	if x.memEv {
		x.ev(&Event{kind: "deref", name: "deref", args: []*Term{p}, pos: pos, fn: fr.fn}, c)
	}
	c.st.assume(a, false)
}

func storeName(v ssa.Value) string {
	if f, ok := v.(*ssa.FieldAddr); ok {
		pt := f.X.Type().Underlying().(*types.Pointer).Elem()
		return typeName(pt) + "." + pt.Underlying().(*types.Struct).Field(f.Field).Name()
	}
	return ""
}

func (x *Exec) binopT(st *State, n *ssa.BinOp, a, b *Term) *Term {
	switch n.Op {
	case token.EQL, token.NEQ:
		var t *Term
		if _, ok := n.X.Type().Underlying().(*types.Slice); ok {
			t = x.nilCheck(a, b)
		} else if _, ok := n.X.Type().Underlying().(*types.Array); ok {
			t = contentEq(a, b)
		} else {
			t = eqT(a, b)
		}
		if n.Op == token.NEQ {
			return notT(t)
		}
		return t
	case token.LSS:
		return ltT(a, b)
	case token.GTR:
		return ltT(b, a)
	case token.LEQ:
		return notT(ltT(b, a))
	case token.GEQ:
		return notT(ltT(a, b))
	case token.ADD:
		if bt, ok := n.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return cat(a, b)
		}
		return sum(a, b)
	case token.SUB:
		return sub(a, b)
	}
	return binT(n.Op.String(), a, b)
}

func (x *Exec) nilCheck(a, b *Term) *Term {
	return eqT(a, b)
}

func contentEq(a, b *Term) *Term { return eqT(a, b) }

func uintBits(t types.Type) uint {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint:
		return 64
	}
	return 0
}

func intSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return 64
	}
	return 0
}

func (x *Exec) convert(st *State, n *ssa.Convert, v *Term) *Term {
	from, to := n.X.Type(), n.Type()
	fs, ts := intSize(from), intSize(to)
	if fs > 0 && ts > 0 {
		if k, ok := intVal(v); ok {
			m := new(big.Int).Lsh(big.NewInt(1), uint(ts))
			r := new(big.Int).Mod(k, m)
			if !isUnsigned(to) && r.Bit(ts-1) == 1 {
				r.Sub(r, m)
			}
			return tBig(r)
		}
		if ts >= fs {
			return v // same value, as long as it is not negative
		}
		switch v.op {
		case "elem", "f", "ld", "sym", "res", "lookup":
			// back to the type it has, or a larger one
			if v.typ != nil && intSize(v.typ) > 0 && intSize(v.typ) <= ts && isUnsigned(v.typ) == isUnsigned(to) {
				return v
			}
		}
		return mk("narrow", typeName(to), v)
	}
	// strings and byte slices hold the same contents
	return x.sliceVal(st, v)
}

func (x *Exec) slice(fr *Frame, c *Cfg, n *ssa.Slice) {
	st := c.st
	s := x.val(c, n.X)
	var lo, hi *Term
	if n.Low != nil {
		lo = x.val(c, n.Low)
	} else {
		lo = tZeroI
	}
	if pt, ok := n.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		if n.High != nil {
			hi = x.val(c, n.High)
		} else {
			hi = tInt(at.Len())
		}
		if !isConst(lo) || !isConst(hi) {
			x.sliceEv(fr, c, tInt(at.Len()), lo, hi, n.Pos())
		}
		b := mkT("arrptr", strconv.FormatInt(at.Len(), 10), n.X.Type(), s)
		if lo == tZeroI && hi == tInt(at.Len()) {
			c.env[n] = b
			return
		}
		c.env[n] = mk("slice", "", b, lo, hi)
		return
	}
	cur := x.sliceVal(st, s)
	l := lenT(cur)
	if n.High != nil {
		hi = x.val(c, n.High)
	} else {
		hi = l
	}
	x.sliceEv(fr, c, l, lo, hi, n.Pos())
	if lo == tZeroI && hi == l {
		c.env[n] = s
		return
	}
	switch s.op {
	case "lit", "cat", "comp":
		c.env[n] = sliceT(cur, lo, hi)
	default:
		if s.op == "slice" {
			c.env[n] = mk("slice", "", s.args[0], sum(s.args[1], lo), sum(s.args[1], hi))
			return
		}
		c.env[n] = mk("slice", "", s, lo, hi)
	}
}

func (x *Exec) sliceEv(fr *Frame, c *Cfg, n, lo, hi *Term, pos token.Pos) {
	if !x.memEv || x.silent > 0 {
		return
	}
	if hi == n && lo == tZeroI {
		return
	}
	x.ev(&Event{kind: "slice", name: "slice", args: []*Term{lo, hi, n}, pos: pos, fn: fr.fn}, c)
}
