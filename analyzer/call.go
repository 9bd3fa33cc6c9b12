package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callOut struct {
	c *Cfg
	v *Term
}

// callee evaluates the function and the arguments of a call. For interface calls the receiver is
// the first argument.
func (x *Exec) callee(c *Cfg, cc *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fn *Term
	if cc.IsInvoke() {
		fn = mk("method", cc.Method.Name())
		args = append(args, x.val(c, cc.Value))
	} else {
		fn = x.val(c, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, x.val(c, a))
	}
	return fn, args
}

func (x *Exec) calleeName(cc *ssa.CallCommon, fn *Term) string {
	if cc.IsInvoke() {
		return ifaceName(cc.Value.Type()) + "." + cc.Method.Name()
	}
	switch fn.op {
	case "func", "closure":
		return fn.aux
	}
	return "dynamic"
}

func ifaceName(t types.Type) string { return typeName(t) }

func (x *Exec) call(fr *Frame, c *Cfg, instr ssa.CallInstruction, fn *Term, args []*Term) []callOut {
	cc := instr.Common()
	st := c.st
	x.sites++
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, c, instr, b.Name(), args)
	}
	name := x.calleeName(cc, fn)
	var target *ssa.Function
	var free []*Term
	if cc.IsInvoke() {
		x.memAccess(fr, c, cc.Value, args[0], instr.Pos())
		if st.facts.bad {
			return nil
		}
		if isHash(cc.Value.Type()) {
			if r, ok := x.hashCall(fr, c, instr, cc.Method.Name(), args); ok {
				return r
			}
		}
		if cc.Method.Name() == "Hash" && len(args) == 1 && cc.Signature().Results().Len() == 1 && isHash(cc.Signature().Results().At(0).Type()) && args[0].op != "iface" {
			return []callOut{{c, x.newHash(fr, st, instr, args[0])}}
		}
		if args[0].op == "iface" && args[0].typ != nil {
			m := x.p.prog.LookupMethod(args[0].typ, cc.Method.Pkg(), cc.Method.Name())
			if m != nil && x.shouldInline(fr, m) {
				target = m
				args = append([]*Term{args[0].args[0]}, args[1:]...)
			} else if m != nil {
				name = fnName(m)
				args = append([]*Term{args[0].args[0]}, args[1:]...)
			}
		}
	} else {
		switch fn.op {
		case "func":
			target = funcByName[fn.aux]
		case "closure":
			target = funcByName[fn.args[0].aux]
			free = fn.args[1:]
		default:
			x.memAccess(fr, c, cc.Value, fn, instr.Pos())
			if st.facts.bad {
				return nil
			}
		}
		if target != nil {
			// a method value: the bound receiver is the free variable
			if strings.HasSuffix(target.Name(), "$bound") && len(free) == 1 && len(target.Blocks) > 0 {
				// inlined below
			} else if r, ok := x.model(fr, c, instr, target, name, args); ok {
				return r
			}
			if !x.shouldInline(fr, target) {
				name = fnName(target)
				args = append(append([]*Term(nil), free...), args...)
				return x.opaqueCall(fr, c, instr, name, target, fn, args)
			}
		}
	}
	if target != nil {
		if target.Blocks == nil {
			return x.opaqueCall(fr, c, instr, name, target, fn, args)
		}
		if !x.nodid && !x.p.isPure(target) {
			x.ev(&Event{kind: "enter", name: fnName(target), raw: args, args: args, pos: instr.Pos(), fn: fr.fn}, c)
		}
		path := fr.path + "/" + strconv.Itoa(instrIndex(instr))
		outs := x.run(target, args, free, st, path, fr.stack)
		var res []callOut
		for i, o := range outs {
			cn := c
			if i < len(outs)-1 {
				cn = &Cfg{env: make(map[ssa.Value]*Term, len(c.env)+4), defers: c.defers}
				for k, v := range c.env {
					cn.env[k] = v
				}
			} else {
				cn = &Cfg{env: c.env, defers: c.defers}
			}
			cn.st = o.st
			// a list that the callee sorted in place is sorted for the caller as well
			for _, a := range args {
				key := mk("resorted", "", a)
				nv := o.st.heap[key]
				if nv == nil {
					continue
				}
				if len(fr.stack) <= 1 {
					delete(o.st.heap, key)
				}
				for k, w := range cn.env {
					if w == a {
						cn.env[k] = nv
					}
				}
			}
			var v *Term
			switch len(o.results) {
			case 0:
				v = tNil
			case 1:
				v = o.results[0]
			default:
				v = mk("tuple", "", o.results...)
			}
			res = append(res, callOut{cn, v})
		}
		return res
	}
	return x.opaqueCall(fr, c, instr, name, nil, fn, args)
}

func instrIndex(i ssa.CallInstruction) int {
	n := 0
	for _, b := range i.Parent().Blocks {
		for _, j := range b.Instrs {
			if ssa.Instruction(i) == j {
				return n
			}
			n++
		}
	}
	return -1
}

// shouldInline decides whether a callee is interpreted or is a contract.
func (x *Exec) shouldInline(fr *Frame, fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	for _, s := range fr.stack {
		if s == fn || s.Origin() != nil && s.Origin() == fn.Origin() {
			return false
		}
	}
	if len(fr.stack) > 24 {
		return false
	}
	n := fnName(fn)
	if x.p.inRepo(fn) && fn.Synthetic == "" && fn.Parent() == nil && x.p.base.isNew(n) {
		return !isDecoder(fn)
	}
	if x.opaque[n] || x.opaque[stripInst(n)] {
		return false
	}
	if x.inline[n] {
		return true
	}
	if !x.p.inRepo(fn) {
		q := pkgOf(fn)
		if q != nil && (q.Path() == "slices" || q.Path() == "maps") {
			nm := fn.Name()
			return strings.HasPrefix(nm, "Contains") || strings.HasPrefix(nm, "Index") || strings.HasPrefix(nm, "Equal")
		}
		// wrappers for method values and promoted methods
		return fn.Synthetic != "" && q == nil
	}
	if fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "instan") {
		return true // wrapper, thunk, bound method
	}
	if fn.Parent() != nil {
		return true
	}
	q := pkgOf(fn)
	if q == x.rootPkg {
		return !isDecoder(fn) && !isRecursive(fn)
	}
	return !token.IsExported(fn.Name()) && !isDecoder(fn) && !isRecursive(fn)
}

var recCache = map[*ssa.Function]int{}

// isRecursive: the function can call itself through static calls.
func isRecursive(fn *ssa.Function) bool {
	if v, ok := recCache[fn]; ok {
		return v == 1
	}
	seen := map[*ssa.Function]bool{}
	found := false
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if found || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil {
						if cal == fn {
							found = true
							return
						}
						if q := pkgOf(cal); q != nil && strings.HasPrefix(q.Path(), modPath) {
							dfs(cal)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			dfs(a)
		}
	}
	dfs(fn)
	recCache[fn] = 0
	if found {
		recCache[fn] = 1
	}
	return found
}

// isDecoder: functions that parse a value from a buffer.
func isDecoder(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Recv() != nil || sig.Results().Len() != 2 || !isErrorType(sig.Results().At(1).Type()) {
		return false
	}
	if !token.IsExported(fn.Name()) || !strings.HasPrefix(fn.Name(), "New") {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i).Type().String() == "*bytes.Buffer" {
			return true
		}
	}
	return false
}

// opaqueCall records a call and describes its result by its arguments.
func (x *Exec) opaqueCall(fr *Frame, c *Cfg, instr ssa.CallInstruction, name string, target *ssa.Function, fn *Term, args []*Term) []callOut {
	st := c.st
	cc := instr.Common()
	snaps := make([]*Term, len(args))
	for i, a := range args {
		if i == 0 && (cc.IsInvoke() || target != nil && target.Signature.Recv() != nil) && a.op != "alloc" && !(a.op == "fa" && rootPtr(a).op == "alloc") {
			snaps[i] = a
			if _, ok := st.heap[a]; !ok {
				// maps and slices that were changed through the receiver's fields
				v := mkT("ld", "", derefType(a.typ), a)
				if w := x.deep(st, a, v, 0); w != v {
					snaps[i] = mk("ref", "", w)
				}
			}
			continue
		}
		snaps[i] = x.snap(st, a, 0)
	}
	pure := false
	mutates := ^uint64(0)
	switch {
	case cc.IsInvoke():
		pure = pureInvoke(cc.Value.Type(), cc.Method.Name())
		mutates = 0
		for i, a := range cc.Args { // the receiver comes first in args
			if a.Type().String() == "*bytes.Buffer" && !pure {
				mutates |= 1 << uint(min(i+1, 60))
			}
		}
	case target != nil:
		pure = x.p.isPure(target)
		mutates = x.p.mutates(target)
	}
	if fn != nil && fn.op != "func" && fn.op != "method" && fn.op != "closure" {
		snaps = append([]*Term{fn}, snaps...)
	}
	var res *Term
	if pure || x.memo[name] {
		res = mkT("call", name, nil, snaps...)
	} else {
		k := "call " + name
		for _, a := range snaps {
			k += "|" + strconv.Itoa(a.id)
		}
		n := st.occ[k]
		st.occ[k] = n + 1
		aux := name
		if n > 0 {
			aux += "#" + strconv.Itoa(n)
		}
		a := snaps
		if len(st.loops) > 0 {
			a = append(append([]*Term(nil), snaps...), mk("it", "", st.loops...))
		}
		res = mk("call", aux, a...)
	}
	sig := cc.Signature()
	if sig.Results().Len() == 1 {
		if isUnsigned(sig.Results().At(0).Type()) {
			res.nonneg = true
		}
		if res.typ == nil {
			res.typ = sig.Results().At(0).Type()
		}
	}
	e := &Event{kind: "call", name: name, args: snaps, raw: args, res: res, pos: instr.Pos(), fn: fr.fn}
	x.ev(e, c)
	x.knownRange(st, target, res)
	if !pure {
		st.assume(mk("did", "", res), true)
		for i, a := range args {
			if mutates&(1<<uint(min(i, 60))) != 0 && !x.memo[name] {
				x.havoc(st, a, res)
			}
		}
		if fn != nil && fn.op == "closure" && mutates&mutOther != 0 {
			x.havoc(st, fn, res)
		}
	}
	if sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) || sig.Results().Len() == 0 {
		return []callOut{{c, res}}
	}
	return []callOut{{c, res}}
}

// havoc forgets what a callee may have changed.
func (x *Exec) havoc(st *State, a, call *Term) {
	if a.op == "iface" {
		a = a.args[0]
	}
	switch a.op {
	case "alloc", "fa", "sym", "mkbuf", "mkhash", "res", "call", "f", "phi", "lv":
		isPtr := a.op == "alloc" || a.op == "fa" || a.op == "mkbuf" || a.op == "mkhash"
		if !isPtr && a.typ != nil {
			_, isPtr = a.typ.Underlying().(*types.Pointer)
		}
		if !isPtr {
			return
		}
		old := x.load(st, a)
		n := mkT("after", "", derefType(a.typ), call, old)
		if a.op == "alloc" || a.op == "mkbuf" || a.op == "mkhash" {
			n = mkT("after", "", derefType(a.typ), call, tInt(0))
		}
		x.store(st, a, n)
	case "mkslice", "arrptr", "slice":
		if a.op == "arrptr" {
			x.store(st, a.args[0], mkT("after", "", derefType(a.args[0].typ), call, tInt(0)))
			return
		}
		if a.op == "slice" && a.args[0].op == "arrptr" {
			x.store(st, a.args[0].args[0], mkT("after", "", derefType(a.args[0].args[0].typ), call, tInt(0)))
			return
		}
		x.kind[a] = 's'
		st.heap[a] = mk("after", "", call, a)
	case "mkmap":
		st.heap[a] = mk("after", "", call, tInt(0))
	case "closure":
		for _, b := range a.args[1:] {
			if b.op == "alloc" {
				st.heap[b] = mkT("after", "", derefType(b.typ), call, tInt(0))
			}
		}
	}
}

func (x *Exec) builtin(fr *Frame, c *Cfg, instr ssa.CallInstruction, name string, args []*Term) []callOut {
	st := c.st
	one := func(t *Term) []callOut { return []callOut{{c, t}} }
	switch name {
	case "len":
		a := args[0]
		at := instr.Common().Args[0].Type().Underlying()
		if _, ok := at.(*types.Map); ok {
			mv := x.mapVal(st, a)
			switch mv.op {
			case "mempty":
				return one(tZeroI)
			}
			return one(mk("len", "", mv))
		}
		if a.op == "arrptr" || a.op == "alloc" {
			return one(lenT(a))
		}
		return one(lenT(x.sliceVal(st, a)))
	case "cap":
		t := mk("cap", "", args[0])
		t.nonneg = true
		return one(t)
	case "append":
		a := args[0]
		if len(args) == 1 {
			return one(a)
		}
		b := args[1]
		av := x.sliceVal(st, a)
		bv := x.sliceVal(st, b)
		r := cat(av, bv)
		if r == tNil {
			return one(tNil)
		}
		return one(r)
	case "copy":
		dst, src := args[0], args[1]
		n := x.fresh(st, "copied")
		n = mk("min", "", lenT(x.sliceVal(st, dst)), lenT(x.sliceVal(st, src)))
		n.nonneg = true
		if lenT(x.sliceVal(st, dst)) == lenT(x.sliceVal(st, src)) {
			n = lenT(x.sliceVal(st, src))
		}
		x.sliceCopy(st, dst, x.sliceVal(st, src))
		return one(n)
	case "delete":
		m, k := args[0], args[1]
		mv := x.mapVal(st, m)
		x.ev(&Event{kind: "mapdelete", name: typeName(instr.Common().Args[0].Type()), recv: m, args: []*Term{x.snap(st, k, 0)}, pos: instr.Pos(), fn: fr.fn}, c)
		st.heap[m] = mk("mdel", "", mv, k)
		return one(tNil)
	case "close":
		x.ev(&Event{kind: "close", name: "close", recv: args[0], args: args, pos: instr.Pos(), fn: fr.fn}, c)
		st.assume(mk("did", "", mk("close", "", args[0])), true)
		return one(tNil)
	case "min", "max":
		a, b := args[0], args[1]
		if v, ok := st.facts.quick(ltT(a, b)); ok {
			if v == (name == "min") {
				return one(a)
			}
			return one(b)
		}
		if a.id > b.id {
			a, b = b, a
		}
		t := mk(name, "", a, b)
		t.nonneg = a.nonneg && b.nonneg
		return one(t)
	case "panic":
		return nil
	case "recover":
		return one(tNil)
	case "print", "println":
		return one(tNil)
	case "clear":
		if _, ok := instr.Common().Args[0].Type().Underlying().(*types.Map); ok {
			x.mapVal(st, args[0])
			st.heap[args[0]] = mk("mempty", "")
			return one(tNil)
		}
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	x.fail = "unsupported builtin " + name
	return nil
}

// sliceCopy models copy(dst, src) where src fits.
func (x *Exec) sliceCopy(st *State, dst, src *Term) {
	base, lo := dst, tZeroI
	if dst.op == "slice" {
		base, lo = dst.args[0], dst.args[1]
	}
	var old *Term
	if base.op == "arrptr" {
		old = x.load(st, base.args[0])
	} else {
		old = x.sliceVal(st, base)
	}
	var nv *Term
	if lo == tZeroI && lenT(old) == lenT(src) {
		nv = src
	} else {
		nv = blit(old, lo, src)
	}
	if base.op == "arrptr" {
		x.store(st, base.args[0], nv)
		return
	}
	x.kind[base] = 's'
	st.heap[base] = nv
}

// blit overwrites part of a byte sequence.
func blit(old, lo, src *Term) *Term {
	n := lenT(old)
	l := lenT(src)
	// a sequence that is filled from the front
	if old.op == "mkslice" || old.op == "zero" || old.op == "blit" {
		if old.op == "blit" && old.args[1] == tZeroI && lenT(old.args[2]) == lo {
			return blit(old.args[0], tZeroI, cat(old.args[2], src))
		}
	}
	if lo == tZeroI && n == l {
		return src
	}
	// a few leading elements followed by the copy
	if k, ok := intVal(lo); ok && k.Sign() > 0 && k.Int64() <= 16 && sum(l, lo) == n {
		var head []*Term
		for i := int64(0); i < k.Int64(); i++ {
			head = append(head, elemT(old, tInt(i)))
		}
		return cat(lit(head...), src)
	}
	// all lengths are known: the parts before and after the copy stay
	if off, end, ok := constRange(lo, sum(lo, l)); ok {
		if m, ok := intVal(n); ok && m.Int64() <= 128 && end <= m.Int64() && (old.op == "zero" || old.op == "mkslice" || old.op == "lit" || old.op == "cat") {
			return cat(constPart(old, 0, off), src, constPart(old, end, m.Int64()))
		}
	}
	return mkT("blit", "", old.typ, old, lo, src)
}

// constPart is part of a sequence of known length.
func constPart(x *Term, l, h int64) *Term {
	if x.op == "cat" {
		return sliceT(x, tInt(l), tInt(h))
	}
	var e []*Term
	for i := l; i < h; i++ {
		e = append(e, elemT(x, tInt(i)))
	}
	return lit(e...)
}
