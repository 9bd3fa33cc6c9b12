package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Fields that are assigned only while a value is being constructed keep their value, whatever is
// called with a pointer to it.

var mutableField map[string]bool // "type.field", or "type" if whole values are assigned

func structKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

// storesOf are the fields that a function, or anything that it calls, may assign.
var storesOf map[string]map[string]bool // by the name of a function or interface method

func (p *Prog) findMutable() {
	mutableField = map[string]bool{}
	storesOf = map[string]map[string]bool{}
	direct := map[*ssa.Function]map[string]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	invokes := map[string]*types.Func{}
	invokeOf := map[*ssa.Function][]string{}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var addFn func(fn *ssa.Function)
	addFn = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Pkg != nil && p.fns[fnName(fn)] != fn && fn.Parent() == nil && fn.Synthetic == "" {
			return
		}
		seen[fn] = true
		fns = append(fns, fn)
		for _, a := range fn.AnonFuncs {
			addFn(a)
		}
	}
	for _, fn := range p.all {
		addFn(fn)
	}
	values := []*ssa.Function{} // functions that are called through a value
	isValue := map[*ssa.Function]bool{}
	value := func(fn *ssa.Function) {
		if !isValue[fn] {
			isValue[fn] = true
			values = append(values, fn)
			addFn(fn)
		}
	}
	var dynamic []*ssa.Function
	dynSig := map[*ssa.Function][]*types.Signature{}
	for n := 0; n < len(fns); n++ {
		fn := fns[n]
		d := map[string]bool{}
		direct[fn] = d
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.MapUpdate:
					d[memKey(i.Map.Type())] = true
				case *ssa.Store:
					if k := structKey(i.Addr.Type()); k != "" {
						if a, ok := i.Addr.(*ssa.Alloc); !ok || !constructing(a, i) {
							d[k] = true
						}
						continue
					}
					switch a := i.Addr.(type) {
					case *ssa.FieldAddr, *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
					case *ssa.IndexAddr:
						if _, ok := a.X.(*ssa.Alloc); !ok {
							d[memKey(a.X.Type())] = true
						}
					default:
						d[memKey(i.Addr.Type())] = true
					}
				case *ssa.FieldAddr:
					if k := structKey(i.X.Type()); k != "" {
						f := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(i.Field).Name()
						if !onlyRead(i, 0) && !onlyInit(i) {
							d[k+"."+f] = true
						}
					}
				case ssa.CallInstruction:
					c := i.Common()
					if c.IsInvoke() {
						nm := typeName(c.Value.Type()) + "." + c.Method.Name()
						invokes[nm] = c.Method
						invokeOf[fn] = append(invokeOf[fn], nm)
					} else if f := c.StaticCallee(); f != nil {
						callees[fn] = append(callees[fn], f)
						addFn(f)
						if !p.inRepo(f) {
							m := p.mutates(f)
							for j, a := range c.Args {
								if m&(1<<uint(min(j, 60))) != 0 {
									if mi, ok := a.(*ssa.MakeInterface); ok {
										a = mi.X
									}
									if k := structKey(a.Type()); k != "" {
										d[k] = true
									} else {
										d[memKey(a.Type())] = true
									}
								}
							}
						}
					} else if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "delete", "clear":
							d[memKey(c.Args[0].Type())] = true
						case "append":
							if _, ok := c.Args[0].(*ssa.Slice); ok {
								d[memKey(c.Args[0].Type())] = true
							}
						}
					} else {
						if dynSig[fn] == nil {
							dynamic = append(dynamic, fn)
						}
						dynSig[fn] = append(dynSig[fn], c.Signature())
					}
				}
				for _, op := range ins.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						if c, ok := ins.(ssa.CallInstruction); !ok || c.Common().Value != v {
							value(v)
						}
					case *ssa.MakeClosure:
						value(v.Fn.(*ssa.Function))
					}
				}
				if m, ok := ins.(*ssa.MakeClosure); ok {
					value(m.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, fn := range fns {
		for k := range direct[fn] {
			mutableField[k] = true
		}
	}
	methods := map[string][]*ssa.Function{}
	for nm, m := range invokes {
		it, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for _, fn := range fns {
			if r := fn.Signature.Recv(); r != nil && fn.Name() == m.Name() && types.Implements(r.Type(), it) {
				methods[nm] = append(methods[nm], fn)
			}
		}
	}
	for _, fn := range dynamic {
		for _, s := range dynSig[fn] {
			for _, v := range values {
				if types.Identical(types.NewSignatureType(nil, nil, nil, v.Signature.Params(), v.Signature.Results(), v.Signature.Variadic()),
					types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())) {
					callees[fn] = append(callees[fn], v)
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			d := direct[fn]
			n := len(d)
			for _, c := range callees[fn] {
				for k := range direct[c] {
					d[k] = true
				}
			}
			for _, nm := range invokeOf[fn] {
				for _, c := range methods[nm] {
					for k := range direct[c] {
						d[k] = true
					}
				}
			}
			if len(d) != n {
				changed = true
			}
		}
	}
	for _, fn := range fns {
		storesOf[fnName(fn)] = direct[fn]
	}
	for nm := range invokes {
		u := map[string]bool{}
		for _, c := range methods[nm] {
			for k := range direct[c] {
				u[k] = true
			}
		}
		storesOf[nm] = u
	}
}

// onlyRead reports whether an address is used to load only.
func onlyRead(v ssa.Value, depth int) bool {
	if depth > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyRead(u, depth+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(u, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// onlyInit reports whether the address of a field of a new value is only used to set it at once.
func onlyInit(i *ssa.FieldAddr) bool {
	a, ok := i.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *i.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if u.Addr != i || !constructing(a, u) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// constructing reports whether the value of a was not visible to anything else before at.
func constructing(a *ssa.Alloc, at ssa.Instruction) bool {
	if a.Block() != at.Block() {
		return false
	}
	seen := false
	for _, ins := range a.Block().Instrs {
		if ins == a {
			seen = true
			continue
		}
		if ins == at {
			return seen
		}
		if !seen {
			continue
		}
		switch u := ins.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
			continue
		case *ssa.Store:
			if u.Val != a {
				continue
			}
		}
		for _, op := range ins.Operands(nil) {
			if *op == a {
				return false
			}
		}
	}
	return false
}

// memKey names memory that is not a field.
func memKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "elem:" + u.Elem().String()
	case *types.Map:
		return "map:" + u.String()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return "elem:" + a.Elem().String()
		}
		return "ptr:" + u.Elem().String()
	}
	return "?"
}

// opaqueTypes are looked at only through functions that are taken to be repeatable.
var opaqueTypes = map[string]bool{}

// reaches lists the memory that a value of type t refers to.
func reaches(t types.Type, out map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if structKey(t) == "" {
			out[memKey(t)] = true
		} else if opaqueTypes[typeName(u.Elem())] {
			return
		}
		reaches(u.Elem(), out)
	case *types.Slice, *types.Map:
		k := memKey(t)
		if out[k] {
			return
		}
		out[k] = true
		if s, ok := u.(*types.Slice); ok {
			reaches(s.Elem(), out)
		} else {
			reaches(u.(*types.Map).Elem(), out)
		}
	case *types.Array:
		reaches(u.Elem(), out)
	case *types.Struct:
		k := structKey(t)
		if k != "" {
			if out[k] {
				return
			}
			out[k] = true
		}
		for i := 0; i < u.NumFields(); i++ {
			if k != "" {
				out[k+"."+u.Field(i).Name()] = true
			}
			reaches(u.Field(i).Type(), out)
		}
	}
}

// keeps reports whether a call leaves a field of a value of type t, and what it refers to, as it was.
func keeps(call *Term, t types.Type, f string) bool {
	if mutableField == nil || t == nil {
		return false
	}
	k := structKey(t)
	if k == "" {
		return false
	}
	s := mutableField
	if call.op == "call" {
		if o, ok := storesOf[stripOcc(call.aux)]; ok {
			s = o
		}
	} else if call.op == "calls" {
		s = loopStores[call.aux]
	}
	if s[k] || s[k+"."+f] {
		return false
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			m := map[string]bool{}
			reaches(st.Field(i).Type(), m)
			for r := range m {
				if s[r] {
					return false
				}
			}
			return true
		}
	}
	return false
}

var loopStores = map[string]map[string]bool{}
