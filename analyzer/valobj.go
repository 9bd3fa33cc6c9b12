package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library types with value semantics: a method that returns its receiver sets the receiver to a function of the
// values of its other arguments, any other method is a function of the values of all its arguments.
var valueTypes = map[string]string{
	"filippo.io/nistec.P256Point": "nistec", "filippo.io/edwards25519.Point": "edwards", "filippo.io/edwards25519.Scalar": "scalar", "math/big.Int": "bigint",
}

func valueType(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return valueTypes[p.Elem().String()]
	}
	return ""
}

var valueShort = map[string]bool{"nistec": true, "edwards": true, "scalar": true, "bigint": true}

var commutes = map[string]bool{"nistec.Add": true, "edwards.Add": true, "scalar.Add": true, "scalar.Multiply": true, "bigint.Add": true, "bigint.Mul": true, "scalar.MultiplyAdd": true, "edwards.Equal": true}

// valueCall gives the meaning of the methods of value types.
func (x *Exec) valueCall(c *Cfg, fn *ssa.Function, args []*Term) ([]callOut, bool) {
	sig := fn.Signature
	if sig.Recv() == nil {
		if fn.Pkg == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			return nil, false
		}
		if short := valueType(sig.Results().At(0).Type()); short != "" {
			return nil, false
		}
		return nil, false
	}
	short := valueType(sig.Recv().Type())
	if short == "" {
		return nil, false
	}
	st := c.st
	name := short + "." + fn.Name()
	var vals []*Term
	for i, a := range args {
		var t types.Type = sig.Recv().Type()
		if i > 0 {
			if sig.Variadic() {
				return nil, false
			}
			t = sig.Params().At(i - 1).Type()
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			v := x.load(st, a)
			if v.op == "zero" || v.op == "ref" {
				v = mk("zero", "")
			}
			vals = append(vals, x.snap(st, v, 0))
		case *types.Slice:
			vals = append(vals, x.snap(st, x.sliceVal(st, a), 0))
		case *types.Basic:
			vals = append(vals, a)
		default:
			_ = u
			return nil, false
		}
	}
	res := sig.Results()
	setter := res.Len() >= 1 && types.Identical(res.At(0).Type(), sig.Recv().Type()) && res.Len() <= 2
	if name == "bigint.FillBytes" {
		v := mk("fixed", "", vals[0], lenT(vals[1]))
		x.kind[args[1]] = 's'
		x.sliceCopy(st, args[1], v)
		return []callOut{{c, args[1]}}, true
	}
	if !setter {
		if res.Len() != 1 {
			return nil, false
		}
		if commutes[name] {
			order(vals, 0)
		}
		t := mkT("call", name, res.At(0).Type(), vals...)
		return []callOut{{c, t}}, true
	}
	in := vals[1:]
	if strings.HasSuffix(name, ".Subtract") && len(in) == 2 {
		name = short + ".Add"
		in = []*Term{in[0], mk("call", short+".Negate", in[1])}
	}
	if commutes[name] {
		order(in, 0)
	}
	x.store(st, args[0], mk("call", name, in...))
	if res.Len() == 2 {
		return []callOut{{c, mk("tuple", "", args[0], mkT("call", name+"Err", res.At(1).Type(), in...))}}, true
	}
	return []callOut{{c, args[0]}}, true
}

// sizes of encodings
var valueSizes = map[string]int64{"nistec.BytesCompressed": 33, "edwards.Bytes": 32, "scalar.Bytes": 32}

// order puts the operands of a commutative operation into a fixed order.
func order(v []*Term, i int) {
	if len(v) >= i+2 && v[i].String() > v[i+1].String() {
		v[i], v[i+1] = v[i+1], v[i]
	}
}
