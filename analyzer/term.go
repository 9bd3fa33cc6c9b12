package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic value. Two terms are the same value description if and only if
// they are the same pointer.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type // only for op zero / alloc / sym (best effort)
	syms bool       // mentions a loop counter
	size int

	nonneg bool // unsigned or a length
}

type interner struct {
	tab map[string]*Term
}

var in = &interner{tab: map[string]*Term{}}

func mk(op, aux string, args ...*Term) *Term { return mkT(op, aux, nil, args...) }

func mkT(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := in.tab[k]; ok {
		if t.typ == nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{id: len(in.tab) + 1, op: op, aux: aux, args: append([]*Term(nil), args...), typ: typ, size: 1}
	for _, a := range args {
		t.size += a.size
		if a.syms {
			t.syms = true
		}
	}
	if op == "K" {
		t.syms = true
	}
	switch op {
	case "K", "len", "hole":
		t.nonneg = true
	}
	in.tab[k] = t
	return t
}

var (
	tNil   = mk("nil", "")
	tTrue  = mk("const", "true")
	tFalse = mk("const", "false")
	tZeroI = mk("const", "0")
)

func tInt(n int64) *Term { return mk("const", strconv.FormatInt(n, 10)) }

func tBig(n *big.Int) *Term { return mk("const", n.String()) }

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tStr(s string) *Term { return mk("const", strconv.Quote(s)) }

func tConst(v constant.Value, t types.Type) *Term {
	if v == nil {
		return tZero(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(v))
	case constant.String:
		return tStr(constant.StringVal(v))
	default:
		return mk("const", v.ExactString())
	}
}

// sym is an unknown value; values of different types are different.
func sym(name string, t types.Type) *Term { return mkT("sym", name+"\x00"+t.String(), t) }

func symName(t *Term) string { return t.aux[:strings.IndexByte(t.aux, 0)] }

func isConst(t *Term) bool { return t.op == "const" || t.op == "nil" }

func intVal(t *Term) (*big.Int, bool) {
	if t.op != "const" || t.aux == "" || t.aux[0] == '"' || t.aux == "true" || t.aux == "false" {
		return nil, false
	}
	n, ok := new(big.Int).SetString(t.aux, 10)
	return n, ok
}

// tZero is the zero value of type t.
func tZero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return tNil
		default:
			return tZeroI
		}
	case *types.Struct, *types.Array:
		return mkT("zero", typeName(t), t)
	case *types.Tuple:
		return mkT("zero", "tuple", t)
	}
	return tNil
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}

// shortPkg is the last element of an import path, as the packages of the module are told apart by it.
func shortPkg(path string) string {
	if !strings.HasPrefix(path, modPath+"/") {
		return path
	}
	if path == modPath+"/tree/log/math" {
		return "logmath"
	}
	return path[strings.LastIndexByte(path, '/')+1:]
}

const modPath = "github.com/Bren2010/katie"

// field projects field F (name) out of struct value v.
func field(v *Term, F string) *Term {
	switch v.op {
	case "upd":
		names := strings.Split(v.aux, ",")
		for i, n := range names {
			if n == F {
				return v.args[i+1]
			}
		}
		return field(v.args[0], F)
	case "after": // a call that had the value does not change this field
		if v.args[1] != tZeroI && keeps(v.args[0], v.typ, F) {
			return field(v.args[1], F)
		}
	case "zero":
		if v.typ != nil {
			if st, ok := v.typ.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == F {
						return tZero(st.Field(i).Type())
					}
				}
			}
		}
	}
	// an update in place that leaves this field as it was
	if v.op == "elem" && (v.args[0].op == "ffill" || v.args[0].op == "fill") {
		l := v.args[0]
		old := mk("elem", "", l.args[0], compHole(l))
		if field(old, F) == field(l.args[2], F) || field(elemT(l.args[0], compHole(l)), F) == field(l.args[2], F) {
			return field(elemT(l.args[0], v.args[1]), F)
		}
	}
	return mk("f", F, v)
}

func updField(v *Term, F string, x *Term) *Term {
	base := v
	m := map[string]*Term{}
	if v.op == "upd" {
		base = v.args[0]
		for i, n := range strings.Split(v.aux, ",") {
			m[n] = v.args[i+1]
		}
	}
	m[F] = x
	if field(base, F) == x {
		delete(m, F)
	}
	if len(m) == 0 {
		return base
	}
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	args := []*Term{base}
	for _, n := range names {
		args = append(args, m[n])
	}
	return mkT("upd", strings.Join(names, ","), base.typ, args...)
}

// eta: an update of every field with the fields of one value is that value.
func etaStruct(v *Term, st *types.Struct) *Term {
	if v.op != "upd" || st.NumFields() == 0 {
		return v
	}
	var src *Term
	for i := 0; i < st.NumFields(); i++ {
		x := field(v, st.Field(i).Name())
		var s *Term
		switch x.op {
		case "f":
			if x.aux != st.Field(i).Name() {
				return v
			}
			s = x.args[0]
		default:
			return v
		}
		if src == nil {
			src = s
		} else if src != s {
			return v
		}
	}
	return src
}

func fieldAddr(p *Term, F string) *Term { return mk("fa", F, p) }

func addC(x *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return x
	}
	if n, ok := intVal(x); ok {
		return tBig(new(big.Int).Add(n, c))
	}
	if x.op == "add" {
		n, _ := new(big.Int).SetString(x.aux, 10)
		n = new(big.Int).Add(n, c)
		return addC(x.args[0], n)
	}
	return mk("add", c.String(), x)
}

func addI(x *Term, c int64) *Term { return addC(x, big.NewInt(c)) }

// splitAdd returns x = base + c. A constant has base nil.
func splitAdd(x *Term) (*Term, *big.Int) {
	if n, ok := intVal(x); ok {
		return nil, n
	}
	if x.op == "add" {
		n, _ := new(big.Int).SetString(x.aux, 10)
		return x.args[0], n
	}
	return x, new(big.Int)
}

// sum is x + y with the constant part pulled outwards and the rest in canonical order.
func sum(x, y *Term) *Term {
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	c := new(big.Int).Add(cx, cy)
	switch {
	case bx == nil && by == nil:
		return tBig(c)
	case bx == nil:
		return addC(by, c)
	case by == nil:
		return addC(bx, c)
	}
	// (a - b) + b = a
	if bx.op == "bin" && bx.aux == "-" && bx.args[1] == by {
		return addC(bx.args[0], c)
	}
	if by.op == "bin" && by.aux == "-" && by.args[1] == bx {
		return addC(by.args[0], c)
	}
	var parts []*Term
	for _, b := range []*Term{bx, by} {
		if b.op == "sum" {
			parts = append(parts, b.args...)
		} else {
			parts = append(parts, b)
		}
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i].id < parts[j].id })
	return addC(mk("sum", "", parts...), c)
}

func sub(x, y *Term) *Term {
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	c := new(big.Int).Sub(cx, cy)
	switch {
	case bx == by:
		return tBig(c)
	case by == nil:
		return addC(bx, c)
	}
	if bx != nil && bx.op == "sum" {
		for i, p := range bx.args {
			if p == by {
				rest := append(append([]*Term(nil), bx.args[:i]...), bx.args[i+1:]...)
				if len(rest) == 1 {
					return addC(rest[0], c)
				}
				return addC(mk("sum", "", rest...), c)
			}
		}
	}
	if bx == nil {
		return mk("bin", "-", tBig(c), by)
	}
	return addC(mk("bin", "-", bx, by), c)
}

// eq / lt build normalised atoms; the result may be a constant.
func eqT(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == "const" && b.op == "const" {
		return tFalse
	}
	// booleans
	if b == tTrue {
		return a
	}
	if a == tTrue {
		return b
	}
	if b == tFalse {
		return notT(a)
	}
	if a == tFalse {
		return notT(b)
	}
	if a == tNil || b == tNil {
		x := a
		if a == tNil {
			x = b
		}
		if nonNil(x) || x.op == "call" && alwaysNonNil(stripOcc(x.aux)) {
			return tFalse
		}
	}
	// x + c == y + d
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba != nil && bb != nil && (ca.Sign() != 0 || cb.Sign() != 0) {
		if ba == bb {
			return tBool(ca.Cmp(cb) == 0)
		}
		// move the constant to the larger id side, so that one form remains
		if ba.id > bb.id {
			ba, bb = bb, ba
			ca, cb = cb, ca
		}
		a, b = ba, addC(bb, new(big.Int).Sub(cb, ca))
	} else if ba == nil && bb != nil && cb.Sign() != 0 {
		a, b = tBig(new(big.Int).Sub(ca, cb)), bb
	} else if bb == nil && ba != nil && ca.Sign() != 0 {
		a, b = ba, tBig(new(big.Int).Sub(cb, ca))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

func notT(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", "", a)
}

func ltT(a, b *Term) *Term {
	a, b = unsub(a, b)
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb {
		return tBool(ca.Cmp(cb) < 0)
	}
	// the results of a comparison are -1, 0 and 1
	if ba != nil && ba.op == "cmp" && bb == nil {
		switch k := new(big.Int).Sub(cb, ca); {
		case k.Sign() < 0:
			return tBool(false)
		case k.Sign() == 0:
			return eqT(ba, tInt(-1))
		case k.IsInt64() && k.Int64() == 1:
			return notT(eqT(ba, tInt(1)))
		default:
			return tBool(true)
		}
	}
	if bb != nil && bb.op == "cmp" && ba == nil {
		switch k := new(big.Int).Sub(ca, cb); {
		case k.Sign() > 0:
			return tBool(false)
		case k.Sign() == 0:
			return eqT(bb, tInt(1))
		case k.IsInt64() && k.Int64() == -1:
			return notT(eqT(bb, tInt(-1)))
		default:
			return tBool(true)
		}
	}
	// normalise to ba < bb + (cb-ca)
	if ba != nil && bb != nil {
		return mk("lt", "", ba, addC(bb, new(big.Int).Sub(cb, ca)))
	}
	if ba == nil {
		return mk("lt", "", tBig(new(big.Int).Sub(ca, cb)), bb)
	}
	return mk("lt", "", ba, tBig(new(big.Int).Sub(cb, ca)))
}

// unsub rewrites (a - b) + c ? k as a + (c-k) ? b.
func unsub(x, y *Term) (*Term, *Term) {
	bx, cx := splitAdd(x)
	by, cy := splitAdd(y)
	if bx != nil && by == nil && bx.op == "bin" && bx.aux == "-" {
		return addC(bx.args[0], new(big.Int).Sub(cx, cy)), bx.args[1]
	}
	if by != nil && bx == nil && by.op == "bin" && by.aux == "-" {
		return by.args[1], addC(by.args[0], new(big.Int).Sub(cy, cx))
	}
	return x, y
}

func leT(a, b *Term) *Term { return notT(ltT(b, a)) }

// nonNil reports whether a pointer-like term can not be nil by construction.
func nonNil(t *Term) bool {
	switch t.op {
	case "zero":
		if t.typ != nil { // the contents of a slice of an array
			_, ok := t.typ.Underlying().(*types.Array)
			return ok
		}
		return false
	case "alloc", "ref", "iface", "closure", "mkhash", "mkbuf", "digest", "fa", "ia", "func", "global", "mkmap", "mkchan", "mkslice", "err", "lit", "comp":
		return true
	case "const":
		return true
	case "slice":
		// slicing an array pointer
		return t.args[0].op == "alloc" || t.args[0].op == "mkslice"
	case "cat":
		for _, a := range t.args {
			if a.op == "lit" && len(a.args) > 0 {
				return true
			}
		}
	}
	return false
}

// slices as values -----------------------------------------------------------------------------

// lit is a slice literal with the given elements.
func lit(xs ...*Term) *Term { return mk("lit", "", xs...) }

func cat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		switch {
		case x == tNil, x.op == "lit" && len(x.args) == 0, x.op == "const" && x.aux == `""`, (x.op == "arrptr" || x.op == "zero") && lenT(x) == tZeroI:
		case x.op == "cat":
			for _, y := range x.args {
				out = catAppend(out, y)
			}
		case x.op == "zero" && len(xs) > 1:
			if n, ok := intVal(lenT(x)); ok && n.Int64() <= 64 {
				x = constPart(x, 0, n.Int64())
			}
			out = catAppend(out, x)
		default:
			out = catAppend(out, x)
		}
	}
	switch len(out) {
	case 0:
		if len(xs) > 0 {
			return xs[0]
		}
		return tNil
	case 1:
		return out[0]
	}
	return mk("cat", "", out...)
}

func catAppend(out []*Term, y *Term) []*Term {
	if n := len(out); n > 0 && out[n-1].op == "lit" && y.op == "lit" {
		out[n-1] = lit(append(append([]*Term(nil), out[n-1].args...), y.args...)...)
		return out
	}
	if n := len(out); n > 0 && out[n-1].op == "slice" && y.op == "lit" && len(y.args) == 1 {
		// x[i:j] followed by x[j]
		if x := out[n-1]; y.args[0].op == "elem" && y.args[0].args[0] == x.args[0] && y.args[0].args[1] == x.args[2] {
			out[n-1] = sliceT(x.args[0], x.args[1], sum(x.args[2], tInt(1)))
			return out
		}
	}
	if n := len(out); n > 0 && out[n-1].op == "comp" && y.op == "lit" && len(y.args) == 1 {
		// body[0], ..., body[k-1] followed by body[k]
		if x := out[n-1]; substT(x.args[1], compHole(x), x.args[0]) == y.args[0] {
			out[n-1] = compT(sum(x.args[0], tInt(1)), compHole(x), x.args[1])
			return out
		}
	}
	return append(out, y)
}

func lenT(x *Term) *Term {
	switch x.op {
	case "nil":
		return tZeroI
	case "lit":
		return tInt(int64(len(x.args)))
	case "mkslice", "comp":
		return x.args[0]
	case "cat":
		n := tZeroI
		for _, a := range x.args {
			n = sum(n, lenT(a))
		}
		return n
	case "slice":
		return sub(x.args[2], x.args[1])
	case "arrptr":
		return mk("const", x.aux)
	case "eupd", "fill", "ffill", "sorted", "reversed", "blit":
		return lenT(x.args[0])
	case "digest":
		f := x.args[0]
		if f.op == "hmac" {
			f = f.args[0]
		}
		switch {
		case f.op == "func" && f.aux == "crypto/sha256.New":
			return tInt(32)
		case f.op == "func" && f.aux == "crypto/sha512.New":
			return tInt(64)
		}
	case "call":
		if n, ok := valueSizes[x.aux]; ok {
			return tInt(n)
		}
	case "fixed":
		return x.args[1]
	case "rd":
		if x.aux == "bytes" && len(x.args) == 2 {
			return x.args[1]
		}
	case "after":
		if len(x.args) > 1 && x.args[1].op == "mkslice" {
			return lenT(x.args[1])
		}
	case "const":
		if s, err := strconv.Unquote(x.aux); err == nil {
			return tInt(int64(len(s)))
		}
	case "zero":
		if x.typ != nil {
			if a, ok := x.typ.Underlying().(*types.Array); ok {
				return tInt(a.Len())
			}
		}
	}
	return mk("len", "", x)
}

func sliceT(x, lo, hi *Term) *Term {
	if lo == nil {
		lo = tZeroI
	}
	if hi == nil {
		hi = lenT(x)
	}
	if lo == tZeroI && hi == lenT(x) {
		return x
	}
	if x.op == "slice" {
		return sliceT(x.args[0], sum(x.args[1], lo), sum(x.args[1], hi))
	}
	if x.op == "lit" {
		l, ok1 := intVal(lo)
		h, ok2 := intVal(hi)
		if ok1 && ok2 && l.Sign() >= 0 && h.Cmp(l) >= 0 && h.Int64() <= int64(len(x.args)) {
			return lit(x.args[l.Int64():h.Int64()]...)
		}
	}
	if lo == hi && lo.op == "const" {
		return lit()
	}
	if l, h, ok := constRange(lo, hi); ok {
		switch x.op {
		case "cat":
			// the parts that the range covers, if it starts and ends within parts of known length
			off, parts := int64(0), []*Term(nil)
			for _, a := range x.args {
				n, ok := intVal(lenT(a))
				if off >= h {
					break
				}
				if !ok {
					return mk("slice", "", x, lo, hi)
				}
				e := off + n.Int64()
				if e > l {
					parts = append(parts, sliceT(a, tInt(max(l-off, 0)), tInt(min(h, e)-off)))
				}
				off = e
			}
			if off >= h {
				return cat(parts...)
			}
		case "blit":
			if n, ok := intVal(lenT(x.args[2])); ok {
				if s, ok := intVal(x.args[1]); ok {
					b, e := s.Int64(), s.Int64()+n.Int64()
					switch {
					case h <= b || l >= e:
						return sliceT(x.args[0], lo, hi)
					case l >= b && h <= e:
						return sliceT(x.args[2], tInt(l-b), tInt(h-b))
					}
				}
			}
		}
	}
	return mk("slice", "", x, lo, hi)
}

func constRange(lo, hi *Term) (int64, int64, bool) {
	l, ok1 := intVal(lo)
	h, ok2 := intVal(hi)
	if !ok1 || !ok2 || l.Sign() < 0 || h.Cmp(l) < 0 || !h.IsInt64() {
		return 0, 0, false
	}
	return l.Int64(), h.Int64(), true
}

func elemT(x, i *Term) *Term {
	switch x.op {
	case "reversed":
		return elemT(x.args[0], sub(addC(lenT(x.args[0]), big.NewInt(-1)), i))
	case "lit":
		if n, ok := intVal(i); ok && n.Sign() >= 0 && n.Int64() < int64(len(x.args)) {
			return x.args[n.Int64()]
		}
	case "slice":
		return elemT(x.args[0], sum(x.args[1], i))
	case "blit":
		if n, ok := intVal(i); ok && n.Sign() >= 0 && n.IsInt64() {
			if s := sliceT(x, i, sum(i, tInt(1))); s != x && s.op != "slice" || s.op == "slice" && s.args[0] != x {
				return elemT(s, tZeroI)
			}
		}
	case "comp":
		return substT(x.args[1], compHole(x), i)
	case "eupd":
		if x.args[1] == i {
			return x.args[2]
		}
		_, ok1 := intVal(i)
		_, ok2 := intVal(x.args[1])
		if ok1 && ok2 {
			return elemT(x.args[0], i)
		}
		bi, _ := splitAdd(i)
		bj, _ := splitAdd(x.args[1])
		if bi != nil && bi == bj {
			return elemT(x.args[0], i)
		}
	case "mkslice":
		if x.typ != nil {
			if a, ok := x.typ.Underlying().(*types.Slice); ok {
				return tZero(a.Elem())
			}
		}
	case "zero":
		if x.typ != nil {
			if a, ok := x.typ.Underlying().(*types.Array); ok {
				return tZero(a.Elem())
			}
		}
	case "fill", "ffill":
		if d, ok := intVal(sub(i, x.args[1])); ok && d.Sign() >= 0 {
			return elemT(x.args[0], i)
		}
	case "cat":
		off := tZeroI
		for j, a := range x.args {
			l := lenT(a)
			rel := sub(i, off)
			if j > 0 && j == len(x.args)-1 { // what is not beyond the end is in the last part
				if b, c := splitAdd(rel); b != nil && c.Sign() >= 0 && (b.nonneg || b.op == "hole") {
					return elemT(a, rel)
				}
			}
			rc, ok := intVal(rel)
			lc, ok2 := intVal(l)
			if ok && rc.Sign() >= 0 && ok2 && rc.Cmp(lc) < 0 {
				return elemT(a, rel)
			}
			off = sum(off, l)
		}
	}
	return mk("elem", "", x, i)
}

func eupd(x, i, v *Term) *Term {
	if n, ok := intVal(lenT(x)); ok && x.op == "zero" && n.Int64() <= 64 {
		if _, ok := intVal(i); ok {
			x = constPart(x, 0, n.Int64())
		}
	}
	if x.op == "lit" {
		if n, ok := intVal(i); ok && n.Sign() >= 0 && n.Int64() < int64(len(x.args)) {
			a := append([]*Term(nil), x.args...)
			a[n.Int64()] = v
			return lit(a...)
		}
	}
	if x.op == "cat" && x.args[0].op == "lit" {
		if n, ok := intVal(i); ok && n.Sign() >= 0 && n.Int64() < int64(len(x.args[0].args)) {
			return cat(append([]*Term{eupd(x.args[0], i, v)}, x.args[1:]...)...)
		}
	}
	// one more element of the same form
	if x.op == "fill" && x.args[1] == i && substT(x.args[2], compHole(x), i) == v {
		return fillT(x.args[0], sum(i, tInt(1)), compHole(x), x.args[2])
	}
	if x.op == "eupd" && x.args[1] == i {
		return eupd(x.args[0], i, v)
	}
	if elemT(x, i) == v {
		return x
	}
	t := mkT("eupd", "", x.typ, x, i, v)
	// a small array all of whose elements are known
	if x.typ != nil {
		if at, ok := x.typ.Underlying().(*types.Array); ok && at.Len() <= 8 {
			var els []*Term
			for j := int64(0); j < at.Len(); j++ {
				e := elemT(t, tInt(j))
				if e.op == "elem" && mentions(e, t) {
					return t
				}
				els = append(els, e)
			}
			return lit(els...)
		}
	}
	return t
}

func hole(level int) *Term { return mk("hole", strconv.Itoa(level)) }

// holeLevel is the highest bound variable that occurs in t (0 if none).
func holeLevel(t *Term) int {
	if t.op == "hole" {
		n, _ := strconv.Atoi(t.aux)
		return n
	}
	n := 0
	for _, a := range t.args {
		if m := holeLevel(a); m > n {
			n = m
		}
	}
	return n
}

// substT replaces from by to and renormalises.
func substT(t, from, to *Term) *Term {
	return substM(t, map[*Term]*Term{from: to}, map[*Term]*Term{})
}

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = substM(a, m, memo)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "f":
		return field(args[0], t.aux)
	case "add":
		n, _ := new(big.Int).SetString(t.aux, 10)
		return addC(args[0], n)
	case "sum":
		r := args[0]
		for _, a := range args[1:] {
			r = sum(r, a)
		}
		return r
	case "bin":
		return binT(t.aux, args[0], args[1])
	case "eq":
		return eqT(args[0], args[1])
	case "lt":
		return ltT(args[0], args[1])
	case "not":
		return notT(args[0])
	case "len":
		return lenT(args[0])
	case "slice":
		return sliceT(args[0], args[1], args[2])
	case "elem":
		return elemT(args[0], args[1])
	case "cat":
		return cat(args...)
	case "eupd":
		return eupd(args[0], args[1], args[2])
	case "upd":
		if args[0].op == "upd" || args[0] != t.args[0] && args[0].op != "zero" {
			r := args[0]
			for i, F := range strings.Split(t.aux, ",") {
				r = updField(r, F, args[i+1])
			}
			return r
		}
	case "comp":
		return compT(args[0], compHole(t), args[1])
	case "rep":
		return repT(args[0], compHole(t), args[1])
	case "fill":
		return fillT(args[0], args[1], compHole(t), args[2])
	case "lookup":
		return lookupT(args[0], args[1])
	case "has":
		return hasT(args[0], args[1])
	}
	return mkT(t.op, t.aux, t.typ, args...)
}

// compT is the slice [body[0], ..., body[n-1]], where h is the index in the body.
func compT(n, h, body *Term) *Term {
	if n == tZeroI {
		return lit()
	}
	// [x[0], ..., x[len(x)-1]] is x
	if body.op == "elem" && body.args[1] == h && !mentions(body.args[0], h) && lenT(body.args[0]) == n {
		return body.args[0]
	}
	if body.op == "elem" && body.args[1] == h && !mentions(body.args[0], h) && !isConst(n) {
		return sliceT(body.args[0], nil, n)
	}
	if c, ok := intVal(n); ok && c.Sign() > 0 && c.Cmp(big.NewInt(8)) <= 0 {
		var xs []*Term
		for i := int64(0); i < c.Int64(); i++ {
			xs = append(xs, substT(body, h, tInt(i)))
		}
		return lit(xs...)
	}
	return mk("comp", h.aux, n, body)
}

// repT is the concatenation of body[0], ..., body[n-1].
func repT(n, h, body *Term) *Term {
	if n == tZeroI {
		return lit()
	}
	if body.op == "lit" && len(body.args) == 1 {
		return compT(n, h, body.args[0])
	}
	return mk("rep", h.aux, n, body)
}

// fillT is the slice x with its first n elements replaced by body.
func fillT(x, n, h, body *Term) *Term {
	if lenT(x) == n {
		return compT(n, h, body)
	}
	if n == tZeroI {
		return x
	}
	return mk("fill", h.aux, x, n, body)
}

func compHole(x *Term) *Term { return mk("hole", x.aux) }

func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	if t.size < x.size {
		return false
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

func mentionsOp(t *Term, op string) bool {
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if mentionsOp(a, op) {
			return true
		}
	}
	return false
}

func binT(op string, x, y *Term) *Term {
	a, ok1 := intVal(x)
	b, ok2 := intVal(y)
	if ok1 && ok2 {
		r := new(big.Int)
		switch op {
		case "*":
			return tBig(r.Mul(a, b))
		case "/":
			if b.Sign() != 0 {
				return tBig(r.Quo(a, b))
			}
		case "%":
			if b.Sign() != 0 {
				return tBig(r.Rem(a, b))
			}
		case "<<":
			if b.IsUint64() && b.Uint64() < 256 {
				return tBig(r.Lsh(a, uint(b.Uint64())))
			}
		case ">>":
			if b.IsUint64() && b.Uint64() < 256 {
				return tBig(r.Rsh(a, uint(b.Uint64())))
			}
		case "&":
			return tBig(r.And(a, b))
		case "|":
			return tBig(r.Or(a, b))
		case "^":
			return tBig(r.Xor(a, b))
		}
	}
	switch op {
	case "+":
		return sum(x, y)
	case "-":
		return sub(x, y)
	case "*", "&", "|", "^":
		if op == "*" && ok2 && b.Cmp(big.NewInt(1)) == 0 {
			return x
		}
		if op == "*" && ok1 && a.Cmp(big.NewInt(1)) == 0 {
			return y
		}
		if op == "*" && ok1 {
			x, y = y, x
			a, b, ok1, ok2 = b, a, ok2, ok1
		}
		// multiplication by a power of two is a shift
		if op == "*" && ok2 && b.Sign() > 0 && new(big.Int).And(b, new(big.Int).Sub(b, big.NewInt(1))).Sign() == 0 {
			return mk("bin", "<<", x, tInt(int64(b.BitLen()-1)))
		}
		if x.id > y.id {
			x, y = y, x
		}
	case "<<", ">>":
		if ok2 && b.Sign() == 0 {
			return x
		}
	case "/":
		if ok2 && b.Sign() > 0 && new(big.Int).And(b, new(big.Int).Sub(b, big.NewInt(1))).Sign() == 0 {
			return binT(">>", x, tInt(int64(b.BitLen()-1)))
		}
	case "%":
		if ok2 && b.Sign() > 0 && new(big.Int).And(b, new(big.Int).Sub(b, big.NewInt(1))).Sign() == 0 {
			return binT("&", x, tBig(new(big.Int).Sub(b, big.NewInt(1))))
		}
	}
	return mk("bin", op, x, y)
}

// maps as values: mput(m, k, v) and mdel(m, k)
func lookupT(m, k *Term) *Term {
	switch m.op {
	case "mput":
		if m.args[1] == k {
			return m.args[2]
		}
		if distinctConst(m.args[1], k) {
			return lookupT(m.args[0], k)
		}
	case "mdel":
		if distinctConst(m.args[1], k) {
			return lookupT(m.args[0], k)
		}
	}
	return mk("lookup", "", m, k)
}

func hasT(m, k *Term) *Term {
	switch m.op {
	case "mput":
		if m.args[1] == k {
			return tTrue
		}
		if distinctConst(m.args[1], k) {
			return hasT(m.args[0], k)
		}
		if hasT(m.args[0], k) == tFalse {
			return eqT(m.args[1], k)
		}
	case "mdel":
		if m.args[1] == k {
			return tFalse
		}
		if distinctConst(m.args[1], k) {
			return hasT(m.args[0], k)
		}
	case "mempty", "nil":
		return tFalse
	}
	return mk("has", "", m, k)
}

func distinctConst(a, b *Term) bool {
	if a.op == "const" && b.op == "const" && a != b {
		return true
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	return ba != nil && ba == bb && ca.Cmp(cb) != 0
}

// printing ------------------------------------------------------------------------------------

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	return t.str(0)
}

func (t *Term) str(d int) string {
	if d > 14 {
		return "..."
	}
	as := func(xs []*Term) string {
		var ss []string
		for _, x := range xs {
			ss = append(ss, x.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case "const":
		return t.aux
	case "nil":
		return "nil"
	case "sym":
		return symName(t)
	case "global", "func":
		return t.aux
	case "hole":
		return "#" + t.aux
	case "K":
		return "K" + t.aux
	case "f":
		return t.args[0].str(d+1) + "." + t.aux
	case "fa":
		return t.args[0].str(d+1) + "->" + t.aux
	case "ia":
		return "&" + t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "elem":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "ld":
		return t.args[0].str(d + 1)
	case "len":
		return "len(" + as(t.args) + ")"
	case "add":
		if strings.HasPrefix(t.aux, "-") {
			return t.args[0].str(d+1) + t.aux
		}
		return t.args[0].str(d+1) + "+" + t.aux
	case "eq":
		return t.args[0].str(d+1) + " == " + t.args[1].str(d+1)
	case "lt":
		return t.args[0].str(d+1) + " < " + t.args[1].str(d+1)
	case "not":
		return "!(" + as(t.args) + ")"
	case "bin":
		return "(" + t.args[0].str(d+1) + " " + t.aux + " " + t.args[1].str(d+1) + ")"
	case "sum":
		var ss []string
		for _, x := range t.args {
			ss = append(ss, x.str(d+1))
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case "slice":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + ":" + t.args[2].str(d+1) + "]"
	case "res":
		return "res" + t.aux + "(" + as(t.args) + ")"
	case "call":
		return t.aux + "(" + as(t.args) + ")"
	case "upd":
		var ss []string
		for i, n := range strings.Split(t.aux, ",") {
			ss = append(ss, n+": "+t.args[i+1].str(d+1))
		}
		return t.args[0].str(d+1) + "{" + strings.Join(ss, ", ") + "}"
	case "alloc":
		return "&" + t.aux
	}
	s := t.op
	if t.aux != "" {
		s += "{" + t.aux + "}"
	}
	return s + "(" + as(t.args) + ")"
}

func litString(a *Term, pos bool) string {
	if pos {
		return a.String()
	}
	if a.op == "eq" {
		return a.args[0].String() + " != " + a.args[1].String()
	}
	if a.op == "lt" {
		return a.args[1].String() + " <= " + a.args[0].String()
	}
	return "!" + a.String()
}

var _ = fmt.Sprint
