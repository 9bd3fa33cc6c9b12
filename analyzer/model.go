package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isHash(t types.Type) bool { return t.String() == "hash.Hash" }

func isBuffer(t types.Type) bool { return t.String() == "bytes.Buffer" }

// purelib lists library functions whose result depends on their arguments only.
func purelib(s string) bool {
	for _, p := range []string{
		"bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "errors.New", "errors.Is", "fmt.Errorf", "fmt.Sprint", "fmt.Sprintf", "math/bits.",
		"crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/hmac.Equal", "crypto/ed25519.Verify", "crypto/ecdsa.Verify", "strings.", "slices.Contains", "slices.Equal",
		"slices.Index", "slices.BinarySearch", "slices.Clone", "strconv.", "(encoding/binary.bigEndian).Uint", "(encoding/binary.bigEndian).String", "encoding/hex.",
		"crypto/elliptic.P256", "crypto/elliptic.P521", "cmp.Compare", "crypto/subtle.", "bytes.NewBuffer", "bytes.NewReader", "crypto/sha256.New", "crypto/hmac.New",
		"(crypto/ed25519.PrivateKey).Public", "(time.Time).Unix", "(*math/big.Int).Cmp", "(*math/big.Int).Sign", "(*math/big.Int).Bytes", "crypto/ed25519.NewKeyFromSeed",
		"(*crypto/ecdsa.PublicKey).Bytes", "crypto/ecdsa.Parse", "slices.IsSorted", "(encoding/binary.bigEndian).Append", "bytes.Clone", "slices.Concat", "slices.Max", "slices.Min",
		"(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "github.com/syndtr/goleveldb/leveldb/errors.", "maps.Keys", "slices.Sorted", "slices.Collect",
	} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// pureInvoke lists interface methods without effects.
func pureInvoke(t types.Type, m string) bool { return pureMethod(typeName(t), m) }

func pureMethod(n, m string) bool {
	switch {
	case n == "suites.CipherSuite" && (m == "HashSize" || m == "Id" || m == "CommitmentFixedBytes"):
		return true
	case strings.HasPrefix(n, "crypto/suites.") || strings.HasPrefix(n, "crypto/vrf."):
		return m != "Sign" && m != "NewHash"
	case n == "prefix.PrefixSearchResult" && m != "Marshal", n == "prefix.node" && (m == "Hash" || m == "Weight"):
		return true
	case n == "crypto/elliptic.Curve" && m == "Params":
		return true
	case m == "Error" || m == "Size" || m == "BlockSize":
		return true
	}
	return false
}

// model gives the meaning of library functions.
func (x *Exec) model(fr *Frame, c *Cfg, instr ssa.CallInstruction, fn *ssa.Function, name string, args []*Term) ([]callOut, bool) {
	st := c.st
	one := func(t *Term) ([]callOut, bool) { return []callOut{{c, t}}, true }
	full := fn.String()
	if o := fn.Origin(); o != nil {
		full = o.String()
	}
	if x.p.inRepo(fn) {
		return nil, false
	}
	if out, ok := x.valueCall(c, fn, args); ok {
		return out, true
	}
	val := func(i int) *Term { return x.snap(st, x.sliceVal(st, args[i]), 0) }
	switch full {
	case "errors.New", "fmt.Errorf", "github.com/syndtr/goleveldb/leveldb/errors.New":
		// errors are not told apart by their text
		wrapped := ""
		if full == "fmt.Errorf" {
			wrapped = "f"
		}
		return one(mk("err", "new"+wrapped))
	case "bytes.Equal", "crypto/hmac.Equal", "slices.Equal":
		return one(contentEq(val(0), val(1)))
	case "crypto/subtle.ConstantTimeCompare":
		t := contentEq(val(0), val(1))
		co := c.clone()
		out := []callOut{}
		if c.st.assume(t, true) {
			out = append(out, callOut{c, tInt(1)})
		}
		if co.st.assume(t, false) {
			out = append(out, callOut{co, tInt(0)})
		}
		return out, true
	case "bytes.Compare":
		return one(mk("cmp", "", val(0), val(1)))
	case "fmt.Sprintf", "fmt.Sprint", "strconv.Itoa", "strconv.FormatUint", "strconv.FormatInt", "encoding/hex.EncodeToString":
		in := append([]*Term(nil), args...)
		if strings.HasPrefix(full, "fmt.") {
			in[len(in)-1] = val(len(in) - 1)
		} else if full == "encoding/hex.EncodeToString" {
			in[0] = val(0)
		}
		if t := textOf(full, in); t != nil {
			return one(t)
		}
	case "slices.Clone", "bytes.Clone":
		v := x.sliceVal(st, args[0])
		if x.cloned == nil {
			x.cloned = map[*Term]bool{}
		}
		x.cloned[v] = true
		return one(v)
	case "slices.Contains":
		return x.contains(c, val(0), args[1])
	case "slices.Sort", "slices.SortFunc", "sort.Slice", "slices.SortStableFunc", "slices.Reverse", "sort.Strings", "sort.Ints":
		s := args[0]
		if s.op == "iface" {
			s = s.args[0]
		}
		v := x.sliceVal(st, s)
		tag := "sorted"
		if full == "slices.Reverse" {
			tag = "reversed"
		}
		a := []*Term{v}
		if len(args) > 1 {
			a = append(a, cmpID(args[1]))
		}
		x.ev(&Event{kind: "call", name: full, args: a, raw: args, pos: instr.Pos(), fn: fr.fn}, c)
		nv := mk(tag, "", a...)
		if s.op == "arrptr" {
			x.store(st, s.args[0], nv)
			return one(tNil)
		}
		x.kind[s] = 's'
		if s != v && s.op == "slice" && s.args[0].op == "arrptr" {
			x.store(st, s.args[0].args[0], nv)
			return one(tNil)
		}
		if len(v.args) > 0 || v.op == "sym" || v.op == "phi" {
			st.heap[s] = nv
			// the variables that hold this slice see the sorted contents
			if s.op == "lit" || s.op == "cat" || s.op == "comp" || s.op == "rep" || s.op == "lv" || s.op == "phi" {
				for k, w := range c.env {
					if w == s {
						c.env[k] = nv
					}
				}
				for k, w := range st.heap {
					if w == s && k != s {
						st.heap[k] = nv
					}
				}
				delete(st.heap, s)
				if len(fr.stack) > 1 {
					st.heap[mk("resorted", "", s)] = nv
				}
			}
		}
		return one(tNil)
	case "bytes.NewBuffer", "bytes.NewReader":
		v := x.sliceVal(st, args[0])
		if v == tNil {
			v = lit()
		}
		t := mkT("mkbuf", x.site(fr, instr.(ssa.Value)), instr.Value().Type())
		st.heap[t] = v
		return one(t)
	case "crypto/sha256.New", "crypto/sha512.New":
		return one(x.newHash(fr, st, instr, mk("func", full)))
	case "crypto/hmac.New":
		return one(x.newHash(fr, st, instr, mk("hmac", "", args[0], val(1))))
	case "crypto/sha256.Sum256":
		return one(mkT("digest", "", instr.Value().Type(), mk("func", "crypto/sha256.New"), val(0)))
	case "crypto/sha512.Sum512":
		return one(mkT("digest", "", instr.Value().Type(), mk("func", "crypto/sha512.New"), val(0)))
	case "(*bytes.Buffer).Len":
		return one(lenT(x.load(st, args[0])))
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		return one(x.snap(st, x.load(st, args[0]), 0))
	case "(*bytes.Buffer).Write":
		x.bufAppend(st, args[0], val(1))
		return one(mk("tuple", "", lenT(val(1)), tNil))
	case "(*bytes.Buffer).WriteString":
		x.bufAppend(st, args[0], args[1])
		return one(mk("tuple", "", lenT(args[1]), tNil))
	case "(*bytes.Buffer).WriteByte":
		x.bufAppend(st, args[0], lit(args[1]))
		return one(tNil)
	case "(*bytes.Buffer).Reset":
		x.store(st, args[0], lit())
		return one(tNil)
	case "(*bytes.Buffer).ReadByte":
		cur := x.load(st, args[0])
		it := mk("rd", "u8", cur)
		it.nonneg = true
		x.store(st, args[0], mk("rest", "u8", cur))
		return x.readOuts(c, it, cur, "u8", tInt(1), mk("rderr", "u8", cur))
	case "encoding/binary.Write":
		return x.binWrite(c, args)
	case "encoding/binary.Read":
		return x.binRead(c, instr, args)
	case "io.ReadFull":
		return x.readFull(c, instr, args)
	case "(*bytes.Buffer).Read", "(*bytes.Buffer).Next":
		// a short read is not an error
		return nil, false
	}
	if strings.HasPrefix(full, "(encoding/binary.bigEndian).PutUint") {
		n := strings.TrimPrefix(full, "(encoding/binary.bigEndian).PutUint")
		x.sliceCopy(st, args[1], mk("enc", "u"+n, args[2]))
		return one(tNil)
	}
	if strings.HasPrefix(full, "(encoding/binary.bigEndian).AppendUint") {
		n := strings.TrimPrefix(full, "(encoding/binary.bigEndian).AppendUint")
		return one(cat(val(1), mk("enc", "u"+n, args[2])))
	}
	if strings.HasPrefix(full, "(encoding/binary.bigEndian).Uint") {
		n := strings.TrimPrefix(full, "(encoding/binary.bigEndian).Uint")
		v := val(1)
		if v.op == "enc" && v.aux == "u"+n {
			return one(v.args[0])
		}
		t := mk("dec", "u"+n, v)
		t.nonneg = true
		return one(t)
	}
	return nil, false
}

// newHash is a hash to which data is written. Its result is determined by the algorithm and the data.
func (x *Exec) newHash(fr *Frame, st *State, instr ssa.CallInstruction, algo *Term) *Term {
	t := mkT("mkhash", x.site(fr, instr.(ssa.Value)), instr.Value().Type(), algo)
	st.heap[t] = lit()
	return t
}

// hashCall gives the meaning of the methods of a hash.
func (x *Exec) hashCall(fr *Frame, c *Cfg, instr ssa.CallInstruction, m string, args []*Term) ([]callOut, bool) {
	st := c.st
	h := args[0]
	if h.op != "mkhash" {
		return nil, false
	}
	val := func(i int) *Term { return x.snap(st, x.sliceVal(st, args[i]), 0) }
	switch m {
	case "Write":
		x.bufAppend(st, h, val(1))
		return []callOut{{c, mk("tuple", "", lenT(val(1)), tNil)}}, true
	case "Sum":
		return []callOut{{c, cat(val(1), mkT("digest", "", instr.Value().Type(), h.args[0], x.snap(st, x.load(st, h), 0)))}}, true
	case "Reset":
		x.store(st, h, lit())
		return []callOut{{c, tNil}}, true
	}
	return nil, false
}

func cmpID(t *Term) *Term {
	if t.op == "closure" || t.op == "func" {
		return t
	}
	return t
}

func (x *Exec) bufAppend(st *State, b, v *Term) {
	x.store(st, b, cat(x.load(st, b), v))
}

// contains forks on whether the slice has the element.
func (x *Exec) contains(c *Cfg, s, v *Term) ([]callOut, bool) {
	if s.op == "lit" {
		// a finite set of constants
		var out []callOut
		cur := c
		for _, e := range s.args {
			t := eqT(e, v)
			if k, known := cur.st.facts.quick(t); known {
				if k {
					out = append(out, callOut{cur, tTrue})
					return out, true
				}
				continue
			}
			y := cur.clone()
			if y.st.assume(t, true) {
				out = append(out, callOut{y, tTrue})
			}
			cur.st.assume(t, false)
		}
		out = append(out, callOut{cur, tFalse})
		return out, true
	}
	yes, no := c, c.clone()
	w := x.fresh(yes.st, "witness", s, v)
	w.nonneg = true
	yes.st.assume(ltT(w, lenT(s)), true)
	yes.st.assume(eqT(elemT(s, w), v), true)
	h := hole(max(holeLevel(s), holeLevel(v)) + 1)
	if no.st.facts.shared {
		no.st.facts = no.st.facts.clone()
	}
	a, p := norm(eqT(elemT(s, h), v), false)
	no.st.facts.addForall(&Forall{bound: lenT(s), h: h, disjuncts: []*Conj{{lits: []Lit{{a, p}}}}})
	return []callOut{{yes, tTrue}, {no, tFalse}}, true
}

func basicTag(t types.Type) (string, int) {
	t = t.Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8, types.Int8, types.Bool:
			return "u8", 1
		case types.Uint16, types.Int16:
			return "u16", 2
		case types.Uint32, types.Int32:
			return "u32", 4
		case types.Uint64, types.Int64:
			return "u64", 8
		}
	}
	return "", 0
}

// binWrite models binary.Write(buf, order, value) for fixed-size values.
func (x *Exec) binWrite(c *Cfg, args []*Term) ([]callOut, bool) {
	w, v := args[0], args[2]
	if v.op != "iface" || v.typ == nil || w.op != "iface" {
		return nil, false
	}
	tag, _ := basicTag(v.typ)
	if tag == "" {
		if pt, ok := v.typ.Underlying().(*types.Pointer); ok {
			if tag, _ = basicTag(pt.Elem()); tag != "" {
				x.bufAppend(c.st, w.args[0], mk("enc", tag, x.load(c.st, v.args[0])))
				return []callOut{{c, tNil}}, true
			}
		}
		// not a fixed-size value: the call fails
		return []callOut{{c, mk("err", "size")}}, true
	}
	x.bufAppend(c.st, w.args[0], mk("enc", tag, v.args[0]))
	return []callOut{{c, tNil}}, true
}

func (x *Exec) readOuts(c *Cfg, it, cur *Term, tag string, n, errT *Term) ([]callOut, bool) {
	return []callOut{{c, mk("tuple", "", it, errT)}}, true
}

// binRead models binary.Read(buf, order, &value).
func (x *Exec) binRead(c *Cfg, instr ssa.CallInstruction, args []*Term) ([]callOut, bool) {
	st := c.st
	r, v := args[0], args[2]
	if v.op != "iface" || v.typ == nil || r.op != "iface" {
		return nil, false
	}
	pt, ok := v.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	tag, _ := basicTag(pt.Elem())
	if tag == "" {
		return []callOut{{c, mk("err", "size")}}, true
	}
	cur := x.load(st, r.args[0])
	it := mk("rd", tag, cur)
	if isUnsigned(pt.Elem()) {
		it.nonneg = true
	}
	x.store(st, v.args[0], it)
	x.store(st, r.args[0], mk("rest", tag, cur))
	return []callOut{{c, mk("rderr", tag, cur)}}, true
}

// readFull models io.ReadFull(buf, dst), which fails if fewer bytes are left.
func (x *Exec) readFull(c *Cfg, instr ssa.CallInstruction, args []*Term) ([]callOut, bool) {
	st := c.st
	r, d := args[0], args[1]
	src := r
	if r.op == "iface" {
		src = r.args[0]
	} else {
		return nil, false
	}
	cur := x.load(st, src)
	n := lenT(x.sliceVal(st, d))
	it := mk("rd", "bytes", cur, n)
	x.store(st, src, mk("rest", "bytes", cur, n))
	base := d
	switch {
	case d.op == "arrptr":
		x.store(st, d.args[0], it)
	case d.op == "lit" && len(d.args) == 0:
	default:
		x.kind[base] = 's'
		x.sliceCopy(st, d, it)
		if d.op == "mkslice" {
			st.heap[d] = it
		}
	}
	return []callOut{{c, mk("tuple", "", n, mk("rderr", "bytes", cur, n))}}, true
}

var _ = strconv.Itoa
