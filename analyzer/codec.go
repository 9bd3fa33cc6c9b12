package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Codec symmetry. A decoder is interpreted with a symbolic input; in the state of each way it can
// succeed the encoder is interpreted on the decoded value. What the encoder writes must be, part by
// part, what the decoder consumed.

// codecPairs are the functions that decode and encode one value.
var codecPairs = [][2]string{
	{"structs.NewIndexedLogEntry", "(*structs.IndexedLogEntry).Marshal"},
	{"structs.NewClientState", "(*structs.ClientState).Marshal"},
	{"structs.NewLabelOwnerState", "(*structs.LabelOwnerState).Marshal"},
	{"structs.NewRetainedVersion", "(*structs.RetainedVersion).Marshal"},
	{"structs.NewClientLabelState", "(*structs.ClientLabelState).Marshal"},
	{"structs.NewUpdateSuffix", "(*structs.UpdateSuffix).Marshal"},
	{"structs.NewUpdateValue", "(*structs.UpdateValue).Marshal"},
	{"structs.NewLogEntry", "(*structs.LogEntry).Marshal"},
	{"structs.NewBinaryLadderStep", "(*structs.BinaryLadderStep).Marshal"},
	{"structs.NewOpeningAndValue", "(*structs.OpeningAndValue).Marshal"},
	{"structs.NewLabelValue", "(*structs.LabelValue).Marshal"},
	{"structs.NewUpdateInfo", "(*structs.UpdateInfo).Marshal"},
	{"structs.NewSearchRequest", "(*structs.SearchRequest).Marshal"},
	{"structs.NewSearchResponse", "(*structs.SearchResponse).Marshal"},
	{"structs.NewMonitorMapEntry", "(*structs.MonitorMapEntry).Marshal"},
	{"structs.NewContactMonitorRequest", "(*structs.ContactMonitorRequest).Marshal"},
	{"structs.NewContactMonitorResponse", "(*structs.ContactMonitorResponse).Marshal"},
	{"structs.NewOwnerInitRequest", "(*structs.OwnerInitRequest).Marshal"},
	{"structs.NewOwnerInitResponse", "(*structs.OwnerInitResponse).Marshal"},
	{"structs.NewOwnerMonitorRequest", "(*structs.OwnerMonitorRequest).Marshal"},
	{"structs.NewOwnerMonitorResponse", "(*structs.OwnerMonitorResponse).Marshal"},
	{"structs.NewUpdateRequest", "(*structs.UpdateRequest).Marshal"},
	{"structs.NewManagerUpdateRequest", "(*structs.ManagerUpdateRequest).Marshal"},
	{"structs.NewUpdateResponse", "(*structs.UpdateResponse).Marshal"},
	{"structs.NewInclusionProof", "(*structs.InclusionProof).Marshal"},
	{"structs.NewCombinedTreeProof", "(*structs.CombinedTreeProof).Marshal"},
	{"structs.newPrefixEntry", "structs.marshalPrefixEntry"},
	{"structs.NewAuditorUpdate", "(*structs.AuditorUpdate).Marshal"},
	{"structs.NewTreeHead", "(*structs.TreeHead).Marshal"},
	{"structs.NewAuditorTreeHead", "(*structs.AuditorTreeHead).Marshal"},
	{"structs.NewFullTreeHead", "(*structs.FullTreeHead).Marshal"},
	{"auditor.NewAuditorState", "(*auditor.AuditorState).Marshal"},
	{"prefix.NewPrefixProof", "(*prefix.PrefixProof).Marshal"},
	{"prefix.unmarshalSearchResult", "prefix.PrefixSearchResult.Marshal"},
	{"prefix.unmarshalNode", "prefix.node.Marshal"},
}

// codecApart are decided by rules of their own.
var codecApart = map[string]bool{"auditor.NewAuditorState": true, "prefix.NewPrefixProof": true, "prefix.unmarshalSearchResult": true, "prefix.unmarshalNode": true}

// codecMaps are the codecs that keep a decoded list in a map, which rules of their own decide.
var codecMaps = map[string]bool{"structs.NewClientState": true}

// codecLists are the helpers for lists; each is decided on its own.
var codecLists = [][2]string{
	{"structs.readNumericSlice", "structs.writeNumericSlice"},
	{"structs.readByteSlice", "structs.writeByteSlice"},
	{"structs.readFuncSlice", "structs.writeFuncSlice"},
	{"structs.readFuncSlice", "structs.writeMarshalSlice"},
}

type codecItem struct {
	kind byte // r: read, b: byte, e: encoded number, s: bytes, c: call
	tag  string
	t    *Term
	pos  token.Pos
}

func (i codecItem) String() string { return fmt.Sprintf("%c{%s} %s", i.kind, i.tag, i.t) }

// codecChain lists what was read from or written to the buffer that held base before.
func codecChain(t, base *Term) (items []codecItem, ok bool) {
	for n := 0; n < 200; n++ {
		if t == base {
			for i, j := 0, len(items)-1; i < j; i, j = i+1, j-1 {
				items[i], items[j] = items[j], items[i]
			}
			return items, true
		}
		switch t.op {
		case "rest":
			items = append(items, codecItem{kind: 'r', tag: t.aux, t: mk("rd", t.aux, t.args...)})
			t = t.args[0]
		case "after":
			if c := t.args[0]; callBase(c) == "encoding/binary.ReadUvarint" {
				items = append(items, codecItem{kind: 'v', t: mk("res", "0", c)})
			} else {
				items = append(items, codecItem{kind: 'c', t: c})
			}
			if len(t.args) < 2 {
				return nil, false
			}
			t = t.args[1]
		case "cat":
			for i := len(t.args) - 1; i > 0; i-- {
				p := t.args[i]
				switch p.op {
				case "lit":
					for j := len(p.args) - 1; j >= 0; j-- {
						items = append(items, codecItem{kind: 'b', t: p.args[j]})
					}
				case "enc":
					items = append(items, codecItem{kind: 'e', tag: p.aux, t: p.args[0]})
				case "slice":
					if a := p.args[0]; a.op == "after" && callBase(a.args[0]) == "encoding/binary.PutUvarint" && p.args[1] == tZeroI && p.args[2] == a.args[0] {
						items = append(items, codecItem{kind: 'v', t: a.args[0].args[1]})
						break
					}
					items = append(items, codecItem{kind: 's', t: p})
				default:
					items = append(items, codecItem{kind: 's', t: p})
				}
			}
			t = t.args[0]
		default:
			return nil, false
		}
	}
	return nil, false
}

func bareTerm(t *Term) *Term {
	for t.op == "ref" || t.op == "ld" || t.op == "narrow" || t.op == "conv" {
		t = t.args[0]
	}
	return t
}

func callBase(t *Term) string {
	n := t.aux
	if i := strings.LastIndexByte(n, '#'); i > 0 && !strings.Contains(n[i:], "]") {
		n = n[:i]
	}
	return n
}

func instArgs(n string) string {
	if i := strings.IndexByte(n, '['); i > 0 && strings.HasSuffix(n, "]") {
		return n[i+1 : len(n)-1]
	}
	return ""
}

func codecOpts(self ...string) opt {
	var names []string
	for _, p := range codecPairs {
		names = append(names, p[0], p[1])
	}
	for _, p := range codecLists {
		names = append(names, p[0], p[1])
	}
	skip := map[string]bool{}
	for _, s := range self {
		skip[s] = true
	}
	var l []string
	for _, n := range names {
		if !skip[n] {
			l = append(l, n)
		}
	}
	return opaque(l...)
}

func pairOf(dec, enc string) bool {
	for _, p := range codecPairs {
		if p[0] == dec && p[1] == enc {
			return true
		}
	}
	return false
}

func bufParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if p.Type().String() == "*bytes.Buffer" {
			return i
		}
	}
	return -1
}

// codec decides one pair.
func (k *Checker) codec(dec, enc string) {
	const rule = "codec.symmetric"
	if k.p.base.isLost(dec) || k.p.base.isLost(enc) {
		k.undecided(rule, dec, "the function is not there any more in the form the rules know")
		return
	}
	d := k.root(dec, codecOpts(dec, enc), func(x *Exec) { x.apart = true })
	e := k.root(enc, codecOpts(dec, enc), func(x *Exec) { x.apart = true })
	if d.fn == nil || e.fn == nil {
		return
	}
	k.rules = append(k.rules, rule)
	b := bufParam(d.fn)
	if b < 0 || bufParam(e.fn) < 0 {
		k.undecided(rule, dec, "the function has no buffer parameter")
		return
	}
	shapes := k.codecOuts(rule, d, d.outs, rootArgs(d.fn)[b], func(o Out) (*ssa.Function, *Term) {
		return e.fn, nil
	})
	// whatever the encoder writes has a form that the decoder reads
	obuf := rootArgs(e.fn)[bufParam(e.fn)]
	for _, o := range e.outs {
		if !e.success(o) {
			continue
		}
		k.obls++
		items, ok := codecChain(d.x.load(o.st, obuf), initialOf(obuf))
		if !ok {
			k.undecided(rule, enc, "what is written cannot be told: "+d.x.load(o.st, obuf).String())
			continue
		}
		s := codecShape(o.st.facts, items)
		if !shapes[s] {
			k.violatePos(rule, o.pos, "%s writes a form that %s does not read: %s", enc, dec, s)
			continue
		}
		k.proved++
	}
	k.encodes(e)
}

// codecShape is the form of an encoding without its values.
func codecShape(f *Facts, items []codecItem) string {
	var l []string
	for _, i := range items {
		switch i.kind {
		case 'r':
			s := i.tag
			if i.tag == "u8" {
				for c := int64(0); c < 8; c++ {
					if f.Proves(eqT(i.t, tInt(c)), true) {
						s = fmt.Sprintf("byte %d", c)
					}
				}
			}
			l = append(l, s)
		case 'b':
			s := "u8"
			if i.t.op == "const" {
				s = "byte " + i.t.String()
			}
			l = append(l, s)
		case 'e':
			l = append(l, i.tag)
		case 's':
			l = append(l, "bytes")
		case 'v':
			l = append(l, "varint")
		case 'c':
			n := callBase(i.t)
			if inst := instArgs(n); inst != "" {
				n = "list of " + strings.Split(inst, ", ")[0]
			} else {
				for _, p := range codecPairs {
					if p[0] == n || p[1] == n {
						n = p[0]
					}
				}
			}
			l = append(l, n)
		}
	}
	return strings.Join(l, ", ")
}

// codecOuts runs the encoder after each way in which the decoder succeeds.
func (k *Checker) codecOuts(rule string, d *Run, outs []Out, buf *Term, encoder func(o Out) (*ssa.Function, *Term)) map[string]bool {
	shapes := map[string]bool{}
	x := d.x
	for _, o := range outs {
		if !d.success(o) {
			continue
		}
		k.obls++
		in, ok := codecChain(x.load(o.st, buf), initialOf(buf))
		if !ok {
			k.undecided(rule, d.name, "what is read cannot be told: "+x.load(o.st, buf).String())
			continue
		}
		bad := false
		for _, i := range in {
			var err *Term
			switch {
			case i.kind == 'r':
				err = mk("rderr", i.tag, i.t.args...)
			case i.kind == 'c':
				err = mk("res", "1", i.t)
			case i.kind == 'v':
				err = mk("res", "1", i.t.args[0])
			}
			if err != nil && err != o.results[len(o.results)-1] && !o.st.facts.Proves(eqT(err, tNil), true) {
				k.violatePos(rule, o.pos, "%s succeeds although the error of a read may not be nil: %s", d.name, err)
				bad = true
			}
		}
		if bad {
			continue
		}
		shapes[codecShape(o.st.facts, in)] = true
		fe, self := encoder(o)
		if fe == nil {
			continue
		}
		if self == nil {
			self = o.results[0]
		}
		// a decoder that only passes on what another one returns
		if len(in) == 1 && in[0].kind == 'c' && self == mk("res", "0", in[0].t) && pairOf(callBase(in[0].t), fnName(fe)) {
			k.proved++
			continue
		}
		out := sym("out", fe.Params[bufParam(fe)].Type())
		args := make([]*Term, len(fe.Params))
		for i, p := range fe.Params {
			args[i] = self
			for j, q := range d.fn.Params { // the parameters that both have, other than the value
				if i > 0 && types.Identical(p.Type(), q.Type()) {
					args[i] = rootArgs(d.fn)[j]
				}
			}
		}
		args[bufParam(fe)] = out
		st := o.st.clone()
		eouts := x.run(fe, args, nil, st, fnName(fe), nil)
		if x.fail != "" {
			k.undecided(rule, d.name, x.fail)
			return shapes
		}
		n := 0
		er := &Run{k: k, fn: fe, x: x, name: fnName(fe), env: map[string]*Term{}}
		good := true
		for _, eo := range eouts {
			if !er.success(eo) {
				continue
			}
			n++
			w, ok := codecChain(x.load(eo.st, out), initialOf(out))
			if !ok {
				k.undecided(rule, d.name, "what is written cannot be told: "+x.load(eo.st, out).String())
				good = false
				continue
			}
			if why := k.codecSame(rule, d, eo, in, w); why != "" {
				good = false
				k.violatePos(rule, eo.pos, "%s does not write what %s reads: %s", fnName(fe), d.name, why)
				if debug {
					fmt.Println("---- read")
					for _, i := range in {
						fmt.Println("    ", i)
					}
					fmt.Println("---- written")
					for _, i := range w {
						fmt.Println("    ", i)
					}
					dumpFacts(eo.st.facts, "     ")
				}
			}
		}
		if n == 0 {
			k.violatePos(rule, o.pos, "a value that %s decodes cannot be encoded again by %s", d.name, fnName(fe))
			continue
		}
		if good {
			k.proved++
		}
	}
	return shapes
}

func (k *Checker) codecSame(rule string, d *Run, o Out, in, out []codecItem) string {
	f := o.st.facts
	same := func(a, b *Term) bool {
		a, b = bareTerm(a), bareTerm(b)
		return a == b || f.Proves(eqT(a, b), true) || bareTerm(d.x.snap(o.st, b, 0)) == a
	}
	if len(in) != len(out) {
		return fmt.Sprintf("%d parts are read and %d are written", len(in), len(out))
	}
	for n := range in {
		i, w := in[n], out[n]
		ok := false
		switch {
		case i.kind == 'r' && i.tag == "bytes":
			ok = w.kind == 's' && same(i.t, w.t)
		case i.kind == 'r' && w.kind == 'b':
			ok = i.tag == "u8" && same(i.t, w.t)
		case i.kind == 'r' && w.kind == 'e':
			ok = i.tag == w.tag && same(i.t, w.t)
		case i.kind == 'v' && w.kind == 'v':
			ok = same(i.t, w.t)
		case i.kind == 'c' && w.kind == 'c':
			if why := k.codecCalls(rule, d, o, i.t, w.t, same); why != "" {
				return why
			}
			ok = true
		}
		if !ok {
			return fmt.Sprintf("part %d is read as %s and written as %s", n, i, w)
		}
		// what is written is what was read only if the encoding succeeded
	}
	return ""
}

func (k *Checker) codecCalls(rule string, d *Run, o Out, dc, ec *Term, same func(a, b *Term) bool) string {
	dn, en := callBase(dc), callBase(ec)
	res := mk("res", "0", dc)
	if pairOf(dn, en) {
		given := false
		for _, a := range ec.args {
			if same(res, a) {
				given = true
				continue
			}
			known := a.typ != nil && a.typ.String() == "*bytes.Buffer"
			for _, b := range dc.args {
				known = known || same(b, a)
			}
			if !known {
				return fmt.Sprintf("%s is not given %s", dc, a)
			}
		}
		if !given {
			return fmt.Sprintf("%s is not given the value of %s", ec, dc)
		}
		return ""
	}
	for _, p := range codecLists {
		if stripInst(dn) != p[0] || stripInst(en) != p[1] {
			continue
		}
		di, ei := strings.Split(instArgs(dn), ", "), strings.Split(instArgs(en), ", ")
		if di[0] != ei[0] || len(di) > 1 && len(ei) > 1 && di[1] != ei[1] {
			return fmt.Sprintf("a list read by %s is written by %s", dn, en)
		}
		if !codecMaps[d.name] && (len(ec.args) < 2 || !same(res, ec.args[1])) {
			return fmt.Sprintf("%s is not given the list of %s", ec, dc)
		}
		if p[0] != "structs.readFuncSlice" {
			return ""
		}
		// the elements
		fe := codecElemEncoder(d.x, en, ec)
		if fe == nil || len(dc.args) < 2 {
			return fmt.Sprintf("the function that encodes the elements of %s is not known", ec)
		}
		el := dc.args[1]
		var target *ssa.Function
		var free []*Term
		switch el.op {
		case "func":
			target = funcByName[el.aux]
		case "closure":
			target, free = funcByName[el.args[0].aux], el.args[1:]
		}
		if target == nil {
			return fmt.Sprintf("the function that decodes the elements of %s is not known", dc)
		}
		if pairOf(fnName(target), fnName(fe)) {
			return ""
		}
		elem := sym("elem", target.Params[0].Type())
		st := o.st.clone()
		outs := d.x.run(target, []*Term{elem}, free, st, fnName(target), nil)
		er := &Run{k: k, fn: target, x: d.x, name: fnName(target), env: map[string]*Term{}}
		k.codecOuts(rule, er, outs, elem, func(Out) (*ssa.Function, *Term) { return fe, nil })
		return ""
	}
	return fmt.Sprintf("what %s reads is written by %s", dn, en)
}

// codecElemEncoder finds the function that a list helper calls for each element.
func codecElemEncoder(x *Exec, name string, call *Term) *ssa.Function {
	if strings.HasPrefix(name, "structs.writeFuncSlice") {
		for _, a := range call.args {
			if a.op == "func" {
				return funcByName[a.aux]
			}
			if a.op == "closure" {
				return funcByName[a.args[0].aux]
			}
		}
		return nil
	}
	i := strings.Split(instArgs(name), ", ")
	if len(i) < 2 {
		return nil
	}
	return x.p.fns["(*"+i[1]+").Marshal"]
}

// fixedSize are the fields whose length follows from the cipher suite or from what precedes them.
var fixedSize = map[string]bool{
	"LogEntry.PrefixTree": true, "RetainedVersion.VrfOutput": true, "Entry.VrfOutput": true, "Entry.Commitment": true,
	"BinaryLadderStep.Proof": true, "BinaryLadderStep.Commitment": true, "OpeningAndValue.Opening": true,
	"SearchResponse.Opening": true, "UpdateInfo.Opening": true, "TreeHeadTBS.Root": true, "AuditorTreeHeadTBS.Root": true,
	"RetainedVersion.Commitment": true, "CommitmentValue.Label": false,
}

// codecWith are fields that are present only together with another one.
var codecWith = map[string]string{"FullTreeHead.AuditorTreeHead": "TreeHead"}

// encodes decides that an encoder writes every field that is set, and that what it writes can be
// told apart from every other encoding of the same type.
func (k *Checker) encodes(e *Run, except ...string) {
	if e.fn == nil || bufParam(e.fn) < 0 {
		return
	}
	recv, buf := rootArgs(e.fn)[0], rootArgs(e.fn)[bufParam(e.fn)]
	const rule, rule2 = "codec.complete", "codec.delimited"
	k.rules = append(k.rules, rule, rule2)
	pt, ok := recv.typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	tn := typeName(pt.Elem())
	if i := strings.LastIndexByte(tn, '.'); i >= 0 {
		tn = tn[i+1:]
	}
	skip := map[string]bool{}
	for _, n := range except {
		skip[n] = true
	}
	for _, o := range e.outs {
		if !e.success(o) {
			continue
		}
		k.obls += 2
		items, ok := codecChain(e.x.load(o.st, buf), initialOf(buf))
		if !ok {
			k.undecided(rule, e.name, "what is written cannot be told: "+e.x.load(o.st, buf).String())
			continue
		}
		good := true
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			if skip[n] {
				continue
			}
			v := fieldOf(recv, n)
			if with := codecWith[tn+"."+n]; with != "" && o.st.facts.Proves(eqT(fieldOf(recv, with), tNil), true) {
				continue
			}
			if o.st.facts.Proves(eqT(v, tNil), true) || o.st.facts.Proves(eqT(lenT(v), tInt(0)), true) {
				continue
			}
			found := false
			for _, it := range items {
				if mentionsField(it.t, recv, n) && !(it.kind == 'e' && bareTerm(it.t).op == "len") && !cutShort(it, v, s.Field(i).Type()) {
					found = true
				}
			}
			if !found {
				good = false
				k.violatePos(rule, o.pos, "%s can succeed without writing the field %s although it may be set", e.name, n)
			}
		}
		if good {
			k.proved++
		}
		// every part of variable length follows its length, unless it is the last
		good = true
		for j, it := range items {
			if it.kind != 's' || j == len(items)-1 && j > 0 && false {
				continue
			}
			if j > 0 && items[j-1].kind == 'e' && bareTerm(items[j-1].t) == lenT(it.t) {
				continue
			}
			if it.t.op == "f" && fixedSize[tn+"."+it.t.aux] {
				continue
			}
			good = false
			k.violatePos(rule2, o.pos, "%s writes %s, whose length can vary, without its length before it", e.name, it.t)
		}
		if good {
			k.proved++
		}
	}
}

// cutShort reports whether a number is written with fewer bits than its type has.
func cutShort(it codecItem, v *Term, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || it.kind != 'e' || bareTerm(it.t) != v {
		return false
	}
	size := map[types.BasicKind]int{types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64}
	tag := map[string]int{"u8": 8, "u16": 16, "u32": 32, "u64": 64}
	return size[b.Kind()] != 0 && tag[it.tag] != 0 && tag[it.tag] < size[b.Kind()]
}

func fieldOf(recv *Term, n string) *Term {
	return field(mkT("ld", "", derefType(recv.typ), recv), n)
}

// mentionsField reports whether a term depends on the named field of what p points at.
func mentionsField(t, p *Term, n string) bool {
	switch t.op {
	case "f":
		if t.args[0].op == "ld" && t.args[0].args[0] == p {
			return t.aux == n
		}
	case "fa":
		if t.args[0] == p {
			return t.aux == n
		}
	case "ld":
		if t.args[0] == p {
			return true
		}
	}
	if t == p {
		return true
	}
	for _, a := range t.args {
		if mentionsField(a, p, n) {
			return true
		}
	}
	return false
}

func init() {
	register("C17", ``, func(k *Checker) {
		for _, p := range codecPairs {
			if !codecApart[p[0]] {
				k.codec(p[0], p[1])
			}
		}
		for _, n := range []string{"UpdateTBS", "CommitmentValue", "VrfInput", "TreeHeadTBS", "AuditorTreeHeadTBS"} {
			n = "(*structs." + n + ").Marshal"
			k.encodes(k.root(n, codecOpts(n)))
		}
		k.codecConfig()
		k.codecHelpers()
		k.codecState()
		k.codecPrefix()
		k.codecAuditor()
	})
}

// codecConfig: every parameter that clients and the operator have to agree on is part of what is signed.
func (k *Checker) codecConfig() {
	r := k.root("(*structs.PublicConfig).Marshal")
	key := func(x string) string {
		return `mentions(now(*p0), enc_u16(narrow_uint16(len(` + x + `)))) && mentions(now(*p0), ` + x + `)`
	}
	num := func(tag, x string) string { return `mentions(now(*p0), enc_` + tag + `(` + x + `))` }
	k.need("config.signed", r.oks(), 1, num("u16", "suites.CipherSuite.Id(recv.Config.Suite)")+` && `+num("u8", "recv.Config.Mode"))
	k.need("config.signed", r.oks(), 1, key("suites.SigningPublicKey.Bytes(recv.SignatureKey)")+` && `+key("vrf.PublicKey.Bytes(recv.VrfKey)"))
	k.need("config.signed", r.oks(), 1, num("u64", "recv.Config.MaxAhead")+` && `+num("u64", "recv.Config.MaxBehind")+` && `+num("u64", "recv.Config.ReasonableMonitoringWindow"))
	k.need("config.signed", r.oks(), 1, `any(recv.Config.MaximumLifetime == 0, recv.Config.MaximumLifetime <= 0, `+num("u64", "recv.Config.MaximumLifetime")+`)`)
	k.need("config.signed", r.oks(), 1, `any(recv.Config.Mode != 2, `+key("suites.SigningPublicKey.Bytes(recv.Config.LeafPublicKey)")+`)`)
	k.need("config.signed", r.oks(), 1, `any(recv.Config.Mode != 3, `+num("u64", "recv.Config.MaxAuditorLag")+` && `+num("u64", "recv.Config.AuditorStartPos")+` && `+key("suites.SigningPublicKey.Bytes(recv.Config.AuditorPublicKey)")+`)`)
	k.encodes(r)
}

func basicTagOf(name string) string {
	switch name {
	case "uint8":
		return "u8"
	case "uint16":
		return "u16"
	case "uint32":
		return "u32"
	case "uint64":
		return "u64"
	}
	return name
}

// codecHelpers decides the helpers for lists, for every instance.
func (k *Checker) codecHelpers() {
	for _, name := range sortedFns(k.p) {
		g, inst := stripInst(name), strings.Split(instArgs(name), ", ")
		if inst[0] == "" || k.p.base.isLost(g) {
			continue
		}
		S := basicTagOf(inst[0])
		limit := map[string]string{"u8": "255", "u16": "65535", "u32": "4294967295"}[S]
		count := `match(now(*p0), cat(_, enc_` + S + `(narrow_` + inst[0] + `(len(p1))), rep(len(p1), `
		switch g {
		case "structs.readByteSlice":
			r := k.root(name)
			k.need("list.length", r.oks(), 1, `len(ret0) == rd_`+S+`(*p0) && rderr_`+S+`(*p0) == nil`)
			k.need("list.elements", r.oks(), 1, `forall(I, len(ret0), len(ret0[I]) == p1)`)
			k.need("list.consumed", r.oks(), 1, `any(len(ret0) <= 0, match(now(*p0), rest_bytes(C, p1)) && mentions(ret0, p1), let(Q, now(*p0), forall(I, len(ret0), match(iter(Q, I + 1), rest_bytes(iter(Q, I), p1)))))`)
			k.need("list.failed", r.oks(), 1, `any(len(ret0) <= 0, match(now(*p0), rest_bytes(C, N)) && rderr_bytes(C, N) == nil, let(Q, now(*p0), forall(I, len(ret0), rderr_bytes(iter(Q, I), p1) == nil)))`)
		case "structs.readNumericSlice":
			T := basicTagOf(inst[1])
			r := k.root(name)
			k.need("list.length", r.oks(), 1, `len(ret0) == rd_`+S+`(*p0) && rderr_`+S+`(*p0) == nil`)
			k.need("list.elements", r.oks(), 1, `forall(I, len(ret0), match(ret0[I], rd_`+T+`(C)) && rderr_`+T+`(C) == nil)`)
		case "structs.readFuncSlice":
			r := k.root(name)
			k.need("list.length", r.oks(), 1, `len(ret0) == rd_`+S+`(*p0) && rderr_`+S+`(*p0) == nil`)
			k.need("list.elements", r.oks(), 1, `forall(I, len(ret0), match(ret0[I], *res0(dynamic(p1, p0))))`)
			k.need("list.failed", r.oks(), 1, `forall(I, len(ret0), match(ret0[I], *res0(D)) && res1(D) == nil)`)
		case "structs.writeFuncSlice":
			r := k.root(name)
			k.need("list.written", r.oks(), 1, `forall(I, len(p1), let(D, dynamic(p3, &p1[I], p0), did(D) && D == nil))`)
			k.need("list.counted", r.oks(), 1, `let(H, lv(0), match(H, cat(_, enc_`+S+`(narrow_`+inst[0]+`(len(p1))))))`)
			k.need("list.limit", r.oks(), 1, `len(p1) <= `+limit)
		case "structs.writeMarshalSlice":
			m := "(*" + inst[1] + ").Marshal"
			r := k.root(name, opaque(m))
			k.need("list.written", r.oks(), 1, `forall(I, len(p1), let(D, `+m+`(&p1[I], p0), did(D) && D == nil))`)
			k.need("list.counted", r.oks(), 1, `match(now(*p0), after(_, cat(_, enc_`+S+`(narrow_`+inst[0]+`(len(p1))))))`)
			k.need("list.limit", r.oks(), 1, `len(p1) <= `+limit)
		case "structs.writeByteSlice":
			r := k.root(name)
			k.need("list.written", r.oks(), 1, count+`p1[_])))`)
			k.need("list.limit", r.oks(), 1, `len(p1) <= `+limit)
		case "structs.writeNumericSlice":
			r := k.root(name)
			k.need("list.written", r.oks(), 1, count+`enc_`+basicTagOf(inst[1])+`(p1[_]))))`)
			k.need("list.limit", r.oks(), 1, `len(p1) <= `+limit)
		}
	}
}

func sortedFns(p *Prog) []string {
	var l []string
	for n := range p.fns {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// codecState decides how a client's retained log entries are kept in a map.
func (k *Checker) codecState() {
	r := k.root("structs.NewClientState", codecOpts("structs.NewClientState"))
	k.need("state.decoded", r.oks(), 1, `let(L, structs.readFuncSlice(p1, F), res1(L) == nil && match(ret0.LogEntries, mcomp(M, len(res0(L)), res0(L)[_].Position, res0(L)[_].LogEntry)))`)
	r = k.root("(*structs.ClientState).Marshal", codecOpts("(*structs.ClientState).Marshal"))
	k.need("state.encoded", r.oks(), 1, `match(raw0, structs.writeMarshalSlice(p0, comp(len(recv.LogEntries), structs.IndexedLogEntry{LogEntry: lookup(recv.LogEntries, mkey(recv.LogEntries, _)), Position: mkey(recv.LogEntries, _)}), _))`)
}

// codecPrefix decides the encodings of search results and of the nodes of the prefix tree.
func (k *Checker) codecPrefix() {
	k.when("prefix.unmarshalTile", func(r *Run) {
		k.need("tile.decoded", r.oks(), 1, `ret0.id == p1 && ret0.depth == rd_u8(p2) && rderr_u8(p2) == nil && let(N, prefix.unmarshalNode(p0, &p1, rd_u8(p2), _), ret0.root == res0(N) && res1(N) == nil)`)
	}, opaque("prefix.unmarshalNode"))
	k.when("(*prefix.tile).Marshal", func(r *Run) {
		k.need("tile.encoded", r.calls("prefix.node.Marshal"), 1, `recv.depth <= 255 && arg0 == recv.root && arg1 == p0 && arg2 == recv.depth && now(*raw3) == lit(narrow_byte(recv.depth))`)
		k.need("tile.encoded", r.oks(), 1, `let(N, prefix.node.Marshal(recv.root, p0, recv.depth, _), did(N) && match(ret0, after(N, _)))`)
	})
	r := k.root("prefix.NewPrefixProof", opaque("prefix.unmarshalSearchResult"))
	k.need("proof.decoded", r.oks(), 1, `len(ret0.Results) == rd_u8(*p1) && rderr_u8(*p1) == nil`)
	k.need("proof.decoded", r.oks(), 1, `forall(I, len(ret0.Results), let(R, prefix.unmarshalSearchResult(p0, p1), match(ret0.Results[I], res0(R)) && res1(R) == nil))`)
	k.need("proof.decoded", r.oks(), 1, `match(len(ret0.Elements), rd_u16(C)) && rderr_u16(C) == nil`)
	k.need("proof.decoded", r.oks(), 1, `forall(I, len(ret0.Elements), len(ret0.Elements[I]) == suites.CipherSuite.HashSize(p0))`)
	r = k.root("(*prefix.PrefixProof).Marshal")
	k.need("proof.encoded", r.oks(), 1, `match(now(*p0), cat(_, enc_u16(narrow_uint16(len(recv.Elements))), rep(len(recv.Elements), recv.Elements[_])))`)
	k.need("proof.encoded", r.oks(), 1, `len(recv.Results) <= 255 && len(recv.Elements) <= 65535 && match(now(*p0), cat(after(_, cat(_, lit(narrow_byte(len(recv.Results))))), _, _))`)
	k.need("proof.encoded", r.oks(), 1, `forall(I, len(recv.Results), did(prefix.PrefixSearchResult.Marshal(recv.Results[I], p0)))`)
	for _, name := range []string{"prefix.unmarshalSearchResult", "prefix.unmarshalNode"} {
		if k.p.base.isLost(name) {
			k.undecided("codec.symmetric", name, "the function is not there any more in the form the rules know")
			continue
		}
		d := k.root(name, codecOpts(name), func(x *Exec) { x.apart = true })
		if d.fn == nil {
			continue
		}
		k.rules = append(k.rules, "codec.symmetric")
		n := 0
		shapes := k.codecOuts("codec.symmetric", d, d.outs, rootArgs(d.fn)[bufParam(d.fn)], func(o Out) (*ssa.Function, *Term) {
			v := o.results[0]
			if v.op != "iface" || v.typ == nil {
				k.violatePos("codec.symmetric", o.pos, "the type of what %s decodes is not known", name)
				return nil, nil
			}
			n++
			m := k.p.prog.LookupMethod(v.typ, d.fn.Pkg.Pkg, "Marshal")
			return m, v.args[0]
		})
		_ = shapes
		if n == 0 {
			k.violate("codec.symmetric", name, "nothing that %s decodes was found", name)
		}
	}
}

// codecAuditor decides the encoding of the state of an auditor.
func (k *Checker) codecAuditor() {
	r := k.root("auditor.NewAuditorState", codecOpts("auditor.NewAuditorState"))
	k.need("auditor.decoded", r.oks(), 1, `let(H, structs.NewAuditorTreeHead(p1), res1(H) == nil && ret0.TreeHead == *res0(H))`)
	k.need("auditor.decoded", r.oks(), 1, `len(ret0.FullSubtrees) == math/bits.OnesCount64(ret0.TreeHead.TreeSize)`)
	k.need("auditor.decoded", r.oks(), 1, `match(ret0.Timestamps, comp(len(math.Frontier(ret0.TreeHead.TreeSize)), rd_u64(_)))`)
	k.need("auditor.decoded", r.oks(), 1, `match(ret0.PrefixTree, rd_bytes(C, suites.CipherSuite.HashSize(p0))) && rderr_bytes(C, suites.CipherSuite.HashSize(p0)) == nil`)
	k.need("auditor.decoded", r.oks(), 1, `match(len(ret0.Inserted), rd_u16(C)) && rderr_u16(C) == nil`)
	k.need("auditor.decoded", r.oks(), 1, `forall(I, len(ret0.Inserted), match(ret0.Inserted[I].Pos, rd_u64(C)) && rderr_u64(C) == nil && len(ret0.Inserted[I].VrfOutput) == suites.CipherSuite.HashSize(p0))`)
	r = k.root("(*auditor.AuditorState).Marshal", codecOpts("(*auditor.AuditorState).Marshal"))
	k.need("auditor.encoded", r.oks(), 1, `match(ret0, cat(after(H, _), rep(len(recv.FullSubtrees), recv.FullSubtrees[_]), rep(len(recv.Timestamps), enc_u64(recv.Timestamps[_])), recv.PrefixTree, enc_u16(narrow_uint16(len(recv.Inserted))), rep(len(recv.Inserted), cat(enc_u64(recv.Inserted[_].Pos), recv.Inserted[_].VrfOutput)))) && H == nil && match(H, (*structs.AuditorTreeHead).Marshal(&recv.TreeHead, _))`)
	k.need("auditor.encoded", r.oks(), 1, `len(recv.Inserted) <= 65535`)
}

func initialOf(p *Term) *Term { return mkT("ld", "", derefType(p.typ), p) }
