package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is what is known at a point of one abstract path.
type State struct {
	heap  map[*Term]*Term
	facts *Facts
	occ   map[string]int
	loops []*Term
	nloop int
	depth int
}

func newState() *State {
	return &State{heap: map[*Term]*Term{}, facts: newFacts(), occ: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[*Term]*Term, len(s.heap)+2), facts: s.facts, occ: make(map[string]int, len(s.occ)), loops: s.loops, nloop: s.nloop, depth: s.depth}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.occ {
		n.occ[k] = v
	}
	s.facts.shared = true
	return n
}

func (s *State) assume(t *Term, pos bool) bool {
	if s.facts.shared {
		s.facts = s.facts.clone()
	}
	return s.facts.add(t, pos)
}

// freeze returns the facts in a form that later assumptions do not change.
func (s *State) freeze() *Facts {
	s.facts.shared = true
	return s.facts
}

// Cfg is a state together with the values of one function activation.
type Cfg struct {
	env    map[ssa.Value]*Term
	st     *State
	defers []*deferred
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
	inv   bool
}

func (c *Cfg) clone() *Cfg {
	n := &Cfg{env: make(map[ssa.Value]*Term, len(c.env)+4), st: c.st.clone()}
	for k, v := range c.env {
		n.env[k] = v
	}
	n.defers = c.defers[:len(c.defers):len(c.defers)]
	return n
}

// Event is something observable that a path does.
type Event struct {
	kind  string // call, store, send, recv, go, defer, panic, deref, index, makeslice, mapupdate
	name  string
	recv  *Term
	args  []*Term // snapshots
	raw   []*Term
	res   *Term
	facts *Facts
	heap  map[*Term]*Term
	loops []*Term
	pos   token.Pos
	fn    *ssa.Function
}

// Out is one way in which a function returns.
type Out struct {
	st      *State
	results []*Term
	pos     token.Pos
}

type Frame struct {
	fn    *ssa.Function
	path  string
	order []*ssa.BasicBlock
	idx   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*Loop
	stack []*ssa.Function
}

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type item struct {
	c    *Cfg
	pred *ssa.BasicBlock
}

// Exec interprets functions over terms.
type Exec struct {
	p         *Prog
	rootPkg   *types.Package
	events    []*Event
	silent    int
	lname     string
	cap       int
	merges    int
	cloned    map[*Term]bool // contents that were copied
	apart     bool           // the error returns of the function analysed are kept apart
	serial    int
	lost      string          // a function that was to be a contract and is gone
	opaque    map[string]bool // functions that are contracts for this run
	memo      map[string]bool // see memo in check.go
	inline    map[string]bool // functions of other packages that are looked into
	allocs    map[string]int
	frames    map[*ssa.Function]*Frame
	loopID    map[string]int
	sites     int
	formKnown int    // of how many functions the form was looked at
	formDiff  string // what it said
	fns       map[*ssa.Function]bool
	steps     int
	fail      string
	kind      map[*Term]byte // what a heap base is: 0 pointer, 'm' map, 's' slice
	varies    map[*Term]bool // loops that write through a pointer that changes in every iteration
	memEv     bool           // record dereferences and indexing
	maxSteps  int
	nodid     bool
}

var serials int

func newExec(p *Prog, root *types.Package) *Exec {
	serials++
	return &Exec{serial: serials, p: p, rootPkg: root, cap: 48, opaque: map[string]bool{}, memo: map[string]bool{}, inline: map[string]bool{}, allocs: map[string]int{},
		frames: map[*ssa.Function]*Frame{}, loopID: map[string]int{}, fns: map[*ssa.Function]bool{}, kind: map[*Term]byte{}, maxSteps: 3000000}
}

var debug = os.Getenv("KDEBUG") != ""

func (x *Exec) ev(e *Event, c *Cfg) {
	if x.silent > 0 {
		return
	}
	e.facts = c.st.freeze()
	e.loops = c.st.loops
	h := make(map[*Term]*Term, len(c.st.heap))
	for k, v := range c.st.heap {
		h[k] = v
	}
	e.heap = h
	x.events = append(x.events, e)
}

func (x *Exec) frame(fn *ssa.Function, path string, stack []*ssa.Function) *Frame {
	base, ok := x.frames[fn]
	if !ok {
		base = &Frame{fn: fn, idx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			seen[b] = true
			for _, s := range b.Succs {
				if !seen[s] {
					dfs(s)
				}
			}
			post = append(post, b)
		}
		dfs(fn.Blocks[0])
		for i := len(post) - 1; i >= 0; i-- {
			base.idx[post[i]] = len(base.order)
			base.order = append(base.order, post[i])
		}
		for _, b := range base.order {
			for _, s := range b.Succs {
				if s.Dominates(b) { // back edge b -> s
					l := base.loops[s]
					if l == nil {
						l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
						base.loops[s] = l
					}
					work := []*ssa.BasicBlock{b}
					for len(work) > 0 {
						n := work[len(work)-1]
						work = work[:len(work)-1]
						if l.body[n] {
							continue
						}
						l.body[n] = true
						work = append(work, n.Preds...)
					}
				}
			}
		}
		x.frames[fn] = base
	}
	f := *base
	f.path = path
	f.stack = append(append([]*ssa.Function(nil), stack...), fn)
	return &f
}

// run interprets fn.
func (x *Exec) run(fn *ssa.Function, args []*Term, free []*Term, st *State, path string, stack []*ssa.Function) []Out {
	x.fns[fn] = true
	fr := x.frame(fn, path, stack)
	c := &Cfg{env: map[ssa.Value]*Term{}, st: st}
	for i, p := range fn.Params {
		if i < len(args) {
			c.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			c.env[v] = free[i]
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.order {
		all[b] = true
	}
	rets, _, _ := x.region(fr, all, fn.Blocks[0], []item{{c, nil}}, nil)
	if x.apart && (len(stack) == 0 || x.p.base.isNew(fnName(fn))) {
		return x.capOuts(rets)
	}
	return x.mergeErrors(fn, rets)
}

// mergeErrors joins the error returns of a callee into one, as they all end in the same way.
func (x *Exec) mergeErrors(fn *ssa.Function, outs []Out) []Out {
	res := fn.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) || len(outs) < 2 {
		return x.capOuts(outs)
	}
	var keep []Out
	groups := map[string][]Out{}
	var keys []string
	for _, o := range outs {
		e := o.results[len(o.results)-1]
		known, isNil := x.nilness(o.st, e)
		if !known || isNil {
			keep = append(keep, o)
			continue
		}
		k := "other"
		if e.op == "err" && strings.HasPrefix(e.aux, "@") {
			k = e.aux
		}
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], o)
	}
	for _, k := range keys {
		g := groups[k]
		m := g[0]
		for _, o := range g[1:] {
			m = x.joinOut(m, o)
		}
		if k == "other" {
			// whatever the cause, the result is some error
			e := m.results[len(m.results)-1]
			if !nonNil(e) {
				m.st.assume(eqT(e, tNil), false)
			}
		}
		keep = append(keep, m)
	}
	return x.capOuts(keep)
}

func (x *Exec) capOuts(outs []Out) []Out {
	for len(outs) > x.cap {
		// merge neighbours
		var n []Out
		for i := 0; i+1 < len(outs); i += 2 {
			n = append(n, x.joinOut(outs[i], outs[i+1]))
		}
		if len(outs)%2 == 1 {
			n = append(n, outs[len(outs)-1])
		}
		outs = n
		x.merges++
	}
	return outs
}

var phiCtr int

func (x *Exec) joinTerm(a, b *Term, memo map[[2]*Term]*Term) *Term {
	if a == b {
		return a
	}
	if a == nil || b == nil {
		return nil
	}
	k := [2]*Term{a, b}
	if t, ok := memo[k]; ok {
		return t
	}
	var t *Term
	if a.op == "err" && b.op == "err" {
		t = mk("err", "joined")
	} else {
		phiCtr++
		t = mk("phi", strconv.Itoa(phiCtr))
		t.nonneg = a.nonneg && b.nonneg
	}
	memo[k] = t
	return t
}

func (x *Exec) joinState(a, b *State, memo map[[2]*Term]*Term) *State {
	n := newState()
	n.loops, n.nloop, n.depth = a.loops, max(a.nloop, b.nloop), a.depth
	n.facts = joinFacts(a.facts, b.facts)
	for _, k := range sortedKeys(a.heap) {
		v := a.heap[k]
		w, ok := b.heap[k]
		if !ok {
			if k.op == "alloc" {
				n.heap[k] = v // exists on one side only
				continue
			}
			w = x.initial(k)
		}
		n.heap[k] = x.joinTerm(v, w, memo)
	}
	for _, k := range sortedKeys(b.heap) {
		w := b.heap[k]
		if _, ok := a.heap[k]; ok {
			continue
		}
		if k.op == "alloc" {
			n.heap[k] = w
			continue
		}
		n.heap[k] = x.joinTerm(x.initial(k), w, memo)
	}
	for k, v := range a.occ {
		n.occ[k] = v
	}
	for k, v := range b.occ {
		if v > n.occ[k] {
			n.occ[k] = v
		}
	}
	// nilness of joined values
	for k, t := range memo {
		if t.op != "phi" {
			continue
		}
		ka, na := x.nilness(a, k[0])
		kb, nb := x.nilness(b, k[1])
		if ka && kb && na == nb {
			n.facts.add(eqT(t, tNil), na)
		}
	}
	return n
}

func (x *Exec) joinOut(a, b Out) Out {
	memo := map[[2]*Term]*Term{}
	rs := make([]*Term, len(a.results))
	for i := range rs {
		rs[i] = x.joinTerm(a.results[i], b.results[i], memo)
	}
	return Out{st: x.joinState(a.st, b.st, memo), results: rs, pos: a.pos}
}

func (x *Exec) joinItem(a, b item) item {
	memo := map[[2]*Term]*Term{}
	env := map[ssa.Value]*Term{}
	for k, v := range a.c.env {
		if w, ok := b.c.env[k]; ok {
			if v == w {
				env[k] = v
				continue
			}
			env[k] = x.joinTerm(v, w, memo)
		}
	}
	c := &Cfg{env: env, defers: a.c.defers}
	c.st = x.joinState(a.c.st, b.c.st, memo)
	return item{c: c, pred: a.pred}
}

// nilness decides whether t is nil.
func (x *Exec) nilness(st *State, t *Term) (known, isNil bool) {
	if t == tNil {
		return true, true
	}
	if nonNil(t) {
		return true, false
	}
	v, ok := st.facts.quick(eqT(t, tNil))
	return ok, v
}

// region interprets the blocks of a function or of a loop body.
func (x *Exec) region(fr *Frame, in map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, items []item, cur *Loop) (rets []Out, exits map[*ssa.BasicBlock][]item, backs []item) {
	pending := map[*ssa.BasicBlock][]item{entry: items}
	exits = map[*ssa.BasicBlock][]item{}
	push := func(from *ssa.BasicBlock, to *ssa.BasicBlock, c *Cfg) {
		switch {
		case cur != nil && to == cur.header:
			backs = append(backs, item{c, from})
		case !in[to]:
			exits[to] = append(exits[to], item{c, from})
		default:
			pending[to] = append(pending[to], item{c, from})
		}
	}
	for _, b := range fr.order {
		if !in[b] {
			continue
		}
		its := pending[b]
		delete(pending, b)
		if len(its) == 0 || x.fail != "" {
			continue
		}
		isCurHeader := cur != nil && b == cur.header
		if l := fr.loops[b]; l != nil && !isCurHeader {
			for _, it := range x.reduce(b, its) {
				r, ex := x.loop(fr, l, it)
				rets = append(rets, r...)
				var tos []*ssa.BasicBlock
				for to := range ex {
					tos = append(tos, to)
				}
				sort.Slice(tos, func(i, j int) bool { return fr.idx[tos[i]] < fr.idx[tos[j]] })
				for _, to := range tos {
					for _, e := range ex[to] {
						push(e.pred, to, e.c)
					}
				}
			}
			continue
		}
		if !isCurHeader {
			for _, it := range its {
				x.phis(b, it)
			}
			its = x.reduce(b, its)
		}
		for _, it := range its {
			r := x.block(fr, b, it.c, push)
			rets = append(rets, r...)
		}
	}
	return rets, exits, backs
}

func (x *Exec) phis(b *ssa.BasicBlock, it item) {
	if it.pred == nil {
		return
	}
	k := -1
	for i, p := range b.Preds {
		if p == it.pred {
			k = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		v := x.val(it.c, ph.Edges[k])
		switch ph.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if known, isNil := x.nilness(it.c.st, v); known && isNil {
				v = tNil
			}
		}
		vals = append(vals, v)
	}
	for i, ph := range phis {
		it.c.env[ph] = vals[i]
	}
}

// reduce limits the number of states at a block: equal ones are dropped and, above the cap,
// similar ones are joined.
func (x *Exec) reduce(b *ssa.BasicBlock, its []item) []item {
	if len(its) <= x.cap {
		return its
	}
	x.merges++
	// keep the values that control flow depends on apart
	live := liveAt(b)
	sig := func(it item) string {
		var sb strings.Builder
		for _, v := range live {
			t := it.c.env[v]
			if t == nil {
				continue
			}
			switch {
			case isConst(t), t.op == "err", t.op == "iface":
				sb.WriteString(v.Name() + "=" + strconv.Itoa(t.id) + ";")
			default:
				if _, ok := v.Type().Underlying().(*types.Basic); !ok {
					if k, n := x.nilness(it.c.st, t); k {
						sb.WriteString(v.Name() + fmt.Sprintf("=nil:%v;", n))
					}
				}
			}
		}
		return sb.String()
	}
	groups := map[string][]item{}
	var keys []string
	for _, it := range its {
		s := sig(it)
		if _, ok := groups[s]; !ok {
			keys = append(keys, s)
		}
		groups[s] = append(groups[s], it)
	}
	if len(keys) >= x.cap {
		groups = map[string][]item{"": its}
		keys = []string{""}
	}
	target := max(1, x.cap/(2*len(keys)))
	var out []item
	for _, k := range keys {
		g := groups[k]
		for len(g) > target {
			var n []item
			for i := 0; i+1 < len(g); i += 2 {
				n = append(n, x.joinItem(g[i], g[i+1]))
			}
			if len(g)%2 == 1 {
				n = append(n, g[len(g)-1])
			}
			g = n
		}
		out = append(out, g...)
	}
	return out
}

var liveCache = map[*ssa.BasicBlock][]ssa.Value{}

// liveAt: values defined outside of the blocks reachable from b but used there.
func liveAt(b *ssa.BasicBlock) []ssa.Value {
	if v, ok := liveCache[b]; ok {
		return v
	}
	reach := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
	}
	dfs(b)
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	for _, r := range b.Parent().Blocks {
		if !reach[r] {
			continue
		}
		for _, i := range r.Instrs {
			if ph, ok := i.(*ssa.Phi); ok && r == b {
				if !seen[ph] {
					seen[ph] = true
					out = append(out, ph)
				}
				continue
			}
			for _, op := range i.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				switch d := v.(type) {
				case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
					continue
				case ssa.Instruction:
					if reach[d.Block()] && !(d.Block().Dominates(b) && d.Block() != b) {
						continue
					}
				}
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	liveCache[b] = out
	return out
}

// loops -----------------------------------------------------------------------------------------

type loopMode struct {
	kind string // inv, ind, app, put, havoc
	step int64
	// app: header value is cat(entry, comp(K, body))
	body    *Term
	key     *Term
	id      *Term
	skip    bool       // some iterations leave the value as it is
	sub     []string   // the fields that change
	typ     types.Type // of a field
	retries int
}

func (x *Exec) headerVal(entry *Term, m *loopMode, K *Term, lv *Term) *Term {
	switch m.kind {
	case "inv":
		return entry
	case "ind":
		if m.step == 1 {
			return sum(entry, K)
		} else if m.step == -1 {
			return sub(entry, K)
		}
		return sum(entry, binT("*", K, tInt(m.step)))
	case "app":
		h := hole(holeLevel(m.body) + 1)
		if m.body.op == "seg" {
			return cat(entry, repT(K, h, substT(m.body.args[0], K, h)))
		}
		return cat(entry, compT(K, h, substT(m.body, K, h)))
	case "fill":
		h := hole(holeLevel(m.body) + 1)
		return fillT(entry, K, h, substT(m.body, K, h))
	case "fapp":
		h := hole(holeLevel(m.body) + 1)
		return cat(entry, mk("fcomp", h.aux, K, substT(m.body, K, h), m.id))
	case "ffill":
		h := hole(holeLevel(m.body) + 1)
		return mk("ffill", h.aux, entry, K, substT(m.body, K, h), m.id)
	case "fput":
		h := hole(max(holeLevel(m.body), holeLevel(m.key)) + 1)
		return mk("fmcomp", h.aux, entry, K, substT(m.key, K, h), substT(m.body, K, h), m.id)
	case "calls", "fcalls": // calls that may have changed some of it
		return mkT("after", "", entry.typ, mk("calls", m.id.aux, K), entry)
	case "put":
		h := hole(max(holeLevel(m.body), holeLevel(m.key)) + 1)
		return mk("mcomp", h.aux, entry, K, substT(m.key, K, h), substT(m.body, K, h))
	}
	return lv
}

type slot struct {
	phi   *ssa.Phi
	base  *Term
	field string
}

func fieldType(v *Term, F string) types.Type {
	if v.typ == nil {
		return nil
	}
	if st, ok := v.typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == F {
				return st.Field(i).Type()
			}
		}
	}
	return nil
}

func updBase(t *Term) *Term {
	if t.op == "upd" {
		return t.args[0]
	}
	return t
}

// fieldsVal is the value at the loop header of a struct of which some fields change.
func (x *Exec) fieldsVal(s slot, modes map[slot]*loopMode, entry, K, lv *Term, havoc func(lv, entry *Term)) *Term {
	m := modes[s]
	if m.kind != "fields" {
		if m.kind == "havoc" {
			havoc(lv, entry)
		}
		return x.headerVal(entry, m, K, lv)
	}
	v := entry
	for _, F := range m.sub {
		fs := s
		fs.field = F
		fl := mkT("lv", lv.aux+"."+F, modes[fs].typ, lv.args[0])
		fe := field(entry, F)
		if modes[fs].kind == "havoc" {
			havoc(fl, fe)
		}
		v = updField(v, F, x.headerVal(fe, modes[fs], K, fl))
	}
	return v
}

func (x *Exec) loop(fr *Frame, l *Loop, it item) (rets []Out, exits map[*ssa.BasicBlock][]item) {
	x.phis(l.header, it)
	entry := it.c
	n := entry.st.nloop + 1
	K := mk("K", strconv.Itoa(n))
	if len(entry.st.loops) > 0 {
		// inner counters are distinct for every outer iteration
		K = mk("K", strconv.Itoa(n), entry.st.loops...)
	}
	lid := fmt.Sprintf("%s/%d", fr.path, l.header.Index)
	if _, ok := x.loopID[lid]; !ok {
		x.loopID[lid] = len(x.loopID) + 1
	}
	lname := strconv.Itoa(x.serial) + ":" + strconv.Itoa(x.loopID[lid])

	var phis []*ssa.Phi
	for _, i := range l.header.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	modes := map[slot]*loopMode{}
	variantPhi := map[*ssa.Phi]bool{} // values are kept apart, as they are constants
	for _, ph := range phis {
		modes[slot{phi: ph}] = &loopMode{kind: "inv"}
	}
	lvOf := func(name string, t types.Type) *Term {
		v := mkT("lv", lname+"."+name, t, K)
		if t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				v.nonneg = true
			}
		}
		return v
	}
	var invariants []*Term
	build := func(variant map[*ssa.Phi]*Term) *Cfg {
		c := entry.clone()
		c.st.nloop = n
		var first [][2]*Term
		var heapFirst [][2]*Term
		c.st.loops = append(append([]*Term(nil), entry.st.loops...), K)
		for _, ph := range phis {
			if v, ok := variant[ph]; ok && variantPhi[ph] {
				c.env[ph] = v
				continue
			}
			m := modes[slot{phi: ph}]
			_ = m
			lv := lvOf(ph.Name(), ph.Type())
			c.env[ph] = x.fieldsVal(slot{phi: ph}, modes, entry.env[ph], K, lv, func(lv, e *Term) {
				if e.op == "arrptr" {
					e = x.sliceVal(entry.st, e) // what the list holds when the loop starts
				}
				first = append(first, [2]*Term{substT(lv, K, tZeroI), e})
			})
		}
		for _, p := range first {
			c.st.assume(eqT(p[0], p[1]), true)
		}
		for s, m := range modes {
			if s.base == nil || s.field != "" || m.kind == "inv" {
				continue
			}
			e, ok := entry.st.heap[s.base]
			if !ok {
				e = x.initial(s.base)
			}
			lv := lvOf("h"+strconv.Itoa(s.base.id), nil)
			c.st.heap[s.base] = x.fieldsVal(s, modes, e, K, lv, func(lv, e *Term) {
				heapFirst = append(heapFirst, [2]*Term{substT(lv, K, tZeroI), e})
			})
		}
		sort.Slice(heapFirst, func(i, j int) bool { return heapFirst[i][0].id < heapFirst[j][0].id })
		for _, p := range heapFirst {
			c.st.assume(eqT(p[0], p[1]), true)
		}
		for _, t := range invariants {
			c.st.assume(t, true)
		}
		return c
	}
	vkey := func(v map[*ssa.Phi]*Term) string {
		var sb strings.Builder
		for _, ph := range phis {
			if t := v[ph]; t != nil && variantPhi[ph] {
				sb.WriteString(strconv.Itoa(t.id) + ";")
			}
		}
		return sb.String()
	}
	entryVariant := func() map[*ssa.Phi]*Term {
		v := map[*ssa.Phi]*Term{}
		for _, ph := range phis {
			v[ph] = entry.env[ph]
		}
		return v
	}

	var backs []item
	pass := func() (changed bool) {
		rets, exits, backs = nil, map[*ssa.BasicBlock][]item{}, nil
		seen := map[string]bool{}
		work := []map[*ssa.Phi]*Term{entryVariant()}
		seen[vkey(work[0])] = true
		for len(work) > 0 {
			v := work[0]
			work = work[1:]
			c := build(v)
			hdr := map[slot]*Term{}
			for _, ph := range phis {
				hdr[slot{phi: ph}] = c.env[ph]
			}
			hdrHeap := map[*Term]*Term{} // the region updates c in place
			for b, t := range c.st.heap {
				hdrHeap[b] = t
			}
			r, ex, bs := x.region(fr, l.body, l.header, []item{{c, nil}}, l)
			rets = append(rets, r...)
			for to, e := range ex {
				exits[to] = append(exits[to], e...)
			}
			for _, b := range bs {
				k := -1
				for i, p := range l.header.Preds {
					if p == b.pred {
						k = i
					}
				}
				nv := map[*ssa.Phi]*Term{}
				for _, ph := range phis {
					t := x.val(b.c, ph.Edges[k])
					nv[ph] = t
					s := slot{phi: ph}
					if variantPhi[ph] {
						if !x.variantOK(t) || len(seen) > 6 {
							delete(variantPhi, ph)
							modes[s] = &loopMode{kind: "havoc"}
							return true
						}
						continue
					}
					x.lname = lname
					if x.demote(s, modes, hdr[s], entry.env[ph], t, K, variantPhi) {
						changed = true
					}
					x.keptAll(b.c, s, modes, hdr[s], t, K)
				}
				for _, base := range sortedKeys(b.c.st.heap) {
					t := b.c.st.heap[base]
					h, ok := hdrHeap[base]
					if !ok {
						if base.op == "alloc" || base.op == "mkmap" || base.op == "mkslice" || base.op == "mkbuf" || base.op == "mkhash" {
							if _, ok := entry.st.heap[base]; !ok {
								continue // created by this iteration
							}
						}
						h = x.initial(base)
					}
					s := slot{base: base}
					if _, ok := entry.st.heap[base]; !ok && mentions(base, K) {
						// a cell that is another one in every iteration: nothing is carried
						// over, and what it holds in an iteration is not known before
						if h != t && !x.varies[K] {
							if x.varies == nil {
								x.varies = map[*Term]bool{}
							}
							x.varies[K] = true
							changed = true
						}
						if T := derefType(base.typ); T != nil && h != t {
							for _, ph := range phis {
								e := entry.env[ph]
								sb := slot{base: e}
								if types.Identical(ph.Type(), types.NewPointer(T)) && modes[sb] == nil {
									modes[sb] = &loopMode{kind: "havoc"}
									changed = true
								}
							}
							for _, o := range sortedKeys(entry.st.heap) {
								if o.typ != nil && o.op != "alloc" && types.Identical(o.typ, base.typ) && modes[slot{base: o}] == nil {
									modes[slot{base: o}] = &loopMode{kind: "havoc"}
									changed = true
								}
							}
						}
						continue
					}
					if h == t {
						if m := modes[s]; m != nil && (m.kind == "havoc" || m.kind == "fields") {
							x.keptAll(b.c, s, modes, h, t, K)
						} else if m != nil && m.id != nil {
							if x.demote(s, modes, h, h, t, K, nil) {
								changed = true
							}
							x.keptAll(b.c, s, modes, h, t, K)
						}
						continue
					}
					if modes[s] == nil {
						modes[s] = &loopMode{kind: "inv"}
					}
					e, ok := entry.st.heap[base]
					if !ok {
						e = x.initial(base)
					}
					x.lname = lname
					if x.demote(s, modes, h, e, t, K, nil) {
						changed = true
					}
					x.keptAll(b.c, s, modes, h, t, K)
				}
				if changed {
					return true
				}
				if key := vkey(nv); !seen[key] {
					seen[key] = true
					work = append(work, nv)
				}
				backs = append(backs, b)
			}
			if changed {
				return true
			}
		}
		return false
	}
	x.silent++
	for i := 0; ; i++ {
		if !pass() {
			break
		}
		if i > 60 {
			x.fail = "no fixed point for a loop in " + fnName(fr.fn)
			break
		}
	}
	x.silent--
	// Bounds of the iteration count that the entry and the end of every iteration establish, as
	// loops that test at the bottom do.
	if len(backs) > 0 && x.fail == "" {
		for _, t := range backs[0].c.st.facts.order {
			if t.op != "lt" || !backs[0].c.st.facts.lits[t] || mentions(t.args[1], K) {
				continue
			}
			bx, cx := splitAdd(t.args[0])
			if bx != K {
				continue
			}
			if _, cy := splitAdd(t.args[1]); cy.Cmp(cx) >= 0 {
				continue // tested before the iteration
			}
			// as a statement about the following iteration
			c := new(big.Int).Sub(cx, big.NewInt(1))
			if !entry.st.facts.Proves(ltT(tBig(c), t.args[1]), true) {
				continue
			}
			ok := true
			for _, b := range backs {
				ok = ok && b.c.st.facts.Proves(t, true)
			}
			if ok {
				invariants = append(invariants, ltT(addC(K, c), t.args[1]))
			}
		}
	}
	if x.silent == 0 || len(invariants) > 0 {
		if pass() {
			x.fail = "unstable loop in " + fnName(fr.fn)
		}
	}

	// What every completed iteration established.
	var fa *Forall
	if len(backs) > 0 {
		fa = &Forall{bound: K}
		lvl := 0
		deltas := make([]*Conj, 0, len(backs))
		for _, b := range backs {
			d := &Conj{}
			for _, t := range b.c.st.facts.order {
				if _, ok := entry.st.facts.lits[t]; !ok {
					d.lits = append(d.lits, Lit{t, b.c.st.facts.lits[t]})
					if h := holeLevel(t); h > lvl {
						lvl = h
					}
				}
			}
			for _, a := range b.c.st.facts.foralls {
				old := false
				for _, e := range entry.st.facts.foralls {
					if a == e {
						old = true
					}
				}
				if !old {
					d.foralls = append(d.foralls, a)
					if h := forallLevel(a); h > lvl {
						lvl = h
					}
				}
			}
			deltas = append(deltas, d)
		}
		fa.h = hole(lvl + 1)
		for _, d := range deltas {
			fa.disjuncts = append(fa.disjuncts, substConj(d, K, fa.h))
		}
	}
	// Values that change only once: if they did not change until now, they never did.
	var latches []*Term
	latchOf := map[*Term]*Term{}
	if fa != nil {
		for s, m := range modes {
			if m.kind != "havoc" || s.field != "" {
				continue
			}
			var lv, e *Term
			if s.phi != nil {
				lv, e = lvOf(s.phi.Name(), s.phi.Type()), entry.env[s.phi]
			} else {
				lv = lvOf("h"+strconv.Itoa(s.base.id), nil)
				var ok bool
				if e, ok = entry.st.heap[s.base]; !ok {
					e = x.initial(s.base)
				}
			}
			if e != tTrue && e != tFalse {
				continue
			}
			next, latch := substT(lv, K, sum(K, tInt(1))), true
			for _, b := range backs {
				f := b.c.st.facts
				v1, known := f.lits[next]
				if known && v1 != (e == tTrue) || f.Proves(lv, e == tTrue) || f.lits[eqT(next, lv)] {
					continue
				}
				latch = false
			}
			if latch {
				latches = append(latches, lv)
				latchOf[lv] = e
			}
		}
		sortTerms(latches)
	}
	addFa := func(st *State) {
		if fa == nil {
			return
		}
		if st.facts.shared {
			st.facts = st.facts.clone()
		}
		st.facts.addForall(fa)
	}
	if fa != nil {
		for _, lv := range latches {
			fa.latches = append(fa.latches, latch{lv, substT(lv, K, fa.h), substT(lv, K, sum(fa.h, tInt(1))), latchOf[lv] == tTrue})
		}
	}
	for _, es := range exits {
		for _, e := range es {
			e.c.st.loops = entry.st.loops
			addFa(e.c.st)
			if g := lastIteration(fa, K, e.c.st.facts); g != nil {
				if e.c.st.facts.shared {
					e.c.st.facts = e.c.st.facts.clone()
				}
				e.c.st.facts.addForall(g)
			}
			// K == bound on natural exits
			for _, t := range e.c.st.facts.order {
				if t.op != "lt" || e.c.st.facts.lits[t] || !t.syms {
					continue
				}
				bx, cx := splitAdd(t.args[0])
				if bx != K || mentions(t.args[1], K) {
					continue
				}
				ok := true
				for _, b := range backs {
					if !b.c.st.facts.Proves(t, true) {
						ok = false
					}
				}
				B := t.args[1]
				z := tBig(cx)
				by, cy := splitAdd(B)
				nn := by == nil || by.nonneg && cx.Cmp(cy) <= 0
				if ok && (nn || entry.st.facts.Proves(ltT(B, z), false)) {
					total := addC(B, new(big.Int).Neg(cx))
					e.c.st.assume(eqT(K, total), true)
					// name what the loop built by the number of iterations
					m, memo := map[*Term]*Term{K: total}, map[*Term]*Term{}
					for b, v := range e.c.st.heap {
						if !mentions(b, K) && mentions(v, K) {
							e.c.st.heap[b] = substM(v, m, memo)
						}
					}
					for _, ph := range phis {
						if v := e.c.env[ph]; v != nil && v != K {
							e.c.env[ph] = substM(v, m, memo)
						}
					}
				}
				break
			}
		}
	}
	for i := range rets {
		rets[i].st.loops = entry.st.loops
		addFa(rets[i].st)
	}
	return rets, exits
}

// lastIteration extends what every completed iteration established to the one in which a loop
// that is tested at its end was left.
func lastIteration(fa *Forall, K *Term, f *Facts) *Forall {
	if fa == nil {
		return nil
	}
	tests := map[*Term]bool{}
	for t, pos := range f.lits {
		// the test failed at the exit: not (a < b) where every iteration has a < b
		if t.op == "lt" && !pos && mentions(t, K) {
			tests[substT(t, K, fa.h)] = true
		}
	}
	if len(tests) == 0 {
		return nil
	}
	g := &Forall{bound: sum(K, tInt(1)), h: fa.h}
	ok := false
	for _, d := range fa.disjuncts {
		n := &Conj{foralls: d.foralls}
		fails, dropped := false, false
		for _, l := range d.lits {
			if l.pos && tests[l.atom] {
				dropped = true
				continue
			}
			if mentions(l.atom, sum(fa.h, tInt(1))) && l.atom.op == "eq" {
				continue // what the next iteration starts from
			}
			n.lits = append(n.lits, l)
			if !ok && !f.Proves(substT(l.atom, fa.h, K), l.pos) {
				fails = true
			}
		}
		if !dropped {
			return nil
		}
		if !fails && len(d.foralls) == 0 {
			ok = true
		}
		g.disjuncts = append(g.disjuncts, n)
	}
	some := false
	for _, d := range g.disjuncts {
		some = some || len(d.lits) > 0
	}
	if !ok || !some {
		return nil
	}
	return g
}

func forallLevel(a *Forall) int {
	l, _ := strconv.Atoi(a.h.aux)
	return l
}

func substConj(c *Conj, from, to *Term) *Conj {
	n := &Conj{}
	m := map[*Term]*Term{from: to}
	memo := map[*Term]*Term{}
	for _, l := range c.lits {
		t, p := norm(substM(l.atom, m, memo), l.pos)
		if t == tTrue || t == tFalse {
			continue
		}
		n.lits = append(n.lits, Lit{t, p})
	}
	for _, a := range c.foralls {
		b := &Forall{bound: substM(a.bound, m, memo), h: a.h}
		for _, d := range a.disjuncts {
			b.disjuncts = append(b.disjuncts, substConj(d, from, to))
		}
		n.foralls = append(n.foralls, b)
	}
	return n
}

func (x *Exec) keptAll(c *Cfg, s slot, modes map[slot]*loopMode, hdr, back, K *Term) {
	m := modes[s]
	if m == nil || m.kind != "fields" {
		x.kept(c, m, hdr, back, K)
		return
	}
	for _, F := range m.sub {
		s.field = F
		x.kept(c, modes[s], field(hdr, F), field(back, F), K)
	}
}

// kept records whether an iteration extended a value that only some iterations extend.
func (x *Exec) kept(c *Cfg, m *loopMode, hdr, back, K *Term) {
	if m != nil && m.kind == "havoc" && hdr.op == "lv" && back.op != "phi" {
		// the value for the next iteration
		c.st.assume(eqT(substT(hdr, K, sum(K, tInt(1))), back), true)
	}
	if m == nil || m.kind != "fapp" && m.kind != "fput" && m.kind != "ffill" {
		return
	}
	c.st.assume(mk("kept", "", m.id, K), hdr != back)
}

func (x *Exec) variantOK(t *Term) bool {
	return t == tTrue || t == tFalse || t == tNil || t.op == "const" && strings.HasPrefix(t.aux, `"`)
}

// demote weakens the assumption about a loop-carried value if the back edge contradicts it.
func (x *Exec) demote(s slot, modes map[slot]*loopMode, hdr, entry, back, K *Term, variant map[*ssa.Phi]bool) bool {
	m := modes[s]
	switch m.kind {
	case "havoc":
		return false
	case "fields":
		if updBase(back) != updBase(hdr) || updBase(hdr) != updBase(entry) {
			modes[s] = &loopMode{kind: "havoc"}
			return true
		}
		changed := false
		names := append([]string(nil), m.sub...)
		if back.op == "upd" {
			names = append(names, strings.Split(back.aux, ",")...)
		}
		sort.Strings(names)
		for i, F := range names {
			if i > 0 && names[i-1] == F {
				continue
			}
			fs := s
			fs.field = F
			if modes[fs] == nil {
				if field(back, F) == field(hdr, F) {
					continue
				}
				modes[fs] = &loopMode{kind: "inv", typ: fieldType(hdr, F)}
				m.sub = append(m.sub, F)
				sort.Strings(m.sub)
				changed = true
			}
			if x.demote(fs, modes, field(hdr, F), field(entry, F), field(back, F), K, nil) {
				changed = true
			}
		}
		return changed
	case "inv":
		if back == hdr {
			return false
		}
		if s.field == "" && updBase(back) == updBase(hdr) {
			modes[s] = &loopMode{kind: "fields"}
			return true
		}
		if s.phi != nil && variant != nil && x.variantOK(entry) && x.variantOK(back) {
			if b, ok := s.phi.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				variant[s.phi] = true
				return true
			}
		}
		// induction
		typ := m.typ
		if s.phi != nil && s.field == "" {
			typ = s.phi.Type()
		}
		if typ != nil {
			if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				d := sub(back, hdr)
				if n, ok := intVal(d); ok && n.IsInt64() {
					modes[s] = &loopMode{kind: "ind", step: n.Int64(), typ: typ}
					return true
				}
			}
		}
		m := &loopMode{kind: "try", typ: m.typ}
		if s.field != "" {
			m.id = mk("loopid", x.lname+".f"+s.field)
			if s.base != nil {
				m.id = mk("loopid", x.lname+".h"+strconv.Itoa(s.base.id)+"."+s.field)
			}
		} else if s.phi != nil {
			m.id = mk("loopid", x.lname+"."+s.phi.Name())
		} else {
			m.id = mk("loopid", x.lname+".h"+strconv.Itoa(s.base.id))
		}
		modes[s] = m
		return true
	case "ind":
		want := substHeader(x, entry, m, K)
		if back == want {
			return false
		}
		modes[s] = &loopMode{kind: "havoc", typ: m.typ}
		return true
	case "try":
		// the header value is an opaque symbol; look at how it is extended
		if back == hdr {
			m.skip = true
			return false
		}
		set := func(n *loopMode) bool {
			n.id, n.typ, n.retries = m.id, m.typ, m.retries
			if m.skip {
				if n.body.op == "seg" {
					n = &loopMode{kind: "havoc", typ: m.typ}
				} else {
					n.kind = "f" + n.kind
				}
			}
			modes[s] = n
			return true
		}
		if back.op == "cat" && back.args[0] == hdr && len(back.args) == 2 && back.args[1].op == "lit" && len(back.args[1].args) == 1 && !mentions(back.args[1], hdr) {
			return set(&loopMode{kind: "app", body: back.args[1].args[0]})
		}
		if back.op == "cat" && back.args[0] == hdr && !mentions(cat(back.args[1:]...), hdr) {
			return set(&loopMode{kind: "app", body: mk("seg", "", cat(back.args[1:]...))})
		}
		if back.op == "eupd" && back.args[0] == hdr && back.args[1] == K {
			if b := substT(back.args[2], elemT(hdr, K), elemT(entry, K)); !mentions(b, hdr) {
				return set(&loopMode{kind: "fill", body: b})
			}
		}
		if back.op == "mput" && back.args[0] == hdr && !mentions(back.args[1], hdr) && !mentions(back.args[2], hdr) {
			return set(&loopMode{kind: "put", key: back.args[1], body: back.args[2]})
		}
		if st, ok := callChain(back, hdr); ok && entry.op != "alloc" {
			loopStores[m.id.aux] = st
			return set(&loopMode{kind: "calls", body: m.id})
		}
		modes[s] = &loopMode{kind: "havoc", typ: m.typ}
		return true
	case "calls", "fcalls":
		if back == hdr {
			return false
		}
		if st, ok := callChain(back, hdr); ok {
			changed := false
			for k := range st {
				if !loopStores[m.id.aux][k] {
					loopStores[m.id.aux][k] = true
					changed = true
				}
			}
			return changed
		}
		modes[s] = &loopMode{kind: "havoc"}
		return true
	case "app", "put", "fill", "fapp", "fput", "ffill":
		var want *Term
		switch m.kind {
		case "app", "fapp":
			want = lit(m.body)
			if m.body.op == "seg" {
				want = m.body.args[0]
			}
			want = cat(hdr, want)
		case "put", "fput":
			want = mk("mput", "", hdr, m.key, m.body)
		default:
			want = eupd(hdr, K, m.body)
		}
		switch {
		case back == want || back == hdr && m.kind[0] == 'f' && m.kind != "fill":
			return false
		case back == hdr && m.body.op != "seg" && m.id != nil:
			modes[s] = &loopMode{kind: "f" + m.kind, body: m.body, key: m.key, id: m.id, typ: m.typ}
			return true
		case m.retries < 3:
			// what is appended may have been computed from another value of the loop, about
			// which more is known now
			modes[s] = &loopMode{kind: "try", id: m.id, typ: m.typ, retries: m.retries + 1}
			return true
		}
		modes[s] = &loopMode{kind: "havoc", typ: m.typ}
		return true
	}
	panic("mode " + m.kind)
}

// callChain finds which fields the calls that turned hdr into back may have assigned.
func callChain(back, hdr *Term) (map[string]bool, bool) {
	out := map[string]bool{}
	n := 0
	for ; back != hdr; n++ {
		if back.op != "after" || back.typ == nil || back.args[0].op != "call" && back.args[0].op != "calls" {
			return nil, false
		}
		st := storesOf[stripOcc(back.args[0].aux)]
		if back.args[0].op == "calls" {
			st = loopStores[back.args[0].aux]
		}
		if st == nil {
			return nil, false
		}
		for k := range st {
			out[k] = true
		}
		back = back.args[1]
	}
	return out, n > 0
}

func sortedKeys(m map[*Term]*Term) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func substHeader(x *Exec, entry *Term, m *loopMode, K *Term) *Term {
	h := x.headerVal(entry, m, K, nil)
	return sum(h, tInt(m.step))
}
