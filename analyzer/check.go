package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortedNames(m map[string]*Term) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

// Checker runs the rules of one property.
type Checker struct {
	p       *Prog
	prop    string
	tier    string
	runs    map[string]*Run
	obls    int
	proved  int
	vios    []Violation
	rules   []string
	funcs   map[string]bool
	events  int
	paths   int
	steps   int
	sites   int
	consts  map[string]*Term
	assumes []string
	undec   []string
	cur     *Exec // of the latest run
}

type Violation struct {
	Rule      string
	Where     string
	Construct string // the function, which does not change when lines move
	What      string
}

func newChecker(p *Prog, prop, tier string) *Checker {
	return &Checker{p: p, prop: prop, tier: tier, runs: map[string]*Run{}, funcs: map[string]bool{}, consts: map[string]*Term{}}
}

func (k *Checker) violate(rule, where, format string, a ...any) {
	k.violateIn(rule, where, where, format, a...)
}

// undecided records that a rule could not be applied to the code as it is now.
func (k *Checker) undecided(rule, where, why string) {
	u := rule + " at " + where + ": " + why
	for _, o := range k.undec {
		if o == u {
			return
		}
	}
	k.undec = append(k.undec, u)
}

// applies reports whether the rule still speaks of things that exist.
func (k *Checker) applies(rule string, pts []*point, formula string) bool {
	if l := k.p.base.lostIn(formula); l != "" {
		k.undecided(rule, k.where(pts), l+" is not there any more in the form the rule knows")
		return false
	}
	for _, pt := range pts {
		if pt.x.lost != "" {
			k.undecided(rule, k.where(pts), pt.x.lost+" is not there any more in the form the rule knows")
			return false
		}
		if pt.x.fail != "" {
			k.undecided(rule, k.where(pts), pt.x.fail)
			return false
		}
	}
	return true
}

func (k *Checker) violatePos(rule string, pos token.Pos, format string, a ...any) {
	k.violateIn(rule, k.pos(pos), k.fnAt(pos), format, a...)
}

// fnAt names the function that contains a position.
func (k *Checker) fnAt(pos token.Pos) string {
	best, size := "?", token.Pos(1<<40)
	for name, fn := range k.p.fns {
		n := fn.Syntax()
		if n == nil || pos < n.Pos() || pos > n.End() {
			continue
		}
		if n.End()-n.Pos() < size || n.End()-n.Pos() == size && name < best {
			best, size = name, n.End()-n.Pos()
		}
	}
	return best
}

func (k *Checker) violateIn(rule, where, construct, format string, a ...any) {
	v := Violation{rule, where, construct, fmt.Sprintf(format, a...)}
	for _, o := range k.vios {
		if o == v {
			return
		}
	}
	k.vios = append(k.vios, v)
}

func (k *Checker) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := k.p.prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, k.p.dir+"/") + ":" + fmt.Sprint(q.Line)
}

// constant resolves a named constant of a package of the repository.
func (k *Checker) constant(pkg, name string) (*Term, bool) {
	key := pkg + "." + name
	if t, ok := k.consts[key]; ok {
		return t, t != nil
	}
	k.consts[key] = nil
	for _, sp := range k.p.ssa {
		if shortPkg(sp.Pkg.Path()) != pkg {
			continue
		}
		switch o := sp.Pkg.Scope().Lookup(name).(type) {
		case *types.Const:
			if o.Val().Kind() != constant.Unknown {
				k.consts[key] = tConst(o.Val(), o.Type())
			}
		case *types.Var:
			if isErrorType(o.Type()) {
				k.consts[key] = mk("err", "@"+key)
			} else {
				k.consts[key] = mkT("ld", "", o.Type(), mkT("global", key, types.NewPointer(o.Type())))
			}
		}
	}
	t := k.consts[key]
	return t, t != nil
}

// Run is the interpretation of one root.
type Run struct {
	lost bool // a function literal that is not there any more
	k    *Checker
	fn   *ssa.Function
	x    *Exec
	outs []Out
	env  map[string]*Term
	name string
	st   *State
}

type opt func(x *Exec)

func opaque(names ...string) opt {
	return func(x *Exec) {
		for _, n := range names {
			x.opaque[n] = true
			if x.p.base.isLost(n) {
				x.lost = n
			}
		}
	}
}

// apart keeps the ways in which the function fails apart.
func apart() opt { return func(x *Exec) { x.apart = true } }

// memo marks functions that return the same result for the same arguments, which another rule
// establishes, and change nothing that the analysis looks at.
func memo(names ...string) opt {
	return func(x *Exec) {
		for _, n := range names {
			x.opaque[n], x.memo[n] = true, true
			if x.p.base.isLost(n) {
				x.lost = n
			}
		}
	}
}

func inlined(names ...string) opt {
	return func(x *Exec) {
		for _, n := range names {
			x.inline[n] = true
		}
	}
}

func capped(n int) opt { return func(x *Exec) { x.cap = n } }

func withMem() opt { return func(x *Exec) { x.memEv = true } }

// root interprets a function with symbolic arguments.
func (k *Checker) root(name string, opts ...opt) *Run {
	fn := k.p.fns[name]
	if i := strings.LastIndexByte(name, '$'); i > 0 {
		// function literals are numbered, and say nothing once they are not the ones that the rules know
		outer := k.p.fns[name[:i]]
		if fn == nil || outer == nil || strconv.Itoa(len(outer.AnonFuncs)) != name[i+1:] {
			k.undecided("anchor", name, "the function literal is not there any more in the form the rules know")
			return &Run{k: k, name: name, env: map[string]*Term{}, lost: true}
		}
	}
	if k.p.base.isLost(name) {
		k.undecided("anchor", name, "the function is not there any more in the form the rules know")
		fn = nil
	} else if fn == nil {
		k.violate("anchor", name, "the function %s, which the property is about, is missing", name)
	}
	if fn == nil {
		return &Run{k: k, name: name, env: map[string]*Term{}}
	}
	opaqueTypes = map[string]bool{}
	x := newExec(k.p, pkgOf(fn))
	k.cur = x
	x.cap = 96
	for _, o := range opts {
		o(x)
	}
	if k.tier == "thorough" {
		x.cap *= 4 // keep four times as many states apart before any are merged
	}
	r := &Run{k: k, fn: fn, x: x, name: name, env: map[string]*Term{}}
	args := rootArgs(fn)
	for i, p := range fn.Params {
		r.env[symName(args[i])] = args[i]
		_ = p
	}
	r.st = newState()
	if fn.Signature.Recv() != nil && isPtr(fn.Params[0].Type()) {
		r.st.assume(eqT(args[0], tNil), false)
	}
	r.outs = x.run(fn, args, nil, r.st, fnName(fn), nil)
	r.finish()
	return r
}

// when applies rules to a function that is not part of an interface and may have been renamed or
// inlined, in which case the rules about its callers are all there is.
func (k *Checker) when(name string, f func(r *Run), opts ...opt) {
	if k.p.base.isLost(name) {
		k.undecided("anchor", name, "the function is not there any more in the form the rules know")
		return
	}
	r := k.root(name, opts...)
	if r.lost {
		return
	}
	f(r)
}

func (r *Run) finish() {
	k := r.k
	if r.x.fail != "" {
		k.undecided("analysis", r.name, r.x.fail)
	}
	for f := range r.x.fns {
		k.funcs[fnName(f)] = true
	}
	k.events += len(r.x.events)
	k.paths += len(r.outs)
	k.steps += r.x.steps
	k.sites += r.x.sites
}

// then invokes the closure that the root returned as result i, with symbolic arguments q0, q1, ...
func (r *Run) then(i int, argNames ...string) *Run {
	n := &Run{k: r.k, fn: r.fn, x: r.x, name: r.name, env: map[string]*Term{}}
	for a, b := range r.env {
		n.env[a] = b
	}
	if r.fn == nil {
		return n
	}
	r.x.events = nil
	found := false
	for _, o := range r.outs {
		if len(o.results) <= i || !r.success(o) {
			continue
		}
		c := o.results[i]
		if c.op != "closure" && c.op != "func" {
			continue
		}
		var target *ssa.Function
		var free []*Term
		if c.op == "func" {
			target = funcByName[c.aux]
		} else {
			target = funcByName[c.args[0].aux]
			free = c.args[1:]
		}
		found = true
		var args []*Term
		for j, p := range target.Params {
			nm := fmt.Sprintf("q%d", j)
			if j < len(argNames) {
				nm = argNames[j]
			}
			t := sym(nm, p.Type())
			n.env[nm] = t
			args = append(args, t)
		}
		outs := r.x.run(target, args, free, o.st.clone(), fnName(target), nil)
		n.fn = target
		n.outs = append(n.outs, outs...)
	}
	if !found {
		r.k.violate("anchor", r.name, "result %d of %s is not a function that can be followed", i, r.name)
	}
	n.finish()
	return n
}

// success reports whether an outcome may be a success. The error is assumed to be nil.
func (r *Run) success(o Out) bool {
	if len(o.results) == 0 || r.fn == nil {
		return true
	}
	e := o.results[len(o.results)-1]
	res := r.fn.Signature.Results()
	if !isErrorType(res.At(res.Len() - 1).Type()) {
		return true
	}
	known, isNil := r.x.nilness(o.st, e)
	if !known {
		a := eqT(e, tNil)
		return !o.st.facts.Proves(a, false)
	}
	return isNil
}

// points of interest

func (r *Run) pointOf(o Out) *point {
	env := map[string]*Term{}
	for n, t := range r.env {
		env[n] = t
	}
	f := o.st.facts
	for i, t := range o.results {
		env[fmt.Sprintf("ret%d", i)] = r.x.snap(o.st, t, 0)
		env[fmt.Sprintf("raw%d", i)] = t
	}
	res := r.fn.Signature.Results()
	if n := len(o.results); n > 0 && isErrorType(res.At(res.Len()-1).Type()) {
		e := o.results[n-1]
		if e.op != "nil" && !nonNil(e) && r.success(o) {
			f = f.clone()
			f.add(eqT(e, tNil), true)
		}
	}
	return &point{x: r.x, facts: f, heap: o.st.heap, env: env, pos: posOr(o.pos, r.fn.Pos()), desc: "return of " + r.name}
}

func (r *Run) oks() []*point {
	var out []*point
	if r.fn == nil {
		return nil
	}
	for _, o := range r.outs {
		if r.success(o) {
			out = append(out, r.pointOf(o))
		}
	}
	return out
}

// errs are the outcomes that may be a failure.
func (r *Run) errs() []*point {
	var out []*point
	if r.fn == nil {
		return nil
	}
	res := r.fn.Signature.Results()
	for _, o := range r.outs {
		if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
			continue
		}
		e := o.results[len(o.results)-1]
		known, isNil := r.x.nilness(o.st, e)
		if known && isNil {
			continue
		}
		if !known && o.st.facts.Proves(eqT(e, tNil), true) {
			continue
		}
		p := r.pointOf(o)
		p.facts = o.st.facts
		if !known {
			p.facts = p.facts.clone()
			p.facts.add(eqT(e, tNil), false)
		}
		out = append(out, p)
	}
	return out
}

// callers lists the call sites, anywhere in the repository, of functions or interface methods.
func (k *Checker) callers(names ...string) []token.Pos {
	var out []token.Pos
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	for _, name := range k.p.fnNames() {
		for _, b := range k.p.fns[name].Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if want[calleeName(c.Common())] {
					out = append(out, ins.Pos())
				}
			}
		}
	}
	return out
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

func (p *Prog) fnNames() []string {
	var out []string
	for n := range p.fns {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (r *Run) all() []*point {
	var out []*point
	if r.fn == nil {
		return nil
	}
	res := r.fn.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		for _, o := range r.outs {
			out = append(out, r.pointOf(o))
		}
		return out
	}
	// An outcome whose error is unknown is both a success and a failure.
	return append(r.oks(), r.errs()...)
}

// at selects the events of a kind whose name matches one of the names.
func (r *Run) at(kind string, names ...string) []*point {
	var out []*point
	if r.fn == nil {
		return nil
	}
	for _, e := range r.x.events {
		if e.kind != kind {
			continue
		}
		ok := len(names) == 0
		for _, n := range names {
			if n == e.name {
				ok = true
			}
		}
		if !ok {
			continue
		}
		env := map[string]*Term{}
		for n, t := range r.env {
			env[n] = t
		}
		for i, a := range e.args {
			env[fmt.Sprintf("arg%d", i)] = a
		}
		for i, a := range e.raw {
			env[fmt.Sprintf("raw%d", i)] = a
		}
		if e.recv != nil {
			env["self"] = e.recv
			if strings.HasPrefix(e.kind, "map") {
				st := &State{heap: e.heap}
				env["contents"] = r.x.snap(st, r.x.mapVal(st, e.recv), 0)
			}
		}
		if e.res != nil {
			env["result"] = e.res
		}
		if len(e.loops) > 0 {
			env["iter"] = e.loops[len(e.loops)-1]
		}
		out = append(out, &point{x: r.x, facts: e.facts, heap: e.heap, env: env, pos: posOr(e.pos, r.fn.Pos()), desc: e.kind + " " + e.name + " reached from " + r.name})
	}
	return out
}

func (r *Run) calls(names ...string) []*point {
	for _, n := range names {
		r.k.mustExist(n)
	}
	return r.at("call", names...)
}

// mustExist checks that a name in a rule refers to something.
func (k *Checker) mustExist(n string) {
	if k.p.fns[n] != nil || k.p.base.isLost(n) {
		return
	}
	if i := strings.LastIndexByte(n, '.'); i > 0 {
		t := n[:i]
		for _, sp := range k.p.prog.AllPackages() {
			for _, m := range sp.Members {
				if ty, ok := m.(*ssa.Type); ok && typeName(ty.Type()) == t {
					if o, _, _ := types.LookupFieldOrMethod(ty.Type(), true, sp.Pkg, n[i+1:]); o != nil {
						return
					}
				}
			}
		}
		for _, sp := range k.p.prog.AllPackages() {
			if sp.Pkg.Path() == t && sp.Func(n[i+1:]) != nil {
				return
			}
		}
	}
	if strings.HasPrefix(n, "(") {
		return
	}
	k.violate("anchor", n, "%s, which the property is about, is missing", n)
}

// need requires a formula at every point, and at least min points.
func (k *Checker) need(rule string, pts []*point, min int, formula string) {
	k.rules = append(k.rules, rule)
	e := parsePat(formula)
	if !k.applies(rule, pts, formula) {
		return
	}
	// more than one place may have been merged into one
	if len(pts) < min && len(pts) == 0 && len(k.undec) == 0 && !k.unsure(rule, k.where(pts), nil) {
		k.violate(rule, k.where(pts), "no place was found where this has to hold: %s", formula)
	}
	for _, pt := range pts {
		k.obls++
		m := &matcher{k: k, pt: pt, f: pt.facts}
		ok := m.holds(e, bind{}, func(bind) bool { return true })
		if ok {
			k.proved++
			continue
		}
		if k.unsure(rule, k.pos(pt.pos), pt.x) {
			continue
		}
		k.violatePos(rule, pt.pos, "%s: not established on every path: %s", pt.desc, formula)
		if debug {
			fmt.Printf("---- %s %s\n", rule, k.pos(pt.pos))
			for _, n := range sortedNames(pt.env) {
				fmt.Printf("   %s = %s\n", n, pt.env[n])
			}
			dumpFacts(pt.facts, "     ")
		}
	}
}

// shaped is need for a rule which reads a loop in the one form that the code gives it: where no place
// has that form the rule is undecided.
func (k *Checker) shaped(rule string, pts []*point, shape, formula string) {
	if len(k.sel(pts, shape)) == 0 && len(pts) > 0 {
		k.rules = append(k.rules, rule)
		k.undecided(rule, k.where(pts), "the code does not have the form the rule reads: "+shape)
		return
	}
	k.need(rule, pts, 1, formula)
}

// never requires that a formula is not established at any of the points.
func (k *Checker) never(rule string, pts []*point, formula string) {
	k.rules = append(k.rules, rule)
	e := parsePat(formula)
	if !k.applies(rule, pts, formula) {
		return
	}
	for _, pt := range pts {
		k.obls++
		m := &matcher{k: k, pt: pt, f: pt.facts}
		if m.holds(e, bind{}, func(bind) bool { return true }) {
			if k.unsure(rule, k.pos(pt.pos), pt.x) {
				continue
			}
			k.violatePos(rule, pt.pos, "%s: %s", pt.desc, formula)
			continue
		}
		k.proved++
	}
}

// notAll requires that a formula is not established at all of the points, of which there has to be one.
func (k *Checker) notAll(rule string, pts []*point, formula string) {
	k.rules = append(k.rules, rule)
	if !k.applies(rule, pts, formula) {
		return
	}
	k.obls++
	if len(k.sel(pts, formula)) < len(pts) {
		k.proved++
		return
	}
	if !k.unsure(rule, k.where(pts), nil) {
		k.violate(rule, k.where(pts), "at every one of %d places: %s", len(pts), formula)
	}
}

// some requires a formula at at least min of the points, so that a rule about them is not empty.
func (k *Checker) some(rule string, pts []*point, min int, formula string) {
	k.rules = append(k.rules, rule)
	n := 0
	if !k.applies(rule, pts, formula) {
		return
	}
	for _, pt := range k.sel(pts, formula) {
		_ = pt
		n++
	}
	k.obls++
	if n < min {
		var x *Exec
		if len(pts) > 0 {
			x = pts[0].x
		}
		if k.unsure(rule, k.where(pts), x) {
			return
		}
		k.violate(rule, k.where(pts), "%d places instead of at least %d satisfy: %s", n, min, formula)
		return
	}
	k.proved++
}

// sel keeps the points where a formula holds.
func (k *Checker) sel(pts []*point, formula string) []*point {
	e := parsePat(formula)
	var out []*point
	for _, pt := range pts {
		m := &matcher{k: k, pt: pt, f: pt.facts}
		if m.holds(e, bind{}, func(bind) bool { return true }) {
			out = append(out, pt)
		}
	}
	return out
}

// posOr is a position, or another one if the code there has none (an implicit return).
func posOr(p, q token.Pos) token.Pos {
	if p.IsValid() {
		return p
	}
	return q
}

func (k *Checker) where(pts []*point) string {
	if len(pts) > 0 {
		return k.pos(pts[0].pos)
	}
	return "?"
}
