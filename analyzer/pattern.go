package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// Formulas over facts are written as Go expressions:
//
//	recv, p0, ret0, arg0, self     the receiver, parameters, results, call arguments
//	A, B, VER                      upper-case names are variables that are found by matching
//	_                              anything
//	pkg.Fn(x), pkg.Iface.M(x, y)   the result of a call; res0(...) selects one of several results
//	did(call)                      the call happened before
//	&structs.T{F: x}               a pointer to a new value with these fields
//	forall(I, n, f)                f holds for every I in [0, n)
//	imp(c, f), any(f, g), !f       connectives
//	now(x.f)                       the contents of x.f at this point, rather than on entry

type point struct {
	x     *Exec
	facts *Facts
	heap  map[*Term]*Term
	env   map[string]*Term
	pos   token.Pos
	desc  string
}

type bind map[string]*Term

type matcher struct {
	k  *Checker
	pt *point
	f  *Facts
	// set if a condition of an implication held
	hit int
}

// pathRe matches the path of a library package with more than one element; parsePat hides the slash from the parser.
var pathRe = regexp.MustCompile(`(^|[^"\w])(crypto|encoding|math)/([a-z0-9]+)\.`)

var ldbRe = regexp.MustCompile(`github\.com/[a-z/]+`)

var patCache = map[string]ast.Expr{}

func parsePat(s string) ast.Expr {
	if e, ok := patCache[s]; ok {
		return e
	}
	src := ldbRe.ReplaceAllStringFunc(s, func(p string) string {
		return strings.ReplaceAll(strings.ReplaceAll(p, "/", "ǀ"), "github.com", "githubǁcom")
	})
	e, err := parser.ParseExpr(pathRe.ReplaceAllString(src, "$1${2}ǀ$3."))
	if err != nil {
		panic(fmt.Sprintf("bad formula %q: %v", s, err))
	}
	patCache[s] = e
	return e
}

func isVar(s string) bool {
	if s == "_" {
		return false
	}
	for _, r := range s {
		if !(r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_') {
			return false
		}
	}
	return s[0] >= 'A' && s[0] <= 'Z'
}

// holds decides a formula; cont is called with every way of satisfying it until it returns true.
func (m *matcher) holds(e ast.Expr, b bind, cont func(bind) bool) bool {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return m.holds(n.X, b, cont)
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			return m.atom(n.X, false, b, cont)
		}
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			return m.holds(n.X, b, func(b bind) bool { return m.holds(n.Y, b, cont) })
		case token.LOR:
			return m.holds(n.X, b, cont) || m.holds(n.Y, b, cont)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.compare(n, b, cont)
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "any":
				for _, a := range n.Args {
					if m.holds(a, b, cont) {
						return true
					}
				}
				return false
			case "all":
				return m.all(n.Args, b, cont)
			case "imp":
				return m.imp(n.Args[0], n.Args[1], b, cont)
			case "forall":
				return m.forall(n, b, cont)
			case "let": // let(X, pattern, f): f holds for some term that the pattern describes
				return m.each(n.Args[1], b, func(t *Term, b bind) bool {
					b2 := bind{}
					for k, v := range b {
						b2[k] = v
					}
					b2[n.Args[0].(*ast.Ident).Name] = t
					return m.holds(n.Args[2], b2, cont)
				})
			case "match":
				// match(x, pattern)
				return m.each(n.Args[0], b, func(t *Term, b bind) bool { return m.match(n.Args[1], t, b, cont) })
			case "mentions":
				return m.each(n.Args[0], b, func(t *Term, b bind) bool {
					found := false
					var visit func(u *Term)
					seen := map[*Term]bool{}
					visit = func(u *Term) {
						if found || seen[u] {
							return
						}
						seen[u] = true
						if m.match(n.Args[1], u, b, cont) {
							found = true
							return
						}
						for _, a := range u.args {
							visit(a)
						}
					}
					visit(t)
					return found
				})
			}
		}
	}
	return m.atom(e, true, b, cont)
}

func (m *matcher) all(es []ast.Expr, b bind, cont func(bind) bool) bool {
	if len(es) == 0 {
		return cont(b)
	}
	return m.holds(es[0], b, func(b bind) bool { return m.all(es[1:], b, cont) })
}

// imp: the condition is refuted, or is assumed and the conclusion follows.
func (m *matcher) imp(c, f ast.Expr, b bind, cont func(bind) bool) bool {
	if cs := conj(c); cs != nil {
		if ls, ok := m.groundLits(cs, b); ok {
			for _, l := range ls {
				if m.f.Proves(l.atom, !l.pos) {
					return cont(b)
				}
			}
			old := m.f
			g := old.clone()
			for _, l := range ls {
				if !g.Proves(l.atom, l.pos) {
					g.add(l.atom, l.pos)
				}
			}
			if g.bad || g.closure().bad {
				return cont(b)
			}
			m.f = g
			m.hit++
			r := m.holds(f, b, func(b bind) bool {
				m.f = old
				r := cont(b)
				m.f = g
				return r
			})
			m.f = old
			return r
		}
	}
	// with variables: for every match
	ok := true
	any := false
	m.holds(c, b, func(b2 bind) bool {
		any = true
		m.hit++
		if !m.holds(f, b2, func(bind) bool { return true }) {
			ok = false
			return true
		}
		return false
	})
	_ = any
	return ok && cont(b)
}

func conj(e ast.Expr) []ast.Expr {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return conj(n.X)
	case *ast.BinaryExpr:
		if n.Op == token.LAND {
			a, b := conj(n.X), conj(n.Y)
			if a == nil || b == nil {
				return nil
			}
			return append(a, b...)
		}
		if n.Op == token.LOR {
			return nil
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "any" || id.Name == "forall" || id.Name == "imp" || id.Name == "let" || id.Name == "match" || id.Name == "mentions") {
			return nil
		}
	}
	return []ast.Expr{e}
}

func (m *matcher) groundLits(es []ast.Expr, b bind) ([]Lit, bool) {
	var out []Lit
	for _, e := range es {
		pos := true
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
				e, pos = u.X, !pos
				continue
			}
			break
		}
		if n, ok := e.(*ast.BinaryExpr); ok {
			switch n.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				x, ok1 := m.ground(n.X, b)
				y, ok2 := m.ground(n.Y, b)
				if !ok1 || !ok2 {
					return nil, false
				}
				t, p := norm(cmpTerm(n.Op, x, y), pos)
				out = append(out, Lit{t, p})
				continue
			}
		}
		t, ok := m.ground(e, b)
		if !ok {
			return nil, false
		}
		t, p := norm(t, pos)
		out = append(out, Lit{t, p})
	}
	return out, true
}

func cmpTerm(op token.Token, x, y *Term) *Term {
	switch op {
	case token.EQL:
		return eqT(x, y)
	case token.NEQ:
		return notT(eqT(x, y))
	case token.LSS:
		return ltT(x, y)
	case token.GTR:
		return ltT(y, x)
	case token.LEQ:
		return notT(ltT(y, x))
	}
	return notT(ltT(x, y))
}

func (m *matcher) forall(n *ast.CallExpr, b bind, cont func(bind) bool) bool {
	v := n.Args[0].(*ast.Ident).Name
	cl := m.f.closure()
	as := m.f.foralls
	for _, a := range m.f.foralls {
		if s := a.shifted(); s != nil {
			as = append(as[:len(as):len(as)], s)
		}
		if s := a.unshifted(); s != nil {
			as = append(as[:len(as):len(as)], s)
		}
	}
	for _, a := range as {
		// the bound of the formula must be covered
		okB := m.each(n.Args[1], b, func(t *Term, b2 bind) bool {
			if cl.canon(t) != cl.canon(a.bound) && !cl.le(t, a.bound) {
				return false
			}
			return m.forallBody(a, v, n.Args[2], b2, func() bool { return cont(b2) })
		})
		if okB {
			return true
		}
	}
	// an empty range
	if t, ok := m.ground(n.Args[1], b); ok && m.f.Proves(ltT(tZeroI, t), false) {
		return cont(b)
	}
	// different loops may establish the parts
	body := n.Args[2]
	for {
		p, ok := body.(*ast.ParenExpr)
		if !ok {
			break
		}
		body = p.X
	}
	if c, ok := body.(*ast.BinaryExpr); ok && c.Op == token.LAND {
		part := func(x ast.Expr) *ast.CallExpr {
			return &ast.CallExpr{Fun: n.Fun, Args: []ast.Expr{n.Args[0], n.Args[1], x}}
		}
		return m.forall(part(c.X), b, func(b bind) bool { return m.forall(part(c.Y), b, cont) })
	}
	return false
}

// shifted states what a says about an index and the one before it about an index and the one after it.
func (a *Forall) shifted() *Forall {
	prev := addC(a.h, big.NewInt(-1))
	found := false
	for _, d := range a.disjuncts {
		for _, l := range d.lits {
			if !found && l.pos && mentions(l.atom, prev) {
				found = true
			}
		}
	}
	if !found {
		return nil
	}
	next := addC(a.h, big.NewInt(1))
	s := &Forall{bound: addC(a.bound, big.NewInt(-1)), h: a.h}
	for _, d := range a.disjuncts {
		s.disjuncts = append(s.disjuncts, substConj(d, a.h, next))
	}
	return s
}

// unshifted states a fact about an index and the one after as one about an index and the one
// before, of which the first has none.
func (a *Forall) unshifted() *Forall {
	next := addC(a.h, big.NewInt(1))
	found := false
	for _, d := range a.disjuncts {
		for _, l := range d.lits {
			if !found && mentions(l.atom, next) {
				found = true
			}
		}
	}
	if !found {
		return nil
	}
	prev := addC(a.h, big.NewInt(-1))
	first := ltT(tInt(0), a.h)
	s := &Forall{bound: addC(a.bound, big.NewInt(1)), h: a.h, disjuncts: []*Conj{{lits: []Lit{{first, false}}}}}
	for _, d := range a.disjuncts {
		c := substConj(d, a.h, prev)
		c.lits = append(c.lits[:len(c.lits):len(c.lits)], Lit{first, true})
		s.disjuncts = append(s.disjuncts, c)
	}
	return s
}

func (m *matcher) forallBody(a *Forall, v string, body ast.Expr, b bind, cont func() bool) bool {
	old := m.f
	defer func() { m.f = old }()
	for _, d := range a.disjuncts {
		g := old.withConj(d)
		g.add(ltT(a.h, a.bound), true)
		for _, l := range a.latches {
			if v, ok := old.lits[l.now]; ok && v == l.init {
				g.add(l.at, l.init)
				g.add(l.next, l.init)
			}
		}
		if g.bad || g.closure().bad {
			continue
		}
		b2 := bind{}
		for k, t := range b {
			b2[k] = t
		}
		b2[v] = a.h
		m.f = g
		if !m.holds(body, b2, func(bind) bool { return true }) {
			m.f = old
			return false
		}
		m.f = old
	}
	return cont()
}

// compare decides x op y.
func (m *matcher) compare(n *ast.BinaryExpr, b bind, cont func(bind) bool) bool {
	x, ok1 := m.ground(n.X, b)
	y, ok2 := m.ground(n.Y, b)
	if ok1 && ok2 {
		if m.f.Proves(cmpTerm(n.Op, x, y), true) {
			return cont(b)
		}
		return false
	}
	// equality with a term of the facts
	if n.Op == token.EQL {
		if ok1 {
			return m.match(n.Y, x, b, cont) || m.eachPattern(n.Y, b, func(t *Term, b bind) bool {
				return m.f.Proves(eqT(x, t), true) && cont(b)
			})
		}
		if ok2 {
			return m.match(n.X, y, b, cont) || m.eachPattern(n.X, b, func(t *Term, b bind) bool {
				return m.f.Proves(eqT(t, y), true) && cont(b)
			})
		}
	}
	return m.each(n.X, b, func(x *Term, b bind) bool {
		return m.each(n.Y, b, func(y *Term, b bind) bool {
			return m.f.Proves(cmpTerm(n.Op, x, y), true) && cont(b)
		})
	})
}

// each enumerates the terms that an expression can stand for.
func (m *matcher) each(e ast.Expr, b bind, f func(*Term, bind) bool) bool {
	if t, ok := m.ground(e, b); ok {
		return f(t, b)
	}
	return m.eachPattern(e, b, f)
}

func (m *matcher) eachPattern(e ast.Expr, b bind, f func(*Term, bind) bool) bool {
	cl := m.f.closure()
	u := cl.universe()
	seen := map[*Term]bool{}
	try := func(t *Term) bool {
		if seen[t] || t.op == "iface" {
			return false
		}
		seen[t] = true
		return m.match1(e, t, b, func(b bind) bool { return f(t, b) })
	}
	for _, t := range cl.sortedUniverse(u) {
		if try(t) {
			return true
		}
	}
	for _, t := range m.pt.extra() {
		if try(t) {
			return true
		}
	}
	return false
}

// extra are the terms of the point itself.
func (p *point) extra() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, n := range sortedNames(p.env) {
		visit(p.env[n])
	}
	return out
}

// atom decides a boolean term.
func (m *matcher) atom(e ast.Expr, pos bool, b bind, cont func(bind) bool) bool {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if n, ok := e.(*ast.BinaryExpr); ok && !pos {
		inv := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
		if o, ok := inv[n.Op]; ok {
			c := *n
			c.Op = o
			return m.compare(&c, b, cont)
		}
	}
	if n, ok := e.(*ast.CallExpr); ok && !pos {
		if id, ok := n.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "any", "all", "imp", "match", "mentions", "did", "let":
				// negation as failure, for formulas about the analysis itself
				if m.holds(e, b, func(bind) bool { return true }) {
					return false
				}
				return cont(b)
			}
		}
	}
	if t, ok := m.ground(e, b); ok {
		if m.f.Proves(t, pos) {
			return cont(b)
		}
		return false
	}
	for _, a := range m.f.order {
		if m.f.lits[a] != pos || a.op == "eq" || a.op == "lt" {
			continue
		}
		if m.match1(e, a, b, cont) {
			return true
		}
	}
	return false
}

func (c *closure) sortedUniverse(u map[*Term][]*Term) []*Term {
	if c.all == nil {
		for _, ms := range u {
			c.all = append(c.all, ms...)
		}
		sortTerms(c.all)
	}
	return c.all
}

// match decides whether a pattern describes t, up to known equalities.
func (m *matcher) match(e ast.Expr, t *Term, b bind, cont func(bind) bool) bool {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return m.match(n.X, t, b, cont)
	case *ast.Ident:
		if n.Name == "_" {
			return cont(b)
		}
		if isVar(n.Name) {
			if o, ok := b[n.Name]; ok {
				if m.same(o, t) {
					return cont(b)
				}
				return false
			}
			b2 := bind{}
			for k, v := range b {
				b2[k] = v
			}
			b2[n.Name] = t
			return cont(b2)
		}
	}
	if g, ok := m.ground(e, b); ok {
		if m.same(g, t) {
			return cont(b)
		}
		if t.op == "iface" && m.same(g, t.args[0]) {
			return cont(b)
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND && t.op == "ref" { // a copy
			return m.match(u.X, t.args[0], b, cont)
		}
		return false
	}
	cl := m.f.closure()
	if m.match1(e, t, b, cont) {
		return true
	}
	c := cl.canon(t)
	if c != t && m.match1(e, c, b, cont) {
		return true
	}
	for _, o := range cl.universe()[c] {
		if o != t && o != c && m.match1(e, o, b, cont) {
			return true
		}
	}
	return false
}

func (m *matcher) same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "iface" && b.op != "iface" {
		a = a.args[0]
	} else if b.op == "iface" && a.op != "iface" {
		b = b.args[0]
	}
	cl := m.f.closure()
	if cl.canon(a) == cl.canon(b) {
		return true
	}
	if numeric(a) && numeric(b) {
		return cl.le(a, b) && cl.le(b, a)
	}
	return false
}

func numeric(t *Term) bool {
	switch t.op {
	case "add", "sum", "bin", "len", "K", "hole":
		return true
	case "const":
		_, ok := intVal(t)
		return ok
	}
	return t.nonneg
}

// match1 matches the outermost shape of t itself.
func (m *matcher) match1(e ast.Expr, t *Term, b bind, cont func(bind) bool) bool {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return m.match1(n.X, t, b, cont)
	case *ast.Ident:
		return m.match(e, t, b, cont)
	case *ast.SelectorExpr:
		if t.op == "f" && t.aux == n.Sel.Name {
			if m.match(n.X, t.args[0], b, cont) {
				return true
			}
			if t.args[0].op == "ld" {
				return m.match(n.X, t.args[0].args[0], b, cont)
			}
		}
		if c, ok := n.X.(*ast.CallExpr); ok && exprName(c.Fun) == "after" { // a field that the call keeps
			call, ok := m.ground(c.Args[0], b)
			id, ok2 := c.Args[1].(*ast.Ident)
			if ok && ok2 && id.Name != "_" {
				return m.match(&ast.SelectorExpr{X: id, Sel: n.Sel}, t, b, func(b bind) bool {
					q := b[id.Name]
					return q != nil && keeps(call, q.typ, n.Sel.Name) && cont(b)
				})
			}
		}
		return false
	case *ast.IndexExpr:
		if t.op == "elem" {
			return m.match(n.X, t.args[0], b, func(b bind) bool { return m.match(n.Index, t.args[1], b, cont) })
		}
		if t.op == "lookup" || t.op == "get" {
			return m.match(n.X, t.args[0], b, func(b bind) bool { return m.match(n.Index, t.args[1], b, cont) })
		}
	case *ast.StarExpr:
		if t.op == "ld" {
			return m.match(n.X, t.args[0], b, cont)
		}
	case *ast.UnaryExpr:
		if n.Op == token.AND {
			if t.op == "iface" {
				t = t.args[0]
			}
			if t.op == "ref" {
				return m.match(n.X, t.args[0], b, cont)
			}
			if t.op == "fa" { // the address of x.f
				if s, ok := n.X.(*ast.SelectorExpr); ok && s.Sel.Name == t.aux {
					return m.match(s.X, t.args[0], b, cont)
				}
			}
			if t.op == "ia" { // the address of x[i]
				if s, ok := n.X.(*ast.IndexExpr); ok {
					return m.match(s.Index, t.args[1], b, func(b bind) bool { return m.match(s.X, t.args[0], b, cont) })
				}
			}
			return false
		}
	case *ast.CompositeLit:
		if t.op == "iface" {
			t = t.args[0]
		}
		if _, ok := n.Type.(*ast.ArrayType); ok {
			if t.op != "lit" || len(t.args) != len(n.Elts) {
				return false
			}
			return m.matchList(n.Elts, t.args, b, cont)
		}
		want := exprName(n.Type)
		base := t
		for base.op == "upd" {
			base = base.args[0]
		}
		if base.op == "zero" && base.aux != want && want != "_" {
			return false
		}
		if base.op != "zero" && want != "_" && (t.typ == nil || typeName(t.typ) != want) {
			return false
		}
		var step func(i int, b bind) bool
		step = func(i int, b bind) bool {
			if i == len(n.Elts) {
				return cont(b)
			}
			kv := n.Elts[i].(*ast.KeyValueExpr)
			return m.match(kv.Value, m.sel(t, kv.Key.(*ast.Ident).Name), b, func(b bind) bool { return step(i+1, b) })
		}
		return step(0, b)
	case *ast.BinaryExpr:
		switch n.Op {
		case token.ADD:
			if lt, ok := n.Y.(*ast.BasicLit); ok && t.op == "add" {
				if t.aux == lt.Value {
					return m.match(n.X, t.args[0], b, cont)
				}
				return false
			}
			if t.op == "sum" && len(t.args) == 2 {
				return m.matchList([]ast.Expr{n.X, n.Y}, t.args, b, cont) || m.matchList([]ast.Expr{n.Y, n.X}, t.args, b, cont)
			}
		case token.SUB:
			if lt, ok := n.Y.(*ast.BasicLit); ok && t.op == "add" {
				if t.aux == "-"+lt.Value {
					return m.match(n.X, t.args[0], b, cont)
				}
				return false
			}
			if t.op == "bin" && t.aux == "-" {
				return m.matchList([]ast.Expr{n.X, n.Y}, t.args, b, cont)
			}
		case token.EQL:
			if t.op == "eq" {
				return m.matchList([]ast.Expr{n.X, n.Y}, t.args, b, cont) || m.matchList([]ast.Expr{n.Y, n.X}, t.args, b, cont)
			}
		case token.LSS:
			if t.op == "lt" {
				return m.matchList([]ast.Expr{n.X, n.Y}, t.args, b, cont)
			}
		default:
			if t.op == "bin" && t.aux == n.Op.String() {
				if m.matchList([]ast.Expr{n.X, n.Y}, t.args, b, cont) {
					return true
				}
				switch n.Op {
				case token.MUL, token.AND, token.OR, token.XOR:
					return m.matchList([]ast.Expr{n.Y, n.X}, t.args, b, cont)
				}
			}
		}
	case *ast.SliceExpr:
		if t.op == "slice" {
			es := []ast.Expr{n.X}
			ts := []*Term{t.args[0]}
			if n.Low != nil {
				es, ts = append(es, n.Low), append(ts, t.args[1])
			} else if t.args[1] != tZeroI {
				return false
			}
			if n.High != nil {
				es, ts = append(es, n.High), append(ts, t.args[2])
			} else if t.args[2] != lenT(t.args[0]) {
				return false
			}
			return m.matchList(es, ts, b, cont)
		}
	case *ast.CallExpr:
		name := exprName(n.Fun)
		if id, ok := n.Fun.(*ast.Ident); ok {
			if strings.HasPrefix(id.Name, "res") {
				if _, err := strconv.Atoi(id.Name[3:]); err == nil {
					if t.op == "res" && t.aux == id.Name[3:] {
						return m.match(n.Args[0], t.args[0], b, cont)
					}
					return false
				}
			}
			if id.Name == "len" {
				if t.op == "len" {
					return m.match(n.Args[0], t.args[0], b, cont)
				}
				return false
			}
			if id.Name == "mentions" {
				found := false
				m.holds(&ast.CallExpr{Fun: n.Fun, Args: append([]ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "term:" + strconv.Itoa(t.id)}}, n.Args...)}, b, func(b bind) bool {
					found = cont(b)
					return found
				})
				return found
			}
			if (id.Name == "as" || id.Name == "is") && len(n.Args) == 2 {
				return t.op == id.Name && t.aux == exprName(n.Args[1]) && m.match(n.Args[0], t.args[0], b, cont)
			}
			if id.Name == "either" { // either(p, q)
				for _, a := range n.Args {
					if m.match(a, t, b, cont) {
						return true
					}
				}
				return false
			}
			if (id.Name == "sha256" || id.Name == "sha512") && len(n.Args) == 1 {
				return t.op == "digest" && t.args[0] == mk("func", "crypto/"+id.Name+".New") && m.match(n.Args[0], t.args[1], b, cont)
			}
			if id.Name == "function" && len(n.Args) == 1 {
				return t.op == "func" && strconv.Quote(t.aux) == n.Args[0].(*ast.BasicLit).Value && cont(b)
			}
			if id.Name == "dynamic" { // the call of a function value
				if t.op != "call" || stripOcc(t.aux) != "dynamic" {
					return false
				}
				args := t.args
				if len(args) > 0 && args[len(args)-1].op == "it" {
					args = args[:len(args)-1]
				}
				return m.matchList(n.Args, args, b, cont)
			}
			// a term operator
			op, aux := id.Name, ""
			if i := strings.IndexByte(op, '_'); i > 0 {
				op, aux = op[:i], op[i+1:]
			}
			if t.op == op && (aux == "" || t.aux == aux) {
				args := t.args
				if len(n.Args) != len(args) && len(args) > 0 && args[len(args)-1].op == "it" {
					args = args[:len(args)-1]
				}
				return m.matchList(n.Args, args, b, cont)
			}
			return false
		}
		if t.op == "iface" {
			t = t.args[0]
		}
		if t.op != "call" || stripInst(stripOcc(t.aux)) != name {
			return false
		}
		args := t.args
		if len(args) > 0 && args[len(args)-1].op == "it" {
			args = args[:len(args)-1]
		}
		if n.Ellipsis != token.NoPos { // f(x...): the first arguments
			return m.matchPrefix(n.Args, args, b, cont)
		}
		if commutes[name] && len(args) >= 2 && len(args) == len(n.Args) {
			other := append([]*Term{args[1], args[0]}, args[2:]...)
			return m.matchList(n.Args, args, b, cont) || m.matchList(n.Args, other, b, cont)
		}
		return m.matchList(n.Args, args, b, cont)
	}
	return false
}

func (m *matcher) matchPrefix(es []ast.Expr, ts []*Term, b bind, cont func(bind) bool) bool {
	if len(es) > len(ts) {
		return false
	}
	return m.matchList(es, ts[:len(es)], b, cont)
}

func stripOcc(s string) string {
	if i := strings.LastIndexByte(s, '#'); i > 0 {
		if _, err := strconv.Atoi(s[i+1:]); err == nil {
			return s[:i]
		}
	}
	return s
}

// stripInst removes the type arguments from the name of an instantiated function.
func stripInst(s string) string {
	if i := strings.IndexByte(s, '['); i > 0 && strings.HasSuffix(s, "]") {
		return s[:i]
	}
	return s
}

func (m *matcher) matchList(es []ast.Expr, ts []*Term, b bind, cont func(bind) bool) bool {
	if len(es) != len(ts) {
		return false
	}
	if len(es) == 0 {
		return cont(b)
	}
	return m.match(es[0], ts[0], b, func(b bind) bool { return m.matchList(es[1:], ts[1:], b, cont) })
}

// exprName renders a function or type name: "log.Root", "(*log.Tree).Append", "db.Store.Get".
func exprName(e ast.Expr) string {
	switch n := e.(type) {
	case *ast.Ident:
		return strings.ReplaceAll(strings.ReplaceAll(n.Name, "ǀ", "/"), "ǁ", ".")
	case *ast.SelectorExpr:
		return exprName(n.X) + "." + n.Sel.Name
	case *ast.ParenExpr:
		return "(" + exprName(n.X) + ")"
	case *ast.StarExpr:
		return "*" + exprName(n.X)
	}
	return "?"
}

// sel selects a field of a value or, through a pointer, of what it points to.
func (m *matcher) sel(t *Term, F string) *Term {
	if t.op == "iface" {
		t = t.args[0]
	}
	if t.op == "ref" {
		t = t.args[0]
	} else if t.op == "alloc" {
		t = m.loadNow(t)
	} else if t.typ != nil {
		if pt, ok := t.typ.Underlying().(*types.Pointer); ok {
			t = mkT("ld", "", pt.Elem(), t)
		}
	}
	return m.selV(t, F)
}

func (m *matcher) selV(t *Term, F string) *Term {
	if t.typ != nil {
		if st, ok := t.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == F {
					r := field(t, F)
					if r.typ == nil {
						r.typ = st.Field(i).Type()
					}
					if isUnsigned(st.Field(i).Type()) {
						r.nonneg = true
					}
					return r
				}
			}
			// promoted
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() && hasField(st.Field(i).Type(), F) {
					return m.sel(m.selV(t, st.Field(i).Name()), F)
				}
			}
		}
	}
	return field(t, F)
}

func hasField(t types.Type, F string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, F)
	if o == nil {
		// unexported
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == F {
				return true
			}
		}
		return false
	}
	_, ok := o.(*types.Var)
	return ok
}

func (m *matcher) loadNow(p *Term) *Term {
	st := &State{heap: m.pt.heap}
	return m.pt.x.snap(st, m.pt.x.load(st, p), 0)
}

// addr is the address that an expression denotes.
func (m *matcher) addr(e ast.Expr, b bind) (*Term, bool) {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return m.addr(n.X, b)
	case *ast.SelectorExpr:
		x, ok := m.nowVal(n.X, b)
		if ok && (x.typ != nil && isPtr(x.typ) || x.op == "alloc" || x.op == "fa") {
			return m.fieldAddrOf(x, n.Sel.Name), true
		}
		a, ok := m.addr(n.X, b)
		if !ok {
			return nil, false
		}
		return m.fieldAddrOf(a, n.Sel.Name), true
	}
	return nil, false
}

func (m *matcher) fieldAddrOf(p *Term, F string) *Term {
	if p.typ != nil {
		if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == F {
						return mkT("fa", F, types.NewPointer(st.Field(i).Type()), p)
					}
				}
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Embedded() && hasField(st.Field(i).Type(), F) {
						return m.fieldAddrOf(fieldAddr(p, st.Field(i).Name()), F)
					}
				}
			}
		}
	}
	return fieldAddr(p, F)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (m *matcher) nowVal(e ast.Expr, b bind) (*Term, bool) {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return m.nowVal(n.X, b)
	case *ast.StarExpr:
		a, ok := m.nowVal(n.X, b)
		if !ok {
			return nil, false
		}
		return m.pt.x.load(&State{heap: m.pt.heap}, a), true
	case *ast.Ident:
		v, ok := m.ground(e, b)
		if ok {
			if k := m.pt.x.kind[v]; k == 's' || k == 'm' {
				if h, ok := m.pt.heap[v]; ok {
					return h, true
				}
			}
		}
		return v, ok
	case *ast.SelectorExpr:
		a, ok := m.addr(n, b)
		if !ok {
			return nil, false
		}
		st := &State{heap: m.pt.heap}
		v := m.pt.x.load(st, a)
		if k := m.pt.x.kind[v]; k == 's' || k == 'm' { // what the slice or map holds
			if h, ok := m.pt.heap[v]; ok {
				return h, true
			}
		}
		return v, true
	}
	return m.ground(e, b)
}

// ground evaluates an expression without unbound variables to a term.
func (m *matcher) ground(e ast.Expr, b bind) (*Term, bool) {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return m.ground(n.X, b)
	case *ast.BasicLit:
		if strings.HasPrefix(n.Value, "term:") {
			id, _ := strconv.Atoi(n.Value[5:])
			for _, t := range in.tab {
				if t.id == id {
					return t, true
				}
			}
		}
		if n.Kind == token.STRING {
			return mk("const", n.Value), true
		}
		return mk("const", n.Value), true
	case *ast.Ident:
		switch n.Name {
		case "nil":
			return tNil, true
		case "true":
			return tTrue, true
		case "false":
			return tFalse, true
		case "_":
			return nil, false
		}
		if t, ok := b[n.Name]; ok {
			return t, true
		}
		if t, ok := m.pt.env[n.Name]; ok {
			return t, true
		}
		if isVar(n.Name) {
			return nil, false
		}
		panic("unknown name " + n.Name + " in a formula")
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if c, ok := m.k.constant(id.Name, n.Sel.Name); ok {
				return c, true
			}
			if strings.Contains(id.Name, "ǁ") { // an error of a library
				return mk("err", "@"+exprName(n)), true
			}
		}
		x, ok := m.ground(n.X, b)
		if !ok {
			return nil, false
		}
		return m.sel(x, n.Sel.Name), true
	case *ast.StarExpr:
		x, ok := m.ground(n.X, b)
		if !ok {
			return nil, false
		}
		if x.op == "ref" {
			return x.args[0], true
		}
		if x.op == "ia" {
			return elemT(x.args[0], x.args[1]), true
		}
		t := mkT("ld", "", derefType(x.typ), x)
		if x.nonneg || x.typ != nil && derefType(x.typ) != nil && isUnsigned(derefType(x.typ)) {
			t.nonneg = true
		}
		return t, true
	case *ast.UnaryExpr:
		if n.Op == token.SUB {
			x, ok := m.ground(n.X, b)
			if !ok {
				return nil, false
			}
			return sub(tZeroI, x), true
		}
		if n.Op == token.AND {
			if s, ok := n.X.(*ast.SelectorExpr); ok {
				x, ok := m.ground(s.X, b)
				if !ok {
					return nil, false
				}
				if x.op == "ref" || x.op == "alloc" {
					return nil, false
				}
				if x.typ != nil && isPtr(x.typ) {
					return m.fieldAddrOf(x, s.Sel.Name), true
				}
				if x.op == "f" || x.op == "ld" { // the address of a nested field
					if p := valueAddr(x); p != nil {
						return fieldAddr(p, s.Sel.Name), true
					}
				}
				return nil, false
			}
			return nil, false
		}
	case *ast.IndexExpr:
		x, ok := m.ground(n.X, b)
		if !ok {
			return nil, false
		}
		i, ok := m.ground(n.Index, b)
		if !ok {
			return nil, false
		}
		if x.typ != nil {
			switch u := x.typ.Underlying().(type) {
			case *types.Map:
				return lookupT(x, i), true
			case *types.Slice:
				t := elemT(x, i)
				if t.typ == nil {
					t.typ = u.Elem()
				}
				return t, true
			}
		}
		return elemT(x, i), true
	case *ast.BinaryExpr:
		x, ok := m.ground(n.X, b)
		if !ok {
			return nil, false
		}
		y, ok := m.ground(n.Y, b)
		if !ok {
			return nil, false
		}
		switch n.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return cmpTerm(n.Op, x, y), true
		case token.ADD:
			return sum(x, y), true
		case token.SUB:
			return sub(x, y), true
		}
		return binT(n.Op.String(), x, y), true
	case *ast.SliceExpr:
		x, ok := m.ground(n.X, b)
		if !ok {
			return nil, false
		}
		var lo, hi *Term
		if n.Low != nil {
			if lo, ok = m.ground(n.Low, b); !ok {
				return nil, false
			}
		}
		if n.High != nil {
			if hi, ok = m.ground(n.High, b); !ok {
				return nil, false
			}
		}
		return sliceT(x, lo, hi), true
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok {
			if ty, ok := strings.CutPrefix(id.Name, "narrow_"); ok {
				x, ok := m.ground(n.Args[0], b)
				if !ok {
					return nil, false
				}
				return mk("narrow", ty, x), true
			}
			for _, op := range []string{"enc", "rd", "rest", "rderr", "text"} { // what the model of a buffer is made of
				tag, ok := strings.CutPrefix(id.Name, op+"_")
				if !ok {
					continue
				}
				var args []*Term
				for _, a := range n.Args {
					x, ok := m.ground(a, b)
					if !ok {
						return nil, false
					}
					args = append(args, x)
				}
				t := mk(op, tag, args...)
				if op == "rd" && strings.HasPrefix(tag, "u") {
					t.nonneg = true
				}
				return t, true
			}
			switch id.Name {
			case "as", "is":
				x, ok := m.ground(n.Args[0], b)
				if !ok {
					return nil, false
				}
				if x.op == "iface" {
					if x.aux == exprName(n.Args[1]) {
						if id.Name == "as" {
							return x.args[0], true
						}
						return tTrue, true
					} else if id.Name == "is" {
						return tFalse, true
					}
				}
				return mk(id.Name, exprName(n.Args[1]), x), true
			case "now":
				return m.nowVal(n.Args[0], b)
			case "len":
				x, ok := m.ground(n.Args[0], b)
				if !ok {
					return nil, false
				}
				return lenT(x), true
			case "at": // what an iteration would append to the list
				x, ok := m.ground(n.Args[0], b)
				e, ok2 := m.ground(n.Args[1], b)
				if !ok || !ok2 || x.op != "fcomp" && x.op != "comp" {
					return nil, false
				}
				return substT(x.args[1], compHole(x), e), true
			case "iter": // the value of a loop variable in another iteration
				x, ok := m.ground(n.Args[0], b)
				e, ok2 := m.ground(n.Args[1], b)
				if !ok || !ok2 || x.op != "lv" {
					return nil, false
				}
				return substT(x, x.args[0], e), true
			case "has":
				x, ok := m.ground(n.Args[0], b)
				y, ok2 := m.ground(n.Args[1], b)
				if !ok || !ok2 {
					return nil, false
				}
				return hasT(x, y), true
			case "lookup":
				x, ok := m.ground(n.Args[0], b)
				y, ok2 := m.ground(n.Args[1], b)
				if !ok || !ok2 {
					return nil, false
				}
				return lookupT(x, y), true
			case "cat":
				var xs []*Term
				for _, a := range n.Args {
					x, ok := m.ground(a, b)
					if !ok {
						return nil, false
					}
					if bl, ok := a.(*ast.BasicLit); ok && bl.Kind == token.INT {
						x = lit(x) // a single byte
					}
					xs = append(xs, x)
				}
				return cat(xs...), true
			case "sha256", "sha512":
				x, ok := m.ground(n.Args[0], b)
				if !ok {
					return nil, false
				}
				return mk("digest", "", mk("func", "crypto/"+id.Name+".New"), x), true
			case "elems": // a slice literal
				var xs []*Term
				for _, a := range n.Args {
					x, ok := m.ground(a, b)
					if !ok {
						return nil, false
					}
					xs = append(xs, x)
				}
				return lit(xs...), true
			case "deep": // a value with what it points to
				x, ok := m.ground(n.Args[0], b)
				if !ok {
					return nil, false
				}
				return m.pt.x.snap(&State{heap: m.pt.heap}, x, 0), true
			case "deref":
				x, ok := m.ground(n.Args[0], b)
				if !ok {
					return nil, false
				}
				if x.op == "ref" {
					return x.args[0], true
				}
				if x.op == "alloc" {
					return m.loadNow(x), true
				}
				return mkT("ld", "", derefType(x.typ), x), true
			}
			if strings.HasPrefix(id.Name, "res") {
				if _, err := strconv.Atoi(id.Name[3:]); err == nil {
					x, ok := m.ground(n.Args[0], b)
					if !ok {
						return nil, false
					}
					return mk("res", id.Name[3:], x), true
				}
			}
			return nil, false
		}
		// a pure call is determined by its arguments
		name := exprName(n.Fun)
		fn := m.k.p.fns[name]
		if i := strings.LastIndexByte(name, '.'); fn == nil && i > 0 && n.Ellipsis == token.NoPos && pureMethod(name[:i], name[i+1:]) {
			var args []*Term // a method of an interface
			for _, a := range n.Args {
				x, ok := m.ground(a, b)
				if !ok || x.op == "alloc" {
					return nil, false
				}
				args = append(args, x)
			}
			return mkT("call", name, nil, args...), true
		}
		if i := strings.IndexByte(name, '.'); fn == nil && i > 0 && valueShort[name[:i]] {
			var args []*Term // a method of a value type
			for _, a := range n.Args {
				x, ok := m.ground(a, b)
				if !ok {
					return nil, false
				}
				args = append(args, x)
			}
			if commutes[name] {
				order(args, 0)
			}
			return mkT("call", name, nil, args...), true
		}
		if n.Ellipsis != token.NoPos || fn == nil && !(purelib(name) && strings.Contains(name, "/")) || fn != nil && !m.k.p.isPure(fn) {
			return nil, false
		}
		var args []*Term
		for _, a := range n.Args {
			x, ok := m.ground(a, b)
			if !ok {
				return nil, false
			}
			args = append(args, x)
		}
		if fn == nil {
			return mkT("call", name, nil, args...), true
		}
		if len(args) != len(fn.Params) {
			panic("wrong number of arguments for " + name)
		}
		for i := range args {
			if args[i].op == "alloc" && !(i == 0 && fn.Signature.Recv() != nil) {
				st := &State{heap: m.pt.heap}
				args[i] = m.pt.x.snap(st, args[i], 0)
			}
			if _, ok := fn.Params[i].Type().Underlying().(*types.Interface); ok && args[i].op != "iface" && args[i].op != "nil" {
				return nil, false // the dynamic type is part of the term
			}
		}
		t := mkT("call", name, nil, args...)
		if fn.Signature.Results().Len() == 1 {
			if t.typ == nil {
				t.typ = fn.Signature.Results().At(0).Type()
			}
			if isUnsigned(fn.Signature.Results().At(0).Type()) {
				t.nonneg = true
			}
		}
		return t, true
	}
	return nil, false
}

func valueAddr(x *Term) *Term {
	switch x.op {
	case "ld":
		return x.args[0]
	case "f":
		if p := valueAddr(x.args[0]); p != nil {
			return fieldAddr(p, x.aux)
		}
	}
	return nil
}
