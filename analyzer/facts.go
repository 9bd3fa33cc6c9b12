package main

import (
	"math/big"
	"sort"
)

// Forall states that for every integer h in [0, bound) one of the disjuncts holds. A disjunct is
// a conjunction of literals and of further Foralls.
type Forall struct {
	bound     *Term
	h         *Term
	disjuncts []*Conj
	latches   []latch
}

// latch describes a value that changes at most once: while now is still init, at and next are.
type latch struct {
	now, at, next *Term
	init          bool
}

type Conj struct {
	lits    []Lit
	foralls []*Forall
}

type Lit struct {
	atom *Term
	pos  bool
}

func (l Lit) String() string { return litString(l.atom, l.pos) }

// Facts is a conjunction of literals that hold at a program point.
type Facts struct {
	lits    map[*Term]bool
	order   []*Term
	foralls []*Forall
	cl      *closure
	bad     bool // contradictory
	shared  bool
}

func newFacts() *Facts { return &Facts{lits: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	g := &Facts{lits: make(map[*Term]bool, len(f.lits)+4), bad: f.bad, cl: f.cl}
	for k, v := range f.lits {
		g.lits[k] = v
	}
	g.order = f.order[:len(f.order):len(f.order)]
	g.foralls = f.foralls[:len(f.foralls):len(f.foralls)]
	return g
}

func norm(t *Term, pos bool) (*Term, bool) {
	for t.op == "not" {
		t, pos = t.args[0], !pos
	}
	return t, pos
}

// add assumes a literal. It returns false if the literal contradicts what is known.
func (f *Facts) add(t *Term, pos bool) bool {
	t, pos = norm(t, pos)
	if t == tTrue || t == tFalse {
		if (t == tTrue) != pos {
			f.bad = true
		}
		return !f.bad
	}
	if v, ok := f.lits[t]; ok {
		if v != pos {
			f.bad = true
		}
		return !f.bad
	}
	if v, ok := f.quick(t); ok && v != pos {
		f.bad = true
		return false
	}
	f.lits[t] = pos
	f.order = append(f.order, t)
	f.cl = nil
	if pos && t.op == "eq" {
		for _, n := range successFacts(t) {
			if !f.add(n, false) {
				return false
			}
		}
	}
	return true
}

func (f *Facts) addForall(a *Forall) {
	f.foralls = append(f.foralls, a)
	f.cl = nil
}

// quick decides an atom from the literals themselves, without congruence.
func (f *Facts) quick(t *Term) (val, known bool) {
	if t == tTrue || t == tFalse {
		return t == tTrue, true
	}
	if t.op == "not" {
		v, ok := f.quick(t.args[0])
		return !v, ok
	}
	if v, ok := f.lits[t]; ok {
		return v, true
	}
	switch t.op {
	case "is":
		if concrete[t.aux] {
			for _, o := range f.order {
				if o.op == "is" && o.args[0] == t.args[0] && o != t && f.lits[o] && concrete[o.aux] {
					return false, true
				}
			}
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		if a.op == "const" || a.op == "nil" {
			a, b = b, a
		}
		if b.op == "const" || b.op == "nil" {
			// another constant is known
			for _, o := range f.order {
				if o.op == "eq" && f.lits[o] {
					x, y := o.args[0], o.args[1]
					if x == a && isConst(y) && y != b || y == a && isConst(x) && x != b {
						return false, true
					}
				}
			}
			if a.op == "phi" {
				return false, false
			}
		}
		if nonNil(a) && b == tNil {
			return false, true
		}
	case "lt":
		x, y := t.args[0], t.args[1]
		// 0 <= x
		if n, ok := intVal(y); ok && n.Sign() <= 0 && x.nonneg {
			return false, true
		}
		if n, ok := intVal(x); ok && n.Sign() < 0 && y.nonneg {
			return true, true
		}
	}
	if t.op == "lt" || t.op == "eq" {
		if v, ok := f.zoneQuick(t); ok {
			return v, true
		}
	}
	return false, false
}

// zoneQuick decides t from the comparisons that mention the same operands.
func (f *Facts) zoneQuick(t *Term) (val, known bool) {
	a, b := t.args[0], t.args[1]
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	// value: ba + ca ? bb + cb. Bounds on ba - bb.
	var lo, hi *big.Int // lo <= ba-bb <= hi
	var not []*big.Int  // ba-bb is none of these
	upd := func(o *Term, pos bool) {
		if o.op != "lt" && o.op != "eq" {
			return
		}
		x, cx := splitAdd(o.args[0])
		y, cy := splitAdd(o.args[1])
		d := new(big.Int).Sub(cy, cx) // x - y ? d
		swap := false
		if x == bb && y == ba {
			swap = true
		} else if x != ba || y != bb {
			return
		}
		setHi := func(v *big.Int) {
			if swap {
				w := new(big.Int).Neg(v)
				if lo == nil || w.Cmp(lo) > 0 {
					lo = w
				}
			} else if hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
		setLo := func(v *big.Int) {
			if swap {
				w := new(big.Int).Neg(v)
				if hi == nil || w.Cmp(hi) < 0 {
					hi = w
				}
			} else if lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		switch {
		case o.op == "eq" && pos:
			setHi(d)
			setLo(d)
		case o.op == "eq":
			if swap {
				d = new(big.Int).Neg(d)
			}
			not = append(not, d)
		case pos: // x - y < d
			setHi(new(big.Int).Sub(d, big.NewInt(1)))
		default: // x - y >= d
			setLo(d)
		}
	}
	if ba != nil && bb == nil && ba.nonneg {
		lo = new(big.Int)
	}
	if bb != nil && ba == nil && bb.nonneg {
		hi = new(big.Int)
	}
	for _, o := range f.order {
		upd(o, f.lits[o])
	}
	one := big.NewInt(1)
	for more := true; more; {
		more = false
		for _, d := range not {
			if lo != nil && lo.Cmp(d) == 0 {
				lo, more = new(big.Int).Add(lo, one), true
			}
			if hi != nil && hi.Cmp(d) == 0 {
				hi, more = new(big.Int).Sub(hi, one), true
			}
		}
	}
	want := new(big.Int).Sub(cb, ca) // compare ba-bb with want
	if t.op == "lt" {
		if hi != nil && hi.Cmp(want) < 0 {
			return true, true
		}
		if lo != nil && lo.Cmp(want) >= 0 {
			return false, true
		}
		return false, false
	}
	if hi != nil && hi.Cmp(want) < 0 || lo != nil && lo.Cmp(want) > 0 {
		return false, true
	}
	if hi != nil && lo != nil && hi.Cmp(want) == 0 && lo.Cmp(want) == 0 {
		return true, true
	}
	return false, false
}

// closure is the congruence closure of a fact set, with a zone of difference constraints.
type closure struct {
	f      *Facts
	parent map[*Term]*Term
	memo   map[*Term]*Term
	atoms  map[*Term]bool
	edges  map[*Term]map[*Term]*big.Int // edges[x][y] = c means x - y <= c  (zero node is tZeroI)
	class  map[*Term][]*Term            // representative -> members among the known terms
	all    []*Term
	bad    bool
}

func (f *Facts) closure() *closure {
	if f.cl == nil {
		f.cl = buildClosure(f)
	}
	return f.cl
}

func better(a, b *Term) bool { // a is the better representative
	ca, cb := isConst(a), isConst(b)
	if ca != cb {
		return ca
	}
	if a.size != b.size {
		return a.size < b.size
	}
	return a.id < b.id
}

func (c *closure) find(t *Term) *Term {
	for {
		p, ok := c.parent[t]
		if !ok {
			return t
		}
		t = p
	}
}

func (c *closure) canon(t *Term) *Term {
	if r, ok := c.memo[t]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 {
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = c.canon(a)
			if args[i] != a {
				same = false
			}
		}
		if !same {
			r = rebuild(t, args)
			if r != t && t.nonneg {
				r.nonneg = true
			}
		}
	}
	for i := 0; i < 8; i++ {
		p := c.find(r)
		if p == r {
			break
		}
		r = p
		if len(r.args) > 0 {
			if q, ok := c.memo[r]; ok {
				r = q
			}
		}
	}
	c.memo[t] = r
	return r
}

func buildClosure(f *Facts) *closure {
	c := &closure{f: f, parent: map[*Term]*Term{}, memo: map[*Term]*Term{}}
	for round := 0; round < 6; round++ {
		changed := false
		c.memo = map[*Term]*Term{}
		for _, a := range f.order {
			if a.op != "eq" || !f.lits[a] {
				continue
			}
			x, y := c.canon(a.args[0]), c.canon(a.args[1])
			if x == y {
				continue
			}
			if x.op == "const" && y.op == "const" {
				c.bad = true
				continue
			}
			if better(y, x) {
				x, y = y, x
			}
			if mentions(y, x) && !isConst(x) && y.size > x.size && x.op != "sym" {
				// still terminating: y is larger and is replaced by x
			}
			if b, k := splitAdd(y); b != nil && k.Sign() != 0 && x.op == "K" && !mentions(y, x) {
				x, y = y, x // a counter is described by the bound it reached
			} else if b != nil && b.op == "lv" && k.Sign() != 0 && !mentions(x, b) {
				// a loop variable is described by what it is offset from
				x, y = addC(x, new(big.Int).Neg(k)), b
			}
			c.parent[y] = x
			changed = true
			c.memo = map[*Term]*Term{}
		}
		if !changed {
			break
		}
	}
	c.atoms = map[*Term]bool{}
	c.edges = map[*Term]map[*Term]*big.Int{}
	for _, a := range f.order {
		pos := f.lits[a]
		n, p := norm(c.canon(a), pos)
		if n == tTrue || n == tFalse {
			if (n == tTrue) != p && !(a.op == "eq" && pos) {
				c.bad = true
			}
		} else {
			c.atoms[n] = p
		}
		if a.op == "lt" || a.op == "eq" {
			c.zoneAdd(a, pos)
		}
	}
	// a <= b and a != b give a < b
	for _, a := range f.order {
		if a.op != "eq" || f.lits[a] || a.args[0] == tNil || a.args[1] == tNil {
			continue
		}
		x, y := a.args[0], a.args[1]
		if isBoolish(x) || isBoolish(y) {
			continue
		}
		if c.le(x, y) {
			if c.le(y, x) {
				c.bad = true
			}
			c.zoneAdd(ltT(x, y), true)
		} else if c.le(y, x) {
			c.zoneAdd(ltT(y, x), true)
		}
	}
	return c
}

func (c *closure) edge(x, y *Term, w *big.Int) { // x - y <= w
	m := c.edges[x]
	if m == nil {
		m = map[*Term]*big.Int{}
		c.edges[x] = m
	}
	if o, ok := m[y]; !ok || w.Cmp(o) < 0 {
		m[y] = w
	}
}

func (c *closure) node(t *Term) (*Term, *big.Int) {
	b, k := splitAdd(c.canon(t))
	if b == nil {
		b = tZeroI
	}
	return b, k
}

func (c *closure) zoneAdd(a *Term, pos bool) {
	if a.op != "lt" && a.op != "eq" {
		return
	}
	x, cx := c.node(a.args[0])
	y, cy := c.node(a.args[1])
	if x == y {
		return
	}
	d := new(big.Int).Sub(cy, cx)
	switch {
	case a.op == "eq" && pos:
		if a.args[0] == tNil || a.args[1] == tNil {
			return
		}
		c.edge(x, y, d)
		c.edge(y, x, new(big.Int).Neg(d))
	case a.op == "eq":
		// x != y: sharpens a non-strict bound
		// handled at query time
	case pos:
		c.edge(x, y, new(big.Int).Sub(d, big.NewInt(1)))
	default:
		c.edge(y, x, new(big.Int).Neg(d))
	}
}

// dist is the best upper bound of x - y.
func (c *closure) dist(x, y *Term) *big.Int {
	if x == y {
		return new(big.Int)
	}
	// Bellman-Ford from x along edges x->y meaning x - y <= w
	best := map[*Term]*big.Int{x: new(big.Int)}
	work := []*Term{x}
	steps := 0
	for len(work) > 0 && steps < 4000 {
		steps++
		u := work[0]
		work = work[1:]
		relax := func(v *Term, w *big.Int) {
			n := new(big.Int).Add(best[u], w)
			if o, ok := best[v]; !ok || n.Cmp(o) < 0 {
				best[v] = n
				work = append(work, v)
			}
		}
		for v, w := range c.edges[u] {
			relax(v, w)
		}
		if u == tZeroI { // 0 - v <= 0 for non-negative v
			if y.nonneg {
				relax(y, new(big.Int))
			}
			for v := range c.edges {
				if v.nonneg {
					relax(v, new(big.Int))
				}
			}
		}
	}
	return best[y]
}

func (c *closure) prove(t *Term, pos bool) bool {
	if c.bad {
		return true
	}
	n, p := norm(c.canon(t), pos)
	if n == tTrue || n == tFalse {
		return (n == tTrue) == p
	}
	if v, ok := c.atoms[n]; ok {
		return v == p
	}
	switch n.op {
	case "is":
		if !p && concrete[n.aux] {
			for o, v := range c.atoms {
				if v && o.op == "is" && o != n && o.args[0] == n.args[0] && concrete[o.aux] {
					return true
				}
			}
		}
		return false
	case "eq":
		a, b := n.args[0], n.args[1]
		if a == tNil || b == tNil {
			x := a
			if a == tNil {
				x = b
			}
			if x.op == "phi" {
				return false
			}
			return !p && nonNil(x)
		}
		if !p && (isBoolish(a) || isBoolish(b)) {
			return c.prove(a, true) && c.prove(b, false) || c.prove(a, false) && c.prove(b, true)
		}
		if !p {
			if v, ok := c.atoms[ltT(a, b)]; ok && v {
				return true
			}
			if v, ok := c.atoms[ltT(b, a)]; ok && v {
				return true
			}
			return c.lt(a, b) || c.lt(b, a)
		}
		if isBoolish(a) || isBoolish(b) {
			if a == t || b == t {
				return false
			}
			for _, v := range []bool{true, false} {
				if c.prove(a, v) && (c.prove(b, v)) {
					return p
				}
			}
			return false
		}
		return c.le(a, b) && c.le(b, a)
	case "lt":
		a, b := n.args[0], n.args[1]
		if p {
			if c.lt(a, b) {
				return true
			}
			// a <= b and a != b
			if c.le(a, b) {
				e, ep := norm(c.canon(eqT(a, b)), false)
				if v, ok := c.atoms[e]; ok && v == ep {
					return true
				}
			}
			return false
		}
		return c.le(b, a)
	}
	return false
}

func isBoolish(t *Term) bool { return t == tTrue || t == tFalse }

func (c *closure) lt(a, b *Term) bool { // a < b
	x, cx := c.node(a)
	y, cy := c.node(b)
	d := c.dist(x, y)
	if d == nil {
		return false
	}
	// x - y <= d; want x + cx < y + cy, i.e. x - y <= cy - cx - 1
	w := new(big.Int).Sub(cy, cx)
	return d.Cmp(w) < 0
}

func (c *closure) le(a, b *Term) bool {
	x, cx := c.node(a)
	y, cy := c.node(b)
	d := c.dist(x, y)
	if d == nil {
		return false
	}
	return d.Cmp(new(big.Int).Sub(cy, cx)) <= 0
}

// Proves reports whether the literal follows.
func (f *Facts) Proves(t *Term, pos bool) bool {
	t, pos = norm(t, pos)
	if f.bad {
		return true
	}
	if t == tTrue || t == tFalse {
		return (t == tTrue) == pos
	}
	if v, ok := f.lits[t]; ok {
		return v == pos
	}
	if t.op == "eq" && (comparison(t.args[0]) || comparison(t.args[1])) {
		// two conditions, each of which may be decided
		for _, v := range []bool{true, false} {
			if f.Proves(t.args[0], v) && f.Proves(t.args[1], v == pos) {
				return true
			}
		}
	}
	return f.closure().prove(t, pos)
}

// members lists the known terms, for matching patterns.
func (c *closure) universe() map[*Term][]*Term {
	if c.class != nil {
		return c.class
	}
	c.class = map[*Term][]*Term{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		r := c.canon(t)
		c.class[r] = append(c.class[r], t)
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, a := range c.f.order {
		visit(a)
		visit(c.canon(a))
	}
	// what the quantified facts mention and does not depend on the iteration
	fseen := map[*Term]bool{}
	var fvisit func(t *Term)
	fvisit = func(t *Term) {
		if seen[t] || fseen[t] {
			return
		}
		fseen[t] = true
		if closedTerm(t, nil) {
			visit(t)
			return
		}
		for _, a := range t.args {
			fvisit(a)
		}
	}
	for _, a := range c.f.foralls {
		for _, d := range a.disjuncts {
			for _, l := range d.lits {
				fvisit(l.atom)
			}
		}
	}
	for _, m := range c.class {
		sort.Slice(m, func(i, j int) bool { return m[i].id < m[j].id })
	}
	return c.class
}

// closedTerm reports whether t mentions no iteration other than those that its own lists range over.
func closedTerm(t *Term, bound []*Term) bool {
	if t.op == "hole" {
		for _, b := range bound {
			if b == t {
				return true
			}
		}
		return false
	}
	switch t.op {
	case "comp", "fcomp", "mcomp", "fmcomp":
		bound = append(append([]*Term(nil), bound...), compHole(t))
	}
	for _, a := range t.args {
		if !closedTerm(a, bound) {
			return false
		}
	}
	return true
}

// withConj adds a conjunction.
func (f *Facts) withConj(c *Conj) *Facts {
	g := f.clone()
	for _, l := range c.lits {
		g.add(l.atom, l.pos)
	}
	for _, a := range c.foralls {
		g.addForall(a)
	}
	return g
}

// join keeps what both imply.
func joinFacts(a, b *Facts) *Facts {
	g := newFacts()
	if a.bad {
		return b.clone()
	}
	if b.bad {
		return a.clone()
	}
	for _, t := range a.order {
		if b.Proves(t, a.lits[t]) {
			g.lits[t] = a.lits[t]
			g.order = append(g.order, t)
		}
	}
	for _, t := range b.order {
		if _, ok := g.lits[t]; ok {
			continue
		}
		if a.Proves(t, b.lits[t]) {
			g.lits[t] = b.lits[t]
			g.order = append(g.order, t)
		}
	}
	for _, x := range a.foralls {
		for _, y := range b.foralls {
			if x == y {
				g.foralls = append(g.foralls, x)
				break
			}
		}
	}
	return g
}
