package main

import (
	"fmt"
	"go/token"
)

// bitShape is a set of inputs of one shape, with what the function has to give for them.
type bitShape struct {
	name   string
	args   []word
	want   word
	panics bool
}

// nodeOfLevel is every node of a level: the bits above the level are free, those below are set.
func nodeOfLevel(k, first int) word {
	x := word{w: 64}
	for i := range 64 {
		switch {
		case i < k:
			x.b[i] = 1
		case i > k:
			x.b[i] = symBit(first + i)
		}
	}
	return x
}

// sizeOf is every number whose highest bit is hi and whose lowest is lo.
func sizeOf(hi, lo, first int) word {
	x := word{w: 64}
	for i := range 64 {
		switch {
		case i == hi || i == lo:
			x.b[i] = 1
		case lo < i && i < hi:
			x.b[i] = symBit(first + i)
		}
	}
	return x
}

func (x word) with(i int, b bit) word { x.b[i] = b; return x }

func boolWord(c bool) word {
	if c {
		return wconst(1, 1)
	}
	return wconst(0, 1)
}

// arith holds the function to what it has to give on every shape.
func (k *Checker) arith(rule, name string, shapes []bitShape) {
	k.rules = append(k.rules, rule)
	fn := k.p.fns[name]
	if fn == nil || k.p.base.isLost(name) {
		k.undecided("anchor", name, "the function is not there any more in the form the rules know")
		return
	}
	k.funcs[name] = true
	bad, open := "", ""
	for _, s := range shapes {
		k.obls++
		k.sites++
		good := true
		failed := k.bitCases(fn, s.args, s.want, func(res bitResult, want word) {
			if bad != "" {
				return
			}
			in := ""
			for i, a := range res.args {
				if i > 0 {
					in += ", "
				}
				in += a.String()
			}
			if res.panics != s.panics {
				good = false
				bad = fmt.Sprintf("%s (%s): it panics: %v, expected: %v", s.name, in, res.panics, s.panics)
				return
			}
			if res.panics {
				return
			}
			got := res.out[0]
			if got.same(want) {
				return
			}
			good = false
			if got.cond != nil || want.cond != nil {
				if w := condWitness(got, want); w != "" {
					bad = fmt.Sprintf("%s (%s): it gives %s, expected %s: they differ %s", s.name, in, got, want, w)
				} else {
					open = fmt.Sprintf("%s: %s is not shown to be %s", s.name, got, want)
				}
				return
			}
			for i := 0; i < want.w; i++ {
				if a, b := got.b[i], want.b[i]; a != b && a != bUnknown && b != bUnknown {
					bad = fmt.Sprintf("%s (%s): it gives %s, expected %s", s.name, in, got, want)
					return
				}
			}
			open = fmt.Sprintf("%s: %s is not shown to be %s", s.name, got, want)
		})
		if failed != "" {
			good = false
			open = s.name + ": " + failed
		}
		if good {
			k.proved++
		}
		if bad != "" {
			break
		}
	}
	switch {
	case bad != "":
		k.violatePos(rule, fn.Pos(), "%s is wrong for %s", name, bad)
	case open != "":
		k.undecided(rule, name, open)
	}
}

// condWitness finds values of the symbols for which two conditions differ.
func condWitness(a, b word) string {
	for n := range 64 {
		x, y := a, b
		for i := range 200 {
			v := bit(0)
			switch {
			case n == 0:
			case n == 1:
				v = 1
			case n < 33:
				if i%64 >= n*2-4 {
					v = 1
				}
			default:
				if (i*i*7+i*n*13+n*n)%11 < n%11 {
					v = 1
				}
			}
			x, y = x.subst(symBit(i), v), y.subst(symBit(i), v)
		}
		p, ok := x.truth()
		q, ok2 := y.truth()
		if ok && ok2 && p != q {
			s := func(w word) string {
				if w.cond != nil {
					return fmt.Sprintf("%s %s %s", w.cond.l, w.cond.op, w.cond.r)
				}
				return w.String()
			}
			return fmt.Sprintf("at %s (%v) and %s (%v)", s(x), p, s(y), q)
		}
	}
	return ""
}

func (x word) truth() (bool, bool) {
	if x.cond == nil {
		v, ok := x.value()
		return v == 1, ok
	}
	l, ok := x.cond.l.value()
	r, ok2 := x.cond.r.value()
	if !ok || !ok2 || x.cond.l.neg {
		return false, false
	}
	v := l < r
	if x.cond.op == token.EQL {
		v = l == r
	}
	return v != x.cond.not, true
}

// nodes makes a case for each level of a node, the first to the last.
func nodes(first, last int, f func(k int, x word) (want word, panics bool)) []bitShape {
	var out []bitShape
	for k := first; k <= last; k++ {
		x := nodeOfLevel(k, 0)
		w, p := f(k, x)
		out = append(out, bitShape{fmt.Sprintf("a node of level %d", k), []word{x}, w, p})
	}
	return out
}

// sizes makes a case for each highest and lowest bit of a number, and one for zero.
func sizes(zero word, f func(hi, lo int, n word) word) []bitShape {
	out := []bitShape{{"zero", []word{wconst(0, 64)}, zero, false}}
	for hi := range 64 {
		for lo := 0; lo <= hi; lo++ {
			n := sizeOf(hi, lo, 0)
			out = append(out, bitShape{fmt.Sprintf("a number with the bits %d to %d", lo, hi), []word{n}, f(hi, lo, n), false})
		}
	}
	return out
}

func init() {
	register("C30", ``, func(k *Checker) {
		ones := func(n int) word {
			x := word{w: 64}
			for i := range n {
				x.b[i] = 1
			}
			return x
		}
		for _, pkg := range []struct{ name, level, right, parent string }{
			{"logmath", "Level", "RightStep", "ParentStep"},
			{"math", "level", "rightStep", "parentStep"},
		} {
			m := pkg.name + "."
			k.arith("tree.leaf", m+"IsLeaf", nodes(0, 63, func(l int, x word) (word, bool) { return boolWord(l == 0), false }))
			k.arith("tree.level", m+pkg.level, nodes(0, 63, func(l int, x word) (word, bool) { return wconst(uint64(l), 64), false }))
			k.arith("tree.left", m+"Left", nodes(0, 63, func(l int, x word) (word, bool) {
				if l == 0 {
					return word{}, true
				}
				return x.with(l-1, 0), false
			}))
			k.arith("tree.right", m+pkg.right, nodes(0, 63, func(l int, x word) (word, bool) {
				if l == 0 {
					return word{}, true
				}
				return x.with(l-1, 0).with(l, 1), false
			}))
			k.arith("tree.parent", m+pkg.parent, nodes(0, 62, func(l int, x word) (word, bool) { return x.with(l, 1).with(l+1, 0), false }))
			k.arith("tree.log", m+"log2", sizes(wconst(0, 64), func(hi, lo int, n word) word { return wconst(uint64(hi), 64) }))
		}
		// the search tree has an entry at each of its n nodes
		k.arith("tree.root", "math.Root", sizes(ones(0), func(hi, lo int, n word) word { return ones(hi) })[1:])
		// the log tree has n leaves
		k.arith("tree.width", "logmath.nodeWidth", sizes(ones(0), func(hi, lo int, n word) word {
			w := ones(lo + 1)
			for i := lo + 1; i < 63; i++ {
				w.b[i+1] = n.b[i]
			}
			return w
		}))
		leaves := sizes(ones(0), func(hi, lo int, n word) word {
			if hi > lo {
				return ones(hi + 1)
			}
			return ones(hi)
		})
		// sizes are at most 2^63
		k.arith("tree.root", "logmath.Root", append(leaves[1:1+63*64/2:1+63*64/2], leaves[len(leaves)-1]))
		k.arith("tree.chunk", "logmath.Chunk", nodes(0, 63, func(l int, x word) (word, bool) {
			t := l | 3
			for i := range t {
				x.b[i] = 1
			}
			return x.with(t, 0), false
		}))
		var full []bitShape
		for l := range 63 {
			for lo := range 63 {
				x := nodeOfLevel(l, 100)
				x.b[63] = 0
				for i := l + 1; i < 63; i++ {
					x.b[i] = symBit(100 + i)
				}
				n := sizeOf(62, lo, 0)
				if lo < 62 {
					n.b[62] = symBit(62)
				}
				// the last leaf below the node, and the last leaf of the tree
				a := x
				if l > 0 {
					a = x.with(l, 1).with(0, 0)
				}
				b := word{w: 64}
				for i := 1; i < 64; i++ {
					switch j := i - 1; {
					case j < lo:
						b.b[i] = 1
					case j > lo:
						b.b[i] = n.b[j]
					}
				}
				want := word{w: 1, cond: &bcond{token.LSS, b, a, true}}
				if known, v, _ := wless(b, a); known {
					want = boolWord(!v)
				}
				full = append(full, bitShape{fmt.Sprintf("a node of level %d in a tree whose size has the lowest bit %d", l, lo), []word{x, n}, want, false})
			}
		}
		k.arith("tree.full", "logmath.IsFullSubtree", full)

		// what loops over the steps: the steps themselves are decided above
		for _, pkg := range []struct{ name, left, right, parent, end string }{
			{"logmath", "Left", "RightStep", "ParentStep", "logmath.nodeWidth(p1)"},
			{"math", "Left", "rightStep", "parentStep", "p1"},
		} {
			m := pkg.name + "."
			prim := []opt{opaque(m + "Left"), opaque(m + pkg.right), opaque(m + pkg.parent), opaque(m + "Root"), opaque(m + "nodeWidth")}
			walk := func(first, step string) string {
				return `let(R, lv(K), ret0 == R && iter(R, 0) == ` + m + first + `(p0) && ret0 < ` + pkg.end + ` && forall(I, K, iter(R, I) >= ` + pkg.end + ` && iter(R, I + 1) == ` + m + step + `(iter(R, I))))`
			}
			k.when(m+"Right", func(r *Run) {
				k.shaped("tree.right.within", r.all(), `let(R, lv(K), R == R)`, walk(pkg.right, pkg.left))
			}, prim...)
			k.when(m+"Parent", func(r *Run) {
				k.shaped("tree.parent.within", r.all(), `let(R, lv(K), R == R)`, walk(pkg.parent, pkg.parent))
				k.need("tree.parent.root", r.all(), 1, `p0 != `+m+`Root(p1)`)
			}, prim...)
		}
		k.when("logmath.Sibling", func(r *Run) {
			k.need("tree.sibling", r.all(), 2, `let(P, logmath.Parent(p0, p1), any(p0 < P && ret0 == logmath.Right(P, p1), P <= p0 && ret0 == logmath.Left(P)))`)
		}, opaque("logmath.Parent"), opaque("logmath.Right"), opaque("logmath.Left"))
		k.when("logmath.DirectPath", func(r *Run) {
			k.shaped("tree.path", r.all(), `match(ret0, comp(K, _))`, `match(ret0, comp(K, _)) && let(Y, lv(K), iter(Y, 0) == p0 && iter(Y, K) == logmath.Root(p1) && forall(I, K, ret0[I] == iter(Y, I + 1) && iter(Y, I + 1) == logmath.Parent(iter(Y, I), p1)))`)
		}, opaque("logmath.Parent"), opaque("logmath.Root"))
		k.when("logmath.Copath", func(r *Run) {
			k.need("tree.copath.length", r.all(), 1, `any(len(ret0) == 0 && p0 == logmath.Root(p1), let(D, logmath.DirectPath(p0, p1), len(ret0) == len(D)))`)
			k.shaped("tree.copath", k.sel(r.all(), `p0 != logmath.Root(p1)`), `match(ret0, fill(_, _, _)[:_])`, `let(D, logmath.DirectPath(p0, p1), any(len(D) <= 0, match(ret0, fill(cat(lit(p0), D), len(D), logmath.Sibling(cat(lit(p0), D)[_], p1))[:len(D)])))`)
		}, opaque("logmath.DirectPath"), opaque("logmath.Sibling"), opaque("logmath.Root"))
		k.when("logmath.FullSubtrees", func(r *Run) {
			k.shaped("tree.subtrees", r.all(), `match(ret0, cat(comp(K, _), lit(_)))`, `match(ret0, cat(C, lit(L))) && match(C, comp(K, _)) && let(Y, lv(K), Y == L && iter(Y, 0) == p0 && logmath.IsFullSubtree(L, p1) && forall(I, K, !logmath.IsFullSubtree(iter(Y, I), p1) && at(C, I) == logmath.Left(iter(Y, I)) && iter(Y, I + 1) == logmath.Right(iter(Y, I), p1)))`)
		}, opaque("logmath.IsFullSubtree"), opaque("logmath.Left"), opaque("logmath.Right"))
		k.when("logmath.batchCopath", func(r *Run) {
			k.need("batch.copath", r.all(), 4, `any(
				len(p2) == 0 && ret0 == logmath.FullSubtrees(p0, p1),
				len(p2) == 1 && p2[0] == p0 && has(p3, p0) && match(ret0, lit(p0)),
				len(p2) == 1 && p2[0] == p0 && !has(p3, p0) && len(ret0) == 0,
				match(ret0, cat(logmath.batchCopath(logmath.Left(p0), p1, p2[:I], p3), logmath.batchCopath(logmath.Right(p0, p1), p1, p2[J:], p3))) && match(I, res0(S)) && any(res1(S) && J == I + 1, !res1(S) && J == I) && any(len(p2) != 1, p2[0] != p0))`)
		}, opaque("logmath.batchCopath"), opaque("logmath.FullSubtrees"), opaque("logmath.Left"), opaque("logmath.Right"))
		k.when("logmath.BatchCopath", func(r *Run) {
			k.need("batch.root", r.all(), 1, `match(ret0, logmath.batchCopath(logmath.Root(p1), p1, sorted(_), _))`)
			leaves := `mcomp(mempty(), len(p0), p0[_] << 1, _)`
			trees := func(m, p string) string {
				return `mcomp(` + m + `, len(logmath.FullSubtrees(logmath.Root(*` + p + `), *` + p + `)), logmath.FullSubtrees(logmath.Root(*` + p + `), *` + p + `)[_], _)`
			}
			for _, c := range []struct{ when, nodes, include string }{
				{`p2 == nil && p3 == nil`, leaves, `mempty()`},
				{`p2 != nil && p3 == nil`, trees(leaves, "p2"), trees(`mempty()`, "p2")},
				{`p2 == nil && p3 != nil`, trees(leaves, "p3"), `mempty()`},
				{`p2 != nil && p3 != nil`, trees(trees(leaves, "p2"), "p3"), trees(`mempty()`, "p2")},
			} {
				k.shaped("batch.nodes", k.sel(r.all(), c.when), `match(ret0, logmath.batchCopath(_, _, sorted(comp(_, mkey(mcomp(_, _, _, _), _))), _))`,
					`match(ret0, logmath.batchCopath(_, _, sorted(comp(_, mkey(`+c.nodes+`, _))), `+c.include+`))`)
			}
		}, opaque("logmath.batchCopath"), opaque("logmath.FullSubtrees"), opaque("logmath.Root"))
		k.when("math.LeftDirectPath", func(r *Run) {
			k.shaped("path.left", r.all(), `any(match(ret0, fcomp(K, _, ID)), match(ret0, comp(K, _)), len(ret0) == 0)`, `match(ret0, fcomp(K, _, ID)) && let(Y, lv(K), iter(Y, 0) == p0 && iter(Y, K) == math.Root(p0 + 1) && forall(I, K, at(ret0, I) == iter(Y, I + 1) && iter(Y, I + 1) == math.parentStep(iter(Y, I)) && any(kept(ID, I) && iter(Y, I + 1) < p0, !kept(ID, I) && iter(Y, I + 1) >= p0)))`)
		}, opaque("math.parentStep"), opaque("math.Root"))
		k.when("math.RightDirectPath", func(r *Run) {
			k.shaped("path.right", r.all(), `any(match(ret0, fcomp(K, _, ID)), match(ret0, comp(K, _)), len(ret0) == 0)`, `match(ret0, fcomp(K, _, ID)) && let(Y, lv(K), iter(Y, 0) == p0 && iter(Y, K) == math.Root(p1) && forall(I, K, at(ret0, I) == iter(Y, I + 1) && iter(Y, I + 1) == math.Parent(iter(Y, I), p1) && any(kept(ID, I) && iter(Y, I + 1) > p0, !kept(ID, I) && iter(Y, I + 1) <= p0)))`)
		}, opaque("math.Parent"), opaque("math.Root"))
		down := `forall(I, K, len(iter(O, I)) != 0 && iter(O, I)[len(iter(O, I)) - 1] + 1 != p0 && iter(O, I + 1) == cat(iter(O, I), lit(math.Right(iter(O, I)[len(iter(O, I)) - 1], p0))))`
		k.when("math.Frontier", func(r *Run) {
			k.shaped("frontier", r.all(), `let(O, lv(K), ret0 == O)`, `let(O, lv(K), ret0 == O && iter(O, 0) == lit(math.Root(p0)) && O[len(O) - 1] + 1 == p0 && forall(I, K, iter(O, I)[len(iter(O, I)) - 1] + 1 != p0 && iter(O, I + 1) == cat(iter(O, I), lit(math.Right(iter(O, I)[len(iter(O, I)) - 1], p0)))))`)
		}, opaque("math.Right"), opaque("math.Root"))
		k.when("math.UpdateView", func(r *Run) {
			k.need("view.same", k.sel(r.all(), `ret0 == nil`), 1, `p1 != nil && *p1 == p0`)
			k.shaped("view", k.sel(r.all(), `any(p1 == nil, *p1 != p0)`), `let(O, lv(K), ret0 == O)`, `let(O, lv(K), ret0 == O && any(len(O) == 0, O[len(O) - 1] + 1 == p0) && any(
				any(p1 == nil, *p1 == 0) && iter(O, 0) == lit(math.Root(p0)),
				p1 != nil && *p1 != 0 && iter(O, 0) == math.RightDirectPath(*p1 - 1, p0)) && `+down+`)`)
		}, opaque("math.Right"), opaque("math.Root"), opaque("math.RightDirectPath"))
	})
}
