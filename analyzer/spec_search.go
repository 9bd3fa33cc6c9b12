package main

import "strings"

// provider marks the methods of the data provider as calls that are looked at from outside.
func provider(more ...string) opt {
	var ns []string
	for _, n := range []string{"GetTimestamp", "GetSearchBinaryLadder", "GetMonitoringBinaryLadder", "GetInclusionProof"} {
		ns = append(ns, "(*algorithms.DataProvider)."+n)
	}
	m := memo(append(ns, more...)...)
	return func(x *Exec) {
		m(x)
		opaqueTypes["algorithms.DataProvider"] = true
	}
}

const dpTS = "(*algorithms.DataProvider).GetTimestamp"
const DPIncl = "(*algorithms.DataProvider).GetInclusionProof"
const dpSBL = "(*algorithms.DataProvider).GetSearchBinaryLadder"

func init() {
	register("C10", ``, func(k *Checker) {
		r := k.root("algorithms.UpdateView", provider())
		k.need("view.size", r.oks(), 1, `any(p2 == nil, *p2 <= p1)`)
		nz := k.sel(r.oks(), `p1 != 0`)
		k.need("view.timestamps", nz, 1, `let(U, math.UpdateView(p1, p2), forall(I, len(U), let(T, `+dpTS+`(p3, U[I]), did(T) && res1(T) == nil)))`)
		k.need("view.clock", nz, 1, `let(T, `+dpTS+`(p3, p1 - 1), did(T) && res1(T) == nil && let(NOW, (time.Time).UnixMilli(time.Now()), any(NOW <= res0(T), NOW - res0(T) <= p0.MaxBehind) && any(res0(T) <= NOW, res0(T) - NOW <= p0.MaxAhead)))`)
		r = k.root("algorithms.UpdateView", provider(), apart())
		k.need("view.refused", r.errs(), 3, `any(p2 != nil && *p2 > p1, let(U, math.UpdateView(p1, p2), let(T, `+dpTS+`(p3, U[_]), did(T) && ret0 == res1(T))), let(T, `+dpTS+`(p3, p1 - 1), did(T) && any(ret0 == res1(T), res1(T) == nil && let(NOW, (time.Time).UnixMilli(time.Now()), any(NOW > res0(T) && NOW - res0(T) > p0.MaxBehind, NOW < res0(T) && res0(T) - NOW > p0.MaxAhead)))))`)
	})
	register("C11", ``, func(k *Checker) {
		tok := strings.NewReplacer("$TS", dpTS, "$SBL", dpSBL)
		at := func(x string) string { return `$SBL(p3, ` + x + `, p1, true)` }
		okAt := func(x string) string { return `let(S, ` + at(x) + `, did(S) && res1(S) == nil && res0(S) RES)` }
		_ = okAt
		r := k.root("algorithms.GreatestVersionSearch", provider("algorithms.RightmostDistinguished"))
		k.need("greatest.rightmost", r.oks(), 2, tok.Replace(`p2 != 0 && let(S, `+at("p2 - 1")+`, did(S) && res1(S) == nil && res0(S) == 0)`))
		k.need("greatest.path", r.oks(), 2, tok.Replace(`let(S, `+at("Z")+`, match(Z, lv(K)) && Z == p2 - 1 && let(Y, iter(Z, 0), any(Y == math.Root(p2), let(R, algorithms.RightmostDistinguished(p0, p2, p3), res1(R) == nil && res0(R) != nil && Y == *res0(R)))) &&
			forall(I, K, let(X, iter(Z, I), iter(Z, I + 1) == math.Right(X, p2) && let(L, `+at("X")+`, did(L) && res1(L) == nil && res0(L) != 1))))`))
		k.need("greatest.terminal", r.oks(), 2, tok.Replace(`any(let(S, `+at("ret0")+`, did(S) && res1(S) == nil && res0(S) == 0), let(S, `+at("Z")+`, match(Z, lv(K)) && match(ret0, lv(K)) &&
			forall(I, K, any(iter(ret0, I + 1) == iter(ret0, I), let(L, `+at("iter(Z, I)")+`, did(L) && res0(L) == 0 && iter(ret0, I + 1) == iter(Z, I))))))`))

		k.need("greatest.children", r.calls("math.Right"), 1, `arg0 != p2 - 1 && arg1 == p2`)

		const exp = `(*structs.Config).IsExpired(&p0.Config, res0($TS(p3, X)), res0($TS(p3, p2 - 1)))`
		r = k.root("algorithms.FixedVersionSearch", provider(), capped(128))
		k.need("fixed.size", r.oks(), 2, tok.Replace(`p2 != 0 && let(T, $TS(p3, p2 - 1), did(T) && res1(T) == nil)`))
		// the search path
		step := `let(X, iter(Z, I), let(T, $TS(p3, X), did(T) && res1(T) == nil && any(
			` + exp + ` && iter(Z, I + 1) == math.Right(X, p2) && !did(` + at("X") + `),
			!` + exp + ` && let(L, ` + at("X") + `, did(L) && res1(L) == nil && any(res0(L) == -1 && iter(Z, I + 1) == math.Right(X, p2), res0(L) == 1 && iter(Z, I + 1) == math.Left(X))))))`
		k.need("fixed.path", r.oks(), 2, tok.Replace(`let(T, $TS(p3, Z), match(Z, lv(K)) && did(T) && res1(T) == nil && iter(Z, 0) == math.Root(p2) && forall(I, K, `+step+`))`))
		now := k.sel(r.oks(), `!did(`+DPIncl+`(p3, _, _))`)
		k.need("fixed.equal", now, 1, tok.Replace(`let(S, `+at("ret0")+`, did(S) && res1(S) == nil && res0(S) != -1 && res0(S) != 1)`))
		_ = now
		// an expired log entry on the path is accepted only with an unexpired distinguished one to the left
		const dist = `(*structs.Config).IsDistinguished(&p0.Config, `
		marked := `forall(I, K, imp(kept(ID, I), !` + strings.ReplaceAll(exp, "X", "iter(Z, I)") + ` && ` + dist + `iter(L, I), iter(R, I))))`
		bounds := `iter(L, 0) == 0 && iter(R, 0) == res0($TS(p3, p2 - 1)) && forall(I, K, let(T, res0($TS(p3, iter(Z, I))), any(
			iter(Z, I + 1) == math.Right(iter(Z, I), p2) && iter(L, I + 1) == T && iter(R, I + 1) == iter(R, I),
			iter(Z, I + 1) == math.Left(iter(Z, I)) && iter(L, I + 1) == iter(L, I) && iter(R, I + 1) == T)))`
		older := func(op string) string {
			return `let(D, _, match(D, fcomp(K, _, ID)) && let(L, lv(0), let(R, lv(0), ` + bounds + ` && ` + marked + ` && any(
				let(Y, D[_], Y ` + op + ` ret0),
				let(Y, cat(D, elems(Z))[_], Y ` + op + ` ret0) && !` + strings.ReplaceAll(exp, "X", "Z") + ` && ` + dist + `iter(L, K), iter(R, K))))))`
		}
		fresh := `let(E, lv(K), !E && forall(I, K, !` + strings.ReplaceAll(exp, "X", "iter(Z, I)") + `)) && !` + strings.ReplaceAll(exp, "X", "Z")
		k.need("fixed.expired", now, 1, tok.Replace(`let(S, `+at("Z")+`, match(Z, lv(K)) && Z == ret0 && any(`+fresh+`, `+older("<=")+`))`))
		fin := k.sel(r.oks(), `did(`+DPIncl+`(p3, _, _))`)
		k.need("fixed.inclusion", fin, 1, `let(S, `+DPIncl+`(p3, ret0, elems(p1)), did(S) && S == nil)`)
		k.need("fixed.terminal", fin, 1, tok.Replace(`let(S, $TS(p3, Z), match(Z, lv(K)) && any(ret0 == Z && res0(`+at("Z")+`) >= 0, match(ret0, lv(K)) && forall(I, K, any(iter(ret0, I + 1) == iter(ret0, I),
			iter(ret0, I + 1) == iter(Z, I) && let(L, `+at("iter(Z, I)")+`, did(L) && res0(L) >= 0)))))`))
		k.need("fixed.children", r.calls("math.Right"), 1, `!math.IsLeaf(arg0) && arg0 != p2 - 1 && arg1 == p2`)
		k.need("fixed.children", r.calls("math.Left"), 1, `!math.IsLeaf(arg0)`)
		k.need("fixed.exhausted", fin, 1, tok.Replace(`let(S, $TS(p3, Z), match(Z, lv(K)) && any(math.IsLeaf(Z), Z == p2 - 1 && any(`+strings.ReplaceAll(exp, "X", "Z")+`, res0(`+at("Z")+`) == -1)))`))
		k.need("fixed.expired", fin, 1, tok.Replace(`let(S, $TS(p3, Z), match(Z, lv(K)) && any(`+fresh+`, `+older("<")+`))`))
		ra := k.root("algorithms.FixedVersionSearch", provider(), apart(), capped(256))
		gone := k.sel(ra.errs(), `ret1 == algorithms.ErrLabelExpired`)
		k.need("fixed.refused", gone, 1, tok.Replace(`let(T, $TS(p3, Z), match(Z, lv(K)) && any(`+strings.ReplaceAll(exp, "X", "Z")+`, let(E, lv(K), E)))`))
		const D = `(*structs.Config).IsDistinguished(&p0.Config, `
		r = k.root("algorithms.RightmostDistinguished", provider(), apart())
		last := `let(RM, $TS(p2, p1 - 1), did(RM) && res1(RM) == nil && `
		k.need("rightmost.none", k.sel(r.oks(), `ret0 == nil`), 2, tok.Replace(`any(p1 == 0, `+last+`!`+D+`0, res0(RM))))`))
		some := k.sel(r.oks(), `ret0 != nil`)
		k.need("rightmost.path", some, 2, tok.Replace(last+D+`0, res0(RM)) && let(Z, lv(K), *ret0 == Z && iter(Z, 0) == math.Root(p1) && any(Z == p1 - 1, let(T, $TS(p2, Z), did(T) && res1(T) == nil && !`+D+`res0(T), res0(RM)))) &&
			forall(I, K, let(T, $TS(p2, iter(Z, I)), did(T) && res1(T) == nil && `+D+`res0(T), res0(RM)) && iter(Z, I + 1) == math.Right(iter(Z, I), p1)))))`))
		r = k.root("algorithms.PreviousRightmost", provider("algorithms.RightmostDistinguished"), apart())
		k.need("previous.other", r.oks(), 3, tok.Replace(`let(R, algorithms.RightmostDistinguished(p0, p1, p2), did(R) && res1(R) == nil && any(
			any(res0(R) == nil, *res0(R) != p1 - 1) && ret0 == res0(R),
			*res0(R) == p1 - 1 && let(X, *res0(R), let(TR, $TS(p2, X), did(TR) && res1(TR) == nil && any(X == math.Root(p1), let(TP, $TS(p2, math.Parent(X, p1)), did(TP) && res1(TP) == nil)) && any(math.IsLeaf(X) && any(X == math.Root(p1) && ret0 == nil, X != math.Root(p1) && ret0 != nil && *ret0 == math.Parent(X, p1)), let(DS, (*structs.Config).IsDistinguished(&p0.Config, LB, res0(TR)), any(X == math.Root(p1) && LB == 0, X != math.Root(p1) && LB == res0($TS(p2, math.Parent(X, p1)))) && any(
				!DS && any(X == math.Root(p1) && ret0 == nil, X != math.Root(p1) && ret0 != nil && *ret0 == math.Parent(X, p1)),
				!math.IsLeaf(X) && DS && ret0 != nil && let(Z, lv(K), *ret0 == Z && iter(Z, 0) == math.Left(X) && any(Z == p1 - 1, math.IsLeaf(Z), let(T, $TS(p2, Z), did(T) && res1(T) == nil && !`+D+`res0(T), res0(TR)))) &&
					forall(I, K, let(T, $TS(p2, iter(Z, I)), did(T) && res1(T) == nil && `+D+`res0(T), res0(TR)) && iter(Z, I + 1) == math.Right(iter(Z, I), p1)))))))))))`))
	})
}
