package main

import "strings"

// C31: the binary ladders: which versions of a label are looked up, what the results say, and which lookups may be left out.

func init() {
	register("C31", ``, func(k *Checker) {
		f := strings.NewReplacer("$BASE", "math.baseBinaryLadder(p0)", "$IN", "prefix.PrefixSearchResult.Inclusion").Replace

		// every version up to the target has to be there, and the search closes in on the first that is not
		k.when("math.baseBinaryLadder", func(r *Run) {
			form := `match(ret0, cat(O, lit(P), C)) && match(C, comp(J, _))`
			k.shaped("ladder.powers", r.all(), form, form+` && P + 1 == 1 << len(O) && let(Q, lv(K), Q == O && len(iter(Q, 0)) == 0 && forall(I, K, iter(Q, I + 1) == cat(iter(Q, I), lit((1 << len(iter(Q, I))) - 1))))`)
			k.shaped("ladder.until", r.all(), form, form+` && any(p0 < P, 1 << len(O) == 4294967296) && let(Q, lv(K), Q == O && forall(I, K, (1 << len(iter(Q, I))) - 1 <= p0 && 1 << len(iter(Q, I)) != 4294967296))`)
			mid := `iter(L, I) + ((iter(U, I) - iter(L, I)) / 2)`
			k.shaped("ladder.bisect", r.all(), form, form+` && let(L, lv(J), let(U, lv(J), iter(U, 0) == P && match(iter(L, 0), X[len(O) - 1]) && match(X, cat(O, lit(P))) && U <= L + 1 && forall(I, J, iter(L, I) + 1 < iter(U, I) && at(C, I) == `+mid+` && any(
				p0 < `+mid+` && iter(L, I + 1) == iter(L, I) && iter(U, I + 1) == `+mid+`,
				`+mid+` <= p0 && iter(L, I + 1) == `+mid+` && iter(U, I + 1) == iter(U, I)))))`)
		})
		k.when("math.SearchBinaryLadder", func(r *Run) {
			form := `any(match(ret0, fcomp(J, _, ID)), match(ret0, cat(fcomp(J, _, ID), lit(_))))`
			asked := `any(kept(ID, I) && !has(p2, $BASE[I]) && !has(p3, $BASE[I]), !kept(ID, I) && any(has(p2, $BASE[I]), has(p3, $BASE[I])))`
			goes := `any($BASE[I] <= p1 && $BASE[I] <= p0, $BASE[I] > p1 && $BASE[I] > p0)`
			k.shaped("search.versions", r.all(), form, f(form+` && forall(I, J, `+asked+`)`))
			k.shaped("search.order", r.all(), form, f(`any(match(ret0, C) && match(C, fcomp(J, _, ID)), match(ret0, cat(C, lit($BASE[J]))) && match(C, fcomp(J, _, ID))) && forall(I, J, at(C, I) == $BASE[I])`))
			k.shaped("search.until", r.all(), form, f(form+` && forall(I, J, `+goes+`)`))
			ends := `J < len($BASE) && any($BASE[J] <= p1 && $BASE[J] > p0, $BASE[J] > p1 && $BASE[J] <= p0)`
			k.shaped("search.ends", r.all(), form, f(`any(
				match(ret0, fcomp(J, _, ID)) && J == len($BASE),
				match(ret0, fcomp(J, _, ID)) && `+ends+` && any(has(p2, $BASE[J]), has(p3, $BASE[J])),
				match(ret0, cat(fcomp(J, _, ID), lit(_))) && `+ends+` && !has(p2, $BASE[J]) && !has(p3, $BASE[J]))`))
		}, opaque("math.baseBinaryLadder"))
		k.when("math.MonitoringBinaryLadder", func(r *Run) {
			form := `match(ret0, fcomp(J, _, ID))`
			k.shaped("monitoring.versions", r.all(), form, f(`match(ret0, fcomp(len($BASE), _, ID)) && forall(I, len($BASE), at(ret0, I) == $BASE[I] && any(kept(ID, I) && $BASE[I] <= p0, !kept(ID, I) && $BASE[I] > p0))`))
		}, opaque("math.baseBinaryLadder"))

		// what the results of a search ladder say
		k.when("math.InterpretSearchLadder", func(r *Run) {
			agrees := func(n string) string {
				return `forall(I, ` + n + `, I < len(p2.Results) && any($IN(p2.Results[I]) && p0[I] <= p1, !$IN(p2.Results[I]) && p0[I] > p1))`
			}
			k.need("result.length", r.oks(), 3, `len(p2.Results) <= len(p0)`)
			k.need("result.equal", k.sel(r.oks(), `ret0 == 0`), 1, f(agrees(`len(p0)`)))
			last := ` && J < len(p0) && J + 1 == len(p2.Results) && ` + agrees(`J`)
			k.need("result.greater", k.sel(r.oks(), `ret0 == 1`), 1, f(`$IN(p2.Results[J]) && p0[J] > p1`+last))
			k.need("result.less", k.sel(r.oks(), `ret0 == -1`), 1, f(`!$IN(p2.Results[J]) && p0[J] <= p1`+last))
			k.need("result.refused", r.errs(), 1, f(`any(len(p2.Results) > len(p0), J < len(p0) && J >= len(p2.Results), J < len(p0) && J + 1 != len(p2.Results) && any($IN(p2.Results[J]) && p0[J] > p1, !$IN(p2.Results[J]) && p0[J] <= p1))`))
			k.need("result.values", r.oks(), 3, `any(ret0 == 0, ret0 == 1, ret0 == -1)`)
		}, apart())

		// which lookups were made where
		for _, m := range []struct{ fn, rule, in, out, ver string }{
			{"AddResults", "tracker.results", `$IN(p3[I])`, `!$IN(p3[I])`, `p2`},
			{"AddLadder", "tracker.ladder", `p3[I] <= p2`, `p3[I] > p2`, `p3`},
		} {
			k.when("(*math.VersionTracker)."+m.fn, func(r *Run) {
				k.need(m.rule+".off", k.sel(r.all(), `!p1`), 1, `now(recv.inclusion) == recv.inclusion && now(recv.nonInclusion) == recv.nonInclusion`)
				k.need(m.rule, k.sel(r.all(), `p1`), 1, f(`match(now(recv.inclusion), cat(recv.inclusion, lit(A))) && match(now(recv.nonInclusion), cat(recv.nonInclusion, lit(B))) && A.pos == p0 && B.pos == p0 && match(A.vers, fcomp(len(p3), _, X)) && match(B.vers, fcomp(len(p3), _, Y)) && forall(I, len(p3), at(A.vers, I) == `+m.ver+`[I] && at(B.vers, I) == `+m.ver+`[I] && any(
					kept(X, I) && !kept(Y, I) && `+m.in+`, !kept(X, I) && kept(Y, I) && `+m.out+`))`))
			})
		}
		k.when("(*math.VersionTracker).SearchMaps", func(r *Run) {
			k.need("tracker.none", k.sel(r.all(), `!p1`), 1, `len(ret0) == 0 && len(ret1) == 0`)
			for _, m := range []struct{ rule, ret, field, yes, no string }{
				{"tracker.left", "ret0", "inclusion", "< p0", ">= p0"},
				{"tracker.right", "ret1", "nonInclusion", "> p0", "<= p0"},
			} {
				e := `recv.` + m.field + `[I]`
				k.shaped(m.rule, k.sel(r.all(), `p1`), `any(match(iter(`+m.ret+`, 0), _), `+m.ret+` == mempty())`, `iter(`+m.ret+`, 0) == mempty() && forall(I, len(recv.`+m.field+`), any(
					`+e+`.pos `+m.yes+` && iter(`+m.ret+`, I + 1) == mcomp(iter(`+m.ret+`, I), len(`+e+`.vers), `+e+`.vers[_], _),
					`+e+`.pos `+m.no+` && iter(`+m.ret+`, I + 1) == iter(`+m.ret+`, I)))`)
			}
		})
		for _, m := range []struct{ typ, is string }{{"inclusionProof", "true"}, {"nonInclusionLeafProof", "false"}, {"nonInclusionParentProof", "false"}} {
			k.when("(prefix."+m.typ+").Inclusion", func(r *Run) {
				k.need("result.kind", r.all(), 1, `ret0 == `+m.is)
			})
		}
	})
}
