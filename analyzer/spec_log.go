package main

import "strings"

func init() {
	const V = "(*log.Verifier)."
	const ADD, EVAL = V + "addToMap", V + "evaluate"
	tok := strings.NewReplacer("$ADD", ADD, "$EVAL", EVAL, "$MAX", "9223372036854775808", "$HS", "suites.CipherSuite.HashSize")
	register("C13", `A log proof is accepted only if it is complete, well-formed and agrees with everything retained; every node value is recomputed from its children with unambiguous leaf and parent hashing.`, func(k *Checker) {
		r := k.root(V+"Retain", apart())
		const subs = `logmath.FullSubtrees(logmath.Root(p0), p0)`
		k.need("retain.check", r.oks(), 1, tok.Replace(`p0 != 0 && p0 <= $MAX && len(p1) == len(`+subs+`) && forall(I, len(p1), len(p1[I]) == $HS(recv.cs))`))
		k.need("retain.state", r.oks(), 1, `now(recv.prev) != nil && deref(now(recv.prev)) == p0 && now(recv.subtrees) == `+subs+` && now(recv.values) == p1`)
		k.need("retain.atomic", r.errs(), 3, `now(recv.prev) == recv.prev && now(recv.subtrees) == recv.subtrees && now(recv.values) == recv.values`)

		if k.p.fns[ADD] != nil && k.p.fns[EVAL] != nil {
			r = k.root(V+"Evaluate", opaque(ADD, EVAL))
			k.need("evaluate.sizes", r.oks(), 2, tok.Replace(`p1 != 0 && p1 <= $MAX && any(p2 == nil, *p2 != 0 && *p2 <= p1) && len(p0) == len(p3) && forall(I, len(p0), p0[I] < p1)`))
			k.need("evaluate.complete", r.oks(), 2, `let(C, logmath.BatchCopath(p0, p1, p2, recv.prev), len(p4) == len(C))`)
			final := `let(E, $EVAL(recv, logmath.Root(p1), p1, M, S), did(E) && E == nil && `
			k.need("evaluate.leaves", r.oks(), 2, tok.Replace(final+`let(Z, lv(0), Z == mempty() && forall(I, len(p0), let(A, $ADD(recv, iter(Z, I), 2 * p0[I], p3[I]), did(A) && A == nil && iter(Z, I + 1) == after(A, 0)))))`))
			k.need("evaluate.retained", r.oks(), 2, tok.Replace(final+`let(Z, lv(0), forall(I, len(recv.subtrees), let(A, $ADD(recv, iter(Z, I), recv.subtrees[I], recv.values[I]), did(A) && A == nil && iter(Z, I + 1) == after(A, 0)))))`))
			k.need("evaluate.copath", r.oks(), 2, tok.Replace(final+`let(Z, lv(0), let(C, logmath.BatchCopath(p0, p1, p2, recv.prev), forall(I, len(C), let(A, $ADD(recv, iter(Z, I), C[I], p4[I]), did(A) && A == nil && iter(Z, I + 1) == after(A, 0))))))`))
			k.need("evaluate.nodes", r.oks(), 2, tok.Replace(final+`match(S, sorted(L)) && match(L, comp(N, mkey(M, _))) && N == len(M))`))
			k.need("evaluate.result", r.oks(), 2, tok.Replace(final+`match(ret0, comp(N, get(R, X[_]).value)) && match(R, after(E, 0)) && X == logmath.FullSubtrees(logmath.Root(p1), p1) && N == len(X))`))
			k.need("evaluate.additional", r.oks(), 2, tok.Replace(final+`any(p2 == nil && len(ret1) == 0, p2 != nil && match(ret1, comp(N, get(R, X[_]).value)) && match(R, after(E, 0)) && X == logmath.FullSubtrees(logmath.Root(*p2), *p2) && N == len(X)))`))
		}
		k.when(ADD, func(r *Run) {
			k.need("node.agree", r.oks(), 2, tok.Replace(`len(p2) == $HS(recv.cs) && any(has(p0, p1) && p2 == lookup(p0, p1).value, !has(p0, p1) && let(N, now(p0), match(N, mput(p0, p1, D)) && D != nil))`))
		})
		k.when(EVAL, func(r *Run) {
			ok := `len(p3) == 1 && p3[0] == p0`
			L, R := `let(L, $EVAL(recv, logmath.Left(p0), p1, p2, SL), did(L) && L == nil`, `let(T, $EVAL(recv, logmath.Right(p0, p1), p1, QM, SR), did(T) && T == nil`
			k.need("walk.children", r.oks(), 2, tok.Replace(`any(`+ok+`, `+L+`) && `+R+`))`))
			k.need("walk.parent", r.oks(), 2, tok.Replace(`any(`+ok+`, !logmath.IsFullSubtree(p0, p1), let(A, $ADD(recv, M, p0, V), did(A) && A == nil && V == log.treeHash(recv.cs, get(M, logmath.Left(p0)), get(M, logmath.Right(p0, p1))).value))`))
		}, opaque(ADD, EVAL, "log.treeHash"))
		k.when("log.treeHash", func(r *Run) {
			side := func(p, o string) string {
				return `any(` + p + `.leaf && ` + strings.ReplaceAll(o, "T", "0") + `, !` + p + `.leaf && ` + strings.ReplaceAll(o, "T", "1") + `)`
			}
			k.need("hash.node", r.all(), 1, `!ret0.leaf && any(p1.leaf && p2.leaf && ret0.value == digest(p0, cat(0, p1.value, 0, p2.value)), p1.leaf && !p2.leaf && ret0.value == digest(p0, cat(0, p1.value, 1, p2.value)), !p1.leaf && p2.leaf && ret0.value == digest(p0, cat(1, p1.value, 0, p2.value)), !p1.leaf && !p2.leaf && ret0.value == digest(p0, cat(1, p1.value, 1, p2.value)))`)
			_ = side
		})
		r = k.root("log.Root")
		k.need("root.sizes", r.oks(), 1, tok.Replace(`p1 != 0 && p1 <= $MAX && len(p2) == len(logmath.FullSubtrees(logmath.Root(p1), p1)) && forall(I, len(p2), len(p2[I]) == $HS(p0))`))
		if k.p.fns["log.treeHash"] != nil {
			r = k.root("log.Root", opaque("log.treeHash"))
			const S = `logmath.FullSubtrees(logmath.Root(p1), p1)`
			k.need("root.fold", r.oks(), 1, tok.Replace(`let(Z, lv(K), match(ret0, Z.value) && len(p2) < K + 2 && let(A, alloc(), A == iter(Z, 0) && now(A.value) == p2[len(p2) - 1] && now(A.leaf) == logmath.IsLeaf(`+S+`[len(p2) - 1])) && forall(I, K, let(H, log.treeHash(p0, N, iter(Z, I)), did(H) && H == iter(Z, I + 1) && N.value == p2[len(p2) - I - 2] && N.leaf == logmath.IsLeaf(`+S+`[len(p2) - I - 2]))))`))
		}
	})
}
