package main

import "strings"

func init() {
	tok := strings.NewReplacer("$HS", "suites.CipherSuite.HashSize")
	register("C14", `A prefix tree proof is accepted only if it is canonical: every searched entry has one result, results agree with each other and with the searched key, all of the copath is consumed, and the root is recomputed from exactly the searched entries with domain-separated hashing.`, func(k *Checker) {
		const SK, FC, GB, TN, EV = "prefix.addToSkeleton", "prefix.fillInCopath", "prefix.getBit", "prefix.terminalNode", "prefix.evaluate"
		k.when(EV, func(r *Run) {
			k.need("entries.sizes", r.oks(), 1, tok.Replace(`let(S, sorted(p1, _), forall(I, len(p1), len(S[I].VrfOutput) == $HS(p0) && any(S[I].Commitment == nil, len(S[I].Commitment) == $HS(p0))))`))
			k.need("entries.distinct", r.oks(), 1, tok.Replace(`let(S, sorted(p1, _), forall(I, len(p1), any(I <= 0, S[I].VrfOutput != S[I - 1].VrfOutput)))`))
			k.need("results.count", r.oks(), 1, `len(p1) == len(p2.Results)`)
			k.need("results.used", r.oks(), 1, `let(Z, lv(0), match(iter(Z, 0), prefix.externalNode{}) && forall(I, len(p1), let(A, prefix.addToSkeleton(&iter(Z, I), p1[I], p2.Results[I]), did(A) && A == nil && after(A, 0) == iter(Z, I + 1))))`)
			k.need("copath.used", r.oks(), 1, `let(F, prefix.fillInCopath(&Z, p2.Elements), did(F) && res1(F) == nil && len(res0(F)) == 0 && match(Z, lv(len(p1))) && ret0 == after(F, 0))`)
		}, opaque(SK, FC))
		const NIL = `as(p1, prefix.nonInclusionLeafProof)`
		k.when(TN, func(r *Run) {
			k.need("terminal.kind", r.oks(), 3, `any(is(p1, prefix.inclusionProof) && match(ret0, prefix.leafNode{vrfOutput: p0.VrfOutput, commitment: p0.Commitment}), is(p1, prefix.nonInclusionLeafProof) && match(ret0, iface(L)) && L == `+NIL+`.leaf, is(p1, prefix.nonInclusionParentProof) && match(ret0, prefix.emptyNode{}))`)
			k.need("terminal.other", r.oks(), 3, `any(!is(p1, prefix.nonInclusionLeafProof), p0.VrfOutput != `+NIL+`.leaf.vrfOutput)`)
			if k.p.fns[GB] != nil {
				k.need("terminal.prefix", r.oks(), 3, `any(!is(p1, prefix.nonInclusionLeafProof), forall(I, `+NIL+`.depth, prefix.getBit(p0.VrfOutput, I) == prefix.getBit(`+NIL+`.leaf.vrfOutput, I)))`)
			}
		}, opaque(GB))
		k.when(GB, func(r *Run) {
			k.need("bit.order", r.all(), 1, `ret0 == (1 == ((p0[p1 >> 3] >> (7 - (p1 & 7))) & 1))`)
		})
		k.when(SK, func(r *Run) {
			D := `let(D, lv(K), D == prefix.PrefixSearchResult.Depth(p2) && iter(D, 0) == 0)`
			k.need("skeleton.end", r.oks(), 3, `any(is(T, prefix.emptyNode) && !prefix.PrefixSearchResult.Inclusion(p2), is(T, prefix.leafNode) && prefix.PrefixSearchResult.Inclusion(p2) == (p1.VrfOutput == as(T, prefix.leafNode).vrfOutput), is(T, prefix.externalNode) && let(X, prefix.terminalNode(p1, p2), res1(X) == nil && let(N, lv(K), now(*N) == res0(X))))`)
			k.need("skeleton.depth", r.oks(), 3, D)
			k.need("skeleton.path", r.oks(), 3, `let(D, lv(K), D == prefix.PrefixSearchResult.Depth(p2) && forall(I, K, any(is(T, prefix.externalNode) && iter(D, I + 1) == iter(D, I) && iter(D, I) < prefix.PrefixSearchResult.Depth(p2), iter(D, I + 1) == iter(D, I) + 1 && let(N, lv(I), is(T, *prefix.parentNode) && any(prefix.getBit(p1.VrfOutput, iter(D, I)) && iter(N, I + 1) == &as(T, *prefix.parentNode).right, !prefix.getBit(p1.VrfOutput, iter(D, I)) && iter(N, I + 1) == &as(T, *prefix.parentNode).left)))))`)
		}, opaque(TN, GB))
		k.when(FC, func(r *Run) {
			k.need("copath.order", r.oks(), 3, `any(ret0 == p1 && any(is(*p0, prefix.emptyNode), is(*p0, prefix.leafNode)), is(*p0, prefix.externalNode) && len(p1) != 0 && ret0 == p1[1:] && match(now(*p0), prefix.externalNode{hash: p1[0]}), is(*p0, *prefix.parentNode) && let(L, prefix.fillInCopath(&as(*p0, *prefix.parentNode).left, p1), let(R, prefix.fillInCopath(&as(*p0, *prefix.parentNode).right, res0(L)), res1(L) == nil && res1(R) == nil && ret0 == res0(R))))`)
		}, opaque(FC))
		k.when("(prefix.leafNode).Hash", func(r *Run) {
			k.need("hash.leaf", r.all(), 1, `ret0 == digest(p0, cat(2, recv.vrfOutput, recv.commitment))`)
		})
		k.when("(*prefix.parentNode).Hash", func(r *Run) {
			k.need("hash.parent", r.all(), 2, `any(recv.hash != nil && ret0 == recv.hash, ret0 == digest(p0, cat(3, prefix.node.Hash(recv.left, p0), prefix.node.Hash(recv.right, p0))) && now(recv.hash) == ret0)`)
		})
		k.when("(prefix.emptyNode).Hash", func(r *Run) {
			k.need("hash.empty", r.all(), 1, `match(ret0, mkslice(suites.CipherSuite.HashSize(p0)))`)
		})
		k.when("(prefix.externalNode).Hash", func(r *Run) {
			k.need("hash.external", r.all(), 1, `ret0 == recv.hash`)
		})
		if k.p.fns[EV] != nil {
			r := k.root("prefix.Evaluate", opaque(EV))
			k.need("root.evaluated", r.oks(), 1, `let(E, prefix.evaluate(p0, p1, p2), res1(E) == nil && ret0 == prefix.node.Hash(res0(E), p0))`)
			r = k.root("prefix.EvaluateBeforeAfter", opaque(EV, "prefix.addRemoveEntries"))
			ev := `let(A, fcomp(len(p1), _, IA), let(B, fcomp(len(p1), _, IB), let(E, prefix.evaluate(p0, cat(A, p2), &prefix.PrefixProof{Elements: p3.Elements, Results: cat(B, p3.Results[len(p1):])}), did(E) && res1(E) == nil && `
			k.need("change.before", r.oks(), 1, `len(p3.Results) == len(p1) + len(p2) && `+ev+`ret0 == prefix.node.Hash(res0(E), p0))))`)
			k.need("change.entries", r.oks(), 1, ev+`let(M, mcomp(mempty(), len(p2), p2[_].VrfOutput, _), forall(I, len(p1), at(A, I) == p1[I] && at(B, I) == p3.Results[I] && any(kept(IA, I) && kept(IB, I) && !has(M, p1[I].VrfOutput), has(M, p1[I].VrfOutput) && let(R, lookup(M, p1[I].VrfOutput), prefix.PrefixSearchResult.Inclusion(R) == prefix.PrefixSearchResult.Inclusion(p3.Results[I]) && prefix.PrefixSearchResult.Depth(R) == prefix.PrefixSearchResult.Depth(p3.Results[I]))))))))`)
			k.need("change.after", r.oks(), 1, ev+`let(S, sorted(p1, _), let(T, sorted(comp(len(p2), p2[_].VrfOutput), _), let(C, prefix.addRemoveEntries(p0, &res0(E), S, T, 0), did(C) && ret1 == prefix.node.Hash(after(C, 0), p0)))))))`)
		}
		r := k.root("prefix.Verify", opaque("prefix.Evaluate"))
		k.need("root.compared", r.oks(), 1, `let(E, prefix.Evaluate(p0, p1, p2), res1(E) == nil && p3 == res0(E))`)
	})
}
