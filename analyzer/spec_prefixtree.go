package main

import "strings"

// C29: the stored prefix tree: what is searched, changed and stored, and which proof is given out.

func init() {
	register("C29", ``, func(k *Checker) {
		tok := strings.NewReplacer(
			"$ARE", "prefix.addRemoveEntries", "$SE", "prefix.splitEntries", "$SV", "prefix.splitVrfOutputs", "$GB", "prefix.getBit", "$RPB", "prefix.runProofBuilder",
			"$BUILD", "(*prefix.proofBuilder).build", "$GMR", "(*prefix.Tree).getMutationRoot", "$SIT", "prefix.splitIntoTiles", "$MT", "prefix.makeTile",
			"$TM", "(*prefix.tile).Marshal", "$ID", "(prefix.tileId).String", "$NB", "prefix.newBatch", "$BI", "(*prefix.batch).initialize", "$BS", "(*prefix.batch).search",
			"$BG", "(*prefix.batch).get", "$BS", "(*prefix.batch).search", "$STEP", "(*prefix.cursor).step", "$UT", "prefix.unmarshalTile", "$HS", "suites.CipherSuite.HashSize", "$W", "prefix.node.Weight", "$H", "prefix.node.Hash",
		)
		f := tok.Replace

		// changes
		k.when("(*prefix.Tree).Mutate", func(r *Run) {
			k.need("mutate.entries", r.oks(), 1, f(`let(S, sorted(p1, _), len(S) == len(p1) && forall(I, len(p1), len(S[I].VrfOutput) == $HS(recv.cs) && len(S[I].Commitment) == $HS(recv.cs) && any(I <= 0, S[I].VrfOutput != S[I - 1].VrfOutput)))`))
			k.need("mutate.removals", r.oks(), 1, f(`let(S, sorted(p2, _), forall(I, len(p2), len(S[I]) == $HS(recv.cs) && any(I <= 0, S[I] != S[I - 1])))`))
			k.need("mutate.root", r.oks(), 1, f(`let(G, $GMR(recv, p0, p1, p2), res3(G) == nil && ret1 == res1(G) && ret2 == res2(G) && let(A, $ARE(recv.cs, &res0(G), sorted(p1, function("prefix.compareEntries")), sorted(p2, function("bytes.Compare")), 0), did(A) && ret0 == $H(after(A, 0), recv.cs)))`))
			tiles := `let(G, $GMR(recv, p0, p1, p2), let(A, $ARE(recv.cs, &res0(G), _, _, 0), let(T, $SIT(recv.cs, p0 + 1, after(A, 0)), `
			k.need("mutate.stored", r.oks(), 1, f(tiles+`forall(I, len(T), let(M, $TM(&T[I], recv.cs), res1(M) == nil && let(P, db.PrefixStore.Put(recv.tx, $ID(T[I].id), res0(M)), did(P) && P == nil))))))`))
		}, opaque(f("$GMR"), f("$ARE"), f("$SIT"), f("$TM"), f("$ID")))
		k.when("prefix.compareEntries", func(r *Run) {
			k.need("order.entries", r.all(), 1, `match(ret0, cmp(p0.VrfOutput, p1.VrfOutput))`)
		})
		k.when(f("$RPB$1"), func(r *Run) {
			k.need("order.searched", r.all(), 1, `match(ret0, cmp(p0.vrfOutput, p1.vrfOutput))`)
		})
		k.when(f("$GMR"), func(r *Run) {
			outs := `let(V, cat(comp(len(p1), p1[_].VrfOutput), p2), `
			k.need("root.first", r.oks(), 1, f(`any(p0 != 0, len(p2) <= 0 && `+outs+`let(B, $RPB(recv.cs, iface(prefix.emptyNode{}), V), match(ret0, prefix.emptyNode{}) && *ret1 == res0(B))))`))
			loaded := f(outs + `let(I, $BI(X, mput(mempty(), p0, V)), match(X, $NB(recv.cs, recv.tx)) && let(S, $BS(X, res1(I)), did(S) && S == nil && let(R, get(res0(I), p0).root, let(B, $RPB(recv.cs, R, V), did(B) && `)
			k.need("root.loaded", r.oks(), 1, f(`any(p0 == 0, `+loaded+`ret0 == R && *ret1 == res0(B) && ret2 == res1(B)[len(p1):]))))))`))
			k.need("root.removed", r.oks(), 1, f(`any(p0 == 0, `+loaded+`forall(J, len(ret2), ret2[J] != nil)))))))`))
			k.need("root.added", r.oks(), 1, f(`any(p0 == 0, `+loaded+`forall(J, len(p1), any(res1(B)[J] == nil, p2[K] == V[J]) )))))))`))
			k.need("root.searched", r.calls(f("$RPB")), 1, f(`any(p0 == 0, let(I, $BI(X, _), let(S, $BS(X, res1(I)), did(S) && S == nil)))`))
		}, opaque(f("$RPB"), f("$BS"), f("$BI"), f("$NB")))
		k.when(f("$ARE"), func(r *Run) {
			none := `len(p2) == 0 && len(p3) == 0`
			k.need("change.none", r.all(), 4, f(`any(len(p2) != 0, len(p3) != 0, !is(*p1, *prefix.parentNode) && now(*p1) == *p1, let(P, as(*p1, *prefix.parentNode), match(now(*p1), prefix.externalNode{hash: X, id: *P.id}) && any(X == P.hash && P.hash != nil, X == $H(P, p0), X == digest(p0, cat(3, $H(P.left, p0), $H(P.right, p0))))))`))
			again := `let(A, $ARE(p0, p1, p2, nil, p4), did(A) && match(now(*p1), after(A, _)))`
			k.need("change.empty", r.all(), 4, f(`any(!is(*p1, prefix.emptyNode), `+none+`, len(p2) == 0 && now(*p1) == *p1, len(p2) == 1 && match(now(*p1), prefix.leafNode{vrfOutput: p2[0].VrfOutput, commitment: p2[0].Commitment}), len(p2) > 1 && `+again+`)`))
			k.need("change.leaf", r.all(), 4, f(`any(!is(*p1, prefix.leafNode), `+none+`, let(M, as(*p1, prefix.leafNode), any(
				match(M.vrfOutput, p3[I]) && I < len(p3) && any(len(p2) == 0 && match(now(*p1), prefix.emptyNode{}), len(p2) != 0 && `+again+`),
				forall(J, len(p3), p3[J] != M.vrfOutput) && any(len(p2) == 0 && now(*p1) == *p1, len(p2) != 0 && `+again+`))))`))
			sides := `let(P, as(*p1, *prefix.parentNode), did($ARE(p0, &P.left, res0($SE(p2, p4)), res0($SV(p3, p4)), p4 + 1)) && did($ARE(p0, &P.right, res1($SE(p2, p4)), res1($SV(p3, p4)), p4 + 1)) && let(L, now(P.left), let(R, now(P.right), `
			k.need("change.parent", r.all(), 4, f(`any(!is(*p1, *prefix.parentNode), `+none+`, `+sides+`any(
				is(L, prefix.leafNode) && is(R, prefix.emptyNode) && now(*p1) == L, is(L, prefix.emptyNode) && is(R, prefix.leafNode) && now(*p1) == R, is(L, prefix.emptyNode) && is(R, prefix.emptyNode) && match(now(*p1), prefix.emptyNode{}),
				now(*p1) == *p1 && any(!is(L, prefix.leafNode), !is(R, prefix.emptyNode)) && any(!is(R, prefix.leafNode), !is(L, prefix.emptyNode)) && any(!is(L, prefix.emptyNode), !is(R, prefix.emptyNode)))))))`))
			k.need("change.collapse", r.all(), 4, f(`any(!is(*p1, *prefix.parentNode), `+none+`, `+sides+`any(!is(L, prefix.leafNode), !is(R, prefix.emptyNode), len(res0($SE(p2, p4))) != 0, len(res0($SV(p3, p4))) != 0) && any(!is(R, prefix.leafNode), !is(L, prefix.emptyNode), len(res1($SE(p2, p4))) != 0, len(res1($SV(p3, p4))) != 0)))))`))
			k.need("change.cleared", r.all(), 4, f(`any(!is(*p1, *prefix.parentNode), `+none+`, let(P, as(*p1, *prefix.parentNode), now(P.hash) == nil && now(P.id) == nil))`))
			k.need("change.below", r.calls(f("$ARE")), 1, f(`arg0 == p0 && any(
				is(*p1, *prefix.parentNode) && arg4 == p4 + 1 && let(P, as(*p1, *prefix.parentNode), any(match(arg1, &Q.left) && Q == P && arg2 == res0($SE(p2, p4)) && arg3 == res0($SV(p3, p4)), match(arg1, &Q.right) && Q == P && arg2 == res1($SE(p2, p4)) && arg3 == res1($SV(p3, p4)))),
				arg1 == p1 && arg2 == p2 && len(arg3) == 0 && arg4 == p4 && len(p2) != 0 && any(
					is(*p1, prefix.emptyNode) && len(p2) > 1 && match(deep(now(*p1)), &prefix.parentNode{left: iface(prefix.emptyNode{}), right: iface(prefix.emptyNode{})}),
					let(M, as(*p1, prefix.leafNode), any(
						match(M.vrfOutput, p3[I]) && I < len(p3) && match(now(*p1), prefix.emptyNode{}),
						forall(J, len(p3), p3[J] != M.vrfOutput) && any(match(deep(now(*p1)), &prefix.parentNode{left: iface(M), right: iface(prefix.emptyNode{})}) && !$GB(M.vrfOutput, p4), match(deep(now(*p1)), &prefix.parentNode{left: iface(prefix.emptyNode{}), right: iface(M)}) && $GB(M.vrfOutput, p4))))))`))
		}, opaque(f("$ARE"), f("$SE"), f("$SV"), f("$GB")))
		for _, n := range []string{"$SE", "$SV"} {
			key := map[string]string{"$SE": ".VrfOutput", "$SV": ""}[n]
			k.when(f(n), func(r *Run) {
				k.need("split.halves", r.all(), 1, f(`any(len(p0) == 0 && len(ret0) == 0 && len(ret1) == 0, ret0 == p0[:N] && ret1 == p0[N:] && match(N, res0(_)))`))
			})
			k.when(f(n+"$1"), func(r *Run) {
				k.need("split.side", r.all(), 1, f(`any(ret0 == 0 && $GB(p0`+key+`, _), ret0 == -1 && !$GB(p0`+key+`, _))`))
			}, opaque(f("$GB")))
		}

		// proofs
		k.when("(*prefix.Tree).Search", func(r *Run) {
			k.need("search.keys", r.oks(), 1, f(`forall(I, len(p0), p0[I].Version != 0 && forall(J, len(p0[I].VrfOutputs), len(p0[I].VrfOutputs[J]) == $HS(recv.cs)))`))
			k.need("search.results", r.oks(), 1, f(`let(I, $BI(X, M), match(X, $NB(recv.cs, recv.tx)) && let(S, $BS(X, res1(I)), did(S) && S == nil && len(ret0) == len(p0) && forall(J, len(p0), has(res0(I), p0[J].Version)) && match(ret0, comp(len(p0), prefix.SearchResult{Proof: res0($RPB(recv.cs, lookup(res0(I), p0[_].Version).root, p0[_].VrfOutputs)), Commitments: res1($RPB(recv.cs, lookup(res0(I), p0[_].Version).root, p0[_].VrfOutputs))}))))`))
			k.need("search.loaded", r.calls(f("$RPB")), 1, f(`let(I, $BI(X, _), let(S, $BS(X, res1(I)), did(S) && S == nil))`))
			k.need("search.all", r.calls(f("$BI")), 1, f(`let(C, lv(len(p0)), arg1 == C && iter(C, 0) == mempty() && forall(I, len(p0), iter(C, I + 1) == mput(iter(C, I), p0[I].Version, cat(get(iter(C, I), p0[I].Version), p0[I].VrfOutputs))))`))
		}, opaque(f("$RPB"), f("$BS"), f("$BI"), f("$NB")))
		k.when(f("$RPB"), func(r *Run) {
			k.need("proof.sorted", r.all(), 1, f(`let(B, $BUILD(X, p1, S, 0), did(B) && match(S, sorted(comp(len(p2), prefix.indexedVrfOutput{index: _, vrfOutput: p2[_]}), _)) && ret0 == after(B, 0).proof && ret1 == after(B, 0).commitments)`))
			k.need("proof.empty", r.calls(f("$BUILD")), 1, `let(B, deref(arg0), B.cs == p0 && match(B.commitments, mkslice(len(p2))) && match(B.proof.Results, mkslice(len(p2))) && len(B.proof.Elements) == 0)`)
		}, opaque(f("$BUILD")))
		k.when(f("$BUILD"), func(r *Run) {
			k.need("proof.copath", r.all(), 1, f(`any(len(p1) != 0, match(now(recv.proof.Elements), cat(recv.proof.Elements, lit($H(p0, recv.cs)))) && now(recv.proof.Results) == recv.proof.Results)`))
			k.need("proof.missing", r.all(), 1, `any(len(p1) == 0, !is(p0, prefix.emptyNode), let(Z, now(recv.proof.Results), iter(Z, 0) == recv.proof.Results && forall(I, len(p1), iter(Z, I + 1) == eupd(iter(Z, I), p1[I].index, iface(prefix.nonInclusionParentProof{depth: p2})))))`)
			k.need("proof.leaf", r.all(), 1, `any(len(p1) == 0, !is(p0, prefix.leafNode), let(M, as(p0, prefix.leafNode), let(Z, now(recv.proof.Results), let(C, now(recv.commitments), iter(Z, 0) == recv.proof.Results && iter(C, 0) == recv.commitments && forall(I, len(p1), any(
				p1[I].vrfOutput == M.vrfOutput && iter(Z, I + 1) == eupd(iter(Z, I), p1[I].index, iface(prefix.inclusionProof{depth: p2})) && iter(C, I + 1) == eupd(iter(C, I), p1[I].index, M.commitment),
				p1[I].vrfOutput != M.vrfOutput && iter(Z, I + 1) == eupd(iter(Z, I), p1[I].index, iface(prefix.nonInclusionLeafProof{depth: p2, leaf: M})) && iter(C, I + 1) == iter(C, I)))))))`)
			k.need("proof.parent", r.all(), 1, f(`any(len(p1) == 0, !is(p0, *prefix.parentNode), let(P, as(p0, *prefix.parentNode), let(A, $BUILD(recv, P.left, p1[:N], p2 + 1), did(A) && match(N, res0(_)) && let(B, $BUILD(recv, P.right, p1[N:], p2 + 1), did(B) && match(now(*recv), after(B, after(A, _)))))))`))
		}, opaque(f("$BUILD")))
		k.when(f("$BUILD$1"), func(r *Run) {
			k.need("proof.side", r.all(), 1, f(`any(ret0 == 0 && $GB(p0.vrfOutput, _), ret0 == -1 && !$GB(p0.vrfOutput, _))`))
		}, opaque(f("$GB")))

		// loading
		k.when(f("$NB"), func(r *Run) {
			k.need("load.batch", r.all(), 1, `let(B, deref(ret0), B.cs == p0 && B.tx == p1 && B.cache == mempty())`)
		})
		k.when(f("$BI"), func(r *Run) {
			k.need("load.tiles", r.all(), 1, `match(ret0, mcomp(mempty(), len(p0), mkey(p0, _), _))`)
			k.need("load.cursors", r.all(), 1, `match(ret1, mcomp(mempty(), len(p0), _, comp(len(lookup(p0, mkey(p0, _))), prefix.cursor{vrfOutput: lookup(p0, mkey(p0, _))[_], depth: 0})))`)
			k.need("load.root", r.at("store", "prefix.tile.root"), 1, `match(arg0, prefix.externalNode{id: I, hash: _}) && I.ctr == 0 && match(I.ver, mkey(p0, _))`)
			k.need("load.depth", r.at("store", "prefix.tile.depth"), 1, `arg0 == 0`)
		})
		k.when(f("$STEP"), func(r *Run) {
			path := `let(P, lv(K), iter(P, 0) == p0 && forall(I, K, is(deref(iter(P, I)), *prefix.parentNode) && let(M, as(deref(iter(P, I)), *prefix.parentNode), any(iter(P, I + 1) == &M.left && !$GB(recv.vrfOutput, recv.depth + I), iter(P, I + 1) == &M.right && $GB(recv.vrfOutput, recv.depth + I)))) && let(T, deref(P), `
			k.shaped("load.path", r.all(), `let(P, lv(K), match(iter(P, 0), X))`, f(path+`any(
				ret0 == nil && any(is(T, prefix.emptyNode), is(T, prefix.leafNode)), is(T, prefix.externalNode) && *ret0 == prefix.nextStep{id: as(T, prefix.externalNode).id, ptr: P})))`))
			k.need("load.moved", r.all(), 1, `let(P, lv(K), now(recv.depth) == recv.depth + K && now(recv.vrfOutput) == recv.vrfOutput)`)
		}, opaque(f("$GB")))
		k.when(f("$BG"), func(r *Run) {
			ids := `let(S, mcomp(mempty(), len(p0), $ID(lookup(p0, mkey(p0, _)).id), lookup(p0, mkey(p0, _)).id), `
			cached := `let(C, fmcomp(mempty(), len(S), mkey(S, _), lookup(recv.cache, mkey(S, _)), ID), forall(I, len(S), any(kept(ID, I) && has(recv.cache, mkey(S, I)), !kept(ID, I) && !has(recv.cache, mkey(S, I))))`
			k.need("load.cached", r.oks(), 1, f(ids+cached+` && any(len(C) <= 0, ret0 == C)))`))
			k.need("load.fetched", r.oks(), 1, f(ids+cached+` && any(len(C) > 0, let(B, db.PrefixStore.BatchGet(recv.tx, fcomp(len(S), mkey(S, _), IE)), did(B) && res1(B) == nil && forall(I, len(S), has(res0(B), mkey(S, I)) && any(kept(IE, I), has(recv.cache, mkey(S, I)))) && forall(I, len(S), let(U, $UT(recv.cs, lookup(S, mkey(S, I)), lookup(res0(B), mkey(S, I))), did(U) && res1(U) == nil))))))`))
			k.need("load.parsed", r.oks(), 1, f(ids+cached+` && any(len(C) > 0, let(B, db.PrefixStore.BatchGet(recv.tx, _), match(ret0, mcomp(C, len(S), mkey(S, _), res0($UT(recv.cs, lookup(S, mkey(S, _)), lookup(res0(B), mkey(S, _)))))) && match(now(recv.cache), mcomp(recv.cache, len(S), mkey(S, _), res0($UT(recv.cs, lookup(S, mkey(S, _)), lookup(res0(B), mkey(S, _))))))))))`))
		}, opaque(f("$ID"), f("$UT")))
		k.when(f("(*prefix.batch).search"), func(r *Run) {
			link := r.at("store", "")
			at := `match(self, lookup(N, mkey(N, I)).ptr) && let(T, lookup(res0($BG(recv, N)), (prefix.tileId).String(lookup(N, mkey(N, I)).id)), `
			var linked []*point
			for _, p := range link {
				if len(k.sel([]*point{p}, `match(self, X.ptr)`)) > 0 {
					linked = append(linked, p)
				}
			}
			walked := func(side, bit string) string {
				step := func(side, bit string) string {
					return bit + `prefix.getBit(mkey(N, I).vrfOutput, T.depth + J) && match(iter(Y, J + 1), &X.` + side + `) && match(X, as(*U, *prefix.parentNode)) && U == iter(Y, J)`
				}
				return `match(arg0, as(*Y, *prefix.parentNode).` + side + `) && let(Z, lv(K), Z == Y && K + T.depth + 1 == mkey(N, I).depth && ` + bit + `prefix.getBit(mkey(N, I).vrfOutput, T.depth + K)) && match(iter(Y, 0), &R.root) && forall(J, mkey(N, I).depth - T.depth - 1, any(` + step("right", "") + `, ` + step("left", "!") + `))`
			}
			k.shaped("search.walk", linked, f(at+`any(mkey(N, I).depth <= T.depth, match(arg0, as(*_, *prefix.parentNode)._), match(arg0, as(*_, *prefix.parentNode).left), match(arg0, as(*_, *prefix.parentNode).right)))`), f(at+`any(match(arg0, T.root) && mkey(N, I).depth <= T.depth, `+walked("left", "!")+`, `+walked("right", "")+`))`))
			k.need("search.complete", r.oks(), 1, f(`any(match(ret0, $BS(recv, O)), let(Q, lv(K), len(Q) == 0 && iter(Q, 0) == mempty()))`))
			k.shaped("search.next", k.sel(r.all(), f(`match(ret0, $BS(recv, O))`)), f(`match(ret0, $BS(recv, O)) && iter(O, 0) == mempty()`), f(`match(ret0, $BS(recv, O)) && iter(O, 0) == mempty() && let(G, $BG(recv, N), did(G) && forall(I, len(N), match(iter(O, I + 1), mput(iter(O, I), _, cat(get(iter(O, I), _), lit(*mkey(N, I)))))))`))
			k.shaped("search.steps", r.calls(f("$BG")), `match(arg1, Q) && iter(Q, 0) == mempty()`, f(`match(arg1, Q) && iter(Q, 0) == mempty() && forall(J, len(p0), match(iter(Q, J + 1), fmcomp(iter(Q, J), len(lookup(p0, mkey(p0, J))), _, *$STEP(_, mkey(p0, J)), _)))`))
		}, opaque(f("$STEP"), f("$BG"), f("$BS"), "(prefix.tileId).String", "prefix.getBit"))
		k.when(f("$SIT"), func(r *Run) {
			loop := `let(Q, lv(K), let(O, lv(K), ret0 == O && `
			first := `len(iter(O, 0)) == 0 && `
			k.shaped("tiles.queue", r.all(), loop+`len(iter(Q, K)) <= 0))`, f(loop+first+`len(iter(Q, K)) <= 0 && forall(I, K, match(iter(Q, I + 1), cat(iter(Q, I)[1:], $MT(p0, p1, C, _, iter(Q, I)[0].depth))) && C == len(iter(O, I)) + len(iter(Q, I)) - 1 && match(iter(O, I + 1), cat(iter(O, I), lit(prefix.tile{id: prefix.tileId{ver: p1, ctr: len(iter(O, I))}, depth: iter(Q, I)[0].depth, root: _}))))))`))
			k.need("tiles.first", r.at("store", "prefix.nodeAndDepth.nd"), 1, `arg0 == p2`)
			k.need("tiles.depth", r.at("store", "prefix.nodeAndDepth.depth"), 0, `arg0 == 0`)
		}, opaque(f("$MT")))
		k.when(f("$MT"), func(r *Run) {
			k.shaped("tiles.ejected", r.all(), `let(Q, lv(K), match(ret0, fcomp(K, _, ID)))`, `let(Q, lv(K), match(ret0, fcomp(K, _, ID)) && len(iter(Q, K)) <= 0 && forall(I, K, any(iter(Q, I + 1) == iter(Q, I)[1:], !kept(ID, I) && match(iter(Q, I + 1), cat(iter(Q, I)[1:], lit(_, _))))))`)
			k.shaped("tiles.linked", r.at("store", "prefix.externalNode.id"), `match(arg0.ctr, _ + len(E) + 1) && match(E, fcomp(_, _, _))`, `arg0.ver == p1 && match(arg0.ctr, p2 + len(E) + 1) && match(E, fcomp(_, _, _))`)
			k.need("tiles.version", r.at("store", "prefix.externalNode.id"), 1, `arg0.ver == p1`)
			k.need("tiles.hash", r.at("store", "prefix.externalNode.hash"), 1, f(`any(match(arg0, P.hash) && P.hash != nil, match(arg0, digest(p0, cat(lit(3), $H(P.left, p0), $H(P.right, p0)))), match(arg0, $H(P, p0)))`))
			k.shaped("tiles.below", r.at("store", "prefix.pointerAndDepth.ptr"), `any(match(arg0, &X.left), match(arg0, &X.right))`, `any(arg0 == p3, match(arg0, &X.left), match(arg0, &X.right))`)
			k.shaped("tiles.deeper", r.at("store", "prefix.pointerAndDepth.depth"), `match(arg0, X[0].depth + 1)`, `any(arg0 == p4, match(arg0, X[0].depth + 1))`)
			k.shaped("tiles.level", r.at("store", "prefix.nodeAndDepth.depth"), `match(arg0, X[0].depth)`, `match(arg0, X[0].depth)`)
		})
	})
}
