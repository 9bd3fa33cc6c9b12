package main

import "strings"

// C28: the stored log tree: what is appended, what is stored, and which proof is given out.

func init() {
	register("C28", ``, func(k *Checker) {
		tok := strings.NewReplacer(
			"$FETCH", "(*log.Tree).fetch", "$SPEC", "(*log.Tree).fetchSpecific", "$NEWSET", "log.newChunkSet", "$NEWCHUNK", "log.newChunk",
			"$ADD", "(*log.chunkSet).add", "$SET", "(*log.chunkSet).set", "$GET", "(*log.chunkSet).get", "$MARSHAL", "(*log.chunkSet).marshal",
			"$CGET", "(*log.nodeChunk).get", "$CSET", "(*log.nodeChunk).set", "$CMARSHAL", "(*log.nodeChunk).marshal", "$FIND", "(*log.nodeChunk).findIndex",
			"$TH", "log.treeHash", "$HS", "suites.CipherSuite.HashSize", "$MAX", "9223372036854775808",
			"$FULL", "logmath.FullSubtrees(logmath.Root(p0 + 1), p0 + 1)", "$DP", "logmath.DirectPath(2 * p0, p0 + 1)", "$CP", "logmath.Copath(2 * p0, p0 + 1)",
		)
		f := tok.Replace

		// proofs
		k.when(f("(*log.Tree).GetBatch"), func(r *Run) {
			k.need("batch.sizes", r.oks(), 1, f(`p1 != 0 && p1 <= $MAX && any(p2 == nil, *p2 != 0 && *p2 <= p1) && any(p3 == nil, *p3 != 0 && *p3 <= p1)`))
			entries := `any(match(X, sorted(p0)), match(X, p0))`
			k.need("batch.proof", r.oks(), 1, f(`let(C, logmath.BatchCopath(X, p1, p2, p3), let(S, $SPEC(recv, C), did(S) && res1(S) == nil && ret0 == res0(S))) && `+entries+` && any(forall(I, len(p0), X[I] < p1), len(p0) <= 0, let(S, sorted(p0), X == S && S[len(p0) - 1] < p1))`))
			k.need("batch.distinct", r.oks(), 1, `forall(I, len(p0), any(I <= 0, let(S, sorted(p0), S[I] != S[I - 1])))`)
		}, opaque(f("$SPEC")))
		k.when(f("$SPEC"), func(r *Run) {
			k.need("nodes.values", r.oks(), 1, f(`let(F, $FETCH(recv, p0), did(F) && res1(F) == nil && len(ret0) == len(p0) && forall(I, len(p0), ret0[I] == $GET(res0(F), p0[I]).value))`))
		}, opaque(f("$FETCH"), f("$GET")))
		k.when(f("$FETCH"), func(r *Run) {
			ids := `let(B, db.LogStore.BatchGet(recv.tx, L), did(B) && res1(B) == nil && match(L, comp(len(M), mkey(M, _))) && match(M, mcomp(mempty(), len(p0), logmath.Chunk(p0[_]), _))`
			k.need("fetch.chunks", r.oks(), 1, f(ids+` && let(N, $NEWSET(recv.cs, res0(B)), res1(N) == ret1 && ret0 == res0(N)))`))
			k.need("fetch.present", r.oks(), 1, f(ids+` && forall(I, len(M), has(res0(B), mkey(M, I))))`))
		}, opaque(f("$NEWSET")))

		// a new leaf
		k.when("(*log.Tree).Append", func(r *Run) {
			set := `let(F, $FETCH(recv, L), did(F) && res1(F) == nil && `
			k.need("append.size", r.oks(), 1, f(`p0 < $MAX && len(p1) == $HS(recv.cs)`))
			k.need("append.leaf", r.oks(), 1, f(set+`did($SET(res0(F), 2 * p0, &log.nodeData{leaf: true, value: p1})))`))
			cached := `forall(I, len($DP), any(kept(ID, I) && logmath.IsFullSubtree($DP[I], p0 + 1) && logmath.Level($DP[I]) % 4 == 0, !kept(ID, I) && any(!logmath.IsFullSubtree($DP[I], p0 + 1), logmath.Level($DP[I]) % 4 != 0)))`
			node := `$SET(res0(F), P[I], $TH(recv.cs, $GET(res0(F), logmath.Left(P[I])), $GET(res0(F), logmath.RightStep(P[I]))))`
			direct := strings.ReplaceAll(node, "P[I]", "$DP[I]")
			k.need("append.path", r.oks(), 1, f(set+`any(let(P, fcomp(len($DP), $DP[_], ID), `+cached+` && forall(I, len(P), did(`+node+`))), forall(I, len($DP), any(!logmath.IsFullSubtree($DP[I], p0 + 1), logmath.Level($DP[I]) % 4 != 0, did(`+direct+`)))))`))
			k.need("append.order", r.calls(f("$TH")), 1, f(set+`did($SET(res0(F), 2 * p0, _)))`))
			k.need("append.stored", r.oks(), 1, f(set+`let(M, $MARSHAL(res0(F)), forall(I, len(M), let(P, db.LogStore.Put(recv.tx, mkey(M, I), lookup(M, mkey(M, I))), did(P) && P == nil))))`))
			k.need("append.marshal", r.calls("db.LogStore.Put"), 1, f(set+`did($SET(res0(F), 2 * p0, _)))`))
			k.need("append.result", r.oks(), 1, f(set+`len(ret0) == len($FULL) && forall(I, len(ret0), ret0[I] == $GET(res0(F), $FULL[I]).value))`))
			exists := `match(E, mcomp(mempty(), len($CP), logmath.Chunk($CP[_]), _))`
			k.need("append.created", r.calls(f("$ADD")), 1, f(`match(arg1, mkey(M, _)) && any(match(M, mcomp(mempty(), N, logmath.Chunk(X), _)), match(M, fmcomp(mempty(), N, logmath.Chunk(X), _, _))) && match(X, cat(_, fcomp(_, $DP[_], _))[_]) && any(p0 == 0, p0 <= 0, `+exists+`)`))
			k.need("append.fetched", r.calls(f("$FETCH")), 1, f(`any(p0 == 0, p0 <= 0, any(match(arg1, comp(len(E), mkey(E, _))), match(arg1, cat(_, comp(len(E), mkey(E, _))))) && `+exists+`)`))
		}, opaque(f("$FETCH"), f("$ADD"), f("$SET"), f("$GET"), f("$MARSHAL"), f("$TH")))

		// chunks
		k.when(f("$NEWSET"), func(r *Run) {
			k.need("set.chunks", r.oks(), 1, f(`let(C, deref(ret0), C.cs == p0 && C.modified == mempty() && match(C.chunks, mcomp(mempty(), len(p1), mkey(p1, _), res0($NEWCHUNK(p0, mkey(p1, _), lookup(p1, mkey(p1, _)))))) && forall(I, len(p1), let(N, $NEWCHUNK(p0, mkey(p1, I), lookup(p1, mkey(p1, I))), res1(N) == nil)))`))
		}, opaque(f("$NEWCHUNK")))
		k.when(f("$GET"), func(r *Run) {
			k.need("set.get", r.all(), 1, f(`has(recv.chunks, logmath.Chunk(p0)) && let(G, $CGET(lookup(recv.chunks, logmath.Chunk(p0)), p0), did(G) && ret0 == G)`))
		}, opaque(f("$CGET")))
		k.when(f("$SET"), func(r *Run) {
			k.need("set.set", r.all(), 1, f(`has(recv.chunks, logmath.Chunk(p0)) && did($CSET(lookup(recv.chunks, logmath.Chunk(p0)), p0, p1)) && match(now(recv.modified), mput(recv.modified, logmath.Chunk(p0), _))`))
		}, opaque(f("$CSET")))
		k.when(f("$ADD"), func(r *Run) {
			k.need("set.add", r.all(), 1, f(`!has(recv.chunks, logmath.Chunk(p0)) && let(C, now(recv.chunks), match(C, mput(recv.chunks, logmath.Chunk(p0), res0(N))) && match(N, $NEWCHUNK(recv.cs, logmath.Chunk(p0), Z)) && len(Z) == 0 && res1(N) == nil)`))
		}, opaque(f("$NEWCHUNK")))
		k.when(f("$MARSHAL"), func(r *Run) {
			k.need("set.marshal", r.all(), 1, f(`match(ret0, mcomp(mempty(), len(recv.modified), mkey(recv.modified, _), $CMARSHAL(get(recv.chunks, mkey(recv.modified, _)))))`))
		}, opaque(f("$CMARSHAL")))
		k.when(f("$NEWCHUNK"), func(r *Run) {
			k.need("chunk.ids", r.oks(), 1, `let(A, logmath.Left(p1), let(B, logmath.RightStep(p1), let(C, logmath.Left(A), let(D, logmath.RightStep(A), let(E, logmath.Left(B), let(F, logmath.RightStep(B), deref(ret0).ids == lit(logmath.Left(C), C, logmath.RightStep(C), A, logmath.Left(D), D, logmath.RightStep(D), p1, logmath.Left(E), E, logmath.RightStep(E), B, logmath.Left(F), F, logmath.RightStep(F))))))))`)
			k.need("chunk.count", r.oks(), 1, `len(deref(ret0).nodes) >= 15 && deref(ret0).cs == p0`)
			nodes := `let(S, deref(ret0).nodes, let(Z, lv(N), match(S, cat(iter(Z, N), comp(M, _)))`
			k.shaped("chunk.parsed", r.oks(), nodes+`))`, nodes+` && match(iter(Z, 0), _[0:0]) && len(iter(Z, N)) <= 15 && forall(I, N, any(len(iter(Z, I)) <= 0 && match(iter(Z, I + 1), cat(iter(Z, I), lit(X))), len(iter(Z, I)) > 0 && match(iter(Z, I + 1), cat(iter(Z, I), lit(X, Y)))))))`)
			data := `let(D, lv(N), iter(D, 0) == p2`
			k.shaped("chunk.consumed", r.oks(), data+`)`, f(data+` && len(iter(D, N)) <= 0 && forall(I, N, len(iter(D, I)) >= $HS(p0) && iter(D, I + 1) == iter(D, I)[$HS(p0):]))`))
			k.shaped("chunk.values", r.at("store", "log.nodeData.value"), f(`match(arg0, _[0:$HS(p0)])`), f(`any(arg0 == nil, match(arg0, _[0:$HS(p0)]))`))
			k.need("chunk.kinds", r.at("store", "log.nodeData.leaf"), 1, `any(arg0 == false, arg0 == (logmath.Level(p1) == 3), match(arg0, logmath.IsLeaf(_[_])))`)
		})
		k.when(f("$CMARSHAL"), func(r *Run) {
			chain := `let(O, lv(N), let(P, lv(N), match(iter(O, 0), X) && iter(P, 0) == 0 && ret0 == iter(O, N)`
			k.shaped("chunk.marshal", r.all(), chain+`))`, chain+` && len(iter(O, 0)) == 0 && len(recv.nodes) <= iter(P, N) && forall(I, N, any(
				len(recv.nodes[iter(P, I)].value) != 0 && iter(O, I + 1) == cat(iter(O, I), recv.nodes[iter(P, I)].value) && iter(P, I + 1) == iter(P, I) + 2,
				iter(O, I + 1) == iter(O, I) && any(match(iter(P, I + 1) - 2, iter(P, I) + M), match(iter(P, I + 1), iter(P, I) + M + 2)) && len(recv.nodes) <= iter(P, I) + M && forall(J, M, len(recv.nodes[iter(P, I) + J].value) == 0)))))`)
		})
		k.when("log.Append", func(r *Run) {
			k.need("frontier.first", r.oks(), 1, `any(p1 != 0, ret0 == lit(p3))`)
			full := `logmath.FullSubtrees(logmath.Root(p1), p1)`
			chain := `any(p1 == 0, let(C, lv(len(` + full + `)), match(iter(C, 0), mkslice(logmath.Level(logmath.Root(p1)) + 2))`
			k.shaped("frontier.chain", r.oks(), chain+`))`, chain+` && forall(I, len(`+full+`), iter(C, I + 1) == eupd(iter(C, I), logmath.Level(`+full+`[I]), p2[I]))))`)
			carry := `any(p1 == 0, let(C, lv(len(` + full + `)), any(forall(I, len(C), C[I] != nil), let(Y, lv(N), match(iter(Y, 0), X)`
			k.shaped("frontier.carry", r.oks(), `any(p1 == 0, let(C, lv(len(`+full+`)), let(Y, lv(N), match(iter(Y, 0), X))))`, f(carry+` && forall(I, N, C[I] != nil && iter(Y, I + 1) == $TH(p0, &log.nodeData{leaf: I == 0, value: C[I]}, iter(Y, I))) && C[N] == nil))))`))
			k.need("frontier.leaf", r.at("store", "log.nodeData.value"), 1, `any(arg0 == p3, match(arg0, _[_]))`)
			k.need("frontier.kind", r.at("store", "log.nodeData.leaf"), 1, `any(arg0 == true, match(arg0, _ == 0))`)
			k.shaped("frontier.result", r.oks(), `any(p1 == 0, match(ret0, fcomp(M, _, ID)))`, `any(p1 == 0, let(C, lv(len(`+full+`)), any(len(C) <= N, let(Y, lv(N), let(R, eupd(fill(C, N, nil), N, iter(Y, N).value), match(ret0, fcomp(M, R[len(R) - 1 - _], ID)) && len(C) < M + 1 && forall(I, M, any(kept(ID, I) && R[len(R) - 1 - I] != nil, !kept(ID, I) && R[len(R) - 1 - I] == nil)))))))`)
		}, opaque(f("$TH")))
		k.when(f("$FIND"), func(r *Run) {
			k.need("chunk.find", r.all(), 1, `recv.ids[ret0] == p0`)
		})
		k.when(f("$CGET"), func(r *Run) {
			h := `$TH(recv.cs, $CGET(recv, logmath.Left(p0)), $CGET(recv, logmath.RightStep(p0)))`
			k.need("chunk.get", r.all(), 1, f(`let(I, $FIND(recv, p0), any(ret0 == recv.nodes[I] && any(logmath.IsLeaf(p0), len(recv.nodes[I].value) != 0), !logmath.IsLeaf(p0) && len(recv.nodes[I].value) == 0 && any(ret0 == now(recv.nodes)[I], ret0 == `+h+`)))`))
			k.need("chunk.cached", r.at("store", ""), 1, f(`raw0 == `+h+` && match(self, &X[$FIND(recv, p0)])`))
		}, opaque(f("$CGET"), f("$FIND"), f("$TH")))
		k.when(f("$CSET"), func(r *Run) {
			k.need("chunk.set", r.all(), 1, f(`match(now(recv.nodes), eupd(recv.nodes, $FIND(recv, p0), p1)) && let(Z, lv(N), iter(Z, 0) == $FIND(recv, p0) && iter(Z, N) == 7 && forall(I, N, iter(Z, I + 1) == logmath.ParentStep(iter(Z, I))))`))
			k.need("chunk.reset", r.at("store", "log.nodeData.value"), 1, f(`arg0 == nil && match(self, &Q.value) && match(Q, X[logmath.ParentStep(Y)])`))
		}, opaque(f("$FIND")))
	})
}
