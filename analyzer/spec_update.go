package main

import "strings"

func init() {
	register("C22", ``, func(k *Checker) {
		const T, U, PPH = "(*transparency.Tree).", "(*transparency.updater).", "(*algorithms.ProducedProofHandle)."
		tok := strings.NewReplacer("$T.", T, "$U.", U, "$PPH.", PPH, "$DP.", "(*algorithms.DataProvider).", "$CFG", "(*structs.PrivateConfig).Public(&recv.tree.config)",
			"$FTH", T+"fullTreeHead(recv.tree, recv.last)", "$GV", T+"getVersion(recv.tree, recv.label, narrow_uint32(_ + recv.ver))")

		// what a request is turned into
		start := func(op string) *Run {
			return k.root(T+op, opaque(T+"getIndex", U+"process"))
		}
		r := start("Update")
		k.need("update.mode", r.oks(), 1, `recv.config.Config.Mode != structs.ThirdPartyManagement`)
		k.need("update.started", r.oks(), 1, `let(S, started(UP), did(S) && deref(UP).ch == ret0)`)
		common := `arg1.ch != nil && arg1.tree == recv && arg1.ctx == p0 && arg1.label == p1.Label && arg1.last == p1.Last && let(X, $T.getIndex(recv, p1.Label), did(X) && res1(X) == nil && arg1.index == res0(X)) && any(p1.GreatestVersion == nil && arg1.ver == 0, p1.GreatestVersion != nil && arg1.ver == *p1.GreatestVersion + 1)`
		k.need("update.request", r.at("go", U+"process"), 1, tok.Replace(common+` && arg1.signedVer == nil`))
		k.need("update.values", r.at("go", U+"process"), 1, `match(arg1.values, comp(len(p1.Values), structs.UpdateValue{Value: p1.Values[_].Value}))`)
		r = start("ManagerUpdate")
		k.need("manager.mode", r.oks(), 1, `recv.config.Config.Mode == structs.ThirdPartyManagement`)
		k.need("manager.started", r.oks(), 1, `let(S, started(UP), did(S) && deref(UP).ch == ret0)`)
		k.need("manager.request", r.at("go", U+"process"), 1, tok.Replace(common+` && arg1.values == p1.Values && any(arg1.signedVer == &p1.SignedVersion, *arg1.signedVer == p1.SignedVersion)`))
		k.need("manager.signed", r.at("go", U+"process"), 1, `forall(I, len(p1.Values), any(let(X, res0(structs.Marshal(&structs.UpdateTBS{Config: (*structs.PrivateConfig).Public(&recv.config), Label: p1.Label, Version: p1.SignedVersion + narrow_uint32(I), Value: p1.Values[I].Value})), suites.SigningPublicKey.Verify(recv.config.Config.LeafPublicKey, X, p1.Values[I].Signature)), let(X, res0(structs.Marshal(&structs.UpdateTBS{Config: (*structs.PrivateConfig).Public(&recv.config), Label: p1.Label, Version: p1.SignedVersion + I, Value: p1.Values[I].Value})), suites.SigningPublicKey.Verify(recv.config.Config.LeafPublicKey, X, p1.Values[I].Signature))))`)

		// the stream of responses
		r = k.root(U+"process", opaque(U+"next", U+"reloadTree", U+"send"))
		k.need("stream.closed", r.all(), 1, `did(close(recv.ch))`)
		k.need("stream.next", r.calls(U+"next"), 1, `now(recv.ver) < len(now(recv.index))`)
		k.need("stream.values", r.calls(U+"next"), 1, tok.Replace(`any(arg1, let(R, $U.reloadTree(recv, P), did(R) && R == nil && match(arg1, now(recv.index)[now(recv.ver)] != P)))`))
		k.need("stream.sent", r.calls(U+"send"), 1, tok.Replace(`any(arg1.Out == nil && arg1.Err != nil, let(N, $U.next(recv, _), did(N) && arg1.Out == res0(N) && arg1.Err == res1(N)))`))
		k.need("stream.submitted", r.at("send", "select"), 1, `self == now(recv.tree.updater) && now(recv.tree.updater) != nil && len(now(recv.values)) != 0 && len(now(recv.index)) <= now(recv.ver) && arg0.Label == now(recv.label) && arg0.StartingVersion == now(recv.signedVer) && arg0.Values == now(recv.values) && arg0.Response != nil`)
		k.need("stream.sequenced", r.calls(U+"reloadTree"), 1, `let(S, selected(_, _), res0(S) == 0 && res1(S) && arg1 == res2(S))`)
		k.need("stream.ended", r.all(), 1, tok.Replace(`any(did($U.send(recv, R)) && R.Err != nil, let(D, $U.send(recv, _), !D), let(S, selected(_, _), res0(S) == 1), len(now(recv.values)) == 0 && len(now(recv.index)) <= now(recv.ver), let(L, $U.reloadTree(recv, _), did(L) && L == nil && len(now(recv.index)) <= now(recv.ver)))`))

		r = k.root(U+"reloadTree", opaque("transparency.NewTree", T+"getIndex"))
		k.need("reload.tree", r.oks(), 1, tok.Replace(`let(N, transparency.NewTree(recv.tree.config, recv.tree.tx, recv.tree.updater), res1(N) == nil && now(recv.tree) == res0(N) && res0(N).treeHead != nil && p0 < res0(N).treeHead.TreeSize && let(X, $T.getIndex(res0(N), recv.label), did(X) && res1(X) == nil && now(recv.index) == res0(X) && 0 < len(res0(X)) && p0 <= res0(X)[len(res0(X)) - 1]))`))

		// every response
		r = k.root(U+"next", opaque(T+"fullTreeHead", T+"updateView", T+"getVersion", T+"getBinaryLadder", "transparency.updateLadderVersions"), provider())
		k.need("response.head", r.oks(), 1, tok.Replace(`let(F, $FTH, res4(F) == nil && ret0.FullTreeHead == *res0(F) && let(P, $DP.Output(_, res1(F), res2(F), res3(F)), did(P) && res1(P) == nil && ret0.Update == *res0(P)))`))
		k.need("response.view", r.oks(), 1, tok.Replace(`let(V, $T.updateView(recv.tree, recv.last, _), did(V) && V == nil)`))
		k.need("response.position", r.oks(), 1, `ret0.Position == recv.index[recv.ver]`)
		k.need("response.info", r.oks(), 1, tok.Replace(`match(ret0.Info, comp(N, structs.UpdateInfo{Opening: res0($GV).Opening, UpdateSuffix: res0($GV).Value.UpdateSuffix})) && now(recv.ver) == recv.ver + N && any(len(recv.index) <= recv.ver + N, recv.index[recv.ver + N] != ret0.Position) && forall(I, N, recv.index[I + recv.ver] == ret0.Position)`))
		k.need("response.values", r.oks(), 1, tok.Replace(`match(ret0.Values, fcomp(now(recv.ver) - recv.ver, structs.LabelValue{Value: res0($GV).Value.Value}, ID)) && forall(I, now(recv.ver) - recv.ver, any(p0 && kept(ID, I), !p0 && !kept(ID, I)))`))
		k.need("response.ladder", r.oks(), 1, tok.Replace(`let(L, $T.getBinaryLadder(recv.tree, recv.label, transparency.updateLadderVersions(narrow_uint32(recv.ver), narrow_uint32(now(recv.ver) - 1)), recv.ver - 1, recv.tree.treeHead.TreeSize), did(L) && res1(L) == nil && ret0.BinaryLadder == res0(L))`))
		k.need("response.monitor", r.oks(), 1, tok.Replace(`let(M, algorithms.NewMonitor($CFG, res1($FTH), _), res1(M) == nil && let(C, (*algorithms.Monitor).Update(res0(M), recv.index[recv.ver], now(recv.ver) - recv.ver), did(C) && C == nil))`))
		k.need("response.owner", r.calls("(*algorithms.Monitor).Update"), 1, `now(arg0.Owner) != nil`)

		r = k.root("transparency.updateLadderVersions")
		const all = `let(Q, math.SearchBinaryLadder(p1, p1, nil, nil), any(match(S, mcomp(mcomp(mempty(), len(Q), Q[_], _), N, _ + p0, _)), match(S, mcomp(mcomp(mempty(), N, _ + p0, _), len(Q), Q[_], _)))) && p1 <= N + p0 && forall(I, N, I + p0 < p1)`
		k.need("ladder.versions", r.oks(), 1, `match(ret0, sorted(comp(len(D), mkey(D, _)))) && any(p0 == 0 && match(D, mdel(S, 0)) && `+all+`, p0 != 0 && let(G, math.SearchBinaryLadder(p0 - 1, p0 - 1, nil, nil), let(L, lv(0), iter(L, len(G)) == D && iter(L, 0) == S && `+all+` && forall(I, len(G), mdel(iter(L, I), G[I]) == iter(L, I + 1)))))`)
	})
}
