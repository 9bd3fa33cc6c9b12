package main

import "strings"

func init() {
	const T = "(*transparency.Tree)."
	const GROUP, LABEL, ISSUE, VALID = T + "groupByLabel", T + "mutateLabel", T + "issueTreeHead", "(*transparency.labelMutation).validate"
	const VRF, PUTV, PUTI = T + "computeVrfOutput", T + "putVersion", T + "putIndex"
	tok := strings.NewReplacer("$GROUP", GROUP, "$LABEL", LABEL, "$ISSUE", ISSUE, "$VALID", VALID, "$PM", "(*prefix.Tree).Mutate", "$DP", "(*algorithms.DataProvider)", "$ST", "db.TransparencyStore",
		"$VRF", VRF, "$PUTV", PUTV, "$PUTI", PUTI, "$NOW", "(time.Time).UnixMilli(time.Now())")
	register("C19", ``, func(k *Checker) {
		r := k.root(T+"Mutate", opaque(GROUP, LABEL, ISSUE, VALID))
		const PMC = `(*prefix.Tree).Mutate(prefix.NewTree(recv.config.Config.Suite, db.TransparencyStore.PrefixStore(recv.tx)), N, A, R)`
		g := func(x string) string {
			return tok.Replace(`let(G, $GROUP(recv, p0, p1), did(G) && res1(G) == nil && let(P, ` + PMC + `, did(P) && res3(P) == nil && any(recv.treeHead == nil && N == 0, recv.treeHead != nil && N == recv.treeHead.TreeSize) && ` + x + `))`)
		}
		k.need("mutate.prefix", r.oks(), 1, g(`match(A, sorted(AA, _)) && match(R, sorted(RR, _)) && match(AA, rep(NN, res0($LABEL(recv, N, res0(G)[_])))) && match(RR, rep(NN, res1($LABEL(recv, N, res0(G)[_])))) && NN == len(res0(G)) && forall(I, NN, let(L, $LABEL(recv, N, res0(G)[I]), did(L) && res2(L) == nil))`))
		k.need("mutate.head", r.oks(), 1, g(`let(H, $ISSUE(recv, N, $NOW, res0(P)), did(H) && H == nil)`))
		k.need("mutate.time", r.oks(), 1, tok.Replace(`any(recv.treeHead == nil, recv.treeHead.TreeSize <= 0, let(TS, $DP.GetTimestamp(_, recv.treeHead.TreeSize - 1), res1(TS) == nil && res0(TS) <= $NOW))`))
		k.need("mutate.update", r.oks(), 1, g(`ret0.Timestamp == $NOW && ret0.Added == A && ret0.Proof == *res1(P) && any(len(ret0.Removed) == len(R), len(ret0.Removed) == len(res2(P))) && forall(I, len(ret0.Removed), ret0.Removed[I].VrfOutput == R[I] && ret0.Removed[I].Commitment == res2(P)[I])`))
		k.need("mutate.validated", r.calls(LABEL), 1, tok.Replace(`forall(I, len(res0($GROUP(recv, p0, p1))), $VALID(&res0($GROUP(recv, p0, p1))[I], D) == nil)`))
		k.need("mutate.eligible", r.calls(VALID), 1, tok.Replace(`any(recv.treeHead == nil && N == 0, recv.treeHead != nil && N == recv.treeHead.TreeSize) && let(V, algorithms.PreviousRightmost((*structs.PrivateConfig).Public(&recv.config), N + 1, PR), res1(V) == nil && arg1 == res0(V) && let(AR, $DP.AddRetained(PR, nil, X), AR == nil && X == mput(mempty(), N, structs.LogEntry{Timestamp: $NOW})))`))
		k.never("mutate.failed", r.errs(), `did((*transparency.Tree).issueTreeHead(_, _, _, _)) && (*transparency.Tree).issueTreeHead(_, _, _, _) == nil`)
		k.when(VALID, func(r *Run) {
			k.need("remove.eligible", r.oks(), 1, `any(!recv.remove, len(recv.index) <= 0, p0 != nil && recv.index[len(recv.index) - 1] <= *p0)`)
		})
		k.when(LABEL, func(r *Run) {
			k.need("remove.index", r.oks(), 1, tok.Replace(`any(!p1.remove, len(p1.index) <= 0, let(D, $ST.DeleteIndex(recv.tx, p1.label), did(D) && D == nil))`))
			k.need("remove.versions", r.oks(), 1, tok.Replace(`any(!p1.remove, len(p1.index) <= 0, forall(I, len(p1.index), let(D, $ST.DeleteVersion(recv.tx, p1.label, X), did(D) && D == nil) && let(V, $VRF(recv, p1.label, X), did(V) && res2(V) == nil && ret1[I] == res0(V)) && any(X == I, X == narrow_uint32(I))))`))
			k.need("remove.outputs", r.oks(), 1, `any(p1.remove && len(p1.index) > 0 && len(ret1) == len(p1.index), len(ret1) == 0 && any(!p1.remove, len(p1.index) <= 0))`)
			k.need("add.versions", r.oks(), 1, tok.Replace(`len(ret0) == len(p1.add) && any(len(p1.add) == 0, forall(I, len(p1.add), let(V, $VRF(recv, p1.add[I].Label, X), did(V) && res2(V) == nil && ret0[I].VrfOutput == res0(V) && let(P, $PUTV(recv, p1.add[I].Label, X, p1.add[I].Value), did(P) && res1(P) == nil && ret0[I].Commitment == res0(P))) && any(X == I && p1.remove, X == narrow_uint32(len(p1.index) + I) && any(!p1.remove, len(p1.index) <= 0))))`))
			k.need("add.index", r.oks(), 1, tok.Replace(`any(len(p1.add) == 0, any(let(P, $PUTI(recv, p1.add[0].Label, X), did(P) && P == nil), let(P, $PUTI(recv, p1.label, X), did(P) && P == nil)) && any(p1.remove && len(X) == len(p1.add) && forall(J, len(p1.add), X[J] == p0), any(!p1.remove, len(p1.index) <= 0) && match(X, cat(p1.index, comp(len(p1.add), p0)))))`))
		}, opaque(VRF, PUTV, PUTI))
		k.when(VRF, func(r *Run) {
			k.need("vrf.input", r.oks(), 1, `let(M, structs.Marshal(iface(&structs.VrfInput{Label: p0, Version: p1})), res1(M) == nil && let(P, vrf.PrivateKey.Prove(recv.config.VrfKey, res0(M)), ret0 == res0(P) && ret1 == res1(P)))`)
		})
		k.when(PUTV, func(r *Run) {
			k.need("version.stored", r.oks(), 1, tok.Replace(`let(M, structs.Marshal(iface(&structs.OpeningAndValue{Opening: O, Value: p2})), res1(M) == nil && let(P, $ST.PutVersion(recv.tx, p0, p1, res0(M)), did(P) && P == nil)) && O == commitments.GenerateOpening(recv.config.Config.Suite) && let(M, structs.Marshal(iface(&structs.CommitmentValue{Label: p0, Version: p1, Update: p2})), res1(M) == nil && ret0 == commitments.Commit(recv.config.Config.Suite, O, res0(M)))`))
		})
		k.when(GROUP, func(r *Run) {
			k.need("group.index", r.oks(), 1, `let(B, (*transparency.Tree).batchGetIndex(recv, L), did(B) && res1(B) == nil && len(ret0) == len(L) && forall(I, len(ret0), ret0[I].label == L[I] && ret0[I].index == res0(B)[I]))`)
			key := func(K, E string) string {
				return `any(match(` + K + `, text_xb(` + E + `)), match(` + K + `, string(` + E + `)))`
			}
			all := `match(M, mcomp(mcomp(mempty(), len(p0), KA, p0[_].Label), len(p1), KB, p1[_])) && ` + key("KA", "p0[_].Label") + ` && ` + key("KB", "p1[_]")
			k.need("group.labels", r.oks(), 1, `len(ret0) == len(M) && forall(I, len(ret0), match(ret0[I].label, lookup(M, mkey(M, I)))) && `+all)
			k.need("group.remove", r.oks(), 1, `forall(I, len(ret0), match(ret0[I].label, lookup(M, mkey(M, I))) && match(ret0[I].remove, has(R, mkey(M, I)))) && match(R, mcomp(mempty(), len(p1), KX, _)) && KX == KB && `+all)
			k.need("group.add", r.oks(), 1, `forall(I, len(ret0), match(ret0[I].label, lookup(M, mkey(M, I))) && match(ret0[I].add, get(G, mkey(M, I)))) && match(G, lv(len(p0))) && iter(G, 0) == mempty() && forall(J, len(p0), match(iter(G, J + 1), mput(iter(G, J), X, cat(get(iter(G, J), X), lit(p0[J])))) && `+key("X", "p0[J].Label")+`)`)
		}, opaque("(*transparency.Tree).batchGetIndex"))
		k.when("(*transparency.Tree).batchGetIndex", func(r *Run) {
			k.need("index.batch", r.oks(), 1, tok.Replace(`len(ret0) == len(p0) && let(B, $ST.BatchGetIndex(recv.tx, p0), did(B) && res1(B) == nil && len(res0(B)) == len(p0))`))
		})
	})
	register("C20", ``, func(k *Checker) {
		entryHash(k)
		r := k.root(ISSUE)
		k.need("issue.entry", r.oks(), 1, tok.Replace(`let(M, structs.Marshal(iface(&structs.LogEntry{Timestamp: p1, PrefixTree: p2})), res1(M) == nil && let(P, $ST.Put(recv.tx, p0, res0(M)), did(P) && P == nil))`))
		k.need("issue.leaf", r.oks(), 1, `let(H, (*structs.LogEntry).Hash(&structs.LogEntry{Timestamp: p1, PrefixTree: p2}, recv.config.Config.Suite), res1(H) == nil && let(A, (*log.Tree).Append(log.NewTree(recv.config.Config.Suite, db.TransparencyStore.LogStore(recv.tx)), p0, res0(H)), did(A) && res1(A) == nil))`)
		signed := `let(R, log.Root(recv.config.Config.Suite, p0 + 1, res0((*log.Tree).Append(log.NewTree(recv.config.Config.Suite, db.TransparencyStore.LogStore(recv.tx)), p0, res0((*structs.LogEntry).Hash(&structs.LogEntry{Timestamp: p1, PrefixTree: p2}, recv.config.Config.Suite))))), res1(R) == nil && let(M, structs.Marshal(iface(&structs.TreeHeadTBS{Config: (*structs.PrivateConfig).Public(&recv.config), TreeSize: p0 + 1, Root: res0(R)})), res1(M) == nil && let(S, suites.SigningPrivateKey.Sign(recv.config.SignatureKey, res0(M)), res1(S) == nil && H == structs.TreeHead{TreeSize: p0 + 1, Signature: res0(S)})))`
		committed := `let(C, db.TransparencyStore.Commit(recv.tx), did(C) && C == nil)`
		k.need("issue.kept", r.all(), 2, `any(now(recv.treeHead) == recv.treeHead, `+committed+`)`)
		k.need("issue.given", r.oks(), 1, committed+` && let(H, deref(now(recv.treeHead)), let(M, structs.Marshal(iface(&H)), res1(M) == nil && let(P, db.TransparencyStore.PutTreeHead(recv.tx, res0(M)), did(P) && P == nil)))`)
		k.need("issue.signed", r.oks(), 1, signed+` && let(M, structs.Marshal(iface(&H)), res1(M) == nil)`)
	})
}

func init() {
	const T = "(*transparency.Tree)."
	register("C21", ``, func(k *Checker) {
		const ALG, DP, PPH = "algorithms.", "(*algorithms.DataProvider).", "(*algorithms.ProducedProofHandle)."
		tok := strings.NewReplacer("$T.", T, "$FTH", T+"fullTreeHead(recv, p1.Last)", "$DP.", DP, "$PPH.", PPH, "$CFG", "(*structs.PrivateConfig).Public(&recv.config)", "$SUITE", "recv.config.Config.Suite")
		r := k.root(T+"Search", opaque(T+"fullTreeHead", T+"getIndex", T+"getVersion", T+"computeVrfOutput", T+"updateView"), provider())
		// the version that the search is for
		target := `let(X, $T.getIndex(recv, p1.Label), res1(X) == nil && any(p1.Version != nil && V == *p1.Version, p1.Version == nil && len(res0(X)) <= 0 && V == 0, p1.Version == nil && 0 < len(res0(X)) && V == narrow_uint32(len(res0(X)) - 1))) && `
		k.need("search.head", r.oks(), 1, tok.Replace(`let(F, $FTH, res4(F) == nil && ret0.FullTreeHead == *res0(F) && let(P, $DP.Output(_, res1(F), res2(F), res3(F)), did(P) && res1(P) == nil && ret0.Search == *res0(P)))`))
		k.need("search.view", r.oks(), 1, tok.Replace(`let(U, $T.updateView(recv, p1.Last, _), did(U) && U == nil)`))
		k.need("search.version", r.oks(), 1, tok.Replace(target+`any(p1.Version != nil && ret0.Version == nil, p1.Version == nil && *ret0.Version == V)`))
		k.need("search.value", r.oks(), 1, tok.Replace(target+`let(G, $T.getVersion(recv, p1.Label, V), did(G) && res1(G) == nil && ret0.Opening == res0(G).Opening && ret0.Value == res0(G).Value)`))
		k.need("search.searched", r.oks(), 1, tok.Replace(target+`any(p1.Version != nil && let(S, algorithms.FixedVersionSearch($CFG, V, SZ, _), any(SZ == recv.treeHead.TreeSize, let(F, $FTH, res4(F) == nil && SZ == res1(F))) && did(S) && any(res1(S) == nil, res1(S) == algorithms.ErrLabelNotFound)), p1.Version == nil && let(S, algorithms.GreatestVersionSearch($CFG, V, SZ, _), any(SZ == recv.treeHead.TreeSize, let(F, $FTH, res4(F) == nil && SZ == res1(F))) && did(S) && any(res1(S) == nil, res1(S) == algorithms.ErrLabelNotFound)))`))
		ladder := target + `let(L, math.SearchBinaryLadder(V, V, nil, nil), len(ret0.BinaryLadder) == len(L) && `
		k.need("search.ladder", r.oks(), 1, tok.Replace(ladder+`forall(I, len(L), let(O, $T.computeVrfOutput(recv, p1.Label, L[I]), did(O) && res2(O) == nil && let(A, $PPH.AddVersion(_, L[I], res0(O)), did(A) && A == nil))))`))
		k.need("search.proofs", r.oks(), 1, tok.Replace(ladder+`match(ret0.BinaryLadder, ffill(BB, len(L), _, ID)) && forall(I, len(L), BB[I].Proof == res1($T.computeVrfOutput(recv, p1.Label, L[I])) && BB[I].Commitment == nil))`))
		k.need("search.commitments", r.oks(), 1, tok.Replace(ladder+`match(ret0.BinaryLadder, ffill(BB, len(L), structs.BinaryLadderStep{Proof: res1($T.computeVrfOutput(recv, p1.Label, L[_])), Commitment: $PPH.GetCommitment(_, L[_])}, ID)) && forall(I, len(L), any(kept(ID, I) && any(p1.Version != nil && L[I] != V, p1.Version == nil && len(res0(X)) != L[I] + 1), !kept(ID, I) && any(p1.Version != nil && L[I] == V, p1.Version == nil && len(res0(X)) == L[I] + 1))))`))

		r = k.root(T + "fullTreeHead")
		k.need("head.given", r.oks(), 1, `recv.treeHead != nil && ret1 == recv.treeHead.TreeSize && any(p0 != nil && *p0 != 0 && *p0 == ret1 && ret3 == p0 && ret2 == nil && ret0.TreeHead == nil && ret0.AuditorTreeHead == nil, ret0.TreeHead == recv.treeHead && ret0.AuditorTreeHead == recv.auditorHead && any(recv.auditorHead == nil && ret2 == nil, recv.auditorHead != nil && any(ret2 == &recv.auditorHead.TreeSize, *ret2 == recv.auditorHead.TreeSize)) && any(p0 == nil && ret3 == nil, p0 != nil && *p0 != 0 && *p0 <= ret1 && *p0 != ret1 && ret3 == p0))`)
		r = k.root(T+"updateView", provider())
		k.need("view.updated", r.oks(), 1, tok.Replace(`let(U, algorithms.UpdateView($CFG, recv.treeHead.TreeSize, p0, p1), did(U) && U == nil)`))
		k.need("view.retained", r.oks(), 1, tok.Replace(`any(p0 == nil, let(F, math.Frontier(*p0), let(B, db.TransparencyStore.BatchGet(recv.tx, F), did(B) && res1(B) == nil && forall(I, len(F), has(res0(B), F[I])) && let(A, $DP.AddRetained(p1, nil, M), did(A) && A == nil && match(M, mcomp(mempty(), len(F), F[_], *res0(structs.NewLogEntry($SUITE, &lookup(res0(B), F[_])))))))))`))
		r = k.root(T+"getIndex", opaque(T+"batchGetIndex"))
		k.need("index.existing", r.oks(), 1, `let(B, (*transparency.Tree).batchGetIndex(recv, LL), did(B) && res1(B) == nil && len(LL) == 1 && LL[0] == p0) && any(len(ret0) <= 0, ret0[len(ret0) - 1] < recv.treeHead.TreeSize)`)
		r = k.root(T + "getVersion")
		k.need("version.read", r.oks(), 1, tok.Replace(`let(G, db.TransparencyStore.GetVersion(recv.tx, p0, p1), did(G) && res1(G) == nil && any(res0(G) == nil && ret0.Value.Value == nil && len(ret0.Opening) == suites.CipherSuite.CommitmentOpeningSize($SUITE) && any(recv.config.Config.Mode != structs.ThirdPartyManagement, ret0.Value.UpdateSuffix.Signature != nil), res0(G) != nil && let(D, structs.NewOpeningAndValue($CFG, B), did(D) && res1(D) == nil && ret0 == res0(D))))`))
		r = k.root("transparency.verifyEntries")
		k.need("monitor.sorted", r.oks(), 1, `any(len(p0) <= 1, forall(I, len(p0) - 1, p0[I].Position < p0[I + 1].Position && p0[I].Version < p0[I + 1].Version))`)
		k.need("monitor.entries", r.oks(), 1, `any(len(p0) <= 0, forall(I, len(p0), p0[I].Version < len(p1) && any(p0[I].Position == p1[p0[I].Version], p0[I].Position == math.RightDirectPath(p1[p0[I].Version], p2)[W])))`)
		k.need("monitor.map", r.oks(), 1, `match(ret0, mcomp(mempty(), len(p0), p0[_].Position, p0[_].Version))`)

		r = k.root(T+"getBinaryLadder", opaque(T+"computeVrfOutput", "(*prefix.Tree).Search", "prefix.NewTree"))
		k.need("ladder.proofs", r.oks(), 1, tok.Replace(`len(ret0) == len(p1) && forall(I, len(p1), let(O, $T.computeVrfOutput(recv, p0, p1[I]), did(O) && res2(O) == nil && ret0[I].Proof == res1(O)))`))
		found := `let(S, (*prefix.Tree).Search(TT, QQ), did(S) && res1(S) == nil && match(TT, prefix.NewTree($SUITE, db.TransparencyStore.PrefixStore(recv.tx))) && len(QQ) == 1 && QQ[0].Version == p3 && match(QQ[0].VrfOutputs, fcomp(len(p1), res0($T.computeVrfOutput(recv, p0, p1[_])), ID))`
		k.need("ladder.searched", r.oks(), 1, tok.Replace(found+` && forall(I, len(p1), any(kept(ID, I) && p1[I] <= p2, !kept(ID, I) && p1[I] > p2)))`))
		k.need("ladder.commitments", r.oks(), 1, tok.Replace(found+` && match(ret0, fill(_, len(res0(S)[0].Commitments), structs.BinaryLadderStep{Commitment: res0(S)[0].Commitments[_]})))`))
		r = k.root("transparency.allLadderVersions")
		k.need("ladder.all", r.oks(), 1, `match(ret0, sorted(comp(len(D), mkey(D, _)))) && let(L, lv(0), iter(L, len(p0)) == D && any(iter(L, 0) == mput(mempty(), 0, _), has(iter(L, 0), 0)) && forall(I, len(p0), let(B, math.SearchBinaryLadder(p0[I], p0[I], nil, nil), iter(L, I + 1) == mcomp(iter(L, I), len(B), B[_], _))))`)

		for _, op := range []string{"ContactMonitor", "OwnerInit", "OwnerMonitor"} {
			r := k.root(T+op, opaque(T+"fullTreeHead", T+"getIndex", T+"computeVrfOutput", T+"updateView", T+"getBinaryLadder", "transparency.verifyEntries", "transparency.allLadderVersions", "(*algorithms.OwnerState).GreatestVersionAt", "(*algorithms.OwnerState).SetStarting"), provider())
			const MON = `algorithms.NewMonitor((*structs.PrivateConfig).Public(&recv.config), res1((*transparency.Tree).fullTreeHead(recv, p1.Last)), _)`
			done := func(m, args string) string {
				return `let(M, ` + MON + `, res1(M) == nil && let(C, (*algorithms.Monitor).` + m + `(res0(M)` + args + `), did(C) && `
			}
			out := "Monitor"
			if op == "OwnerInit" {
				out = "Init"
			}
			k.need("monitor.head", r.oks(), 1, tok.Replace(`let(F, $FTH, res4(F) == nil && ret0.FullTreeHead == *res0(F) && let(P, $DP.Output(_, res1(F), res2(F), res3(F)), did(P) && res1(P) == nil && ret0.`+out+` == *res0(P)))`))
			k.need("monitor.view", r.oks(), 1, tok.Replace(`let(U, $T.updateView(recv, p1.Last, _), did(U) && U == nil)`))
			k.need("monitor.versions", r.oks(), 1, tok.Replace(`let(V, $PPH.RequiredVersions(_), let(X, $T.getIndex(recv, p1.Label), res1(X) == nil) && forall(I, len(V), let(O, $T.computeVrfOutput(recv, p1.Label, mkey(V, I)), did(O) && res2(O) == nil && let(A, $PPH.AddVersion(_, mkey(V, I), res0(O)), did(A) && A == nil))))`))
			if op != "OwnerInit" {
				k.need("monitor.contact", r.oks(), 1, done("ContactMonitor", "")+`C == nil))`)
				k.need("monitor.verified", r.calls("(*algorithms.Monitor).ContactMonitor"), 1, tok.Replace(`let(V, transparency.verifyEntries(p1.Entries, res0($T.getIndex(recv, p1.Label)), res1($FTH)), res1(V) == nil && now(arg0.Contact).Ptrs == res0(V))`))
			}
			switch op {
			case "OwnerInit":
				k.need("init.walked", r.oks(), 1, done("InitEntries", ", p1.Start")+`res1(C) == nil && `+done("OwnerInit", ", p1.Start, ret0.GreatestVersions")+`res1(C) == nil))))`)
				const GVA = "(*algorithms.OwnerState).GreatestVersionAt"
				k.need("init.versions", r.oks(), 1, done("InitEntries", ", p1.Start")+`let(V, ret0.GreatestVersions, forall(J, len(V), match(V[J], narrow_uint32(`+GVA+`(_, E))) && E == res0(C)[J]) && any(len(V) == len(res0(C)), let(G, `+GVA+`(_, E), any(G == -1, G <= -1) && E == res0(C)[len(V)])))))`)
				k.need("init.known", r.calls(GVA), 1, tok.Replace(`arg0.VerAtStarting == -1 && let(X, $T.getIndex(recv, p1.Label), res1(X) == nil && arg0.UpcomingVers == res0(X))`))
				k.need("init.ladder", r.oks(), 1, tok.Replace(`let(L, $T.getBinaryLadder(recv, p1.Label, transparency.allLadderVersions(ret0.GreatestVersions), `+GVA+`(_, p1.Start), res1($FTH)), did(L) && res1(L) == nil && ret0.BinaryLadder == res0(L))`))
			case "OwnerMonitor":
				k.need("owner.walked", r.oks(), 1, done("OwnerMonitor", "")+`C == nil))`)
				k.need("owner.start", r.oks(), 1, `p1.Start < recv.treeHead.TreeSize`)
				k.need("owner.version", r.oks(), 1, tok.Replace(`any(p1.GreatestVersion == nil, *p1.GreatestVersion < len(res0($T.getIndex(recv, p1.Label))))`))
				k.need("owner.state", r.calls("(*algorithms.OwnerState).SetStarting"), 1, tok.Replace(`arg1 == p1.Start && arg0.VerAtStarting == -1 && let(X, $T.getIndex(recv, p1.Label), res1(X) == nil && arg0.UpcomingVers == res0(X))`))
				k.need("owner.upcoming", r.calls("(*algorithms.Monitor).ContactMonitor"), 1, `let(S, (*algorithms.OwnerState).SetStarting(_, p1.Start), did(S) && let(U, now(arg0.Owner), deref(U).Starting == after(S, 0).Starting && deref(U).VerAtStarting == after(S, 0).VerAtStarting && any(p1.GreatestVersion == nil && len(deref(U).UpcomingVers) == 0, match(deref(U).UpcomingVers, P[:*p1.GreatestVersion - after(S, 0).VerAtStarting]) && P == after(S, 0).UpcomingVers)))`)
				k.need("owner.known", r.calls("(*algorithms.Monitor).OwnerMonitor"), 1, `let(S, (*algorithms.OwnerState).SetStarting(_, p1.Start), did(S) && let(B, after(S, 0).VerAtStarting, any(B <= -1, p1.GreatestVersion != nil && B <= *p1.GreatestVersion)))`)
			}
		}
	})
}
