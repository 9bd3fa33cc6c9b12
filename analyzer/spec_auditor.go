package main

import "strings"

func init() {
	register("C23", ``, func(k *Checker) {
		const A = "(*auditor.Auditor)."
		tok := strings.NewReplacer(
			"$EV", "prefix.EvaluateBeforeAfter(recv.config.Config.Suite, p0.Added, p0.Removed, &p0.Proof)",
			"$DP.", "(*algorithms.DataProvider).", "$NEW", "now(recv.state)")
		size := func(f string) string {
			return tok.Replace("any(recv.state == nil && " + strings.ReplaceAll(f, "$n", "0") + ", recv.state != nil && " + strings.ReplaceAll(f, "$n", "recv.state.TreeHead.TreeSize") + ")")
		}
		ev := func(f string) string { return tok.Replace("let(E, $EV, did(E) && res2(E) == nil && " + f + ")") }

		r := k.root(A+"Process", opaque("prefix.EvaluateBeforeAfter", "(*auditor.AuditorState).addedSince", "auditor.mergeInserted", "algorithms.PreviousRightmost", "algorithms.RightmostDistinguished", "log.Append"), provider())
		ok := r.oks()
		k.need("update.time", ok, 1, `any(recv.state == nil, recv.state.TreeHead.Timestamp <= p0.Timestamp)`)
		k.need("update.sorted", ok, 1, `forall(I, len(p0.Added) - 1, cmp(p0.Added[I].VrfOutput, p0.Added[I + 1].VrfOutput) == -1) && forall(I, len(p0.Removed) - 1, cmp(p0.Removed[I].VrfOutput, p0.Removed[I + 1].VrfOutput) == -1)`)
		k.need("update.results", ok, 1, `len(p0.Proof.Results) == len(p0.Added) + len(p0.Removed)`)
		k.need("update.added", ok, 1, `forall(I, len(p0.Added), any(!prefix.PrefixSearchResult.Inclusion(p0.Proof.Results[I]), p0.Removed[J].VrfOutput == p0.Added[I].VrfOutput && J < len(p0.Removed)))`)
		k.need("update.removed", ok, 1, `forall(I, len(p0.Removed), prefix.PrefixSearchResult.Inclusion(p0.Proof.Results[I + len(p0.Added)]))`)
		k.need("update.eligible", ok, 1, size(`let(R, algorithms.PreviousRightmost(recv.config, $n + 1, _), did(R) && res1(R) == nil && any(len(p0.Removed) <= 0, forall(I, len(p0.Removed), res0(R) != nil && !(*auditor.AuditorState).addedSince(recv.state, *res0(R), p0.Removed[I].VrfOutput))))`))
		k.need("update.before", ok, 1, ev(`any(recv.state == nil && match(res0(E), mkslice(suites.CipherSuite.HashSize(recv.config.Config.Suite))), recv.state != nil && res0(E) == recv.state.PrefixTree)`))
		k.need("update.frontier", r.calls("(*algorithms.DataProvider).AddRetained"), 1, `arg1 == nil && any(recv.state == nil && arg2 == mput(mempty(), 0, structs.LogEntry{Timestamp: p0.Timestamp}), recv.state != nil && let(F, math.Frontier(recv.state.TreeHead.TreeSize), len(F) == len(recv.state.Timestamps) && match(arg2, mput(mcomp(mempty(), len(F), F[_], structs.LogEntry{Timestamp: recv.state.Timestamps[_]}), recv.state.TreeHead.TreeSize, structs.LogEntry{Timestamp: p0.Timestamp}))))`)
		k.need("update.provider", r.calls("algorithms.PreviousRightmost"), 1, tok.Replace(`arg2 == algorithms.NewDataProvider(recv.config.Config.Suite, nil) && let(R, $DP.AddRetained(arg2, _, _), did(R) && R == nil)`))
		k.never("update.replaced", ok, `forall(I, len(p0.Added), !prefix.PrefixSearchResult.Inclusion(p0.Proof.Results[I]))`)
		k.some("update.accepted", ok, 1, `recv.state == nil`)
		later := k.sel(ok, `recv.state != nil`)
		k.notAll("update.accepted", later, `let(R, algorithms.PreviousRightmost(_, _, _), res0(R) != nil)`)
		k.notAll("update.accepted", later, `let(R, algorithms.PreviousRightmost(_, _, _), res0(R) == nil)`)
		k.need("update.unchanged", r.errs(), 1, tok.Replace(`$NEW == recv.state`))
		k.need("state.head", ok, 1, size(`$NEW.TreeHead == structs.AuditorTreeHead{Timestamp: p0.Timestamp, TreeSize: $n + 1}`))
		k.need("state.prefix", ok, 1, ev(`$NEW.PrefixTree == res1(E)`))
		k.need("state.log", ok, 1, ev(tok.Replace(`let(H, (*structs.LogEntry).Hash(&structs.LogEntry{Timestamp: p0.Timestamp, PrefixTree: res1(E)}, recv.config.Config.Suite), did(H) && res1(H) == nil && any(recv.state == nil && let(L, log.Append(recv.config.Config.Suite, 0, nil, res0(H)), did(L) && res1(L) == nil && $NEW.FullSubtrees == res0(L)), recv.state != nil && let(L, log.Append(recv.config.Config.Suite, recv.state.TreeHead.TreeSize, recv.state.FullSubtrees, res0(H)), did(L) && res1(L) == nil && $NEW.FullSubtrees == res0(L))))`)))
		k.need("state.times", ok, 1, size(`let(F, math.Frontier($n + 1), match($NEW.Timestamps, comp(len(F), res0($DP.GetTimestamp(_, F[_])))) && forall(I, len(F), let(G, $DP.GetTimestamp(_, F[I]), did(G) && res1(G) == nil)))`))
		k.need("state.inserted", ok, 1, size(`let(D, algorithms.RightmostDistinguished(recv.config, $n + 1, _), did(D) && res1(D) == nil && match($NEW.Inserted, auditor.mergeInserted(X, comp(len(p0.Added), auditor.InsertedVrfOutput{Pos: $n, VrfOutput: p0.Added[_].VrfOutput}), res0(D))) && any(recv.state == nil && X == nil, recv.state != nil && X == recv.state.Inserted))`))

		r = k.root("(*auditor.AuditorState).addedSince")
		const find = `let(S, slices.BinarySearchFunc(recv.Inserted, auditor.InsertedVrfOutput{VrfOutput: p1}, function("auditor.compareInserted")), `
		k.need("inserted.since", r.all(), 1, `any(recv == nil && ret0, recv != nil && `+find+`any(!res1(S) && !ret0, res1(S) && ret0 == (p0 < recv.Inserted[res0(S)].Pos))))`)
		r = k.root("auditor.compareInserted")
		k.need("inserted.order", r.all(), 1, `ret0 == cmp(p0.VrfOutput, p1.VrfOutput)`)

		// which insertions are remembered: all but those already published
		r = k.root("auditor.mergeInserted")
		tok = strings.NewReplacer("$a", "p0[iter(A, X)]", "$b", "p1[iter(B, X)]", "$A0", "iter(A, X + 1) == iter(A, X)", "$A1", "iter(A, X + 1) == iter(A, X) + 1",
			"$B0", "iter(B, X + 1) == iter(B, X)", "$B1", "iter(B, X + 1) == iter(B, X) + 1", "$O0", "iter(O, X + 1) == iter(O, X)", "$O+", "iter(O, X + 1) == cat(iter(O, X), lit",
			"$CMP", "cmp(p0[iter(A, X)].VrfOutput, p1[iter(B, X)].VrfOutput)")
		live := func(x string) string { return "any(p2 == nil, *p2 < " + x + ".Pos)" }
		merge := tok.Replace(`forall(X, N, any(
			p2 != nil && $a.Pos <= *p2 && $A1 && $B0 && $O0,
			p2 != nil && $b.Pos <= *p2 && $A0 && $B1 && $O0,
			` + live("$a") + ` && $CMP == -1 && $A1 && $B0 && $O+($a)),
			` + live("$b") + ` && any($CMP == 1, $CMP != -1 && $CMP != 0) && $A0 && $B1 && $O+($b)),
			$CMP == 0 && $A1 && $B1 && any(` + live("$a") + ` && $O+($a)), ` + live("$b") + ` && $O+($b))),
			$CMP != -1 && $CMP != 0 && $CMP != 1 && $A0 && $B0 && $O0))`)
		rest := func(p, v string) string {
			x := p + "[I + iter(" + v + ", N)]"
			return `match(ret0, cat(iter(O, N), fcomp(M, ` + p + `[_ + iter(` + v + `, N)], ID))) && any(len(` + p + `) <= M + iter(` + v + `, N), len(` + p + `) - iter(` + v + `, N) <= M) && forall(I, M, any(kept(ID, I) && ` + live(x) + `, !kept(ID, I) && p2 != nil && ` + x + `.Pos <= *p2))`
		}
		merged := func(p, v, done string) string {
			return `match(ret0, cat(lv(N), _)) && let(O, lv(0), iter(O, 0) == lit() && let(A, lv(0), iter(A, 0) == 0 && let(B, lv(0), iter(B, 0) == 0 && ` + done + ` && ` + rest(p, v) + ` && ` + merge + `)))`
		}
		pts := k.sel(r.oks(), `let(A, lv(0), iter(A, 0) == 0)`)
		if len(pts) == 0 {
			k.undecided("merge.kept", "auditor.mergeInserted", "the merge is not a loop that appends")
		} else {
			k.need("merge.kept", r.oks(), 1, "any("+merged("p0", "A", "len(p1) <= iter(B, N)")+", "+merged("p1", "B", "len(p0) <= iter(A, N)")+")")
		}

		// what is signed, and when it is seen
		r = k.root(A + "Commit")
		const H = `recv.state.TreeHead`
		const sig = `let(R, log.Root(recv.config.Config.Suite, ` + H + `.TreeSize, recv.state.FullSubtrees), res1(R) == nil && let(B, structs.Marshal(&structs.AuditorTreeHeadTBS{Config: recv.config, Timestamp: ` + H + `.Timestamp, TreeSize: ` + H + `.TreeSize, Root: res0(R)}), res1(B) == nil && let(S, suites.SigningPrivateKey.Sign(recv.auditorKey, res0(B)), `
		k.need("commit.head", r.oks(), 1, `recv.state != nil && any(`+H+`.Signature != nil && any(ret0 == &`+H+`, *ret0 == `+H+`), `+H+`.Signature == nil && `+sig+`did(S) && res1(S) == nil && ret0.Signature == res0(S) && ret0.Timestamp == `+H+`.Timestamp && ret0.TreeSize == `+H+`.TreeSize))))`)
		k.need("commit.state", r.oks(), 1, `any(`+H+`.Signature != nil && now(recv.state) == recv.state, any(ret0 == &now(recv.state).TreeHead, now(recv.state.TreeHead) == *ret0) && now(recv.state.PrefixTree) == recv.state.PrefixTree && now(recv.state.FullSubtrees) == recv.state.FullSubtrees && now(recv.state.Timestamps) == recv.state.Timestamps && now(recv.state.Inserted) == recv.state.Inserted)`)
		k.need("commit.stored", r.oks(), 1, `any(`+H+`.Signature != nil, let(P, db.AuditorStore.PutState(recv.tx, _), did(P) && P == nil))`)
		k.need("commit.unchanged", r.errs(), 1, `now(recv.state) == recv.state && now(recv.state.TreeHead) == recv.state.TreeHead`)
		r = k.root(A+"Commit", opaque("(*auditor.AuditorState).Marshal"))
		k.need("commit.bytes", r.calls("db.AuditorStore.PutState"), 1, `let(M, (*auditor.AuditorState).Marshal(&P), did(M) && res1(M) == nil && arg1 == res0(M) && P.TreeHead.Timestamp == recv.state.TreeHead.Timestamp && P.TreeHead.TreeSize == recv.state.TreeHead.TreeSize && P.PrefixTree == recv.state.PrefixTree && P.FullSubtrees == recv.state.FullSubtrees && P.Timestamps == recv.state.Timestamps && P.Inserted == recv.state.Inserted && match(P.TreeHead.Signature, res0(suites.SigningPrivateKey.Sign(_, _))))`)

		r = k.root("auditor.NewAuditor")
		k.need("auditor.config", r.oks(), 1, `p0.Config.Mode == structs.ThirdPartyAuditing && suites.SigningPublicKey.Bytes(p0.Config.AuditorPublicKey) == suites.SigningPublicKey.Bytes(suites.SigningPrivateKey.Public(p1)) && ret0.config == p0 && ret0.auditorKey == p1 && ret0.tx == p2`)
	})
}
