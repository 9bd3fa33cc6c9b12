package main

import "strings"

func init() {
	const DP = "(*algorithms.DataProvider)."
	const RP = "(*algorithms.ReceivedProofHandle)."
	register("C08", `Proof consumed exactly.`, func(k *Checker) {
		versionTable(k)
		r := k.root(RP + "GetTimestamp")
		k.need("consume.timestamp", r.oks(), 1, `len(recv.inner.Timestamps) != 0 && ret0 == recv.inner.Timestamps[0] && now(recv.inner.Timestamps) == recv.inner.Timestamps[1:]`)
		r = k.root(RP + "GetPrefixTrees")
		k.need("consume.roots", r.oks(), 1, `len(p0) == len(recv.inner.PrefixRoots) && ret0 == recv.inner.PrefixRoots && len(now(recv.inner.PrefixRoots)) == 0`)
		r = k.root(RP + "Finish")
		k.need("consume.rest", r.oks(), 1, `len(recv.inner.Timestamps) == 0 && len(recv.inner.PrefixProofs) == 0 && len(recv.inner.PrefixRoots) == 0 && ret0 == recv.inner.Inclusion.Elements`)
		for _, n := range []string{"GetSearchBinaryLadder", "GetMonitoringBinaryLadder", "GetInclusionProof"} {
			r = k.root(RP + n)
			k.need("consume.proof", r.oks(), 1, `len(recv.inner.PrefixProofs) != 0 && now(recv.inner.PrefixProofs) == recv.inner.PrefixProofs[1:]`)
			lad := map[string]string{"GetSearchBinaryLadder": "$L", "GetMonitoringBinaryLadder": "math.MonitoringBinaryLadder(p1)", "GetInclusionProof": "p1"}[n]
			_ = lad
			k.need("proof.root", r.oks(), 1, `let(E, prefix.Evaluate(recv.cs, ENT, &recv.inner.PrefixProofs[0]), res1(E) == nil && ret0 == res0(E))`)
			if n != "GetSearchBinaryLadder" {
				E := func(x string) string {
					return `let(E, prefix.Evaluate(recv.cs, ENT, &recv.inner.PrefixProofs[0]), res1(E) == nil && let(LAD, ` + lad + `, ` + x + `))`
				}
				k.need("proof.entries", r.oks(), 1, E(`len(recv.inner.PrefixProofs[0].Results) == len(LAD) && len(ENT) == len(LAD) && forall(I, len(LAD), has(recv.versions, LAD[I]) && ENT[I] == lookup(recv.versions, LAD[I]) && lookup(recv.versions, LAD[I]).Commitment != nil && prefix.PrefixSearchResult.Inclusion(recv.inner.PrefixProofs[0].Results[I]))`))
			} else {
				E := func(x string) string {
					return `let(LAD, math.SearchBinaryLadder(p1, p1, _, _), let(E, prefix.Evaluate(recv.cs, ENT, &recv.inner.PrefixProofs[0]), res1(E) == nil && ` + x + `))`
				}
				k.need("ladder.interpreted", r.oks(), 1, E(`let(T, math.InterpretSearchLadder(LAD, p1, &recv.inner.PrefixProofs[0]), res1(T) == nil && ret1 == res0(T))`))
				k.need("ladder.entries", r.oks(), 1, E(`len(ENT) == len(recv.inner.PrefixProofs[0].Results) && forall(I, len(recv.inner.PrefixProofs[0].Results), has(recv.versions, LAD[I]) && ENT[I] == lookup(recv.versions, LAD[I]) && any(!prefix.PrefixSearchResult.Inclusion(recv.inner.PrefixProofs[0].Results[I]), lookup(recv.versions, LAD[I]).Commitment != nil))`))
				k.need("ladder.tracked", r.oks(), 1, `let(LAD, math.SearchBinaryLadder(p1, p1, LT, RT), did((*math.VersionTracker).AddResults(_, p0, p2, LAD, recv.inner.PrefixProofs[0].Results)) && let(SM, (*math.VersionTracker).SearchMaps(_, p0, p2), LT == res0(SM) && RT == res1(SM)))`)
			}
		}
	})
	register("C09", ``, func(k *Checker) {
		entryHash(k)
		const H = "algorithms.ProofHandle."
		mono := func(mm, x, ts string) string {
			return `forall(J, len(` + mm + `), let(Q, mkey(` + mm + `, J), any(` + x + ` < Q && ` + ts + ` <= lookup(` + mm + `, Q), Q < ` + x + ` && lookup(` + mm + `, Q) <= ` + ts + `)))`
		}
		r := k.root(DP + "GetTimestamp")
		k.need("timestamp.value", r.oks(), 2, `any(has(recv.timestamps, p0) && ret0 == lookup(recv.timestamps, p0) && now(recv.timestamps) == recv.timestamps,
			let(T, `+H+`GetTimestamp(recv.handle, p0), res1(T) == nil && ret0 == res0(T) && now(recv.timestamps) == mput(recv.timestamps, p0, ret0)))`)
		k.need("timestamp.monotonic", r.oks(), 2, `any(has(recv.timestamps, p0), `+mono("recv.timestamps", "p0", "ret0")+`)`)
		r = k.root(DP + "AddRetained")
		k.need("retained.monotonic", r.oks(), 1, `forall(I, len(p1), let(X, mkey(p1, I), let(TS, lookup(p1, X).Timestamp, let(MM, mcomp(recv.timestamps, I, _, _), `+mono("MM", "X", "TS")+`))))`)
		k.need("retained.kept", r.oks(), 1, `now(recv.fullSubtrees) == p0 && now(recv.logEntries) == p1 && let(MM, now(recv.timestamps), match(MM, mcomp(recv.timestamps, len(p1), A, lookup(p1, A).Timestamp)) && match(A, mkey(p1, _)))`)
		for _, n := range []string{"GetSearchBinaryLadder", "GetMonitoringBinaryLadder", "GetInclusionProof"} {
			r = k.root(DP + n)
			call, err := H+n+`(recv.handle, p0, p1)`, "res1"
			pts := r.oks()
			if n == "GetSearchBinaryLadder" {
				call, err = H+n+`(recv.handle, p0, p1, p2)`, "res2"
			} else if n == "GetInclusionProof" {
				k.need("step.empty", k.sel(pts, `len(p1) == 0`), 1, `!did(`+call+`)`)
				pts = k.sel(pts, `len(p1) != 0`)
			}
			k.need("step.proof", pts, 2, `let(T, `+call+`, did(T) && `+err+`(T) == nil)`)
			if n == "GetSearchBinaryLadder" {
				k.need("step.result", pts, 2, `ret0 == res1(`+call+`)`)
			}
			k.need("step.root", pts, 2, `let(T, `+call+`, any(has(recv.prefixTrees, p0) && res0(T) == lookup(recv.prefixTrees, p0) && now(recv.prefixTrees) == recv.prefixTrees,
				!has(recv.prefixTrees, p0) && now(recv.prefixTrees) == mput(recv.prefixTrees, p0, res0(T))))`)
			k.need("step.timestamp", pts, 2, `any(has(recv.timestamps, p0), did(`+H+`GetTimestamp(recv.handle, p0)) && res1(`+H+`GetTimestamp(recv.handle, p0)) == nil)`)
		}
		r = k.root(DP + "Finish")
		in := func(x string) string {
			return strings.ReplaceAll(`let(L, fcomp(len(recv.timestamps), _{position: Q, LogEntry: structs.LogEntry{Timestamp: lookup(recv.timestamps, Q)}}, ID), `+x+`)`, "\n", " ")
		}
		eval := func(x string) string {
			return in(`let(E, (*log.Verifier).Evaluate(VV, comp(len(L), sorted(L, _)[_].position), p0, p1, comp(len(L), res0((*structs.LogEntry).Hash(VAL, recv.cs))), PF), res2(E) == nil && ` + x + `)`)
		}
		k.need("finish.leaves", r.oks(), 1, in(`match(Q, mkey(recv.timestamps, _)) && forall(I, len(recv.timestamps), any(has(recv.logEntries, mkey(recv.timestamps, I)) && !kept(ID, I), !has(recv.logEntries, mkey(recv.timestamps, I)) && kept(ID, I)))`))
		k.need("finish.evaluated", r.oks(), 1, eval(`match(PF, res0(`+H+`Finish(recv.handle))) && res1(`+H+`Finish(recv.handle)) == nil && ret0.FullSubtrees == res0(E) && ret0.Additional == res1(E)`))
		k.need("finish.retained", r.oks(), 1, eval(`any(p2 == nil && match(VV, log.NewVerifier(recv.cs)), p2 != nil && let(RT, (*log.Verifier).Retain(log.NewVerifier(recv.cs), *p2, recv.fullSubtrees), did(RT) && RT == nil))`))
		k.need("finish.hashed", r.oks(), 1, eval(`forall(I, len(L), let(HH, (*structs.LogEntry).Hash(_, recv.cs), did(HH) && res1(HH) == nil))`))
		k.need("finish.missing", r.oks(), 1, in(`let(G, `+H+`GetPrefixTrees(recv.handle, M), match(M, fcomp(len(L), sorted(L, _)[_].position, ID2)) && res1(G) == nil && len(res0(G)) == len(M) && forall(I, len(L), any(sorted(L, _)[I].LogEntry.PrefixTree != nil && !kept(ID2, I), sorted(L, _)[I].LogEntry.PrefixTree == nil && kept(ID2, I))))`))
		k.need("finish.known", r.oks(), 1, strings.ReplaceAll(in(`L == L`), "Timestamp: lookup(recv.timestamps, Q)", "Timestamp: lookup(recv.timestamps, Q), PrefixTree: get(recv.prefixTrees, Q)"))
		// the missing roots, as they come, go to the entries that lack them, and the entries hashed are the completed ones
		filled := `match(now(recv.prefixTrees), fmcomp(recv.prefixTrees, len(L), sorted(L, _)[_].position, W[0], ID3))`
		k.shaped("finish.filled", r.oks(), in(`any(`+filled+`, now(recv.prefixTrees) == recv.prefixTrees)`), in(`let(G, `+H+`GetPrefixTrees(recv.handle, _), `+filled+` && iter(W, 0) == res0(G) && forall(I, len(L), any(
			kept(ID3, I) && sorted(L, _)[I].LogEntry.PrefixTree == nil && iter(W, I + 1) == iter(W, I)[1:],
			!kept(ID3, I) && sorted(L, _)[I].LogEntry.PrefixTree != nil && iter(W, I + 1) == iter(W, I))))`))
		k.shaped("finish.values", r.oks(), in(filled), eval(filled+` && match(VAL, &ffill(sorted(L, _), len(L), _{LogEntry: _{PrefixTree: W2[0]}}, ID4)[_].LogEntry) && iter(W2, 0) == iter(W, 0)`))
		k.need("finish.frontier", r.oks(), 1, `match(ret0.LogEntries, mcomp(mempty(), len(math.Frontier(p0)), X, structs.LogEntry{Timestamp: lookup(recv.timestamps, X), PrefixTree: lookup(now(recv.prefixTrees), X)})) && match(X, math.Frontier(p0)[_]) && forall(I, len(math.Frontier(p0)), has(recv.timestamps, math.Frontier(p0)[I]) && has(now(recv.prefixTrees), math.Frontier(p0)[I]))`)
	})
}

// versionTable decides that the versions given to a verification are recorded
// as given, and that two accounts of one version can't disagree.
func versionTable(k *Checker) {
	r := k.root("(*algorithms.ReceivedProofHandle).AddVersion")
	k.need("version.agree", r.oks(), 1, `any(!has(recv.versions, p0), p1 == lookup(recv.versions, p0).VrfOutput && any(p2 == nil, lookup(recv.versions, p0).Commitment == nil, p2 == lookup(recv.versions, p0).Commitment))`)
	k.need("version.sized", r.oks(), 1, `len(p1) == suites.CipherSuite.HashSize(recv.cs) && any(p2 == nil, len(p2) == suites.CipherSuite.HashSize(recv.cs))`)
	k.need("version.recorded", r.oks(), 1, `let(N, now(recv.versions), any(
		match(N, mput(recv.versions, p0, E)) && E.VrfOutput == p1 && any(E.Commitment == p2, p2 == nil && has(recv.versions, p0) && E.Commitment == lookup(recv.versions, p0).Commitment),
		N == recv.versions && has(recv.versions, p0) && p2 == nil))`)
	r = k.root("(*algorithms.ReceivedProofHandle).GetVersion")
	k.need("version.read", r.all(), 1, `ret1 == has(recv.versions, p0) && any(!has(recv.versions, p0), ret0 == lookup(recv.versions, p0))`)
}

// entryHash decides what the log tree's leaf for a log entry is.
func entryHash(k *Checker) {
	r := k.root("(*structs.LogEntry).Hash", opaque("structs.Marshal"))
	k.need("entry.hash", r.oks(), 1, `let(M, structs.Marshal(iface(recv)), res1(M) == nil && ret0 == digest(p0, res0(M)))`)
}
