package main

import "strings"

func init() {
	const M = "(*algorithms.Monitor)."
	const DP = "(*algorithms.DataProvider)."
	register("C12", `Monitoring inspects every log entry that the algorithms require, rejects every ladder that contradicts the monitored version, and moves its state forward only past what was inspected.`, func(k *Checker) {
		k.when(M+"contactMonitor", func(r *Run) {
			walked := func(n string) string {
				return `forall(I, ` + n + `, let(G, ` + DP + `GetMonitoringBinaryLadder(recv.provider, P[I], p1), did(G) && G == nil))`
			}
			k.need("contact.path", r.oks(), 3, `let(S, `+M+`distinguishedAncestor(recv, p0), did(S) && res1(S) == nil && any(
				res0(S) != nil && *res0(S) == p0 && ret0 == nil,
				let(P, math.RightDirectPath(p0, recv.treeSize), any(
					ret0 == nil && let(V, lookup(PREV, P[N]), p1 < V && has(PREV, P[N])) && `+walked("N")+`,
					res0(S) == nil && `+walked("len(P)")+` && ret0 != nil && any(len(P) <= 0 && *ret0 == p0, len(P) > 0 && *ret0 == P[len(P) - 1]),
					res0(S) != nil && `+walked("len(P)")+` && ret0 == nil,
					res0(S) != nil && ret0 == nil && let(Q, P[N], Q == *res0(S) && any(`+walked("N + 1")+`,
						recv.Owner != nil && recv.Owner.Starting <= p0 && `+walked("N")+`))))))`)
			k.need("contact.once", r.calls(DP+"GetMonitoringBinaryLadder"), 1, `!has(now(p2), arg1) && arg2 == p1`)
		}, provider(M+"distinguishedAncestor"))
		tok := strings.NewReplacer("$OM", M+"ownerMonitor", "$TS", dpTS, "$SBL", dpSBL, "$BS", "slices.BinarySearch")
		k.when(M+"ownerMonitor", func(r *Run) {
			const dist = `(*structs.Config).IsDistinguished(&recv.config.Config, p1, p2)`
			const leftDone = `any(math.IsLeaf(p0), let(A, $OM(_, math.Left(p0), p1, res0($TS(recv.provider, p0))), did(A) && A == nil))`
			const rightDone = `any(math.IsLeaf(p0), p0 == recv.treeSize - 1, let(B, $OM(_, math.Right(p0, recv.treeSize), res0($TS(recv.provider, p0)), p2), did(B) && B == nil))`
			stop := `let(S, algorithms.ProofHandle.StopCondition(_, p0, _), did(S) && S)`
			ladder := `let(L, $SBL(recv.provider, p0, _, false), did(L) && res1(L) == nil && res0(L) <= 0)`
			k.need("owner.walk", r.oks(), 3, tok.Replace(`any(!`+dist+`, p0 <= recv.Owner.Starting && `+rightDone+`,
				`+dist+` && `+leftDone+` && any(`+stop+`, `+ladder+` && `+rightDone+`))`))
			k.need("owner.inspect", r.calls(dpSBL), 2, tok.Replace(dist+` && recv.Owner.Starting < p0 && arg1 == p0 && arg3 == false && `+leftDone+` && let(S, algorithms.ProofHandle.StopCondition(_, p0, V), !S && let(G, res0($BS(U, p0 + 1)), match(U, O.UpcomingVers) && any(O == recv.Owner && math.IsLeaf(p0), match(O, after(C, *recv).Owner) && match(C, $OM(recv, math.Left(p0), _, _))) && V == G + O.VerAtStarting) && any(V < 0 && arg2 == 0, V >= 0 && arg2 == narrow_uint32(V)))`))
			moved := tok.Replace(`let(S, algorithms.ProofHandle.StopCondition(_, p0, V), did(S) && let(G, res0($BS(U, p0 + 1)), now(recv.Owner.Starting) == p0 && now(recv.Owner.VerAtStarting) == V && now(recv.Owner.UpcomingVers) == U[G:]))`)
			k.need("owner.advance", k.sel(r.calls(M+"ownerMonitor"), tok.Replace(`did($SBL(_, p0, _, _))`)), 1, moved)
			k.need("owner.advance", k.sel(r.oks(), tok.Replace(`did($SBL(_, p0, _, _)) && !did($OM(_, math.Right(p0, _), _, _))`)), 1, moved)
		}, provider())
		r := k.root(M+"OwnerMonitor", opaque(M+"ownerMonitor"), apart())
		k.need("owner.start", r.oks(), 1, tok.Replace(`let(A, $OM(_, math.Root(recv.treeSize), 0, recv.rightmost), did(A) && A == nil && let(O, after(A, _).Owner, now(recv.Owner) == recv.Owner&& now(recv.Owner.Starting) == O.Starting && now(recv.Owner.VerAtStarting) == O.VerAtStarting && now(recv.Owner.UpcomingVers) == O.UpcomingVers))`))
		k.need("owner.atomic", r.errs(), 2, `now(recv.Owner) == recv.Owner && now(recv.Owner.Starting) == recv.Owner.Starting && now(recv.Owner.VerAtStarting) == recv.Owner.VerAtStarting && now(recv.Owner.UpcomingVers) == recv.Owner.UpcomingVers`)
		r = k.root(M+"OwnerInit", provider(M+"InitEntries"), apart())
		const xs = `let(E, ` + M + `InitEntries(recv, p0), let(XS, res0(E), `
		k.need("init.fresh", r.oks(), 1, `recv.Owner == nil`)
		k.need("init.entries", r.oks(), 1, xs+`did(E) && res1(E) == nil && ret0 == XS && len(p1) <= len(XS)))`)
		k.need("init.order", r.oks(), 1, `any(len(p1) <= 1, forall(I, len(p1), any(I < 1, p1[I] <= p1[I - 1])), forall(I, len(p1) - 1, p1[I + 1] <= p1[I]))`)
		k.need("init.ladder", r.oks(), 1, tok.Replace(xs+`forall(I, len(XS), let(L, $SBL(recv.provider, XS[I], V, false), did(L) && res1(L) == nil && any(I < len(p1) && V == p1[I] && res0(L) == 0, len(p1) <= I && V == 0 && res0(L) == -1)))))`))
		k.need("init.state", r.oks(), 1, `let(O, now(recv.Owner), O != nil && now(recv.Owner.Starting) == p0 && now(recv.Owner.UpcomingVers) == nil && any(len(p1) <= 0 && now(recv.Owner.VerAtStarting) == -1, len(p1) > 0 && now(recv.Owner.VerAtStarting) == p1[0]))`)
		k.need("init.atomic", r.errs(), 3, `now(recv.Owner) == recv.Owner`)
		k.when(M+"init", func(r *Run) {
			k.need("init.path", r.oks(), 4, tok.Replace(`(*structs.Config).IsDistinguished(&recv.config.Config, p2, p3) && let(T, $TS(recv.provider, p1), did(T) && res1(T) == nil && let(X, (*structs.Config).IsExpired(&recv.config.Config, res0(T), recv.rightmost), any(
				p1 == p0 && !X && len(ret0) == 1 && ret0[0] == p1,
				p1 > p0 && !X && let(A, (*algorithms.Monitor).init(recv, p0, math.Left(p1), p2, res0(T)), did(A) && res1(A) == nil && ret0 == res0(A)),
				p1 < p0 && let(B, (*algorithms.Monitor).init(recv, p0, math.Right(p1, recv.treeSize), res0(T), p3), did(B) && res1(B) == nil && any(X && ret0 == res0(B), !X && ret0 == cat(res0(B), elems(p1)))))))`))
		}, provider())
		k.when(M+"distinguishedAncestor", func(r *Run) {
			const dist = `(*structs.Config).IsDistinguished(&recv.config.Config, L, R)`
			path := `let(D, fcomp(K, Z, ID), let(L, lv(0), let(R, lv(0), iter(Z, 0) == math.Root(recv.treeSize) && iter(L, 0) == 0 && iter(R, 0) == recv.rightmost &&
				forall(I, K, let(T, $TS(recv.provider, iter(Z, I)), did(T) && res1(T) == nil && (*structs.Config).IsDistinguished(&recv.config.Config, iter(L, I), iter(R, I)) && any(
					iter(Z, I) > p0 && kept(ID, I) && iter(Z, I + 1) == math.Left(iter(Z, I)) && iter(L, I + 1) == iter(L, I) && iter(R, I + 1) == res0(T),
					iter(Z, I) < p0 && !kept(ID, I) && iter(Z, I + 1) == math.Right(iter(Z, I), recv.treeSize) && iter(L, I + 1) == res0(T) && iter(R, I + 1) == iter(R, I)))) && any(
				!(*structs.Config).IsDistinguished(&recv.config.Config, iter(L, K), iter(R, K)) && any(len(D) == 0 && ret0 == nil, ret0 != nil && *ret0 == D[len(D) - 1]),
				iter(Z, K) == p0 && (*structs.Config).IsDistinguished(&recv.config.Config, iter(L, K), iter(R, K)) && *ret0 == p0))))`
			_ = dist
			k.need("ancestor.path", r.oks(), 2, tok.Replace(path))
		}, provider())
		const NDA = M + "nonDistinguishedAncestor"
		const VPT = M + "verifyPreviousTree"
		k.when(NDA, func(r *Run) {
			k.need("frontier.path", r.oks(), 2, tok.Replace(`let(Z, lv(0), let(L, lv(0), let(R, lv(0), iter(Z, 0) == math.Root(recv.treeSize) && iter(L, 0) == 0 && let(T, $TS(recv.provider, recv.treeSize - 1), did(T) && res1(T) == nil && iter(R, 0) == res0(T)) &&
				let(D, (*structs.Config).IsDistinguished(&recv.config.Config, _, RK), match(RK, lv(K)) && iter(R, K) == RK && any(ret0 == nil && iter(Z, K) == p0 && (*structs.Config).IsDistinguished(&recv.config.Config, iter(L, K), iter(R, K)), ret0 != nil && *ret0 == iter(Z, K) && !(*structs.Config).IsDistinguished(&recv.config.Config, iter(L, K), iter(R, K))) &&
				forall(I, K, let(T, $TS(recv.provider, iter(Z, I)), did(T) && res1(T) == nil && (*structs.Config).IsDistinguished(&recv.config.Config, iter(L, I), iter(R, I)) && any(
					iter(Z, I) > p0 && iter(Z, I + 1) == math.Left(iter(Z, I)) && iter(L, I + 1) == iter(L, I) && iter(R, I + 1) == res0(T),
					iter(Z, I) < p0 && iter(Z, I + 1) == math.Right(iter(Z, I), recv.treeSize) && iter(L, I + 1) == res0(T) && iter(R, I + 1) == iter(R, I))))))))`))
		}, provider())
		k.when(VPT, func(r *Run) {
			const G = `len(recv.Owner.UpcomingVers) + recv.Owner.VerAtStarting`
			k.need("previous.ladder", r.calls(dpSBL), 2, `any(`+G+` < 0 && arg2 == 0, `+G+` >= 0 && arg2 == narrow_uint32(`+G+`)) && arg3 == true && any(len(recv.Owner.UpcomingVers) <= 0 && arg1 > recv.Owner.Starting, len(recv.Owner.UpcomingVers) > 0 && arg1 > recv.Owner.UpcomingVers[len(recv.Owner.UpcomingVers) - 1])`)
			const LAST = `any(len(recv.Owner.UpcomingVers) <= 0 && X <= recv.Owner.Starting, len(recv.Owner.UpcomingVers) > 0 && X <= recv.Owner.UpcomingVers[len(recv.Owner.UpcomingVers) - 1])`
			lc := func(x string) string {
				return strings.ReplaceAll(`any(`+LAST+`, let(S, $SBL(recv.provider, X, _, true), did(S) && res1(S) == nil && any(`+G+` < 0 && res0(S) == -1, `+G+` >= 0 && res0(S) == 0)))`, "X", x)
			}
			k.need("previous.walk", r.oks(), 3, tok.Replace(`let(N, `+NDA+`(recv, p0 - 1), did(N) && res1(N) == nil && any(res0(N) == nil, let(Y, lv(J), iter(Y, 0) == *res0(N) && forall(I, J, iter(Y, I + 1) == math.Left(iter(Y, I)) && iter(Y, I) > p0 - 1) && let(Z, lv(0), Z == Y && Z <= p0 - 1 && let(E, lv(K), iter(Z, K) == E && E == p0 - 1 && `+lc("E")+` &&
				forall(I, K, iter(Z, I + 1) == math.Right(iter(Z, I), p0) && `+lc("iter(Z, I)")+`))))))`))
			const LADDER = `math.SearchBinaryLadder(narrow_uint32(` + G + `), narrow_uint32(` + G + `), nil, nil)`
			k.need("previous.omit", r.calls("(*math.VersionTracker).AddLadder"), 2, G+` >= 0 && arg2 == true && arg4 == `+LADDER+` && any(
				arg3 == `+G+` && match(arg1, lv(_)), let(P, math.Parent(_, p0), arg1 == P && any(len(recv.Owner.UpcomingVers) <= 0, true) && let(B, slices.BinarySearch(recv.Owner.UpcomingVers, P + 1), arg3 == res0(B) + recv.Owner.VerAtStarting)))`)
			k.need("previous.omitted", r.calls(dpSBL), 2, tok.Replace(`any(`+G+` < 0, let(A, (*math.VersionTracker).AddLadder(_, X, true, `+G+`, `+LADDER+`), did(A) && X <= p0 - 1 && any(X == math.Root(p0), let(B, (*math.VersionTracker).AddLadder(_, math.Parent(X, p0), true, _, `+LADDER+`), did(B))) && let(Z, lv(0), iter(Z, 0) == X)))`))
		}, provider(NDA))
		r = k.root(M+"Update", provider(NDA, VPT), apart())
		const GV = `len(recv.Owner.UpcomingVers) + recv.Owner.VerAtStarting`
		const END = `narrow_uint32(p1 + ` + GV + `)`
		k.need("update.request", r.oks(), 2, `recv.Owner != nil && p0 < recv.treeSize && p1 >= 1 && any(len(recv.Owner.UpcomingVers) <= 0 && p0 > recv.Owner.Starting, len(recv.Owner.UpcomingVers) > 0 && p0 > recv.Owner.UpcomingVers[len(recv.Owner.UpcomingVers) - 1]) &&
			p1 + `+GV+` >= 0 && p1 + `+GV+` < 4294967295`)
		if k.p.fns[VPT] != nil && k.p.fns[NDA] != nil {
			k.need("update.previous", r.oks(), 2, `let(V, `+VPT+`(recv, p0), did(V) && V == nil)`)
			k.need("update.current", r.oks(), 2, tok.Replace(`let(N, `+NDA+`(recv, p0), did(N) && res1(N) == nil && any(res0(N) == nil, let(S, $SBL(recv.provider, p0, `+END+`, true), did(S) && res1(S) == nil && res0(S) == 0)))`))
			k.need("update.contact", r.oks(), 2, `let(N, `+NDA+`(recv, p0), any(res0(N) == nil && now(recv.Contact) == recv.Contact, now(recv.Contact) != nil && now(recv.Contact.Ptrs) == mput(_, p0, `+END+`)))`)
		}
		const LD = `math.SearchBinaryLadder(` + END + `, ` + END + `, nil, nil)`
		k.need("update.included", r.oks(), 2, `let(S, `+DPIncl+`(recv.provider, p0, A), did(S) && S == nil && match(A, fcomp(N, _, ID)) && let(C, narrow_uint32(`+GV+` + 1), C + N > `+END+` && forall(I, N, at(A, I) == C + I && at(A, I) <= `+END+` && let(SET, mcomp(mempty(), N2, LL[_], _), LL == `+LD+` && N2 == len(LL) && any(kept(ID, I) && !has(SET, at(A, I)), !kept(ID, I) && has(SET, at(A, I)))))))`)
		k.need("update.retained", r.oks(), 2, `let(U, now(recv.Owner.UpcomingVers), match(U, cat(recv.Owner.UpcomingVers, comp(p1, p0))))`)
		const CM = M + "contactMonitor"
		if k.p.fns[CM] != nil {
			r = k.root(M+"ContactMonitor", opaque(CM), apart())
			k.need("contact.none", k.sel(r.oks(), `recv.Contact == nil`), 1, `now(recv.Contact) == nil`)
			some := k.sel(r.oks(), `recv.Contact != nil`)
			const list = `let(L, sorted(E), match(E, comp(len(recv.Contact.Ptrs), mkey(recv.Contact.Ptrs, _))) && `
			k.need("contact.all", some, 2, list+`forall(I, len(recv.Contact.Ptrs), let(C, `+CM+`(recv, L[len(recv.Contact.Ptrs) - 1 - I], get(Q, L[len(recv.Contact.Ptrs) - 1 - I]), _), did(C) && res1(C) == nil && any(Q == recv.Contact.Ptrs, match(Q, after(_, *recv).Contact.Ptrs)))))`)
			k.need("contact.next", some, 2, list+`let(T, fmcomp(mempty(), N, *res0(CC), get(Q, L[_]), ID), N == len(recv.Contact.Ptrs) && any(Q == recv.Contact.Ptrs, match(Q, after(_, *recv).Contact.Ptrs)) && any(len(T) == 0 && now(recv.Contact) == nil, len(T) != 0 && now(recv.Contact) != nil && now(recv.Contact.Ptrs) == T) &&
				forall(I, N, let(C, `+CM+`(recv, L[len(recv.Contact.Ptrs) - 1 - I], _, _), any(kept(ID, I) && res0(C) != nil, !kept(ID, I) && res0(C) == nil)))))`)
		}
	})
}
