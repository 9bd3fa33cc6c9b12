package main

import "strings"

// contactRules: what a search adds to the versions that are monitored for a label, and how these are
// kept. Part of C06.
func contactRules(k *Checker) {
	const simplify = "transparency.simplifyMonitoringMap"
	k.when("transparency.updateContactState", func(r *Run) {
		form := `let(S, ` + simplify + `(M, p2), did(S) && match(M, mcomp(C, J, P[_], p3)))`
		in := func(x string) string {
			x = strings.ReplaceAll(x, "$AT", `mcomp(C, I, P[_], p3)`)
			return strings.TrimSuffix(form, ")") + ` && ` + x + `)`
		}
		k.shaped("contact.path", r.oks(), form, in(`match(C, algorithms.NewContactState(p0.Contact).Ptrs) && match(P, cat(lit(p1), math.RightDirectPath(p1, p2)))`))
		k.shaped("contact.until", r.oks(), form, in(`any(J == len(P), J < len(P) && has(M, P[J]) && lookup(M, P[J]) > p3) && forall(I, J, any(!has($AT, P[I]), lookup($AT, P[I]) <= p3))`))
		k.shaped("contact.terminal", r.oks(), form, in(`iter(ret0, 0) == p1 && iter(ret0, J) == ret0 && forall(I, J, iter(ret0, I + 1) == P[I])`))
		k.shaped("contact.stored", r.oks(), form, in(`match(now(p0.Contact), (*algorithms.ContactState).Struct(&X)) && X.Ptrs == M`))
		if !k.p.base.isLost(simplify) {
			k.need("contact.simplified", r.oks(), 1, `let(S, `+simplify+`(M, p2), did(S) && match(now(p0.Contact), (*algorithms.ContactState).Struct(&X)) && X.Ptrs == M)`)
			k.need("contact.added", r.calls(simplify), 1, `mentions(arg0, p3) && !match(arg0, fmcomp(_, _, _, _, _))`)
		}
	}, opaque(simplify))
	k.when(simplify, func(r *Run) {
		k.shaped("contact.simple", r.all(), `let(M, lv(K), let(L, lv(0), iter(M, 0) == p0 && iter(L, len(M)) == now(p0)))`, `let(M, lv(K), let(L, lv(0), iter(M, 0) == p0 && iter(L, len(M)) == now(p0) && forall(I, len(M), let(P, math.RightDirectPath(mkey(M, I), p1), any(len(P) <= 0, !has(iter(L, I), P[0]), lookup(iter(L, I), P[0]) < lookup(M, mkey(M, I)), iter(L, I + 1) == mdel(iter(L, I), mkey(M, I)))))))`)
	}, provider())
	k.when("(*algorithms.ContactState).Struct", func(r *Run) {
		k.need("contact.listing", r.all(), 1, `any(recv == nil, mentions(ret0, recv.Ptrs))`)
		k.shaped("contact.listed", r.all(), `match(ret0, sorted(_, _))`, `any(recv == nil && len(ret0) == 0, match(ret0, sorted(comp(len(recv.Ptrs), structs.MonitorMapEntry{Position: X, Version: lookup(recv.Ptrs, X)}), _)) && match(X, mkey(recv.Ptrs, _)))`)
	})
	k.when("(*algorithms.ContactState).Struct$1", func(r *Run) {
		k.need("contact.sorted", r.all(), 1, `any(ret0 == cmp(p0.Position, p1.Position), ret0 < 0 && p0.Position < p1.Position, ret0 > 0 && p0.Position > p1.Position, ret0 == 0 && p0.Position == p1.Position)`)
	})
	k.when("algorithms.NewOwnerState", func(r *Run) {
		k.need("owner.loaded", r.all(), 1, `ret0.Starting == p0.Starting && ret0.VerAtStarting == p0.VerAtStarting && ret0.UpcomingVers == p0.UpcomingVers`)
	})
	k.when("(*algorithms.OwnerState).Struct", func(r *Run) {
		k.need("owner.listed", r.all(), 1, `any(recv == nil && ret0 == nil, ret0.Starting == recv.Starting && ret0.VerAtStarting == recv.VerAtStarting && ret0.UpcomingVers == recv.UpcomingVers)`)
	})
	k.when("algorithms.NewMonitor", func(r *Run) {
		k.need("monitor.made", r.oks(), 1, `p1 != 0 && let(T, `+dpTS+`(p2, p1 - 1), did(T) && res1(T) == nil && ret0.rightmost == res0(T)) && ret0.treeSize == p1 && ret0.config == p0 && ret0.provider == p2 && ret0.Contact == nil && ret0.Owner == nil`)
	}, provider())
	k.when("algorithms.NewContactState", func(r *Run) {
		k.need("contact.loaded", r.all(), 1, `match(ret0.Ptrs, mcomp(mempty(), len(p0), p0[_].Position, p0[_].Version))`)
	})
}
