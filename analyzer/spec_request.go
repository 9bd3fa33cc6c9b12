package main

import "strings"

func init() {
	register("C32", ``, func(k *Checker) {
		const C = "(*transparency.Client)."
		const DP = "(*algorithms.DataProvider)."
		const S = `res0(structs.NewClientState(recv.config, &res0(db.ClientStore.GetState(recv.tx))))`
		const GV = `any(OWN.VerAtStarting + len(OWN.UpcomingVers) < 0 && X.GreatestVersion == nil, OWN.VerAtStarting + len(OWN.UpcomingVers) >= 0 && X.GreatestVersion != nil && *X.GreatestVersion == narrow_uint32(OWN.VerAtStarting + len(OWN.UpcomingVers)))`
		tok := strings.NewReplacer("$S", S, "$GV", GV,
			"$LS", `res0(structs.NewClientLabelState(recv.config.Config.Suite, &res0(db.ClientStore.GetLabelState(recv.tx, p0))))`,
			"$DLE", `let(R, algorithms.RightmostDistinguished(recv.config, `+S+`.TreeHead.TreeSize, PR), did(R) && res1(R) == nil && res0(R) != nil && let(A, `+DP+`AddRetained(PR, nil, `+S+`.LogEntries), did(A) && A == nil)`)
		last := func(x string) string {
			return strings.ReplaceAll(tok.Replace(`let(G, db.ClientStore.GetState(recv.tx), did(G) && res1(G) == nil && any(X.Last == nil && any(res0(G) == nil, $S == nil), res0(G) != nil && X.Last != nil && let(ST, $S, any(X.Last == &ST.TreeHead.TreeSize, *X.Last == ST.TreeHead.TreeSize))))`), "X", x)
		}
		run := func(n string) *Run {
			return k.root(C+n, provider("algorithms.RightmostDistinguished"), capped(256), apart())
		}
		r := run("GreatestVersionSearch")
		k.need("search.last", r.oks(), 2, last("ret0"))
		k.need("search.label", r.oks(), 2, `ret0.Label == p0 && ret0.Version == nil`)
		r = run("FixedVersionSearch")
		k.need("search.last", r.oks(), 2, last("ret0"))
		k.need("search.label", r.oks(), 2, `ret0.Label == p0 && ret0.Version != nil && *ret0.Version == p1`)
		r = run("OwnerInit")
		k.need("init.last", r.oks(), 1, last("ret0"))
		k.need("init.label", r.oks(), 1, `ret0.Label == p0`)
		k.need("init.start", r.oks(), 1, tok.Replace(`$DLE && ret0.Start == *res0(R))`))
		k.need("init.owned", r.oks(), 1, tok.Replace(`let(G, db.ClientStore.GetLabelState(recv.tx, p0), did(G) && res1(G) == nil && any(res0(G) == nil, $LS.Owner == nil))`))
		r = run("Monitor")
		none := k.sel(r.oks(), `ret0 == nil`)
		some := k.sel(r.oks(), `ret0 != nil`)
		k.need("monitor.none", none, 1, tok.Replace(`$DLE && let(L, db.ClientStore.GetStaleLabel(recv.tx, *res0(R)), did(L) && res2(L) == nil && res0(L) == nil))`))
		const MLS = `res0(structs.NewClientLabelState(recv.config.Config.Suite, &res1(db.ClientStore.GetStaleLabel(recv.tx, _))))`
		for _, owned := range []bool{false, true} {
			ty, sel := "*structs.ContactMonitorRequest", `let(LS, `+MLS+`, LS.Owner == nil)`
			if owned {
				ty, sel = "*structs.OwnerMonitorRequest", `let(LS, `+MLS+`, LS.Owner != nil)`
			}
			x := "as(ret0, " + ty + ")"
			pts := k.sel(some, sel)
			k.need("monitor.last", pts, 1, last(x))
			k.need("monitor.label", pts, 1, tok.Replace(`$DLE && let(L, db.ClientStore.GetStaleLabel(recv.tx, *res0(R)), did(L) && res2(L) == nil && res0(L) != nil && `+x+`.Label == res0(L)))`))
			k.need("monitor.entries", pts, 1, `let(LS, `+MLS+`, `+x+`.Entries == LS.Contact)`)
			if owned {
				k.need("monitor.owner", pts, 1, strings.ReplaceAll(strings.ReplaceAll(`let(LS, `+MLS+`, LS.Owner != nil && X.Start == LS.Owner.Starting && `+GV+`)`, "OWN", "LS.Owner"), "X", x))
			} else {
				k.need("monitor.owner", pts, 1, `let(LS, `+MLS+`, LS.Owner == nil)`)
			}
		}
		k.need("monitor.refused", k.sel(r.errs(), `let(N, structs.NewClientLabelState(_, _), did(N) && res1(N) == nil && len(after(N, 0)) == 0)`), 1, `let(LS, `+MLS+`, LS.Owner == nil && len(LS.Contact) == 0)`)
		r = run("Update")
		k.need("update.last", r.oks(), 2, last("ret0"))
		k.need("update.label", r.oks(), 2, `ret0.Label == p0 && ret0.Label == ret1.req.Label`)
		k.need("update.version", r.oks(), 2, strings.ReplaceAll(strings.ReplaceAll(tok.Replace(`let(LS, $LS, LS.Owner != nil && `+GV+`)`), "OWN", "LS.Owner"), "X", "ret0"))
		k.need("update.values", r.oks(), 2, `len(ret0.Values) == len(p1) && forall(I, len(p1), ret0.Values[I].Value == p1[I])`)
		k.need("update.stream", r.oks(), 2, tok.Replace(`ret1.client == recv && ret1.req == ret0 && ret1.labelState == $LS && let(G, db.ClientStore.GetState(recv.tx), any(res0(G) == nil && ret1.state == nil, ret1.state == $S))`))
	})
}
