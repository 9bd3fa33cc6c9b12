package main

import "strings"

func init() {
	register("C06", `Label state.`, func(k *Checker) {
		retainedNeeded(k)
		versionTable(k)
		contactRules(k)
		for _, c := range clientRuns(k) {
			raw := ""
			switch c.name {
			case "ContactMonitor", "OwnerMonitor":
				raw = `res1(db.ClientStore.GetStaleLabel($STORE, _))`
			case "Update":
			default:
				raw = `res0(db.ClientStore.GetLabelState($STORE, $LABEL))`
			}
			if search := c.name == "GreatestVersionSearch" || c.name == "FixedVersionSearch"; search {
				ver := "*resp.Version"
				if c.name == "FixedVersionSearch" {
					ver = "p1"
				}
				gs, _ := c.groups(c.r.at("mapupdate", "map[uint64]uint32"))
				for _, s := range gs {
					k.need("contact.version", s.pts, 1, s.within("match(arg1, "+ver+")"))
					k.need("contact.position", s.pts, 1, s.within(`let(T, res0(algorithms.`+c.name+`($CFG, _, $N, P)), mentions(arg0, T) || arg0 == T)`))
					k.need("contact.newer", s.pts, 1, s.within(`!has(contents, arg0) || lookup(contents, arg0) <= `+ver))
				}
				gs, _ = c.groups(c.r.at("mapdelete", "map[uint64]uint32"))
				for _, s := range gs {
					k.need("contact.dropped", s.pts, 1, s.within(`match(arg0, mkey(MM, _)) && let(A, math.RightDirectPath(arg0, $N), has(contents, A[0]) && any(lookup(contents, arg0) <= lookup(contents, A[0]), lookup(MM, arg0) <= lookup(contents, A[0])))`))
				}
			}
			for _, s := range c.storings() {
				for _, kept := range []bool{true, false} {
					pts := s.pts
					ls := `res0(structs.NewClientLabelState($CFG.Suite, &` + raw + `))`
					search := c.name == "GreatestVersionSearch" || c.name == "FixedVersionSearch"
					if search {
						k.need("search.global", k.sel(pts, "match(result, db.ClientStore.PutState(_, _))"), 1, s.within(`any($CFG.Mode != structs.ContactMonitoring,
							let(T, res0(algorithms.`+c.name+`($CFG, _, $N, P)), let(D, res0(algorithms.RightmostDistinguished($CFG, $N, P)), D != nil && T <= *D)))`))
						pts = k.sel(pts, "match(result, db.ClientStore.PutLabelState(_, _, _, _, _))")
					}
					if search || c.name == "OwnerInit" {
						if kept {
							pts = k.sel(pts, s.f(raw+" != nil"))
						} else {
							pts = k.sel(pts, s.f(raw+" == nil"))
							ls = ""
						}
					} else if !kept {
						continue
					}
					if c.name == "Update" {
						ls = "recv.labelState"
					}
					in := func(x string) string {
						x = strings.ReplaceAll(x, "$MON", "let(M, res0(algorithms.NewMonitor($CFG, $N, P))")
						if ls == "" {
							x = strings.NewReplacer("LS.Contact", "nil", "LS.Owner", "nil", "LS.Versions", "nil").Replace(x)
						} else {
							x = `let(LS, ` + ls + `, ` + x + `)`
						}
						return s.within(x)
					}
					if ls != "" {
						k.need("label.retained", pts, 1, in(`forall(I, len(LS.Versions), (*algorithms.ReceivedProofHandle).AddVersion(H, LS.Versions[I].Version, LS.Versions[I].VrfOutput, LS.Versions[I].Commitment) == nil)`))
					}
					k.need("label.versions", pts, 1, in(`any(arg3 == nil, match(arg3, res0(structs.Marshal(&structs.ClientLabelState{Versions: V}))) && forall(I, len(V), let(G, (*algorithms.ReceivedProofHandle).GetVersion(H, V[I].Version), res1(G) && V[I].VrfOutput == res0(G).VrfOutput && V[I].Commitment == res0(G).Commitment)))`))
					switch c.name {
					case "GreatestVersionSearch", "FixedVersionSearch":
						k.need("search.contact", pts, 1, in(`any(arg3 == nil && LS.Owner == nil && let(CS, (*algorithms.ContactState).Struct(&NC), len(CS) == 0), match(arg3, res0(structs.Marshal(&structs.ClientLabelState{Contact: (*algorithms.ContactState).Struct(&NC), Owner: O}))) && O == LS.Owner)`))
						k.need("search.terminal", pts, 1, in(`!match(arg4, res0(algorithms.`+c.name+`(_, _, _, _)))`))
						k.need("search.from", pts, 1, in(`let(C, algorithms.NewContactState(LS.Contact), did((*algorithms.ContactState).Struct(X)) && mentions(X, C))`))
					case "ContactMonitor":
						k.need("contact.result", pts, 1, in(`$MON, (*algorithms.Monitor).ContactMonitor(M) == nil && let(CS, (*algorithms.ContactState).Struct(after((*algorithms.Monitor).ContactMonitor(M), Q).Contact),
						match(Q.Contact, algorithms.NewContactState(LS.Contact)) && any(match(arg3, res0(structs.Marshal(&structs.ClientLabelState{Contact: CS}))), arg3 == nil && len(CS) == 0)))`))
						k.need("contact.terminal", pts, 1, in(`let(D, res0(algorithms.RightmostDistinguished($CFG, $N, P)), D != nil && match(arg4, *D))`))
					case "OwnerMonitor":
						k.need("owner.result", pts, 1, in(`$MON, let(A1, (*algorithms.Monitor).ContactMonitor(M), A1 == nil && let(A2, (*algorithms.Monitor).OwnerMonitor(M), A2 == nil &&
						let(X, res0(structs.Marshal(&structs.ClientLabelState{
							Owner: (*algorithms.OwnerState).Struct(after(A2, Q).Owner), Contact: (*algorithms.ContactState).Struct(after(A2, Q).Contact)})),
							match(arg3, X) && match(Q, after(A1, Q1)) && match(Q1.Contact, algorithms.NewContactState(LS.Contact)) && match(Q1.Owner, algorithms.NewOwnerState(LS.Owner)))))`+`)`))
						k.need("owner.terminal", pts, 1, in(`match(arg4, (*algorithms.OwnerState).Struct(_).Starting)`))
					case "OwnerInit":
						k.need("init.result", pts, 1, in(`$MON, let(A1, (*algorithms.Monitor).OwnerInit(M, START, $RES.GreatestVersions), res1(A1) == nil && 
							match(arg3, res0(structs.Marshal(&structs.ClientLabelState{Owner: (*algorithms.OwnerState).Struct(after(A1, _).Owner)}))) && match(arg4, START)))`))
						k.need("init.new", pts, 1, in(`LS.Owner == nil`))
					case "Update":
						k.need("update.result", pts, 1, in(`$MON, let(A1, (*algorithms.Monitor).Update(M, $RES.Position, len($RES.Info)), A1 == nil &&
						let(X, res0(structs.Marshal(&structs.ClientLabelState{
							Contact: (*algorithms.ContactState).Struct(after(A1, Q).Contact), Owner: (*algorithms.OwnerState).Struct(after(A1, Q).Owner)})),
							match(arg3, X) && match(Q.Contact, algorithms.NewContactState(LS.Contact)) && match(Q.Owner, algorithms.NewOwnerState(LS.Owner)))))`))
						k.need("update.terminal", pts, 1, in(`match(arg4, (*algorithms.OwnerState).Struct(_).Starting)`))
					}
				}
			}
		}
	})
}

// retainedNeeded decides which versions a client keeps for a label.
func retainedNeeded(k *Checker) {
	r := k.root("transparency.updateRetainedVersions", opaque("transparency.allLadderVersions", "math.MonitoringBinaryLadder", "math.SearchBinaryLadder"))
	owned := `let(S, p0.Owner.VerAtStarting, let(U, len(p0.Owner.UpcomingVers), any(
		S < 0 && len(V) == U && forall(I, U, V[I] == narrow_uint32(S + I + 1)),
		0 <= S && len(V) == U + 1 && V[0] == narrow_uint32(S) && forall(I, U, V[I + 1] == narrow_uint32(S + I + 1)))))`
	kept := `let(W, now(p0.Versions), match(W, comp(_, structs.RetainedVersion{Version: X, VrfOutput: _, Commitment: _})) && match(X, mkey(M, _)) && len(W) == len(M) && $)`
	in := func(x string) string { return strings.ReplaceAll(kept, "$", x) }
	k.need("retained.owned", k.sel(r.oks(), `p0.Owner != nil`), 1, `let(A, transparency.allLadderVersions(V), did(A) && `+owned+` && `+in(`any(forall(I, len(A), has(M, A[I])), match(M, mcomp(_, len(A), A[_], _)))`)+`)`)
	contact := `let(C, lv(K), iter(C, 0) == mempty() && forall(I, len(p0.Contact), let(L, math.MonitoringBinaryLadder(p0.Contact[I].Version), match(iter(C, I + 1), mcomp(iter(C, I), len(L), L[_], _)))))`
	k.shaped("retained.contact", r.oks(), `let(C, lv(K), iter(C, 0) == mempty())`, contact)
}
