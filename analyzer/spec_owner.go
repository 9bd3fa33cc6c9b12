package main

import "strings"

func init() {
	register("C07", `Owner update.`, func(k *Checker) {
		for _, c := range clientRuns(k) {
			if c.name == "OwnerInit" {
				for _, s := range c.storings() {
					k.need("init.ladder", s.pts, 1, s.within(`let(BL, resp.BinaryLadder, forall(I, len(BL), let(O, vrf.PublicKey.Verify($CFG.VrfKey, res0(structs.Marshal(&structs.VrfInput{Label: p0, Version: VER})), BL[I].Proof),
						res1(O) == nil && (*algorithms.ReceivedProofHandle).AddVersion(H, VER, res0(O), BL[I].Commitment) == nil)))`))
					k.need("init.commitments", s.pts, 1, s.within(`let(BL, resp.BinaryLadder, forall(I, len(BL), let(MM, mcomp(mempty(), len(resp.GreatestVersions), resp.GreatestVersions[_], _), any(BL[I].Commitment != nil, !has(MM, _)))))`))
				}
			}
			if c.name != "Update" {
				continue
			}
			for _, s := range c.storings() {
				for _, own := range []bool{true, false} {
					vals, sel := "p0.Values", "len(p0.Values) != 0"
					if own {
						vals, sel = "recv.req.Values", "len(p0.Values) == 0"
					}
					pts := k.sel(s.pts, sel)
					in := func(x string) string {
						x = strings.ReplaceAll(x, "$VALS", vals)
						return s.within(x)
					}
					k.need("update.count", pts, 1, in(`len(p0.Info) == len($VALS) && len(p0.Info) != 0`))
					for _, first := range []bool{true, false} {
						g := "recv.labelState.Owner.VerAtStarting + len(recv.labelState.Owner.UpcomingVers)"
						w, sel := "any(match(W, narrow_uint32(I)), W == I)", g+" < 0"
						if !first {
							w, sel = "any(W == narrow_uint32("+g+") + narrow_uint32(I) + 1, W == narrow_uint32("+g+") + I + 1)", g+" >= 0"
						}
						k.need("update.version", k.sel(pts, sel), 1, in(`forall(I, len($VALS), let(X, res0(structs.Marshal(&structs.CommitmentValue{Label: recv.req.Label, Version: W, Update: U})), `+w+`))`))
						k.need("update.version.signed", k.sel(pts, sel), 1, in(`imp($CFG.Mode == structs.ThirdPartyManagement, forall(I, len($VALS), let(X, res0(structs.Marshal(&structs.UpdateTBS{Label: recv.req.Label, Version: W})), `+w+`)))`))
					}
					k.need("update.signed", pts, 1, in(`imp($CFG.Mode == structs.ThirdPartyManagement, forall(I, len($VALS), let(X, res0(structs.Marshal(&structs.UpdateTBS{Config: $CFG, Label: recv.req.Label, Version: W, Value: $VALS[I].Value})), suites.SigningPublicKey.Verify($CFG.LeafPublicKey, X, p0.Info[I].UpdateSuffix.Signature))))`))
					k.need("update.unsigned", pts, 1, in(`imp($CFG.Mode != structs.ThirdPartyManagement, forall(I, len($VALS), p0.Info[I].UpdateSuffix.Signature == nil))`))
					k.need("update.commitments", pts, 1, in(`let(BL, p0.BinaryLadder, forall(I, len(BL), let(O, vrf.PublicKey.Verify($CFG.VrfKey, res0(structs.Marshal(&structs.VrfInput{Label: recv.req.Label, Version: VER})), BL[I].Proof),
						res1(O) == nil && let(A, (*algorithms.ReceivedProofHandle).AddVersion(H, VER, res0(O), C), A == nil && any(
							match(C, lookup(MM, VER)) && match(MM, mcomp(mempty(), len($VALS), W, commitments.Commit($CFG.Suite, p0.Info[J].Opening, res0(structs.Marshal(&structs.CommitmentValue{Label: recv.req.Label, Version: W, Update: structs.UpdateValue{Value: $VALS[J].Value, UpdateSuffix: p0.Info[J].UpdateSuffix}}))))) && has(MM, VER) && BL[I].Commitment == nil,
							match(C, BL[I].Commitment) && let(MM, mcomp(mempty(), len($VALS), _, commitments.Commit(_, _, _)), !has(MM, VER)))))))`))
				}
			}
		}
	})
}
