package main

import "strings"

// C27: who may do what: configurations are complete and match the keys held, and
// the operator of a managed log signs each number of a label once.

func init() {
	register("C27", ``, func(k *Checker) {
		const (
			ML  = "(*managed.ManagedLog)."
			INC = "db.ManagedLogStore.IncrementGreatestVersion(recv.tx, p1.Label, len(p1.Values))"
			SGN = "suites.SigningPrivateKey.Sign(recv.priv, res0($M))"
		)
		modes := `any($C.Mode == structs.ContactMonitoring && $C.LeafPublicKey == nil && $C.AuditorPublicKey == nil, $C.Mode == structs.ThirdPartyManagement && $C.LeafPublicKey != nil && $C.AuditorPublicKey == nil, $C.Mode == structs.ThirdPartyAuditing && $C.LeafPublicKey == nil && $C.AuditorPublicKey != nil)`
		k.when("transparency.NewClient", func(r *Run) {
			k.need("client.config", r.oks(), 1, strings.ReplaceAll(modes, "$C", "p0.Config")+` && any(p0.Config.MaximumLifetime == 0, p0.Config.ReasonableMonitoringWindow < p0.Config.MaximumLifetime) && ret0 == &transparency.Client{config: p0, tx: p1}`)
			k.need("client.refused", r.errs(), 1, `any(p0.Config.MaximumLifetime > 0 && p0.Config.MaximumLifetime <= p0.Config.ReasonableMonitoringWindow, p0.Config.Mode != structs.ContactMonitoring && p0.Config.Mode != structs.ThirdPartyManagement && p0.Config.Mode != structs.ThirdPartyAuditing, p0.Config.Mode == structs.ContactMonitoring && any(p0.Config.LeafPublicKey != nil, p0.Config.AuditorPublicKey != nil), p0.Config.Mode == structs.ThirdPartyManagement && any(p0.Config.LeafPublicKey == nil, p0.Config.AuditorPublicKey != nil), p0.Config.Mode == structs.ThirdPartyAuditing && any(p0.Config.LeafPublicKey != nil, p0.Config.AuditorPublicKey == nil))`)
		}, apart())

		// a configuration of the server, and what it publishes of it
		k.when("(*structs.PrivateConfig).Public", func(r *Run) {
			k.need("public.keys", r.all(), 1, `match(ret0, &structs.PublicConfig{SignatureKey: suites.SigningPrivateKey.Public(recv.SignatureKey), VrfKey: vrf.PrivateKey.PublicKey(recv.VrfKey), Config: recv.Config})`)
		})
		k.when("(*structs.Config).IsExpired", func(r *Run) {
			k.need("expired", r.all(), 1, `imp(ret0, recv.MaximumLifetime != 0 && p1 - p0 >= recv.MaximumLifetime) && imp(!ret0, any(recv.MaximumLifetime == 0, p1 - p0 < recv.MaximumLifetime))`)
		})
		k.when("(*structs.Config).IsDistinguished", func(r *Run) {
			k.need("distinguished", r.all(), 1, `imp(ret0, p1 - p0 >= recv.ReasonableMonitoringWindow) && imp(!ret0, p1 - p0 < recv.ReasonableMonitoringWindow)`)
		})
		const HEADS = "db.TransparencyStore.GetTreeHead(p1)"
		head := func(fn, i string) string {
			return `any(res` + i + `(` + HEADS + `) == nil && $R == nil, res` + i + `(` + HEADS + `) != nil && let(H, structs.` + fn + `(B), res1(H) == nil && $R == res0(H) && match(B, &BB) && BB == res` + i + `(` + HEADS + `) && len(after(H, 0)) == 0))`
		}
		k.when("transparency.NewTree", func(r *Run) {
			k.need("server.state", r.oks(), 1, `did(`+HEADS+`) && res2(`+HEADS+`) == nil && let(X, deref(raw0), match(X.config, p0) && match(X.tx, p1) && match(X.updater, p2))`)
			k.need("server.head", r.oks(), 1, strings.ReplaceAll(head("NewTreeHead", "0"), "$R", "deref(raw0).treeHead"))
			k.need("server.auditor", r.oks(), 1, `any(p0.Config.Mode == structs.ThirdPartyAuditing && `+strings.ReplaceAll(head("NewAuditorTreeHead", "1"), "$R", "deref(raw0).auditorHead")+`, p0.Config.Mode != structs.ThirdPartyAuditing && deref(raw0).auditorHead == nil)`)
		}, opaque("structs.NewTreeHead", "structs.NewAuditorTreeHead"))

		// a managed log
		k.when("managed.NewManagedLog", func(r *Run) {
			k.need("managed.config", r.oks(), 1, `p0.Config.Mode == structs.ThirdPartyManagement && p0.Config.LeafPublicKey != nil && suites.SigningPublicKey.Bytes(p0.Config.LeafPublicKey) == suites.SigningPublicKey.Bytes(suites.SigningPrivateKey.Public(p3)) && ret0 == &managed.ManagedLog{config: p0, log: p1, tx: p2, priv: p3}`)
			k.need("managed.refused", r.errs(), 1, `any(p0.Config.Mode != structs.ThirdPartyManagement, p0.Config.LeafPublicKey == nil, suites.SigningPublicKey.Bytes(p0.Config.LeafPublicKey) != suites.SigningPublicKey.Bytes(suites.SigningPrivateKey.Public(p3)))`)
		}, apart())
		tbs := func(i string) string {
			var alts []string
			for _, v := range []string{`narrow_uint32(res0(P) + 1 + ` + i + `)`, `narrow_uint32(res0(P) + 1) + narrow_uint32(` + i + `)`, `narrow_uint32(res0(P) + 1) + ` + i} {
				alts = append(alts, strings.ReplaceAll(SGN, "$M", `structs.Marshal(iface(&structs.UpdateTBS{Config: recv.config, Label: p1.Label, Version: `+v+`, Value: p1.Values[`+i+`].Value}))`))
			}
			return "any(let(S, " + strings.Join(alts, ", $S), let(S, ") + ", $S))"
		}
		k.when(ML+"Update", func(r *Run) {
			k.need("managed.numbers", r.at("call", "suites.SigningPrivateKey.Sign"), 1, `did(`+INC+`) && res1(`+INC+`) == nil`)
			k.need("managed.signed", r.at("call", "suites.SigningPrivateKey.Sign"), 1, `let(P, `+INC+`, did(P) && res1(P) == nil && arg0 == recv.priv && match(arg1, res0(structs.Marshal(iface(&structs.UpdateTBS{Config: recv.config, Label: p1.Label, Version: W, Value: V})))) && match(V, p1.Values[X].Value) && any(W == narrow_uint32(res0(P) + 1 + X), W == narrow_uint32(res0(P) + 1) + narrow_uint32(X), W == narrow_uint32(res0(P) + 1) + X))`)
			k.need("managed.request", r.at("call", "wire.ManagerInterface.ManagerUpdate"), 1, `let(P, `+INC+`, did(P) && res1(P) == nil && arg0 == recv.log && arg1 == p0 && match(arg2, &structs.ManagerUpdateRequest{Last: p1.Last, Label: p1.Label, GreatestVersion: p1.GreatestVersion, SignedVersion: narrow_uint32(res0(P) + 1), Values: V}) && len(V) == len(p1.Values) && forall(I, len(V), V[I].Value == p1.Values[I].Value && `+strings.ReplaceAll(tbs("I"), "$S", `did(S) && res1(S) == nil && V[I].UpdateSuffix.Signature == res0(S)`)+`))`)
		})
		for _, m := range []string{"Search", "ContactMonitor", "OwnerInit", "OwnerMonitor"} {
			k.when(ML+m, func(r *Run) {
				k.need("managed.proxy", r.all(), 1, `let(S, wire.ManagerInterface.`+m+`(recv.log, p0, p1), did(S) && ret0 == res0(S) && ret1 == res1(S))`)
			})
		}
	})
}
