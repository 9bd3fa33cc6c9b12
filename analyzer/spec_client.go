package main

import (
	"go/token"
	"strings"
)

// A group of places where a client stores what it learned from a response.
type storing struct {
	name  string
	pts   []*point
	state bool // the user had state before
	head  bool // the response contains a new tree head
	tok   *strings.Replacer
}

func (s *storing) f(x string) string { return s.tok.Replace(x) }

// within wraps a formula with names for what the verification is about:
// S the state before, H the proof handle, P the data provider, R the result of Finish.
func (s *storing) within(body string) string {
	x := `let(H, algorithms.NewReceivedProofHandle($CFG.Suite, $PROOF),
	      let(P, algorithms.NewDataProvider($CFG.Suite, H),
	      let(R, res0((*algorithms.DataProvider).Finish(P, $N, NP, $M)), ` + body + `)))`
	if s.state {
		x = `let(S, $STATE, ` + x + `)`
	}
	return s.f(strings.ReplaceAll(x, "\n", " "))
}

const putCalls = "db.ClientStore.PutState,db.ClientStore.PutLabelState"

type clientRun struct {
	name string
	r    *Run
	tok  map[string]string
	// what distinguishes the places, for Monitor
	sel string
}

func clientRuns(k *Checker) []clientRun {
	var out []clientRun
	for _, n := range []string{"GreatestVersionSearch", "FixedVersionSearch", "OwnerInit"} {
		r := k.root("(*transparency.Client)."+n, capped(256)).then(1, "resp")
		tok := map[string]string{"$RES": "resp", "$PROOF": "resp.Search", "$LABEL": "p0"}
		if n == "OwnerInit" {
			tok["$PROOF"] = "resp.Init"
		}
		out = append(out, clientRun{name: n, r: r, tok: tok})
	}
	r := k.root("(*transparency.Client).Monitor", capped(256)).then(1, "resp")
	for _, n := range []string{"ContactMonitor", "OwnerMonitor"} {
		ty := "*structs." + n + "Response"
		out = append(out, clientRun{name: n, r: r, sel: "is(resp, " + ty + ")",
			tok: map[string]string{"$RES": "as(resp, " + ty + ")", "$PROOF": "as(resp, " + ty + ").Monitor", "$LABEL": "res0(db.ClientStore.GetStaleLabel(recv.tx, _))"}})
	}
	r = k.root("(*transparency.StreamVerifier).Verify", capped(256))
	out = append(out, clientRun{name: "Update", r: r, tok: map[string]string{"$RES": "p0", "$PROOF": "p0.Update", "$LABEL": "recv.req.Label",
		"$CFG": "recv.client.config", "$STORE": "recv.client.tx", "$STATE": "recv.state"}})
	for i := range out {
		t := out[i].tok
		if t["$CFG"] == "" {
			t["$CFG"], t["$STORE"] = "recv.config", "recv.tx"
			t["$STATE"] = "res0(structs.NewClientState(recv.config, &res0(db.ClientStore.GetState(recv.tx))))"
		}
		t["$TH"] = t["$RES"] + ".FullTreeHead.TreeHead"
		t["$ATH"] = t["$RES"] + ".FullTreeHead.AuditorTreeHead"
	}
	return out
}

func replacer(t map[string]string) *strings.Replacer {
	var xs []string
	for _, n := range []string{"$STATE", "$PROOF", "$LABEL", "$STORE", "$CFG", "$RES", "$ATH", "$TH", "$N", "$M"} {
		xs = append(xs, n, t[n])
	}
	return strings.NewReplacer(xs...)
}

func (c clientRun) puts() []*point {
	pts := c.r.calls(strings.Split(putCalls, ",")...)
	if c.sel != "" {
		pts = c.r.k.sel(pts, c.sel)
	}
	return pts
}

// storings splits the places where state is stored by whether there was state and a new tree head.
func (c clientRun) storings() []*storing {
	k := c.r.k
	all := c.puts()
	if len(all) == 0 {
		k.violate("head.sites", c.name, "nothing is stored after a response was verified")
	}
	out, total := c.groups(all)
	if total != len(all) {
		for _, p := range all {
			if sn := c.stateNil(); len(k.sel([]*point{p}, sn+" || !("+sn+")")) == 0 {
				k.violatePos("head.state", p.pos, "%s: state is stored without considering whether there was state before", p.desc)
			}
			if len(k.sel([]*point{p}, replacer(c.tok).Replace("$TH == nil || !($TH == nil)"))) == 0 {
				k.violatePos("head.presence", p.pos, "%s: state is stored without considering whether there is a new tree head", p.desc)
			}
		}
	}
	for i, s := range out {
		if !s.state && !s.head {
			for _, p := range s.pts {
				k.violatePos("head.required", p.pos, "%s: a response without a tree head is accepted by a client without state", p.desc)
			}
			out = append(out[:i:i], out[i+1:]...)
			break
		}
	}
	return out
}

func (c clientRun) stateNil() string {
	if c.name == "Update" {
		return "recv.state == nil"
	}
	return "res0(db.ClientStore.GetState(recv.tx)) == nil"
}

func (c clientRun) groups(all []*point) (out []*storing, total int) {
	k := c.r.k
	for _, st := range []bool{false, true} {
		for _, hd := range []bool{false, true} {
			s := &storing{name: c.name, state: st, head: hd}
			t := map[string]string{}
			for a, b := range c.tok {
				t[a] = b
			}
			t["$N"], t["$M"] = "S.TreeHead.TreeSize", "nil"
			if hd {
				t["$N"] = c.tok["$TH"] + ".TreeSize"
			}
			if st {
				t["$M"] = "&S.TreeHead.TreeSize"
			}
			s.tok = replacer(t)
			f1, f2 := c.stateNil(), s.f("$TH == nil")
			if st {
				f1 = "!(" + f1 + ")"
			}
			if hd {
				f2 = "!(" + f2 + ")"
			}
			s.pts = k.sel(all, f1+" && "+f2)
			total += len(s.pts)
			if len(s.pts) > 0 {
				out = append(out, s)
			}
		}
	}
	return
}

const headTBS = `res0(structs.Marshal(&structs.TreeHeadTBS{Config: $CFG, TreeSize: $TH.TreeSize, Root: res0(log.Root($CFG.Suite, $TH.TreeSize, R.FullSubtrees))}))`
const auditorTBS = `res0(structs.Marshal(&structs.AuditorTreeHeadTBS{Config: $CFG, Timestamp: $ATH.Timestamp, TreeSize: $ATH.TreeSize, Root: res0(log.Root($CFG.Suite, $ATH.TreeSize, R.Additional))}))`

func init() {
	register("C01", `At every place where a client stores state after a response, must-facts on every path from the entry point establish: the signature over configuration, size and recomputed root was accepted; the size grew; without a new tree head there was state before.`, func(k *Checker) {
		for _, c := range clientRuns(k) {
			for _, s := range c.storings() {
				if s.head {
					k.need("head.signature", s.pts, 1, s.within(`suites.SigningPublicKey.Verify($CFG.SignatureKey, `+headTBS+`, $TH.Signature)`))
					if s.state {
						k.need("head.grows", s.pts, 1, s.within(`S.TreeHead.TreeSize < $TH.TreeSize`))
					}
					k.need("head.saved", s.pts, 1, s.within(`match(arg1, res0(structs.Marshal(&structs.ClientState{TreeHead: *$TH, AuditorTreeHead: $ATH})))`))
				} else {
					k.need("head.kept", s.pts, 1, s.within(`match(arg1, res0(structs.Marshal(&structs.ClientState{TreeHead: S.TreeHead})))`))
				}
			}
		}
	})
	register("C02", ``, func(k *Checker) {
		for _, c := range clientRuns(k) {
			for _, s := range c.storings() {
				if !s.head {
					k.need("auditor.unchanged", s.pts, 1, s.within(`$ATH == nil && match(arg1, res0(structs.Marshal(&structs.ClientState{AuditorTreeHead: S.AuditorTreeHead})))`))
					continue
				}
				k.need("auditor.absent", s.pts, 1, s.f(`imp($CFG.Mode != structs.ThirdPartyAuditing, $ATH == nil)`))
				k.need("auditor.present", s.pts, 1, s.f(`imp($CFG.Mode == structs.ThirdPartyAuditing, $ATH != nil)`))
				au := k.sel(s.pts, s.f(`$ATH != nil`))
				k.need("auditor.signature", au, 1, s.within(`suites.SigningPublicKey.Verify($CFG.AuditorPublicKey, `+auditorTBS+`, $ATH.Signature)`))
				k.need("auditor.size", au, 1, s.within(`$ATH.TreeSize <= $TH.TreeSize`))
				k.need("auditor.time", au, 1, s.within(`let(T, res0((*algorithms.DataProvider).GetTimestamp(P, $TH.TreeSize - 1)), $ATH.Timestamp <= T && T - $ATH.Timestamp <= $CFG.MaxAuditorLag)`))
				if s.state {
					k.need("auditor.history", au, 1, s.within(`S.AuditorTreeHead != nil && $CFG.AuditorStartPos <= S.AuditorTreeHead.TreeSize`))
				}
				k.need("auditor.saved", au, 1, s.within(`match(arg1, res0(structs.Marshal(&structs.ClientState{AuditorTreeHead: $ATH})))`))
			}
		}
	})
	register("C03", ``, func(k *Checker) {
		entryHash(k)
		for _, c := range clientRuns(k) {
			for _, s := range c.storings() {
				if s.state {
					k.need("retained.given", s.pts, 1, s.within(`(*algorithms.DataProvider).AddRetained(P, S.FullSubtrees, S.LogEntries) == nil`))
				}
				k.need("retained.view", s.pts, 1, s.within(`algorithms.UpdateView($CFG, $N, $M, P) == nil`))
				k.need("retained.finish", s.pts, 1, s.within(`res1((*algorithms.DataProvider).Finish(P, $N, NP, $M)) == nil`))
				k.need("retained.saved", s.pts, 1, s.within(`match(arg1, res0(structs.Marshal(&structs.ClientState{FullSubtrees: R.FullSubtrees, LogEntries: R.LogEntries})))`))
				k.need("retained.auditor", s.pts, 1, s.within(`any($ATH == nil && NP == nil, match(NP, &$ATH.TreeSize))`))
			}
		}
	})
	register("C04", ``, func(k *Checker) {
		sites := map[token.Pos]bool{}
		for _, c := range clientRuns(k) {
			tok := replacer(c.tok).Replace
			for _, p := range c.puts() {
				sites[p.pos] = true
			}
			sel := c.sel
			if sel == "" {
				sel = "true"
			}
			ok := k.sel(c.r.oks(), sel)
			k.need("store.success", ok, 1, tok(`any(let(C, db.ClientStore.PutState($STORE, _), did(C) && C == nil), let(C, db.ClientStore.PutLabelState($STORE, _, _, _, _), did(C) && C == nil))`))
			k.never("store.twice", ok, tok(`did(db.ClientStore.PutState($STORE, _)) && did(db.ClientStore.PutLabelState($STORE, _, _, _, _))`))
			k.need("store.failure", k.sel(k.sel(c.r.errs(), sel), `any(did(db.ClientStore.PutState(_, _)), did(db.ClientStore.PutLabelState(_, _, _, _, _)))`), 1,
				`any(match(ret0, db.ClientStore.PutState(_, _)), match(ret0, db.ClientStore.PutLabelState(_, _, _, _, _)))`)
			lb := k.sel(c.puts(), `match(result, db.ClientStore.PutLabelState(_, _, _, _, _))`)
			k.need("store.label", lb, 1, tok(`match(arg2, $LABEL)`))
			k.need("store.encoded", lb, 1, `any(arg3 == nil, let(X, res0(structs.Marshal(_)), match(arg3, X) && mentions(X, zero_structs_ClientLabelState())), match(arg3, res0(structs.Marshal(&structs.ClientLabelState{}))))`)
		}
		for _, n := range []string{"GreatestVersionSearch", "FixedVersionSearch", "OwnerInit", "Monitor", "Update"} {
			r := k.root("(*transparency.Client)."+n, capped(256))
			k.never("store.request", r.at("call", strings.Split(putCalls, ",")...), "true")
			k.need("store.requests", r.oks(), 1, "true")
		}
		for _, s := range k.callers(strings.Split(putCalls, ",")...) {
			k.obls++
			if !sites[s] {
				k.violatePos("store.elsewhere", s, "client state is stored at a place that is not reached by verifying a response")
			} else {
				k.proved++
			}
		}
	})
	register("C05", ``, func(k *Checker) {
		versionTable(k)
		for _, c := range clientRuns(k) {
			ver, search := "*resp.Version", "GreatestVersionSearch"
			switch c.name {
			case "GreatestVersionSearch":
			case "FixedVersionSearch":
				ver, search = "p1", "FixedVersionSearch"
			default:
				continue
			}
			for _, s := range c.storings() {
				in := func(x string) string {
					x = strings.ReplaceAll(x, "$COMMIT", "commitments.Commit($CFG.Suite, resp.Opening, res0(structs.Marshal(&structs.CommitmentValue{Label: p0, Version: $V, Update: resp.Value})))")
					x = strings.ReplaceAll(x, "$LADDER", "math.SearchBinaryLadder($V, $V, nil, nil)")
					return s.within(strings.ReplaceAll(x, "$V", ver))
				}
				k.need("search.proof", s.pts, 1, in(`res1(algorithms.`+search+`($CFG, $V, $N, P)) == nil`))
				k.need("search.ladder", s.pts, 1, in(`len(resp.BinaryLadder) == len($LADDER)`))
				k.need("search.steps", s.pts, 1, in(`forall(I, len($LADDER), let(O, vrf.PublicKey.Verify($CFG.VrfKey, res0(structs.Marshal(&structs.VrfInput{Label: p0, Version: $LADDER[I]})), resp.BinaryLadder[I].Proof),
					res1(O) == nil && let(A, (*algorithms.ReceivedProofHandle).AddVersion(H, $LADDER[I], res0(O), C), A == nil && any(
						$LADDER[I] == $V && C == $COMMIT && resp.BinaryLadder[I].Commitment == nil,
						$LADDER[I] != $V && C == resp.BinaryLadder[I].Commitment))))`))
				k.need("search.signed", s.pts, 1, in(`imp($CFG.Mode == structs.ThirdPartyManagement, suites.SigningPublicKey.Verify($CFG.LeafPublicKey, res0(structs.Marshal(&structs.UpdateTBS{Config: $CFG, Label: p0, Version: $V, Value: resp.Value.Value})), resp.Value.Signature))`))
				k.need("search.unsigned", s.pts, 1, in(`imp($CFG.Mode != structs.ThirdPartyManagement, resp.Value.Signature == nil)`))
			}
		}
	})
}
