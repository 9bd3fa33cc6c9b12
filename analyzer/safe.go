package main

import (
	"fmt"
	"go/token"
	"strings"
)

// Absence of run-time panics: every index, slice bound, dereference, division, type assertion and
// allocation that depends on input is shown to be in range on every path that reaches it.

// safe decides all such places that a run reached. Those that the function takes for granted about
// its arguments are given by trusted.
func (k *Checker) safe(rule string, r *Run, trusted func(t *Term) bool) {
	if r.fn == nil {
		return
	}
	k.rules = append(k.rules, rule)
	if trusted == nil {
		trusted = func(*Term) bool { return false }
	}
	type place struct {
		pos  string
		kind string
	}
	bad := map[place]bool{}
	for _, e := range r.x.events {
		f := e.facts
		ok, what := true, ""
		switch e.kind {
		case "index":
			i, n := e.args[0], e.args[1]
			ok = f.Proves(mk("lt", "", i, n), true) && (nonNegative(i) || f.Proves(mk("lt", "", i, tZeroI), false))
			what = fmt.Sprintf("index %s of %s elements", i, n)
		case "slice":
			lo, hi, n := e.args[0], e.args[1], e.args[2]
			ok = (hi == n || f.Proves(mk("lt", "", n, hi), false)) && (lo == tZeroI || f.Proves(mk("lt", "", hi, lo), false)) && (nonNegative(lo) || f.Proves(mk("lt", "", lo, tZeroI), false))
			what = fmt.Sprintf("slice from %s to %s of %s elements", lo, hi, n)
		case "deref":
			ok = trusted(e.args[0]) || f.Proves(eqT(e.args[0], tNil), false)
			what = fmt.Sprintf("use of %s, which may be nil", e.args[0])
		case "div":
			ok = false
			what = fmt.Sprintf("division by %s, which may be zero", e.args[0])
		case "assert":
			ok = trusted(e.args[0])
			what = fmt.Sprintf("assertion that %s has type %s", e.args[0], e.name)
		case "panic":
			ok = false
			what = "panic"
		case "makeslice":
			ok = boundedSize(f, e.args[0])
			what = fmt.Sprintf("allocation of %s elements, which the input determines", e.args[0])
		default:
			continue
		}
		k.obls++
		if ok {
			k.proved++
			continue
		}
		p := place{k.pos(e.pos), e.kind}
		if bad[p] {
			continue
		}
		bad[p] = true
		if k.unsure(rule, k.pos(e.pos), r.x) {
			continue
		}
		k.violatePos(rule, e.pos, "%s in %s reached from %s: not shown to be in range on every path", what, fnName(e.fn), r.name)
		if debug {
			fmt.Printf("---- %s %s\n", rule, k.pos(e.pos))
			dumpFacts(f, "     ")
		}
	}
}

// precise: the analysis knows what the term stands for, and not only that some loop or call left it.
func precise(t *Term) bool {
	ok, seen := true, map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		switch t.op {
		case "lv", "phi", "after", "bin", "comp", "fcomp", "mcomp", "fmcomp", "get", "lookup", "fill", "ffill", "mput", "mdel", "mempty", "hv", "cat", "loopid", "sorted":
			ok = false
			return
		case "call":
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return ok
}

// own: a parameter, or something reached from the receiver or a parameter without reading what a
// peer sent: what the program itself hands over.
func own(t *Term, mine func(root string) bool) bool {
	for t.op == "as" {
		t = t.args[0]
	}
	if t.op == "sym" {
		return true
	}
	for t.op == "f" || t.op == "ld" || t.op == "fa" {
		t = t.args[0]
	}
	return t.op == "sym" && mine(symName(t))
}

// inRange shows that i < n, also when n is known to be the sum of lengths.
func inRange(f *Facts, i, n *Term) bool {
	if f.Proves(mk("lt", "", i, n), true) {
		return true
	}
	for l, v := range f.lits {
		if !v || l.op != "eq" {
			continue
		}
		s := l.args[0]
		if s == n {
			s = l.args[1]
		} else if l.args[1] != n {
			continue
		}
		if s.op != "sum" {
			continue
		}
		for j, p := range s.args {
			if p.op != "len" {
				break
			}
			if f.Proves(mk("lt", "", i, p), true) {
				return true
			}
			if len(s.args) == 2 && f.Proves(mk("lt", "", sub(i, p), s.args[1-j]), true) {
				return true
			}
		}
	}
	return false
}

// crashSafe decides the places where a run depends on what a peer sent: it indexes, slices or
// dereferences only what was checked. Values that the analysis knows too little about are left out.
func (k *Checker) crashSafe(rule string, r *Run, mine func(root string) bool, kept func(f *Facts, t *Term) bool) {
	if r.fn == nil {
		return
	}
	k.rules = append(k.rules, rule)
	bad := map[token.Pos]bool{}
	for _, e := range r.x.events {
		f := e.facts
		ok, what := true, ""
		switch e.kind {
		case "index":
			i, n := e.args[0], e.args[1]
			if !precise(i) || !precise(n) || n.op == "len" && (kept(f, n.args[0]) || n.args[0].op != "sym" && own(n.args[0], mine)) || i.op == "res" && strings.Contains(i.args[0].aux, "BinarySearch") {
				continue
			}
			ok = inRange(f, i, n) && (nonNegative(i) || f.Proves(mk("lt", "", i, tZeroI), false))
			what = fmt.Sprintf("index %s of %s elements", i, n)
		case "slice":
			lo, hi, n := e.args[0], e.args[1], e.args[2]
			if !precise(lo) || !precise(hi) || !precise(n) {
				continue
			}
			ok = (hi == n || f.Proves(mk("lt", "", n, hi), false)) && (lo == tZeroI || f.Proves(mk("lt", "", hi, lo), false) || inRange(f, lo, hi) || inRange(f, sub(lo, tInt(1)), hi)) && (nonNegative(lo) || f.Proves(mk("lt", "", lo, tZeroI), false))
			what = fmt.Sprintf("slice from %s to %s of %s elements", lo, hi, n)
		case "deref":
			if !precise(e.args[0]) {
				continue
			}
			ok = own(e.args[0], mine) || kept(f, e.args[0]) || f.Proves(eqT(e.args[0], tNil), false)
			what = fmt.Sprintf("use of %s, which may be nil", e.args[0])
		case "div":
			ok = false
			what = fmt.Sprintf("division by %s, which may be zero", e.args[0])
		default:
			continue
		}
		k.obls++
		if ok {
			k.proved++
			continue
		}
		if bad[e.pos] {
			continue
		}
		bad[e.pos] = true
		if k.unsure(rule, k.pos(e.pos), r.x) {
			continue
		}
		k.violatePos(rule, e.pos, "%s in %s reached from %s: not shown to be in range on every path", what, fnName(e.fn), r.name)
		if debug {
			fmt.Printf("---- %s %s\n", rule, k.pos(e.pos))
			dumpFacts(f, "     ")
		}
	}
}

func nonNegative(t *Term) bool {
	if n, ok := intVal(t); ok {
		return n.Sign() >= 0
	}
	if t.op == "sum" {
		for _, a := range t.args {
			if !nonNegative(a) {
				return false
			}
		}
		return true
	}
	return t.nonneg || t.op == "len" || t.op == "rd"
}

// boundedSize: a size is constant, of at most 16 bits, or no larger than what is in memory already.
func boundedSize(f *Facts, n *Term) bool {
	if f.Proves(mk("lt", "", tInt(1<<16), n), false) {
		return true
	}
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.op {
		case "rd":
			if t.aux == "u8" || t.aux == "u16" {
				return
			}
			rest := mk("rest", t.aux, t.args...)
			if !f.Proves(mk("lt", "", lenT(rest), n), false) {
				ok = false
			}
			return
		case "len":
			return
		case "f", "ld", "sym", "const", "call":
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(n)
	return ok
}

func init() {
	register("C25", ``, func(k *Checker) {
		treeWalks(k)
		// what a peer sent is what is not reached from these
		mine := func(roots ...string) func(string) bool {
			return func(r string) bool {
				for _, x := range roots {
					if x == r {
						return true
					}
				}
				return false
			}
		}
		// the decoder of proofs makes a result for every element, and a call that succeeds has a result
		kept := func(f *Facts, t *Term) bool {
			if (t.op == "at" || t.op == "idx" || t.op == "elem") && strings.HasSuffix(t.args[0].String(), "Results") {
				return true
			}
			if t.op != "res" || t.aux != "0" || t.args[0].op != "call" {
				return false
			}
			return f.Proves(eqT(mk("res", "1", t.args[0]), tNil), true)
		}
		for _, n := range []string{"GreatestVersionSearch", "FixedVersionSearch", "OwnerInit", "Monitor"} {
			k.crashSafe("response.safe", k.root("(*transparency.Client)."+n, capped(256), withMem()).then(1, "resp"), mine("recv", "p0", "p1"), kept)
		}
		k.crashSafe("response.safe", k.root("(*transparency.Client).Update", capped(256), withMem()), mine("recv", "p0", "p1"), kept)
		k.crashSafe("response.safe", k.root("(*transparency.StreamVerifier).Verify", capped(256), withMem()), mine("recv"), kept)
		for _, n := range []string{"Search", "ContactMonitor", "OwnerInit", "OwnerMonitor", "Update", "ManagerUpdate"} {
			k.crashSafe("request.safe", k.root("(*transparency.Tree)."+n, capped(256), withMem()), mine("recv", "p0"), kept)
		}
		for _, n := range []string{"GetTimestamp", "GetSearchBinaryLadder", "GetMonitoringBinaryLadder", "GetInclusionProof", "GetPrefixTrees", "Finish"} {
			k.crashSafe("proof.safe", k.root("(*algorithms.ReceivedProofHandle)."+n, inlined("math.InterpretSearchLadder"), withMem()), mine(), kept)
		}
		for _, n := range []string{"prefix.Evaluate", "prefix.EvaluateBeforeAfter", "(*log.Verifier).Evaluate", "(*log.Verifier).Retain", "(*auditor.Auditor).Process"} {
			k.crashSafe("proof.safe", k.root(n, withMem()), mine("recv"), kept)
		}
		for _, n := range []string{"(*algorithms.DataProvider).Output", "(*algorithms.DataProvider).Finish", "(*algorithms.Monitor).ContactMonitor", "(*algorithms.Monitor).OwnerInit", "(*algorithms.Monitor).OwnerMonitor", "(*algorithms.Monitor).Update", "algorithms.FixedVersionSearch",
			"algorithms.GreatestVersionSearch", "algorithms.UpdateView", "algorithms.PreviousRightmost", "transparency.simplifyMonitoringMap", "math.InterpretSearchLadder"} {
			k.crashSafe("proof.safe", k.root(n, withMem()), mine("recv", "p0", "p1", "p2", "p3"), kept)
		}
	})
	register("C18", ``, func(k *Checker) {
		for _, p := range codecPairs {
			if k.p.base.isLost(p[0]) {
				continue
			}
			k.safe("decode.safe", k.root(p[0], codecOpts(p[0]), withMem()), func(t *Term) bool {
				return !mentionsOp(t, "rd") && !mentionsOp(t, "res")
			})
		}
		const T = "(*transparency.Tree)."
		one := func(dec, args string, n int) string {
			return `let(D, ` + dec + `(` + args + `), did(D) && res1(D) == nil && len(after(D, ` + fmt.Sprint(n) + `)) == 0 && ret0 == res0(D))`
		}
		opq := func(root, dec string, o ...opt) *Run { return k.root(root, append(o, opaque(dec))...) }
		k.need("state.whole", opq("(*transparency.Client).getState", "structs.NewClientState").oks(), 1,
			`let(G, db.ClientStore.GetState(recv.tx), did(G) && res1(G) == nil && any(res0(G) == nil && ret0 == nil, res0(G) != nil && `+one("structs.NewClientState", "recv.config, _", 0)+`))`)
		k.need("state.whole", opq("transparency.parseLabelState", "structs.NewClientLabelState").oks(), 1,
			`any(p1 == nil, p1 != nil && `+one("structs.NewClientLabelState", "p0.Config.Suite, _", 0)+`)`)
		k.need("state.whole", opq(T+"getVersion", "structs.NewOpeningAndValue").oks(), 1,
			`let(G, db.TransparencyStore.GetVersion(recv.tx, p0, p1), any(res0(G) == nil, `+one("structs.NewOpeningAndValue", "_, _", 0)+`))`)
		k.need("state.whole", opq("(*algorithms.ProducedProofHandle).getLogEntry", "structs.NewLogEntry").oks(), 1,
			`any(!did(structs.NewLogEntry(_, _)), let(D, structs.NewLogEntry(recv.cs, _), did(D) && res1(D) == nil && len(after(D, 0)) == 0 && any(*ret0 == *res0(D), deref(ret0) == *res0(D))))`)
		k.need("state.whole", opq("transparency.NewTree", "structs.NewTreeHead", opaque("structs.NewAuditorTreeHead")).oks(), 1,
			`let(G, db.TransparencyStore.GetTreeHead(p1), res2(G) == nil && any(res0(G) == nil && ret0.treeHead == nil, res0(G) != nil && let(D, structs.NewTreeHead(_), did(D) && res1(D) == nil && len(after(D, 0)) == 0 && ret0.treeHead == res0(D))) && any(res1(G) == nil && ret0.auditorHead == nil, p0.Config.Mode != structs.ThirdPartyAuditing && ret0.auditorHead == nil, res1(G) != nil && let(D, structs.NewAuditorTreeHead(_), did(D) && res1(D) == nil && len(after(D, 0)) == 0 && ret0.auditorHead == res0(D))))`)
		k.need("state.whole", opq("auditor.NewAuditor", "auditor.NewAuditorState").oks(), 1,
			`let(G, db.AuditorStore.GetState(p2), res1(G) == nil && any(res0(G) == nil && ret0.state == nil, res0(G) != nil && let(D, auditor.NewAuditorState(_, _), did(D) && res1(D) == nil && len(after(D, 0)) == 0 && ret0.state == res0(D))))`)
		k.need("state.whole", opq("prefix.unmarshalTile", "prefix.unmarshalNode").oks(), 1,
			`let(D, prefix.unmarshalNode(p0, _, rd_u8(p2), _), did(D) && res1(D) == nil && len(after(D, 0)) == 0 && ret0.root == res0(D))`)
		k.need("state.whole", opq(T+"updateView", "structs.NewLogEntry").calls("(*algorithms.DataProvider).AddRetained"), 1,
			`let(F, math.Frontier(*p0), forall(I, len(F), let(D, structs.NewLogEntry(_, _), did(D) && res1(D) == nil && len(after(D, 0)) == 0)))`)
	})
}
