package main

import (
	"fmt"
	"strings"
)

// C26: what the stores return is what was stored last under the same identifier.

// storeKey is a key that a method of a store uses, in terms of id0, id1, ...
type storeKey struct {
	kind, method, where string
	t                   *Term
	ids                 int
}

// bound finds what a formula binds a name to at every point; a point where it does not hold is a violation.
func (k *Checker) bound(rule string, pts []*point, name, formula string) []*Term {
	var out []*Term
	e := parsePat(formula)
	if !k.applies(rule, pts, formula) {
		return nil
	}
	for _, pt := range pts {
		m := &matcher{k: k, pt: pt, f: pt.facts}
		m.holds(e, bind{}, func(b bind) bool {
			if t := b[name]; t != nil {
				out = append(out, t)
				return true
			}
			return false
		})
	}
	return out
}

// ids renames the parameters that identify an entry, and the elements of those
// that list identifiers, to id0, id1, ...
func storeIds(r *Run, t, iter *Term, params []string) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if v := memo[t]; v != nil {
			return v
		}
		for i, p := range params {
			list := strings.HasSuffix(p, "[]")
			pt := r.env[strings.TrimSuffix(p, "[]")]
			if !list && t == pt || list && t.op == "elem" && t.args[0] == pt && (iter == nil || mentions(t.args[1], iter)) {
				return mk("sym", fmt.Sprintf("id%d\x00", i))
			}
		}
		v := t
		if len(t.args) > 0 {
			args := make([]*Term, len(t.args))
			same := true
			for i, a := range t.args {
				args[i] = rec(a)
				same = same && args[i] == a
			}
			if !same {
				v = rebuild(t, args)
			}
		}
		memo[t] = v
		return v
	}
	return rec(t)
}

// sameStore decides that the methods of one store agree on where each kind of entry is.
func (k *Checker) sameStore(rule string, keys []storeKey) {
	k.rules = append(k.rules, rule)
	items := map[*Term][]textItem{}
	for _, a := range keys {
		xs, ok := textItems(a.t)
		if base, _ := splitAdd(a.t); !ok && base.op != "sym" {
			k.undecided(rule, a.where, fmt.Sprintf("the key %s is not text that the analysis knows", a.t))
			return
		}
		items[a.t] = xs
	}
	for i, a := range keys {
		k.obls++
		good := true
		for id := range a.ids {
			if !mentions(a.t, mk("sym", fmt.Sprintf("id%d\x00", id))) {
				k.violate(rule, a.where, "%s: the key %s does not depend on identifier %d", a.method, a.t, id)
				good = false
			}
		}
		if mentionsOp(a.t, "narrow") || !textInjective(items[a.t]) {
			k.violate(rule, a.where, "%s: different identifiers may have the same key %s", a.method, a.t)
			good = false
		}
		for _, b := range keys[:i] {
			k.obls++
			k.proved++
			if a.kind == b.kind && a.t != b.t {
				k.violate(rule, a.where, "%s looks under the key %s, but %s under %s", a.method, a.t, b.method, b.t)
				good = false
			}
			if a.kind != b.kind && textMeet(items[a.t], items[b.t]) {
				k.violate(rule, a.where, "%s and %s may use the same key, for entries of different kinds: %s and %s", a.method, b.method, a.t, b.t)
				good = false
			}
		}
		if good {
			k.proved++
		}
	}
}

// copied decides that a value that is kept, or handed out, is not shared with anyone.
func (k *Checker) copied(rule string, pts []*point, formula string) {
	k.rules = append(k.rules, rule)
	for _, v := range k.bound(rule, pts, "V", formula) {
		k.obls++
		switch v.op {
		case "nil", "mkslice", "alloc", "zero":
			k.proved++
			continue
		case "p", "lookup", "get", "sym", "ld", "field":
			if pts[0].x.cloned[v] {
				k.proved++
				continue
			}
			k.violate(rule, k.where(pts), "%s: %s is shared with the caller, who may change it", pts[0].desc, v)
		default:
			k.proved++
		}
	}
}

func init() {
	register("C26", ``, func(k *Checker) {
		const (
			CG = "(*db.ldbConn).Get"
			CP = "(*db.ldbConn).Put"
			CC = "(*db.ldbConn).Commit"
			LD = "(*github.com/syndtr/goleveldb/leveldb.DB)."
			LB = "(*github.com/syndtr/goleveldb/leveldb.Batch)."
		)
		tok := strings.NewReplacer("$CG", CG, "$CP", CP, "$CC", CC, "$LD", LD, "$LB", LB, "$NF", "github.com/syndtr/goleveldb/leveldb.ErrNotFound")

		// the connection: what is pending shadows what is committed
		k.when(CG, func(r *Run) {
			own := `let(G, $LDGet(recv.conn, p0, nil), did(G) && !has(recv.batch, p0) && ret0 == res0(G) && ret1 == res1(G))`
			k.need("get.found", r.oks(), 1, tok.Replace(`any(`+own+`, has(recv.batch, p0) && lookup(recv.batch, p0) != nil && ret0 == lookup(recv.batch, p0))`))
			k.need("get.missing", r.errs(), 1, tok.Replace(`any(`+own+`, has(recv.batch, p0) && lookup(recv.batch, p0) == nil)`))
			k.copied("get.copy", k.sel(r.oks(), `has(recv.batch, p0)`), `match(raw0, V)`)
		})
		k.when(CP, func(r *Run) {
			k.need("put.pending", r.all(), 1, `!recv.readonly && match(now(recv.batch), mput(recv.batch, p0, W)) && any(p1 == nil && W == nil, p1 != nil && W != nil && deep(W) == p1)`)
		})
		k.when(CC, func(r *Run) {
			key, val := `mkey(recv.batch, I)`, `lookup(recv.batch, mkey(recv.batch, I))`
			put, del := `$LBPut(&iter(L, I), `+key+`, `+val+`)`, `$LBDelete(&iter(L, I), `+key+`)`
			written := `let(W, $LDWrite(recv.conn, &L, X), did(W) && match(L, lv(len(recv.batch))) && match(X, &github.com/syndtr/goleveldb/leveldb/opt.WriteOptions{Sync: true}) && forall(I, len(recv.batch), any(` + val + ` != nil && did(` + put + `) && iter(L, I + 1) == after(` + put + `, 0), ` + val + ` == nil && did(` + del + `) && iter(L, I + 1) == after(` + del + `, 0)))`
			k.need("commit.written", r.oks(), 1, tok.Replace(`!recv.readonly && `+written+` && W == nil && now(recv.batch) == mempty())`))
			k.need("commit.failed", r.errs(), 1, tok.Replace(written+` && W == ret0 && W != nil && now(recv.batch) == recv.batch)`))
		})

		// where each kind of entry is: reads, writes and removals agree, identifiers
		// have keys of their own, and kinds do not overlap
		type method struct {
			fn, call string
			ids      []string
		}
		const (
			TS = "(*db.ldbTransparencyStore)."
			LS = "(*db.ldbLogStore)."
			PS = "(*db.ldbPrefixStore)."
		)
		var keys []storeKey
		for _, kind := range []struct {
			name    string
			methods []method
		}{
			{"tree head", []method{{TS + "GetTreeHead", CG, nil}, {TS + "PutTreeHead", CP, nil}}},
			{"auditor tree head", []method{{TS + "GetTreeHead", CG, nil}, {TS + "PutAuditorTreeHead", CP, nil}}},
			{"index", []method{{TS + "BatchGetIndex", CG, []string{"p0[]"}}, {TS + "PutIndex", CP, []string{"p0"}}, {TS + "DeleteIndex", CP, []string{"p0"}}}},
			{"version", []method{{TS + "GetVersion", CG, []string{"p0", "p1"}}, {TS + "PutVersion", CP, []string{"p0", "p1"}}, {TS + "DeleteVersion", CP, []string{"p0", "p1"}}}},
			{"log entry", []method{{TS + "BatchGet", CG, []string{"p0[]"}}, {TS + "Put", CP, []string{"p0"}}, {TS + "Delete", CP, []string{"p0"}}}},
			{"log tree", []method{{LS + "BatchGet", CG, []string{"p0[]"}}, {LS + "Put", CP, []string{"p0"}}, {LS + "Delete", CP, []string{"p0"}}}},
			{"prefix tree", []method{{PS + "BatchGet", CG, []string{"p0[]"}}, {PS + "Put", CP, []string{"p0"}}, {PS + "Delete", CP, []string{"p0"}}}},
		} {
			for _, m := range kind.methods {
				heads := strings.HasSuffix(m.fn, "GetTreeHead")
				k.when(m.fn, func(r *Run) {
					pts := r.calls(m.call)
					k.need("key.used", pts, 1, `arg0 == recv.conn`)
					if heads { // the first result is the tree head
						sel := `match(ret0, res0($CG(_, K))) && ret0 != nil`
						if kind.name != "tree head" {
							sel = `match(ret1, res0($CG(_, K)))`
						}
						for _, t := range k.bound("key.used", r.oks(), "K", tok.Replace(sel)) {
							keys = append(keys, storeKey{kind.name, m.fn, k.where(pts), t, 0})
						}
						return
					}
					for _, pt := range pts {
						keys = append(keys, storeKey{kind.name, m.fn, k.pos(pt.pos), storeIds(r, pt.env["arg1"], pt.env["iter"], m.ids), len(m.ids)})
					}
				}, opaque(CG, CP))
			}
		}
		k.sameStore("key.same", keys)

		missing := func(key string) string { return `let(G, $CG(recv.conn, ` + key + `), did(G) && res1(G) == $NF)` }
		fails := func(r *Run) { // that there is no such entry is not a failure
			k.need("read.missing", r.errs(), 1, tok.Replace(`let(G, $CG(recv.conn, _), did(G) && res1(G) != nil && res1(G) != $NF)`))
		}
		k.when("db.NewLDBTransparencyStore", func(r *Run) {
			k.need("store.opened", r.oks(), 1, tok.Replace(`match(ret0, iface(R)) && match(deref(R).conn, &db.ldbConn{conn: D, readonly: false, batch: B}) && B == mempty() && let(F, github.com/syndtr/goleveldb/leveldb.OpenFile(p0, nil), did(F) && any(res1(F) == nil && D == res0(F), let(V, github.com/syndtr/goleveldb/leveldb.RecoverFile(p0, nil), did(V) && res1(V) == nil && D == res0(V))))`))
			k.need("store.recovered", r.errs(), 1, tok.Replace(`let(F, github.com/syndtr/goleveldb/leveldb.OpenFile(p0, nil), did(F) && any(github.com/syndtr/goleveldb/leveldb/errors.IsCorrupted(res1(F)) && let(V, github.com/syndtr/goleveldb/leveldb.RecoverFile(p0, nil), did(V) && ret1 == res1(V)), !github.com/syndtr/goleveldb/leveldb/errors.IsCorrupted(res1(F)) && ret1 == res1(F)))`))
		}, apart())
		k.when(TS+"GetTreeHead", func(r *Run) {
			fails(r)
			k.need("head.read", r.oks(), 1, tok.Replace(`any(ret0 == nil && ret1 == nil && `+missing("_")+`, let(G, $CG(recv.conn, _), did(G) && ret0 == res0(G) && res1(G) == nil) && any(let(A, $CG(recv.conn, _), did(A) && ret1 == res0(A) && res1(A) == nil), `+missing("_")+` && any(ret1 == nil, let(A, $CG(recv.conn, _), did(A) && ret1 == res0(A)))))`))
		}, opaque(CG), apart())
		list := func(fn string) {
			k.when(fn, func(r *Run) {
				fails(r)
				each := `forall(I, len(p0), let(G, $CG(recv.conn, X), did(G) && mentions(X, p0[I]) && any(kept(ID, I) && res1(G) == nil, !kept(ID, I) && res1(G) == $NF)))`
				if strings.HasSuffix(fn, "Index") {
					k.need("list.read", r.oks(), 1, tok.Replace(`len(ret0) == len(p0) && any(len(p0) == 0, match(ret0, ffill(_, len(p0), res0($CG(recv.conn, _)), ID)) && `+each+`, match(ret0, comp(len(p0), res0($CG(recv.conn, _)))))`))
					return
				}
				k.need("list.read", r.oks(), 1, tok.Replace(`any(len(p0) == 0, match(ret0, fmcomp(mempty(), len(p0), p0[_], res0($CG(recv.conn, _)), ID)) && `+each+`)`))
			}, opaque(CG))
		}
		for _, fn := range []string{TS + "BatchGetIndex", TS + "BatchGet", LS + "BatchGet", PS + "BatchGet"} {
			list(fn)
		}
		k.when(TS+"GetVersion", func(r *Run) {
			fails(r)
			k.need("version.read", r.oks(), 1, tok.Replace(`let(G, $CG(recv.conn, _), did(G) && any(res1(G) == nil && ret0 == res0(G), res1(G) == $NF && any(ret0 == nil, ret0 == res0(G))))`))
		}, opaque(CG))
		put := func(fn, val string) {
			k.when(fn, func(r *Run) {
				k.need("entry.written", r.oks(), 1, tok.Replace(val+` != nil && did($CP(recv.conn, _, `+val+`))`))
			}, opaque(CP))
		}
		put(TS+"PutIndex", "p1")
		put(TS+"PutVersion", "p2")
		put(TS+"Put", "p1")
		put(LS+"Put", "p1")
		put(PS+"Put", "p1")
		for _, fn := range []string{TS + "PutTreeHead", TS + "PutAuditorTreeHead"} {
			k.when(fn, func(r *Run) {
				k.need("head.written", r.oks(), 1, tok.Replace(`did($CP(recv.conn, _, p0))`))
			}, opaque(CP))
		}
		for _, fn := range []string{TS + "DeleteIndex", TS + "DeleteVersion", TS + "Delete", LS + "Delete", PS + "Delete"} {
			k.when(fn, func(r *Run) {
				k.need("entry.removed", r.oks(), 1, tok.Replace(`did($CP(recv.conn, _, nil))`))
			}, opaque(CP))
		}
		k.when(TS+"Commit", func(r *Run) {
			k.need("commit.done", r.all(), 1, tok.Replace(`let(C, $CC(recv.conn), did(C) && ret0 == C)`))
		}, opaque(CC))
		k.when(TS+"LogStore", func(r *Run) {
			k.need("store.shared", r.all(), 1, `match(ret0, iface(R)) && deref(R).conn == recv.conn`)
		})
		k.when(TS+"PrefixStore", func(r *Run) {
			k.need("store.shared", r.all(), 1, `match(ret0, iface(R)) && deref(R).conn == recv.conn`)
		})
		k.when(TS+"Clone", func(r *Run) {
			k.need("clone.readonly", r.all(), 1, `match(ret0, iface(R)) && deref(R).conn != nil && match(deref(R).conn, &db.ldbConn{conn: recv.conn.conn, readonly: true, batch: B}) && B == mempty()`)
		})

		// the stores in memory
		const (
			MS  = "(*memory.TransparencyStore)."
			ML  = "(*memory.LogStore)."
			MP  = "(*memory.PrefixStore)."
			DUP = "memory.dup"
		)
		k.when(DUP, func(r *Run) {
			k.need("copy.same", r.all(), 1, `any(p0 == nil && raw0 == nil, p0 != nil && raw0 != nil && ret0 == p0)`)
			k.copied("copy.fresh", r.all(), `match(raw0, V)`)
		})
		for _, e := range []struct {
			kind, field, get, put, del, val string
			ids                             []string
		}{
			{"index", "Indices", MS + "BatchGetIndex", MS + "PutIndex", MS + "DeleteIndex", "p1", []string{"p0"}},
			{"version", "Versions", MS + "GetVersion", MS + "PutVersion", MS + "DeleteVersion", "p2", []string{"p0", "p1"}},
			{"log entry", "LogEntries", MS + "BatchGet", MS + "Put", MS + "Delete", "p1", []string{"p0"}},
			{"log tree", "Data", ML + "BatchGet", ML + "Put", ML + "Delete", "p1", []string{"p0"}},
			{"prefix tree", "Data", MP + "BatchGet", MP + "Put", MP + "Delete", "p1", []string{"p0"}},
		} {
			var keys []storeKey
			tok := strings.NewReplacer("$F", "recv."+e.field, "$V", e.val, "$D", DUP)
			add := func(r *Run, fn string, pts []*point, formula string, ids []string) {
				for _, t := range k.bound("key.used", pts, "K", tok.Replace(formula)) {
					keys = append(keys, storeKey{e.kind, fn, k.where(pts), storeIds(r, t, nil, ids), len(ids)})
				}
			}
			k.when(e.put, func(r *Run) {
				f := `$V != nil && match(now($F), mput($F, K, W)) && W != nil && deep(W) == $V`
				k.need("memory.written", r.oks(), 1, tok.Replace(f))
				k.copied("memory.copy", r.oks(), tok.Replace(`match(now($F), mput($F, _, V))`))
				add(r, e.put, r.oks(), f, e.ids)
			})
			k.when(e.del, func(r *Run) {
				f := `match(now($F), mdel($F, K))`
				k.need("memory.removed", r.all(), 1, tok.Replace(f))
				add(r, e.del, r.all(), f, e.ids)
			})
			k.when(e.get, func(r *Run) {
				f, ids := `match(ret0, $D(get($F, K)))`, e.ids
				switch e.kind {
				case "index":
					f, ids = `match(ret0, comp(len(p0), $D(get($F, K))))`, []string{"p0[]"}
				case "log entry", "log tree", "prefix tree":
					f, ids = `match(ret0, fmcomp(mempty(), len(p0), p0[_], $D(lookup($F, K)), ID)) && forall(I, len(p0), any(kept(ID, I) && has($F, p0[I]), !kept(ID, I) && !has($F, p0[I])))`, []string{"p0[]"}
				}
				k.need("memory.read", r.oks(), 1, tok.Replace(f))
				add(r, e.get, r.oks(), f, ids)
			}, opaque(DUP))
			k.sameStore("memory.same", keys)
		}
		k.when(MS+"GetTreeHead", func(r *Run) {
			k.need("memory.head", r.oks(), 1, `ret0 == `+DUP+`(recv.TreeHead) && ret1 == `+DUP+`(recv.Auditor) && ret2 == nil`)
		}, opaque(DUP))
		k.when(MS+"PutTreeHead", func(r *Run) {
			k.need("memory.head", r.oks(), 1, `now(recv.TreeHead) == `+DUP+`(p0) && now(recv.Auditor) == recv.Auditor`)
		}, opaque(DUP))
		k.when(MS+"PutAuditorTreeHead", func(r *Run) {
			k.need("memory.head", r.oks(), 1, `now(recv.Auditor) == `+DUP+`(p0) && now(recv.TreeHead) == recv.TreeHead`)
		}, opaque(DUP))
		k.when(MS+"Clone", func(r *Run) {
			k.need("memory.clone", r.all(), 1, `match(ret0, iface(R)) && let(C, deref(R), C.TreeHead == recv.TreeHead && C.Auditor == recv.Auditor && C.Indices == recv.Indices && C.Versions == recv.Versions && C.LogEntries == recv.LogEntries && C.logStore == recv.logStore && C.prefixStore == recv.prefixStore)`)
		})
		k.when(MS+"LogStore", func(r *Run) { k.need("memory.shared", r.all(), 1, `match(ret0, iface(recv.logStore))`) })
		k.when(MS+"PrefixStore", func(r *Run) { k.need("memory.shared", r.all(), 1, `match(ret0, iface(recv.prefixStore))`) })
		k.when("memory.NewTransparencyStore", func(r *Run) {
			k.need("memory.empty", r.all(), 1, `let(C, deref(ret0), C.TreeHead == nil && C.Auditor == nil && C.Indices == mempty() && C.Versions == mempty() && C.LogEntries == mempty() && C.logStore != nil && C.prefixStore != nil)`)
		})
		k.when("memory.NewLogStore", func(r *Run) { k.need("memory.empty", r.all(), 1, `deref(ret0).Data == mempty()`) })
		k.when("memory.NewPrefixStore", func(r *Run) { k.need("memory.empty", r.all(), 1, `deref(ret0).Data == mempty()`) })
		k.when("memory.NewManagedLogStore", func(r *Run) { k.need("memory.empty", r.all(), 1, `deref(ret0).Data == mempty()`) })
		k.when("(*memory.AuditorStore).GetState", func(r *Run) {
			k.need("memory.state", r.oks(), 1, `ret0 == `+DUP+`(recv.Data) && ret1 == nil`)
		}, opaque(DUP))
		k.when("(*memory.AuditorStore).PutState", func(r *Run) {
			k.need("memory.state", r.oks(), 1, `now(recv.Data) == `+DUP+`(p0)`)
		}, opaque(DUP))

		// numbers are handed out once: what is returned is the last one that was
		// handed out before, -1 if there is none
		k.when("(*memory.ManagedLogStore).IncrementGreatestVersion", func(r *Run) {
			k.need("versions.handed", r.oks(), 1, `any(match(ret0, lookup(recv.Data, K)) && has(recv.Data, K), ret0 == -1 && !has(recv.Data, K)) && match(now(recv.Data), mput(recv.Data, K, ret0 + p1)) && mentions(K, p0)`)
			for _, t := range k.bound("key.used", r.oks(), "K", `match(now(recv.Data), mput(recv.Data, K, _))`) {
				k.sameStore("versions.key", []storeKey{{"version counter", r.name, k.where(r.oks()), storeIds(r, t, nil, []string{"p0"}), 1}})
			}
		})
	})
}
