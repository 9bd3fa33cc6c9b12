import json,os,shutil,sys
R='/repo/'
T='tree/transparency/'
V=[]
def v(name,*edits): V.append((name,edits))
C=T+'client.go'; CC=T+'client_crypto.go'; AU=T+'auditor/auditor.go'; MU=T+'mutate.go'; SE=T+'algorithms/search.go'; UP=T+'algorithms/update.go'; MO=T+'algorithms/monitor.go'; SM=T+'monitor.go'
PX='tree/prefix/prefix.go'; PB='tree/prefix/batch.go'; LG='tree/log/log.go'; LD=T+'math/ladders.go'; TK=T+'math/tracker.go'; PH=T+'algorithms/proof_handle.go'; DP=T+'algorithms/data_provider.go'; US=T+'update.go'; AL=T+'algorithms/algorithms.go'
TR=T+'transparency.go'; MG=T+'managed/managed.go'; LB='db/leveldb.go'; MM='db/memory/memory.go'; AS=T+'auditor/state.go'; SS=T+'structs/structs.go'; TH=T+'structs/tree_head.go'
PV='tree/prefix/verify.go'; LV='tree/log/verify.go'; LC='tree/log/chunk.go'
# C01/C02
v('nosize',(CC,'v.n <= v.state.TreeHead.TreeSize','v.n < v.state.TreeHead.TreeSize'))
v('laghours',(CC,'rightmost-auditorTreeHead.Timestamp > v.config.MaxAuditorLag','auditorTreeHead.Timestamp+v.config.MaxAuditorLag < rightmost'))
v('rootPn',(CC,'log.Root(v.config.Suite, *v.nP, result.Additional)','log.Root(v.config.Suite, min(*v.nP, v.n), result.Additional)'))
v('keepaud',(CC,'''		updated.AuditorTreeHead = v.state.AuditorTreeHead
''','''		if updated.AuditorTreeHead == nil && v.nP != nil {
			updated.AuditorTreeHead = v.state.AuditorTreeHead
		}
'''))
v('audstart',(CC,'''		} else if v.state.AuditorTreeHead.TreeSize < v.config.AuditorStartPos {''','''		} else if v.fth.AuditorTreeHead.TreeSize < v.config.AuditorStartPos {'''))
# C05
v('manualskip',(CC,'''		if ok && ladder[i].Commitment != nil {
			return errors.New("commitment provided when not expected")
		} else if !ok {
			commitment = ladder[i].Commitment
		}
''','''		if ladder[i].Commitment != nil {
			commitment = ladder[i].Commitment
		} else if !ok {
			commitment = nil
		}
'''))
v('labstate',(CC,'''	for _, entry := range state.Versions {
		err := v.handle''','''	for _, entry := range state.Versions {
		if _, ok := v.handle.GetVersion(entry.Version); ok {
			continue
		}
		err := v.handle'''))
v('retcommit',(CC,'''		retained = append(retained, structs.RetainedVersion{
			Version:    ver,''','''		if entry.Commitment == nil && ver != 0 {
			continue
		}
		retained = append(retained, structs.RetainedVersion{
			Version:    ver,'''))
v('simpn',(CC,'parent < ver {','parent <= ver {'))
v('contactx',(CC,'''		if ok && posVer > ver {
			break
		}
		contact.Ptrs[pos] = ver
		x = pos
''','''		if ok && posVer > ver {
			break
		}
		x = pos
	}
	if posVer, ok := contact.Ptrs[x]; !ok || posVer < ver {
		contact.Ptrs[x] = ver
'''))
v('ownvers',(CC,'uint32(starting+i+1))','uint32(max(starting, 0)+i+1))'))
v('lastdist',(CC,'''	rightmostDLE, err := algorithms.RightmostDistinguished(config, state.TreeHead.TreeSize, provider)''','''	rightmostDLE, err := algorithms.PreviousRightmost(config, state.TreeHead.TreeSize, provider)'''))
# C08/C09
v('tsconsume',(PH,'''	ts := rph.inner.Timestamps[0]
	rph.inner.Timestamps = rph.inner.Timestamps[1:]''','''	ts := rph.inner.Timestamps[0]
	if len(rph.inner.Timestamps) > 1 || x > 0 {
		rph.inner.Timestamps = rph.inner.Timestamps[1:]
	}'''))
v('prefroots',(PH,'''	roots := rph.inner.PrefixRoots
	rph.inner.PrefixRoots = nil
	return roots, nil''','''	roots := rph.inner.PrefixRoots
	if len(xs) > 0 {
		rph.inner.PrefixRoots = roots[len(xs):]
	}
	return roots, nil'''))
v('addcommit',(PH,'} else if existing.Commitment != nil && !bytes.Equal','} else if len(existing.Commitment) == len(vrfOutput)+1 && !bytes.Equal'))
v('addvrf',(PH,'''		if !bytes.Equal(vrfOutput, existing.VrfOutput) {''','''		if commitment == nil && !bytes.Equal(vrfOutput, existing.VrfOutput) {'''))
v('infill0',(DP,'''			dp.prefixTrees[leaves[i].position] = prefixTrees[0]
''','''			if leaves[i].position+1 >= dp.maxSeen() {
				dp.prefixTrees[leaves[i].position] = prefixTrees[0]
			}
'''),(DP,'''type ProofResult struct''','''func (dp *DataProvider) maxSeen() uint64 {
	var out uint64
	for x := range dp.timestamps {
		out = max(out, x)
	}
	return out
}

type ProofResult struct'''))
v('omitnil',(DP,'''	if len(vers) == 0 {
		return nil
	}
	if _, err := dp.GetTimestamp(x); err != nil {
		return err
	}''','''	if len(vers) == 0 {
		return nil
	}'''))
v('monladder',(PH,'''		if !res.Inclusion() {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(ladder))''','''		if !res.Inclusion() && res.Depth() == 0 {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(ladder))'''))
v('commitnil',(PH,'''		} else if result.Inclusion() && entry.Commitment == nil {
			return nil, 0, errors.New("commitment not known for required version")
		}
''','''		} else if result.Inclusion() && entry.Commitment == nil && ladder[i] <= ver {
			return nil, 0, errors.New("commitment not known for required version")
		}
'''))
# C11
v('gvsterm',(SE,'''		if res == 0 && first {
			terminal = x
			first = false
		}''','''		if res == 0 && (first || x < terminal) {
			terminal = x
			first = false
		}
		if res == -1 {
			first = true
		}'''))
v('gvsroot',(SE,'''		} else if res == 1 {
			return 0, errors.New("log entry not consistent with claimed greatest version of label")
		}''','''		} else if res == 1 && x != n-1 {
			continue
		}'''),)
v('fvsterm',(SE,'res >= 0 && (!terminalFound || x < terminalPos)','res >= 0 && (!terminalFound || res == 0 || x < terminalPos)'))
v('fvsexp',(SE,'''				if y < terminalPos {
					found = true''','''				if y <= terminalPos {
					found = true'''))
v('fvsleft',(SE,'''			x, right = math.Left(x), timestamp
			continue
		}

		// If the binary ladder indicates a greatest version equal''','''			x, right = math.Left(x), max(timestamp, left)
			expired = false
			continue
		}

		// If the binary ladder indicates a greatest version equal'''))
v('fvsincl',(SE,'''		if err := provider.GetInclusionProof(terminalPos, []uint32{ver}); err != nil {
			return 0, err
		}
		return terminalPos, nil
	}''','''		if expired || ver > 0 {
			if err := provider.GetInclusionProof(terminalPos, []uint32{ver}); err != nil {
				return 0, err
			}
		}
		return terminalPos, nil
	}'''))
# C12
v('cmprev',(MO,'''			if previousVer <= ver {
				return nil, errors.New("monitoring detected versions that are not monotonic")
			}
			return nil, nil''','''			if previousVer < ver {
				return nil, errors.New("monitoring detected versions that are not monotonic")
			}
			return nil, nil'''))
v('cmstart',(MO,'m.Owner != nil && x >= m.Owner.Starting','m.Owner != nil && *stop >= m.Owner.Starting'))
v('cmend',(MO,'''	if stop != nil { // We reached a distinguished log entry.
		return nil, nil
	} else''','''	if stop != nil && len(inspect) > 0 { // We reached a distinguished log entry.
		return nil, nil
	} else'''))
v('oistart',(MO,'''		} else if isExpired {
			return children, nil
		}
		return append(children, x), nil''','''		} else if isExpired || m.config.IsExpired(left, m.rightmost) {
			return children, nil
		}
		return append(children, x), nil'''))
v('omset',(MO,'''	m.Owner.SetStarting(x)

	// If the current log entry has a right child''','''	if ver >= 0 || len(m.Owner.UpcomingVers) == 0 {
		m.Owner.SetStarting(x)
	}

	// If the current log entry has a right child'''))
v('omstop',(MO,'''	if m.provider.StopCondition(x, ver) {
		return nil
	}''','''	if m.provider.StopCondition(x, ver) {
		m.Owner.SetStarting(x)
		return nil
	}'''))
v('omfail',(MO,'''	err := m.ownerMonitor(math.Root(m.treeSize), 0, m.rightmost)
	if err == nil {
		*original = *m.Owner
	}''','''	err := m.ownerMonitor(math.Root(m.treeSize), 0, m.rightmost)
	if err == nil || m.Owner.Starting > original.Starting {
		*original = *m.Owner
	}'''))
v('clone',(MO,'UpcomingVers:  slices.Clone(os.UpcomingVers),','UpcomingVers:  os.UpcomingVers[:len(os.UpcomingVers):cap(os.UpcomingVers)],'))
v('vpt',(UP,'''		if x <= lastUpdate {
			goto MoveRight''','''		if x <= lastUpdate || x < m.Owner.Starting+1 {
			goto MoveRight'''))
v('vptanc',(UP,'''	res, err := m.nonDistinguishedAncestor(pos - 1)''','''	res, err := m.nonDistinguishedAncestor(lastUpdate)'''))
v('updaddl',(UP,'''	for ver := startVer; ver <= endVer; ver++ {
		if''','''	for ver := startVer; ver < endVer; ver++ {
		if'''))
v('updcontact',(UP,'''		m.Contact.Ptrs[pos] = endVer
	}''','''		if existing, ok := m.Contact.Ptrs[pos]; !ok || existing < startVer {
			m.Contact.Ptrs[pos] = startVer
		}
	}'''))
# server
v('veridx',(SM,'''		if entry.Position != first && !slices.Contains(path, entry.Position) {''','''		if entry.Position < first && !slices.Contains(path, entry.Position) {'''))
v('ladcommit',(SM,'''		if int(ver) <= greatest { // Only''','''		if int(ver) < max(greatest, 1) { // Only'''))
v('omend',(SM,'''		end = int(*req.GreatestVersion) - op.monitor.Owner.VerAtStarting
	}''','''		end = min(int(*req.GreatestVersion), len(op.index)-2) - op.monitor.Owner.VerAtStarting
	}'''))
v('oiver',(SM,'''		state.GreatestVersionAt(req.Start),
''','''		state.GreatestVersion(),
'''))
v('audhead',(TR,'''		} else if *last == t.treeHead.TreeSize {
			return &structs.FullTreeHead{}''','''		} else if *last == t.treeHead.TreeSize || t.auditorHead != nil && *last == t.auditorHead.TreeSize {
			return &structs.FullTreeHead{}'''))
v('popul',(TR,'''int(ver) != greatest ||''','''int(ver) != greatest && int(ver) <= greatest ||'''))
v('mutts',(MU,'} else if timestamp < rightmost {','} else if timestamp+uint64(time.Second.Milliseconds()) < rightmost {'))
v('mutdle',(MU,'mut.index[len(mut.index)-1] > *prevDLE','mut.index[0] > *prevDLE'))
v('mutval',(MU,'''	for _, mutation := range mutations {
		if err := mutation.validate(prevDLE); err != nil {
			return nil, err
		}
	}
	var (''','''	var ('''),(MU,'''		pa, pr, err := t.mutateLabel(n, mutation)''','''		if err := mutation.validate(prevDLE); err != nil {
			return nil, err
		}
		pa, pr, err := t.mutateLabel(n, mutation)'''))
v('mutidx',(MU,'''	if len(mut.add) > 0 {
		if err := t.putIndex''','''	if len(mut.add) > 0 && (mut.remove || len(index) > len(mut.index)) {
		if err := t.putIndex'''))
v('mutcommit',(MU,'''	} else if err := t.tx.Commit(); err != nil {
		return err
	}

	t.treeHead = treeHead
''','''	}
	t.treeHead = treeHead
	if err := t.tx.Commit(); err != nil {
		return err
	}
'''))
v('reload',(US,'len(index) == 0 || index[len(index)-1] < pos','len(index) == 0 || index[0] > pos'))
v('nextlast',(US,'''		last := u.tree.treeHead.TreeSize
		u.last = &last
	}

	// Submit''','''		if out.FullTreeHead.TreeHead != nil {
			u.last = &out.FullTreeHead.TreeHead.TreeSize
		}
	}

	// Submit'''))
v('dedup',(US,'''	if startVer == 0 {
		delete(dedup, 0)
	} else {''','''	if startVer > 0 {'''))
v('mgver',(MG,'SignedVersion:   uint32(prev + 1),','SignedVersion:   uint32(max(prev, 0) + 1),'))
# stores
v('dupput',(LB,'c.batch[key] = dup(value)','c.batch[key] = value'))
v('batchleft',(LB,'''		return err
	}

	c.batch = make(map[string][]byte)
	return nil''','''		return err
	}

	for key, value := range c.batch {
		if value != nil {
			delete(c.batch, key)
		}
	}
	return nil'''))
v('verkey',(LB,'''	ldb.conn.Put("v"+fmt.Sprintf("%x:%x", label, ver), data)''','''	ldb.conn.Put("v"+fmt.Sprintf("%x:%d", label, ver), data)'''),(LB,'''ldb.conn.Get("v" + fmt.Sprintf("%x:%x", label, ver))''','''ldb.conn.Get("v" + fmt.Sprintf("%x:%d", label, ver))'''))
v('keycollide',(LB,'''	ldb.conn.Put("v"+fmt.Sprintf("%x:%x", label, ver), data)''','''	ldb.conn.Put("v"+fmt.Sprintf("%x%x", label, ver), data)'''),(LB,'''ldb.conn.Get("v" + fmt.Sprintf("%x:%x", label, ver))''','''ldb.conn.Get("v" + fmt.Sprintf("%x%x", label, ver))'''),(LB,'''	ldb.conn.Put("v"+fmt.Sprintf("%x:%x", label, ver), nil)''','''	ldb.conn.Put("v"+fmt.Sprintf("%x%x", label, ver), nil)'''))
# log
v('lgappend',(LG,'''math.IsFullSubtree(x, n+1) && math.Level(x)%4 == 0''','''math.IsFullSubtree(x, n+1) && math.Level(x)%4 == 0 && math.Level(x) < 32'''))
v('lgroot',(LG,'''&nodeData{leaf: math.IsLeaf(subtrees[i]), value: fullSubtrees[i]},
			acc,''','''&nodeData{leaf: false, value: fullSubtrees[i]},
			acc,'''))
v('lgcarry',(LG,'leaf: i == 0, value: chain[i]','leaf: i == 0 && n&1 == 1, value: chain[i]'))
v('lgfetch',(LG,'''	for _, id := range ids {
		if _, ok := data[id]; !ok {''','''	for _, id := range ids[:min(len(ids), len(data))] {
		if _, ok := data[id]; !ok {'''))
# prefix
v('pxfound',(PX,'''			for _, vrfOutput := range vrfOutputs[len(add):] {''','''			for _, vrfOutput := range vrfOutputs[i+1:] {'''))
v('pxhash',(PX,'''		m.hash, m.id = nil, nil
''','''		if len(add) > 0 {
			m.hash, m.id = nil, nil
		}
'''))
v('pxrem',(PX,'''			*n = emptyNode{}
			if len(add) > 0 {
				addRemoveEntries(cs, n, add, nil, depth)
			}''','''			*n = emptyNode{}
			if len(add) > 1 {
				addRemoveEntries(cs, n, add, nil, depth)
			} else if len(add) == 1 {
				*n = leafNode{vrfOutput: add[0].VrfOutput, commitment: m.commitment}
			}'''))
v('pbcache',(PB,'''		out[key], b.cache[key] = t, t
''','''		out[key] = t
		b.cache[id.String()[:len(key)-1]] = t
'''))
v('pxver',(PH,'prefix.PrefixSearch{Version: proof.pos + 1,','prefix.PrefixSearch{Version: min(proof.pos+1, leaves[len(leaves)-1]+1),'))
# auditor
v('merged',(AS,'''		case 0:
			out = append(out, added[j])
			i++
			j++''','''		case 0:
			out = append(out, existing[i])
			i++
			j++'''))
v('since',(AS,'return as.Inserted[i].Pos > x','return as.Inserted[i].Pos >= x'))
# ladders
v('tkge',(TK,'''		if entry.pos > x {
			for''','''		if entry.pos >= x {
			for'''))
v('tkall',(TK,'''		if int(version) <= greatest {
			inclusion''','''		if int(version) < greatest {
			inclusion'''))
v('interp',(LD,'''	if len(proof.Results) > len(ladder) {
		return 0, errors.New("unexpected number of results in prefix proof")
	}

	for i, version := range ladder {
		if i >= len(proof.Results) {
			return 0, errors.New("unexpected number of results in prefix proof")
		}
''','''	if len(proof.Results) > len(ladder) {
		return 0, errors.New("unexpected number of results in prefix proof")
	}

	for i, version := range ladder {
		if i >= len(proof.Results) {
			break
		}
'''))
exec(open('/tmp/bugs2.py').read()) if os.path.exists('/tmp/bugs2.py') else None
want=sys.argv[1:]
for name,edits in V:
    d='/tmp/bg/'+name
    if want and name not in want: continue
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    txt={}
    for f,o,n in edits:
        s=txt.get(f) or open(R+f).read()
        if s.count(o)<1: print('NOMATCH',name,f,o[:50]); break
        txt[f]=s.replace(o,n,1)
    ov={}
    for f,s in txt.items():
        p=d+'/'+f.replace('/','_'); open(p,'w').write(s); ov[R+f]=p
    json.dump({'Replace':ov},open(d+'/overlay.json','w'))
print(len(V))
