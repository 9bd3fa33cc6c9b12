PH=T+'algorithms/proof_handle.go'
v('ph.pop',(PH,'''	// Pop next PrefixProof off of queue.
	if len(rph.inner.PrefixProofs) == 0 {
		return nil, 0, errors.New("unexpected number of prefix proofs consumed")
	}
	proof := rph.inner.PrefixProofs[0]

	// Interpret''','''	proof, err := rph.next()
	if err != nil {
		return nil, 0, err
	}

	// Interpret'''),(PH,'''	// Pop next PrefixProof off of queue.
	if len(rph.inner.PrefixProofs) == 0 {
		return nil, errors.New("unexpected number of prefix proofs consumed")
	}
	proof := rph.inner.PrefixProofs[0]

	// Verify that proof matches''','''	proof, err := rph.next()
	if err != nil {
		return nil, err
	}

	// Verify that proof matches'''),(PH,'''func (rph *ReceivedProofHandle) GetPrefixTrees''','''func (rph *ReceivedProofHandle) next() (prefix.PrefixProof, error) {
	if len(rph.inner.PrefixProofs) == 0 {
		return prefix.PrefixProof{}, errors.New("unexpected number of prefix proofs consumed")
	}
	return rph.inner.PrefixProofs[0], nil
}

func (rph *ReceivedProofHandle) GetPrefixTrees'''))
v('ph.allincl',(PH,'''	// Verify that proof shows inclusion for each of the requested versions.
	if len(proof.Results) != len(vers) {
		return nil, errors.New("unexpected number of results present in prefix proof")
	}
	for _, res := range proof.Results {
		if !res.Inclusion() {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(vers))
	for i, ver := range vers {
		entry, ok := rph.versions[ver]
		if !ok {
			return nil, errors.New("required version not known")
		} else if entry.Commitment == nil {
			return nil, errors.New("commitment not known for required version")
		}
		entries[i] = entry
	}
	root, err := prefix.Evaluate(rph.cs, entries, &proof)
	if err != nil {
		return nil, err
	}

	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	return root, nil
}
''','''	return rph.evalIncl(vers, proof)
}

func (rph *ReceivedProofHandle) evalIncl(vers []uint32, proof prefix.PrefixProof) ([]byte, error) {
	if len(proof.Results) != len(vers) {
		return nil, errors.New("unexpected number of results present in prefix proof")
	}
	for _, res := range proof.Results {
		if !res.Inclusion() {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(vers))
	for i, ver := range vers {
		entry, ok := rph.versions[ver]
		if !ok {
			return nil, errors.New("required version not known")
		} else if entry.Commitment == nil {
			return nil, errors.New("commitment not known for required version")
		}
		entries[i] = entry
	}
	root, err := prefix.Evaluate(rph.cs, entries, &proof)
	if err != nil {
		return nil, err
	}

	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	return root, nil
}
'''),(PH,'''	if len(proof.Results) != len(ladder) {
		return nil, errors.New("unexpected number of results present in prefix proof")
	}
	for _, res := range proof.Results {
		if !res.Inclusion() {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(ladder))
	for i, version := range ladder {
		entry, ok := rph.versions[version]
		if !ok {
			return nil, errors.New("required version not known")
		} else if entry.Commitment == nil {
			return nil, errors.New("commitment not known for required version")
		}
		entries[i] = entry
	}
	root, err := prefix.Evaluate(rph.cs, entries, &proof)
	if err != nil {
		return nil, err
	}

	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	return root, nil
}
''','''	return rph.evalIncl(ladder, proof)
}
'''))
v('ph.oneloop',(PH,'''	for _, res := range proof.Results {
		if !res.Inclusion() {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(vers))
	for i, ver := range vers {
		entry, ok := rph.versions[ver]
		if !ok {''','''	entries := make([]prefix.Entry, 0, len(vers))
	for i, ver := range vers {
		if !proof.Results[i].Inclusion() {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
		entry, ok := rph.versions[ver]
		if !ok {'''),(PH,'''		entries[i] = entry
	}
	root, err := prefix.Evaluate(rph.cs, entries, &proof)
	if err != nil {
		return nil, err
	}

	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	return root, nil
}

func (rph *ReceivedProofHandle) GetPrefixTrees''','''		entries = append(entries, entry)
	}
	root, err := prefix.Evaluate(rph.cs, entries, &proof)
	if err != nil {
		return nil, err
	}

	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	return root, nil
}

func (rph *ReceivedProofHandle) GetPrefixTrees'''))
v('ph.contains',(PH,'''	for _, res := range proof.Results {
		if !res.Inclusion() {
			return nil, errors.New("unexpected non-inclusion proof provided")
		}
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(vers))''','''	if slices.ContainsFunc(proof.Results, func(res prefix.PrefixSearchResult) bool { return !res.Inclusion() }) {
		return nil, errors.New("unexpected non-inclusion proof provided")
	}

	// Evaluate the prefix proof and return.
	entries := make([]prefix.Entry, len(vers))'''))
v('ph.addver',(PH,'''	if existing, ok := versions[ver]; ok {
		if !bytes.Equal(vrfOutput, existing.VrfOutput) {
			return errors.New("different vrf outputs found for same version")
		} else if commitment == nil {
			return nil
		} else if existing.Commitment != nil && !bytes.Equal(commitment, existing.Commitment) {
			return errors.New("different commitments found for same version")
		}
	}
	versions[ver] = ''','''	existing, ok := versions[ver]
	if !ok {
		versions[ver] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment}
		return nil
	}
	if !bytes.Equal(vrfOutput, existing.VrfOutput) {
		return errors.New("different vrf outputs found for same version")
	}
	if commitment == nil {
		return nil
	}
	if existing.Commitment != nil && !bytes.Equal(commitment, existing.Commitment) {
		return errors.New("different commitments found for same version")
	}
	versions[ver] = '''))
v('ph.ladder',(PH,'''	var ladder []uint32
	if greatest < 0 {
		ladder = []uint32{0}
	} else {
		leftInclusion, rightNonInclusion := pph.tracker.SearchMaps(x, omit)
		ladder = math.SearchBinaryLadder(ver, uint32(greatest), leftInclusion, rightNonInclusion)
	}
''','''	ladder := []uint32{0}
	if greatest >= 0 {
		leftInclusion, rightNonInclusion := pph.tracker.SearchMaps(x, omit)
		ladder = math.SearchBinaryLadder(ver, uint32(greatest), leftInclusion, rightNonInclusion)
	}
'''),(PH,'''	res := 0
	if greatest < int(ver) {
		res = -1
	} else if greatest > int(ver) {
		res = 1
	}
''','''	var res int
	switch target := int(ver); {
	case greatest < target:
		res = -1
	case greatest > target:
		res = 1
	}
'''))
v('ph.cmp',(PH,'''	res := 0
	if greatest < int(ver) {
		res = -1
	} else if greatest > int(ver) {
		res = 1
	}

	pph''','''
	pph'''),(PH,'''	return entry.PrefixTree, res, nil
}

func (pph *ProducedProofHandle) GetMonitoring''','''	return entry.PrefixTree, cmp.Compare(greatest, int(ver)), nil
}

func (pph *ProducedProofHandle) GetMonitoring'''),(PH,'''import (
	"bytes"
''','''import (
	"bytes"
	"cmp"
'''))
v('ph.greatest',(PH,'''	idx, _ := slices.BinarySearch(pph.index, x+1)
	return idx - 1
''','''	greatest := -1
	for ver, pos := range pph.index {
		if pos > x {
			break
		}
		greatest = ver
	}
	return greatest
'''))
v('ph.sort',(PH,'''	idx, _ := slices.BinarySearch(pph.index, x+1)
	return idx - 1
''','''	idx := sort.Search(len(pph.index), func(i int) bool { return pph.index[i] > x })
	return idx - 1
'''),(PH,'''	"slices"
''','''	"slices"
	"sort"
'''))
v('ph.out',(PH,'''	searches := make([]prefix.PrefixSearch, len(pph.proofs))
	for i, proof := range pph.proofs {
		vrfOutputs := make([][]byte, len(proof.vers))
		for j, ver := range proof.vers {
			entry, ok := pph.versions[ver]
			if !ok {
				return nil, errors.New("required version not known")
			}
			vrfOutputs[j] = entry.VrfOutput
		}
		searches[i] = prefix.PrefixSearch{Version: proof.pos + 1, VrfOutputs: vrfOutputs}
	}
''','''	searches, err := pph.searches()
	if err != nil {
		return nil, err
	}
'''),(PH,'''func (pph *ProducedProofHandle) StopC''','''func (pph *ProducedProofHandle) searches() ([]prefix.PrefixSearch, error) {
	searches := make([]prefix.PrefixSearch, 0, len(pph.proofs))
	for _, proof := range pph.proofs {
		vrfOutputs := make([][]byte, 0, len(proof.vers))
		for _, ver := range proof.vers {
			entry, ok := pph.versions[ver]
			if !ok {
				return nil, errors.New("required version not known")
			}
			vrfOutputs = append(vrfOutputs, entry.VrfOutput)
		}
		searches = append(searches, prefix.PrefixSearch{Version: proof.pos + 1, VrfOutputs: vrfOutputs})
	}
	return searches, nil
}

func (pph *ProducedProofHandle) StopC'''))
v('ph.out2',(PH,'''	proofs := make([]prefix.PrefixProof, len(res))
	for i, result := range res {
		proofs[i] = result.Proof

		for j''','''	proofs := make([]prefix.PrefixProof, 0, len(res))
	for i, result := range res {
		proofs = append(proofs, result.Proof)
		if len(result.Commitments) == 0 {
			continue
		}

		for j'''),(PH,'''			entry := pph.versions[ver]
			if entry.Commitment == nil {
				pph.versions[ver] = prefix.Entry{VrfOutput: entry.VrfOutput, Commitment: commitment}
			} else''','''			entry := pph.versions[ver]
			if entry.Commitment == nil {
				entry.Commitment = commitment
				pph.versions[ver] = entry
			} else'''))
v('ph.logentry',(PH,'''	if entry, ok := pph.logEntries[x]; ok {
		return &entry, nil
	}

	res, err''','''	entry, err := pph.cached(x)
	if err != nil {
		return nil, err
	}
	return &entry, nil
}

func (pph *ProducedProofHandle) cached(x uint64) (structs.LogEntry, error) {
	if entry, ok := pph.logEntries[x]; ok {
		return entry, nil
	}
	entry, err := pph.loadLogEntry(x)
	if err != nil {
		return structs.LogEntry{}, err
	}
	pph.logEntries[x] = *entry
	return *entry, nil
}

func (pph *ProducedProofHandle) loadLogEntry(x uint64) (*structs.LogEntry, error) {
	res, err'''),(PH,'''	pph.logEntries[x] = *entry

	return entry, nil''','''	return entry, nil'''))
v('ph.finish',(PH,'''	if len(rph.inner.Timestamps) != 0 {
		return nil, errors.New("unexpected additional timestamps found")
	} else if len(rph.inner.PrefixProofs) != 0 {
		return nil, errors.New("unexpected additional prefix proofs found")
	} else if len(rph.inner.PrefixRoots) != 0 {
		return nil, errors.New("unexpected additional prefix roots found")
	}
	return''','''	switch {
	case len(rph.inner.Timestamps) > 0:
		return nil, errors.New("unexpected additional timestamps found")
	case len(rph.inner.PrefixProofs) > 0:
		return nil, errors.New("unexpected additional prefix proofs found")
	case len(rph.inner.PrefixRoots) > 0:
		return nil, errors.New("unexpected additional prefix roots found")
	}
	return'''))
v('ph.roots',(PH,'''	roots := make([][]byte, len(xs))
	for i, x := range xs {
		entry, err := pph.getLogEntry(x)
		if err != nil {
			return nil, err
		}
		roots[i] = entry.PrefixTree
	}''','''	roots := make([][]byte, 0, len(xs))
	for _, x := range xs {
		entry, err := pph.getLogEntry(x)
		if err != nil {
			return nil, err
		}
		roots = append(roots, entry.PrefixTree)
	}'''))
DP=T+'algorithms/data_provider.go'; US=T+'update.go'
v('dp.adds',(DP,'''	ts, err := dp.handle.GetTimestamp(x)
	if err != nil {
		return 0, err
	} else if err := addTimestamp(dp.timestamps, x, ts); err != nil {
		return 0, err
	}
	return ts, nil''','''	ts, err := dp.handle.GetTimestamp(x)
	if err != nil {
		return 0, err
	}
	if err := addTimestamp(dp.timestamps, x, ts); err != nil {
		return 0, err
	}
	return ts, nil'''),(DP,'''	root, res, err := dp.handle.GetSearchBinaryLadder(x, ver, omit)
	if err != nil {
		return 0, err
	} else if err := addPrefixTree(dp.prefixTrees, x, root); err != nil {
		return 0, err
	}
	return res, nil''','''	root, res, err := dp.handle.GetSearchBinaryLadder(x, ver, omit)
	if err == nil {
		err = addPrefixTree(dp.prefixTrees, x, root)
	}
	if err != nil {
		return 0, err
	}
	return res, nil'''))
v('dp.ensure',(DP,'''	if len(vers) == 0 {
		return nil
	}
	if _, err := dp.GetTimestamp(x); err != nil {
		return err
	}
	root, err := dp.handle.GetInclusionProof(x, vers)
	if err != nil {
		return err
	}
	return addPrefixTree(dp.prefixTrees, x, root)''','''	if len(vers) == 0 {
		return nil
	}
	return dp.observe(x, func() ([]byte, error) { return dp.handle.GetInclusionProof(x, vers) })'''),(DP,'''	if _, err := dp.GetTimestamp(x); err != nil {
		return err
	}
	root, err := dp.handle.GetMonitoringBinaryLadder(x, ver)
	if err != nil {
		return err
	}
	return addPrefixTree(dp.prefixTrees, x, root)
}''','''	return dp.observe(x, func() ([]byte, error) { return dp.handle.GetMonitoringBinaryLadder(x, ver) })
}

func (dp *DataProvider) observe(x uint64, get func() ([]byte, error)) error {
	if _, err := dp.GetTimestamp(x); err != nil {
		return err
	}
	root, err := get()
	if err != nil {
		return err
	}
	return addPrefixTree(dp.prefixTrees, x, root)
}'''))
v('dp.insp',(DP,'''	// Identify the leaves that we have only the timestamp for.
	empty := make([]uint64, 0)
	for _, leaf := range leaves {
		if leaf.PrefixTree == nil {
			empty = append(empty, leaf.position)
		}
	}
''','''	empty := withoutPrefixTree(leaves)
'''),(DP,'''type ProofResult struct''','''func withoutPrefixTree(leaves []sortableLogLeaf) []uint64 {
	empty := make([]uint64, 0)
	for _, leaf := range leaves {
		if leaf.PrefixTree != nil {
			continue
		}
		empty = append(empty, leaf.position)
	}
	return empty
}

type ProofResult struct'''))
v('dp.infill',(DP,'''	for i := range leaves {
		if leaves[i].PrefixTree == nil {
			dp.prefixTrees[leaves[i].position] = prefixTrees[0]
			leaves[i].PrefixTree = prefixTrees[0]
			prefixTrees = prefixTrees[1:]
		}
	}''','''	next := 0
	for i := range leaves {
		leaf := &leaves[i]
		if leaf.PrefixTree != nil {
			continue
		}
		root := prefixTrees[next]
		next++
		leaf.PrefixTree = root
		dp.prefixTrees[leaf.position] = root
	}'''))
v('dp.values',(DP,'''	positions := make([]uint64, len(leaves))
	values := make([][]byte, len(leaves))
	for i, leaf := range leaves {
		positions[i] = leaf.position
		values[i], err = leaf.LogEntry.Hash(dp.cs)
		if err != nil {
			return nil, err
		}
	}
''','''	positions := make([]uint64, 0, len(leaves))
	values := make([][]byte, 0, len(leaves))
	for _, leaf := range leaves {
		value, err := leaf.LogEntry.Hash(dp.cs)
		if err != nil {
			return nil, err
		}
		positions = append(positions, leaf.position)
		values = append(values, value)
	}
'''))
v('dp.retain',(DP,'''	logEntries := make(map[uint64]structs.LogEntry)
	for _, x := range math.Frontier(n) {
		ts, ok := dp.timestamps[x]
		if !ok {
			return nil, errors.New("expected timestamp not retained")
		}
		prefixTree, ok := dp.prefixTrees[x]
		if !ok {
			return nil, errors.New("expected prefix tree root not retained")
		}
		logEntries[x] = structs.LogEntry{Timestamp: ts, PrefixTree: prefixTree}
	}

	return &ProofResult{subtrees, additional, logEntries}, nil
}''','''	logEntries, err := dp.retained(math.Frontier(n))
	if err != nil {
		return nil, err
	}
	return &ProofResult{FullSubtrees: subtrees, Additional: additional, LogEntries: logEntries}, nil
}

func (dp *DataProvider) retained(frontier []uint64) (map[uint64]structs.LogEntry, error) {
	logEntries := make(map[uint64]structs.LogEntry, len(frontier))
	for _, x := range frontier {
		ts, okTs := dp.timestamps[x]
		prefixTree, okTree := dp.prefixTrees[x]
		if !okTs {
			return nil, errors.New("expected timestamp not retained")
		} else if !okTree {
			return nil, errors.New("expected prefix tree root not retained")
		}
		logEntries[x] = structs.LogEntry{Timestamp: ts, PrefixTree: prefixTree}
	}
	return logEntries, nil
}'''))
v('us.dedup',(US,'''	for _, ver := range math.SearchBinaryLadder(endVer, endVer, nil, nil) {
		dedup[ver] = struct{}{}
	}
	for ver := startVer; ver < endVer; ver++ {
		dedup[ver] = struct{}{}
	}
''','''	for ver := startVer; ver < endVer; ver++ {
		dedup[ver] = struct{}{}
	}
	ladder := math.SearchBinaryLadder(endVer, endVer, nil, nil)
	for _, ver := range ladder {
		dedup[ver] = struct{}{}
	}
'''))
v('us.keys',(US,'''	versions := make([]uint32, 0, len(dedup))
	for ver := range dedup {
		versions = append(versions, ver)
	}
	slices.Sort(versions)

	return versions''','''	return slices.Sorted(maps.Keys(dedup))'''),(US,'''	"slices"
''','''	"maps"
	"slices"
'''))
v('us.push',(US,'''	for u.ver < len(u.index) {
		out, err := u.next(true)
		if ok := u.send(wire.UpdateResponse{Out: out, Err: err}); !ok {
			return
		} else if err != nil {
			return
		}

		last := u.tree.treeHead.TreeSize
		u.last = &last
	}

	// Submit''','''	for u.ver < len(u.index) {
		if !u.push(true) {
			return
		}
	}

	// Submit'''),(US,'''		out, err := u.next(u.index[u.ver] != pos)
		if ok := u.send(wire.UpdateResponse{Out: out, Err: err}); !ok {
			return
		} else if err != nil {
			return
		}

		last := u.tree.treeHead.TreeSize
		u.last = &last
	}
}
''','''		if !u.push(u.index[u.ver] != pos) {
			return
		}
	}
}

func (u *updater) push(withValues bool) bool {
	out, err := u.next(withValues)
	if ok := u.send(wire.UpdateResponse{Out: out, Err: err}); !ok || err != nil {
		return false
	}
	last := u.tree.treeHead.TreeSize
	u.last = &last
	return true
}
'''))
v('us.submit',(US,'''	res := make(chan uint64, 1)
	req := UpdateRequest{
		Label:           u.label,
		StartingVersion: u.signedVer,
		Values:          u.values,

		Response: res,
	}
	select {
	case u.tree.updater <- req:
	case <-u.ctx.Done():
		return
	}

	var (
		pos uint64
		ok  bool
	)
	select {
	case pos, ok = <-res:
		if !ok {
			u.send(wire.UpdateResponse{
				Err: errors.New("failed to sequence requested new versions of label"),
			})
			return
		}
	case <-u.ctx.Done():
		return
	}
	if err := u.reloadTree(pos); err != nil {''','''	pos, ok := u.submit()
	if !ok {
		return
	}
	if err := u.reloadTree(pos); err != nil {'''),(US,'''func (u *updater) next(''','''// submit sends the user's new versions to be sequenced.
func (u *updater) submit() (uint64, bool) {
	res := make(chan uint64, 1)
	req := UpdateRequest{
		Label:           u.label,
		StartingVersion: u.signedVer,
		Values:          u.values,

		Response: res,
	}
	select {
	case u.tree.updater <- req:
	case <-u.ctx.Done():
		return 0, false
	}
	select {
	case pos, ok := <-res:
		if !ok {
			u.send(wire.UpdateResponse{
				Err: errors.New("failed to sequence requested new versions of label"),
			})
			return 0, false
		}
		return pos, true
	case <-u.ctx.Done():
		return 0, false
	}
}

func (u *updater) next('''))
v('us.set',(US,'''	values := make([]structs.UpdateValue, len(req.Values))
	for i, val := range req.Values {
		values[i] = structs.UpdateValue{Value: val.Value}
	}
	index, err := u.tree.getIndex(req.Label)
	if err != nil {
		return err
	}

	u.last = req.Last
	u.label = req.Label
	u.values = values
	u.index = index
	u.ver = 0
	if req.GreatestVersion != nil {
		u.ver = int(*req.GreatestVersion) + 1
	}
	return nil
}''','''	values := make([]structs.UpdateValue, 0, len(req.Values))
	for _, val := range req.Values {
		values = append(values, structs.UpdateValue{Value: val.Value})
	}
	if err := u.start(req.Label, req.Last, req.GreatestVersion); err != nil {
		return err
	}
	u.values = values
	return nil
}

func (u *updater) start(label []byte, last *uint64, greatest *uint32) error {
	index, err := u.tree.getIndex(label)
	if err != nil {
		return err
	}
	u.last = last
	u.label = label
	u.index = index
	u.ver = 0
	if greatest != nil {
		u.ver = int(*greatest) + 1
	}
	return nil
}'''),(US,'''	// Load index and populate updater state.
	index, err := u.tree.getIndex(req.Label)
	if err != nil {
		return err
	}

	u.last = req.Last
	u.label = req.Label
	u.signedVer = &req.SignedVersion
	u.values = req.Values
	u.index = index
	u.ver = 0
	if req.GreatestVersion != nil {
		u.ver = int(*req.GreatestVersion) + 1
	}
	return nil''','''	if err := u.start(req.Label, req.Last, req.GreatestVersion); err != nil {
		return err
	}
	u.signedVer = &req.SignedVersion
	u.values = req.Values
	return nil'''))
v('us.sig',(US,'''	for i, val := range req.Values {
		tbs, err := structs.Marshal(&structs.UpdateTBS{
			Config:  u.tree.config.Public(),
			Label:   req.Label,
			Version: req.SignedVersion + uint32(i),
			Value:   val.Value,
		})
		if err != nil {
			return err
		}
		ok := u.tree.config.LeafPublicKey.Verify(tbs, val.Signature)
		if !ok {
			return errors.New("leaf signature verification failed")
		}
	}
''','''	ver := req.SignedVersion
	for _, val := range req.Values {
		if err := u.verifyValue(req.Label, ver, val); err != nil {
			return err
		}
		ver++
	}
'''),(US,'''func (u *updater) send(''','''func (u *updater) verifyValue(label []byte, ver uint32, val structs.UpdateValue) error {
	tbs, err := structs.Marshal(&structs.UpdateTBS{
		Config:  u.tree.config.Public(),
		Label:   label,
		Version: ver,
		Value:   val.Value,
	})
	if err != nil {
		return err
	}
	if !u.tree.config.LeafPublicKey.Verify(tbs, val.Signature) {
		return errors.New("leaf signature verification failed")
	}
	return nil
}

func (u *updater) send('''))
v('us.infos',(US,'''	for ; u.ver < len(u.index) && u.index[u.ver] == pos; u.ver++ {
		res, err''','''	for u.ver < len(u.index) {
		if u.index[u.ver] != pos {
			break
		}
		res, err'''),(US,'''			UpdateSuffix: res.Value.UpdateSuffix,
		})
	}
''','''			UpdateSuffix: res.Value.UpdateSuffix,
		})
		u.ver++
	}
'''))
v('us.reload',(US,'''	} else if tree.treeHead == nil || tree.treeHead.TreeSize <= pos {
		return''','''	}
	covers := tree.treeHead != nil && tree.treeHead.TreeSize > pos
	if !covers {
		return'''),(US,'''	if len(index) == 0 || index[len(index)-1] < pos {
		return''','''	if n := len(index); n == 0 || index[n-1] < pos {
		return'''),(US,'''	u.tree = tree
	u.index = index
	return nil''','''	u.index, u.tree = index, tree
	return nil'''))
