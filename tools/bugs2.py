AA=AU
v('x_lvvals',(LV,'''	for _, val := range fullSubtrees {
		if len(val) != v.cs.HashSize() {''','''	for _, val := range fullSubtrees {
		if len(val) > v.cs.HashSize() {'''))
v('x_lvprev',(LV,'copath := math.BatchCopath(entries, n, nP, v.prev)\n	if len(proof) != len(copath) {','copath := math.BatchCopath(entries, n, nP, v.prev)\n	if len(proof) < len(copath) {'))
v('x_lvdup',(LV,'ok && !bytes.Equal(val, expected.value)','ok && expected.leaf && !bytes.Equal(val, expected.value)'))
v('x_lvmap',(LV,'''	for i, x := range v.subtrees {
		if err := v.addToMap(nodes, x, v.values[i]); err != nil {
			return nil, nil, err
		}
	}
''','''	for i, x := range v.subtrees {
		if _, ok := nodes[x]; ok {
			continue
		}
		if err := v.addToMap(nodes, x, v.values[i]); err != nil {
			return nil, nil, err
		}
	}
'''))
v('x_lvfull',(LV,'''	if math.IsFullSubtree(x, n) {
		intermediate''','''	if _, ok := nodes[x]; !ok && math.IsFullSubtree(x, n) {
		intermediate'''))
v('x_lvent',(LV,'if x >= n {\n			return nil, nil, errors.New("leaf is beyond','if x > n {\n			return nil, nil, errors.New("leaf is beyond'))
v('x_pvdepth',(PV,'''		for i := range res.depth {
			if getBit''','''		for i := range res.depth - 1 {
			if getBit'''))
v('x_pvleaf',(PV,'if res.Depth() != depth || res.Inclusion() != equal {','if res.Depth() != depth || (res.Inclusion() && !equal) {'))
v('x_pvempty',(PV,'if res.Depth() != depth || res.Inclusion() {','if res.Depth() < depth || res.Inclusion() {'))
v('x_pvexist',(PV,'''		} else if res.Inclusion() != proof.Results[i].Inclusion() || res.Depth() != proof.Results[i].Depth() {''','''		} else if res.Depth() != proof.Results[i].Depth() {'''))
v('x_pvsort',(PV,'''	slices.SortFunc(sortedRemove, bytes.Compare)

	addRemove''','''	addRemove'''))
v('x_pvelems',(PV,'''	} else if len(elements) != 0 {
		return nil, errors.New("wrong number of copath nodes provided")
	}

	return root, nil''','''	} else if len(elements) != 0 && len(entries) != 0 {
		return nil, errors.New("wrong number of copath nodes provided")
	}

	return root, nil'''))
v('x_auts',(AA,'update.Timestamp < a.state.TreeHead.Timestamp {','update.Timestamp < a.state.Timestamps[0] {'))
v('x_aurem',(AA,'if compareEntry(update.Removed[i-1], update.Removed[i]) != -1 {','if compareEntry(update.Removed[i-1], update.Removed[i]) == 1 {'))
v('x_auprev',(AA,'} else if prevDLE == nil && len(update.Removed) > 0 {','} else if prevDLE == nil && len(update.Removed) > len(update.Added) {'),(AA,'a.state.addedSince(*prevDLE, entry.VrfOutput)','prevDLE != nil && a.state.addedSince(*prevDLE, entry.VrfOutput)'))
v('x_auright',(AA,'algorithms.RightmostDistinguished(a.config, n+1, provider)','algorithms.PreviousRightmost(a.config, n+1, provider)'))
v('x_aucommit',(AA,'''	} else if err := a.tx.PutState(raw); err != nil {
		return nil, err
	}
	a.state = &signed
''','''	}
	a.state = &signed
	if err := a.tx.PutState(raw); err != nil {
		return nil, err
	}
'''))
v('x_auroot',(AA,'bytes.Equal(before, expected)','bytes.Equal(before[:len(before)/2], expected[:len(before)/2])'))
v('x_mgincr',(MG,'''	prev, err := ml.tx.IncrementGreatestVersion(req.Label, len(req.Values))
	if err != nil {
		return nil, err
	}

	// Sign new versions of the label.
	values := make''','''	prev, err := ml.tx.IncrementGreatestVersion(req.Label, len(req.Values))
	if err != nil && len(req.Values) > 0 {
		return nil, err
	}

	// Sign new versions of the label.
	values := make'''))
v('x_mgkey',(MG,'!bytes.Equal(config.LeafPublicKey.Bytes(), priv.Public().Bytes())','!bytes.HasPrefix(config.LeafPublicKey.Bytes(), priv.Public().Bytes()[:4])'))
v('x_lcset',(LC,'''	for i != 7 {
		i = math.ParentStep(i)
		c.nodes[i].value = nil''','''	for i != 7 {
		i = math.ParentStep(i)
		if i == 7 {
			break
		}
		c.nodes[i].value = nil'''))
v('x_lcleaf',(LC,'leafChunk := math.Level(id) == 3','leafChunk := math.Level(id) <= 3 || id == 7'))
v('x_lcmany',(LC,'if len(nodes) > 15 {','if len(nodes) > 16 {'))
v('x_mmdup',(MM,'out[i] = dup(ts.Indices[fmt.Sprintf("%x", label)])','out[i] = ts.Indices[fmt.Sprintf("%x", label)]'))
v('x_mmclone',(MM,'		prefixStore: ts.prefixStore,\n\n		ReadOnly: false,','		prefixStore: NewPrefixStore(),\n\n		ReadOnly: false,'))
v('x_mmdel',(MM,'''	delete(ts.Versions, fmt.Sprintf("%x:%v", label, ver))
	return nil''','''	if ver > 0 {
		delete(ts.Versions, fmt.Sprintf("%x:%v", label, ver))
	}
	return nil'''))
v('x_upanc',(UP,'''		} else if x == target {
			return nil, nil''','''		} else if x == target || math.IsLeaf(x) {
			return nil, nil'''))
v('x_uplast',(UP,'} else if pos <= m.Owner.LastUpdate() {','} else if pos < m.Owner.LastUpdate() {'))
v('x_upgreat',(UP,'''			} else if res != 0 {
				return errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		}

	MoveRight''','''			} else if res > 0 {
				return errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		}

	MoveRight'''))
v('x_uptrack',(UP,'tracker.AddLadder(parent, true, m.Owner.GreatestVersionAt(parent), ladder)','tracker.AddLadder(parent, true, greatestVer, ladder)'))
v('x_rdleft',(AL,'} else if !config.IsDistinguished(timestamp, rightmost) {\n			return &x, nil','} else if math.Level(x) == 1 || !config.IsDistinguished(timestamp, rightmost) {\n			return &x, nil') )
v('x_prright',(AL,'''			left, err = provider.GetTimestamp(out)
			if err != nil {''','''			_, err = provider.GetTimestamp(out)
			if err != nil {'''))
v('x_uvm',(AL,'if m != nil && *m > n {','if m != nil && *m > n+1 {'))
P2='crypto/vrf/p256/p256.go'; E2='crypto/vrf/edwards25519/edwards25519.go'
v('x_p2ch',(P2,'	buf.Write(p1.BytesCompressed())\n	buf.Write(p2','	buf.Write(p2.BytesCompressed())\n	buf.Write(p2'))
v('x_e2s',(E2,'if !bytes.Equal(cBytes, cPrime) {','if !bytes.Equal(cBytes[:15], cPrime[:15]) {'))
v('x_e2len',(E2,'if len(proof) != 32+16+32 {','if len(proof) < 32+16+32 {'))
CY=T+'structs/crypto.go'; CF=T+'structs/config.go'
v('y_cvver',(CY,'	writeNumeric(buf, cv.Version)\n',''))
v('y_tbsver',(CY,'	writeNumeric(buf, tbs.Version)\n	return writeBytes[uint32]','	writeNumeric(buf, uint16(tbs.Version))\n	return writeBytes[uint32]'))
v('y_vrflab',(CY,'''	if err := writeBytes[uint8](buf, vi.Label, "label"); err != nil {
		return err
	}
	writeNumeric(buf, vi.Version)''','''	buf.Write(vi.Label)
	writeNumeric(buf, vi.Version)'''))
v('y_cfglag',(CF,'''		writeNumeric(buf, pc.MaxAuditorLag)
''',''))
v('y_cfgmode',(CF,'''	writeNumeric(buf, uint8(pc.Mode))
''','''	writeNumeric(buf, uint8(pc.Mode&1))
'''))
v('y_tbsroot',(TH,'''	writeNumeric(buf, tbs.TreeSize)
	buf.Write(tbs.Root)
	return nil
}

type AuditorTreeHead struct''','''	buf.Write(tbs.Root)
	return nil
}

type AuditorTreeHead struct'''))
v('y_lehash',(CY,'	hasher.Write(raw)\n	return hasher.Sum(nil), nil','	hasher.Write(raw[8:])\n	return hasher.Sum(nil), nil'))
CRY=T+'crypto.go'
v('z_bgi0',(CRY,'''		for i := 1; i < len(index); i++ {
			index[i] += index[i-1]
		}
''','''		for i := 1; i < len(index); i++ {
			index[i] += index[0]
		}
'''))
v('z_getidx',(CRY,'index[len(index)-1] >= treeSize','index[len(index)-1] > treeSize'))
v('z_putidx',(CRY,'	for i := len(compressed) - 1; i > 0; i-- {','	for i := len(compressed) - 1; i > 1; i-- {'))
v('z_putidxm',(CRY,'if compressed[i] < compressed[i-1] {','if compressed[i] <= compressed[i-1] {'))
v('z_gvtail',(CRY,'''	} else if buf.Len() != 0 {
		return nil, errors.New("unexpected data appended to label value")
	}
	return labelValue, nil''','''	}
	return labelValue, nil'''))
v('z_pvopen',(CRY,'return commitments.Commit(t.config.Suite, opening, commitmentValue), nil','return commitments.Commit(t.config.Suite, make([]byte, len(opening)), commitmentValue), nil'))
v('z_pvver',(CRY,'''		Version: ver,
		Update:  value,''','''		Update:  value,'''))
v('z_vrfver',(CRY,'VrfInput{Label: label, Version: ver}','VrfInput{Label: label, Version: ver &^ (1 << 31)}'))
v('z_gvsig',(CRY,'''		if t.config.Mode == structs.ThirdPartyManagement {
			out.Value.Signature = make([]byte, 0)
		}
''',''))
v('z_agg',(CRY,'size := t.config.Suite.CommitmentOpeningSize()','size := t.config.Suite.HashSize()'))
# transparency.go Search
v('z_popul',(TR,'req.Version == nil && int(ver) != greatest ||','req.Version == nil ||'))
v('z_uvret',(TR,'frontier := math.Frontier(*last)','frontier := math.Frontier(t.treeHead.TreeSize)'))
v('z_srnf',(TR,'if err != nil && err != algorithms.ErrLabelNotFound {\n		return nil, err\n	}\n	combinedProof','if err != nil && err == algorithms.ErrLabelNotFound {\n		return nil, err\n	}\n	combinedProof'))
v('z_fth0',(TR,'''		if *last == 0 {
			return nil, 0, nil, nil, errors.New("tree size advertised by user is not valid")
		} else if *last ==''','''		if *last =='''))
v('z_fthgt',(TR,'*last == t.treeHead.TreeSize {','*last == t.treeHead.TreeSize && t.auditorHead == nil {'))
v('z_fthnp',(TR,'''	if t.auditorHead != nil {
		nP = &t.auditorHead.TreeSize
	}''','''	if t.auditorHead != nil && t.auditorHead.TreeSize < n {
		nP = &t.auditorHead.TreeSize
	}'''))
v('z_audld',(TR,'config.Mode == structs.ThirdPartyAuditing && rawAuditor != nil','rawAuditor != nil'))
v('z_srlad',(TR,'ladder = math.SearchBinaryLadder(*req.Version, *req.Version, nil, nil)','ladder = math.SearchBinaryLadder(*req.Version, uint32(len(index)), nil, nil)'))
# data provider
v('z_dpret',(DP,'''		} else if err := addPrefixTree(dp.prefixTrees, pos, leaf.PrefixTree); err != nil {
			return err
		}
	}

	return nil''','''		}
	}

	return nil'''))
v('z_dpinc',(DP,'''	root, err := dp.handle.GetInclusionProof(x, vers)
	if err != nil {
		return err
	}
	return addPrefixTree(dp.prefixTrees, x, root)''','''	_, err := dp.handle.GetInclusionProof(x, vers)
	return err'''))
v('z_dpts',(DP,'pos1 < pos2 && ts1 > ts2 || pos1 > pos2 && ts1 < ts2','pos1+1 == pos2 && ts1 > ts2 || pos1 == pos2+1 && ts1 < ts2'))
v('z_dpinsp',(DP,'''		if _, ok := dp.logEntries[x]; ok {
			continue
		}
''','''		if _, ok := dp.logEntries[x]; ok && dp.prefixTrees[x] != nil && ts != 0 {
			continue
		}
'''))
v('z_dpfront',(DP,'for _, x := range math.Frontier(n) {\n		ts','for _, x := range math.Frontier(n)[:1] {\n		ts'))
v('z_dpm',(DP,'if m != nil {\n		if err := verifier','if m != nil && nP == nil {\n		if err := verifier'))
v('z_dpcnt',(DP,'	} else if len(prefixTrees) != len(empty) {','	} else if len(prefixTrees) < len(empty) {'))
v('z_avcommit',(PH,'} else if commitment != nil && len(commitment) != cs.HashSize() {','} else if commitment != nil && len(commitment) > cs.HashSize() {'))
v('z_avvrf',(PH,'if !bytes.Equal(vrfOutput, existing.VrfOutput) {','if commitment != nil && !bytes.Equal(vrfOutput, existing.VrfOutput) {'))
v('z_phmon',(PH,'''	if len(proof.Results) != len(ladder) {
		return nil, errors.New("unexpected number of results present in prefix proof")
	}
	for _, res := range proof.Results {''','''	if len(proof.Results) > len(ladder) {
		return nil, errors.New("unexpected number of results present in prefix proof")
	}
	for _, res := range proof.Results {'''))
v('z_phpop',(PH,'''	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	rph.tracker.AddResults(x, omit, ladder, proof.Results)''','''	if res != 0 {
		rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	}
	rph.tracker.AddResults(x, omit, ladder, proof.Results)'''))
v('z_phncom',(PH,'''		} else if result.Inclusion() && entry.Commitment == nil {
			return nil, 0, errors.New("commitment not known for required version")
		}
''','''		}
'''))
CFG=T+'structs/config.go'
v('z_exp',(CFG,'return rightmost-ts >= c.MaximumLifetime','return rightmost-ts > c.MaximumLifetime'))
v('z_expz',(CFG,'''	if c.MaximumLifetime == 0 {
		return false
	}
''',''))
v('z_dist',(CFG,'return right-left >= c.Reason','return right-left > c.Reason'))
v('z_distadd',(CFG,'return right-left >= c.ReasonableMonitoringWindow','return right >= left+c.ReasonableMonitoringWindow'))
LF='tree/log/log.go'
SX='crypto/suites/'
