CRY=T+'crypto.go'
v('z_bgi0',(CRY,'''		for i := 1; i < len(index); i++ {
			index[i] += index[i-1]
		}
''','''		for i := 1; i < len(index); i++ {
			index[i] += index[0]
		}
'''))
v('z_getidx',(CRY,'index[len(index)-1] >= treeSize','index[len(index)-1] > treeSize'))
v('z_putidx',(CRY,'	for i := len(compressed) - 1; i > 0; i-- {','	for i := len(compressed) - 1; i > 1; i-- {'))
v('z_putidxm',(CRY,'if compressed[i] < compressed[i-1] {','if compressed[i] <= compressed[i-1] {'))
v('z_gvtail',(CRY,'''	} else if buf.Len() != 0 {
		return nil, errors.New("unexpected data appended to label value")
	}
	return labelValue, nil''','''	}
	return labelValue, nil'''))
v('z_pvopen',(CRY,'return commitments.Commit(t.config.Suite, opening, commitmentValue), nil','return commitments.Commit(t.config.Suite, make([]byte, len(opening)), commitmentValue), nil'))
v('z_pvver',(CRY,'''		Version: ver,
		Update:  value,''','''		Update:  value,'''))
v('z_vrfver',(CRY,'VrfInput{Label: label, Version: ver}','VrfInput{Label: label, Version: ver &^ (1 << 31)}'))
v('z_gvsig',(CRY,'''		if t.config.Mode == structs.ThirdPartyManagement {
			out.Value.Signature = make([]byte, 0)
		}
''',''))
v('z_agg',(CRY,'size := t.config.Suite.CommitmentOpeningSize()','size := t.config.Suite.HashSize()'))
# transparency.go Search
v('z_popul',(TR,'req.Version == nil && int(ver) != greatest ||','req.Version == nil ||'))
v('z_uvret',(TR,'frontier := math.Frontier(*last)','frontier := math.Frontier(t.treeHead.TreeSize)'))
v('z_srnf',(TR,'if err != nil && err != algorithms.ErrLabelNotFound {\n		return nil, err\n	}\n	combinedProof','if err != nil && err == algorithms.ErrLabelNotFound {\n		return nil, err\n	}\n	combinedProof'))
v('z_fth0',(TR,'''		if *last == 0 {
			return nil, 0, nil, nil, errors.New("tree size advertised by user is not valid")
		} else if *last ==''','''		if *last =='''))
v('z_fthgt',(TR,'*last == t.treeHead.TreeSize {','*last == t.treeHead.TreeSize && t.auditorHead == nil {'))
v('z_fthnp',(TR,'''	if t.auditorHead != nil {
		nP = &t.auditorHead.TreeSize
	}''','''	if t.auditorHead != nil && t.auditorHead.TreeSize < n {
		nP = &t.auditorHead.TreeSize
	}'''))
v('z_audld',(TR,'config.Mode == structs.ThirdPartyAuditing && rawAuditor != nil','rawAuditor != nil'))
v('z_srlad',(TR,'ladder = math.SearchBinaryLadder(*req.Version, *req.Version, nil, nil)','ladder = math.SearchBinaryLadder(*req.Version, uint32(len(index)), nil, nil)'))
# data provider
v('z_dpret',(DP,'''		} else if err := addPrefixTree(dp.prefixTrees, pos, leaf.PrefixTree); err != nil {
			return err
		}
	}

	return nil''','''		}
	}

	return nil'''))
v('z_dpinc',(DP,'''	root, err := dp.handle.GetInclusionProof(x, vers)
	if err != nil {
		return err
	}
	return addPrefixTree(dp.prefixTrees, x, root)''','''	_, err := dp.handle.GetInclusionProof(x, vers)
	return err'''))
v('z_dpts',(DP,'pos1 < pos2 && ts1 > ts2 || pos1 > pos2 && ts1 < ts2','pos1+1 == pos2 && ts1 > ts2 || pos1 == pos2+1 && ts1 < ts2'))
v('z_dpinsp',(DP,'''		if _, ok := dp.logEntries[x]; ok {
			continue
		}
''','''		if _, ok := dp.logEntries[x]; ok && dp.prefixTrees[x] != nil && ts != 0 {
			continue
		}
'''))
v('z_dpfront',(DP,'for _, x := range math.Frontier(n) {\n		ts','for _, x := range math.Frontier(n)[:1] {\n		ts'))
v('z_dpm',(DP,'if m != nil {\n		if err := verifier','if m != nil && nP == nil {\n		if err := verifier'))
v('z_dpcnt',(DP,'	} else if len(prefixTrees) != len(empty) {','	} else if len(prefixTrees) < len(empty) {'))
v('z_avcommit',(PH,'} else if commitment != nil && len(commitment) != cs.HashSize() {','} else if commitment != nil && len(commitment) > cs.HashSize() {'))
v('z_avvrf',(PH,'if !bytes.Equal(vrfOutput, existing.VrfOutput) {','if commitment != nil && !bytes.Equal(vrfOutput, existing.VrfOutput) {'))
v('z_phmon',(PH,'''	if len(proof.Results) != len(ladder) {
		return nil, errors.New("unexpected number of results present in prefix proof")
	}
	for _, res := range proof.Results {''','''	if len(proof.Results) > len(ladder) {
		return nil, errors.New("unexpected number of results present in prefix proof")
	}
	for _, res := range proof.Results {'''))
v('z_phpop',(PH,'''	rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	rph.tracker.AddResults(x, omit, ladder, proof.Results)''','''	if res != 0 {
		rph.inner.PrefixProofs = rph.inner.PrefixProofs[1:]
	}
	rph.tracker.AddResults(x, omit, ladder, proof.Results)'''))
v('z_phncom',(PH,'''		} else if result.Inclusion() && entry.Commitment == nil {
			return nil, 0, errors.New("commitment not known for required version")
		}
''','''		}
'''))
CFG=T+'structs/config.go'
v('z_exp',(CFG,'return rightmost-ts >= c.MaximumLifetime','return rightmost-ts > c.MaximumLifetime'))
v('z_expz',(CFG,'''	if c.MaximumLifetime == 0 {
		return false
	}
''',''))
v('z_dist',(CFG,'return right-left >= c.Reason','return right-left > c.Reason'))
v('z_distadd',(CFG,'return right-left >= c.ReasonableMonitoringWindow','return right >= left+c.ReasonableMonitoringWindow'))
LF='tree/log/log.go'
SX='crypto/suites/'
