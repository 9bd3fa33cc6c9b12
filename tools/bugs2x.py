AA=AU
v('x_lvvals',(LV,'''	for _, val := range fullSubtrees {
		if len(val) != v.cs.HashSize() {''','''	for _, val := range fullSubtrees {
		if len(val) > v.cs.HashSize() {'''))
v('x_lvprev',(LV,'copath := math.BatchCopath(entries, n, nP, v.prev)\n	if len(proof) != len(copath) {','copath := math.BatchCopath(entries, n, nP, v.prev)\n	if len(proof) < len(copath) {'))
v('x_lvdup',(LV,'ok && !bytes.Equal(val, expected.value)','ok && expected.leaf && !bytes.Equal(val, expected.value)'))
v('x_lvmap',(LV,'''	for i, x := range v.subtrees {
		if err := v.addToMap(nodes, x, v.values[i]); err != nil {
			return nil, nil, err
		}
	}
''','''	for i, x := range v.subtrees {
		if _, ok := nodes[x]; ok {
			continue
		}
		if err := v.addToMap(nodes, x, v.values[i]); err != nil {
			return nil, nil, err
		}
	}
'''))
v('x_lvfull',(LV,'''	if math.IsFullSubtree(x, n) {
		intermediate''','''	if _, ok := nodes[x]; !ok && math.IsFullSubtree(x, n) {
		intermediate'''))
v('x_lvent',(LV,'if x >= n {\n			return nil, nil, errors.New("leaf is beyond','if x > n {\n			return nil, nil, errors.New("leaf is beyond'))
v('x_pvdepth',(PV,'''		for i := range res.depth {
			if getBit''','''		for i := range res.depth - 1 {
			if getBit'''))
v('x_pvleaf',(PV,'if res.Depth() != depth || res.Inclusion() != equal {','if res.Depth() != depth || (res.Inclusion() && !equal) {'))
v('x_pvempty',(PV,'if res.Depth() != depth || res.Inclusion() {','if res.Depth() < depth || res.Inclusion() {'))
v('x_pvexist',(PV,'''		} else if res.Inclusion() != proof.Results[i].Inclusion() || res.Depth() != proof.Results[i].Depth() {''','''		} else if res.Depth() != proof.Results[i].Depth() {'''))
v('x_pvsort',(PV,'''	slices.SortFunc(sortedRemove, bytes.Compare)

	addRemove''','''	addRemove'''))
v('x_pvelems',(PV,'''	} else if len(elements) != 0 {
		return nil, errors.New("wrong number of copath nodes provided")
	}

	return root, nil''','''	} else if len(elements) != 0 && len(entries) != 0 {
		return nil, errors.New("wrong number of copath nodes provided")
	}

	return root, nil'''))
v('x_auts',(AA,'update.Timestamp < a.state.TreeHead.Timestamp {','update.Timestamp < a.state.Timestamps[0] {'))
v('x_aurem',(AA,'if compareEntry(update.Removed[i-1], update.Removed[i]) != -1 {','if compareEntry(update.Removed[i-1], update.Removed[i]) == 1 {'))
v('x_auprev',(AA,'} else if prevDLE == nil && len(update.Removed) > 0 {','} else if prevDLE == nil && len(update.Removed) > len(update.Added) {'),(AA,'a.state.addedSince(*prevDLE, entry.VrfOutput)','prevDLE != nil && a.state.addedSince(*prevDLE, entry.VrfOutput)'))
v('x_auright',(AA,'algorithms.RightmostDistinguished(a.config, n+1, provider)','algorithms.PreviousRightmost(a.config, n+1, provider)'))
v('x_aucommit',(AA,'''	} else if err := a.tx.PutState(raw); err != nil {
		return nil, err
	}
	a.state = &signed
''','''	}
	a.state = &signed
	if err := a.tx.PutState(raw); err != nil {
		return nil, err
	}
'''))
v('x_auroot',(AA,'bytes.Equal(before, expected)','bytes.Equal(before[:len(before)/2], expected[:len(before)/2])'))
v('x_mgincr',(MG,'''	prev, err := ml.tx.IncrementGreatestVersion(req.Label, len(req.Values))
	if err != nil {
		return nil, err
	}

	// Sign new versions of the label.
	values := make''','''	prev, err := ml.tx.IncrementGreatestVersion(req.Label, len(req.Values))
	if err != nil && len(req.Values) > 0 {
		return nil, err
	}

	// Sign new versions of the label.
	values := make'''))
v('x_mgkey',(MG,'!bytes.Equal(config.LeafPublicKey.Bytes(), priv.Public().Bytes())','!bytes.HasPrefix(config.LeafPublicKey.Bytes(), priv.Public().Bytes()[:4])'))
v('x_lcset',(LC,'''	for i != 7 {
		i = math.ParentStep(i)
		c.nodes[i].value = nil''','''	for i != 7 {
		i = math.ParentStep(i)
		if i == 7 {
			break
		}
		c.nodes[i].value = nil'''))
v('x_lcleaf',(LC,'leafChunk := math.Level(id) == 3','leafChunk := math.Level(id) <= 3 || id == 7'))
v('x_lcmany',(LC,'if len(nodes) > 15 {','if len(nodes) > 16 {'))
v('x_mmdup',(MM,'out[i] = dup(ts.Indices[fmt.Sprintf("%x", label)])','out[i] = ts.Indices[fmt.Sprintf("%x", label)]'))
v('x_mmclone',(MM,'		prefixStore: ts.prefixStore,\n\n		ReadOnly: false,','		prefixStore: NewPrefixStore(),\n\n		ReadOnly: false,'))
v('x_mmdel',(MM,'''	delete(ts.Versions, fmt.Sprintf("%x:%v", label, ver))
	return nil''','''	if ver > 0 {
		delete(ts.Versions, fmt.Sprintf("%x:%v", label, ver))
	}
	return nil'''))
v('x_upanc',(UP,'''		} else if x == target {
			return nil, nil''','''		} else if x == target || math.IsLeaf(x) {
			return nil, nil'''))
v('x_uplast',(UP,'} else if pos <= m.Owner.LastUpdate() {','} else if pos < m.Owner.LastUpdate() {'))
v('x_upgreat',(UP,'''			} else if res != 0 {
				return errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		}

	MoveRight''','''			} else if res > 0 {
				return errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		}

	MoveRight'''))
v('x_uptrack',(UP,'tracker.AddLadder(parent, true, m.Owner.GreatestVersionAt(parent), ladder)','tracker.AddLadder(parent, true, greatestVer, ladder)'))
v('x_rdleft',(AL,'} else if !config.IsDistinguished(timestamp, rightmost) {\n			return &x, nil','} else if math.Level(x) == 1 || !config.IsDistinguished(timestamp, rightmost) {\n			return &x, nil') )
v('x_prright',(AL,'''			left, err = provider.GetTimestamp(out)
			if err != nil {''','''			_, err = provider.GetTimestamp(out)
			if err != nil {'''))
v('x_uvm',(AL,'if m != nil && *m > n {','if m != nil && *m > n+1 {'))
P2='crypto/vrf/p256/p256.go'; E2='crypto/vrf/edwards25519/edwards25519.go'
v('x_p2ch',(P2,'	buf.Write(p1.BytesCompressed())\n	buf.Write(p2','	buf.Write(p2.BytesCompressed())\n	buf.Write(p2'))
v('x_e2s',(E2,'if !bytes.Equal(cBytes, cPrime) {','if !bytes.Equal(cBytes[:15], cPrime[:15]) {'))
v('x_e2len',(E2,'if len(proof) != 32+16+32 {','if len(proof) < 32+16+32 {'))
