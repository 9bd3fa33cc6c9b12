import json,os,shutil,sys
R='/repo/'
T='tree/transparency/'
V=[]
def v(name,*edits): V.append((name,edits))
C=T+'client.go'; CC=T+'client_crypto.go'; AU=T+'auditor/auditor.go'; MU=T+'mutate.go'; SE=T+'algorithms/search.go'; UP=T+'algorithms/update.go'; MO=T+'algorithms/monitor.go'; PV='tree/prefix/verify.go'; LV='tree/log/verify.go'
v('simp.for',(CC,'''	for {
		modified := false

		for pos''','''	for modified := true; modified; {
		modified = false

		for pos'''),(CC,'''
		if !modified {
			return
		}
	}
}''','''	}
}'''))
v('simp.helper',(CC,'''			path := math.RightDirectPath(pos, n)
			if len(path) == 0 {
				continue
			} else if parent, ok := ptrs[path[0]]; !ok || parent < ver {
				continue
			}
			delete(ptrs, pos)
			modified = true
''','''			if redundantPtr(ptrs, pos, ver, n) {
				delete(ptrs, pos)
				modified = true
			}
'''),(CC,'''// simplifyMonitoringMap removes''','''func redundantPtr(ptrs map[uint64]uint32, pos uint64, ver uint32, n uint64) bool {
	path := math.RightDirectPath(pos, n)
	if len(path) == 0 {
		return false
	}
	parent, ok := ptrs[path[0]]
	return ok && parent >= ver
}

// simplifyMonitoringMap removes'''))
v('ucs.first',(CC,'''	path := append([]uint64{x}, math.RightDirectPath(x, n)...)
	for _, pos := range path {
		posVer, ok := contact.Ptrs[pos]
		if ok && posVer > ver {
			break
		}
		contact.Ptrs[pos] = ver
		x = pos
	}
''','''	path := append([]uint64{x}, math.RightDirectPath(x, n)...)
	for i := 0; i < len(path); i++ {
		pos := path[i]
		if posVer, ok := contact.Ptrs[pos]; !ok || posVer <= ver {
			contact.Ptrs[pos] = ver
			x = pos
			continue
		}
		break
	}
'''))
v('ucs.cand',(CC,'''	path := append([]uint64{x}, math.RightDirectPath(x, n)...)
	for _, pos := range path {
		posVer, ok := contact.Ptrs[pos]
		if ok && posVer > ver {
			break
		}
		contact.Ptrs[pos] = ver
		x = pos
	}
''','''	candidates := make([]uint64, 0)
	candidates = append(candidates, x)
	candidates = append(candidates, math.RightDirectPath(x, n)...)
	last := x
	for _, pos := range candidates {
		if posVer, ok := contact.Ptrs[pos]; ok && posVer > ver {
			break
		}
		last = pos
		contact.Ptrs[pos] = ver
	}
	x = last
'''))
v('retain.helper',(CC,'''	required := make(map[uint32]struct{})

	for _, entry := range state.Contact {''','''	required := requiredVersions(state)

	// Build the slice of RetainedVersion structures that will be stored.
	retained := make([]structs.RetainedVersion, 0, len(required))
	for ver := range required {
		entry, ok := handle.GetVersion(ver)
		if !ok {
			return errors.New("required version not found")
		}
		retained = append(retained, structs.RetainedVersion{
			Version:    ver,
			VrfOutput:  entry.VrfOutput,
			Commitment: entry.Commitment,
		})
	}
	state.Versions = retained

	return nil
}

func requiredVersions(state *structs.ClientLabelState) map[uint32]struct{} {
	required := make(map[uint32]struct{})

	for _, entry := range state.Contact {'''),(CC,'''	// Build the slice of RetainedVersion structures that will be stored.
	retained := make([]structs.RetainedVersion, 0, len(required))
	for ver, _ := range required {
		entry, ok := handle.GetVersion(ver)
		if !ok {
			return errors.New("required version not found")
		}
		retained = append(retained, structs.RetainedVersion{
			Version:    ver,
			VrfOutput:  entry.VrfOutput,
			Commitment: entry.Commitment,
		})
	}
	state.Versions = retained

	return nil
}
''','''	return required
}
'''))
v('vth.split',(CC,'''	ok := v.config.SignatureKey.Verify(tbs, v.fth.TreeHead.Signature)
	if !ok {
		return errors.New("failed to verify tree head signature")
	}
''','''	if !v.config.SignatureKey.Verify(tbs, v.fth.TreeHead.Signature) {
		return errors.New("failed to verify tree head signature")
	}
	return v.verifyAuditorTreeHead(rootP)
}

func (v *verifier) verifyAuditorTreeHead(rootP []byte) error {
'''),(CC,'''	tbs, err = structs.Marshal(&structs.AuditorTreeHeadTBS{''','''	tbs, err := structs.Marshal(&structs.AuditorTreeHeadTBS{'''),(CC,'''	ok = v.config.AuditorPublicKey.Verify(tbs, auditorTreeHead.Signature)
	if !ok {''','''	if !v.config.AuditorPublicKey.Verify(tbs, auditorTreeHead.Signature) {'''))
v('vth.switch',(CC,'''	if auditorTreeHead.Timestamp > rightmost {
		return errors.New("auditor timestamp is greater than rightmost log entry timestamp")
	} else if rightmost-auditorTreeHead.Timestamp > v.config.MaxAuditorLag {
		return errors.New("auditor timestamp is too far behind rightmost log entry timestamp")
	} else if auditorTreeHead.TreeSize > v.n {
		return errors.New("auditor tree size is greater than transparency log tree size")
	}
''','''	switch {
	case auditorTreeHead.TreeSize > v.n:
		return errors.New("auditor tree size is greater than transparency log tree size")
	case rightmost < auditorTreeHead.Timestamp:
		return errors.New("auditor timestamp is greater than rightmost log entry timestamp")
	case v.config.MaxAuditorLag < rightmost-auditorTreeHead.Timestamp:
		return errors.New("auditor timestamp is too far behind rightmost log entry timestamp")
	}
'''))
v('vth.mode',(CC,'''	if v.config.Mode != structs.ThirdPartyAuditing {
		if v.fth.AuditorTreeHead != nil {
			return errors.New("auditor tree head provided when not expected")
		}
		return nil
	} else if v.fth.AuditorTreeHead == nil {
		return errors.New("auditor tree head not provided when expected")
	}
''','''	required := v.config.Mode == structs.ThirdPartyAuditing
	if present := v.fth.AuditorTreeHead != nil; present != required {
		return errors.New("auditor tree head presence does not match configuration")
	} else if !required {
		return nil
	}
'''))
v('finish.helper',(CC,'''	root, err := log.Root(v.config.Suite, v.n, result.FullSubtrees)
	if err != nil {
		return nil, err
	}

	var rootP []byte
	if v.nP != nil {
		rootP, err = log.Root(v.config.Suite, *v.nP, result.Additional)
		if err != nil {
			return nil, err
		}
	}
''','''	root, rootP, err := v.roots(result.FullSubtrees, result.Additional)
	if err != nil {
		return nil, err
	}
'''),(CC,'''// finish computes the final''','''func (v *verifier) roots(full, additional [][]byte) ([]byte, []byte, error) {
	root, err := log.Root(v.config.Suite, v.n, full)
	if err != nil {
		return nil, nil, err
	}
	if v.nP == nil {
		return root, nil, nil
	}
	rootP, err := log.Root(v.config.Suite, *v.nP, additional)
	if err != nil {
		return nil, nil, err
	}
	return root, rootP, nil
}

// finish computes the final'''))
v('finish.state',(CC,'''	updated := &structs.ClientState{
		AuditorTreeHead: v.fth.AuditorTreeHead,
		FullSubtrees:    result.FullSubtrees,
		LogEntries:      result.LogEntries,
	}
	if v.fth.TreeHead != nil {
		updated.TreeHead = *v.fth.TreeHead
	} else {
		updated.TreeHead = v.state.TreeHead
		updated.AuditorTreeHead = v.state.AuditorTreeHead
	}
	return updated, nil''','''	if v.fth.TreeHead == nil {
		return &structs.ClientState{
			TreeHead:        v.state.TreeHead,
			AuditorTreeHead: v.state.AuditorTreeHead,
			FullSubtrees:    result.FullSubtrees,
			LogEntries:      result.LogEntries,
		}, nil
	}
	updated := new(structs.ClientState)
	updated.TreeHead = *v.fth.TreeHead
	updated.AuditorTreeHead = v.fth.AuditorTreeHead
	updated.FullSubtrees, updated.LogEntries = result.FullSubtrees, result.LogEntries
	return updated, nil'''))
v('ladder.helper',(CC,'''		input, err := structs.Marshal(&structs.VrfInput{Label: label, Version: ver})
		if err != nil {
			return err
		}
		vrfOutput, err := v.config.VrfKey.Verify(input, ladder[i].Proof)
		if err != nil {
			return err
		}

		commitment, ok := manual[ver]
		if ok && ladder[i].Commitment != nil {
			return errors.New("commitment provided when not expected")
		} else if !ok {
			commitment = ladder[i].Commitment
		}

		if err := v.handle.AddVersion(ver, vrfOutput, commitment); err != nil {
			return err
		}
	}

	return nil
}
''','''		if err := v.processStep(label, ver, ladder[i], manual); err != nil {
			return err
		}
	}

	return nil
}

func (v *verifier) processStep(label []byte, ver uint32, step structs.BinaryLadderStep, manual map[uint32][]byte) error {
	commitment := step.Commitment
	if known, ok := manual[ver]; ok {
		if commitment != nil {
			return errors.New("commitment provided when not expected")
		}
		commitment = known
	}

	input, err := structs.Marshal(&structs.VrfInput{Label: label, Version: ver})
	if err != nil {
		return err
	}
	vrfOutput, err := v.config.VrfKey.Verify(input, step.Proof)
	if err != nil {
		return err
	}
	return v.handle.AddVersion(ver, vrfOutput, commitment)
}
'''))
v('ladder.step',(CC,'''	for i, ver := range vers {
		input, err''','''	for i, step := range ladder {
		ver := vers[i]
		input, err'''),(CC,'Verify(input, ladder[i].Proof)','Verify(input, step.Proof)'),(CC,'''		if ok && ladder[i].Commitment != nil {
			return errors.New("commitment provided when not expected")
		} else if !ok {
			commitment = ladder[i].Commitment
		}
''','''		if !ok {
			commitment = step.Commitment
		} else if step.Commitment != nil {
			return errors.New("commitment provided when not expected")
		}
'''))
v('search.target',(C,'''		var target uint32
		if req.Version != nil {
			target = *req.Version
		} else if res.Version != nil {
			target = *res.Version
		} else {
			// This will never happen if the SearchResponse was properly
			// decoded, but it might not have been.
			return errors.New("unexpected error occurred")
		}
''','''		version := req.Version
		if version == nil {
			version = res.Version
		}
		if version == nil {
			return errors.New("unexpected error occurred")
		}
		target := *version
'''))
v('search.split',(C,'''		// Updating label-specific state is necessary.
		labelState, err := c.getLabelState(req.Label)
		if err != nil {
			return err
		} else if err := v.addLabelState(labelState); err != nil {
			return err
		}
		terminal, err = updateContactState(labelState, terminal, v.n, target)
		if err != nil {
			return err
		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
			return err
		}
		return c.putLabelState(updated, req.Label, labelState, terminal)
	}
}
''','''		return c.recordSearch(v, updated, req.Label, terminal, target)
	}
}

func (c *Client) recordSearch(v *verifier, updated *structs.ClientState, label []byte, terminal uint64, target uint32) error {
	// Updating label-specific state is necessary.
	labelState, err := c.getLabelState(label)
	if err != nil {
		return err
	}
	if err := v.addLabelState(labelState); err != nil {
		return err
	}
	terminal, err = updateContactState(labelState, terminal, v.n, target)
	if err != nil {
		return err
	}
	if err := updateRetainedVersions(labelState, v.handle); err != nil {
		return err
	}
	return c.putLabelState(updated, label, labelState, terminal)
}
'''))
v('search.cond',(C,'''		if c.config.Mode != structs.ContactMonitoring {
			return c.putState(updated)
		}
		rightmostDLE, err := v.rightmostDistinguished()
		if err != nil {
			return err
		} else if rightmostDLE != nil && terminal <= *rightmostDLE {
			return c.putState(updated)
		}
''','''		monitored := c.config.Mode == structs.ContactMonitoring
		if monitored {
			rightmostDLE, err := v.rightmostDistinguished()
			if err != nil {
				return err
			}
			monitored = rightmostDLE == nil || *rightmostDLE < terminal
		}
		if !monitored {
			return c.putState(updated)
		}
'''))
v('search.order',(C,'''		// If a Third-Party Manager is being used, verify `value`.
		err = verifyUpdateValue(c.config, req.Label, target, res.Value)
		if err != nil {
			return err
		}

		// Verify that the expected number of entries is present in
		// `binary_ladder` and compute the VRF output for each version.
		ladder := math.SearchBinaryLadder(target, target, nil, nil)
		commitment, err := computeCommitment(c.config, res.Opening, req.Label, target, res.Value)
		if err != nil {
			return err
		}
		err = v.processLadder(req.Label, res.BinaryLadder, ladder, map[uint32][]byte{
			target: commitment,
		})
		if err != nil {
			return err
		}
''','''		commitment, err := computeCommitment(c.config, res.Opening, req.Label, target, res.Value)
		if err != nil {
			return err
		}
		known := make(map[uint32][]byte, 1)
		known[target] = commitment
		ladder := math.SearchBinaryLadder(target, target, nil, nil)
		if err := v.processLadder(req.Label, res.BinaryLadder, ladder, known); err != nil {
			return err
		}
		if err := verifyUpdateValue(c.config, req.Label, target, res.Value); err != nil {
			return err
		}
'''))
v('oi.contains',(C,'''		greatestVersions := make(map[uint32]struct{})
		for _, ver := range res.GreatestVersions {
			greatestVersions[ver] = struct{}{}
		}
		for i, ver := range ladder {
			_, ok := greatestVersions[ver]
			if ok && res.BinaryLadder[i].Commitment == nil {
				return errors.New("commitment not provided when expected")
			}
		}
''','''		for i, step := range res.BinaryLadder {
			if step.Commitment == nil && slices.Contains(res.GreatestVersions, ladder[i]) {
				return errors.New("commitment not provided when expected")
			}
		}
'''),(C,'''	"errors"
''','''	"errors"
	"slices"
'''))
v('mon.switch',(C,'''	if labelState.Owner == nil {
		req := &structs.ContactMonitorRequest{
			Last: getLast(state),

			Label:   label,
			Entries: labelState.Contact,
		}
		return req, c.contactMonitor(state, labelState, req), nil
	}
	req := &structs''','''	last, entries := getLast(state), labelState.Contact
	owner := labelState.Owner
	if owner == nil {
		req := &structs.ContactMonitorRequest{Last: last, Label: label, Entries: entries}
		return req, c.contactMonitor(state, labelState, req), nil
	}
	req := &structs'''),(C,'''		Last: getLast(state),

		Label:           label,
		Entries:         labelState.Contact,
		Start:           labelState.Owner.Starting,
		GreatestVersion: greatestVersion(labelState.Owner),''','''		Last:            last,
		Label:           label,
		Entries:         entries,
		Start:           owner.Starting,
		GreatestVersion: greatestVersion(owner),'''))
v('mon.prep',(C,'''		v, err := newVerifier(c.config, state, req.Last, res.FullTreeHead, res.Monitor)
		if err != nil {
			return err
		} else if err := v.addLabelState(labelState); err != nil {
			return err
		} else if err := v.updateView(); err != nil {
			return err
		}
		monitor, err := v.monitor()
		if err != nil {
			return err
		}
		monitor.Contact = algorithms.NewContactState(labelState.Contact)
		monitor.Owner =''','''		v, monitor, err := c.startMonitor(state, labelState, req.Last, res.FullTreeHead, res.Monitor)
		if err != nil {
			return err
		}
		monitor.Owner ='''),(C,'''		v, err := newVerifier(c.config, state, req.Last, res.FullTreeHead, res.Monitor)
		if err != nil {
			return err
		} else if err := v.addLabelState(labelState); err != nil {
			return err
		} else if err := v.updateView(); err != nil {
			return err
		}
		monitor, err := v.monitor()
		if err != nil {
			return err
		}
		monitor.Contact = algorithms.NewContactState(labelState.Contact)
		if err :=''','''		v, monitor, err := c.startMonitor(state, labelState, req.Last, res.FullTreeHead, res.Monitor)
		if err != nil {
			return err
		}
		if err :='''),(C,'''func (c *Client) contactMonitor(''','''func (c *Client) startMonitor(
	state *structs.ClientState,
	labelState *structs.ClientLabelState,
	last *uint64,
	fth structs.FullTreeHead,
	proof structs.CombinedTreeProof,
) (*verifier, *algorithms.Monitor, error) {
	v, err := newVerifier(c.config, state, last, fth, proof)
	if err != nil {
		return nil, nil, err
	}
	if err := v.addLabelState(labelState); err != nil {
		return nil, nil, err
	}
	if err := v.updateView(); err != nil {
		return nil, nil, err
	}
	monitor, err := v.monitor()
	if err != nil {
		return nil, nil, err
	}
	monitor.Contact = algorithms.NewContactState(labelState.Contact)
	return v, monitor, nil
}

func (c *Client) contactMonitor('''))
v('mon.terminal',(C,'''		// Update the global and label-specific state.
		labelState.Contact = monitor.Contact.Struct()
		if err := updateRetainedVersions(labelState, v.handle); err != nil {
			return err
		}

		terminal, err := v.rightmostDistinguished()
		if err != nil {
			return err
		} else if terminal == nil {
			return errors.New("unable to compute rightmost distinguished log entry")
		}
''','''		terminal, err := v.rightmostDistinguished()
		if err != nil {
			return err
		} else if terminal == nil {
			return errors.New("unable to compute rightmost distinguished log entry")
		}

		// Update the global and label-specific state.
		labelState.Contact = monitor.Contact.Struct()
		if err := updateRetainedVersions(labelState, v.handle); err != nil {
			return err
		}
'''))
v('verify.values',(C,'''	if len(res.Values) == 0 {
		startVer, commitments, err = sv.verifyValues(sv.req.Values, res)
	} else {
		startVer, commitments, err = sv.verifyValues(res.Values, res)
	}
	if err''','''	values := sv.req.Values
	if len(res.Values) > 0 {
		values = res.Values
	}
	startVer, commitments, err = sv.verifyValues(values, res)
	if err'''))
v('verify.vals2',(C,'''	for i, val := range values {
		ver := startVer + uint32(i)
		info := res.Info[i]
		update :=''','''	ver := startVer
	for i := range res.Info {
		val, info := values[i], res.Info[i]
		update :='''),(C,'''		commitments[ver] = commitment
	}''','''		commitments[ver] = commitment
		ver++
	}'''))
v('verify.check',(C,'''	for i, ver := range ladder {
		if ver >= startVer && res.BinaryLadder[i].Commitment != nil {
			return errors.New("commitment provided when not expected")
		}
	}
''','''	for i, step := range res.BinaryLadder {
		if step.Commitment == nil {
			continue
		}
		if !(ladder[i] < startVer) {
			return errors.New("commitment provided when not expected")
		}
	}
'''))
v('put.raw',(C,'''	var rawLabel []byte
	if len(updatedLabel.Contact) > 0 || updatedLabel.Owner != nil {
		rawLabel, err = structs.Marshal(updatedLabel)
		if err != nil {
			return err
		}
	}
	return c.tx.''','''	if updatedLabel.Owner == nil && len(updatedLabel.Contact) == 0 {
		return c.tx.PutLabelState(raw, label, nil, terminal)
	}
	rawLabel, err := structs.Marshal(updatedLabel)
	if err != nil {
		return err
	}
	return c.tx.'''))
# auditor
v('aud.sorted',(AU,'''	for i := 1; i < len(update.Added); i++ {
		if compareEntry(update.Added[i-1], update.Added[i]) != -1 {
			return errors.New("list of added prefix tree entries is invalid")
		}
	}
	for i := 1; i < len(update.Removed); i++ {
		if compareEntry(update.Removed[i-1], update.Removed[i]) != -1 {
			return errors.New("list of removed prefix tree entries is invalid")
		}
	}
''','''	if !strictlySorted(update.Added) {
		return errors.New("list of added prefix tree entries is invalid")
	} else if !strictlySorted(update.Removed) {
		return errors.New("list of removed prefix tree entries is invalid")
	}
'''),(AU,'''// Process takes an''','''func strictlySorted(entries []prefix.Entry) bool {
	for i := range entries {
		if i > 0 && compareEntry(entries[i-1], entries[i]) >= 0 {
			return false
		}
	}
	return true
}

// Process takes an'''))
v('aud.found',(AU,'''		found := false
		for _, removed := range update.Removed {
			if bytes.Equal(entry.VrfOutput, removed.VrfOutput) {
				found = true
				break
			}
		}
		if !found {
''','''		found := slices.ContainsFunc(update.Removed, func(removed prefix.Entry) bool {
			return bytes.Equal(entry.VrfOutput, removed.VrfOutput)
		})
		if !found {
'''),(AU,'''	"errors"
''','''	"errors"
	"slices"
'''))
v('aud.incl',(AU,'''	for i := range update.Removed {
		res := update.Proof.Results[len(update.Added)+i]
		if !res.Inclusion() {''','''	for _, res := range update.Proof.Results[len(update.Added):] {
		if !res.Inclusion() {'''))
v('aud.split',(AU,'''	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
	if err != nil {
		return err
	} else if !bytes.Equal(before, expected) {
		return errors.New("prefix tree root does not match expected")
	}
''','''	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
	if err != nil {
		return err
	}
	if !bytes.Equal(expected, before) {
		return errors.New("prefix tree root does not match expected")
	}
'''))
v('aud.elig',(AU,'''	} else if prevDLE == nil && len(update.Removed) > 0 {
		return errors.New("prefix tree leaf is not eligible for removal")
	}
	for _, entry := range update.Removed {
		if a.state.addedSince(*prevDLE, entry.VrfOutput) {
			return''','''	}
	for _, entry := range update.Removed {
		if prevDLE == nil || a.state.addedSince(*prevDLE, entry.VrfOutput) {
			return'''))
v('aud.ts',(AU,'''	timestamps := make([]uint64, 0)
	for _, x := range math.Frontier(n + 1) {
		timestamp, err := provider.GetTimestamp(x)
		if err != nil {
			return err
		}
		timestamps = append(timestamps, timestamp)
	}
''','''	frontier := math.Frontier(n + 1)
	timestamps := make([]uint64, len(frontier))
	for i, x := range frontier {
		timestamps[i], err = provider.GetTimestamp(x)
		if err != nil {
			return err
		}
	}
'''))
v('aud.commit',(AU,'''	signed := *a.state
	signed.TreeHead.Signature = signature
	raw, err := signed.Marshal()
	if err != nil {
		return nil, err
	} else if err := a.tx.PutState(raw); err != nil {
		return nil, err
	}
	a.state = &signed

	return &a.state.TreeHead, nil''','''	signed := &AuditorState{
		TreeHead: structs.AuditorTreeHead{
			Timestamp: a.state.TreeHead.Timestamp,
			TreeSize:  a.state.TreeHead.TreeSize,
			Signature: signature,
		},
		FullSubtrees: a.state.FullSubtrees,
		Timestamps:   a.state.Timestamps,
		PrefixTree:   a.state.PrefixTree,
		Inserted:     a.state.Inserted,
	}
	raw, err := signed.Marshal()
	if err != nil {
		return nil, err
	}
	if err := a.tx.PutState(raw); err != nil {
		return nil, err
	}
	a.state = signed
	return &signed.TreeHead, nil'''))
# mutate
v('mut.validate',(MU,'''	if !mut.remove || len(mut.index) == 0 {
		return nil
	}
	// The label is not eligible for deletion if it has been modified since the
	// last distinguished log entry was created.
	if prevDLE == nil || mut.index[len(mut.index)-1] > *prevDLE {
		return fmt.Errorf("unable to delete label that was modified recently: %s", mut.label)
	}
	return nil''','''	if n := len(mut.index); mut.remove && n > 0 {
		if prevDLE == nil || *prevDLE < mut.index[n-1] {
			return fmt.Errorf("unable to delete label that was modified recently: %s", mut.label)
		}
	}
	return nil'''))
v('mut.split',(MU,'''	if mut.remove && len(index) > 0 {
		// Delete the label's index.
		if err := t.tx.DeleteIndex(label); err != nil {
			return nil, nil, err
		}

		// Delete the value and VRF output of each version.
		for ver := range index {
			if err := t.tx.DeleteVersion(label, uint32(ver)); err != nil {
				return nil, nil, err
			}
			vrfOutput, _, err := t.computeVrfOutput(label, uint32(ver))
			if err != nil {
				return nil, nil, err
			}
			remove = append(remove, vrfOutput)
		}

		index = index[:0]
	}
''','''	if mut.remove && len(index) > 0 {
		removed, err := t.removeLabel(label, len(index))
		if err != nil {
			return nil, nil, err
		}
		remove, index = removed, nil
	}
'''),(MU,'''// mutateLabel performs''','''func (t *Tree) removeLabel(label []byte, versions int) ([][]byte, error) {
	if err := t.tx.DeleteIndex(label); err != nil {
		return nil, err
	}
	var out [][]byte
	for i := 0; i < versions; i++ {
		ver := uint32(i)
		vrfOutput, _, err := t.computeVrfOutput(label, ver)
		if err != nil {
			return nil, err
		}
		if err := t.tx.DeleteVersion(label, ver); err != nil {
			return nil, err
		}
		out = append(out, vrfOutput)
	}
	return out, nil
}

// mutateLabel performs'''))
v('mut.addver',(MU,'''	for _, pair := range mut.add {
		ver := uint32(len(index))

		vrfOutput, _, err := t.computeVrfOutput(pair.Label, ver)
		if err != nil {
			return nil, nil, err
		}
		commitment, err := t.putVersion(pair.Label, ver, pair.Value)
		if err != nil {
			return nil, nil, err
		}

		add =''','''	start := len(index)
	for i, pair := range mut.add {
		ver := uint32(start + i)

		commitment, err := t.putVersion(pair.Label, ver, pair.Value)
		if err != nil {
			return nil, nil, err
		}
		vrfOutput, _, err := t.computeVrfOutput(pair.Label, ver)
		if err != nil {
			return nil, nil, err
		}

		add ='''))
v('mut.put',(MU,'''	if len(mut.add) > 0 {
		if err := t.putIndex(mut.add[0].Label, index); err != nil {
			return nil, nil, err
		}
	}

	return add''','''	if len(mut.add) == 0 {
		return nil, remove, nil
	}
	if err := t.putIndex(label, index); err != nil {
		return nil, nil, err
	}
	return add'''))
v('mut.head',(MU,'''	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
		Config:   t.config.Public(),
		TreeSize: n + 1,
		Root:     root,
	})
	if err != nil {
		return err
	}
	signature, err := t.config.SignatureKey.Sign(tbs)
	if err != nil {
		return err
	}
	treeHead := &structs.TreeHead{TreeSize: n + 1, Signature: signature}
''','''	treeHead, err := t.signTreeHead(n+1, root)
	if err != nil {
		return err
	}
'''),(MU,'''// issueTreeHead takes''','''func (t *Tree) signTreeHead(size uint64, root []byte) (*structs.TreeHead, error) {
	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
		Config:   t.config.Public(),
		TreeSize: size,
		Root:     root,
	})
	if err != nil {
		return nil, err
	}
	signature, err := t.config.SignatureKey.Sign(tbs)
	if err != nil {
		return nil, err
	}
	return &structs.TreeHead{TreeSize: size, Signature: signature}, nil
}

// issueTreeHead takes'''))
v('mut.audit',(MU,'''	removedEntries := make([]prefix.Entry, len(prefixRemove))
	for i, vrfOutput := range prefixRemove {
		removedEntries[i] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitments[i]}
	}
''','''	removedEntries := make([]prefix.Entry, 0, len(commitments))
	for i, commitment := range commitments {
		removedEntries = append(removedEntries, prefix.Entry{
			VrfOutput:  prefixRemove[i],
			Commitment: commitment,
		})
	}
'''))
v('mut.group',(MU,'''	groupedRemoves := make(map[string]struct{})
	for _, label := range remove {
		labelStr := fmt.Sprintf("%x", label)
		allLabels[labelStr] = label
		groupedRemoves[labelStr] = struct{}{}
	}
''','''	groupedRemoves := make(map[string]bool)
	for _, label := range remove {
		labelStr := fmt.Sprintf("%x", label)
		allLabels[labelStr] = label
		groupedRemoves[labelStr] = true
	}
'''),(MU,'''		_, ok := groupedRemoves[labelStr]
		out[i]''','''		out[i]'''),(MU,'''			remove: ok,''','''			remove: groupedRemoves[labelStr],'''))
# search
v('gvs.start',(SE,'''	var x uint64
	if rightmostDLE != nil {
		x = *rightmostDLE
	} else {
		x = math.Root(n)
	}
''','''	x := math.Root(n)
	if rightmostDLE != nil {
		x = *rightmostDLE
	}
'''))
v('gvs.loop',(SE,'''	terminal, first := uint64(0), true
	for {
		res, err''','''	var terminal *uint64
	for {
		res, err'''),(SE,'''		if res == 0 && first {
			terminal = x
			first = false
		}
		if x != n-1 {
			x = math.Right(x, n)
			continue
		}
		if ver == 0''','''		if res == 0 && terminal == nil {
			pos := x
			terminal = &pos
		}
		if x != n-1 {
			x = math.Right(x, n)
			continue
		}
		if ver == 0'''),(SE,'''		return terminal, nil
	}''','''		return *terminal, nil
	}'''))
v('gvs.for',(SE,'''	terminal, first := uint64(0), true
	for {
		res, err := provider.GetSearchBinaryLadder(x, ver, true)
		if err != nil {
			return 0, err
		} else if res == 1 {
			return 0, errors.New("log entry not consistent with claimed greatest version of label")
		}
		if res == 0 && first {
			terminal = x
			first = false
		}
		if x != n-1 {
			x = math.Right(x, n)
			continue
		}
		if ver == 0 && res == -1 {
			return 0, ErrLabelNotFound
		} else if res != 0 {
			return 0, errors.New("rightmost log entry not consistent with claimed greatest version of label")
		}
		return terminal, nil
	}
''','''	terminal, found, last := uint64(0), false, 0
	for ; ; x = math.Right(x, n) {
		last, err = provider.GetSearchBinaryLadder(x, ver, true)
		if err != nil {
			return 0, err
		}
		switch {
		case last > 0:
			return 0, errors.New("log entry not consistent with claimed greatest version of label")
		case last == 0 && !found:
			terminal, found = x, true
		}
		if x == n-1 {
			break
		}
	}
	if last != 0 {
		if ver == 0 {
			return 0, ErrLabelNotFound
		}
		return 0, errors.New("rightmost log entry not consistent with claimed greatest version of label")
	}
	return terminal, nil
'''))
v('fvs.switch',(SE,'''		if res == -1 {
			if noRightChild(x, n) {
				return finish()
			}
			x, left = math.Right(x, n), timestamp
			continue
		}

		// If the binary ladder indicates a greatest version greater than the
		// target, then recurse to the left child.
		if res == 1 {
			if noLeftChild(x) {
				return finish()
			}
			x, right = math.Left(x), timestamp
			continue
		}
''','''		switch {
		case res < 0 && noRightChild(x, n), res > 0 && noLeftChild(x):
			return finish()
		case res < 0:
			x, left = math.Right(x, n), timestamp
			continue
		case res > 0:
			x, right = math.Left(x), timestamp
			continue
		}
'''))
v('fvs.any',(SE,'''			found := false
			for _, y := range distinguished {
				if y < terminalPos {
					found = true
					break
				}
			}
			if !found { // If so, return an error.
				return 0, ErrLabelExpired
			}
''','''			found := slices.ContainsFunc(distinguished, func(y uint64) bool { return y < terminalPos })
			if !found { // If so, return an error.
				return 0, ErrLabelExpired
			}
'''),(SE,'''		for _, y := range distinguished {
			if y <= x { // If so, terminate successfully.
				return x, nil
			}
		} // Otherwise, return an error that the target version is expired.
		return 0, ErrLabelExpired''','''		if slices.ContainsFunc(distinguished, func(y uint64) bool { return y <= x }) {
			return x, nil
		}
		return 0, ErrLabelExpired'''),(SE,'''	"errors"
''','''	"errors"
	"slices"
'''))
v('upd.helper',(UP,'''		if greatestVer < 0 {
			res, err := m.provider.GetSearchBinaryLadder(x, 0, true)
			if err != nil {
				return err
			} else if res != -1 {
				return errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		} else {
			res, err := m.provider.GetSearchBinaryLadder(x, uint32(greatestVer), true)
			if err != nil {
				return err
			} else if res != 0 {
				return errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		}
''','''		if err := m.expectVersion(x, greatestVer, true); err != nil {
			return err
		}
'''),(UP,'''func (m *Monitor) verifyPreviousTree''','''func (m *Monitor) expectVersion(x uint64, ver int, omit bool) error {
	target, want := uint32(0), -1
	if ver >= 0 {
		target, want = uint32(ver), 0
	}
	res, err := m.provider.GetSearchBinaryLadder(x, target, omit)
	if err != nil {
		return err
	} else if res != want {
		return errors.New("binary ladder inconsistent with expected greatest version of label")
	}
	return nil
}

func (m *Monitor) verifyPreviousTree'''),(MO,'''	if ver < 0 {
		res, err := m.provider.GetSearchBinaryLadder(x, 0, false)
		if err != nil {
			return err
		} else if res != -1 {
			return errors.New("binary ladder inconsistent with expected greatest version of label")
		}
	} else {
		res, err := m.provider.GetSearchBinaryLadder(x, uint32(ver), false)
		if err != nil {
			return err
		} else if res != 0 {
			return errors.New("binary ladder inconsistent with expected greatest version of label")
		}
	}
''','''	if err := m.expectVersion(x, ver, false); err != nil {
		return err
	}
'''),(MO,'''		if i < len(vers) {
			res, err := m.provider.GetSearchBinaryLadder(x, vers[i], false)
			if err != nil {
				return nil, err
			} else if res != 0 {
				return nil, errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		} else {
			res, err := m.provider.GetSearchBinaryLadder(x, 0, false)
			if err != nil {
				return nil, err
			} else if res != -1 {
				return nil, errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		}
''','''		expected := -1
		if i < len(vers) {
			expected = int(vers[i])
		}
		if err := m.expectVersion(x, expected, false); err != nil {
			return nil, err
		}
'''))
v('upd.goto',(UP,'''		if x <= lastUpdate {
			goto MoveRight
		}

''',''''''),(UP,'''		if greatestVer < 0 {
			res, err := m.provider''','''		if x <= lastUpdate {
			// Already received.
		} else if greatestVer < 0 {
			res, err := m.provider'''),(UP,'''	MoveRight:
''',''))
v('upd.incl',(UP,'''	if res == nil { // The log entry is distinguished.
		// Obtain a PrefixProof with lookups corresponding only to new versions
		// of the label that would not be looked up in a search binary ladder
		// for the new greatest version.
		if err := m.provider.GetInclusionProof(pos, additional); err != nil {
			return err
		}
	} else { // The''','''	distinguished := res == nil
	if !distinguished { // The'''),(UP,'''		if err := m.provider.GetInclusionProof(pos, additional); err != nil {
			return err
		}

		// Add the new version''','''	}
	if err := m.provider.GetInclusionProof(pos, additional); err != nil {
		return err
	}
	if !distinguished {
		// Add the new version'''))
v('upd.append',(UP,'''	for range versions {
		m.Owner.UpcomingVers = append(m.Owner.UpcomingVers, pos)
	}''','''	for i := 0; i < versions; i++ {
		m.Owner.UpcomingVers = append(m.Owner.UpcomingVers, pos)
	}'''))
v('upd.nda',(UP,'''	for {
		if !m.config.IsDistinguished(left, right) {
			return &x, nil
		} else if x == target {
			return nil, nil
		}
''','''	for m.config.IsDistinguished(left, right) {
		if x == target {
			return nil, nil
		}
'''),(UP,'''			x = math.Left(x)
			right = timestamp
		}
	}
}''','''			x = math.Left(x)
			right = timestamp
		}
	}
	return &x, nil
}'''))
v('cm.helper',(MO,'''	var inspect []uint64
	for _, parent := range math.RightDirectPath(x, m.treeSize) {
		inspect = append(inspect, parent)
		if stop != nil && *stop == parent {
			// If the Contact Monitoring operation is being executed in the
			// context of an Owner Monitoring operation, and the given log entry
			// is equal to or to the right of the owner's `start` position, skip
			// inspecting the final distinguished log entry.
			if m.Owner != nil && x >= m.Owner.Starting {
				inspect = inspect[:len(inspect)-1]
			}
			break
		}
	}
''','''	inspect := math.RightDirectPath(x, m.treeSize)
	if stop != nil {
		if i := slices.Index(inspect, *stop); i >= 0 {
			if m.Owner != nil && x >= m.Owner.Starting {
				inspect = inspect[:i]
			} else {
				inspect = inspect[:i+1]
			}
		}
	}
'''))
v('cm.skip',(MO,'''		inspect = append(inspect, parent)
		if stop != nil && *stop == parent {
			// If the Contact Monitoring operation is being executed in the
			// context of an Owner Monitoring operation, and the given log entry
			// is equal to or to the right of the owner's `start` position, skip
			// inspecting the final distinguished log entry.
			if m.Owner != nil && x >= m.Owner.Starting {
				inspect = inspect[:len(inspect)-1]
			}
			break
		}
''','''		last := stop != nil && *stop == parent
		skip := last && m.Owner != nil && x >= m.Owner.Starting
		if !skip {
			inspect = append(inspect, parent)
		}
		if last {
			break
		}
'''))
v('cm.loop',(MO,'''		if previousVer, ok := previous[y]; ok {
			if previousVer <= ver {
				return nil, errors.New("monitoring detected versions that are not monotonic")
			}
			return nil, nil
		}
''','''		previousVer, ok := previous[y]
		if ok && previousVer <= ver {
			return nil, errors.New("monitoring detected versions that are not monotonic")
		} else if ok {
			return nil, nil
		}
'''),(MO,'''	if stop != nil { // We reached a distinguished log entry.
		return nil, nil
	} else if len(inspect) > 0 { // We moved forward without reaching a DLE.
		return &inspect[len(inspect)-1], nil
	}
	return &x, nil
}''','''	if stop != nil {
		return nil, nil
	}
	last := x
	if n := len(inspect); n > 0 {
		last = inspect[n-1]
	}
	return &last, nil
}'''))
v('cmon.keys',(MO,'''	logEntries := make([]uint64, 0, len(m.Contact.Ptrs))
	for x := range m.Contact.Ptrs {
		logEntries = append(logEntries, x)
	}
	slices.Sort(logEntries)
	slices.Reverse(logEntries)
''','''	logEntries := slices.Sorted(maps.Keys(m.Contact.Ptrs))
	slices.Reverse(logEntries)
'''),(MO,'''	"errors"
''','''	"errors"
	"maps"
'''))
v('cmon.desc',(MO,'''	slices.Sort(logEntries)
	slices.Reverse(logEntries)
''','''	slices.SortFunc(logEntries, func(a, b uint64) int { return cmp.Compare(b, a) })
'''),(MO,'''	"errors"
''','''	"cmp"
	"errors"
'''))
v('cmon.rev',(MO,'''	slices.Sort(logEntries)
	slices.Reverse(logEntries)
''','''	slices.Sort(logEntries)
'''),(MO,'''	for _, x := range logEntries {
		ver := m.Contact.Ptrs[x]
''','''	for i := len(logEntries) - 1; i >= 0; i-- {
		x := logEntries[i]
		ver := m.Contact.Ptrs[x]
'''))
v('cmon.ret',(MO,'''	if len(ptrs) == 0 {
		m.Contact = nil
	} else {
		m.Contact = &ContactState{Ptrs: ptrs}
	}
	return nil''','''	m.Contact = nil
	if len(ptrs) > 0 {
		m.Contact = &ContactState{ptrs}
	}
	return nil'''))
v('oi.mono',(MO,'''	for i := 1; i < len(vers); i++ {
		if vers[i] > vers[i-1] {''','''	for i := range vers {
		if i > 0 && vers[i-1] < vers[i] {'''))
v('oi.two',(MO,'''	for i, x := range xs {
		if i < len(vers) {
			res, err := m.provider.GetSearchBinaryLadder(x, vers[i], false)
			if err != nil {
				return nil, err
			} else if res != 0 {
				return nil, errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		} else {
			res, err := m.provider.GetSearchBinaryLadder(x, 0, false)
			if err != nil {
				return nil, err
			} else if res != -1 {
				return nil, errors.New("binary ladder inconsistent with expected greatest version of label")
			}
		}
	}
''','''	for i, ver := range vers {
		res, err := m.provider.GetSearchBinaryLadder(xs[i], ver, false)
		if err != nil {
			return nil, err
		} else if res != 0 {
			return nil, errors.New("binary ladder inconsistent with expected greatest version of label")
		}
	}
	for _, x := range xs[len(vers):] {
		res, err := m.provider.GetSearchBinaryLadder(x, 0, false)
		if err != nil {
			return nil, err
		} else if res != -1 {
			return nil, errors.New("binary ladder inconsistent with expected greatest version of label")
		}
	}
'''))
v('om.clone',(MO,'''	original := m.Owner
	m.Owner = original.Clone()

	err := m.ownerMonitor(math.Root(m.treeSize), 0, m.rightmost)
	if err == nil {
		*original = *m.Owner
	}

	m.Owner = original
	return err''','''	original := m.Owner
	saved := original.Clone()
	err := m.ownerMonitor(math.Root(m.treeSize), 0, m.rightmost)
	if err != nil {
		*original = *saved
	}
	return err'''))
v('om.ts',(MO,'''	if x <= m.Owner.Starting {
		if noRightChild(x, m.treeSize) {
			return nil
		}
		timestamp, err := m.provider.GetTimestamp(x)
		if err != nil {
			return err
		}
		return m.ownerMonitor(math.Right(x, m.treeSize), timestamp, right)
	}
''','''	if x <= m.Owner.Starting {
		return m.ownerMonitorRight(x, right)
	}
'''),(MO,'''	m.Owner.SetStarting(x)

	// If the current log entry has a right child, recurse to the right child.
	if noRightChild(x, m.treeSize) {
		return nil
	}
	timestamp, err := m.provider.GetTimestamp(x)
	if err != nil {
		return err
	}
	return m.ownerMonitor(math.Right(x, m.treeSize), timestamp, right)
}''','''	m.Owner.SetStarting(x)
	return m.ownerMonitorRight(x, right)
}

func (m *Monitor) ownerMonitorRight(x, right uint64) error {
	if noRightChild(x, m.treeSize) {
		return nil
	}
	timestamp, err := m.provider.GetTimestamp(x)
	if err != nil {
		return err
	}
	return m.ownerMonitor(math.Right(x, m.treeSize), timestamp, right)
}'''))
# log / prefix verify
v('lv.recv',(LV,'''	left, right := math.Left(x), math.Right(x, n)

	if err := v.evaluate(left, n, nodes, sorted[:i]); err != nil {
		return err
	} else if err := v.evaluate(right, n, nodes, sorted[j:]); err != nil {
		return err
	}

	if math.IsFullSubtree(x, n) {
		intermediate := treeHash(v.cs, nodes[left], nodes[right])
		if err := v.addToMap(nodes, x, intermediate.value); err != nil {
			return err
		}
	}
	return nil''','''	left, right := math.Left(x), math.Right(x, n)
	if err := v.evaluate(left, n, nodes, sorted[:i]); err != nil {
		return err
	}
	if err := v.evaluate(right, n, nodes, sorted[j:]); err != nil {
		return err
	}
	if !math.IsFullSubtree(x, n) {
		return nil
	}
	return v.addToMap(nodes, x, treeHash(v.cs, nodes[left], nodes[right]).value)'''))
v('lv.add',(LV,'''	} else if expected, ok := m[x]; ok && !bytes.Equal(val, expected.value) {
		return errors.New("different values presented for same node index")
	} else if !ok {
		m[x] = &nodeData{leaf: math.IsLeaf(x), value: val}
	}
	return nil''','''	}
	existing, ok := m[x]
	if !ok {
		m[x] = &nodeData{leaf: math.IsLeaf(x), value: val}
		return nil
	}
	if !bytes.Equal(existing.value, val) {
		return errors.New("different values presented for same node index")
	}
	return nil'''))
v('lv.nodes',(LV,'''	nodes := make(map[uint64]*nodeData)
	for i, x := range entries {
		if err := v.addToMap(nodes, 2*x, values[i]); err != nil {
			return nil, nil, err
		}
	}
	for i, x := range v.subtrees {
		if err := v.addToMap(nodes, x, v.values[i]); err != nil {
			return nil, nil, err
		}
	}
	for i, x := range copath {
		if err := v.addToMap(nodes, x, proof[i]); err != nil {
			return nil, nil, err
		}
	}
''','''	leaves := make([]uint64, len(entries))
	for i, x := range entries {
		leaves[i] = 2 * x
	}
	nodes := make(map[uint64]*nodeData)
	addAll := func(xs []uint64, vals [][]byte) error {
		for i, x := range xs {
			if err := v.addToMap(nodes, x, vals[i]); err != nil {
				return err
			}
		}
		return nil
	}
	if err := addAll(leaves, values); err != nil {
		return nil, nil, err
	} else if err := addAll(v.subtrees, v.values); err != nil {
		return nil, nil, err
	} else if err := addAll(copath, proof); err != nil {
		return nil, nil, err
	}
'''))
v('lv.sorted',(LV,'''	sorted := make([]uint64, 0)
	for x := range nodes {
		sorted = append(sorted, x)
	}
	slices.Sort(sorted)
''','''	sorted := slices.Sorted(maps.Keys(nodes))
'''),(LV,'''	"errors"
''','''	"errors"
	"maps"
'''))
v('lv.values',(LV,'''	var fullSubtrees [][]byte
	for _, x := range math.FullSubtrees(math.Root(n), n) {
		fullSubtrees = append(fullSubtrees, nodes[x].value)
	}
	var additional [][]byte
	if nP != nil {
		for _, x := range math.FullSubtrees(math.Root(*nP), *nP) {
			additional = append(additional, nodes[x].value)
		}
	}
	return fullSubtrees, additional, nil
}''','''	fullSubtrees := subtreeValues(nodes, n)
	if nP == nil {
		return fullSubtrees, nil, nil
	}
	return fullSubtrees, subtreeValues(nodes, *nP), nil
}

func subtreeValues(nodes map[uint64]*nodeData, n uint64) [][]byte {
	var out [][]byte
	for _, x := range math.FullSubtrees(math.Root(n), n) {
		out = append(out, nodes[x].value)
	}
	return out
}'''))
v('pv.term',(PV,'''		for i := range res.depth {
			if getBit(entry.VrfOutput, i) != getBit(res.leaf.vrfOutput, i) {
				return nil, errors.New("malformed proof")
			}
		}
		return res.leaf, nil''','''		if !sharesPrefix(entry.VrfOutput, res.leaf.vrfOutput, res.depth) {
			return nil, errors.New("malformed proof")
		}
		return res.leaf, nil'''),(PV,'''// terminalNode returns''','''func sharesPrefix(a, b []byte, depth int) bool {
	for i := 0; i < depth; i++ {
		if getBit(a, i) != getBit(b, i) {
			return false
		}
	}
	return true
}

// terminalNode returns'''))
v('pv.skel',(PV,'''			if depth > res.Depth() {
				return errors.New("current depth is greater than result depth")
			} else if depth == res.Depth() {
				terminal, err := terminalNode(entry, res)
				if err != nil {
					return err
				}
				*n = terminal
				return nil
			} else {
				*n = &parentNode{left: externalNode{}, right: externalNode{}}
			}
''','''			if depth < res.Depth() {
				*n = &parentNode{left: externalNode{}, right: externalNode{}}
				continue
			} else if depth > res.Depth() {
				return errors.New("current depth is greater than result depth")
			}
			terminal, err := terminalNode(entry, res)
			if err == nil {
				*n = terminal
			}
			return err
'''))
v('pv.recur',(PV,'''	depth := 0

	for {
		switch m := (*n).(type) {
		case emptyNode:''','''	return addAtDepth(n, entry, res, 0)
}

func addAtDepth(n *node, entry Entry, res PrefixSearchResult, depth int) error {
	for {
		switch m := (*n).(type) {
		case emptyNode:'''),(PV,'''			if getBit(entry.VrfOutput, depth) {
				n = &m.right
			} else {
				n = &m.left
			}
			depth++
''','''			if getBit(entry.VrfOutput, depth) {
				return addAtDepth(&m.right, entry, res, depth+1)
			}
			return addAtDepth(&m.left, entry, res, depth+1)
'''))
v('pv.copath',(PV,'''		var err error
		elements, err = fillInCopath(&m.left, elements)
		if err != nil {
			return nil, err
		}
		elements, err = fillInCopath(&m.right, elements)
		if err != nil {
			return nil, err
		}
		return elements, nil
''','''		rest, err := fillInCopath(&m.left, elements)
		if err != nil {
			return nil, err
		}
		return fillInCopath(&m.right, rest)
'''))
v('pv.checks',(PV,'''	sortedEntries := make([]Entry, len(entries))
	copy(sortedEntries, entries)
	slices.SortFunc(sortedEntries, compareEntries)
	for i, entry := range sortedEntries {
		if len(entry.VrfOutput) != cs.HashSize() {
			return nil, errors.New("unexpected vrf output length")
		} else if entry.Commitment != nil && len(entry.Commitment) != cs.HashSize() {
			return nil, errors.New("unexpected commitment length")
		} else if i > 0 && bytes.Equal(sortedEntries[i-1].VrfOutput, entry.VrfOutput) {
			return nil, errors.New("same vrf output present multiple times")
		}
	}
''','''	seen := make(map[string]struct{})
	for _, entry := range entries {
		if len(entry.VrfOutput) != cs.HashSize() {
			return nil, errors.New("unexpected vrf output length")
		} else if entry.Commitment != nil && len(entry.Commitment) != cs.HashSize() {
			return nil, errors.New("unexpected commitment length")
		}
		if _, ok := seen[string(entry.VrfOutput)]; ok {
			return nil, errors.New("same vrf output present multiple times")
		}
		seen[string(entry.VrfOutput)] = struct{}{}
	}
'''))
v('pv.clone',(PV,'''	sortedEntries := make([]Entry, len(entries))
	copy(sortedEntries, entries)
	slices''','''	sortedEntries := slices.Clone(entries)
	slices'''),(PV,'''	sortedAdd := make([]Entry, len(add))
	copy(sortedAdd, add)
	slices''','''	sortedAdd := slices.Clone(add)
	slices'''))
v('pv.ba',(PV,'''	for i, entry := range add {
		if res, ok := removed[string(entry.VrfOutput)]; !ok {
			allEntries = append(allEntries, entry)
			results = append(results, proof.Results[i])
		} else if res.Inclusion() != proof.Results[i].Inclusion() || res.Depth() != proof.Results[i].Depth() {
			return nil, nil, errors.New("different results provided for same vrf output")
		}
	}
''','''	for i, entry := range add {
		given := proof.Results[i]
		res, replaced := removed[string(entry.VrfOutput)]
		if replaced {
			if given.Inclusion() != res.Inclusion() || given.Depth() != res.Depth() {
				return nil, nil, errors.New("different results provided for same vrf output")
			}
			continue
		}
		allEntries = append(allEntries, entry)
		results = append(results, given)
	}
'''))
exec(open('/tmp/hand2.py').read()) if os.path.exists('/tmp/hand2.py') else None
want=sys.argv[1:] 
for name,edits in V:
    d='/tmp/rf/h.'+name
    if want and not any(w in name for w in want): continue
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    txt={}
    for f,o,n in edits:
        s=txt.get(f) or open(R+f).read()
        if s.count(o)<1: print('NOMATCH',name,f,o[:50]); break
        txt[f]=s.replace(o,n,1)
    ov={}
    for f,s in txt.items():
        p=d+'/'+f.replace('/','_'); open(p,'w').write(s); ov[R+f]=p
    json.dump({'Replace':ov},open(d+'/overlay.json','w'))
print(len(V))
