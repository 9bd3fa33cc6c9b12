PX='tree/prefix/prefix.go'; PB='tree/prefix/batch.go'; LG='tree/log/log.go'; LD=T+'math/ladders.go'; TK=T+'math/tracker.go'
v('px.search',(PX,'''	combined := make(map[uint64][][]byte)
	for _, search := range searches {
		if search.Version == 0 {
			return nil, errors.New("unable to search in version 0 of the tree")
		}
		for _, vrfOutput := range search.VrfOutputs {
			if len(vrfOutput) != t.cs.HashSize() {
				return nil, errors.New("unexpected vrf output length")
			}
		}
		combined''','''	combined := make(map[uint64][][]byte)
	for _, search := range searches {
		if err := t.checkSearch(&search); err != nil {
			return nil, err
		}
		combined'''),(PX,'''// Search takes''','''func (t *Tree) checkSearch(search *PrefixSearch) error {
	if search.Version == 0 {
		return errors.New("unable to search in version 0 of the tree")
	}
	size := t.cs.HashSize()
	for _, vrfOutput := range search.VrfOutputs {
		if len(vrfOutput) != size {
			return errors.New("unexpected vrf output length")
		}
	}
	return nil
}

// Search takes'''))
v('px.searchout',(PX,'''	out := make([]SearchResult, len(searches))
	for i, search := range searches {
		tile, ok''','''	out := make([]SearchResult, 0, len(searches))
	for _, search := range searches {
		tile, ok'''),(PX,'''		out[i] = SearchResult{proof, commitments}''','''		out = append(out, SearchResult{Proof: proof, Commitments: commitments})'''))
v('px.sortadd',(PX,'''	sortedAdd := make([]Entry, len(add))
	copy(sortedAdd, add)
	slices.SortFunc(sortedAdd, compareEntries)
	for i,''','''	sortedAdd := slices.Clone(add)
	slices.SortFunc(sortedAdd, compareEntries)
	for i,'''),(PX,'''	sortedRemove := make([][]byte, len(remove))
	copy(sortedRemove, remove)
	slices''','''	sortedRemove := append([][]byte(nil), remove...)
	slices'''))
v('px.sortadd2',(PX,'''	sortedAdd := make([]Entry, len(add))
	copy(sortedAdd, add)
	slices.SortFunc(sortedAdd, compareEntries)
	for i, entry := range sortedAdd {
		if len(entry.VrfOutput) != t.cs.HashSize() {
			return nil, nil, nil, errors.New("unexpected vrf output length")
		} else if len(entry.Commitment) != t.cs.HashSize() {
			return nil, nil, nil, errors.New("unexpected commitment length")
		} else if i > 0 && bytes.Equal(sortedAdd[i-1].VrfOutput, entry.VrfOutput) {
			return nil, nil, nil, errors.New("unable to insert same vrf output multiple times")
		}
	}
''','''	sortedAdd, err := t.sortEntries(add)
	if err != nil {
		return nil, nil, nil, err
	}
'''),(PX,'''// getMutationRoot returns''','''func (t *Tree) sortEntries(add []Entry) ([]Entry, error) {
	sorted := make([]Entry, len(add))
	copy(sorted, add)
	slices.SortFunc(sorted, compareEntries)
	for _, entry := range sorted {
		if len(entry.VrfOutput) != t.cs.HashSize() {
			return nil, errors.New("unexpected vrf output length")
		} else if len(entry.Commitment) != t.cs.HashSize() {
			return nil, errors.New("unexpected commitment length")
		}
	}
	for i := 1; i < len(sorted); i++ {
		if bytes.Equal(sorted[i-1].VrfOutput, sorted[i].VrfOutput) {
			return nil, errors.New("unable to insert same vrf output multiple times")
		}
	}
	return sorted, nil
}

// getMutationRoot returns'''),(PX,'''	// Load necessary tiles into memory. Add new entries. Create tiles.
	root, proof''','''	root, proof'''))
v('px.found',(PX,'''	for i, commitment := range commitments[:len(add)] {
		if commitment != nil {
			// This VRF output already exists in the prefix tree. Check if it's
			// being removed in this same request, otherwise return an error.
			found := false
			for _, vrfOutput := range vrfOutputs[len(add):] {
				if bytes.Equal(vrfOutputs[i], vrfOutput) {
					found = true
					break
				}
			}
			if found {
				continue
			}
			return nil, nil, nil, errors.New("can not insert same vrf output twice")
		}
	}
''','''	for i, commitment := range commitments[:len(add)] {
		if commitment == nil {
			continue
		}
		// This VRF output already exists in the prefix tree. Check if it's
		// being removed in this same request, otherwise return an error.
		if !containsOutput(vrfOutputs[len(add):], vrfOutputs[i]) {
			return nil, nil, nil, errors.New("can not insert same vrf output twice")
		}
	}
'''),(PX,'''type indexedVrfOutput''','''func containsOutput(haystack [][]byte, needle []byte) bool {
	for _, vrfOutput := range haystack {
		if bytes.Equal(needle, vrfOutput) {
			return true
		}
	}
	return false
}

type indexedVrfOutput'''),(PX,'''		shouldRemove := false
		for _, vrfOutput := range remove {
			if bytes.Equal(m.vrfOutput, vrfOutput) {
				shouldRemove = true
				break
			}
		}

		if shouldRemove {''','''		if containsOutput(remove, m.vrfOutput) {'''))
v('px.rm',(PX,'''		if shouldRemove {
			// We're removing this leaf. Replace it with an emptyNode and
			// recurse to handle any additions that need to happen post-removal.
			*n = emptyNode{}
			if len(add) > 0 {
				addRemoveEntries(cs, n, add, nil, depth)
			}
		} else if len(add) > 0 {
			// We're keeping this leaf but it's in the way of other leaves we
			// want to add, so push it down one level and recurse.
			if getBit(m.vrfOutput, depth) {
				*n = &parentNode{left: emptyNode{}, right: m}
			} else {
				*n = &parentNode{left: m, right: emptyNode{}}
			}
			addRemoveEntries(cs, n, add, nil, depth)
		}
''','''		switch {
		case shouldRemove:
			// We're removing this leaf. Replace it with an emptyNode and
			// recurse to handle any additions that need to happen post-removal.
			*n = emptyNode{}
			if len(add) == 0 {
				return
			}
		case len(add) == 0:
			return
		case getBit(m.vrfOutput, depth):
			*n = &parentNode{left: emptyNode{}, right: m}
		default:
			*n = &parentNode{left: m, right: emptyNode{}}
		}
		addRemoveEntries(cs, n, add, nil, depth)
'''))
v('px.collapse',(PX,'''		if leftLeaf && rightEmpty {
			*n = m.left
		} else if leftEmpty && rightLeaf {
			*n = m.right
		} else if leftEmpty && rightEmpty {
			*n = emptyNode{}
		}
''','''		switch {
		case leftEmpty && rightEmpty:
			*n = emptyNode{}
		case leftEmpty && rightLeaf:
			*n = m.right
		case leftLeaf && rightEmpty:
			*n = m.left
		}
'''))
v('px.write',(PX,'''	for _, tile := range tiles {
		raw, err := tile.Marshal(t.cs)
		if err != nil {
			return nil, nil, nil, err
		} else if err := t.tx.Put(tile.id.String(), raw); err != nil {
			return nil, nil, nil, err
		}
	}

	return rootHash, proof, commitments, nil
}''','''	if err := t.writeTiles(tiles); err != nil {
		return nil, nil, nil, err
	}
	return rootHash, proof, commitments, nil
}

func (t *Tree) writeTiles(tiles []tile) error {
	for i := range tiles {
		raw, err := tiles[i].Marshal(t.cs)
		if err != nil {
			return err
		}
		if err := t.tx.Put(tiles[i].id.String(), raw); err != nil {
			return err
		}
	}
	return nil
}'''))
v('px.split',(PX,'''	split, _ := slices.BinarySearchFunc(entries, true, func(entry Entry, _ bool) int {
		if getBit(entry.VrfOutput, depth) {
			return 0
		}
		return -1
	})
	return entries[:split], entries[split:]''','''	split := 0
	for split < len(entries) && !getBit(entries[split].VrfOutput, depth) {
		split++
	}
	return entries[:split], entries[split:]'''))
v('px.build',(PX,'''			if bytes.Equal(out.vrfOutput, n.vrfOutput) {
				pb.proof.Results[out.index] = inclusionProof{depth: depth}
				pb.commitments[out.index] = n.commitment
			} else {
				pb.proof.Results[out.index] = nonInclusionLeafProof{leaf: n, depth: depth}
			}
''','''			if !bytes.Equal(out.vrfOutput, n.vrfOutput) {
				pb.proof.Results[out.index] = nonInclusionLeafProof{leaf: n, depth: depth}
				continue
			}
			pb.commitments[out.index] = n.commitment
			pb.proof.Results[out.index] = inclusionProof{depth: depth}
'''))
v('pb.recur',(PB,'''func (b *batch) search(state map[*node][]cursor) error {
	nextSteps''','''func (b *batch) search(state map[*node][]cursor) error {
	for {
		next, err := b.advance(state)
		if err != nil || next == nil {
			return err
		}
		state = next
	}
}

func (b *batch) advance(state map[*node][]cursor) (map[*node][]cursor, error) {
	nextSteps'''),(PB,'''	if len(nextSteps) == 0 {
		return nil
	}

	tiles, err := b.get(nextSteps)
	if err != nil {
		return err
	} else if len(tiles) == 0 {
		return errors.New''','''	if len(nextSteps) == 0 {
		return nil, nil
	}

	tiles, err := b.get(nextSteps)
	if err != nil {
		return nil, err
	} else if len(tiles) == 0 {
		return nil, errors.New'''),(PB,'''				return errors.New("unexpected node found''','''				return nil, errors.New("unexpected node found'''),(PB,'''	return b.search(nextState)
''','''	return nextState, nil
'''))
v('pb.get',(PB,'''	for key, id := range dedup {
		val, ok := data[key]
		if !ok {
			return nil, errors.New("not all expected data was found")
		}
		t, err := unmarshalTile(b.cs, id, val)
		if err != nil {
			return nil, err
		}
		out[key], b.cache[key] = t, t
	}
	return out, nil''','''	for key, id := range dedup {
		t, err := b.parse(id, data, key)
		if err != nil {
			return nil, err
		}
		b.cache[key] = t
		out[key] = t
	}
	return out, nil'''),(PB,'''// search takes a mapping''','''func (b *batch) parse(id tileId, data map[string][]byte, key string) (tile, error) {
	val, ok := data[key]
	if !ok {
		return tile{}, errors.New("not all expected data was found")
	}
	return unmarshalTile(b.cs, id, val)
}

// search takes a mapping'''))
v('pb.init',(PB,'''		cursors := make([]cursor, 0, len(vrfOutputs))
		for _, vrfOutput := range vrfOutputs {
			cursors = append(cursors, cursor{vrfOutput: vrfOutput, depth: 0})
		}
''','''		cursors := make([]cursor, len(vrfOutputs))
		for i, vrfOutput := range vrfOutputs {
			cursors[i].vrfOutput = vrfOutput
		}
'''))
v('lg.fetch',(LG,'''	dedup := make(map[uint64]struct{})
	for _, id := range nodes {
		dedup[math.Chunk(id)] = struct{}{}
	}
	ids := make([]uint64, 0, len(dedup))
	for id := range dedup {
		ids = append(ids, id)
	}
''','''	ids := make([]uint64, 0, len(nodes))
	seen := make(map[uint64]struct{})
	for _, id := range nodes {
		chunk := math.Chunk(id)
		if _, ok := seen[chunk]; ok {
			continue
		}
		seen[chunk] = struct{}{}
		ids = append(ids, chunk)
	}
'''))
v('lg.sizes',(LG,'''	if n == 0 || n > math.MaxTreeSize {
		return nil, errors.New("invalid value for current tree size")
	} else if nP != nil && (*nP == 0 || *nP > n || *nP > math.MaxTreeSize) {
		return nil, errors.New("invalid value for additional tree size")
	} else if m != nil && (*m == 0 || *m > n || *m > math.MaxTreeSize) {
		return nil, errors.New("invalid value for previous tree size")
	}
''','''	if !validSize(n) {
		return nil, errors.New("invalid value for current tree size")
	} else if nP != nil && (!validSize(*nP) || *nP > n) {
		return nil, errors.New("invalid value for additional tree size")
	} else if m != nil && (!validSize(*m) || *m > n) {
		return nil, errors.New("invalid value for previous tree size")
	}
'''),(LG,'''// GetBatch returns''','''func validSize(n uint64) bool { return 0 < n && n <= math.MaxTreeSize }

// GetBatch returns'''))
v('lg.dups',(LG,'''	for i, x := range entries {
		if x >= n {
			return nil, errors.New("can not get leaf beyond right edge of tree")
		} else if i > 0 && entries[i-1] == x {
			return nil, errors.New("duplicate leaf index found")
		}
	}
	return t''','''	if k := len(entries); k > 0 && entries[k-1] >= n {
		return nil, errors.New("can not get leaf beyond right edge of tree")
	}
	for i := 1; i < len(entries); i++ {
		if entries[i-1] == entries[i] {
			return nil, errors.New("duplicate leaf index found")
		}
	}
	return t'''))
v('lg.append',(LG,'''	toFetch := make([]uint64, 0)
	toCreate := make(map[uint64]struct{})
	for _, x := range path {
		x = math.Chunk(x)
		if _, ok := alreadyExists[x]; ok {
			toFetch = append(toFetch, x)
		} else {
			toCreate[x] = struct{}{}
		}
	}
	for x := range alreadyExists {
		toFetch = append(toFetch, x)
	}
''','''	toCreate := make(map[uint64]struct{})
	for _, x := range path {
		chunk := math.Chunk(x)
		if _, ok := alreadyExists[chunk]; !ok {
			toCreate[chunk] = struct{}{}
		}
	}
	toFetch := make([]uint64, 0, len(alreadyExists))
	for x := range alreadyExists {
		toFetch = append(toFetch, x)
	}
'''))
v('lg.out',(LG,'''	out := make([][]byte, len(fullSubtrees))
	for i, x := range fullSubtrees {
		out[i] = set.get(x).value
	}
	return out, nil
}

// Root''','''	return values(set, fullSubtrees), nil
}

func values(set *chunkSet, nodes []uint64) [][]byte {
	out := make([][]byte, len(nodes))
	for i, x := range nodes {
		out[i] = set.get(x).value
	}
	return out
}

// Root'''),(LG,'''	out := make([][]byte, len(nodes))
	for i, id := range nodes {
		out[i] = set.get(id).value
	}
	return out, nil''','''	return values(set, nodes), nil'''))
v('lg.root',(LG,'''	acc := &nodeData{
		leaf:  math.IsLeaf(subtrees[len(subtrees)-1]),
		value: fullSubtrees[len(fullSubtrees)-1],
	}
	for i := len(fullSubtrees) - 2; i >= 0; i-- {
		acc = treeHash(
			cs,
			&nodeData{leaf: math.IsLeaf(subtrees[i]), value: fullSubtrees[i]},
			acc,
		)
	}
	return acc.value, nil''','''	last := len(subtrees) - 1
	acc := &nodeData{leaf: math.IsLeaf(subtrees[last]), value: fullSubtrees[last]}
	for i := last - 1; i >= 0; i-- {
		left := &nodeData{leaf: math.IsLeaf(subtrees[i]), value: fullSubtrees[i]}
		acc = treeHash(cs, left, acc)
	}
	return acc.value, nil'''))
v('lg.rootfor',(LG,'''	for i := len(fullSubtrees) - 2; i >= 0; i-- {
		acc = treeHash(
			cs,
			&nodeData{leaf: math.IsLeaf(subtrees[i]), value: fullSubtrees[i]},
			acc,
		)
	}
	return acc.value, nil''','''	for i := len(fullSubtrees) - 1; i > 0; i-- {
		left := &nodeData{leaf: math.IsLeaf(subtrees[i-1]), value: fullSubtrees[i-1]}
		acc = treeHash(cs, left, acc)
	}
	return acc.value, nil'''))
v('lg.carry',(LG,'''	for i := range chain {
		if chain[i] == nil {
			chain[i] = carry.value
			break
		}
		carry = treeHash(cs, &nodeData{leaf: i == 0, value: chain[i]}, carry)
		chain[i] = nil
	}
''','''	i := 0
	for chain[i] != nil {
		carry = treeHash(cs, &nodeData{leaf: i == 0, value: chain[i]}, carry)
		chain[i] = nil
		i++
	}
	chain[i] = carry.value
'''))
v('lg.carry2',(LG,'''	out := make([][]byte, 0)
	for i := len(chain) - 1; i >= 0; i-- {
		if chain[i] != nil {
			out = append(out, chain[i])
		}
	}
	return out, nil
}''','''	out := make([][]byte, 0, len(chain))
	for _, value := range slices.Backward(chain) {
		if value == nil {
			continue
		}
		out = append(out, value)
	}
	return out, nil
}'''))
v('ld.base',(LD,'''	for {
		val := (uint32(1) << len(out)) - 1
		out = append(out, val)
		if val > n || val == ^uint32(0) {
			break
		}
	}
''','''	for i := 0; ; i++ {
		val := (uint32(1) << i) - 1
		out = append(out, val)
		if val > n || val == ^uint32(0) {
			break
		}
	}
'''))
v('ld.bound',(LD,'''	lowerBound, upperBound := out[len(out)-2], out[len(out)-1]
	for lowerBound+1 < upperBound {
		val := lowerBound + (upperBound-lowerBound)/2
		out = append(out, val)
		if val <= n {
			lowerBound = val
		} else {
			upperBound = val
		}
	}
''','''	lo, hi := out[len(out)-2], out[len(out)-1]
	for hi-lo > 1 {
		mid := lo + (hi-lo)/2
		out = append(out, mid)
		if mid > n {
			hi = mid
		} else {
			lo = mid
		}
	}
'''))
v('ld.search',(LD,'''		_, leftOk := leftInclusion[v]
		_, rightOk := rightNonInclusion[v]
		wouldBeDuplicate := leftOk || rightOk
		if !wouldBeDuplicate {
			out = append(out, v)
		}

		// Ladder ends early in two scenarios:
		// - Inclusion proof for version greater than target.
		// - Non-inclusion proof for version less than or equal to the target.
		wouldEnd := (v <= n && v > t) || (v > n && v <= t)
		if wouldEnd {
			break
		}
''','''		_, leftOk := leftInclusion[v]
		_, rightOk := rightNonInclusion[v]
		if !leftOk && !rightOk {
			out = append(out, v)
		}

		// Ladder ends early in two scenarios:
		// - Inclusion proof for version greater than target.
		// - Non-inclusion proof for version less than or equal to the target.
		if included := v <= n; included != (v <= t) {
			return out
		}
'''))
v('ld.search2',(LD,'''		_, leftOk := leftInclusion[v]
		_, rightOk := rightNonInclusion[v]
		wouldBeDuplicate := leftOk || rightOk
		if !wouldBeDuplicate {
			out = append(out, v)
		}
''','''		if !contains(leftInclusion, v) && !contains(rightNonInclusion, v) {
			out = append(out, v)
		}
'''),(LD,'''// MonitoringBinaryLadder returns''','''func contains(set map[uint32]struct{}, v uint32) bool {
	_, ok := set[v]
	return ok
}

// MonitoringBinaryLadder returns'''))
v('ld.mon',(LD,'''	for _, v := range baseBinaryLadder(t) {
		if v <= t {
			out = append(out, v)
		}
	}
''','''	for _, v := range baseBinaryLadder(t) {
		if v > t {
			continue
		}
		out = append(out, v)
	}
'''))
v('ld.mon2',(LD,'''	out := make([]uint32, 0)

	for _, v := range baseBinaryLadder(t) {
		if v <= t {
			out = append(out, v)
		}
	}

	return out
''','''	return slices.DeleteFunc(baseBinaryLadder(t), func(v uint32) bool { return v > t })
'''),(LD,'''	"errors"
''','''	"errors"
	"slices"
'''))
v('ld.interp',(LD,'''		if res.Inclusion() && version > target {
			if len(proof.Results) != i+1 {
				return 0, errors.New("unexpected number of results in prefix proof")
			}
			return 1, nil
		} else if !res.Inclusion() && version <= target {
			if len(proof.Results) != i+1 {
				return 0, errors.New("unexpected number of results in prefix proof")
			}
			return -1, nil
		}
''','''		inclusion := res.Inclusion()
		if inclusion == (version <= target) {
			continue
		}
		if len(proof.Results) != i+1 {
			return 0, errors.New("unexpected number of results in prefix proof")
		}
		if inclusion {
			return 1, nil
		}
		return -1, nil
'''))
v('ld.interp2',(LD,'''	for i, version := range ladder {
		if i >= len(proof.Results) {
			return 0, errors.New("unexpected number of results in prefix proof")
		}
		res := proof.Results[i]
''','''	for i, res := range proof.Results {
		version := ladder[i]
'''),(LD,'''			return -1, nil
		}
	}

	return 0, nil''','''			return -1, nil
		}
	}
	if len(proof.Results) != len(ladder) {
		return 0, errors.New("unexpected number of results in prefix proof")
	}

	return 0, nil'''))
v('tk.helper',(TK,'''	var inclusion, nonInclusion []uint32
	for i, res := range results {
		if res.Inclusion() {
			inclusion = append(inclusion, ladder[i])
		} else {
			nonInclusion = append(nonInclusion, ladder[i])
		}
	}
	vt.inclusion = append(vt.inclusion, posAndVersions{pos: x, vers: inclusion})
	vt.nonInclusion = append(vt.nonInclusion, posAndVersions{pos: x, vers: nonInclusion})
}
''','''	var inclusion, nonInclusion []uint32
	for i, res := range results {
		if res.Inclusion() {
			inclusion = append(inclusion, ladder[i])
		} else {
			nonInclusion = append(nonInclusion, ladder[i])
		}
	}
	vt.add(x, inclusion, nonInclusion)
}

func (vt *VersionTracker) add(x uint64, inclusion, nonInclusion []uint32) {
	vt.inclusion = append(vt.inclusion, posAndVersions{pos: x, vers: inclusion})
	vt.nonInclusion = append(vt.nonInclusion, posAndVersions{pos: x, vers: nonInclusion})
}
'''),(TK,'''			nonInclusion = append(nonInclusion, version)
		}
	}
	vt.inclusion = append(vt.inclusion, posAndVersions{pos: x, vers: inclusion})
	vt.nonInclusion = append(vt.nonInclusion, posAndVersions{pos: x, vers: nonInclusion})
''','''			nonInclusion = append(nonInclusion, version)
		}
	}
	vt.add(x, inclusion, nonInclusion)
'''))
v('tk.maps',(TK,'''	leftInclusion = make(map[uint32]struct{})
	for _, entry := range vt.inclusion {
		if entry.pos < x {
			for _, ver := range entry.vers {
				leftInclusion[ver] = struct{}{}
			}
		}
	}
	rightNonInclusion = make(map[uint32]struct{})
	for _, entry := range vt.nonInclusion {
		if entry.pos > x {
			for _, ver := range entry.vers {
				rightNonInclusion[ver] = struct{}{}
			}
		}
	}
	return
''','''	leftInclusion = make(map[uint32]struct{})
	rightNonInclusion = make(map[uint32]struct{})
	for _, entry := range vt.inclusion {
		if entry.pos >= x {
			continue
		}
		for _, ver := range entry.vers {
			leftInclusion[ver] = struct{}{}
		}
	}
	for _, entry := range vt.nonInclusion {
		if entry.pos <= x {
			continue
		}
		for _, ver := range entry.vers {
			rightNonInclusion[ver] = struct{}{}
		}
	}
	return leftInclusion, rightNonInclusion
'''))
