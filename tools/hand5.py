TR=T+'transparency.go'; MG=T+'managed/managed.go'; LB='db/leveldb.go'; MM='db/memory/memory.go'; AS=T+'auditor/state.go'; SS=T+'structs/structs.go'; TH=T+'structs/tree_head.go'
v('tr.load',(TR,'''	if rawTreeHead != nil {
		buf := bytes.NewBuffer(rawTreeHead)
		treeHead, err = structs.NewTreeHead(buf)
		if err != nil {
			return nil, err
		} else if buf.Len() != 0 {
			return nil, errors.New("unexpected data appended to tree head")
		}
	}
''','''	if rawTreeHead != nil {
		treeHead, err = parseTreeHead(rawTreeHead)
		if err != nil {
			return nil, err
		}
	}
'''),(TR,'''func (t *Tree) TreeHead() ''','''func parseTreeHead(raw []byte) (*structs.TreeHead, error) {
	buf := bytes.NewBuffer(raw)
	treeHead, err := structs.NewTreeHead(buf)
	if err != nil {
		return nil, err
	}
	if buf.Len() > 0 {
		return nil, errors.New("unexpected data appended to tree head")
	}
	return treeHead, nil
}

func (t *Tree) TreeHead() '''))
v('tr.fth',(TR,'''	} else if last != nil {
		if *last == 0 {
			return nil, 0, nil, nil, errors.New("tree size advertised by user is not valid")
		} else if *last == t.treeHead.TreeSize {
			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
		} else if *last > t.treeHead.TreeSize {
			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
		}
	}

	fth = &structs.FullTreeHead{TreeHead: t.treeHead, AuditorTreeHead: t.auditorHead}
	n = t.treeHead.TreeSize
	if t.auditorHead != nil {
		nP = &t.auditorHead.TreeSize
	}
	if last != nil {
		m = last
	}
	return
''','''	}
	n = t.treeHead.TreeSize
	if last != nil {
		switch {
		case *last == 0:
			return nil, 0, nil, nil, errors.New("tree size advertised by user is not valid")
		case *last > n:
			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
		case *last == n:
			return &structs.FullTreeHead{}, n, nil, last, nil
		}
	}

	if t.auditorHead != nil {
		nP = &t.auditorHead.TreeSize
	}
	return &structs.FullTreeHead{TreeHead: t.treeHead, AuditorTreeHead: t.auditorHead}, n, nP, last, nil
'''))
v('tr.view',(TR,'''	if last != nil { // Load frontier log entries.
		frontier := math.Frontier(*last)

		results, err := t.tx.BatchGet(frontier)
		if err != nil {
			return err
		}

		logEntries := make(map[uint64]structs.LogEntry)
		for _, pos := range frontier {
			raw, ok := results[pos]
			if !ok {
				return errors.New("expected frontier log entry not found")
			}
			buf := bytes.NewBuffer(raw)
			entry, err := structs.NewLogEntry(t.config.Suite, buf)
			if err != nil {
				return err
			} else if buf.Len() != 0 {
				return errors.New("unexpected data appended to log entry")
			}
			logEntries[pos] = *entry
		}

		if err := provider.AddRetained(nil, logEntries); err != nil {
			return err
		}
	}
''','''	if last != nil {
		logEntries, err := t.loadEntries(math.Frontier(*last))
		if err != nil {
			return err
		}
		if err := provider.AddRetained(nil, logEntries); err != nil {
			return err
		}
	}
'''),(TR,'''func (t *Tree) Search(''','''func (t *Tree) loadEntries(frontier []uint64) (map[uint64]structs.LogEntry, error) {
	results, err := t.tx.BatchGet(frontier)
	if err != nil {
		return nil, err
	}

	logEntries := make(map[uint64]structs.LogEntry, len(frontier))
	for _, pos := range frontier {
		raw, ok := results[pos]
		if !ok {
			return nil, errors.New("expected frontier log entry not found")
		}
		buf := bytes.NewBuffer(raw)
		entry, err := structs.NewLogEntry(t.config.Suite, buf)
		if err != nil {
			return nil, err
		}
		if buf.Len() != 0 {
			return nil, errors.New("unexpected data appended to log entry")
		}
		logEntries[pos] = *entry
	}
	return logEntries, nil
}

func (t *Tree) Search('''))
v('tr.target',(TR,'''	if req.Version == nil {
		if greatest < 0 {
			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
			openingAndValue, err = t.getVersion(req.Label, 0)
		} else {
			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
			openingAndValue, err = t.getVersion(req.Label, uint32(greatest))
		}
	} else {
		ladder = math.SearchBinaryLadder(*req.Version, *req.Version, nil, nil)
		openingAndValue, err = t.getVersion(req.Label, *req.Version)
	}
	if err != nil {
		return nil, err
	}
''','''	var target uint32
	if req.Version != nil {
		target = *req.Version
	} else if greatest >= 0 {
		target = uint32(greatest)
	}
	ladder = math.SearchBinaryLadder(target, target, nil, nil)
	openingAndValue, err = t.getVersion(req.Label, target)
	if err != nil {
		return nil, err
	}
'''),(TR,'''	if req.Version == nil {
		if greatest < 0 {
			_, err = algorithms.GreatestVersionSearch(t.config.Public(), 0, t.treeHead.TreeSize, provider)
		} else {
			_, err = algorithms.GreatestVersionSearch(t.config.Public(), uint32(greatest), t.treeHead.TreeSize, provider)
		}
	} else {
		_, err = algorithms.FixedVersionSearch(t.config.Public(), *req.Version, t.treeHead.TreeSize, provider)
	}
''','''	if req.Version == nil {
		_, err = algorithms.GreatestVersionSearch(t.config.Public(), target, n, provider)
	} else {
		_, err = algorithms.FixedVersionSearch(t.config.Public(), target, n, provider)
	}
'''),(TR,'''		var ver uint32
		if greatest < 0 {
			ver = 0
		} else {
			ver = uint32(greatest)
		}
		outputVer = &ver
''','''		outputVer = &target
'''))
v('tr.populate',(TR,'''		populate := req.Version == nil && int(ver) != greatest ||
			req.Version != nil && ver != *req.Version

		if populate {
			steps[i].Commitment = handle.GetCommitment(ver)
		}
''','''		if req.Version == nil {
			if int(ver) == greatest {
				continue
			}
		} else if ver == *req.Version {
			continue
		}
		steps[i].Commitment = handle.GetCommitment(ver)
'''))
v('tr.steps',(TR,'''	steps := make([]structs.BinaryLadderStep, len(ladder))
	for i, ver := range ladder {
		vrfOutput, proof, err := t.computeVrfOutput(req.Label, ver)
		if err != nil {
			return nil, err
		} else if err := handle.AddVersion(ver, vrfOutput); err != nil {
			return nil, err
		}
		steps[i] = structs.BinaryLadderStep{Proof: proof}
	}
''','''	steps := make([]structs.BinaryLadderStep, 0, len(ladder))
	for _, ver := range ladder {
		vrfOutput, proof, err := t.computeVrfOutput(req.Label, ver)
		if err != nil {
			return nil, err
		}
		if err := handle.AddVersion(ver, vrfOutput); err != nil {
			return nil, err
		}
		steps = append(steps, structs.BinaryLadderStep{Proof: proof})
	}
'''))
v('mg.sign',(MG,'''	values := make([]structs.UpdateValue, len(req.Values))
	for i, val := range req.Values {
		tbs, err := structs.Marshal(&structs.UpdateTBS{
			Config:  ml.config,
			Label:   req.Label,
			Version: uint32(prev + 1 + i),
			Value:   val.Value,
		})
		if err != nil {
			return nil, err
		}
		sig, err := ml.priv.Sign(tbs)
		if err != nil {
			return nil, err
		}
		values[i] = structs.UpdateValue{
			Value:        val.Value,
			UpdateSuffix: structs.UpdateSuffix{Signature: sig},
		}
	}
''','''	first := uint32(prev + 1)
	values := make([]structs.UpdateValue, 0, len(req.Values))
	for i, val := range req.Values {
		signed, err := ml.sign(req.Label, first+uint32(i), val.Value)
		if err != nil {
			return nil, err
		}
		values = append(values, *signed)
	}
'''),(MG,'''		SignedVersion:   uint32(prev + 1),
		Values:          values,
	})
}''','''		SignedVersion:   first,
		Values:          values,
	})
}

func (ml *ManagedLog) sign(label []byte, ver uint32, value []byte) (*structs.UpdateValue, error) {
	tbs, err := structs.Marshal(&structs.UpdateTBS{
		Config:  ml.config,
		Label:   label,
		Version: ver,
		Value:   value,
	})
	if err != nil {
		return nil, err
	}
	sig, err := ml.priv.Sign(tbs)
	if err != nil {
		return nil, err
	}
	return &structs.UpdateValue{Value: value, UpdateSuffix: structs.UpdateSuffix{Signature: sig}}, nil
}'''))
v('lb.get',(LB,'''	if value, ok := c.batch[key]; ok {
		if value == nil {
			return nil, leveldb.ErrNotFound
		}
		return dup(value), nil
	}
	return c.conn.Get([]byte(key), nil)''','''	value, ok := c.batch[key]
	if !ok {
		return c.conn.Get([]byte(key), nil)
	}
	if value == nil {
		return nil, leveldb.ErrNotFound
	}
	return dup(value), nil'''))
v('lb.commit',(LB,'''	for key, value := range c.batch {
		if value == nil {
			b.Delete([]byte(key))
		} else {
			b.Put([]byte(key), value)
		}
	}
	if err := c.conn.Write(b, &opt.WriteOptions{Sync: true}); err != nil {
		return err
	}

	c.batch = make(map[string][]byte)
	return nil''','''	for key, value := range c.batch {
		if value != nil {
			b.Put([]byte(key), value)
			continue
		}
		b.Delete([]byte(key))
	}
	err := c.conn.Write(b, &opt.WriteOptions{Sync: true})
	if err == nil {
		c.batch = make(map[string][]byte)
	}
	return err'''))
v('lb.key',(LB,'''		raw, err := ldb.conn.Get("i" + fmt.Sprintf("%x", label))''','''		raw, err := ldb.conn.Get(indexKey(label))'''),(LB,'''	ldb.conn.Put("i"+fmt.Sprintf("%x", label), index)''','''	ldb.conn.Put(indexKey(label), index)'''),(LB,'''	ldb.conn.Put("i"+fmt.Sprintf("%x", label), nil)''','''	ldb.conn.Put(indexKey(label), nil)'''),(LB,'''func (ldb *ldbTransparencyStore) DeleteIndex''','''func indexKey(label []byte) string { return "i" + fmt.Sprintf("%x", label) }

func (ldb *ldbTransparencyStore) DeleteIndex'''))
v('lb.verkey',(LB,'''	raw, err := ldb.conn.Get("v" + fmt.Sprintf("%x:%x", label, ver))
	if err == leveldb.ErrNotFound {
		return nil, nil
	} else if err != nil {
		return nil, err
	}
	return raw, nil''','''	raw, err := ldb.conn.Get(versionKey(label, ver))
	switch err {
	case nil:
		return raw, nil
	case leveldb.ErrNotFound:
		return nil, nil
	default:
		return nil, err
	}'''),(LB,'''	ldb.conn.Put("v"+fmt.Sprintf("%x:%x", label, ver), data)''','''	ldb.conn.Put(versionKey(label, ver), data)'''),(LB,'''	ldb.conn.Put("v"+fmt.Sprintf("%x:%x", label, ver), nil)''','''	ldb.conn.Put(versionKey(label, ver), nil)'''),(LB,'''func (ldb *ldbTransparencyStore) DeleteIndex''','''func versionKey(label []byte, ver uint32) string { return fmt.Sprintf("v%x:%x", label, ver) }

func (ldb *ldbTransparencyStore) DeleteIndex'''))
v('lb.batch',(LB,'''	out := make(map[uint64][]byte)

	for _, key := range keys {
		value, err := ldb.conn.Get("t" + fmt.Sprint(key))
		if err == leveldb.ErrNotFound {
			continue
		} else if err != nil {
			return nil, err
		}
		out[key] = value
	}

	return out, nil''','''	return ldb.conn.batchGet("t", keys)'''),(LB,'''	out := make(map[uint64][]byte)

	for _, key := range keys {
		value, err := ls.conn.Get("l" + fmt.Sprint(key))
		if err == leveldb.ErrNotFound {
			continue
		} else if err != nil {
			return nil, err
		}
		out[key] = value
	}

	return out, nil''','''	return ls.conn.batchGet("l", keys)'''),(LB,'''func (c *ldbConn) Put(''','''func (c *ldbConn) batchGet(prefix string, keys []uint64) (map[uint64][]byte, error) {
	out := make(map[uint64][]byte)

	for _, key := range keys {
		value, err := c.Get(prefix + fmt.Sprint(key))
		if err == leveldb.ErrNotFound {
			continue
		} else if err != nil {
			return nil, err
		}
		out[key] = value
	}

	return out, nil
}

func (c *ldbConn) Put('''))
v('as.merge',(AS,'''	for ; i < len(existing); i++ {
		if rightmost == nil || existing[i].Pos > *rightmost {
			out = append(out, existing[i])
		}
	}
	for ; j < len(added); j++ {
		if rightmost == nil || added[j].Pos > *rightmost {
			out = append(out, added[j])
		}
	}

	return out
}''','''	out = appendRecent(out, existing[i:], rightmost)
	return appendRecent(out, added[j:], rightmost)
}

func appendRecent(out, from []InsertedVrfOutput, rightmost *uint64) []InsertedVrfOutput {
	for _, elem := range from {
		if rightmost == nil || elem.Pos > *rightmost {
			out = append(out, elem)
		}
	}
	return out
}'''))
v('as.merge2',(AS,'''		switch compareInserted(existing[i], added[j]) {
		case -1:
			out = append(out, existing[i])
			i++
		case 0:
			out = append(out, added[j])
			i++
			j++
		case 1:
			out = append(out, added[j])
			j++
		}
''','''		if c := compareInserted(existing[i], added[j]); c < 0 {
			out = append(out, existing[i])
			i++
		} else {
			out = append(out, added[j])
			j++
			if c == 0 {
				i++
			}
		}
'''))
v('as.since',(AS,'''	i, found := slices.BinarySearchFunc(as.Inserted, target, compareInserted)
	if !found {
		return false
	}
	return as.Inserted[i].Pos > x''','''	i, found := slices.BinarySearchFunc(as.Inserted, target, compareInserted)
	return found && as.Inserted[i].Pos > x'''))
v('as.read',(AS,'''	fullSubtrees := make([][]byte, bits.OnesCount64(treeHead.TreeSize))
	for i := range fullSubtrees {
		fullSubtree := make([]byte, cs.HashSize())
		if _, err := io.ReadFull(buf, fullSubtree); err != nil {
			return nil, err
		}
		fullSubtrees[i] = fullSubtree
	}
''','''	fullSubtrees := make([][]byte, bits.OnesCount64(treeHead.TreeSize))
	for i := range fullSubtrees {
		if fullSubtrees[i], err = readHash(cs, buf); err != nil {
			return nil, err
		}
	}
'''),(AS,'''	prefixTree := make([]byte, cs.HashSize())
	if _, err := io.ReadFull(buf, prefixTree); err != nil {
		return nil, err
	}
''','''	prefixTree, err := readHash(cs, buf)
	if err != nil {
		return nil, err
	}
'''),(AS,'''		vrfOutput := make([]byte, cs.HashSize())
		if _, err := io.ReadFull(buf, vrfOutput); err != nil {
			return nil, err
		}
''','''		vrfOutput, err := readHash(cs, buf)
		if err != nil {
			return nil, err
		}
'''),(AS,'''func (as *AuditorState) Marshal''','''func readHash(cs suites.CipherSuite, buf *bytes.Buffer) ([]byte, error) {
	out := make([]byte, cs.HashSize())
	if _, err := io.ReadFull(buf, out); err != nil {
		return nil, err
	}
	return out, nil
}

func (as *AuditorState) Marshal'''))
v('ss.size',(SS,'''func readByteSlice[S sizeParam](buf *bytes.Buffer, n int) ([][]byte, error) {
	size, err := readNumeric[S](buf)
	if err != nil {
		return nil, err
	}
	if uint64(size) > uint64(buf.Len()) {
		return nil, io.ErrUnexpectedEOF
	}
	out := make([][]byte, size)
	for i := range int(size) {''','''func readSize[S sizeParam](buf *bytes.Buffer) (int, error) {
	size, err := readNumeric[S](buf)
	if err != nil {
		return 0, err
	}
	if uint64(size) > uint64(buf.Len()) {
		return 0, io.ErrUnexpectedEOF
	}
	return int(size), nil
}

func readByteSlice[S sizeParam](buf *bytes.Buffer, n int) ([][]byte, error) {
	size, err := readSize[S](buf)
	if err != nil {
		return nil, err
	}
	out := make([][]byte, size)
	for i := range size {'''),(SS,'''	size, err := readNumeric[S](buf)
	if err != nil {
		return nil, err
	}
	if uint64(size) > uint64(buf.Len()) {
		return nil, io.ErrUnexpectedEOF
	}
	out := make([]T, size)
	for i := range int(size) {
		elem, err''','''	size, err := readSize[S](buf)
	if err != nil {
		return nil, err
	}
	out := make([]T, size)
	for i := range out {
		elem, err'''))
v('ss.append',(SS,'''	out := make([]T, size)
	for i := range int(size) {
		val, err := readNumeric[T](buf)
		if err != nil {
			return nil, err
		}
		out[i] = val
	}
	return out, nil''','''	out := make([]T, 0, int(size))
	for range int(size) {
		val, err := readNumeric[T](buf)
		if err != nil {
			return nil, err
		}
		out = append(out, val)
	}
	return out, nil'''))
v('th.same',(TH,'''	if headType != SameHead && headType != UpdatedHead {
		return nil, errors.New("unexpected head type read")
	}

	var (
		treeHead        *TreeHead
		auditorTreeHead *AuditorTreeHead
	)
	if headType == UpdatedHead {
		treeHead, err = NewTreeHead(buf)
		if err != nil {
			return nil, err
		}
		if config.Mode == ThirdPartyAuditing {
			auditorTreeHead, err = NewAuditorTreeHead(buf)
			if err != nil {
				return nil, err
			}
		}
	}

	return &FullTreeHead{treeHead, auditorTreeHead}, nil''','''	switch headType {
	case SameHead:
		return &FullTreeHead{}, nil
	case UpdatedHead:
		treeHead, err := NewTreeHead(buf)
		if err != nil {
			return nil, err
		}
		out := &FullTreeHead{TreeHead: treeHead}
		if config.Mode != ThirdPartyAuditing {
			return out, nil
		}
		out.AuditorTreeHead, err = NewAuditorTreeHead(buf)
		if err != nil {
			return nil, err
		}
		return out, nil
	default:
		return nil, errors.New("unexpected head type read")
	}'''))
v('th.marshal',(TH,'''	buf.WriteByte(byte(UpdatedHead))
	if err := fth.TreeHead.Marshal(buf); err != nil {
		return err
	}
	if fth.AuditorTreeHead != nil {
		if err := fth.AuditorTreeHead.Marshal(buf); err != nil {
			return err
		}
	}
	return nil''','''	buf.WriteByte(byte(UpdatedHead))
	if err := fth.TreeHead.Marshal(buf); err != nil || fth.AuditorTreeHead == nil {
		return err
	}
	return fth.AuditorTreeHead.Marshal(buf)'''))
