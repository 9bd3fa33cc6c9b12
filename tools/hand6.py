P2='crypto/vrf/p256/p256.go'; E2='crypto/vrf/edwards25519/edwards25519.go'; ND='tree/prefix/nodes.go'; SMN=T+'monitor.go'; ALG=T+'algorithms/algorithms.go'; CYP=T+'crypto.go'
v('6.p2.diff',(P2,'''	U, err := new(nistec.P256Point).ScalarBaseMult(s)
	if err != nil {
		return err
	}
	temp, err := new(nistec.P256Point).ScalarMult(p.point, c)
	if err != nil {
		return err
	}
	temp.Negate(temp)
	U.Add(U, temp)

	V, err := new(nistec.P256Point).ScalarMult(H, s)
	if err != nil {
		return err
	}
	_, err = temp.ScalarMult(Gamma, c)
	if err != nil {
		return err
	}
	temp.Negate(temp)
	V.Add(V, temp)
''','''	sB, err := new(nistec.P256Point).ScalarBaseMult(s)
	if err != nil {
		return err
	}
	U, err := subtractMult(sB, p.point, c)
	if err != nil {
		return err
	}
	sH, err := new(nistec.P256Point).ScalarMult(H, s)
	if err != nil {
		return err
	}
	V, err := subtractMult(sH, Gamma, c)
	if err != nil {
		return err
	}
'''),(P2,'func (p *PublicKey) Bytes()','''// subtractMult returns a - c*b.
func subtractMult(a, b *nistec.P256Point, c []byte) (*nistec.P256Point, error) {
	temp, err := new(nistec.P256Point).ScalarMult(b, c)
	if err != nil {
		return nil, err
	}
	temp.Negate(temp)
	return new(nistec.P256Point).Add(a, temp), nil
}

func (p *PublicKey) Bytes()'''))
v('6.p2.sizes',(P2,'type PrivateKey struct','''const (
	pointSize     = 33
	challengeSize = 16
	scalarSize    = 32
	proofSize     = pointSize + challengeSize + scalarSize
)

type PrivateKey struct'''),(P2,'if len(proof) != 33+16+32 {','if len(proof) != proofSize {'),(P2,'proof[:33])\n	if err != nil {\n		return err','proof[:pointSize])\n	if err != nil {\n		return err'),(P2,'copy(c[16:], proof[33:49])','copy(c[scalarSize-challengeSize:], proof[pointSize:pointSize+challengeSize])'),(P2,'	s := proof[49:]','	s := proof[pointSize+challengeSize:]'))
v('6.p2.nonce',(P2,'''	// d. K = HMAC_K(V || 0x00 || priv || h1)
	buf := &bytes.Buffer{}
	buf.Write(V)
	buf.WriteByte(0x00)
	buf.Write(priv)
	buf.Write(h1[:])

	K = mac(K, buf.Bytes())

	// e. V = HMAC_K(V)
	V = mac(K, V)

	// f. K = HMAC_K(V || 0x01 || priv || h1)
	buf.Reset()
	buf.Write(V)
	buf.WriteByte(0x01)
	buf.Write(priv)
	buf.Write(h1[:])

	K = mac(K, buf.Bytes())

	// g. V = HMAC_K(v)
	V = mac(K, V)
''','''	// d-g. Twice: K = HMAC_K(V || sep || priv || h1), V = HMAC_K(V)
	for sep := byte(0); sep < 2; sep++ {
		buf := &bytes.Buffer{}
		buf.Write(V)
		buf.WriteByte(sep)
		buf.Write(priv)
		buf.Write(h1[:])

		K = mac(K, buf.Bytes())
		V = mac(K, V)
	}
'''))
v('6.p2.prove',(P2,'''	proof = make([]byte, 33+16+32)
	copy(proof[:33], Gamma.BytesCompressed())
	copy(proof[33:49], c)
	sInt.FillBytes(proof[49:])

	output = proofToHash(proof[:33])

	return''','''	gamma := Gamma.BytesCompressed()
	proof = make([]byte, 0, 33+16+32)
	proof = append(proof, gamma...)
	proof = append(proof, c...)
	proof = append(proof, sInt.FillBytes(make([]byte, 32))...)

	return proofToHash(gamma), proof'''))
v('6.p2.verify',(P2,'''	err = p.verify(m, proof)
	if err != nil {
		return
	}
	output = proofToHash(proof[:33])
	return''','''	if err := p.verify(m, proof); err != nil {
		return nil, err
	}
	return proofToHash(proof[:33]), nil'''))
v('6.p2.chal',(P2,'''	buf.Write(p1.BytesCompressed())
	buf.Write(p2.BytesCompressed())
	buf.Write(p3.BytesCompressed())
	buf.Write(p4.BytesCompressed())
	buf.Write(p5.BytesCompressed())
''','''	for _, p := range []*nistec.P256Point{p1, p2, p3, p4, p5} {
		buf.Write(p.BytesCompressed())
	}
'''))
v('6.e2.verify',(E2,'''	U := new(edwards25519.Point).ScalarBaseMult(s)
	temp := new(edwards25519.Point).ScalarMult(c, p.point)
	temp.Negate(temp)
	U.Add(U, temp)

	V := new(edwards25519.Point).ScalarMult(s, H)
	temp.ScalarMult(c, Gamma).Negate(temp)
	V.Add(V, temp)
''','''	U := new(edwards25519.Point).ScalarBaseMult(s)
	U.Subtract(U, new(edwards25519.Point).ScalarMult(c, p.point))

	V := new(edwards25519.Point).ScalarMult(s, H)
	V.Subtract(V, new(edwards25519.Point).ScalarMult(c, Gamma))
'''))
v('6.e2.dec',(E2,'''	Gamma, err := new(edwards25519.Point).SetBytes(proof[:32])
	if err != nil {
		return nil, err
	}

	cBytes := make([]byte, 32)
	copy(cBytes[:16], proof[32:48])
	c, err := new(edwards25519.Scalar).SetCanonicalBytes(cBytes)
	if err != nil {
		return nil, err
	}

	s, err := new(edwards25519.Scalar).SetCanonicalBytes(proof[48:])
	if err != nil {
		return nil, err
	}
''','''	gammaBytes, challenge, sBytes := proof[:32], proof[32:48], proof[48:]

	s, err := new(edwards25519.Scalar).SetCanonicalBytes(sBytes)
	if err != nil {
		return nil, err
	}

	cBytes := append(make([]byte, 0, 32), challenge...)
	cBytes = append(cBytes, make([]byte, 16)...)
	c, err := new(edwards25519.Scalar).SetCanonicalBytes(cBytes)
	if err != nil {
		return nil, err
	}

	Gamma, err := new(edwards25519.Point).SetBytes(gammaBytes)
	if err != nil {
		return nil, err
	}
'''))
v('6.nd.read',(ND,'''	vrfOutput := make([]byte, cs.HashSize())
	if _, err := io.ReadFull(buf, vrfOutput); err != nil {
		return nil, err
	}
	commitment := make([]byte, cs.HashSize())
	if _, err := io.ReadFull(buf, commitment); err != nil {
		return nil, err
	}
	return leafNode{vrfOutput, commitment}, nil''','''	vrfOutput, err := readHash(cs, buf)
	if err != nil {
		return nil, err
	}
	commitment, err := readHash(cs, buf)
	if err != nil {
		return nil, err
	}
	return leafNode{vrfOutput: vrfOutput, commitment: commitment}, nil'''),(ND,'''	hash := make([]byte, cs.HashSize())
	if _, err := io.ReadFull(buf, hash); err != nil {
		return nil, err
	}
	ver,''','''	hash, err := readHash(cs, buf)
	if err != nil {
		return nil, err
	}
	ver,'''),(ND,'''type tileId struct''','''func readHash(cs suites.CipherSuite, buf *bytes.Buffer) ([]byte, error) {
	out := make([]byte, cs.HashSize())
	if _, err := io.ReadFull(buf, out); err != nil {
		return nil, err
	}
	return out, nil
}

type tileId struct'''))
v('6.nd.parent',(ND,'''		left, err := unmarshalNode(cs, id, depth+1, buf)
		if err != nil {
			return nil, err
		}
		right, err := unmarshalNode(cs, id, depth+1, buf)
		if err != nil {
			return nil, err
		}
		return &parentNode{left, right, hash, id}, nil
''','''		pn := &parentNode{hash: hash, id: id}
		if pn.left, err = unmarshalNode(cs, id, depth+1, buf); err != nil {
			return nil, err
		}
		if pn.right, err = unmarshalNode(cs, id, depth+1, buf); err != nil {
			return nil, err
		}
		return pn, nil
'''))
v('6.nd.hash',(ND,'''	if pn.hash != nil {
		return pn.hash
	}

	h := cs.Hash()
	h.Write([]byte{0x03})
	h.Write(pn.left.Hash(cs))
	h.Write(pn.right.Hash(cs))
	out := h.Sum(nil)

	pn.hash = out
	return out''','''	if pn.hash == nil {
		left, right := pn.left.Hash(cs), pn.right.Hash(cs)
		h := cs.Hash()
		h.Write([]byte{0x03})
		h.Write(left)
		h.Write(right)
		pn.hash = h.Sum(nil)
	}
	return pn.hash'''))
v('6.sm.omend',(SMN,'''	end := 0
	if req.GreatestVersion != nil {
		end = int(*req.GreatestVersion) - op.monitor.Owner.VerAtStarting
	}
	op.monitor.Owner.UpcomingVers = op.monitor.Owner.UpcomingVers[:end]
''','''	owner := op.monitor.Owner
	if req.GreatestVersion == nil {
		owner.UpcomingVers = owner.UpcomingVers[:0]
	} else {
		owner.UpcomingVers = owner.UpcomingVers[:int(*req.GreatestVersion)-owner.VerAtStarting]
	}
'''))
v('6.sm.omchk',(SMN,'''	op, err := t.startMonitor(req.Last, req.Label)
	if err != nil {
		return nil, err
	}

	// Verify `Entries` is acceptable.
	ptrs, err := verifyEntries(req.Entries, op.index, op.n)
	if err != nil {
		return nil, err
	}
	// Verify that `Start` is less than the size of the tree.
	if req.Start >= t.treeHead.TreeSize {
		return nil, errors.New("advertised starting position is greater than tree size")
	}
	// Verify that `GreatestVersion` is either absent, or less than or equal to
	// the greatest version of the label.
	if req.GreatestVersion != nil && int(*req.GreatestVersion) >= len(op.index) {
		return nil, errors.New("version advertised is greater than known greatest version")
	}
''','''	op, err := t.startMonitor(req.Last, req.Label)
	if err != nil {
		return nil, err
	}
	if !(req.Start < t.treeHead.TreeSize) {
		return nil, errors.New("advertised starting position is greater than tree size")
	}
	greatest := -1
	if req.GreatestVersion != nil {
		greatest = int(*req.GreatestVersion)
	}
	if greatest >= len(op.index) {
		return nil, errors.New("version advertised is greater than known greatest version")
	}
	ptrs, err := verifyEntries(req.Entries, op.index, op.n)
	if err != nil {
		return nil, err
	}
'''))
v('6.sm.omstate',(SMN,'''	op.monitor.Contact = &algorithms.ContactState{Ptrs: ptrs}
	op.monitor.Owner = &algorithms.OwnerState{VerAtStarting: -1, UpcomingVers: op.index}
	op.monitor.Owner.SetStarting(req.Start)
''','''	owner := &algorithms.OwnerState{UpcomingVers: op.index, VerAtStarting: -1}
	owner.SetStarting(req.Start)
	op.monitor.Owner = owner
	op.monitor.Contact = &algorithms.ContactState{Ptrs: ptrs}
'''))
v('6.sm.oi',(SMN,'''	for _, entry := range entries {
		ver := state.GreatestVersionAt(entry)
		if ver == -1 {
			break
		}
		versions = append(versions, uint32(ver))
	}
''','''	for i := 0; i < len(entries); i++ {
		if ver := state.GreatestVersionAt(entries[i]); ver >= 0 {
			versions = append(versions, uint32(ver))
		} else {
			break
		}
	}
'''))
v('6.sm.oi2',(SMN,'''	if _, err := op.monitor.OwnerInit(req.Start, versions); err != nil {
		return nil, err
	}

	fth, combinedProof, err := op.finish()
	if err != nil {
		return nil, err
	}
	return &structs.OwnerInitResponse{
		FullTreeHead: *fth,

		GreatestVersions: versions,
		BinaryLadder:     binaryLadder,
		Init:             *combinedProof,
	}, nil''','''	_, err = op.monitor.OwnerInit(req.Start, versions)
	if err != nil {
		return nil, err
	}
	resp := &structs.OwnerInitResponse{GreatestVersions: versions, BinaryLadder: binaryLadder}
	fth, proof, err := op.finish()
	if err != nil {
		return nil, err
	}
	resp.FullTreeHead = *fth
	resp.Init = *proof
	return resp, nil'''))
v('6.sm.ladder',(SMN,'''		if int(ver) <= greatest { // Only look up existing versions.
			vrfOutputs = append(vrfOutputs, vrfOutput)
		}
		out[i].Proof = proof
''','''		out[i] = structs.BinaryLadderStep{Proof: proof}
		if greatest < int(ver) { // Only look up existing versions.
			continue
		}
		vrfOutputs = append(vrfOutputs, vrfOutput)
'''))
v('6.sm.ver',(SMN,'''			for ver := range handle.RequiredVersions() {
				vrfOutput, _, err := t.computeVrfOutput(label, ver)
				if err != nil {
					return nil, nil, err
				} else if err := handle.AddVersion(ver, vrfOutput); err != nil {
					return nil, nil, err
				}
			}

			proof, err := provider.Output(n, nP, m)
			if err != nil {
				return nil, nil, err
			}
			return fth, proof, nil''','''			if err := t.addRequired(handle, label); err != nil {
				return nil, nil, err
			}
			proof, err := provider.Output(n, nP, m)
			if err != nil {
				return nil, nil, err
			}
			return fth, proof, nil'''),(SMN,'''func (t *Tree) startMonitor(''','''// addRequired computes the VRF output of each version that handle needs.
func (t *Tree) addRequired(handle *algorithms.ProducedProofHandle, label []byte) error {
	for ver := range handle.RequiredVersions() {
		vrfOutput, _, err := t.computeVrfOutput(label, ver)
		if err != nil {
			return err
		}
		if err := handle.AddVersion(ver, vrfOutput); err != nil {
			return err
		}
	}
	return nil
}

func (t *Tree) startMonitor('''))
v('6.sm.all',(SMN,'''	accumulated := make(map[uint32]struct{})
	accumulated[0] = struct{}{}
	for''','''	accumulated := map[uint32]struct{}{0: {}}
	for'''))
v('6.al.rd',(ALG,'''	x := math.Root(n)
	for {
		if x == n-1 {
			return &x, nil
		}

		timestamp, err := provider.GetTimestamp(x)
		if err != nil {
			return nil, err
		} else if !config.IsDistinguished(timestamp, rightmost) {
			return &x, nil
		}

		x = math.Right(x, n)
	}
''','''	x := math.Root(n)
	for x != n-1 {
		timestamp, err := provider.GetTimestamp(x)
		if err != nil {
			return nil, err
		}
		if !config.IsDistinguished(timestamp, rightmost) {
			break
		}
		x = math.Right(x, n)
	}
	return &x, nil
'''))
v('6.al.pr',(ALG,'''	var parent *uint64
	if *rightmost != math.Root(n) {
		temp := math.Parent(*rightmost, n)
		parent = &temp
	}

	// Compute bounds to use for determining distinguished status.
	left := uint64(0)
	if parent != nil {
		left, err = provider.GetTimestamp(*parent)
		if err != nil {
			return nil, err
		}
	}
''','''	var (
		parent *uint64
		left   uint64
	)
	if x := *rightmost; x != math.Root(n) {
		above := math.Parent(x, n)
		left, err = provider.GetTimestamp(above)
		if err != nil {
			return nil, err
		}
		parent = &above
	}
'''))
v('6.al.pr2',(ALG,'''	if hasLeftChild(*rightmost) && config.IsDistinguished(left, right) {
		out := math.Left(*rightmost)
		for {
			if noRightChild(out, n) {
				return &out, nil
			}
			left, err = provider.GetTimestamp(out)
			if err != nil {
				return nil, err
			} else if !config.IsDistinguished(left, right) {
				return &out, nil
			}
			out = math.Right(out, n)
		}
	}

	// Otherwise return the rightmost distinguished log entry's parent, which
	// will be distinguished and to its left.
	return parent, nil''','''	if !hasLeftChild(*rightmost) || !config.IsDistinguished(left, right) {
		return parent, nil
	}
	out := math.Left(*rightmost)
	for !noRightChild(out, n) {
		left, err = provider.GetTimestamp(out)
		if err != nil {
			return nil, err
		}
		if !config.IsDistinguished(left, right) {
			break
		}
		out = math.Right(out, n)
	}
	return &out, nil'''))
