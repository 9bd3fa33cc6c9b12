package main

import "strings"

func init() {
	register("C15", ``, func(k *Checker) {
		// ECVRF-P256-SHA256-TAI
		k.vrf256()
		k.vrf25519()
	})
}

func zeros(n int) string { return strings.Repeat("0, ", n) }

func (k *Checker) vrf256() {
	const H2C, NONCE, ORDER = "p256.encodeToCurve", "p256.generateNonce", "*crypto/elliptic.Curve.Params(crypto/elliptic.P256()).N"
	chal := func(y, h, g, u, v string) string {
		s := `sha256(cat(1, 2`
		for _, p := range []string{y, h, g, u, v} {
			s += `, nistec.BytesCompressed(` + p + `)`
		}
		return s + `, 0))[:16]`
	}
	const point = `let(H, *p256.encodeToCurve(nistec.BytesCompressed(*recv.point), p0), `
	// a number from 1 to the order of the group minus 1
	order := func(x string) string {
		return `bigint.Sign(bigint.SetBytes(` + x + `)) == 1 && let(C, bigint.Cmp(bigint.SetBytes(Q), ` + ORDER + `), Q == ` + x + ` && C == -1)`
	}

	r := k.root("(*p256.PublicKey).Verify", opaque(H2C))
	k.need("p256.proof", r.oks(), 1, `len(p1) == 81 && nistec.SetBytesErr(p1[:33]) == nil`)
	k.need("p256.scalar", r.oks(), 1, order("p1[49:]"))
	X := "cat(" + zeros(16) + "p1[33:49])"
	k.need("p256.verified", r.oks(), 1, point+`p1[33:49] == `+chal("*recv.point", "H", "nistec.SetBytes(p1[:33])", "nistec.Add(nistec.ScalarBaseMult(p1[49:]), nistec.Negate(nistec.ScalarMult(*recv.point, "+X+")))",
		"nistec.Add(nistec.ScalarMult(H, p1[49:]), nistec.Negate(nistec.ScalarMult(nistec.SetBytes(p1[:33]), "+X+")))")+`)`)
	k.need("p256.output", r.oks(), 1, `ret0 == sha256(cat(1, 3, p1[:33], 0))`)
	k.need("p256.readonly", r.all(), 1, `now(*recv.point) == *recv.point`)
	k.when(H2C, func(r *Run) {
		in := func(c string) string { return `sha256(cat(lit(1, 1), p0, p1, lit(` + c + `, 0)))` }
		k.need("p256.curve", r.oks(), 1, `match(now(*ret0), nistec.SetBytes(X)) && nistec.SetBytesErr(X) == nil && X[0] == 2 && len(X) == 33 && any(match(X[1:33], `+in("narrow_byte(C)")+`), match(X[1:33], `+in("C")+`)) && forall(I, C, nistec.SetBytesErr(_) != nil)`)
	})

	r = k.root("(*p256.PrivateKey).Prove", opaque(H2C, NONCE))
	k.need("p256.size", r.oks(), 1, `len(ret1) == 81`)
	k.need("p256.gamma", r.oks(), 1, point+`ret1[:33] == nistec.BytesCompressed(nistec.ScalarMult(H, recv.scalar)))`)
	nonce := point + `let(K, ` + NONCE + `(recv.scalar, nistec.BytesCompressed(H)), did(K) && `
	k.need("p256.challenge", r.oks(), 1, nonce+`ret1[33:49] == `+chal("*recv.point", "H", "nistec.ScalarMult(H, recv.scalar)", "nistec.ScalarBaseMult(K)", "nistec.ScalarMult(H, K)")+`))`)
	k.need("p256.response", r.oks(), 1, nonce+`let(S, bigint.Mod(bigint.Add(bigint.SetBytes(K), bigint.Mul(bigint.SetBytes(Y), bigint.SetBytes(recv.scalar))), `+ORDER+`), Y == ret1[33:49] && match(ret1[49:81], fixed(S, 32)))))`)
	k.need("p256.proved", r.oks(), 1, `ret0 == sha256(cat(1, 3, ret1[:33], 0))`)
	k.need("p256.private", r.all(), 1, `now(*recv.point) == *recv.point && now(recv.scalar) == recv.scalar`)
	k.when(NONCE, func(r *Run) {
		k.need("p256.nonce", r.oks(), 1, order("ret0"))
		k.need("p256.nonce.input", r.oks(), 1, `match(ret0, digest(hmac(_, A), B)) && match(iter(A, 0), digest(hmac(_, Y), Z)) && mentions(Z, p0) && mentions(Z, p1) && mentions(Y, p0) && mentions(Y, p1)`)
	})

	r = k.root("p256.NewPrivateKey")
	k.need("p256.key", r.oks(), 1, `len(p0) == 32 && `+order("p0"))
	k.need("p256.keypair", r.oks(), 1, `ret0.scalar == p0 && *ret0.point == nistec.ScalarBaseMult(p0)`)
	r = k.root("(*p256.PrivateKey).PublicKey")
	k.need("p256.public", r.all(), 1, `ret0.point == recv.point`)
	r = k.root("p256.NewPublicKey")
	k.need("p256.parsed", r.oks(), 1, `nistec.SetBytesErr(p0) == nil && *ret0.point == nistec.SetBytes(p0) && len(p0) != 1`)
	r = k.root("(*p256.PublicKey).Bytes")
	k.need("p256.encoded", r.all(), 1, `ret0 == nistec.BytesCompressed(*recv.point)`)
}

func (k *Checker) vrf25519() {
	chal := func(y, h, g, u, v string) string {
		s := `sha512(cat(3, 2`
		for _, p := range []string{y, h, g, u, v} {
			s += `, edwards.Bytes(` + p + `)`
		}
		return s + `, 0))`
	}
	// x holds the first 16 bytes of a challenge followed by zeros
	short := func(x, c string) string {
		return `any(` + x + ` == cat(` + c + `[:16], ` + zeros(15) + `0), match(` + x + `, L[:32]) && match(L, lv(16)) && match(iter(L, 0), ` + c + `) && forall(J, 16, iter(L, J + 1) == eupd(iter(L, J), J + 16, 0)))`
	}
	const H2C, NONCE = "edwards25519.encodeToCurve", "edwards25519.generateNonce"
	const point = `let(H, *edwards25519.encodeToCurve(edwards.Bytes(*recv.point), p0), `
	C, S, G := "scalar.SetCanonicalBytes(cat(p1[32:48], "+zeros(15)+"0))", "scalar.SetCanonicalBytes(p1[48:])", "edwards.SetBytes(p1[:32])"
	output := func(g string) string {
		return `sha512(cat(3, 3, edwards.Bytes(edwards.MultByCofactor(` + g + `)), 0))[:32]`
	}
	r := k.root("(*edwards25519.PublicKey).Verify", opaque(H2C))
	k.need("ed25519.proof", r.oks(), 1, `len(p1) == 80 && edwards.SetBytesErr(p1[:32]) == nil && scalar.SetCanonicalBytesErr(p1[48:]) == nil`)
	k.need("ed25519.verified", r.oks(), 1, point+short("cat(p1[32:48], "+zeros(15)+"0)", chal("*recv.point", "H", G, "edwards.Add(edwards.ScalarBaseMult("+S+"), edwards.Negate(edwards.ScalarMult("+C+", *recv.point)))",
		"edwards.Add(edwards.ScalarMult("+S+", H), edwards.Negate(edwards.ScalarMult("+C+", "+G+")))"))+`)`)
	k.need("ed25519.output", r.oks(), 1, `ret0 == `+output(G))
	k.need("ed25519.readonly", r.all(), 1, `now(*recv.point) == *recv.point`)
	k.when(H2C, func(r *Run) {
		in := func(c string) string { return `sha512(cat(lit(3, 1), p0, p1, lit(` + c + `, 0)))` }
		k.need("ed25519.curve", r.oks(), 1, `match(now(*ret0), edwards.MultByCofactor(edwards.SetBytes(X))) && edwards.SetBytesErr(X) == nil && any(match(X, slice(`+in("narrow_byte(C)")+`, 0, 32)), match(X, slice(`+in("C")+`, 0, 32))) && forall(I, C, edwards.SetBytesErr(_) != nil)`)
	})

	r = k.root("(*edwards25519.PrivateKey).Prove", opaque(H2C, NONCE))
	G = "edwards.ScalarMult(*recv.scalar, H)"
	k.need("ed25519.size", r.oks(), 1, `len(ret1) == 80`)
	k.need("ed25519.gamma", r.oks(), 1, point+`ret1[:32] == edwards.Bytes(`+G+`))`)
	nonce := point + `let(K, *` + NONCE + `(recv.upper, edwards.Bytes(H)), `
	k.need("ed25519.challenge", r.oks(), 1, nonce+`match(ret1[48:80], scalar.Bytes(scalar.MultiplyAdd(*recv.scalar, scalar.SetCanonicalBytes(X), K))) && scalar.SetCanonicalBytesErr(X) == nil && ret1[32:48] == X[:16] && `+short("X", chal("*recv.point", "H", G, "edwards.ScalarBaseMult(K)", "edwards.ScalarMult(K, H)"))+`))`)
	k.need("ed25519.proved", r.oks(), 1, point+`ret0 == `+output(G)+`)`)
	k.need("ed25519.private", r.all(), 1, `now(*recv.point) == *recv.point && now(*recv.scalar) == *recv.scalar && now(recv.upper) == recv.upper`)
	k.when(NONCE, func(r *Run) {
		k.need("ed25519.nonce", r.oks(), 1, `*ret0 == scalar.SetUniformBytes(sha512(cat(p0, p1)))`)
	})
	r = k.root("edwards25519.NewPrivateKey")
	k.need("ed25519.keypair", r.oks(), 1, `len(p0) == 32 && *ret0.scalar == scalar.SetBytesWithClamping(sha512(p0)[:32]) && *ret0.point == edwards.ScalarBaseMult(*ret0.scalar) && ret0.upper == sha512(p0)[32:64]`)
	r = k.root("(*edwards25519.PrivateKey).PublicKey")
	k.need("ed25519.public", r.all(), 1, `ret0.point == recv.point`)
	r = k.root("edwards25519.NewPublicKey")
	k.need("ed25519.parsed", r.oks(), 1, `edwards.SetBytesErr(p0) == nil && *ret0.point == edwards.SetBytes(p0)`)
	k.need("ed25519.order", r.oks(), 1, `let(E, edwards.Equal(edwards.MultByCofactor(edwards.SetBytes(p0)), _), E != 1)`)
	r = k.root("(*edwards25519.PublicKey).Bytes")
	k.need("ed25519.encoded", r.all(), 1, `ret0 == edwards.Bytes(*recv.point)`)
}

func init() {
	register("C16", ``, func(k *Checker) {
		const fixed = "elems(216, 33, 248, 121, 13, 151, 112, 151, 150, 180, 215, 144, 51, 87, 195, 245)"
		mac := func(x string) string {
			return `match(` + x + `, digest(hmac(A, suites.CipherSuite.CommitmentFixedBytes(p0)), cat(p1, p2))) && mentions(A, p0)`
		}
		r := k.root("commitments.Commit")
		k.need("commit.value", r.all(), 1, mac("ret0"))
		r = k.root("commitments.Verify", opaque("commitments.Commit"))
		k.need("commit.verify", r.all(), 1, `imp(ret0 == true, commitments.Commit(p0, p1, p2) == p3)`)
		r = k.root("commitments.GenerateOpening")
		k.need("commit.opening", r.all(), 1, `let(R, crypto/rand.Read(X), did(R) && match(ret0, after(R, _)) && len(ret0) == suites.CipherSuite.CommitmentOpeningSize(p0))`)
		for _, s := range []struct{ name, id, proof, vrf, priv, pub string }{
			{"KTSha256P256", "1", "81", "p256", "crypto/ecdsa.ParseRawPrivateKey(crypto/elliptic.P256(), p0)", "crypto/ecdsa.ParseUncompressedPublicKey(crypto/elliptic.P256(), p0)"},
			{"KTSha256Ed25519", "2", "80", "edwards25519", "", ""},
		} {
			f := func(m string) *Run { return k.root("(suites." + s.name + ")." + m) }
			k.need("suite.id", f("Id").all(), 1, `ret0 == `+s.id)
			k.need("suite.hash", f("HashSize").all(), 1, `ret0 == 32`)
			k.need("suite.hash", f("Hash").all(), 1, `match(raw0, mkhash(function("crypto/sha256.New")))`)
			k.need("suite.opening", f("CommitmentOpeningSize").all(), 1, `ret0 == 16`)
			k.need("suite.fixed", f("CommitmentFixedBytes").all(), 1, `ret0 == `+fixed)
			k.need("suite.proof", f("VrfProofSize").all(), 1, `ret0 == `+s.proof)
			k.need("suite.vrf", f("ParseVRFPrivateKey").oks(), 1, `let(K, `+s.vrf+`.NewPrivateKey(p0), res1(K) == nil && match(ret0, res0(K)))`)
			k.need("suite.vrf", f("ParseVRFPublicKey").oks(), 1, `let(K, `+s.vrf+`.NewPublicKey(p0), res1(K) == nil && match(ret0, res0(K)))`)
			if s.priv != "" {
				k.need("suite.signing", f("ParseSigningPrivateKey").oks(), 1, `let(K, `+s.priv+`, res1(K) == nil && match(ret0, suites.p256PrivateKey{inner: res0(K)}))`)
				k.need("suite.signing", f("ParseSigningPublicKey").oks(), 1, `let(K, `+s.pub+`, res1(K) == nil && match(ret0, suites.p256PublicKey{inner: res0(K)}))`)
			} else {
				k.need("suite.signing", f("ParseSigningPrivateKey").oks(), 1, `len(p0) == 32 && match(ret0, suites.ed25519PrivateKey{inner: crypto/ed25519.NewKeyFromSeed(p0)})`)
				k.need("suite.signing", f("ParseSigningPublicKey").oks(), 1, `len(p0) == 32 && match(ret0, suites.ed25519PublicKey{inner: p0})`)
			}
		}
		r = k.root("(suites.p256PrivateKey).Sign")
		k.need("p256.sign", r.oks(), 1, `let(S, crypto/ecdsa.Sign(_, recv.inner, sha256(p0)), did(S) && res2(S) == nil && len(ret0) == 64 && mentions(ret0, res0(S)) && mentions(ret0, res1(S)))`)
		r = k.root("(suites.p256PublicKey).Verify")
		k.need("p256.verify", r.all(), 1, `imp(ret0 == true, ret0 == crypto/ecdsa.Verify(recv.inner, sha256(p0), A, B) && len(p1) == 64 && match(A, &bigint.SetBytes(p1[:32])) && match(B, &bigint.SetBytes(p1[32:])))`)
		r = k.root("(suites.ed25519PrivateKey).Sign")
		k.need("ed25519.sign", r.oks(), 1, `let(S, (crypto/ed25519.PrivateKey).Sign(recv.inner, _, p0, H), match(ret0, res0(S)) && match(H, 0))`)
		r = k.root("(suites.ed25519PublicKey).Verify")
		k.need("ed25519.verify", r.all(), 1, `imp(ret0 == true, match(ret0, crypto/ed25519.Verify(recv.inner, p0, p1)))`)
		r = k.root("(suites.p256PrivateKey).Public")
		k.need("p256.public", r.all(), 1, `match(ret0, suites.p256PublicKey{inner: &recv.inner.PublicKey})`)
		r = k.root("(suites.ed25519PrivateKey).Public")
		k.need("ed25519.public", r.all(), 1, `match(ret0, suites.ed25519PublicKey{inner: as((crypto/ed25519.PrivateKey).Public(recv.inner), crypto/ed25519.PublicKey)})`)
		r = k.root("(suites.p256PublicKey).Bytes")
		k.need("p256.encoded", r.all(), 1, `match(ret0, res0((*crypto/ecdsa.PublicKey).Bytes(recv.inner)))`)
		r = k.root("(suites.ed25519PublicKey).Bytes")
		k.need("ed25519.encoded", r.all(), 1, `ret0 == recv.inner`)
	})
}
