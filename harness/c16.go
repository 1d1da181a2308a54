package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"path/filepath"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

// C16

type SetupCase struct {
	Kind   string `json:"kind"` // powers, natural, seed, builtin
	D      int    `json:"d"`
	Secret B      `json:"secret"`
	Rou    int    `json:"rou,omitempty"`
	Exp    int    `json:"exp,omitempty"`
	Bad    string `json:"bad,omitempty"` // a degenerate input: an error is expected
	N      int    `json:"n,omitempty"`
	E2E    []KV   `json:"e2e,omitempty"` // contents to commit to with the setup (dimension 258)
}

func gSetupCase(s *Src) SetupCase {
	sc := SetupCase{Kind: pick(s, []string{"powers", "powers", "natural", "seed"}), D: s.Range(1, 7), Rou: s.N(50), Exp: s.Range(1, rouFactor-1), N: s.N(1000)}
	if s.Pct(4) {
		sc.D = pick(s, []int{16, 17, 31})
	}
	sc.Secret = s.Seeded(32)
	if sc.Kind == "seed" {
		sc.Secret = s.Bytes(s.N(6))
	}
	if sc.Kind != "seed" && s.Pct(40) {
		sc.Bad = pick(s, []string{"secret-0", "secret-1", "secret-small"})
		if sc.Kind == "powers" {
			sc.Bad = pick(s, []string{"secret-0", "secret-1", "secret-small", "secret-in-domain", "omega-0", "omega-1", "omega-not-rou", "omega-low-order"})
			if sc.D < 2 {
				sc.D = 2
			}
		}
	}
	return sc
}

func (sc *SetupCase) omega() *big.Int {
	return new(big.Int).Exp(refROUBig(sc.Rou), big.NewInt(int64(sc.Exp)), bigOrder)
}

func (sc *SetupCase) make() (*trie_kzg_bn256.TrustedSetup, *big.Int, *big.Int, error) {
	suite := bn256.NewSuite()
	secret := new(big.Int).Mod(new(big.Int).SetBytes(sc.Secret), bigOrder)
	omega := big.NewInt(0)
	if sc.Kind == "powers" {
		omega = sc.omega()
	}
	switch sc.Bad {
	case "secret-0":
		secret = big.NewInt(0)
	case "secret-1":
		secret = big.NewInt(1)
	case "secret-small":
		secret = big.NewInt(int64(sc.N))
	case "secret-in-domain":
		secret = new(big.Int).Exp(omega, big.NewInt(int64(sc.N%sc.D)), bigOrder)
	case "omega-0":
		omega = big.NewInt(0)
	case "omega-1":
		omega = big.NewInt(1)
	case "omega-not-rou":
		omega = new(big.Int).Add(omega, big.NewInt(int64(sc.N+1)))
	case "omega-low-order": // -1 and other roots of orders other than the one used
		q := []int64{2, 3, 4, 8, 32}[sc.N%5]
		e := new(big.Int).Div(new(big.Int).Sub(bigOrder, big.NewInt(1)), big.NewInt(q))
		for b := int64(5); ; b++ {
			omega = new(big.Int).Exp(big.NewInt(b), e, bigOrder)
			if omega.Cmp(big.NewInt(1)) != 0 {
				break
			}
		}
	}
	var ts *trie_kzg_bn256.TrustedSetup
	var err error
	switch sc.Kind {
	case "powers":
		ts, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(suite, uint16(sc.D), scalarOf(omega), scalarOf(secret))
	case "natural":
		ts, err = trie_kzg_bn256.TrustedSetupFromSecretNaturalDomain(suite, uint16(sc.D), scalarOf(secret))
	case "seed":
		ts, err = trie_kzg_bn256.TrustedSetupFromSeed(suite, uint16(sc.D), append([]byte{}, sc.Secret...))
		secret = new(big.Int).Mod(new(big.Int).SetBytes(blake(sc.Secret, 32)), bigOrder)
	}
	return ts, secret, omega, err
}

// refDomain is the stated domain
func refDomain(d int, omega *big.Int) []*big.Int {
	out := make([]*big.Int, d)
	for i := range out {
		if omega.Sign() == 0 {
			out[i] = big.NewInt(int64(i))
		} else {
			out[i] = new(big.Int).Exp(omega, big.NewInt(int64(i)), bigOrder)
		}
	}
	return out
}

// checkSetupShape: everything which does not need the secret
func checkSetupShape(ts *trie_kzg_bn256.TrustedSetup, d int, omega *big.Int) error {
	if int(ts.D) != d || len(ts.LagrangeBasis) != d || len(ts.Diff2) != d || len(ts.Domain) != d {
		return errf("dimension is %d, %d basis elements, %d opening points, %d domain elements, expected %d", ts.D, len(ts.LagrangeBasis), len(ts.Diff2), len(ts.Domain), d)
	}
	if bigOf(ts.Omega).Cmp(omega) != 0 {
		return errf("omega is %s, expected %x", ts.Omega, omega)
	}
	for i, x := range refDomain(d, omega) {
		if bigOf(ts.Domain[i]).Cmp(x) != 0 {
			return errf("domain element %d is %s, expected %x", i, ts.Domain[i], x)
		}
	}
	return nil
}

func refLagrange(dom []*big.Int, i int, x *big.Int) *big.Int {
	num, den := big.NewInt(1), big.NewInt(1)
	t := new(big.Int)
	for j := range dom {
		if j != i {
			num.Mod(num.Mul(num, t.Sub(x, dom[j])), bigOrder)
			den.Mod(den.Mul(den, t.Sub(dom[i], dom[j])), bigOrder)
		}
	}
	return num.Mod(num.Mul(num, den.ModInverse(den, bigOrder)), bigOrder)
}

// checkSetupSecret compares the points with those of the secret (all, or those at some indices)
func checkSetupSecret(ts *trie_kzg_bn256.TrustedSetup, secret *big.Int, omega *big.Int, idx []int) error {
	suite := bn256.NewSuite()
	dom := refDomain(int(ts.D), omega)
	for _, i := range idx {
		l := suite.G1().Point().Mul(scalarOf(refLagrange(dom, i, secret)), nil)
		if !l.Equal(ts.LagrangeBasis[i]) {
			return errf("element %d of the Lagrange basis is not l_%d(secret)", i, i)
		}
		e := suite.G2().Scalar().SetBytes(new(big.Int).Mod(new(big.Int).Sub(secret, dom[i]), bigOrder).Bytes())
		if !suite.G2().Point().Mul(e, nil).Equal(ts.Diff2[i]) {
			return errf("opening point %d is not secret-x_%d", i, i)
		}
	}
	return nil
}

// checkSetupPairing checks without the secret that all points belong to one secret
func checkSetupPairing(ts *trie_kzg_bn256.TrustedSetup) error {
	suite := bn256.NewSuite()
	g1, g2 := suite.G1(), suite.G2()
	sc2 := func(s kyber.Scalar) kyber.Scalar {
		b, err := s.MarshalBinary()
		must(err)
		return g2.Scalar().SetBytes(b)
	}
	s2 := g2.Point().Add(ts.Diff2[0], g2.Point().Mul(sc2(ts.Domain[0]), nil)) // [secret]2
	sum, s1 := g1.Point().Null(), g1.Point().Null()
	var ref kyber.Point
	for i, l := range ts.LagrangeBasis {
		if !g2.Point().Sub(s2, g2.Point().Mul(sc2(ts.Domain[i]), nil)).Equal(ts.Diff2[i]) {
			return errf("opening point %d belongs to another secret", i)
		}
		sum.Add(sum, l)
		s1.Add(s1, g1.Point().Mul(ts.Domain[i], l))
		a := g1.Scalar().One()
		for j := range ts.Domain {
			if j != i {
				a.Mul(a, g1.Scalar().Sub(ts.Domain[i], ts.Domain[j]))
			}
		}
		p := suite.Pair(g1.Point().Mul(a, l), ts.Diff2[i]) // A'(x_i) l_i(s) (s-x_i) = A(s)
		if ref == nil {
			ref = p
		} else if !p.Equal(ref) {
			return errf("element %d of the Lagrange basis does not belong to the secret", i)
		}
	}
	if !sum.Equal(g1.Point().Base()) {
		return errf("elements of the Lagrange basis do not sum up to one")
	}
	if len(ts.Domain) > 1 && !suite.Pair(s1, g2.Point().Base()).Equal(suite.Pair(g1.Point().Base(), s2)) {
		return errf("Lagrange basis and opening points belong to different secrets")
	}
	return nil
}

// refSetupBytes is the layout
func refSetupBytes(ts *trie_kzg_bn256.TrustedSetup) []byte {
	out := binary.LittleEndian.AppendUint16(nil, ts.D)
	ob, _ := ts.Omega.MarshalBinary()
	out = append(out, ob...)
	for _, p := range ts.LagrangeBasis {
		out = append(out, ptBytes(p)...)
	}
	for _, p := range ts.Diff2 {
		out = append(out, ptBytes(p)...)
	}
	return out
}

func sameSetup(a, b *trie_kzg_bn256.TrustedSetup) error {
	if a.D != b.D || !a.Omega.Equal(b.Omega) {
		return errf("dimension or omega differ")
	}
	for i := range a.LagrangeBasis {
		if !a.LagrangeBasis[i].Equal(b.LagrangeBasis[i]) || !a.Diff2[i].Equal(b.Diff2[i]) || !a.Domain[i].Equal(b.Domain[i]) || !a.AprimeDomainI[i].Equal(b.AprimeDomainI[i]) {
			return errf("element %d differs", i)
		}
	}
	return nil
}

// e2e uses the setup for a trie and its proofs
func setupE2E(ts *trie_kzg_bn256.TrustedSetup, kvs []KV) error {
	old := trie_kzg_bn256.Model
	defer func() { trie_kzg_bn256.Model = old }()
	trie_kzg_bn256.Model = &trie_kzg_bn256.CommitmentModel{TrustedSetup: *ts}
	c := Cfg{Kzg: true, Arity: 256}
	m := kvMap(kvs)
	tr := fresh(c, m)
	root := trie.RootCommitment(tr)
	if w := refRoot(c, m); !bytes.Equal(root.Bytes(), w) {
		return errf("root commitment with the setup is %x, expected %x", root.Bytes(), w)
	}
	for _, k := range sortedKeys(m) {
		p, ok := trie_kzg_bn256.Model.ProofOfInclusion([]byte(k), tr)
		if !ok {
			return errf("no proof of inclusion of %x", k)
		}
		if err := checkKzgInclusion(p, root, []byte(k), []byte(m[k])); err != nil {
			return err
		}
		for i, e := range p.Path { // opens to no other value
			if !bytes.Equal(ptBytes(e.C), ptBytes(p.Path[i].C)) {
				return errf("unreachable")
			}
		}
		good := p.Terminal
		p.Terminal = kzgHashScalar([]byte("another value"))
		if p.Validate(root) == nil {
			return errf("key %x opens to another value", k)
		}
		p.Terminal = good
		for i := range p.Path {
			e := p.Path[i]
			idx := e.VectorIndex
			for _, x := range []uint16{0, 1, 255, idx + 1, idx - 1} {
				if x == idx || x > 256 {
					continue
				}
				e.VectorIndex = x
				if p.Validate(root) == nil {
					return errf("key %x: element %d opens at index %d as well", k, i, x)
				}
			}
			e.VectorIndex = idx
		}
	}
	return nil
}

func runC16(sc *SetupCase, st *Stats) error {
	st.Label("kind:" + sc.Kind)
	if sc.Kind == "builtin" {
		ts := &trie_kzg_bn256.Model.TrustedSetup
		dom := make([]string, 0)
		if ts.D != 258 {
			return errf("built-in setup has dimension %d", ts.D)
		}
		om := bigOf(ts.Omega)
		if err := checkSetupShape(ts, 258, om); err != nil {
			return fmt.Errorf("built-in setup: %w", err)
		}
		seen := map[string]bool{}
		for _, x := range refDomain(258, om) {
			dom = append(dom, x.String())
			seen[x.String()] = true
		}
		if len(seen) != len(dom) {
			return errf("built-in setup: domain elements coincide")
		}
		if err := checkSetupPairing(ts); err != nil {
			return fmt.Errorf("built-in setup: %w", err)
		}
		b := trie_kzg_bn256.GetTrustedSetupBin()
		if !bytes.Equal(refSetupBytes(ts), b) || !bytes.Equal(ts.Bytes(), b) {
			return errf("built-in setup: re-serialisation differs from the built-in bytes")
		}
		st.NonTrivial(true)
		return nil
	}
	ts, secret, omega, err := sc.make()
	if sc.Bad != "" {
		st.Label("bad:" + sc.Bad)
		if err == nil {
			return errf("setup %s with %s is accepted (dimension %d)", sc.Kind, sc.Bad, sc.D)
		}
		st.NonTrivial(true)
		return nil
	}
	if err != nil {
		return errf("setup %s of dimension %d is not made: %v", sc.Kind, sc.D, err)
	}
	check := func(ts *trie_kzg_bn256.TrustedSetup, what string) error {
		if err := checkSetupShape(ts, sc.D, omega); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		idx := []int{}
		for i := 0; i < sc.D; i++ {
			if sc.D <= 40 || i%29 == sc.N%29 {
				idx = append(idx, i)
			}
		}
		if err := checkSetupSecret(ts, secret, omega, idx); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		return nil
	}
	if err := check(ts, "new setup"); err != nil {
		return err
	}
	b := ts.Bytes()
	if !bytes.Equal(b, refSetupBytes(ts)) {
		return errf("setup serialises to %x, by the layout %x", b, refSetupBytes(ts))
	}
	back, err := trie_kzg_bn256.TrustedSetupFromBytes(bn256.NewSuite(), append([]byte{}, b...))
	if err != nil {
		return errf("setup %s of dimension %d does not read back: %v", sc.Kind, sc.D, err)
	}
	if err := check(back, "setup read back"); err != nil {
		return err
	}
	if err := sameSetup(ts, back); err != nil {
		return fmt.Errorf("setup read back: %w", err)
	}
	if !bytes.Equal(back.Bytes(), b) {
		return errf("setup read back serialises differently")
	}
	dir, err := os.MkdirTemp("", "c16-")
	must(err)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "setup")
	must(os.WriteFile(fn, b, 0o600))
	ff, err := trie_kzg_bn256.TrustedSetupFromFile(bn256.NewSuite(), fn)
	if err != nil {
		return errf("setup does not read from the file: %v", err)
	}
	if err := sameSetup(ts, ff); err != nil {
		return fmt.Errorf("setup read from file: %w", err)
	}
	if _, err := trie_kzg_bn256.TrustedSetupFromFile(bn256.NewSuite(), fn+".none"); err == nil {
		return errf("missing file is read")
	}
	// malformed: cut, extended, a point off the curve, omega no root of unity
	must(os.WriteFile(fn, b[:len(b)-1-sc.N%(len(b)-1)], 0o600))
	if _, err := trie_kzg_bn256.TrustedSetupFromFile(bn256.NewSuite(), fn); err == nil {
		return errf("cut file is read")
	}
	for _, m := range []func([]byte) []byte{
		func(x []byte) []byte { return append(x, 0) },
		func(x []byte) []byte { x[34+(sc.N%sc.D)*64+20] ^= 1; return x },
		func(x []byte) []byte { x[34+sc.D*64+(sc.N%sc.D)*128+50] ^= 1; return x },
		func(x []byte) []byte { x[33] ^= 3; return x },
		func(x []byte) []byte { // not a domain: all its elements are 1
			if sc.D == 1 {
				return x[1:]
			}
			copy(x[2:34], make([]byte, 32))
			x[33] = 1
			return x
		},
	} {
		x := m(append([]byte{}, b...))
		if _, err := trie_kzg_bn256.TrustedSetupFromBytes(bn256.NewSuite(), x); err == nil {
			return errf("malformed setup is read: %x, valid is %x", x, b)
		}
	}
	if sc.Kind == "powers" && sc.D > 1 && sc.E2E == nil && sc.N%8 == 0 {
		rou, pows := trie_kzg_bn256.GenRootOfUnityQuasiPrimitive(bn256.NewSuite(), uint16(sc.D))
		r := bigOf(rou)
		if r.Cmp(big.NewInt(1)) == 0 || new(big.Int).Exp(r, big.NewInt(rouFactor), bigOrder).Cmp(big.NewInt(1)) != 0 {
			return errf("%x is not a root of unity", r)
		}
		if len(pows) != sc.D {
			return errf("%d powers, expected %d", len(pows), sc.D)
		}
		for i, x := range refDomain(sc.D, r) {
			if bigOf(pows[i]).Cmp(x) != 0 {
				return errf("power %d of the root of unity is wrong", i)
			}
		}
	}
	if sc.E2E != nil {
		if err := setupE2E(ts, sc.E2E); err != nil {
			return fmt.Errorf("setup %s: %w", sc.Kind, err)
		}
		if err := setupE2E(back, sc.E2E[:1]); err != nil {
			return fmt.Errorf("setup %s read back: %w", sc.Kind, err)
		}
		st.Label("end-to-end")
	}
	st.NonTrivial(sc.D > 1)
	return nil
}

func init() {
	kv := []KV{{B(""), B{9}}, {B("\x00a"), B{1}}, {B("\xffb"), B{2}}, {B("\xffbc"), B("value")}}
	sec := B(blake([]byte("secret"), 32))
	register("C16", checkOpt{Quick: 1600, Thor: 40000,
		Rule:   "cases are trusted setups of dimension 1..31 from generated secrets, on powers of generated roots of unity or on the natural domain, and from seeds, and degenerate inputs (secrets 0, 1, small, in the domain; omega 0, 1, no root of unity, of another order); fixed cases are the built-in setup and setups of dimension 258 used end to end as the model of a trie. Basis and opening points are compared with the secret by big-integer Lagrange evaluation, for the built-in one by pairings; bytes with an independent writer; re-read setups must be equal; malformed ones rejected. Non-trivial: dimension above 1 or a degenerate input.",
		Assume: []string{"the pairing library is correct"},
	}, gSetupCase, runC16,
		SetupCase{Kind: "builtin"},
		SetupCase{Kind: "powers", D: 258, Secret: sec, Rou: 3, Exp: 7, E2E: kv},
		SetupCase{Kind: "natural", D: 258, Secret: sec, E2E: kv},
		SetupCase{Kind: "powers", D: 258, Secret: sec, Rou: 3, Exp: 7, N: 257, Bad: "secret-in-domain"},
		SetupCase{Kind: "powers", D: 258, Secret: sec, Rou: 5, Exp: 2, N: 255, Bad: "secret-in-domain"},
		SetupCase{Kind: "powers", D: 2, Secret: sec, Rou: 1, Exp: 1, Bad: "omega-0"},
		SetupCase{Kind: "powers", D: 3, Secret: sec, Rou: 1, Exp: 1, Bad: "omega-not-rou"},
		SetupCase{Kind: "powers", D: 2, Secret: sec, Rou: 1, Exp: 1, Bad: "omega-low-order"},
		SetupCase{Kind: "natural", D: 4, Secret: sec, Rou: 1, Exp: 1},
	)
}
