package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

// ---- reference KZG openings

var qii struct {
	sync.Mutex
	m map[int]kyber.Point
}

// refQii is [(l_i(s)-1)/(s-x_i)]1: the quotient is -1/(x_j-x_i) at x_j and sum of 1/(x_i-x_j) at x_i
func refQii(i int) kyber.Point {
	qii.Lock()
	defer qii.Unlock()
	if qii.m == nil {
		qii.m = map[int]kyber.Point{}
	}
	if p, ok := qii.m[i]; ok {
		return p
	}
	ts := trie_kzg_bn256.Model
	g := ts.Suite.G1()
	sum := g.Point().Null()
	own := g.Scalar().Zero()
	for j := range ts.Domain {
		if j == i {
			continue
		}
		q := g.Scalar().Sub(ts.Domain[i], ts.Domain[j]) // -(x_j-x_i)
		q.Inv(q)
		own.Add(own, q)
		sum.Add(sum, g.Point().Mul(q, ts.LagrangeBasis[j]))
	}
	sum.Add(sum, g.Point().Mul(own, ts.LagrangeBasis[i]))
	qii.m[i] = sum
	return sum
}

var aprimes struct {
	sync.Mutex
	m map[int]kyber.Scalar
}

func refAprime(i int) kyber.Scalar {
	aprimes.Lock()
	defer aprimes.Unlock()
	if aprimes.m == nil {
		aprimes.m = map[int]kyber.Scalar{}
	}
	if s, ok := aprimes.m[i]; ok {
		return s
	}
	ts := trie_kzg_bn256.Model
	ret := ts.Suite.G1().Scalar().One()
	e := ts.Suite.G1().Scalar()
	for j := range ts.Domain {
		if j != i {
			ret.Mul(ret, e.Sub(ts.Domain[i], ts.Domain[j]))
		}
	}
	aprimes.m[i] = ret
	return ret
}

// refKzgProve opens the vector at index i: the commitment to (f(X)-f(x_i))/(X-x_i), assembled from those of
// the elements of the Lagrange basis
func refKzgProve(vect map[int]kyber.Scalar, i int) kyber.Point {
	ts := trie_kzg_bn256.Model
	g := ts.Suite.G1()
	sum := g.Point().Null()
	for k, f := range vect {
		if k == i {
			sum.Add(sum, g.Point().Mul(f, refQii(i)))
			continue
		}
		// l_k/(X-x_i) is 1/(x_k-x_i) at x_k, l_k'(x_i) at x_i and 0 elsewhere
		inv := g.Scalar().Sub(ts.Domain[k], ts.Domain[i])
		inv.Inv(inv)
		a := g.Scalar().Mul(f, inv)
		sum.Add(sum, g.Point().Mul(a, ts.LagrangeBasis[k]))
		b := g.Scalar().Div(refAprime(i), refAprime(k))
		b.Mul(b, a)
		b.Neg(b)
		sum.Add(sum, g.Point().Mul(b, ts.LagrangeBasis[i]))
	}
	return sum
}

// refKzgVerify checks e(pi, [s-x_i]2) = e(C-[y]1, H)
func refKzgVerify(c, pi kyber.Point, y kyber.Scalar, i int) bool {
	ts := trie_kzg_bn256.Model
	e := ts.Suite.G1().Point().Mul(y, nil)
	e.Sub(c, e)
	return ts.Suite.Pair(pi, ts.Diff2[i]).Equal(ts.Suite.Pair(e, ts.Suite.G2().Point().Base()))
}

// ---- C13

// kzgElem is one element of a KZG proof as written
type kzgElem struct {
	c, pi []byte
	idx   int
}

// refKzgProofBytes is the layout of an inclusion proof
func refKzgProofBytes(key []byte, terminal []byte, es []kzgElem) []byte {
	out := binary.LittleEndian.AppendUint16(nil, uint16(len(key)))
	out = append(out, key...)
	out = append(out, terminal...)
	out = binary.LittleEndian.AppendUint16(out, uint16(len(es)))
	for _, e := range es {
		out = append(out, e.c...)
		out = binary.LittleEndian.AppendUint16(out, uint16(e.idx))
		out = append(out, e.pi...)
	}
	return out
}

func ptBytes(p kyber.Point) []byte {
	b, err := p.MarshalBinary()
	must(err)
	return b
}

// refKzgHonest is the proof of inclusion which the definition gives, nil for absent keys
func refKzgHonest(c Cfg, t *refNode, key []byte) []byte {
	path, ending, last := refPath(t, key)
	if len(path) == 0 || ending != trie.EndingTerminal || last.data == nil {
		return nil
	}
	var es []kzgElem
	n := t
	for i := range path {
		idx := 256
		if i+1 < len(path) {
			idx = int(path[i+1][len(path[i+1])-1])
		}
		es = append(es, kzgElem{n.hash, ptBytes(refKzgProve(n.kzgVector(), idx)), idx})
		if idx < 256 {
			n = n.children[idx]
		}
	}
	return refKzgProofBytes(key, refTermBytes(c, last.data), es)
}

func (n *refNode) kzgVector() map[int]kyber.Scalar {
	ch := map[int][]byte{}
	for i, x := range n.children {
		ch[i] = x.hash
	}
	return refKzgVector(n.pf, ch, n.data)
}

func gC13(s *Src) HistCase {
	c := Cfg{Kzg: true, Arity: 256, Opt: s.Pct(40)}
	h := HistCase{Cfg: c, Imm: s.Pct(25)}
	h.Ops = gHistory(s, c, histOpt{maxOps: 10, pool: keyPool(s, 1, 6), reads: true})
	return h
}

// kzgUsed is a proof object which holds something already
func kzgUsed() *trie_kzg_bn256.ProofOfInclusion {
	g := trie_kzg_bn256.Model.Suite.G1()
	e := &trie_kzg_bn256.ProofElement{C: g.Point().Base(), VectorIndex: 7, Proof: g.Point().Base()}
	return &trie_kzg_bn256.ProofOfInclusion{Key: []byte("used"), Terminal: g.Scalar().One(), Path: []*trie_kzg_bn256.ProofElement{e, e, e}}
}

func runC13(h *HistCase, st *Stats) error {
	w := newWorld(h.Cfg)
	w.imm = h.Imm
	c := h.Cfg
	for _, op := range h.Ops {
		w.apply(op)
	}
	w.commit()
	t := refTree(c, w.cur)
	refCommit(c, t)
	probes := probeKeys(w.cur)
	for _, op := range h.Ops {
		if op.K != nil && len(probes) < 60 {
			probes = append(probes, op.K)
		}
	}
	t.walk(func(n *refNode) { // branch points
		probes = append(probes, n.key, append(append([]byte{}, n.key...), n.pf...))
	})
	seen := map[string]bool{}
	nPres, nAbs := 0, 0
	one := func(where string, ns trie.NodeStore, k []byte) error {
		p, ok := trie_kzg_bn256.Model.ProofOfInclusion(append([]byte{}, k...), ns)
		v, present := w.cur[string(k)]
		if ok != present {
			return errf("%s: key %x: present %v, proof of inclusion returned %v; contents %s", where, k, present, ok, dumpMap(w.cur))
		}
		if !present {
			if p != nil {
				return errf("%s: absent key %x: not nil proof", where, k)
			}
			nAbs++
			return nil
		}
		nPres++
		root := trie.RootCommitment(ns)
		if err := checkKzgInclusion(p, root, k, []byte(v)); err != nil {
			return fmt.Errorf("%s: %w; contents %s", where, err, dumpMap(w.cur))
		}
		b := p.Bytes()
		if want := refKzgHonest(c, t, k); !bytes.Equal(b, want) {
			return errf("%s: key %x: proof is\n %x, by the definition\n %x; contents %s", where, k, b, want, dumpMap(w.cur))
		}
		back, err := trie_kzg_bn256.ProofOfInclusionFromBytes(b)
		if err != nil {
			return errf("%s: key %x: proof does not read back: %v", where, k, err)
		}
		if !bytes.Equal(back.Bytes(), b) {
			return errf("%s: key %x: proof changes by serialisation", where, k)
		}
		if used := kzgUsed(); used.Read(bytes.NewReader(b)) != nil || !bytes.Equal(used.Bytes(), b) {
			return errf("%s: key %x: reading the proof into a used one gives another proof", where, k)
		}
		if err := back.Validate(root, []byte(v)); err != nil {
			return errf("%s: key %x: proof does not validate after serialisation: %v", where, k, err)
		}
		if err := back.Validate(root, append([]byte(v), 1)); err == nil {
			return errf("%s: key %x: proof validates with a wrong value after serialisation", where, k)
		}
		return nil
	}
	budget := 3
	for _, k := range probes {
		if seen[string(k)] {
			continue
		}
		seen[string(k)] = true
		if _, ok := w.cur[string(k)]; ok {
			if budget == 0 {
				continue
			}
			budget--
		}
		if err := one("trie", w.tr, k); err != nil {
			return err
		}
	}
	w.persist()
	srcs := map[string]trie.NodeStore{"reader": w.reader(), "reopened trie": trie.New(w.model, w.nodes, w.vals, c.Opt), "persisted trie": w.tr}
	done := map[string]bool{}
	for i, k := range probes {
		if _, ok := w.cur[string(k)]; ok {
			if len(done) == 0 {
				done[string(k)] = true
				if err := one("reader", srcs["reader"], k); err != nil {
					return err
				}
				if err := one("reopened trie", srcs["reopened trie"], k); err != nil {
					return err
				}
			}
			continue
		}
		for _, n := range sortedKeys(srcs) {
			if i < 20 {
				if err := one(n, srcs[n], k); err != nil {
					return err
				}
			}
		}
	}
	histLabels(st, w)
	st.LabelN("proofs:presence", nPres)
	st.LabelN("proofs:absence", nAbs)
	st.NonTrivial(nPres > 1 && nAbs > 1)
	return nil
}

// ---- C14

// KzgForge describes a forged inclusion proof: any walk down the known tree, openings which the forger can compute
type KzgForge struct {
	Walk  B     `json:"walk"`
	Depth int   `json:"depth,omitempty"`
	Key   B     `json:"key"`
	Last  int   `json:"last"` // index opened in the last element
	Alts  []Alt `json:"alts,omitempty"`
}

type KzgForgeCase struct {
	Opt    bool       `json:"opt,omitempty"`
	KVs    []KV       `json:"kvs"`
	Forges []KzgForge `json:"forges"`
}

func gKzgForgeCase(s *Src) KzgForgeCase {
	c := Cfg{Kzg: true, Arity: 256, Opt: s.Pct(30)}
	f := KzgForgeCase{Opt: c.Opt, KVs: gContents(s, c, 1, 5)}
	m := kvMap(f.KVs)
	for n := s.Range(3, 7); n > 0; n-- {
		x := KzgForge{Walk: gUnpacked(s, c, m), Last: 256}
		x.Key = append(B{}, x.Walk...)
		if s.Pct(12) {
			x.Key = gUnpacked(s, c, m)
		}
		if s.Pct(35) {
			x.Depth = s.Range(1, 3)
		}
		if s.Pct(25) {
			x.Last = pick(s, []int{257, 0, 1, 255, s.N(256)})
		}
		if s.Pct(70) {
			for j := s.Range(1, 2); j > 0; j-- {
				a := Alt{E: s.N(5), I: s.N(300), K: pick(s, []string{"index", "index-reopen", "terminal", "terminal-zero", "terminal-child", "terminal-pf", "c-other", "c-inf", "c-rand", "pi-other", "pi-inf", "pi-rand", "drop", "dup", "swap", "splice", "append", "prepend", "bytes", "open-wrong-value", "negate", "add-mid"})}
				a.D = s.Bytes(s.Range(1, 3))
				x.Alts = append(x.Alts, a)
			}
		}
		f.Forges = append(f.Forges, x)
	}
	return f
}

type kzgForged struct {
	key  []byte
	term []byte
	es   []kzgElem
}

func (f *KzgForge) build(c Cfg, root *refNode) []byte {
	suite := trie_kzg_bn256.Model.Suite
	var all []*refNode
	root.walk(func(n *refNode) { all = append(all, n) })
	path, _, _ := refPath(root, f.Walk)
	var nodes []*refNode
	n := root
	for i := range path {
		if f.Depth > 0 && i >= f.Depth {
			break
		}
		nodes = append(nodes, n)
		if i+1 < len(path) {
			n = n.children[int(path[i+1][len(path[i+1])-1])]
		}
	}
	p := kzgForged{key: f.Key}
	zero := make([]byte, 32)
	p.term = zero
	open := func(n *refNode, idx int) kzgElem {
		e := kzgElem{c: n.hash, idx: idx}
		if idx > 257 {
			idx = 257
		}
		e.pi = ptBytes(refKzgProve(n.kzgVector(), idx))
		return e
	}
	for i, n := range nodes {
		idx := f.Last
		if i+1 < len(nodes) {
			idx = int(nodes[i+1].key[len(nodes[i+1].key)-1])
		}
		p.es = append(p.es, open(n, idx))
		if i == len(nodes)-1 {
			if s, ok := n.kzgVector()[idx]; ok {
				p.term, _ = s.MarshalBinary()
			}
		}
	}
	for _, a := range f.Alts {
		if len(p.es) == 0 {
			break
		}
		i := a.E % len(p.es)
		e := &p.es[i]
		other := all[a.I%len(all)]
		switch a.K {
		case "index":
			e.idx = []int{a.I, a.I % 258, e.idx + 1, 256, 257, 65535}[int(a.D[0])%6]
		case "index-reopen":
			for _, n := range all {
				if bytes.Equal(n.hash, e.c) {
					*e = open(n, a.I%258)
				}
			}
		case "terminal":
			p.term = refTermBytes(c, a.D)
		case "terminal-zero":
			p.term = zero
		case "terminal-child":
			p.term, _ = kzgHashScalar(other.hash).MarshalBinary()
		case "terminal-pf":
			p.term, _ = refKzgVector(other.pf, nil, nil)[257].MarshalBinary()
		case "c-other":
			e.c = other.hash
		case "c-inf":
			e.c = ptBytes(suite.G1().Point().Null())
		case "c-rand":
			e.c = kzgPointBytes(a.I % 40)
		case "pi-other":
			e.pi = ptBytes(refKzgProve(other.kzgVector(), a.I%258))
		case "pi-inf":
			e.pi = ptBytes(suite.G1().Point().Null())
		case "pi-rand":
			e.pi = kzgPointBytes(a.I % 40)
		case "drop":
			p.es = append(p.es[:i:i], p.es[i+1:]...)
		case "dup":
			p.es = append(p.es[:i+1:i+1], p.es[i:]...)
		case "swap":
			j := a.I % len(p.es)
			p.es[i], p.es[j] = p.es[j], p.es[i]
		case "splice":
			*e = open(other, e.idx)
		case "append":
			idx := pick(newSrc(uint64(a.I)+1), []int{256, 256, 0, 257})
			p.es = append(p.es, open(other, idx))
			if s, ok := other.kzgVector()[idx]; ok {
				p.term, _ = s.MarshalBinary()
			}
		case "prepend":
			p.es = append([]kzgElem{open(root, a.I%258)}, p.es...)
		case "open-wrong-value":
			// proof for another value at the same index: pi for f+d*l_i, which has another commitment
			for _, n := range all {
				if bytes.Equal(n.hash, e.c) {
					v := n.kzgVector()
					idx := e.idx
					if idx > 257 {
						idx = 257
					}
					v[idx] = kzgHashScalar(a.D)
					e.pi = ptBytes(refKzgProve(v, idx))
					if i == len(p.es)-1 {
						p.term, _ = v[idx].MarshalBinary()
					}
				}
			}
		case "negate":
			pt := suite.G1().Point()
			if pt.UnmarshalBinary(e.pi) == nil {
				e.pi = ptBytes(pt.Neg(pt))
			}
		case "add-mid": // an element which is self-consistent for a made-up node
			v := refKzgVector(a.D, nil, a.D)
			sum := suite.G1().Point().Null()
			for k, s := range v {
				sum.Add(sum, suite.G1().Point().Mul(s, trie_kzg_bn256.Model.LagrangeBasis[k]))
			}
			p.es = append(p.es[:i:i], append([]kzgElem{{c: ptBytes(sum), idx: 256, pi: ptBytes(refKzgProve(v, 256))}}, p.es[i:]...)...)
			if i == len(p.es)-2 {
				p.es = p.es[:i+1]
				p.term = refTermBytes(c, a.D)
			}
		}
	}
	b := refKzgProofBytes(p.key, p.term, p.es)
	for _, a := range f.Alts {
		if a.K == "bytes" {
			b = append([]byte{}, b...)
			b[(a.I*37+int(a.D[0]))%len(b)] ^= a.D[len(a.D)-1] | 1
		}
	}
	return b
}

func runC14(f *KzgForgeCase, st *Stats) error {
	c := Cfg{Kzg: true, Arity: 256, Opt: f.Opt}
	m := kvMap(f.KVs)
	t := refTree(c, m)
	rootB := refCommit(c, t)
	root := trie_kzg_bn256.Model.NewVectorCommitment()
	if err := root.Read(bytes.NewReader(rootB)); err != nil {
		return errf("root does not read: %v", err)
	}
	accepted, rejected := 0, 0
	for i := range f.Forges {
		b := f.Forges[i].build(c, t)
		p, err := trie_kzg_bn256.ProofOfInclusionFromBytes(append([]byte{}, b...))
		if err != nil {
			st.Label("unreadable")
			continue
		}
		vals := [][]byte{{1}, nil}
		for _, k := range sortedKeys(m) {
			vals = append(vals, []byte(m[k]))
		}
		if err := p.Validate(root); err != nil {
			rejected++
			for _, v := range vals {
				if p.Validate(root, v) == nil {
					return errf("forge %d: a proof which does not validate validates with value %x", i, v)
				}
			}
			continue
		}
		accepted++
		if len(p.Path) > 0 {
			st.Label("accepted")
		}
		// the path which was opened
		lie, n := c14truth(c, p, t)
		if lie != "" {
			return errf("forge %d: %s\n proof %x\n contents %s", i, lie, b, dumpMap(m))
		}
		for _, v := range vals {
			want := bytes.Equal(refTermBytes(c, v), refTermBytes(c, n.data))
			if got := p.Validate(root, v) == nil; got != want {
				return errf("forge %d: the value at the opened path commits to data %x, validation with value %x succeeds: %v; contents %s", i, n.data, v, got, dumpMap(m))
			}
		}
		if !bytes.Equal(p.Key, append(append([]byte{}, n.key...), n.pf...)) {
			st.Known("C14-key")
		}
	}
	st.LabelN("forged:accepted", accepted)
	st.LabelN("forged:rejected", rejected)
	st.NonTrivial(rejected > 0 && len(m) > 0)
	return nil
}

// c14truth follows the opened indices down the tree
func c14truth(c Cfg, p *trie_kzg_bn256.ProofOfInclusion, t *refNode) (string, *refNode) {
	n := t
	if len(p.Path) == 0 {
		return "an empty path validates", nil
	}
	for i, e := range p.Path {
		if n == nil {
			return fmt.Sprintf("element %d is beyond the tree", i), nil
		}
		if !bytes.Equal(ptBytes(e.C), n.hash) {
			return fmt.Sprintf("commitment of element %d is not that of the node", i), nil
		}
		idx := int(e.VectorIndex)
		if i < len(p.Path)-1 {
			if idx > 255 || n.children[idx] == nil {
				return fmt.Sprintf("element %d opens index %d, where there is no child", i, idx), nil
			}
		} else {
			if idx != 256 {
				return fmt.Sprintf("the last element opens index %d", idx), nil
			}
			if n.data == nil {
				return "validates although the node has no value", nil
			}
			tb, err := p.Terminal.MarshalBinary()
			must(err)
			if !bytes.Equal(tb, refTermBytes(c, n.data)) {
				return fmt.Sprintf("terminal %x is not the commitment to the data %x", tb, n.data), nil
			}
		}
		if !bytes.Equal(ptBytes(e.Proof), ptBytes(refKzgProve(n.kzgVector(), idx))) {
			return fmt.Sprintf("opening proof of element %d is altered", i), nil
		}
		if i < len(p.Path)-1 {
			n = n.children[idx]
		}
	}
	return "", n
}

func init() {
	register("C13", checkOpt{Quick: 500, Thor: 40000,
		Rule:   "cases are generated histories on a KZG trie; proofs of inclusion are taken for present keys, their neighbours, deleted keys and all branch points, from the trie, from a reader and from a reopened trie; present keys (three per case) must have a proof which validates with the value and no other, is byte for byte the one which an independent prover computes, and survives serialisation; all other keys must have none. Non-trivial: at least two proofs of presence and two of absence.",
		Assume: []string{"the pairing library is correct"},
	}, gC13, runC13)
	z := func(w, k string, last int, alts ...Alt) KzgForge {
		return KzgForge{Walk: B(w), Key: B(k), Last: last, Alts: alts}
	}
	register("C14", checkOpt{Quick: 2000, Thor: 90000,
		Rule:   "cases are generated contents and up to 7 inclusion proofs forged with the knowledge of the whole tree (independent prover): any walk, depth and opened index, altered or re-opened indices, terminals (other values, zero, children, fragments), commitments, opening proofs, elements dropped, duplicated, swapped, spliced, made up, and byte mutations. Whatever validates must consist of the commitments of the nodes along its indices with their unique opening proofs, end at a value, and validate with that value only. A key that is not the one of the path is the listed known finding. Non-trivial: a forgery was rejected.",
		Assume: []string{"KZG openings are unique, the pairing library is correct"},
	}, gKzgForgeCase, runC14,
		// the key is not bound (known finding); the others are regressions
		KzgForgeCase{KVs: []KV{{B("a"), B{1}}}, Forges: []KzgForge{z("a", "b", 256)}},
		KzgForgeCase{KVs: []KV{{B("aa"), B{1}}, {B("ab"), B{2}}}, Forges: []KzgForge{
			z("a", "a", 256),
			z("a", "a", 257), z("aa", "aa", 256, Alt{K: "index", E: 0, D: B{3}}), z("aa", "aa", 257), z("aa", "aa", 0),
			z("aa", "aa", 256, Alt{K: "append", I: 1}), z("aa", "aa", 256, Alt{K: "add-mid", E: 1, D: B{7}}), z("aa", "aa", 256, Alt{K: "terminal-zero"}),
		}},
	)
}
