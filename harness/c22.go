package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------- C22

// ReconCase is a history and stores the resulting trie is reconciled with
type ReconCase struct {
	Hist   HistCase `json:"hist"`
	State  string   `json:"state"` // uncommitted, committed, persisted, cleared, reopened
	Stores []Diff   `json:"stores"`
}

// Diff describes a store by its differences from the contents
type Diff struct {
	Drop []int `json:"drop,omitempty"` // number of the pair, in key order
	Chg  []KV  `json:"chg,omitempty"`
	Tric []int `json:"tric,omitempty"` // pairs whose value is replaced by what it commits to
	None bool  `json:"none,omitempty"` // nothing of the contents
	Bulk B     `json:"bulk,omitempty"` // hundreds of updates and deletions, see bulkOps
}

func gReconCase(s *Src) ReconCase {
	rc := ReconCase{Hist: gHist(s, 4, 16, 8, histOpt{reads: true, clear: true}), State: pick(s, []string{"committed", "uncommitted", "persisted", "cleared", "reopened"})}
	c := rc.Hist.Cfg
	var keys []B
	last := map[string]B{}
	for _, op := range rc.Hist.Ops {
		if op.Op == opUpdate || op.Op == opDelete {
			keys = append(keys, op.K)
			if op.Op == opUpdate {
				last[string(op.K)] = op.V
			}
		}
	}
	if len(keys) == 0 {
		keys = []B{{}}
	}
	for n := s.Range(1, 4); n > 0; n-- {
		d := Diff{None: s.Pct(10)}
		if s.Pct(15) {
			rc.Stores = append(rc.Stores, d) // the contents themselves
			continue
		}
		for i := s.N(3); i > 0; i-- {
			d.Drop = append(d.Drop, s.N(20))
		}
		for i := s.N(5); i > 0; i-- {
			k := pick(s, keys)
			if s.Pct(60) {
				k = deriveKey(s, k, []byte{0, 1, 'a', 0xff}, keys)
			}
			v := gValue(s, c, k)
			if old, ok := last[string(k)]; ok && s.Pct(50) {
				v = append(B{}, old...)
				switch s.N(4) {
				case 0:
					v = append(v, 0)
				case 1:
					v[s.N(len(v))] ^= 1 << s.N(8)
				case 2:
					if len(v) > 1 {
						v = v[:len(v)-1]
					}
				}
			}
			d.Chg = append(d.Chg, KV{k, v})
		}
		if s.Pct(3) {
			d.Tric = []int{s.N(8)}
		}
		if s.Pct(1) {
			d.Bulk = B{s.Byte(), s.Byte(), byte(s.N(32))}
		}
		rc.Stores = append(rc.Stores, d)
	}
	return rc
}

func (d *Diff) store(c Cfg, m map[string]string) map[string]string {
	r := copyMap(m)
	ks := sortedKeys(m)
	if d.None {
		r = map[string]string{}
	}
	for _, i := range d.Drop {
		if len(ks) > 0 {
			delete(r, ks[i%len(ks)])
		}
	}
	if len(d.Bulk) == 3 {
		for _, o := range bulkOps(Op{K: d.Bulk}) {
			if o.Op == opUpdate {
				r[string(o.K)] = string(o.V)
			} else {
				delete(r, string(o.K))
			}
		}
	}
	for _, kv := range d.Chg {
		if len(kv.V) > 0 {
			r[string(kv.K)] = string(kv.V)
		}
	}
	for _, i := range d.Tric {
		if len(ks) > 0 && !c.Kzg {
			k := ks[i%len(ks)]
			if v := refSlot(refData(c, k, m[k]), c.Hash); len(v) > 0 {
				r[k] = string(v)
			}
		}
	}
	return r
}

func runC22(rc *ReconCase, st *Stats) error {
	c := rc.Hist.Cfg
	w := newWorld(c)
	w.imm = rc.Hist.Imm
	for _, op := range rc.Hist.Ops {
		w.apply(op)
	}
	switch rc.State {
	case "committed":
		w.commit()
	case "persisted":
		w.persist()
	case "cleared":
		w.apply(Op{Op: opFlush})
	case "reopened":
		w.apply(Op{Op: opReopen})
	}
	rootBefore := rootOf(w.tr.Clone())
	for _, d := range rc.Stores {
		store := d.store(c, w.cur)
		got := w.tr.Reconcile(&memKV{m: store})
		want := map[string]bool{}
		tricky := map[string]bool{}
		for k, v := range store {
			cv, ok := w.cur[k]
			if ok && cv == v {
				continue
			}
			if ok && !c.Kzg && bytes.Equal(refSlot(refData(c, k, v), c.Hash), refSlot(refData(c, k, cv), c.Hash)) {
				tricky[k] = true // known finding: the other value has the same commitment
				continue
			}
			want[k] = true
		}
		what := fmt.Sprintf("%s, %s trie of %s reconciled with %s", c, rc.State, dumpMap(w.cur), dumpMap(store))
		seen := map[string]bool{}
		for _, k := range got {
			if seen[string(k)] {
				return errf("%s: key %x is reported twice", what, k)
			}
			seen[string(k)] = true
			if !want[string(k)] && !tricky[string(k)] {
				return errf("%s: key %x is reported, although the trie commits to the pair", what, k)
			}
		}
		for _, k := range sortedKeys(want) {
			if !seen[k] {
				return errf("%s: key %x is not reported", what, k)
			}
		}
		for k := range tricky {
			if !seen[k] {
				st.Known("C22-equal")
			}
		}
		if len(want) == 0 {
			st.Label("stores:consistent")
		} else {
			st.Label("stores:inconsistent")
		}
		st.NonTrivial(len(w.cur) >= 2 && len(want) > 0 && len(want) < len(store))
	}
	if rc.State != "uncommitted" {
		if r := rootOf(w.tr); !bytes.Equal(r, rootBefore) || !bytes.Equal(r, refRoot(c, w.cur)) {
			return errf("%s: the root after Reconcile is %x, before %x", c, r, rootBefore)
		}
	}
	// consistent with itself
	for what, ns := range map[string]*trie.Trie{"itself": w.tr, "its clone": w.tr.Clone()} {
		if got := ns.Reconcile(&memKV{m: copyMap(w.cur)}); len(got) != 0 {
			return errf("%s, %s trie of %s: %s reports %x against its own contents", c, rc.State, dumpMap(w.cur), what, got)
		}
	}
	st.Label("state:" + rc.State)
	if len(w.cur) == 0 {
		st.Label("state:empty trie")
	}
	histLabels(st, w)
	return nil
}

// ---------------------------------------------------------------- C23

// SubCase is contents, prefixes of sub-states and changes
type SubCase struct {
	Cfg  Cfg  `json:"cfg"`
	KVs  []KV `json:"kvs"`
	At   int  `json:"at"`  // the sub-state is that at the key of this number, in key order
	Chgs []KV `json:"chg"` // applied one after another; empty value deletes
	Save bool `json:"save,omitempty"`
}

func gSubCase(s *Src) SubCase {
	c := gcfgB(s)
	sc := SubCase{Cfg: c, At: s.N(50), Save: s.Pct(30)}
	kvs := gContents(s, c, 1, 6)
	// make some key a prefix of others
	p := pick(s, kvs).K
	if len(p) > 30 {
		p = p[:3]
	}
	var sub []B
	for i := s.N(6); i > 0; i-- {
		k := append(append(B{}, p...), gKeyShort(s, []byte{0, 1, 'a', 0xf0}, 3)...)
		sub = append(sub, k)
		kvs = append(kvs, KV{k, gValue(s, c, k[len(p):])})
	}
	m := kvMap(kvs)
	sc.KVs = kvsOf(m)
	ks := sortedKeys(m)
	for i, k := range ks {
		if k == string(p) && s.Pct(85) {
			sc.At = i
		}
	}
	keys := append(kvKeys(ks), sub...)
	for n := s.Range(1, 6); n > 0; n-- {
		k := pick(s, keys)
		switch s.N(5) {
		case 0:
			sc.Chgs = append(sc.Chgs, KV{K: k})
		case 1:
			k = deriveKey(s, k, []byte{0, 1, 'a', 0xf0}, keys)
			sc.Chgs = append(sc.Chgs, KV{k, gValue(s, c, k)})
		case 2:
			v := append(B{}, m[string(k)]...)
			if len(v) > 0 {
				v[s.N(len(v))] ^= 1 << s.N(8)
			} else {
				v = B{1}
			}
			sc.Chgs = append(sc.Chgs, KV{k, v})
		case 3:
			sc.Chgs = append(sc.Chgs, KV{k, append(append(B{}, m[string(k)]...), byte(s.N(2)))})
		default:
			sc.Chgs = append(sc.Chgs, KV{k, gValue(s, c, k)})
		}
	}
	return sc
}

// subNode finds the node which ends exactly at the unpacked key
func subNode(n *refNode, u []byte) *refNode {
	_, ending, last := refPath(n, u)
	if ending != trie.EndingTerminal {
		return nil
	}
	return last
}

func runC23(sc *SubCase, st *Stats) error {
	c := sc.Cfg
	m := kvMap(sc.KVs)
	ks := sortedKeys(m)
	if len(ks) == 0 {
		return nil
	}
	prefix := ks[sc.At%len(ks)]
	u := refUnpack([]byte(prefix), c.Arity)
	w := newWorld(c)
	for _, k := range ks {
		w.update([]byte(k), []byte(m[k]))
	}
	type obs struct {
		com []byte
		ref *refNode
	}
	take := func() (*obs, error) {
		w.commit()
		if sc.Save {
			w.apply(Op{Op: opReopen})
		}
		root := rootOf(w.tr)
		p := c.b2b().Proof([]byte(prefix), w.tr)
		if err := trie_blake2b_verify.Validate(p, root); err != nil {
			return nil, errf("%s: proof of %x in %s: %v", c, prefix, dumpMap(w.cur), err)
		}
		com := trie_blake2b_verify.CommitmentToTheTerminalNode(p)
		if p2, err := trie_blake2b.ProofFromBytes(p.Bytes()); err != nil || !bytes.Equal(trie_blake2b_verify.CommitmentToTheTerminalNode(p2), com) {
			return nil, errf("%s: commitment to the node at %x is %x, from the proof sent over %v", c, prefix, com, err)
		}
		t := refTree(c, w.cur)
		refCommit(c, t)
		n := subNode(t, u)
		if n == nil || n.data == nil {
			return nil, nil // nothing at the prefix any more
		}
		if !bytes.Equal(com, n.hash) {
			return nil, errf("%s: commitment to the node at %x of %s is %x, by the definition %x", c, prefix, dumpMap(w.cur), com, n.hash)
		}
		// the trie of the pairs under the prefix, without it
		sub := map[string]string{}
		keyCommit := false
		for k, v := range w.cur {
			if bytes.HasPrefix([]byte(k), []byte(prefix)) {
				sub[k[len(prefix):]] = v
				keyCommit = keyCommit || (c.Opt && c.Arity != 256 && (k == v || k[len(prefix):] == v))
			}
		}
		if !keyCommit { // these commit to the whole key
			str := fresh(c, sub)
			root, ok := str.GetNode(nil)
			if !ok {
				return nil, errf("%s: the trie of %s has no root", c, dumpMap(sub))
			}
			if len(root.PathFragment()) != 0 {
				return nil, errf("%s: the root of the trie of %s has path fragment %x", c, dumpMap(sub), root.PathFragment())
			}
			moved := str.Model().CalcNodeCommitment(&trie.NodeData{PathFragment: append([]byte{}, n.pf...), ChildCommitments: root.ChildCommitments(), Terminal: root.Terminal()})
			if !bytes.Equal(moved.Bytes(), com) {
				return nil, errf("%s: commitment to the node at %x of %s is %x, the trie of just %s attached by %x has %s", c, prefix, dumpMap(w.cur), com, dumpMap(sub), n.pf, moved)
			}
			if len(n.pf) == 0 && !bytes.Equal(rootOf(str), com) {
				return nil, errf("%s: commitment to the node at %x of %s is %x, the trie of just %s has root %x", c, prefix, dumpMap(w.cur), com, dumpMap(sub), rootOf(str))
			}
			st.Label("compared-with-the-trie-of-the-sub-state")
			if len(sub) > 1 {
				st.Label("sub-states:with more than the prefix")
			}
		}
		return &obs{com, n}, nil
	}
	var seen []*obs
	o, err := take()
	if err != nil {
		return err
	}
	seen = append(seen, o)
	nSame, nDiff := 0, 0
	for _, kv := range sc.Chgs {
		w.update(kv.K, kv.V)
		o, err := take()
		if err != nil {
			return err
		}
		if o == nil {
			continue
		}
		for _, x := range seen {
			same := padEqual(c, o.ref, x.ref)
			if same != bytes.Equal(o.com, x.com) {
				return errf("%s: node at %x: %s and %s: same sub-state %v, commitments %x %x", c, prefix, o.ref, x.ref, same, o.com, x.com)
			}
			if same {
				nSame++
			} else {
				nDiff++
			}
		}
		seen = append(seen, o)
	}
	st.Label("cfg:" + c.label())
	st.LabelN("compared:unchanged", nSame)
	st.LabelN("compared:changed", nDiff)
	st.NonTrivial(len(seen[0].ref.children) > 0 && nSame > 0 && nDiff > 0)
	return nil
}

func init() {
	h := func(c Cfg, kvs ...KV) HistCase {
		x := HistCase{Cfg: c}
		for _, kv := range kvs {
			x.Ops = append(x.Ops, Op{opUpdate, kv.K, kv.V})
		}
		return x
	}
	long := bytes.Repeat([]byte{7}, 30)
	register("C22", checkOpt{Quick: 120000, Thor: 3000000,
		Rule: histRule + "the trie, left uncommitted, committed, persisted, cleared or reopened, is reconciled with 1..4 stores which differ from its contents by dropped, changed and added pairs (keys on branch points and near neighbours, values with one bit or a zero changed); the keys reported must be exactly those whose pair is not in the model's contents, and Reconcile must not change the trie. Non-trivial: at least two pairs and a store with both committed and not committed pairs.",
	}, gReconCase, runC22,
		ReconCase{Hist: h(Cfg{Arity: 16, Hash: 20}, KV{B("a"), long}), State: "committed", Stores: []Diff{{Tric: []int{0}}}},
		ReconCase{Hist: h(Cfg{Arity: 16, Hash: 32, Opt: true}, KV{B{0x12}, B{0x12}}), State: "persisted", Stores: []Diff{{Tric: []int{0}}}},
		ReconCase{Hist: h(Cfg{Arity: 256, Hash: 20}), State: "committed", Stores: []Diff{{Chg: []KV{{B("a"), B{1}}, {B{}, B{1}}}}, {}}},
	)
	register("C23", checkOpt{Quick: 100000, Thor: 2000000,
		Rule: "cases are contents with pairs under one of the keys, and up to 6 changes inside and outside of this sub-state; at each state the commitment taken from the validated proof (also after serialisation) must be that of the node by the definition, and that of a separately built trie of just the pairs under the prefix attached by the same path fragment; between states it must be equal exactly if the sub-state and its path fragment are (up to the zero padding of the known finding of C03). Non-trivial: a sub-state with more than the prefix, and both a change which matters and one which does not.",
	}, gSubCase, runC23)
}
