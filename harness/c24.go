package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------- C24

// BufCase is a history run with buffers which are overwritten after each call
type BufCase struct {
	Hist  HistCase `json:"hist"`
	Forms []int    `json:"forms"` // how the operations are called
	Fill  byte     `json:"fill"`
	Slack int      `json:"slack,omitempty"` // spare capacity of the buffers
	Hive  bool     `json:"hive,omitempty"`  // through the batched updater
}

func gBufCase(s *Src) BufCase {
	bc := BufCase{Hist: gHist(s, 6, 14, 7, histOpt{reads: true, noBulk: true}), Fill: pick(s, []byte{0xff, 0, 1, 'a', 0x5a}), Slack: pick(s, []int{0, 0, 1, 8, 64}), Hive: s.Pct(15)}
	for i := s.Range(1, 8); i > 0; i-- {
		bc.Forms = append(bc.Forms, s.N(4))
	}
	return bc
}

// shared is a buffer used for all calls
type shared struct {
	arr   []byte
	last  []byte
	what  string
	slack int
	fill  byte
}

func (b *shared) put(d []byte) []byte {
	if len(b.arr) < len(d)+b.slack {
		b.arr = make([]byte, len(d)+b.slack+64)
	}
	copy(b.arr, d)
	for i := len(d); i < len(b.arr); i++ {
		b.arr[i] = 0xA5 // what is beyond the slice is none of the trie's business
	}
	b.last = append([]byte{}, d...)
	return b.arr[: len(d) : len(d)+b.slack]
}

// done checks that the call has not written to the buffer, and overwrites it
func (b *shared) done(call string) error {
	bad := !bytes.Equal(b.arr[:len(b.last)], b.last)
	for _, x := range b.arr[len(b.last):] {
		bad = bad || x != 0xA5
	}
	if bad {
		return errf("%s has changed its %s buffer: %x, now %x", call, b.what, b.last, b.arr)
	}
	for i := range b.arr {
		b.arr[i] = b.fill
	}
	return nil
}

// capStore keeps the very slices which were given to Set
type capStore struct {
	*memKV
	given []givenSlice
}

type givenSlice struct {
	what     string
	is, copy []byte
}

func (s *capStore) Set(k, v []byte) {
	s.given = append(s.given, givenSlice{"node bytes", v, append([]byte{}, v...)})
	s.memKV.Set(k, v)
}

type reuseIter struct {
	kvs  []KV
	k, v *shared
	err  error
}

// Iterate gives the same buffers each time
func (it *reuseIter) Iterate(f func(k, v []byte) bool) {
	for _, kv := range it.kvs {
		f(it.k.put(kv.K), it.v.put(kv.V))
		if err := it.k.done("UpdateAll"); err != nil {
			it.err = err
		}
		if err := it.v.done("UpdateAll"); err != nil {
			it.err = err
		}
	}
}

type keptResult struct {
	what string
	now  func() []byte
	then []byte
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

func runC24(bc *BufCase, st *Stats) error {
	if bc.Hive {
		return c24hive(bc, st)
	}
	h := &bc.Hist
	c := h.Cfg
	a := newWorld(c) // fresh buffers
	m := c.model()
	nodes, vals := &capStore{memKV: newMemKV()}, newMemKV()
	tr := trie.New(m, nodes, vals, c.Opt)
	kb, vb := &shared{what: "key", fill: bc.Fill, slack: bc.Slack}, &shared{what: "value", fill: bc.Fill, slack: bc.Slack}
	var kept []keptResult
	keep := func(what string, f func() []byte) {
		kept = append(kept, keptResult{what, f, append([]byte{}, f()...)})
	}
	form := func(i int) int { return bc.Forms[i%len(bc.Forms)] }
	nUpd, nKept := 0, 0
	done := func(call string) error {
		if err := kb.done(call); err != nil {
			return err
		}
		return vb.done(call)
	}
	var keys [][]byte
	for i, op := range h.Ops {
		where := fmt.Sprintf("%s: operation %d (%s)", c, i, op.Op)
		switch op.Op {
		case opUpdate, opEmpty:
			v := op.V
			if op.Op == opEmpty {
				v = nil
			}
			a.update(op.K, v)
			keys = append(keys, op.K)
			nUpd++
			switch {
			case form(i) == 1 && len(op.K) > 0 && bytes.Equal(op.K, v):
				tr.InsertKeyCommitment(kb.put(op.K))
				vb.put(nil)
			case form(i) == 2:
				tr.UpdateStr(kb.put(op.K), vb.put(v))
			case form(i) == 3:
				it := &reuseIter{kvs: []KV{{op.K, v}}, k: kb, v: vb}
				tr.UpdateAll(it)
				if it.err != nil {
					return errf("%s: %v", where, it.err)
				}
				kb.put(nil)
				vb.put(nil)
			default:
				tr.Update(kb.put(op.K), vb.put(v))
			}
		case opDelete:
			a.delete(op.K)
			keys = append(keys, op.K)
			vb.put(nil)
			if form(i) == 2 {
				tr.DeleteStr(kb.put(op.K))
			} else {
				tr.Delete(kb.put(op.K))
			}
		case opRead, opProve:
			if op.Op == opProve {
				a.commit()
				tr.Commit()
			}
			lookup(a.tr, op.K)
			u := refUnpack(op.K, c.Arity)
			p := trie.GetProofGeneric(tr, kb.put(u))
			if err := kb.done("GetProofGeneric"); err != nil {
				return errf("%s: %v", where, err)
			}
			if p != nil {
				for _, k := range p.Path {
					if n, ok := tr.GetNode(kb.put(k)); !ok {
						return errf("%s: node %x on the path is not there", where, k)
					} else if nk := n.Key(); !bytes.Equal(nk, k) {
						return errf("%s: node %x has key %x", where, k, nk)
					}
					if err := kb.done("GetNode"); err != nil {
						return errf("%s: %v", where, err)
					}
				}
			}
			// a node which is not there
			tr.GetNode(kb.put(append(append([]byte{}, u...), 0)))
			vb.put(nil)
			if op.Op == opProve {
				if err := kb.done("GetNode"); err != nil {
					return errf("%s: %v", where, err)
				}
				if err := c24proofs(c, tr, op.K, kb, keep, where); err != nil {
					return err
				}
				kb.put(nil)
			}
		case opCommit:
			a.commit()
			tr.Commit()
			kb.put(nil)
			vb.put(nil)
		default:
			a.apply(op)
			tr.Commit()
			tr.PersistMutations(nodes)
			vals.m = copyMap(a.cur)
			kb.put(nil)
			vb.put(nil)
			switch op.Op {
			case opFlush:
				tr.ClearCache()
			case opReopen:
				tr = trie.New(m, nodes, vals, c.Opt)
			}
			// a reader's results
			rd := trie.NewTrieReader(m, nodes, vals)
			if len(keys) > 0 {
				k := keys[i%len(keys)]
				u := refUnpack(k, c.Arity)
				if p := trie.GetProofGeneric(rd, append([]byte{}, u...)); p != nil && len(p.Path) > 0 {
					last := p.Path[len(p.Path)-1]
					n, ok := rd.GetNode(kb.put(last))
					if err := kb.done("TrieReader.GetNode"); err != nil {
						return errf("%s: %v", where, err)
					}
					kb.put(nil)
					if !ok || !bytes.Equal(n.Key(), last) {
						return errf("%s: reader: node %x: %v", where, last, n)
					}
					keep("node of a reader", func() []byte { return nodeBytes(n) })
				}
			}
		}
		if err := done(op.Op); err != nil {
			return errf("%s: %v", where, err)
		}
		if op.Op != opUpdate && op.Op != opDelete && op.Op != opEmpty && op.Op != opRead {
			// committed: the same as with fresh buffers
			if a.dirty {
				a.commit()
			}
			if ra, rb := rootOf(a.tr), rootOf(tr); !bytes.Equal(ra, rb) {
				return errf("%s: with reused buffers the root is %x, with fresh ones %x; contents %s", where, rb, ra, dumpMap(a.cur))
			}
			root := trie.RootCommitment(tr)
			if !isNil(root) {
				nKept++
				keep("root commitment", func() []byte { return root.Bytes() })
				if form(i) == 1 { // of a clone
					cl := tr.Clone()
					r := trie.RootCommitment(cl)
					keep("root commitment of a clone", func() []byte { return r.Bytes() })
					keep("clone", func() []byte { return rootOf(cl) })
				}
				// changing a result changes nothing
				r2 := trie.RootCommitment(tr)
				scribble(r2.Bytes())
				other := append([]byte{}, refRoot(c, map[string]string{"other": "contents"})...)
				if err := r2.Read(bytes.NewReader(other)); err != nil {
					return errf("%s: reading a commitment: %v", where, err)
				}
				if x := rootOf(tr); !bytes.Equal(x, rootOf(a.tr)) {
					return errf("%s: after changing a returned root the root is %x", where, x)
				}
				b := kb.put(rootOf(tr))
				v, err := tr.VectorCommitmentFromBytes(b)
				if err != nil {
					return errf("%s: root does not read back: %v", where, err)
				}
				if err := kb.done("VectorCommitmentFromBytes"); err != nil {
					return errf("%s: %v", where, err)
				}
				keep("root commitment from bytes", func() []byte { return v.Bytes() })
			}
		}
	}
	a.persist()
	tr.Commit()
	if ra, rb := rootOf(a.tr), rootOf(tr); !bytes.Equal(ra, rb) {
		return errf("%s: at the end: with reused buffers the root is %x, with fresh ones %x; contents %s", c, rb, ra, dumpMap(a.cur))
	}
	tr.PersistMutations(nodes)
	if !sameMap(nodes.m, a.nodes.m) {
		return errf("%s: at the end: nodes stored with reused / with fresh buffers:%s", c, diffMap(nodes.m, a.nodes.m))
	}
	vals.m = copyMap(a.cur)
	if err := checkLookups(c, tr, a.cur, probeKeys(a.cur), c.String()+": at the end"); err != nil {
		return err
	}
	for _, k := range kept {
		if now := k.now(); !bytes.Equal(now, k.then) {
			return errf("%s: %s obtained earlier has changed: %x, now %x", c, k.what, clip(string(k.then), 200), clip(string(now), 200))
		}
	}
	for _, g := range nodes.given {
		if !bytes.Equal(g.is, g.copy) {
			return errf("%s: %s written to the store have changed: %x, now %x", c, g.what, g.copy, g.is)
		}
	}
	st.Label("cfg:" + c.label())
	st.LabelN("results-kept", len(kept))
	st.NonTrivial(nUpd >= 2 && nKept > 0)
	return nil
}

func nodeBytes(n trie.Node) []byte {
	out := append([]byte{}, n.Key()...)
	out = append(append(out, '|'), n.PathFragment()...)
	ch := n.ChildCommitments()
	for i := 0; i < 256; i++ {
		if x, ok := ch[byte(i)]; ok {
			out = append(append(out, byte(i)), x.Bytes()...)
		}
	}
	if !isNil(n.Terminal()) {
		out = append(append(out, '|'), n.Terminal().Bytes()...)
	}
	return out
}

// c24proofs takes a proof through the shared buffer, spoils a second one
func c24proofs(c Cfg, tr *trie.Trie, key []byte, kb *shared, keep func(string, func() []byte), where string) error {
	root := rootOf(tr)
	if c.Kzg {
		p, ok := trie_kzg_bn256.Model.ProofOfInclusion(kb.put(key), tr)
		if err := kb.done("ProofOfInclusion"); err != nil {
			return errf("%s: %v", where, err)
		}
		if !ok {
			return nil
		}
		keep("KZG proof", func() []byte { return p.Bytes() })
		if !bytes.Equal(p.Key, key) {
			return errf("%s: KZG proof of key %x carries key %x", where, key, p.Key)
		}
		if err := p.Validate(trie.RootCommitment(tr)); err != nil {
			return errf("%s: KZG proof of key %x: %v", where, key, err)
		}
		p2, _ := trie_kzg_bn256.Model.ProofOfInclusion(append([]byte{}, key...), tr)
		scribble(p2.Key)
		p2.Terminal.SetInt64(7)
		for _, e := range p2.Path {
			e.C.Null()
			e.Proof.Null()
		}
		if x := rootOf(tr); !bytes.Equal(x, root) {
			return errf("%s: after changing a returned KZG proof the root is %x, was %x", where, x, root)
		}
		return nil
	}
	m := c.b2b()
	p := m.Proof(kb.put(key), tr)
	if err := kb.done("Proof"); err != nil {
		return errf("%s: %v", where, err)
	}
	b := append([]byte{}, p.Bytes()...)
	keep("proof", func() []byte { return p.Bytes() })
	if err := trie_blake2b_verify.Validate(p, root); err != nil {
		return errf("%s: proof of key %x: %v", where, key, err)
	}
	if com := trie_blake2b_verify.CommitmentToTheTerminalNode(p); com != nil {
		keep("commitment to the terminal node", func() []byte { return com })
	}
	// a proof read from a buffer
	pb := kb.put(b)
	p3, err := trie_blake2b.ProofFromBytes(pb)
	if err != nil {
		return errf("%s: proof does not read back: %v", where, err)
	}
	if err := kb.done("ProofFromBytes"); err != nil {
		return errf("%s: %v", where, err)
	}
	if !bytes.Equal(p3.Bytes(), b) {
		return errf("%s: proof read from a buffer which is overwritten: %x, was %x", where, p3.Bytes(), b)
	}
	p2 := m.Proof(append([]byte{}, key...), tr)
	scribble(p2.Key)
	for _, e := range p2.Path {
		scribble(e.PathFragment)
		scribble(e.Terminal)
		for i, x := range e.Children {
			scribble(x)
			delete(e.Children, i)
		}
		e.Children[0] = []byte{1}
	}
	if x := rootOf(tr); !bytes.Equal(x, root) {
		return errf("%s: after changing a returned proof the root is %x, was %x", where, x, root)
	}
	if x := m.Proof(append([]byte{}, key...), tr).Bytes(); !bytes.Equal(x, b) {
		return errf("%s: after changing a returned proof the proof of %x is %x, was %x", where, key, x, b)
	}
	return nil
}

// c24hive runs the history through the batched updater with shared buffers
func c24hive(bc *BufCase, st *Stats) error {
	c := bc.Hist.Cfg
	a := newWorld(c)
	db := mapdb.NewMapDB()
	tp, vp := twoCopies(true, []byte{1}, []byte{2})
	open := func() *hive_adaptor.HiveBatchedUpdater {
		u, err := hive_adaptor.NewHiveBatchedUpdater(db, c.model(), tp, vp, c.Opt)
		must(err)
		return u
	}
	u := open()
	kb, vb := &shared{what: "key", fill: bc.Fill, slack: bc.Slack}, &shared{what: "value", fill: bc.Fill, slack: bc.Slack}
	n := 0
	commit := func() error {
		a.persist()
		if err := u.Commit(); err != nil {
			return err
		}
		all := (&faultKV{KVStore: db}).contents()
		if x := part(all, vp); !sameMap(x, a.cur) {
			return errf("%s: batched updates with reused buffers: values %s, expected %s", c, dumpMap(x), dumpMap(a.cur))
		}
		if x := part(all, tp); !sameMap(x, a.nodes.m) {
			return errf("%s: batched updates with reused buffers: nodes:%s", c, diffMap(x, a.nodes.m))
		}
		return nil
	}
	for _, op := range bc.Hist.Ops {
		switch op.Op {
		case opUpdate, opEmpty, opDelete:
			v := op.V
			if op.Op != opUpdate {
				v = nil
			}
			a.update(op.K, v)
			u.Update(kb.put(op.K), vb.put(v))
			for _, b := range []*shared{kb, vb} {
				if err := b.done("Update"); err != nil {
					return errf("%s: batched updater: %v", c, err)
				}
			}
			n++
		case opRead, opProve, opClear:
		default:
			if err := commit(); err != nil {
				return err
			}
			if op.Op == opReopen {
				u = open()
			}
		}
	}
	if err := commit(); err != nil {
		return err
	}
	st.Label("batched-updater")
	st.NonTrivial(n >= 2)
	return nil
}

// ---------------------------------------------------------------- C25

// FormCase is a history whose updates are called in other forms
type FormCase struct {
	Hist  HistCase `json:"hist"`
	Forms []int    `json:"forms"`
	Bulk  []KV     `json:"bulk"` // UpdateAll at the end; empty values delete
	Store []KV     `json:"store"`
	Mem   bool     `json:"mem,omitempty"`
}

func gFormCase(s *Src) FormCase {
	fc := FormCase{Hist: gHist(s, 5, 16, 8, histOpt{reads: true, noBulk: true}), Mem: s.Pct(30)}
	c := fc.Hist.Cfg
	for i := s.Range(1, 8); i > 0; i-- {
		fc.Forms = append(fc.Forms, s.N(8))
	}
	var keys []B
	for _, op := range fc.Hist.Ops {
		if op.Op == opUpdate {
			keys = append(keys, op.K)
		}
	}
	keys = append(keys, keyPool(s, 1, 4)...)
	for i := s.N(7); i > 0; i-- {
		k := pick(s, keys)
		kv := KV{K: k}
		if s.Pct(70) {
			kv.V = gValue(s, c, k)
		}
		fc.Bulk = append(fc.Bulk, kv)
	}
	for i := s.N(7); i > 0; i-- {
		k := pick(s, keys)
		fc.Store = append(fc.Store, KV{k, gValue(s, c, k)})
	}
	if len(fc.Hist.Ops) > 0 && s.Pct(40) { // key commitments
		for i := range fc.Hist.Ops {
			if op := &fc.Hist.Ops[i]; op.Op == opUpdate && len(op.K) > 0 && s.Pct(30) {
				op.V = append(B{}, op.K...)
			}
		}
	}
	return fc
}

func runC25(fc *FormCase, st *Stats) error {
	h := &fc.Hist
	c := h.Cfg
	a, b := newWorld(c), newWorld(c)
	a.imm, b.imm = h.Imm, h.Imm
	compare := func(where string) error {
		if ra, rb := rootOf(a.tr), rootOf(b.tr); !bytes.Equal(ra, rb) {
			return errf("%s: %s: root %x with single updates, %x with the other forms; contents %s", c, where, ra, rb, dumpMap(a.cur))
		}
		r := trie.RootCommitment(b.tr)
		if isNil(r) {
			return nil
		}
		v, err := b.tr.VectorCommitmentFromBytes(append([]byte{}, r.Bytes()...))
		if err != nil {
			return errf("%s: %s: root %s does not read back: %v", c, where, r, err)
		}
		if !b.model.EqualCommitments(v, r) || !b.model.EqualCommitments(r, v) || !bytes.Equal(v.Bytes(), r.Bytes()) || v.String() != r.String() {
			return errf("%s: %s: root %s reads back as %s", c, where, r, v)
		}
		if cl := v.Clone(); !b.model.EqualCommitments(cl, r) {
			return errf("%s: %s: the clone of root %s is %s", c, where, r, cl)
		}
		return nil
	}
	str := func(x []byte, i int) interface{} {
		switch {
		case len(x) == 0 && i%3 == 0:
			return nil
		case i%2 == 0:
			return string(x)
		}
		return append([]byte{}, x...)
	}
	used := map[string]int{}
	for i, op := range h.Ops {
		f := fc.Forms[i%len(fc.Forms)]
		switch op.Op {
		case opUpdate:
			a.update(op.K, op.V)
			k, v := append([]byte{}, op.K...), append([]byte{}, op.V...)
			switch {
			case f == 0:
				b.tr.Update(k, v)
			case f <= 2 && len(k) > 0 && bytes.Equal(k, v):
				b.tr.InsertKeyCommitment(k)
				used["InsertKeyCommitment"]++
			case f <= 4:
				b.tr.UpdateStr(str(k, f), str(v, f/2))
				used["UpdateStr"]++
			case f == 5:
				b.tr.UpdateAll(kvList([]KV{{op.K, op.V}}))
				used["UpdateAll"]++
			case f == 6: // the last one counts
				b.tr.UpdateAll(kvList([]KV{{op.K, B{9, 9}}, {op.K, op.V}}))
				used["UpdateAll"]++
			default: // first absent
				b.tr.Delete(k)
				b.tr.Update(k, v)
				used["Delete+Update"]++
			}
			b.set(op.K, op.V)
		case opDelete, opEmpty:
			a.delete(op.K)
			k := append([]byte{}, op.K...)
			switch f {
			case 0, 1:
				b.tr.Update(k, nil)
			case 2:
				b.tr.Update(k, []byte{})
			case 3, 4:
				b.tr.DeleteStr(str(k, f))
			case 5:
				b.tr.UpdateStr(str(k, f), nil)
			case 6:
				b.tr.UpdateStr(str(k, f), "")
			default:
				b.tr.UpdateAll(kvList([]KV{{K: op.K}}))
			}
			used["delete forms"]++
			b.set(op.K, nil)
		default:
			a.apply(op)
			b.apply(op)
			if !a.dirty {
				if err := compare(fmt.Sprintf("operation %d", i)); err != nil {
					return err
				}
			}
		}
	}
	// in bulk, in the order of the iterator
	for _, kv := range fc.Bulk {
		a.update(kv.K, kv.V)
	}
	b.tr.UpdateAll(kvList(fc.Bulk))
	for _, kv := range fc.Bulk {
		b.set(kv.K, kv.V)
	}
	a.commit()
	b.commit()
	if err := compare("after UpdateAll from an iterator"); err != nil {
		return err
	}
	// from a store, in any order
	m := kvMap(fc.Store)
	for _, k := range sortedKeys(m) {
		a.update([]byte(k), []byte(m[k]))
	}
	if fc.Mem {
		s := trie.NewInMemoryKVStore()
		for k, v := range m {
			s.Set([]byte(k), []byte(v))
		}
		b.tr.UpdateAll(s)
	} else {
		b.tr.UpdateAll(&memKV{m: m})
	}
	for k, v := range m {
		b.set([]byte(k), []byte(v))
	}
	a.persist()
	b.persist()
	if err := compare("after UpdateAll from a store"); err != nil {
		return err
	}
	if !sameMap(a.nodes.m, b.nodes.m) {
		return errf("%s: nodes stored with single updates / other forms:%s", c, diffMap(a.nodes.m, b.nodes.m))
	}
	if err := checkLookups(c, b.tr, a.cur, probeKeys(a.cur), c.String()+": at the end"); err != nil {
		return err
	}
	st.Label("cfg:" + c.label())
	for f, n := range used {
		st.LabelN("form:"+f, n)
	}
	st.NonTrivial(len(used) >= 2 && len(fc.Bulk)+len(m) >= 2)
	return nil
}

func init() {
	register("C24", checkOpt{Quick: 30000, Thor: 1500000,
		Rule: histRule + "every call (Update, UpdateStr, UpdateAll, InsertKeyCommitment, Delete, DeleteStr, GetNode, proofs, commitments and proofs from bytes) gets its keys and values in the same two buffers, which have spare capacity, must not be written to, and are overwritten after each call; roots at each commit and the stored nodes must be those of the same history with fresh buffers. Roots, proofs, sub-state commitments, nodes of readers, clones and node bytes given to the store are kept and must not change; returned roots and proofs are overwritten, which must not change the trie. 15% of the cases run through the batched updater. Non-trivial: at least two updates and a result kept.",
	}, gBufCase, runC24)
	register("C25", checkOpt{Quick: 60000, Thor: 3000000,
		Rule: histRule + "the history is run once with single updates and deletes and once with other forms (UpdateStr, DeleteStr with strings, bytes and nil, UpdateAll from an iterator with repeated keys and empty values and from stores, InsertKeyCommitment, updates with nil and empty values); roots at each commit and the stored nodes must be equal, and roots must read back from their bytes. Non-trivial: two different other forms and at least two pairs in bulk.",
	}, gFormCase, runC25)
}
