package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// memKV is the harness's own store: copies everything, counts writes, iterates in key order
type memKV struct {
	m      map[string]string
	writes int
	reads  int
}

func newMemKV() *memKV { return &memKV{m: map[string]string{}} }

func (s *memKV) Get(k []byte) []byte {
	s.reads++
	v, ok := s.m[string(k)]
	if !ok {
		return nil
	}
	return []byte(v)
}
func (s *memKV) Has(k []byte) bool { _, ok := s.m[string(k)]; return ok }
func (s *memKV) Set(k, v []byte) {
	s.writes++
	if len(v) == 0 {
		delete(s.m, string(k))
	} else {
		s.m[string(k)] = string(v)
	}
}
func (s *memKV) Iterate(f func(k, v []byte) bool) {
	for _, k := range sortedKeys(s.m) {
		if !f([]byte(k), []byte(s.m[k])) {
			return
		}
	}
}
func (s *memKV) clone() *memKV { return &memKV{m: copyMap(s.m)} }

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func diffMap(a, b map[string]string) string {
	out := ""
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			out += fmt.Sprintf("\n  only first: %x = %x", k, clip(a[k], 60))
		} else if v != a[k] {
			out += fmt.Sprintf("\n  differs: %x: %x / %x", k, clip(a[k], 60), clip(v, 60))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			out += fmt.Sprintf("\n  only second: %x = %x", k, clip(b[k], 60))
		}
	}
	return clip(out, 2500)
}

// Op is one step of a history
type Op struct {
	Op string `json:"o"`
	K  B      `json:"k,omitempty"`
	V  B      `json:"v,omitempty"`
}

const (
	opUpdate  = "update"
	opDelete  = "delete"
	opEmpty   = "update-empty" // Update with an empty value
	opCommit  = "commit"
	opPersist = "persist" // commit + persist, cache kept
	opFlush   = "flush"   // commit + persist + clear cache
	opReopen  = "reopen"  // commit + persist + new trie on the stores
	opRead    = "read"    // look a key up (loads nodes into the cache)
	opClear   = "clear"   // clear the cache: drops everything since the last persist
	opProve   = "prove"   // commit and take a proof
	opBulk    = "bulk"    // many updates and deletions, given by the three bytes of the key, see bulkOps
)

// bulkOps are the updates and deletions of a bulk operation
func bulkOps(op Op) []Op {
	r := newSrc(uint64(op.K[0])<<8 | uint64(op.K[1]))
	n := []int{20, 70, 150, 300, 600, 1100}[op.K[2]&7%6]
	if len(op.K) > 3 { // the fixed cases
		n = int(op.K[3]) * 100
	}
	var ops []Op
	alpha := []byte{0, 1, 0x10, 0xff}
	var chain []byte
	for i := 0; i < n; i++ {
		var k []byte
		switch op.K[2] >> 3 & 3 {
		case 0: // all over the place
			k = r.Bytes(r.Range(1, 5))
		case 1: // wide: many children everywhere
			k = []byte{byte(i * 7), byte(i >> 5 * 3)}
			if i%3 == 0 {
				k = k[:1]
			}
			if r.N(4) == 0 {
				k = append(k, 0, r.Byte())
			}
		case 2: // deep: each a prefix of the next, with side branches
			if len(chain) > 150 {
				chain = chain[:r.N(100)]
			}
			if r.N(3) > 0 {
				chain = append(chain, pick(r, alpha))
			} else {
				chain = append(chain, r.Bytes(r.Range(1, 3))...)
			}
			k = append([]byte{}, chain...)
			if r.N(4) == 0 {
				k[r.N(len(k))] ^= 1
			}
		case 3: // long keys with long common parts
			k = make([]byte, r.Range(30, 120))
			k[r.N(len(k))] = r.Byte()
			k[len(k)-1] = byte(r.N(3))
		}
		o := Op{Op: opUpdate, K: k}
		if r.N(5) == 0 {
			if len(ops) > 0 && r.N(2) == 0 {
				o.K = ops[r.N(len(ops))].K
			}
			o.Op = opDelete
		} else {
			l := 1
			if r.N(3) == 0 {
				l = []int{2, 20, 21, 32, 33, 40, 64, 65}[r.N(8)]
			}
			o.V = make(B, l)
			o.V[0], o.V[l-1] = byte(1+r.N(200)), byte(1+r.N(200))
		}
		ops = append(ops, o)
	}
	return ops
}

// bigHist is a history of a trie with tens of thousands of nodes
func bigHist(c Cfg) HistCase {
	bulk := func(k ...byte) Op { return Op{Op: opBulk, K: k} }
	return HistCase{Cfg: c, Ops: []Op{bulk(1, 2, 0, 150), {Op: opFlush}, bulk(3, 4, 0, 150), {Op: opPersist}, bulk(5, 6, 8, 60), {Op: opDelete, K: B{}},
		{Op: opReopen}, bulk(7, 8, 24, 20), bulk(1, 2, 0, 60), {Op: opCommit}, bulk(9, 10, 16, 10)}}
}

// wideKzg is a history of a KZG trie whose nodes get all children there can be
func wideKzg() HistCase {
	bulk := func(k ...byte) Op { return Op{Op: opBulk, K: k} }
	return HistCase{Cfg: Cfg{Kzg: true, Arity: 256, Opt: true}, Ops: []Op{bulk(1, 2, 8, 4), {Op: opCommit}, {opUpdate, B{}, B{1}}, {opUpdate, B{128}, B{2, 3}}, {opUpdate, B{255}, B{2}},
		{Op: opFlush}, {opDelete, B{129}, nil}, {opUpdate, B{0, 1}, B{7}}, {Op: opCommit}}}
}

// World is a trie with its stores and the model of what it should hold
type World struct {
	cfg                                                     Cfg
	model                                                   trie.CommitmentModel
	nodes                                                   *memKV
	vals                                                    *memKV
	tr                                                      *trie.Trie
	cur                                                     map[string]string // latest contents
	persisted                                               map[string]string // contents at the last persist
	dirty                                                   bool              // updates since the last commit
	unsaved                                                 bool              // changes since the last persist
	imm                                                     bool              // the value store is written right after each update
	rnodes, rvals                                           *memKV            // what the trie reads: nodes and vals, if writes are deferred as of their last flush
	mirror                                                  *memKV            // a second store everything is persisted to
	nCommits, nPersists, nReopens, nDeletesHit, nOverwrites int
}

func newWorld(c Cfg) *World {
	w := &World{cfg: c, model: c.model(), nodes: newMemKV(), vals: newMemKV(), cur: map[string]string{}, persisted: map[string]string{}}
	w.rnodes, w.rvals = w.nodes, w.vals
	w.open()
	return w
}

// deferWrites makes the trie see what it has persisted only from the next flush on, like with a batch
func (w *World) deferWrites() {
	w.rnodes, w.rvals = newMemKV(), newMemKV()
	w.open()
}

func (w *World) sync() {
	if w.rnodes != w.nodes {
		w.rnodes.m, w.rvals.m = copyMap(w.nodes.m), copyMap(w.vals.m)
	}
}

func (w *World) open() {
	if w.cfg.Opt || w.cfg.Hash == 20 {
		w.tr = trie.New(w.model, w.rnodes, w.rvals, w.cfg.Opt)
	} else {
		w.tr = trie.New(w.model, w.rnodes, w.rvals) // the option is off by default
	}
}

func (w *World) set(k, v []byte) {
	old, had := w.cur[string(k)]
	if len(v) == 0 {
		if had {
			w.nDeletesHit++
		}
		delete(w.cur, string(k))
	} else {
		if had && old != string(v) {
			w.nOverwrites++
		}
		w.cur[string(k)] = string(v)
	}
	if w.imm {
		w.vals.Set(k, v)
	}
	w.dirty, w.unsaved = true, true
}

func (w *World) update(k, v []byte) {
	w.tr.Update(append([]byte{}, k...), append([]byte{}, v...))
	w.set(k, v)
}

func (w *World) delete(k []byte) {
	w.tr.Delete(append([]byte{}, k...))
	w.set(k, nil)
}

func (w *World) commit() {
	w.tr.Commit()
	if w.dirty {
		w.nCommits++
	}
	w.dirty = false
}

func (w *World) persist() {
	w.commit()
	w.tr.PersistMutations(w.nodes)
	if w.mirror != nil {
		w.tr.PersistMutations(w.mirror)
	}
	w.vals.m = copyMap(w.cur)
	w.persisted = copyMap(w.cur)
	w.nPersists++
	w.unsaved = false
}

func (w *World) rollback() {
	w.sync()
	w.tr.ClearCache()
	w.cur = copyMap(w.persisted)
	if w.imm {
		w.vals.m = copyMap(w.persisted)
	}
	w.dirty, w.unsaved = false, false
}

func (w *World) apply(op Op) {
	switch op.Op {
	case opUpdate:
		w.update(op.K, op.V)
	case opDelete:
		w.delete(op.K)
	case opEmpty:
		w.tr.Update(append([]byte{}, op.K...), op.V[:0])
		w.set(op.K, nil)
	case opCommit:
		w.commit()
	case opPersist:
		w.persist()
	case opFlush:
		w.persist()
		w.sync()
		w.tr.ClearCache()
		w.nReopens++
	case opReopen:
		w.persist()
		w.sync()
		w.open()
		w.nReopens++
	case opBulk:
		for _, o := range bulkOps(op) {
			w.apply(o)
		}
	case opRead:
		lookup(w.tr, op.K)
	case opClear:
		w.rollback()
	case opProve:
		w.commit()
		if w.cfg.Kzg {
			trie.GetProofGeneric(w.tr, append([]byte{}, op.K...)) // the proof itself is slow
		} else {
			proofBytes(w.cfg, w.tr, op.K)
		}
	default:
		panic("unknown op " + op.Op)
	}
}

func (w *World) root() []byte { return rootOf(w.tr) }

func rootOf(ns trie.NodeStore) []byte {
	r := trie.RootCommitment(ns)
	if isNil(r) {
		return nil
	}
	return r.Bytes()
}

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	eq, conclusive := trie.CheckNils(v, nil)
	return conclusive && eq
}

func (w *World) reader() *trie.TrieReader { return trie.NewTrieReader(w.model, w.nodes, w.vals) }

// fresh builds a trie with the contents inserted once, in key order
func fresh(c Cfg, m map[string]string) *trie.Trie {
	tr := trie.New(c.model(), newMemKV(), newMemKV(), c.Opt)
	for _, k := range sortedKeys(m) {
		tr.Update([]byte(k), []byte(m[k]))
	}
	tr.Commit()
	return tr
}

// freshStore is what persisting a freshly built trie leaves in the node store
func freshStore(c Cfg, m map[string]string) map[string]string {
	s := newMemKV()
	fresh(c, m).PersistMutations(s)
	return s.m
}

// lookup finds the value commitment of a key
func lookup(ns trie.NodeStore, key []byte) trie.TCommitment {
	u := trie.UnpackBytes(append([]byte{}, key...), ns.PathArity())
	p := trie.GetProofGeneric(ns, u)
	if p == nil || len(p.Path) == 0 || p.Ending != trie.EndingTerminal {
		return nil
	}
	n, ok := ns.GetNode(p.Path[len(p.Path)-1])
	if !ok {
		panic(fmt.Sprintf("last node of the path to %x not found", key))
	}
	t := n.Terminal()
	if isNil(t) {
		return nil
	}
	return t
}

// expected terminal commitment of a pair, as the model computes it from what is to be committed
func wantTerminal(c Cfg, m trie.CommitmentModel, k, v string) trie.TCommitment {
	return m.CommitToData(refData(c, k, v))
}

// checkLookups compares lookups of the probed keys with the contents
func checkLookups(c Cfg, ns trie.NodeStore, m map[string]string, probes [][]byte, where string) error {
	model := c.model()
	for _, k := range probes {
		t := lookup(ns, k)
		v, ok := m[string(k)]
		if !ok {
			if t != nil {
				return fmt.Errorf("%s: key %x is not in the contents, but a value commitment %s is found (contents %s)", where, k, t, dumpMap(m))
			}
			continue
		}
		if t == nil {
			return fmt.Errorf("%s: key %x is in the contents, but not found (contents %s)", where, k, dumpMap(m))
		}
		want := wantTerminal(c, model, string(k), v)
		if !model.EqualCommitments(t, want) || !sameTerminal(c, t, refData(c, string(k), v)) {
			return fmt.Errorf("%s: key %x: value commitment %s found, expected %s", where, k, t, want)
		}
	}
	return nil
}

// sameTerminal compares a terminal commitment with the data by the reference (ignores the storage bits)
func sameTerminal(c Cfg, t trie.TCommitment, data []byte) bool {
	if c.Kzg {
		return bytes.Equal(t.Bytes(), refTermBytes(c, data))
	}
	b := t.Bytes()
	s := refSlot(data, c.Hash)
	return len(b) == len(s)+1 && b[0]&0x3f == byte(len(s)) && bytes.Equal(b[1:], s)
}

// proofBytes takes a proof of the key (of path for blake2b, of inclusion for KZG); nil if there is none
func proofBytes(c Cfg, ns trie.NodeStore, key []byte) []byte {
	k := append([]byte{}, key...)
	if c.Kzg {
		p, ok := trie_kzg_bn256.Model.ProofOfInclusion(k, ns)
		if !ok {
			return nil
		}
		return p.Bytes()
	}
	return c.b2b().Proof(k, ns).Bytes()
}

// checkProof takes and validates the proof of one key against the root and the contents
func checkProof(c Cfg, ns trie.NodeStore, m map[string]string, key []byte, root []byte) error {
	if c.Kzg {
		return checkKzgProof(ns, m, key)
	}
	p := c.b2b().Proof(append([]byte{}, key...), ns)
	return checkB2bProof(c, p, m, key, root)
}

func checkB2bProof(c Cfg, p *trie_blake2b.Proof, m map[string]string, key []byte, root []byte) error {
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("proof of key %x (%s): %s; contents %s", key, c, fmt.Sprintf(f, a...), dumpMap(m))
	}
	if p == nil {
		return fail("nil proof")
	}
	if err := trie_blake2b_verify.Validate(p, root); err != nil {
		return fail("does not validate: %v", err)
	}
	v, present := m[string(key)]
	if abs := trie_blake2b_verify.IsProofOfAbsence(p); abs == present {
		return fail("IsProofOfAbsence is %v", abs)
	}
	if !bytes.Equal(p.Key, refUnpack(key, c.Arity)) {
		return fail("key in the proof is %x", p.Key)
	}
	pk, term := trie_blake2b_verify.MustKeyWithTerminal(p)
	if len(p.Path) > 0 && !bytes.Equal(pk, refUnpack(key, c.Arity)) {
		return fail("key from the proof is %x", pk)
	}
	if present != (len(term) > 0) {
		return fail("terminal is %x", term)
	}
	wrong := [][]byte{nil, {0x77}, append([]byte(v), 1), append([]byte(v), make([]byte, 40)...)}
	if len(v) > 0 {
		x := []byte(v)
		x[len(x)-1] ^= 0x40
		wrong = append(wrong, x)
		if len(v) > 1 {
			wrong = append(wrong, []byte(v)[:len(v)-1])
		}
	}
	if present {
		data := refData(c, string(key), v)
		if !bytes.Equal(term, refSlot(data, c.Hash)) {
			return fail("terminal %x, expected %x", term, refSlot(data, c.Hash))
		}
		// with the key commitment option a pair with equal key and value commits to the unpacked key
		if err := trie_blake2b_verify.ValidateWithValue(p, root, data); err != nil {
			return fail("does not validate with the value %x: %v", clip(string(data), 80), err)
		}
		for _, x := range wrong {
			if bytes.Equal(x, data) || bytes.Equal(refSlot(x, c.Hash), refSlot(data, c.Hash)) {
				continue
			}
			if err := trie_blake2b_verify.ValidateWithValue(p, root, x); err == nil {
				return fail("validates with the wrong value %x", clip(string(x), 80))
			}
		}
	} else {
		for _, x := range wrong {
			if err := trie_blake2b_verify.ValidateWithValue(p, root, x); err == nil {
				return fail("absent key validates with value %x", clip(string(x), 80))
			}
		}
	}
	// not against other roots
	if len(root) > 0 {
		other := append([]byte{}, root...)
		other[len(other)-1] ^= 1
		for _, r := range [][]byte{other, nil, root[:len(root)-1]} {
			if err := trie_blake2b_verify.Validate(p, r); err == nil {
				return fail("validates against another root %x", r)
			}
		}
	}
	return nil
}

func checkKzgProof(ns trie.NodeStore, m map[string]string, key []byte) error {
	p, ok := trie_kzg_bn256.Model.ProofOfInclusion(append([]byte{}, key...), ns)
	v, present := m[string(key)]
	if ok != present {
		return fmt.Errorf("key %x: present %v, proof of inclusion %v; contents %s", key, present, ok, dumpMap(m))
	}
	if !present {
		return nil
	}
	return checkKzgInclusion(p, trie.RootCommitment(ns), key, []byte(v))
}

func checkKzgInclusion(p *trie_kzg_bn256.ProofOfInclusion, root trie.VCommitment, key, value []byte) error {
	if !bytes.Equal(p.Key, key) {
		return fmt.Errorf("key %x: proof carries key %x", key, p.Key)
	}
	if err := p.Validate(root); err != nil {
		return fmt.Errorf("key %x: proof does not validate: %v", key, err)
	}
	if err := p.Validate(root, value); err != nil {
		return fmt.Errorf("key %x: proof does not validate with the value: %v", key, err)
	}
	for _, x := range [][]byte{append(append([]byte{}, value...), 0), {0x77, 0x01}, nil} {
		if err := p.Validate(root, x); err == nil {
			return fmt.Errorf("key %x: proof validates with the wrong value %x", key, x)
		}
	}
	return nil
}

// sameView checks that two node stores show the same trie: root, lookups and proofs of the probes
func sameView(c Cfg, a, b trie.NodeStore, probes [][]byte, what string) error {
	if ra, rb := rootOf(a), rootOf(b); !bytes.Equal(ra, rb) {
		return fmt.Errorf("%s: roots differ: %x / %x", what, ra, rb)
	}
	m := c.model()
	for _, k := range probes {
		ta, tb := lookup(a, k), lookup(b, k)
		if (ta == nil) != (tb == nil) || (ta != nil && !m.EqualCommitments(ta, tb)) {
			return fmt.Errorf("%s: key %x: lookups differ: %v / %v", what, k, ta, tb)
		}
		if c.Kzg {
			continue // KZG proofs are slow: compared in C13
		}
		if !bytes.Equal(proofBytes(c, a, k), proofBytes(c, b, k)) {
			return fmt.Errorf("%s: key %x: proofs differ", what, k)
		}
	}
	return nil
}

// ---------------------------------------------------------------- histories

type histOpt struct {
	maxOps     int
	pool       []B
	clear, imm bool
	reads      bool
	noBulk     bool
	bulk       bool // now and then hundreds of keys at once
}

// gHistory draws a history over a pool of keys
func gHistory(s *Src, c Cfg, o histOpt) []Op {
	var ops []Op
	have := map[string]bool{}
	recent := []B{}
	key := func(wantPresent bool) B {
		if wantPresent && len(recent) > 0 && s.Pct(70) {
			for t := 0; t < 4; t++ {
				k := pick(s, recent)
				if have[string(k)] {
					return k
				}
			}
		}
		k := pick(s, o.pool)
		if s.Pct(6) {
			k = deriveKey(s, k, []byte{0, 1, 0xff}, o.pool)
		}
		return k
	}
	wClear, wRead := 0, 0
	if o.clear {
		wClear = 3
	}
	if o.reads {
		wRead = 5
	}
	bulk := o.bulk && !c.Kzg && s.N(1000) >= 994
	if bulk && o.maxOps > 14 {
		o.maxOps = 14
	}
	stay := false                                      // the trie is never reopened
	if o.bulk && !c.Kzg && !bulk && s.N(1000) >= 997 { // a long life of one trie
		o.maxOps = pick(s, []int{300, 600, 1500})
		stay = s.Pct(50)
	}
	// few commits in some histories, many in others
	wSave := pick(s, []int{1, 3, 8})
	if stay {
		wSave = 8
	}
	for len(ops) < 1 || (len(ops) < 2*o.maxOps && s.N(o.maxOps) != 0) {
		if bulk && s.Pct(20) {
			ops = append(ops, Op{Op: opBulk, K: B{s.Byte(), s.Byte(), byte(s.N(32))}})
			for _, o := range bulkOps(ops[len(ops)-1]) {
				if len(recent) < 40 {
					recent = append(recent, o.K)
					have[string(o.K)] = o.Op == opUpdate
				}
			}
			continue
		}
		switch s.W(46, 24, 3, 3*wSave, wSave, 2*wSave, wSave, wRead, wClear, wRead/2) {
		case 0:
			k := key(false)
			ops = append(ops, Op{opUpdate, k, gValue(s, c, k)})
			have[string(k)] = true
			recent = append(recent, k)
		case 1:
			k := key(true)
			ops = append(ops, Op{Op: opDelete, K: k})
			delete(have, string(k))
		case 2:
			k := key(true)
			ops = append(ops, Op{Op: opEmpty, K: k})
			delete(have, string(k))
		case 3:
			ops = append(ops, Op{Op: opCommit})
		case 4:
			ops = append(ops, Op{Op: opPersist})
		case 5:
			ops = append(ops, Op{Op: opFlush})
		case 6:
			if stay {
				ops = append(ops, Op{Op: opCommit})
				continue
			}
			ops = append(ops, Op{Op: opReopen})
		case 7:
			ops = append(ops, Op{Op: opRead, K: key(false)})
		case 8:
			ops = append(ops, Op{Op: opClear})
		case 9:
			ops = append(ops, Op{Op: opProve, K: key(false)})
		}
	}
	return ops
}

func histLabels(st *Stats, w *World) {
	st.Label("cfg:" + w.cfg.label())
	if w.cfg.Opt {
		st.Label("opt:keycommit")
	}
	if w.cfg.Thr > 0 {
		st.Label("opt:threshold")
	}
	if w.nDeletesHit > 0 {
		st.Label("with:deletes-hit")
	}
	if w.nReopens > 0 {
		st.Label("with:reopen/flush")
	}
	if w.nOverwrites > 0 {
		st.Label("with:overwrites")
	}
	if len(w.cur) > 100 {
		st.Label("with:more than 100 keys at the end")
	}
	if len(w.cur) == 0 {
		st.Label("with:empty-end")
	}
}

func errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

var errNone = errors.New("")
