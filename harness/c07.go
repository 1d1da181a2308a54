package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/trie"
)

// CloneCase: a prepared trie, then operations on it and its clones
type CloneCase struct {
	Cfg  Cfg       `json:"cfg"`
	Prep []Op      `json:"prep"` // history of the original, leaves it in any state
	Ops  []CloneOp `json:"ops"`
}

// CloneOp is an operation on instance I (modulo the number of instances)
type CloneOp struct {
	I int `json:"i"`
	Op
}

const (
	opClone = "clone" // adds an instance
	opCheck = "check"
)

// inst is one of the tries; all of them read the same persisted stores, none writes there
type inst struct {
	tr    *trie.Trie
	cur   map[string]string
	dirty bool
}

func gCloneCase(s *Src) CloneCase {
	h := gHist(s, 4, 14, 9, histOpt{reads: true})
	cc := CloneCase{Cfg: h.Cfg, Prep: h.Ops}
	pool := []B{}
	for _, op := range h.Ops {
		if op.K != nil {
			pool = append(pool, op.K)
		}
	}
	pool = append(pool, keyPool(s, 1, 3)...)
	n := s.Range(3, 20)
	if h.Cfg.Kzg {
		n = s.Range(3, 10)
	}
	cc.Ops = append(cc.Ops, CloneOp{0, Op{Op: opClone}})
	for j := 0; j < n; j++ {
		k := pick(s, pool)
		o := CloneOp{I: s.N(4)}
		switch s.W(40, 30, 14, 8, 6, 8, 6, 3) {
		case 0:
			o.Op = Op{opUpdate, k, gValue(s, h.Cfg, k)}
		case 1:
			o.Op = Op{Op: opDelete, K: k}
		case 2:
			o.Op = Op{Op: opCommit}
		case 3:
			o.Op = Op{Op: opScratch}
		case 4:
			o.Op = Op{Op: opClear}
		case 5:
			o.Op = Op{Op: opRead, K: k}
		case 6:
			o.Op = Op{Op: opClone}
		case 7:
			o.Op = Op{Op: opCheck}
		}
		cc.Ops = append(cc.Ops, o)
	}
	return cc
}

func runC07(cc *CloneCase, st *Stats) error {
	c := cc.Cfg
	w := newWorld(c)
	for _, op := range cc.Prep {
		w.apply(op)
	}
	base := copyMap(w.persisted) // what the shared stores hold
	insts := []*inst{{tr: w.tr, cur: copyMap(w.cur), dirty: w.dirty}}
	st.Label("cfg:" + c.label())
	if w.dirty {
		st.Label("cloned:uncommitted")
	}
	if w.unsaved {
		st.Label("cloned:unpersisted")
	}
	nodes0, vals0 := copyMap(w.nodes.m), copyMap(w.vals.m)
	check := func(i int, where string) error {
		x := insts[i]
		x.tr.Commit()
		x.dirty = false
		if got, want := rootOf(x.tr), refRoot(c, x.cur); !bytes.Equal(got, want) {
			return errf("%s: %s: instance %d has root %x, its contents have %x: %s", where, c, i, got, want, dumpMap(x.cur))
		}
		probes := probeKeys(x.cur)
		if len(probes) > 16 {
			probes = probes[:16]
		}
		return checkLookups(c, x.tr, x.cur, probes, fmt.Sprintf("%s: instance %d", where, i))
	}
	muts := map[int]int{}
	for j, o := range cc.Ops {
		i := o.I % len(insts)
		x := insts[i]
		where := fmt.Sprintf("op %d (%s on instance %d)", j, o.Op.Op, i)
		switch o.Op.Op {
		case opUpdate:
			x.tr.Update(append([]byte{}, o.K...), append([]byte{}, o.V...))
			x.cur[string(o.K)] = string(o.V)
			x.dirty = true
			muts[i]++
		case opDelete:
			x.tr.Delete(append([]byte{}, o.K...))
			delete(x.cur, string(o.K))
			x.dirty = true
			muts[i]++
		case opCommit:
			x.tr.Commit()
			x.dirty = false
		case opScratch:
			x.tr.Commit()
			x.dirty = false
			s := w.nodes.clone()
			x.tr.PersistMutations(s)
			if want := freshStore(c, x.cur); !sameMap(s.m, want) {
				return errf("%s: %s: persisting leaves other nodes than a fresh trie (first: store, second: fresh):%s", where, c, diffMap(s.m, want))
			}
			re := trie.NewTrieReader(x.tr.Model(), s, &memKV{m: x.cur})
			if !bytes.Equal(rootOf(re), rootOf(x.tr)) {
				return errf("%s: %s: persisted root differs", where, c)
			}
		case opClear:
			x.tr.ClearCache()
			x.cur = copyMap(base)
			x.dirty = false
			st.Label("cleared-one-instance")
		case opRead:
			lookup(x.tr, o.K)
		case opCheck:
			if err := check(i, where); err != nil {
				return err
			}
		case opClone:
			if len(insts) >= 4 {
				continue
			}
			cl := x.tr.Clone()
			if !bytes.Equal(rootOf(cl), rootOf(x.tr)) {
				return errf("%s: %s: the clone has root %x, the original %x", where, c, rootOf(cl), rootOf(x.tr))
			}
			if cl.PathArity() != x.tr.PathArity() || cl.Info() != x.tr.Info() {
				return errf("%s: the clone describes itself as %s, the original as %s", where, cl.Info(), x.tr.Info())
			}
			insts = append(insts, &inst{tr: cl, cur: copyMap(x.cur), dirty: x.dirty})
		}
	}
	for i := range insts {
		if err := check(i, "at the end"); err != nil {
			return err
		}
	}
	// proofs and complete stores
	for i, x := range insts {
		s := w.nodes.clone()
		x.tr.PersistMutations(s)
		if want := freshStore(c, x.cur); !sameMap(s.m, want) {
			return errf("at the end: %s: instance %d persists other nodes than a fresh trie (first: store, second: fresh):%s", c, i, diffMap(s.m, want))
		}
		if !c.Kzg {
			f := fresh(c, x.cur)
			for n, k := range probeKeys(x.cur) {
				if n > 8 {
					break
				}
				if !bytes.Equal(proofBytes(c, x.tr, k), proofBytes(c, f, k)) {
					return errf("at the end: %s: instance %d: the proof of %x differs from that of a fresh trie", c, i, k)
				}
			}
		}
	}
	if !sameMap(w.nodes.m, nodes0) || !sameMap(w.vals.m, vals0) {
		return errf("the shared stores were written to")
	}
	st.LabelN("instances", len(insts))
	st.NonTrivial(len(muts) > 1 && len(w.cur) > 0)
	return nil
}

// C08

// OptCase: one contents (with a history) under several storage options
type OptCase struct {
	Hist HistCase `json:"hist"`
	Thrs []int    `json:"thrs"`
}

func gOptCase(s *Src) OptCase {
	h := gHist(s, 0, 20, 9, histOpt{reads: true})
	h.Cfg.Thr, h.Cfg.Opt = 0, false
	if s.Pct(3) {
		h.Cfg = Cfg{Kzg: true, Arity: 256}
		if len(h.Ops) > 10 {
			h.Ops = h.Ops[:10]
		}
		for i := range h.Ops {
			if h.Ops[i].Op == opBulk { // too slow
				h.Ops[i].Op = opCommit
			}
		}
	}
	lens := []int{1, 2, 19, 20, 21, 32, 33, 1 << 20}
	for _, op := range h.Ops {
		if len(op.V) > 0 && len(lens) < 20 {
			lens = append(lens, len(op.V), len(op.V)-1)
		}
	}
	o := OptCase{Hist: h}
	for i := 0; i < 2; i++ {
		o.Thrs = append(o.Thrs, pick(s, lens))
	}
	return o
}

func runC08(o *OptCase, st *Stats) error {
	h := &o.Hist
	var base *World
	nTerm := map[string]int{}
	for i, thr := range append([]int{0}, o.Thrs...) {
		if h.Cfg.Kzg && i > 0 {
			break
		}
		for _, opt := range []bool{false, true} {
			c := h.Cfg
			c.Thr, c.Opt = thr, opt
			w := newWorld(c)
			w.imm = h.Imm
			for _, op := range h.Ops {
				w.apply(op)
			}
			w.persist()
			if base == nil {
				base = w
			}
			// the same contents whatever the options
			same := true
			if opt && c.Arity != 256 {
				for k, v := range w.cur {
					same = same && k != v
				}
			}
			probes := probeKeys(w.cur)
			if len(probes) > 12 {
				probes = append(probes[:8:8], probes[len(probes)-4:]...)
			}
			for _, ns := range []trie.NodeStore{w.tr, w.reader(), trie.New(w.model, w.nodes, w.vals, opt)} {
				if same {
					if err := sameView(c, base.tr, ns, probes, fmt.Sprintf("%s / %s", base.cfg, c)); err != nil {
						return fmt.Errorf("%w; contents %s", err, dumpMap(w.cur))
					}
				} else {
					if got, want := rootOf(ns), refRoot(c, w.cur); !bytes.Equal(got, want) {
						return errf("%s: root %x, by the definition %x: %s", c, got, want, dumpMap(w.cur))
					}
				}
				if err := checkLookups(c, ns, w.cur, probes, c.String()); err != nil {
					return err
				}
			}
			// every node from the stores alone, and what of the values is in the node store
			t := refTree(c, w.cur)
			refCommit(c, t)
			var err error
			t.walk(func(n *refNode) {
				if err == nil {
					err = c08node(w, n, nTerm)
				}
			})
			if err != nil {
				return fmt.Errorf("%s: %w; contents %s", c, err, dumpMap(w.cur))
			}
		}
	}
	st.Label("cfg:" + h.Cfg.label())
	for l, n := range nTerm {
		st.LabelN("terminals:"+l, n)
	}
	st.NonTrivial(nTerm["from-value"] > 0 && nTerm["in-node"] > 0)
	return nil
}

func c08node(w *World, n *refNode, nTerm map[string]int) error {
	c := w.cfg
	raw, ok := w.nodes.m[string(refEncode(n.key, c.Arity))]
	if !ok {
		return errf("node %x is not in the store", n.key)
	}
	full := append(append([]byte{}, n.key...), n.pf...)
	fromKey := c.Opt && n.data != nil && bytes.Equal(n.data, full) && len(full) > 0
	if c.Opt && n.data != nil && c.Kzg == false && !fromKey && bytes.Equal(refSlot(n.data, c.Hash), refSlot(full, c.Hash)) && len(full) > 0 {
		fromKey = true // the same commitment as that to the key
	}
	small := !c.Kzg && n.data != nil && len(n.data) <= c.Thr
	// size: without the terminal unless it has to be there
	inNode := n.data != nil && !fromKey && !small
	want := len(refNodeBytes(c, n, fromKey, small))
	if len(raw) != want {
		return errf("node %x (%s) takes %d bytes in the store, expected %d: value of %d bytes, threshold %d, from key %v", n.key, n, len(raw), want, len(n.data), c.Thr, fromKey)
	}
	switch {
	case n.data == nil:
	case fromKey:
		nTerm["from-key"]++
	case small:
		nTerm["from-value"]++
	default:
		nTerm["in-node"]++
	}
	read := func(vals trie.KVReader, what string) error {
		x, ok := trie.NewTrieReader(w.model, w.nodes, vals).GetNode(append([]byte{}, n.key...))
		if !ok {
			return errf("node %x can't be read %s", n.key, what)
		}
		if isNil(x.Terminal()) != (n.data == nil) || (n.data != nil && !sameTerminal(c, x.Terminal(), n.data)) {
			return errf("node %x read %s has value commitment %v, data is %x", n.key, what, x.Terminal(), n.data)
		}
		if !bytes.Equal(x.PathFragment(), n.pf) || len(x.ChildCommitments()) != len(n.children) {
			return errf("node %x read %s: %s", n.key, what, nodeStr(x))
		}
		return nil
	}
	if err := read(w.vals, "from the stores"); err != nil {
		return err
	}
	if inNode || n.data == nil || fromKey {
		if err := read(newMemKV(), "without the values"); err != nil {
			return err
		}
		return read(nil, "without a value store")
	}
	return nil
}

func init() {
	register("C07", checkOpt{Quick: 40000, Thor: 1000000,
		Rule: "cases are a generated history which leaves a trie in any state (uncommitted, unpersisted, deleted nodes buffered), then operations (update, delete, commit, persist to a separate store, cache clear, lookup, clone again) on up to four instances which are clones of each other; every instance is compared with its own model: root against the definition, lookups, proofs and persisted nodes against a fresh trie. Non-trivial: at least two instances were changed after cloning and the original was not empty.",
	}, gCloneCase, runC07)
	register("C08", checkOpt{Quick: 14000, Thor: 350000,
		Rule: histRule + "the same history is run under three value-size thresholds (0 and two around the sizes of its values) with and without the key commitment option; roots, lookups and proofs of the trie, a reader and a reopened trie must be equal to those without options (on 2- and 16-ary tries with pairs of equal key and value: to the definition); each node must take the documented place of its value commitment (node, key, value store), be readable from the stores and, unless its value is up to the threshold, without the value store. Non-trivial: some values were left to the value store and some were in nodes.",
	}, gOptCase, runC08)
}
