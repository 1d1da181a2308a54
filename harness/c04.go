package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/trie"
)

// refPath is the path of nodes which the key follows in the canonical tree, and how it ends
func refPath(root *refNode, u []byte) (path [][]byte, ending trie.ProofEndingCode, last *refNode) {
	n := root
	for n != nil {
		path = append(path, n.key)
		last = n
		rest := u[len(n.key):]
		if bytes.Equal(rest, n.pf) {
			return path, trie.EndingTerminal, last
		}
		if !bytes.HasPrefix(rest, n.pf) {
			return path, trie.EndingSplit, last
		}
		next := n.children[int(rest[len(n.pf)])]
		if next == nil {
			return path, trie.EndingExtend, last
		}
		n = next
	}
	return nil, 0, nil
}

// checkPaths compares the generic proof paths with the canonical tree
func checkPaths(c Cfg, ns trie.NodeStore, m map[string]string, probes [][]byte) error {
	t := refTree(c, m)
	for _, k := range probes {
		u := refUnpack(k, c.Arity)
		want, ending, _ := refPath(t, u)
		got := trie.GetProofGeneric(ns, append([]byte{}, u...))
		if got == nil {
			return errf("no generic proof of %x", k)
		}
		if !bytes.Equal(got.Key, u) {
			return errf("generic proof of %x has key %x", u, got.Key)
		}
		if len(want) == 0 {
			if len(got.Path) != 0 {
				return errf("empty trie: path of %d nodes", len(got.Path))
			}
			continue
		}
		bad := len(got.Path) != len(want) || got.Ending != ending
		for i := 0; !bad && i < len(want); i++ {
			bad = !bytes.Equal(got.Path[i], want[i])
		}
		if bad {
			return errf("%s: key %x: path %x ending %s, expected %x ending %s; contents %s", c, k, got.Path, got.Ending, want, ending, dumpMap(m))
		}
	}
	return nil
}

func runC04(h *HistCase, st *Stats) error {
	w := newWorld(h.Cfg)
	w.imm = h.Imm
	// opened once, before anything is stored
	longReader, longTrie := w.reader(), trie.New(w.model, w.nodes, w.vals, w.cfg.Opt)
	uncommitted := 0
	lastKeys := []B{}
	probe := func(full bool) error {
		probes := probeKeys(w.cur, lastKeys...)
		if !full && len(probes) > 12 {
			probes = append(probes[:6:6], probes[len(probes)-6:]...)
		}
		if err := checkLookups(w.cfg, w.tr, w.cur, probes, fmt.Sprintf("%s trie", w.cfg)); err != nil {
			return err
		}
		if w.dirty {
			uncommitted++
		}
		if full {
			if err := checkPaths(w.cfg, w.tr, w.cur, probes); err != nil {
				return err
			}
			if !w.imm || !w.unsaved {
				pp := probeKeys(w.persisted, lastKeys...)
				if err := checkLookups(w.cfg, w.reader(), w.persisted, pp, fmt.Sprintf("%s reader", w.cfg)); err != nil {
					return err
				}
				if err := checkPaths(w.cfg, w.reader(), w.persisted, pp); err != nil {
					return err
				}
				longTrie.ClearCache()
				for what, ns := range map[string]trie.NodeStore{"reader": longReader, "trie": longTrie} {
					if err := checkLookups(w.cfg, ns, w.persisted, pp, fmt.Sprintf("%s %s opened before the updates", w.cfg, what)); err != nil {
						return err
					}
					if got, want := rootOf(ns), refRoot(w.cfg, w.persisted); !w.cfg.Kzg && !bytes.Equal(got, want) {
						return errf("%s %s opened before the updates: root %x, expected %x", w.cfg, what, got, want)
					}
				}
			}
		}
		return nil
	}
	for i, op := range h.Ops {
		w.apply(op)
		if len(op.K) > 0 {
			lastKeys = append([]B{op.K}, lastKeys...)
			if len(lastKeys) > 4 {
				lastKeys = lastKeys[:4]
			}
		}
		if err := probe(i%8 == 7); err != nil {
			return fmt.Errorf("after op %d (%s %x): %w", i, op.Op, op.K, err)
		}
	}
	if err := probe(true); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	histLabels(st, w)
	st.LabelN("lookups-while-uncommitted", uncommitted)
	st.NonTrivial(uncommitted > 0 && len(w.cur) > 0 && w.nDeletesHit+w.nOverwrites > 0)
	return nil
}

// C05

func runC05(h *HistCase, st *Stats) error {
	w := newWorld(h.Cfg)
	w.imm = h.Imm
	if h.Defer {
		w.deferWrites()
		st.Label("with:deferred writes")
	}
	if h.Mirror {
		w.mirror = newMemKV()
		st.Label("with:second store")
	}
	longReader, longTrie := w.reader(), trie.New(w.model, w.nodes, w.vals, w.cfg.Opt)
	checked, big := 0, false
	check := func(where string, full bool) error {
		c := w.cfg
		want := freshStore(c, w.persisted)
		if !sameMap(w.nodes.m, want) {
			return errf("%s: %s: the node store differs from that of a freshly built trie (first: store, second: fresh):%s\n contents %s", where, c, diffMap(w.nodes.m, want), dumpMap(w.persisted))
		}
		if w.mirror != nil && !sameMap(w.mirror.m, want) {
			return errf("%s: %s: a second store, to which everything was persisted too, differs from that of a freshly built trie (first: store, second: fresh):%s\n contents %s", where, c, diffMap(w.mirror.m, want), dumpMap(w.persisted))
		}
		if len(w.persisted) == 0 && len(w.nodes.m) != 0 {
			return errf("%s: %s: store not empty", where, c)
		}
		checked++
		if !full {
			return nil
		}
		probes := probeKeys(w.persisted)
		if len(probes) > 16 {
			probes = append(probes[:10:10], probes[len(probes)-6:]...)
		}
		re := trie.New(w.model, w.nodes, w.vals, c.Opt)
		if err := sameView(c, w.tr, re, probes, where+": trie / reopened trie"); err != nil {
			return err
		}
		if err := sameView(c, w.tr, w.reader(), probes, where+": trie / reader"); err != nil {
			return err
		}
		if err := checkLookups(c, re, w.persisted, probes, where+": reopened trie"); err != nil {
			return err
		}
		if err := sameView(c, w.tr, longReader, probes, where+": trie / reader opened at the beginning"); err != nil {
			return err
		}
		longTrie.ClearCache()
		if err := sameView(c, w.tr, longTrie, probes, where+": trie / trie opened at the beginning"); err != nil {
			return err
		}
		// all nodes of the canonical tree, read directly
		var err error
		rd := w.reader()
		n := 0
		refTree(c, w.persisted).walk(func(x *refNode) {
			n++
			if err != nil {
				return
			}
			a, ok1 := w.tr.GetNode(x.key)
			b, ok2 := rd.GetNode(x.key)
			if !ok1 || !ok2 {
				err = errf("%s: node %x: in the trie %v, in the store %v", where, x.key, ok1, ok2)
				return
			}
			if !sameNode(w.model, a, b) {
				err = errf("%s: node %x differs: %s / %s", where, x.key, nodeStr(a), nodeStr(b))
			}
		})
		if n > 3 {
			big = true
		}
		if err == nil && n != len(w.nodes.m) {
			err = errf("%s: %d nodes in the store, %d in the canonical tree", where, len(w.nodes.m), n)
		}
		return err
	}
	for i, op := range h.Ops {
		w.apply(op)
		switch op.Op {
		case opPersist, opFlush, opReopen:
			if w.cfg.Kzg && i%4 != 0 {
				continue // slow
			}
			if err := check(fmt.Sprintf("after op %d (%s)", i, op.Op), i%5 == 0); err != nil {
				return err
			}
		}
	}
	w.persist()
	if err := check("after the last persist", true); err != nil {
		return err
	}
	w.sync()
	w.open()
	if err := check("after reopening", false); err != nil {
		return err
	}
	histLabels(st, w)
	st.NonTrivial(checked > 3 && big && w.nDeletesHit > 0)
	return nil
}

func sameNode(m trie.CommitmentModel, a, b trie.Node) bool {
	if !bytes.Equal(a.PathFragment(), b.PathFragment()) || !bytes.Equal(a.Key(), b.Key()) {
		return false
	}
	ta, tb := a.Terminal(), b.Terminal()
	if isNil(ta) != isNil(tb) || (!isNil(ta) && !m.EqualCommitments(ta, tb)) {
		return false
	}
	ca, cb := a.ChildCommitments(), b.ChildCommitments()
	if len(ca) != len(cb) {
		return false
	}
	for i, x := range ca {
		if y, ok := cb[i]; !ok || isNil(x) || isNil(y) || !bytes.Equal(x.Bytes(), y.Bytes()) {
			return false
		}
	}
	return true
}

func nodeStr(n trie.Node) string {
	return fmt.Sprintf("(key %x pf %x term %v children %v)", n.Key(), n.PathFragment(), n.Terminal(), n.ChildCommitments())
}

// C06

const (
	opScratch = "persist-elsewhere" // commit, then persist into a copy of the store
	opMisc    = "other-reads"       // reconcile, clone, info, dump
	opOther   = "other-writer"      // another trie on the stores updates or deletes and persists, then the cache is cleared
)

func runC06(h *HistCase, st *Stats) error {
	w := newWorld(h.Cfg)
	w.imm = h.Imm
	rollbacks, readsDirty, others := 0, 0, 0
	for i, op := range h.Ops {
		nodes0, vals0 := copyMap(w.nodes.m), copyMap(w.vals.m)
		nw, vw := w.nodes.writes, w.vals.writes
		where := fmt.Sprintf("%s: op %d (%s %x)", w.cfg, i, op.Op, op.K)
		noNodeWrites := func() error {
			if w.nodes.writes != nw || !sameMap(w.nodes.m, nodes0) {
				return errf("%s wrote to the node store:%s", where, diffMap(nodes0, w.nodes.m))
			}
			return nil
		}
		noWrites := func() error {
			if err := noNodeWrites(); err != nil {
				return err
			}
			if w.vals.writes != vw || !sameMap(w.vals.m, vals0) {
				return errf("%s wrote to the value store:%s", where, diffMap(vals0, w.vals.m))
			}
			return nil
		}
		switch op.Op {
		case opUpdate, opDelete, opEmpty, opBulk:
			w.apply(op)
			if err := noNodeWrites(); err != nil {
				return err
			}
			if !w.imm {
				if err := noWrites(); err != nil {
					return err
				}
			}
		case opPersist, opFlush, opReopen:
			w.apply(op)
			// the value store is written by the world only (as a whole)
			if w.vals.writes != vw {
				return errf("%s: persisting wrote to the value store", where)
			}
		case opClear:
			if w.unsaved {
				rollbacks++
			}
			w.apply(op)
			if err := noNodeWrites(); err != nil {
				return err
			}
			// like freshly opened on the stores
			re := trie.New(w.model, w.nodes, w.vals, w.cfg.Opt)
			probes := probeKeys(w.persisted, op.K)
			if len(probes) > 20 {
				probes = probes[:20]
			}
			if err := sameView(w.cfg, w.tr, re, probes, where+": after clearing the cache / freshly opened"); err != nil {
				return err
			}
			if err := checkLookups(w.cfg, w.tr, w.persisted, probes, where); err != nil {
				return err
			}
		case opOther:
			lookup(w.tr, op.K)
			if w.imm {
				w.vals.m = copyMap(w.persisted) // what the other has must be what was persisted
			}
			other := trie.New(w.model, w.nodes, w.vals, w.cfg.Opt)
			if len(op.V) > 0 {
				other.Update(append([]byte{}, op.K...), append([]byte{}, op.V...))
				w.persisted[string(op.K)] = string(op.V)
			} else {
				other.Delete(append([]byte{}, op.K...))
				delete(w.persisted, string(op.K))
			}
			other.Commit()
			other.PersistMutations(w.nodes)
			w.vals.m = copyMap(w.persisted)
			w.rollback()
			probes := probeKeys(w.persisted, op.K)
			if len(probes) > 20 {
				probes = probes[:20]
			}
			if err := sameView(w.cfg, w.tr, other, probes, where+": after clearing the cache / the other trie"); err != nil {
				return err
			}
			if err := checkLookups(w.cfg, w.tr, w.persisted, probes, where); err != nil {
				return err
			}
			others++
		case opScratch:
			w.commit()
			s := w.nodes.clone()
			w.tr.PersistMutations(s)
			if err := noWrites(); err != nil {
				return err
			}
			if want := freshStore(w.cfg, w.cur); !sameMap(s.m, want) {
				return errf("%s: persisting to another store leaves other nodes there (first: store, second: fresh):%s", where, diffMap(s.m, want))
			}
		default: // read-only
			if w.dirty {
				readsDirty++
			}
			r0 := w.root()
			if op.Op == opMisc {
				w.tr.Info()
				w.tr.DangerouslyDumpCacheToString()
				w.tr.Reconcile(&memKV{m: w.cur})
				cl := w.tr.Clone()
				cl.Update([]byte("x"), []byte("y"))
				cl.Delete(op.K)
				cl.Commit()
				w.tr.GetNode(refUnpack(op.K, w.cfg.Arity))
				trie.GetProofGeneric(w.tr, refUnpack(op.K, w.cfg.Arity))
				if !w.dirty && (!w.cfg.Kzg || i%16 == 0) {
					proofBytes(w.cfg, w.tr, op.K)
				}
			} else {
				w.apply(op)
				if op.Op == opCommit || op.Op == opProve {
					r0 = w.root()
				}
			}
			if err := noWrites(); err != nil {
				return err
			}
			if !bytes.Equal(r0, w.root()) {
				return errf("%s changed the root", where)
			}
		}
	}
	w.commit()
	if got, want := w.root(), refRoot(w.cfg, w.cur); !bytes.Equal(got, want) {
		return errf("%s: at the end the root is %x, for the contents it is %x: %s", w.cfg, got, want, dumpMap(w.cur))
	}
	w.persist()
	if want := freshStore(w.cfg, w.cur); !sameMap(w.nodes.m, want) {
		return errf("%s: at the end the store differs from a fresh one:%s", w.cfg, diffMap(w.nodes.m, want))
	}
	histLabels(st, w)
	st.LabelN("rollbacks-of-changes", rollbacks)
	st.LabelN("changes-by-another-trie", others)
	st.LabelN("reads-while-uncommitted", readsDirty)
	st.NonTrivial(rollbacks > 0 && w.nPersists > 1)
	return nil
}

func gC06(s *Src) HistCase {
	h := gHist(s, 4, 36, 10, histOpt{reads: true, clear: true})
	for i := range h.Ops {
		switch {
		case h.Ops[i].Op == opProve && s.Pct(40):
			h.Ops[i].Op = opScratch
		case h.Ops[i].Op == opRead && s.Pct(50):
			h.Ops[i].Op = opMisc
		case h.Ops[i].Op == opFlush && s.Pct(30):
			h.Ops[i].Op = opClear
		case (h.Ops[i].Op == opUpdate || h.Ops[i].Op == opDelete) && s.Pct(5):
			h.Ops[i].Op = opOther
		}
	}
	return h
}

func init() {
	register("C04", checkOpt{Quick: 40000, Thor: 1200000,
		Rule: histRule + "after every operation lookups (the node at the end of the generic proof path) of present keys and neighbours are compared with the model map, every eighth operation and at the end also the complete path and its ending with the canonical tree and direct readers (new ones, and one opened before the updates) and a second trie on the same stores (with its cache cleared) with the contents last persisted. Non-trivial: looked up with uncommitted changes, present keys deleted or overwritten, contents not empty at the end.",
	}, func(s *Src) HistCase {
		return gHist(s, 3, 32, 10, histOpt{reads: true})
	}, runC04, bigHist(Cfg{Arity: 16, Hash: 20, Thr: 33, Opt: true}))
	register("C05", checkOpt{Quick: 40000, Thor: 900000,
		Rule: histRule + "after every persist (in 30% of the cases into a batch, which the trie sees only after its cache has been cleared, in 25% also into a second store) the node store is compared byte for byte with what persisting a freshly built trie gives, and root, lookups, proofs and all nodes of the trie in memory, a reopened trie and a direct reader with each other. Non-trivial: more than three checkpoints, one with more than three nodes, a present key was deleted.",
	}, func(s *Src) HistCase {
		h := gHist(s, 3, 36, 12, histOpt{reads: true})
		h.Defer, h.Mirror = !h.Imm && s.Pct(30), s.Pct(25)
		return h
	}, runC05,
		// regression: key commitment at the root node
		bigHist(Cfg{Arity: 16, Hash: 20, Thr: 20}), bigHist(Cfg{Arity: 2, Hash: 20, Opt: true}),
		HistCase{Cfg: Cfg{Arity: 16, Hash: 20, Thr: 19, Opt: true}, Ops: []Op{{opUpdate, B{1, 0}, B{1, 0}}, {Op: opFlush}}})
	register("C06", checkOpt{Quick: 40000, Thor: 1200000,
		Rule: histRule + "the stores count writes: nothing but persisting may write, and only into the store passed to it; cache clears (rollbacks) are compared with a trie freshly opened on the stores, also after another trie has changed them; reads (lookups, proofs, reconcile, clone, dump) must not change the root; at the end root and store equal those of the model contents. Non-trivial: unpersisted changes were rolled back and the trie persisted more than once.",
	}, gC06, runC06)
}
