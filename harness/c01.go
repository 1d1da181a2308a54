package main

import (
	"bytes"
	"fmt"
)

// HistCase is a history of one trie
type HistCase struct {
	Cfg Cfg  `json:"cfg"`
	Imm bool `json:"imm,omitempty"`
	// persisting goes to a batch, which is applied when the cache is cleared or the trie opened again
	Defer bool `json:"defer,omitempty"`
	// persisting goes to a second store, too
	Mirror bool `json:"mirror,omitempty"`
	Ops    []Op `json:"ops"`
}

func gHist(s *Src, kzgPct, maxOps, maxKeys int, o histOpt) HistCase {
	c := gcfg(s, kzgPct)
	if c.Kzg {
		if maxOps > 16 {
			maxOps = 16
		}
		if maxKeys > 6 {
			maxKeys = 6
		}
	}
	o.pool = keyPool(s, 1, maxKeys)
	o.bulk = !o.noBulk
	o.maxOps = maxOps
	h := HistCase{Cfg: c, Imm: s.Pct(25)}
	h.Ops = gHistory(s, c, o)
	return h
}

const histRule = "cases are generated histories over a pool of related keys (prefixes, extensions, bit/nibble siblings, dense fan-out, long keys, now and then hundreds of keys at once) with values around the hash size and thresholds, under a drawn configuration; "

func runC01(h *HistCase, st *Stats) error {
	w := newWorld(h.Cfg)
	w.imm = h.Imm
	var err error
	for i, op := range h.Ops {
		w.apply(op)
		if !w.dirty && op.Op != opRead {
			// after a commit: compare with the trie built once from the contents
			if err = c01compare(w); err != nil {
				return fmt.Errorf("after op %d (%s): %w", i, op.Op, err)
			}
		}
	}
	w.commit()
	if err = c01compare(w); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	histLabels(st, w)
	st.NonTrivial(w.nDeletesHit+w.nOverwrites > 0 && w.nCommits > 1 && len(w.cur) > 0)
	return nil
}

func c01compare(w *World) error {
	got := w.root()
	want := rootOf(fresh(w.cfg, w.cur))
	if !bytes.Equal(got, want) {
		return errf("%s: root %x, but inserting the same pairs once gives %x; contents %s", w.cfg, got, want, dumpMap(w.cur))
	}
	if (len(w.cur) == 0) != (got == nil) {
		return errf("%s: %d pairs, root %x", w.cfg, len(w.cur), got)
	}
	return nil
}

// C02
func runC02(h *HistCase, st *Stats) error {
	w := newWorld(h.Cfg)
	w.imm = h.Imm
	for i, op := range h.Ops {
		w.apply(op)
		if i%4 == 3 && !w.dirty {
			if err := c02compare(w); err != nil {
				return fmt.Errorf("after op %d (%s): %w", i, op.Op, err)
			}
		}
	}
	w.commit()
	if err := c02compare(w); err != nil {
		return err
	}
	histLabels(st, w)
	st.NonTrivial(len(w.cur) >= 2)
	return nil
}

func c02compare(w *World) error {
	tree := refTree(w.cfg, w.cur)
	want := refCommit(w.cfg, tree)
	if got := w.root(); !bytes.Equal(got, want) {
		return errf("%s: root %x, by the definition %x; contents %s", w.cfg, got, want, dumpMap(w.cur))
	}
	// node by node: path fragment, children and value of the canonical tree
	var err error
	tree.walk(func(n *refNode) {
		if err != nil {
			return
		}
		x, ok := w.tr.GetNode(n.key)
		if !ok {
			err = errf("%s: node %x of the canonical tree is missing; contents %s", w.cfg, n.key, dumpMap(w.cur))
			return
		}
		if !bytes.Equal(x.PathFragment(), n.pf) {
			err = errf("%s: node %x has path fragment %x, canonical is %x; contents %s", w.cfg, n.key, x.PathFragment(), n.pf, dumpMap(w.cur))
			return
		}
		cc := x.ChildCommitments()
		if len(cc) != len(n.children) {
			err = errf("%s: node %x has %d children, canonical %d; contents %s", w.cfg, n.key, len(cc), len(n.children), dumpMap(w.cur))
			return
		}
		for i, ch := range n.children {
			if c, ok := cc[byte(i)]; !ok || !bytes.Equal(c.Bytes(), ch.hash) {
				err = errf("%s: node %x: child %d is wrong; contents %s", w.cfg, n.key, i, dumpMap(w.cur))
				return
			}
		}
		if isNil(x.Terminal()) != (n.data == nil) || (n.data != nil && !sameTerminal(w.cfg, x.Terminal(), n.data)) {
			err = errf("%s: node %x: terminal %v, canonical data %x", w.cfg, n.key, x.Terminal(), n.data)
		}
	})
	return err
}

func init() {
	register("C01", checkOpt{Quick: 100000, Thor: 1500000,
		Rule: histRule + "after every commit the root is compared with that of a fresh trie into which the model map is inserted once in key order. Non-trivial: a present key was deleted or overwritten, at least two commits changed something, contents not empty at the end.",
	}, func(s *Src) HistCase {
		return gHist(s, 4, 40, 12, histOpt{reads: true})
	}, runC01, wideKzg(), bigHist(Cfg{Arity: 16, Hash: 32, Opt: true}), bigHist(Cfg{Arity: 256, Hash: 20, Thr: 20}))
	register("C02", checkOpt{Quick: 100000, Thor: 1500000,
		Rule:   histRule + "at the end and at commits the root and every node are compared with an independent evaluation of the definition (canonical radix tree, blake2b hash vector or KZG sum over the Lagrange basis). Non-trivial: at least two pairs at the end.",
		Assume: []string{"golang.org/x/crypto/blake2b and kyber bn256 group operations are correct"},
	}, func(s *Src) HistCase {
		return gHist(s, 4, 30, 12, histOpt{})
	}, runC02, wideKzg(), bigHist(Cfg{Arity: 16, Hash: 20}), bigHist(Cfg{Arity: 2, Hash: 32}))
}
