package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------- C32: texts

// TextCase is a history; the numbers say after which operations which texts are taken (modulo their number)
type TextCase struct {
	Cfg   Cfg  `json:"cfg"`
	Other Cfg  `json:"other"`
	Ops   []Op `json:"ops"`
	At    []int
	Probe []B `json:"probe"`
}

func gText(s *Src) TextCase {
	h := gHist(s, 2, 16, 8, histOpt{clear: true, reads: true, noBulk: true})
	c := TextCase{Cfg: h.Cfg, Other: gcfg(s, 10), Ops: h.Ops}
	if s.Pct(50) { // a configuration close to the first
		c.Other = h.Cfg
		switch s.N(4) {
		case 1:
			c.Other.Opt = !c.Other.Opt
		case 2:
			c.Other.Hash = 52 - c.Other.Hash
		case 3:
			c.Other.Thr++
		}
		if c.Other.Kzg {
			c.Other.Hash, c.Other.Thr = 0, 0
		}
	}
	for range h.Ops {
		c.At = append(c.At, s.N(8))
	}
	for _, op := range h.Ops {
		if op.K != nil && op.Op != opBulk {
			c.Probe = append(c.Probe, op.K)
		}
	}
	if len(c.Probe) > 4 {
		c.Probe = c.Probe[:4]
	}
	return c
}

// texts of everything there is in a trie or reader; two calls must give the same
func textsOf(c Cfg, ns trie.NodeStore, probes []B, committed bool) (out []string, err error) {
	twice := func(what string, f func() string) string {
		a, b := f(), f()
		if a != b {
			err = fmt.Errorf("%s: two texts of the same differ: %q and %q", what, clip(a, 300), clip(b, 300))
		}
		out = append(out, a)
		return a
	}
	info := twice("Info", ns.Info)
	if d := ns.Model().Description(); !strings.Contains(info, d) {
		return nil, fmt.Errorf("Info %q does not show the description %q of the model", info, d)
	}
	twice("ShortName", ns.Model().ShortName)
	if ns.PathArity().String() != fmt.Sprintf("PathArity%d", c.Arity) {
		return nil, fmt.Errorf("the text of arity %d is %q", c.Arity, ns.PathArity().String())
	}
	if tr, ok := ns.(*trie.Trie); ok {
		if strings.Contains(info, "true") != c.Opt {
			return nil, fmt.Errorf("Info %q of a trie with key commitments option %v", info, c.Opt)
		}
		twice("dump", tr.DangerouslyDumpCacheToString)
	}
	if r := trie.RootCommitment(ns); !isNil(r) && committed {
		t := twice("root", r.String)
		if !c.Kzg && t != hex.EncodeToString(r.Bytes()) {
			return nil, fmt.Errorf("the text of the root %x is %q", r.Bytes(), t)
		}
	}
	for _, k := range probes {
		u := trie.UnpackBytes(append([]byte{}, k...), ns.PathArity())
		p := trie.GetProofGeneric(ns, u)
		twice("generic proof", p.String)
		for _, nk := range p.Path {
			n, ok := ns.GetNode(nk)
			if !ok {
				return nil, fmt.Errorf("node %x of the path not found", nk)
			}
			if e := textOfNode(n, twice); e != nil {
				return nil, e
			}
		}
		if c.Kzg && committed && len(probes) == 1 {
			if p, ok := trie_kzg_bn256.Model.ProofOfInclusion(append([]byte{}, k...), ns); ok {
				t := twice("KZG proof", p.String)
				for i, e := range p.Path {
					if !strings.Contains(t, e.String()) || !strings.Contains(e.String(), fmt.Sprint(e.VectorIndex)) {
						return nil, fmt.Errorf("the text of the proof does not show its element %d: %q", i, clip(t, 500))
					}
				}
				if !strings.Contains(t, p.Terminal.String()) {
					return nil, fmt.Errorf("the text of the proof does not show the terminal: %q", clip(t, 500))
				}
			}
		}
		if err != nil {
			return nil, err
		}
	}
	return out, err
}

// textOfNode: the text shows key, fragment, value commitment and the number of children
func textOfNode(n trie.Node, twice func(string, func() string) string) error {
	t := twice("node", func() string { return trie.ToString(n) })
	show := []string{hex.EncodeToString(n.Key()), hex.EncodeToString(n.PathFragment()), fmt.Sprint(len(n.ChildCommitments()))}
	if !isNil(n.Terminal()) {
		show = append(show, n.Terminal().String())
	}
	for _, x := range show {
		if !strings.Contains(t, x) {
			return fmt.Errorf("the text %q of a node does not show %q", t, x)
		}
	}
	d := &trie.NodeData{PathFragment: n.PathFragment(), ChildCommitments: n.ChildCommitments(), Terminal: n.Terminal()}
	if isNil(d.Terminal) {
		d.Terminal = nil
	}
	t = twice("node data", d.String)
	show = []string{fmt.Sprint(len(d.ChildCommitments))}
	for i, ch := range d.ChildCommitments {
		if !isNil(ch) {
			show = append(show, ch.String(), fmt.Sprint(i))
		}
	}
	if d.Terminal != nil {
		show = append(show, d.Terminal.String())
	}
	for _, x := range show {
		if !strings.Contains(t, x) {
			return fmt.Errorf("the text %q of node data does not show %q", clip(t, 500), x)
		}
	}
	return nil
}

func runC32(c *TextCase, st *Stats) error {
	a, b := newWorld(c.Cfg), newWorld(c.Cfg) // texts are taken of the first only
	n := 0
	for i, op := range c.Ops {
		a.apply(op)
		b.apply(op)
		where := fmt.Sprintf("after op %d (%s)", i, op.Op)
		at := 0
		if i < len(c.At) {
			at = c.At[i]
		}
		switch at {
		case 1, 2, 3:
			if _, err := textsOf(c.Cfg, a.tr, c.Probe, !a.dirty); err != nil {
				return fmt.Errorf("%s: %w", where, err)
			}
			n++
		case 4: // the same state has the same texts
			cl := a.tr.Clone()
			x, err := textsOf(c.Cfg, cl, c.Probe, !a.dirty)
			if err != nil {
				return fmt.Errorf("%s: clone: %w", where, err)
			}
			y, err := textsOf(c.Cfg, a.tr, c.Probe, !a.dirty)
			if err != nil {
				return fmt.Errorf("%s: %w", where, err)
			}
			for j := range x {
				if j >= len(y) || x[j] != y[j] {
					return fmt.Errorf("%s: texts of trie and clone differ: %q / %q", where, clip(x[j], 400), clip(y[j], 400))
				}
			}
			n++
		case 5:
			if _, err := textsOf(c.Cfg, a.reader(), c.Probe, true); err != nil {
				return fmt.Errorf("%s: reader: %w", where, err)
			}
			n++
		}
		if !a.dirty {
			if !bytes.Equal(a.root(), b.root()) {
				return fmt.Errorf("%s: root after taking texts %x, without %x", where, a.root(), b.root())
			}
			if !sameMap(a.nodes.m, b.nodes.m) {
				return fmt.Errorf("%s: stores with and without taking texts:%s", where, diffMap(a.nodes.m, b.nodes.m))
			}
		}
	}
	a.persist()
	b.persist()
	if !bytes.Equal(a.root(), b.root()) || !sameMap(a.nodes.m, b.nodes.m) {
		return fmt.Errorf("at the end: stores with and without taking texts:%s", diffMap(a.nodes.m, b.nodes.m))
	}
	if err := checkLookups(c.Cfg, a.tr, a.cur, probeKeys(a.cur), "at the end"); err != nil {
		return err
	}
	// the dump of a trie which has just been built shows every node
	m := c.Cfg.model()
	f := fresh(c.Cfg, a.cur)
	dump := f.DangerouslyDumpCacheToString()
	var walk func(r *refNode) error
	nodes := 0
	walk = func(r *refNode) error {
		nodes++
		nd, ok := f.GetNode(r.key)
		if !ok {
			return fmt.Errorf("node %x not found", r.key)
		}
		cm := m.CalcNodeCommitment(&trie.NodeData{PathFragment: nd.PathFragment(), ChildCommitments: nd.ChildCommitments(), Terminal: nd.Terminal()})
		if !strings.Contains(dump, cm.String()) {
			return fmt.Errorf("the dump does not show the commitment %s of the node %x: %q", cm, r.key, clip(dump, 600))
		}
		if !isNil(nd.Terminal()) && !strings.Contains(dump, nd.Terminal().String()) {
			return fmt.Errorf("the dump does not show the value commitment %s of the node %x: %q", nd.Terminal(), r.key, clip(dump, 600))
		}
		for _, i := range sortedInts(r.children) {
			if err := walk(r.children[i]); err != nil {
				return err
			}
		}
		return nil
	}
	if len(a.cur) > 0 && !(c.Cfg.Kzg && len(a.cur) > 4) {
		if err := walk(refTree(c.Cfg, a.cur)); err != nil {
			return err
		}
	}
	// texts of commitments are equal exactly if they are
	var ts []trie.TCommitment
	for _, k := range sortedKeys(a.cur) {
		if len(ts) < 8 {
			ts = append(ts, m.CommitToData([]byte(a.cur[k])), m.CommitToData([]byte(k)), m.CommitToData([]byte(a.cur[k]+"x")))
		}
	}
	for i, x := range ts {
		for _, y := range ts[i:] {
			if isNil(x) || isNil(y) {
				continue
			}
			if (x.String() == y.String()) != m.EqualCommitments(x, y) {
				return fmt.Errorf("value commitments %s and %s: equal %v", x, y, m.EqualCommitments(x, y))
			}
		}
	}
	// configurations are told apart
	if o := c.Other; true {
		om := o.model()
		same := o.Kzg == c.Cfg.Kzg && (o.Kzg || (o.Arity == c.Cfg.Arity && o.Hash == c.Cfg.Hash))
		if (om.ShortName() == m.ShortName()) != same {
			return fmt.Errorf("short names of %s and %s: %q %q", c.Cfg, o, m.ShortName(), om.ShortName())
		}
		same = same && o.Thr == c.Cfg.Thr
		if (om.Description() == m.Description()) != same {
			return fmt.Errorf("descriptions of %s and %s: %q %q", c.Cfg, o, m.Description(), om.Description())
		}
		if ot := trie.New(om, newMemKV(), newMemKV(), o.Opt); (ot.Info() == a.tr.Info()) != (same && o.Opt == c.Cfg.Opt) {
			return fmt.Errorf("infos of %s and %s: %q %q", c.Cfg, o, a.tr.Info(), ot.Info())
		}
	}
	histLabels(st, a)
	st.LabelN("texts taken", n)
	st.NonTrivial(n > 1 && nodes > 2)
	return nil
}

func init() {
	register("C32", checkOpt{Quick: 20000, Thor: 1000000,
		Rule: "cases are histories after whose operations the texts of the trie (or a clone, or a reader), its nodes, proofs and commitments are taken; non-trivial if texts were taken at least twice and the final trie has more than two nodes",
	}, gText, runC32)
}
