package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// C15

type NodeUpd struct {
	Set   []int  `json:"set,omitempty"`  // children which get a new commitment
	Del   []int  `json:"del,omitempty"`  // children which are removed (present or not)
	Same  []int  `json:"same,omitempty"` // children updated with the commitment they have
	Salt  int    `json:"salt,omitempty"`
	Term  string `json:"term"` // same, equal (another object), none, new
	Data  B      `json:"data,omitempty"`
	Delta bool   `json:"delta,omitempty"`
	Upper string `json:"upper"` // no: nil pointer, nil: no previous commitment, cur: the present one
}

type NodeUpdCase struct {
	Cfg  Cfg       `json:"cfg"`
	Node *NodeDef  `json:"node"`
	Upds []NodeUpd `json:"upds"`
}

func gNodeUpdCase(s *Src) NodeUpdCase {
	c := gcfg(s, 35)
	n := NodeUpdCase{Cfg: c, Node: gNodeDef(s, c)}
	n.Node.Source = ""
	rounds := s.Range(1, 5)
	wide := c.Arity == 256 && s.N(400) >= 396
	if wide { // hundreds of children
		n.Node.Children = nil
		step, from := s.Range(1, 3), s.N(80)
		for i := from; i < 256; i += step {
			n.Node.Children = append(n.Node.Children, i)
		}
		rounds = s.Range(1, 2)
	} else if c.Kzg && len(n.Node.Children) > 20 {
		n.Node.Children = n.Node.Children[:20]
	}
	for k := rounds; k > 0; k-- {
		u := NodeUpd{Salt: s.N(1000), Term: pick(s, []string{"same", "equal", "none", "new", "new"}), Delta: s.Pct(55), Upper: pick(s, []string{"cur", "cur", "cur", "nil", "no"})}
		if u.Term == "new" {
			u.Data = gValue(s, c, nil)
		}
		idx := func() int {
			return pick(s, []int{0, 1, 2, c.Arity - 1, c.Arity / 2, s.N(c.Arity)}) % c.Arity
		}
		for i := s.N(3); i > 0; i-- {
			u.Set = append(u.Set, idx())
		}
		for i := s.N(3); i > 0; i-- {
			j := idx()
			if len(n.Node.Children) > 0 && s.Pct(60) {
				j = pick(s, n.Node.Children)
			}
			u.Del = append(u.Del, j)
		}
		if wide && s.Pct(50) { // many children get new commitments
			for i, step := s.N(100), s.Range(1, 5); i < 256; i += step {
				u.Set = append(u.Set, i)
			}
		}
		if s.Pct(10) { // everything goes
			u.Set, u.Term = nil, "none"
			for i := 0; i < c.Arity; i++ {
				u.Del = append(u.Del, i)
			}
		}
		if s.Pct(15) {
			u.Same = append(u.Same, idx())
		}
		n.Upds = append(n.Upds, u)
	}
	return n
}

func runC15(nc *NodeUpdCase, st *Stats) error {
	c := nc.Cfg
	m := c.model()
	mutate, err := nc.Node.data(c, m)
	if err != nil {
		return err
	}
	// model of the node
	ch := map[int][]byte{}
	for _, i := range nc.Node.Children {
		ch[i] = nc.Node.childBytes(c, i)
	}
	var data []byte
	if nc.Node.HasTerm {
		data = nc.Node.Data
	}
	want := func() []byte {
		if c.Kzg {
			return refKzgCommit(nc.Node.PF, ch, data)
		}
		if len(ch) == 0 && data == nil {
			return nil
		}
		return refNodeHash(c, nc.Node.PF, ch, data)
	}
	bytesOf := func(v trie.VCommitment) []byte {
		if isNil(v) {
			return nil
		}
		return v.Bytes()
	}
	cur := m.CalcNodeCommitment(mutate)
	if !bytes.Equal(bytesOf(cur), want()) {
		return errf("%s: commitment of the node is %x, by the definition %x", c, bytesOf(cur), want())
	}
	first := want()
	curOK := true // cur is the commitment of the present node
	type kept struct {
		obj trie.Serializable
		b   []byte
		w   string
	}
	var keep []kept // results and inputs which must stay as they are
	remember := func(o trie.Serializable, w string) {
		if !isNil(o) {
			keep = append(keep, kept{o, append([]byte{}, o.Bytes()...), w})
		}
	}
	remember(cur, "first commitment")
	nDelta := 0
	for step, u := range nc.Upds {
		upd := map[byte]trie.VCommitment{}
		nd := NodeDef{Salt: u.Salt}
		for _, i := range u.Same {
			if b, ok := ch[i]; ok {
				if u.Salt%2 == 1 { // the very same object
					upd[byte(i)] = mutate.ChildCommitments[byte(i)]
					continue
				}
				v := m.NewVectorCommitment()
				if err := v.Read(bytes.NewReader(b)); err != nil {
					return err
				}
				upd[byte(i)] = v
			}
		}
		for _, i := range u.Set {
			v := m.NewVectorCommitment()
			if err := v.Read(bytes.NewReader(nd.childBytes(c, i))); err != nil {
				return err
			}
			upd[byte(i)] = v
			ch[i] = nd.childBytes(c, i)
			remember(v, "child update")
		}
		for _, i := range u.Del {
			upd[byte(i)] = nil
			delete(ch, i)
		}
		for i, v := range mutate.ChildCommitments {
			remember(v, fmt.Sprintf("child %d", i))
		}
		remember(mutate.Terminal, "terminal")
		t := mutate.Terminal
		switch u.Term {
		case "equal":
			if !isNil(t) {
				t = t.Clone()
			}
		case "none":
			t, data = nil, nil
		case "new":
			t, data = m.CommitToData(append([]byte{}, u.Data...)), u.Data
			remember(t, "terminal update")
		}
		var up *trie.VCommitment
		var upv trie.VCommitment
		switch u.Upper {
		case "nil":
			up = &upv
		case "cur":
			if !curOK {
				cur = m.CalcNodeCommitment(mutate)
				remember(cur, "commitment")
			}
			upv = cur
			up = &upv
			if u.Delta {
				nDelta++
			}
		}
		m.UpdateNodeCommitment(mutate, upd, u.Delta, t, up)
		where := fmt.Sprintf("%s: update %d (delta %v, upper %s)", c, step, u.Delta, u.Upper)
		// exactly the updated children and value
		if len(mutate.ChildCommitments) != len(ch) {
			return errf("%s: node has %d children, expected %d", where, len(mutate.ChildCommitments), len(ch))
		}
		for i, b := range ch {
			v, ok := mutate.ChildCommitments[byte(i)]
			if !ok || isNil(v) || !bytes.Equal(v.Bytes(), b) {
				return errf("%s: child %d is %v, expected %x", where, i, v, b)
			}
		}
		if (data == nil) != isNil(mutate.Terminal) || (data != nil && !sameTerminal(c, mutate.Terminal, data)) {
			return errf("%s: terminal is %v, expected that of %x", where, mutate.Terminal, data)
		}
		if !bytes.Equal(mutate.PathFragment, nc.Node.PF) {
			return errf("%s: path fragment changed to %x", where, mutate.PathFragment)
		}
		w := want()
		if up != nil {
			if !bytes.Equal(bytesOf(*up), w) {
				return errf("%s: commitment %x, from scratch %x; node %d children, data %x", where, bytesOf(*up), w, len(ch), data)
			}
			if w == nil && *up != nil {
				return errf("%s: node commits to nothing, but the commitment is not nil", where)
			}
			cur, curOK = *up, true
			remember(cur, "commitment")
		} else {
			curOK = false
		}
		if x := m.CalcNodeCommitment(mutate); !bytes.Equal(bytesOf(x), w) {
			return errf("%s: CalcNodeCommitment of the updated node is %x, by the definition %x", where, bytesOf(x), w)
		}
		for _, k := range keep {
			if !bytes.Equal(k.obj.Bytes(), k.b) {
				return errf("%s: %s was changed in place: %x, now %x", where, k.w, k.b, k.obj.Bytes())
			}
		}
	}
	if c.Kzg {
		if err := kzgAdditive(m, first, want()); err != nil {
			return err
		}
	}
	st.Label("cfg:" + c.label())
	st.LabelN("delta-updates-with-previous", nDelta)
	st.NonTrivial(len(nc.Upds) > 1 && (len(ch) > 0 || data != nil))
	return nil
}

// kzgAdditive: a KZG commitment plus the difference of another one and it is the other one
func kzgAdditive(m trie.CommitmentModel, a, b []byte) error {
	km := m.(*trie_kzg_bn256.CommitmentModel)
	read := func(x []byte) (trie.VCommitment, error) {
		v := m.NewVectorCommitment()
		return v, v.Read(bytes.NewReader(x))
	}
	pa, pb := km.Suite.G1().Point(), km.Suite.G1().Point()
	if pa.UnmarshalBinary(a) != nil || pb.UnmarshalBinary(b) != nil {
		return errf("commitments %x and %x are not points", a, b)
	}
	db, err := km.Suite.G1().Point().Sub(pb, pa).MarshalBinary()
	if err != nil {
		return err
	}
	v, err := read(a)
	if err != nil {
		return err
	}
	d, err := read(db)
	if err != nil {
		return err
	}
	km.UpdateVCommitment(&v, d)
	if isNil(v) || !bytes.Equal(v.Bytes(), b) {
		return errf("UpdateVCommitment of %x with the difference to %x gives %v", a, b, v)
	}
	var none trie.VCommitment
	km.UpdateVCommitment(&none, d)
	if isNil(none) || !bytes.Equal(none.Bytes(), db) {
		return errf("UpdateVCommitment of no commitment with %x gives %v", db, none)
	}
	km.UpdateVCommitment(&none, v)
	if !bytes.Equal(d.Bytes(), db) || !bytes.Equal(v.Bytes(), b) {
		return errf("UpdateVCommitment changes the delta")
	}
	return nil
}

func init() {
	k := Cfg{Kzg: true, Arity: 256}
	n := func() *NodeDef { return &NodeDef{PF: B("x"), Children: []int{3}, HasTerm: true, Data: B{1}} }
	register("C15", checkOpt{Quick: 16000, Thor: 500000,
		Rule: "cases are generated nodes (fragment, any children including the highest, value) of all models and sequences of up to 5 updates (children set, replaced, removed, updated to the same; value kept, replaced, removed; everything removed), with and without delta mode, without upper commitment, with none previous and with the present one. After each the children and value must be exactly the updated ones, the commitment that computed from scratch by an independent evaluation, and earlier commitments unchanged. Non-trivial: at least two updates and a node that still commits to something.",
	}, gNodeUpdCase, runC15,
		NodeUpdCase{Cfg: k, Node: n(), Upds: []NodeUpd{{Del: []int{3}, Term: "same", Delta: true, Upper: "cur"}, {Set: []int{3}, Term: "none", Delta: true, Upper: "cur"}}},
		NodeUpdCase{Cfg: k, Node: n(), Upds: []NodeUpd{{Del: []int{4}, Term: "new", Data: B{2}, Delta: true, Upper: "nil"}, {Set: []int{255, 0}, Term: "none", Delta: true, Upper: "cur"}, {Term: "same", Delta: true, Upper: "no"}}},
		NodeUpdCase{Cfg: Cfg{Arity: 16, Hash: 20}, Node: n(), Upds: []NodeUpd{{Del: []int{3}, Term: "none", Upper: "cur"}, {Set: []int{15}, Term: "new", Data: B{4}, Upper: "nil", Delta: true}}},
	)
}
