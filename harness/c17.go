package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------- C17

// NodeCase is a node to be serialised
type NodeCase struct {
	Cfg   Cfg      `json:"cfg"`
	Node  *NodeDef `json:"node"`
	Chunk int      `json:"chunk,omitempty"`
}

func gNodeCase(s *Src) NodeCase {
	c := gcfg(s, 6)
	return NodeCase{Cfg: c, Node: gNodeDef(s, c), Chunk: s.N(9)}
}

func sameNodeData(c Cfg, m trie.CommitmentModel, def *NodeDef, got *trie.NodeData) string {
	if !bytes.Equal(got.PathFragment, def.PF) {
		return fmt.Sprintf("path fragment %x, expected %x", got.PathFragment, []byte(def.PF))
	}
	ref := def.ref(c)
	if len(got.ChildCommitments) != len(ref.children) {
		return fmt.Sprintf("%d children, expected %d", len(got.ChildCommitments), len(ref.children))
	}
	for i, x := range ref.children {
		v, ok := got.ChildCommitments[byte(i)]
		if !ok || isNil(v) {
			return fmt.Sprintf("child %d is missing", i)
		}
		if !bytes.Equal(v.Bytes(), x.hash) {
			return fmt.Sprintf("child %d is %s, expected %x", i, v, x.hash)
		}
	}
	if isNil(got.Terminal) != !def.HasTerm {
		return fmt.Sprintf("terminal %v, expected data %x", got.Terminal, []byte(def.Data))
	}
	if def.HasTerm {
		want := m.CommitToData(append([]byte{}, def.Data...))
		if !m.EqualCommitments(got.Terminal, want) || !sameTerminal(c, got.Terminal, def.Data) {
			return fmt.Sprintf("terminal %s, expected %s", got.Terminal, want)
		}
		if m.ForceStoreTerminalWithNode(got.Terminal) != m.ForceStoreTerminalWithNode(want) {
			return "terminal read back differs in where it has to be stored"
		}
	}
	return ""
}

func runC17(nc *NodeCase, st *Stats) error {
	c, def := nc.Cfg, nc.Node
	m := c.model()
	n, err := def.data(c, m)
	if err != nil {
		return err
	}
	st.Label("cfg:" + c.label())
	var buf bytes.Buffer
	err = n.Write(&buf, c.arity(), def.fromKey(), def.fromValue())
	if !def.committing() {
		if err == nil {
			return errf("%s: a node which commits to nothing is written as %x", c, buf.Bytes())
		}
		st.Label("non-committing")
		return nil
	}
	if err != nil {
		return errf("%s: node can't be written: %v", c, err)
	}
	b := append([]byte{}, buf.Bytes()...)
	if want := refNodeBytes(c, def.ref(c), def.fromKey(), def.fromValue()); !bytes.Equal(b, want) {
		return errf("%s: node serialises to\n %x, by the layout\n %x", c, b, want)
	}
	// nothing but the node: the clone, a node built in another order, written again
	d2 := *def
	d2.Children = nil
	for i := len(def.Children) - 1; i >= 0; i-- {
		d2.Children = append(d2.Children, def.Children[i])
	}
	n2, err := d2.data(c, m)
	if err != nil {
		return err
	}
	for what, x := range map[string]*trie.NodeData{"written again": n, "cloned": n.Clone(), "built in another order": n2} {
		var buf bytes.Buffer
		if err := x.Write(&buf, c.arity(), def.fromKey(), def.fromValue()); err != nil || !bytes.Equal(buf.Bytes(), b) {
			return errf("%s: node %s: %v\n %x\n %x", c, what, err, buf.Bytes(), b)
		}
	}
	want := def.commitment(c)
	commitment := func(x *trie.NodeData) []byte {
		v := m.CalcNodeCommitment(x)
		if isNil(v) {
			return nil
		}
		return v.Bytes()
	}
	if got := commitment(n); !bytes.Equal(got, want) {
		return errf("%s: commitment of the node is %x, by the definition %x", c, got, want)
	}
	store := def.store(c)
	stores := map[string]trie.KVReader{"with the value store": store}
	if !def.fromValue() || def.fromKey() {
		stores["without value store"] = nil
		stores["with an empty value store"] = newMemKV()
	}
	for what, vs := range stores {
		// the key lies in an array together with other data
		ar := arena(def.Key, []byte{0xa5, 0x5a, 1, 2, 3, 4, 5, 6})
		back, err := trie.NodeDataFromBytes(m, append([]byte{}, b...), ar[0], c.arity(), vs)
		if !bytes.Equal(ar[0], def.Key) || !bytes.Equal(ar[1], []byte{0xa5, 0x5a, 1, 2, 3, 4, 5, 6}) {
			return errf("%s: reading the node changes the key, or what is behind it in the same array: %x %x", c, ar[0], ar[1])
		}
		if err != nil {
			return errf("%s: node does not read back %s: %v\n %x", c, what, err, b)
		}
		if d := sameNodeData(c, m, def, back); d != "" {
			return errf("%s: node changes by serialisation (%s): %s\n %x", c, what, d, b)
		}
		if got := commitment(back); !bytes.Equal(got, want) {
			return errf("%s: commitment of the node read back %s is %x, expected %x\n %x", c, what, got, want, b)
		}
		var again bytes.Buffer
		if err := back.Write(&again, c.arity(), def.fromKey(), def.fromValue()); err != nil || !bytes.Equal(again.Bytes(), b) {
			return errf("%s: node read back is written (%v) as\n %x, not\n %x", c, err, again.Bytes(), b)
		}
	}
	// from a stream in chunks, which goes on after the node
	rd := trie.NewNodeData()
	if err := rd.Read(chunked(b, nc.Chunk), m, append([]byte{}, def.Key...), c.arity(), store); err != nil {
		return errf("%s: reading in chunks (%d): %v\n %x", c, nc.Chunk, err, b)
	}
	if d := sameNodeData(c, m, def, rd); d != "" {
		return errf("%s: reading in chunks (%d): %s\n %x", c, nc.Chunk, d, b)
	}
	// into nodes which are empty and which hold something already
	used, err := (&NodeDef{PF: B{1}, Children: []int{0, 1, c.Arity - 1}, HasTerm: true, Data: B{9}, Salt: 5}).data(c, m)
	if err != nil {
		return err
	}
	for what, x := range map[string]*trie.NodeData{"used": used, "zero": new(trie.NodeData)} {
		if err := x.Read(bytes.NewReader(b), m, append([]byte{}, def.Key...), c.arity(), store); err != nil {
			return errf("%s: reading into a %s node: %v\n %x", c, what, err, b)
		}
		if d := sameNodeData(c, m, def, x); d != "" {
			return errf("%s: reading into a %s node: %s\n %x", c, what, d, b)
		}
	}
	rest := bytes.NewReader(append(append([]byte{}, b...), 1, 2, 3))
	rd = trie.NewNodeData()
	if err := rd.Read(rest, m, append([]byte{}, def.Key...), c.arity(), store); err != nil || rest.Len() != 3 {
		return errf("%s: reading from a longer stream: %v, %d bytes left of 3", c, err, rest.Len())
	}
	src := def.Source
	if src == "" {
		src = "node"
	}
	if def.HasTerm {
		st.Label("terminal-from:" + src)
	}
	st.Label(fmt.Sprintf("fragment:%v children:%v", len(def.PF) > 0, len(def.ref(c).children) > 0))
	st.NonTrivial(len(b) > 4)
	return nil
}

// ---------------------------------------------------------------- C18

// KeyCase is keys, unpacked keys and encodings to be tried
type KeyCase struct {
	Arity int `json:"arity"`
	Keys  []B `json:"keys,omitempty"`
	Unp   []B `json:"unp,omitempty"`
	Enc   []B `json:"enc,omitempty"`
	Bad   []B `json:"bad,omitempty"`  // unpacked with elements which may be too large
	Enum  int `json:"enum,omitempty"` // enumerate: all encodings (negative: unpacked keys) of so many bytes
}

func gKeyCase(s *Src) KeyCase {
	kc := KeyCase{Arity: pick(s, []int{16, 2, 256})}
	for _, k := range keyPool(s, 2, 8) {
		kc.Keys = append(kc.Keys, k)
	}
	unp := func() B {
		n := s.N(20)
		if s.Pct(10) {
			n = s.N(300)
		}
		u := make(B, n)
		zero := s.Pct(30)
		for i := range u {
			if !zero || s.Pct(10) {
				u[i] = byte(s.N(kc.Arity))
			}
		}
		return u
	}
	for i := s.Range(2, 6); i > 0; i-- {
		if len(kc.Unp) > 0 && s.Pct(50) { // related: prefix, zeros appended, an element changed
			u := append(B{}, pick(s, kc.Unp)...)
			switch s.N(3) {
			case 0:
				u = u[:s.N(len(u)+1)]
			case 1:
				for j := s.Range(1, 9); j > 0; j-- {
					u = append(u, 0)
				}
			case 2:
				if len(u) > 0 {
					u[s.N(len(u))] = byte(s.N(kc.Arity))
				}
			}
			kc.Unp = append(kc.Unp, u)
			continue
		}
		kc.Unp = append(kc.Unp, unp())
	}
	for i := s.Range(2, 6); i > 0; i-- {
		var e B
		if s.Pct(50) {
			e = refEncode(unp(), kc.Arity)
			if len(e) > 0 {
				switch s.N(4) {
				case 0:
					e[0] = byte(s.N(10))
				case 1:
					e[len(e)-1] ^= 1 << s.N(8)
				case 2:
					e = e[:s.N(len(e))]
				case 3:
					e[s.N(len(e))] = s.Byte()
				}
			}
		} else {
			e = s.Bytes(s.N(6))
			if len(e) > 0 && s.Pct(70) {
				e[0] = byte(s.N(9))
			}
		}
		kc.Enc = append(kc.Enc, e)
	}
	for i := s.Range(1, 5); i > 0; i-- {
		u := unp()
		if len(u) > 0 {
			p := s.N(len(u))
			if s.Pct(40) {
				p = len(u) - 1
			}
			u[p] = pick(s, []byte{byte(kc.Arity), byte(kc.Arity + 1), 2, 3, 15, 16, 17, 0x80, 0xf0, 0xff, s.Byte()})
		}
		kc.Bad = append(kc.Bad, u)
	}
	return kc
}

// refDecode is what an encoding means; ok is false if no key has it
func refDecode(e []byte, arity int) (u []byte, ok bool) {
	if len(e) == 0 || arity == 256 {
		return e, true
	}
	per := map[int]int{16: 2, 2: 8}[arity]
	if len(e) < 2 || int(e[0]) >= per {
		return nil, false
	}
	u = refUnpack(e[1:], arity)
	for _, x := range u[len(u)-int(e[0]):] {
		if x != 0 {
			return nil, false
		}
	}
	return u[:len(u)-int(e[0])], true
}

func refValidUnpacked(u []byte, arity int) bool {
	for _, x := range u {
		if int(x) >= arity {
			return false
		}
	}
	return true
}

func c18unpacked(a trie.PathArity, arity int, u []byte) error {
	e, err := trie.EncodeUnpackedBytes(append([]byte{}, u...), a)
	if !refValidUnpacked(u, arity) {
		if err == nil {
			return errf("arity %d: unpacked key %x has too large elements but is encoded as %x", arity, u, e)
		}
		if p, err := trie.PackUnpackedBytes(append([]byte{}, u...), a); err == nil {
			return errf("arity %d: unpacked key %x has too large elements but is packed to %x", arity, u, p)
		}
		return nil
	}
	if err != nil {
		return errf("arity %d: encoding %x: %v", arity, u, err)
	}
	if want := refEncode(u, arity); !bytes.Equal(e, want) {
		return errf("arity %d: %x is encoded as %x, by the format %x", arity, u, e, want)
	}
	d, err := trie.DecodeToUnpackedBytes(append([]byte{}, e...), a)
	if err != nil || !bytes.Equal(d, u) {
		return errf("arity %d: %x is encoded as %x which decodes to %x, %v", arity, u, e, d, err)
	}
	return nil
}

func c18encoding(a trie.PathArity, arity int, e []byte) (bool, error) {
	want, ok := refDecode(e, arity)
	u, err := trie.DecodeToUnpackedBytes(append([]byte{}, e...), a)
	if (err == nil) != ok {
		return ok, errf("arity %d: encoding %x decodes to %x, %v; is it the encoding of a key: %v", arity, e, u, err, ok)
	}
	if err != nil {
		return ok, nil
	}
	if !bytes.Equal(u, want) {
		return ok, errf("arity %d: encoding %x decodes to %x, by the format %x", arity, e, u, want)
	}
	back, err := trie.EncodeUnpackedBytes(append([]byte{}, u...), a)
	if err != nil || !bytes.Equal(back, e) {
		return ok, errf("arity %d: %x decodes to %x which is encoded as %x, %v", arity, e, u, back, err)
	}
	return ok, nil
}

func c18key(a trie.PathArity, arity int, k []byte) ([]byte, error) {
	u := trie.UnpackBytes(append([]byte{}, k...), a)
	if want := refUnpack(k, arity); !bytes.Equal(u, want) {
		return nil, errf("arity %d: key %x unpacks to %x, expected %x", arity, k, u, want)
	}
	p, err := trie.PackUnpackedBytes(append([]byte{}, u...), a)
	if err != nil || !bytes.Equal(p, k) {
		return nil, errf("arity %d: key %x unpacks to %x and packs to %x, %v", arity, k, u, p, err)
	}
	return u, c18unpacked(a, arity, u)
}

func runC18(kc *KeyCase, st *Stats) error {
	a := trie.PathArity(kc.Arity - 1)
	st.Label(fmt.Sprintf("arity:%d", kc.Arity))
	if kc.Enum > 0 { // every encoding of this many bytes
		e := make([]byte, kc.Enum)
		var rec func(i int) error
		rec = func(i int) error {
			if i == len(e) {
				ok, err := c18encoding(a, kc.Arity, e)
				if ok {
					st.Label("enumerated:valid")
				} else {
					st.Label("enumerated:invalid")
				}
				return err
			}
			for x := 0; x < 256; x++ {
				if i == 0 && kc.Enum > 2 && x > 16 && x%32 != 0 {
					continue // the first byte is the padding
				}
				e[i] = byte(x)
				if err := rec(i + 1); err != nil {
					return err
				}
			}
			return nil
		}
		st.NonTrivial(true)
		return rec(0)
	}
	if kc.Enum < 0 { // every unpacked key of this many elements, one of them possibly too large
		u := make([]byte, -kc.Enum)
		seen := map[string]bool{}
		var rec func(i int) error
		rec = func(i int) error {
			if i == len(u) {
				if err := c18unpacked(a, kc.Arity, u); err != nil {
					return err
				}
				if refValidUnpacked(u, kc.Arity) {
					e, _ := trie.EncodeUnpackedBytes(u, a)
					if seen[string(e)] {
						return errf("arity %d: two keys are encoded as %x", kc.Arity, e)
					}
					seen[string(e)] = true
				}
				st.Label("enumerated:keys")
				return nil
			}
			for x := 0; x <= kc.Arity && x < 256; x++ {
				u[i] = byte(x)
				if err := rec(i + 1); err != nil {
					return err
				}
			}
			return nil
		}
		st.NonTrivial(true)
		return rec(0)
	}
	us := make([][]byte, len(kc.Keys))
	for i, k := range kc.Keys {
		var err error
		if us[i], err = c18key(a, kc.Arity, k); err != nil {
			return err
		}
		for j := 0; j < i; j++ {
			if bytes.HasPrefix(k, kc.Keys[j]) != bytes.HasPrefix(us[i], us[j]) || bytes.HasPrefix(kc.Keys[j], k) != bytes.HasPrefix(us[j], us[i]) {
				return errf("arity %d: the prefix order of %x and %x is not that of the unpacked %x and %x", kc.Arity, []byte(k), []byte(kc.Keys[j]), us[i], us[j])
			}
		}
	}
	encs := map[string]string{}
	odd := 0
	for _, u := range append(append([]B{}, kc.Unp...), kc.Bad...) {
		if err := c18unpacked(a, kc.Arity, u); err != nil {
			return err
		}
		if !refValidUnpacked(u, kc.Arity) {
			st.Label("too-large-elements")
			continue
		}
		e, _ := trie.EncodeUnpackedBytes(append([]byte{}, u...), a)
		if o, ok := encs[string(e)]; ok && o != string(u) {
			return errf("arity %d: unpacked keys %x and %x are both encoded as %x", kc.Arity, []byte(u), o, e)
		}
		encs[string(e)] = string(u)
		if kc.Arity < 256 && len(refUnpack([]byte{0}, kc.Arity)) > 0 && len(u)%len(refUnpack([]byte{0}, kc.Arity)) != 0 {
			odd++
		}
	}
	nv := 0
	for _, e := range kc.Enc {
		ok, err := c18encoding(a, kc.Arity, e)
		if err != nil {
			return err
		}
		if ok {
			nv++
			st.Label("encodings:valid")
		} else {
			st.Label("encodings:invalid")
		}
	}
	// an encoding, packing or decoding stays what it is when other keys are encoded, packed and decoded
	type result struct {
		what     string
		of       []byte
		got, was []byte
	}
	var kept []result
	keep := func(what string, of, got []byte, err error) {
		if err == nil {
			kept = append(kept, result{what, of, got, append([]byte{}, got...)})
		}
	}
	for _, u := range kc.Unp {
		if len(u) > 4096 {
			continue
		}
		e, err := trie.EncodeUnpackedBytes(append([]byte{}, u...), a)
		keep("encoding", u, e, err)
		if err == nil {
			d, err := trie.DecodeToUnpackedBytes(append([]byte{}, e...), a)
			keep("decoded encoding", u, d, err)
		}
		k, err := trie.PackUnpackedBytes(append([]byte{}, u...), a)
		keep("packing", u, k, err)
	}
	for _, k := range kc.Keys {
		if len(k) <= 512 {
			keep("unpacking", k, trie.UnpackBytes(append([]byte{}, k...), a), nil)
		}
	}
	for _, x := range kept {
		if !bytes.Equal(x.got, x.was) {
			return errf("arity %d: the %s of %x was %x and is %x after other keys were encoded and decoded", kc.Arity, x.what, x.of, x.was, x.got)
		}
	}
	st.LabelN("unpacked:not-whole-bytes", odd)
	st.NonTrivial(len(kc.Keys) > 1 && (odd > 0 || kc.Arity == 256))
	return nil
}

func init() {
	register("C17", checkOpt{Quick: 100000, Thor: 3000000,
		Rule: "cases are made-up nodes (fragments of 0..10 and up to 300 elements, any subset of children including the highest index and all of them, terminals of any length committed in the node, from the key, from the value store or with both flags, blake2b 2/16/256-ary with 20/32 byte hashes and thresholds, KZG) written, compared with an independent writer of the documented layout, and read back whole, in chunks and from a longer stream, with and without value store; fragment, children, terminal and node commitment must be those of the definition; a non-committing node must not be written. Non-trivial: more than 4 bytes.",
	}, gNodeCase, runC17)
	register("C18", checkOpt{Quick: 300000, Thor: 4000000,
		Rule: "cases are related keys, unpacked keys of any number of elements (some with an element too large), valid, damaged and random encodings, checked against an independent description of the format in both directions; fixed cases enumerate all encodings of up to 2 bytes (3 with the interesting padding bytes for arity 2 and 16) and all short unpacked keys. Non-trivial: at least two keys and an unpacked key which is not a whole number of bytes.",
	}, gKeyCase, runC18,
		KeyCase{Arity: 2, Enum: 1}, KeyCase{Arity: 2, Enum: 2}, KeyCase{Arity: 2, Enum: 3}, KeyCase{Arity: 16, Enum: 1}, KeyCase{Arity: 16, Enum: 2}, KeyCase{Arity: 16, Enum: 3},
		KeyCase{Arity: 256, Enum: 1}, KeyCase{Arity: 256, Enum: 2},
		KeyCase{Arity: 2, Enum: -1}, KeyCase{Arity: 2, Enum: -7}, KeyCase{Arity: 2, Enum: -8}, KeyCase{Arity: 2, Enum: -9}, KeyCase{Arity: 16, Enum: -1}, KeyCase{Arity: 16, Enum: -2}, KeyCase{Arity: 16, Enum: -3}, KeyCase{Arity: 256, Enum: -1}, KeyCase{Arity: 256, Enum: -2},
	)
}
