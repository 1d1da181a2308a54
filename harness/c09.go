package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"testing/iotest"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// C09

func runC09(h *HistCase, st *Stats) error {
	w := newWorld(h.Cfg)
	w.imm = h.Imm
	c := h.Cfg
	nAbs, nPres := 0, 0
	check := func(where string, sources []trie.NodeStore, probes [][]byte) error {
		root := refRoot(c, w.cur)
		for _, k := range probes {
			var first []byte
			for i, ns := range sources {
				p := c.b2b().Proof(append([]byte{}, k...), ns)
				if err := checkB2bProof(c, p, w.cur, k, root); err != nil {
					return fmt.Errorf("%s: source %d: %w", where, i, err)
				}
				b := p.Bytes()
				if i == 0 {
					first = b
					back, err := trie_blake2b.ProofFromBytes(append([]byte{}, b...))
					if err != nil {
						return errf("%s: %s: proof of %x does not read back: %v", where, c, k, err)
					}
					if err := checkB2bProof(c, back, w.cur, k, root); err != nil {
						return fmt.Errorf("%s: after serialisation: %w", where, err)
					}
				} else if !bytes.Equal(b, first) {
					return errf("%s: %s: proof of %x from source %d differs", where, c, k, i)
				}
			}
			if _, ok := w.cur[string(k)]; ok {
				nPres++
			} else {
				nAbs++
			}
		}
		return nil
	}
	for i, op := range h.Ops {
		w.apply(op)
		if op.Op == opCommit || op.Op == opProve {
			probes := probeKeys(w.cur, op.K)
			if len(probes) > 6 {
				probes = probes[:6]
			}
			if err := check(fmt.Sprintf("after op %d (%s)", i, op.Op), []trie.NodeStore{w.tr}, probes); err != nil {
				return err
			}
		}
	}
	w.commit()
	probes := probeKeys(w.cur)
	if len(probes) > 40 {
		probes = probes[:40]
	}
	if err := check("at the end", []trie.NodeStore{w.tr}, probes); err != nil {
		return err
	}
	w.persist()
	if len(probes) > 16 {
		probes = append(probes[:10:10], probes[len(probes)-6:]...)
	}
	if err := check("after persist", []trie.NodeStore{w.tr, w.reader(), trie.New(w.model, w.nodes, w.vals, c.Opt)}, probes); err != nil {
		return err
	}
	histLabels(st, w)
	st.LabelN("proofs:presence", nPres)
	st.LabelN("proofs:absence", nAbs)
	st.NonTrivial(nPres > 1 && nAbs > 1)
	return nil
}

// C10

// ForgeCase: contents and forged proofs about them
type ForgeCase struct {
	Cfg    Cfg     `json:"cfg"`
	KVs    []KV    `json:"kvs"`
	Forges []Forge `json:"forges"`
}

// Forge describes a forged proof: the nodes on the way to the key Walk, at most Depth of them, as somebody who knows
// the whole trie would write them down, claimed for another key, with further alterations
type Forge struct {
	Walk  B     `json:"walk"`            // unpacked; which way to go down the tree
	Depth int   `json:"depth,omitempty"` // number of nodes, 0 is all
	Key   B     `json:"key"`             // unpacked key which the proof claims
	Last  int   `json:"last"`            // child index of the last element; -1 what an honest prover would write, -2 terminal, -3 path fragment, -4 the next element of the key
	Alts  []Alt `json:"alts,omitempty"`
	Raw   bool  `json:"raw,omitempty"` // validated as it is in memory, without serialisation
}

// Alt is an alteration of the proof
type Alt struct {
	K string `json:"k"`
	E int    `json:"e,omitempty"` // element, modulo the path length
	I int    `json:"i,omitempty"`
	D B      `json:"d,omitempty"`
}

func gUnpacked(s *Src, c Cfg, m map[string]string) B {
	ks := sortedKeys(m)
	var u []byte
	if len(ks) > 0 {
		u = refUnpack([]byte(pick(s, ks)), c.Arity)
	}
	n := 0
	if s.Pct(55) {
		n = s.Range(1, 2)
	}
	el := func() byte { return byte(s.N(c.Arity)) }
	for ; n > 0; n-- {
		switch s.N(6) {
		case 0:
			u = append(u, el())
		case 1:
			if len(u) > 0 {
				u = u[:len(u)-1]
			}
		case 2:
			if len(u) > 0 {
				u = u[:s.N(len(u)+1)]
			}
		case 3:
			if len(u) > 0 {
				u[s.N(len(u))] = el()
			}
		case 4:
			u = append(u, 0)
		case 5:
			if len(u) > 0 {
				u[len(u)-1] = byte((int(u[len(u)-1]) + 1) % c.Arity)
			}
		}
	}
	return u
}

func gForgeCase(s *Src) ForgeCase {
	c := gcfgB(s)
	f := ForgeCase{Cfg: c, KVs: gContents(s, c, 1, 8)}
	m := kvMap(f.KVs)
	n := s.Range(4, 12)
	for i := 0; i < n; i++ {
		x := Forge{Walk: gUnpacked(s, c, m), Key: gUnpacked(s, c, m), Last: -1}
		if s.Pct(35) {
			x.Key = append(B{}, x.Walk...)
			if s.Pct(40) && len(x.Key) > 0 { // diverges somewhere on the way
				x.Key[s.N(len(x.Key))] = byte(s.N(c.Arity))
			}
		}
		if s.Pct(40) {
			x.Depth = s.Range(1, 4)
		}
		switch s.N(8) {
		case 0, 1:
			x.Last = -2
		case 2, 3:
			x.Last = -3
		case 4:
			x.Last = -4
		case 5:
			x.Last = s.N(c.Arity + 3)
		}
		if s.Pct(45) {
			for j := s.Range(1, 2); j > 0; j-- {
				a := Alt{E: s.N(6), K: pick(s, []string{"terminal", "terminal-drop", "pf", "pf-cut", "child-drop", "child-add", "child-alter", "index", "elem-drop", "elem-dup", "elem-swap", "terminal-zero", "pf-zero", "pf-trim", "arity", "hash", "elem-last-only", "terminal-empty", "child-copy", "terminal-ext", "sink", "child-long", "key-high"})}
				a.I = s.N(260)
				if s.Pct(50) {
					a.I = s.N(c.Arity + 2)
				}
				a.D = s.Bytes(s.Range(1, 3))
				if s.Pct(20) {
					a.D = s.Seeded(pick(s, []int{19, 20, 21, 32, 33, 34, 200}))
				}
				x.Alts = append(x.Alts, a)
			}
		}
		x.Raw = s.Pct(25)
		f.Forges = append(f.Forges, x)
	}
	return f
}

// build writes the proof down
func (f *Forge) build(c Cfg, root *refNode) *trie_blake2b.Proof {
	p := &trie_blake2b.Proof{PathArity: c.arity(), HashSize: c.hash(), Key: append([]byte{}, f.Key...)}
	var nodes []*refNode
	var idx []int
	path, ending, _ := refPath(root, f.Walk)
	n := root
	for i := range path {
		if f.Depth > 0 && i >= f.Depth {
			break
		}
		nodes = append(nodes, n)
		if i+1 < len(path) {
			e := int(path[i+1][len(path[i+1])-1])
			idx = append(idx, e)
			n = n.children[e]
		} else if ending == trie.EndingTerminal {
			idx = append(idx, c.Arity)
		} else {
			idx = append(idx, c.Arity+1)
		}
	}
	for i, n := range nodes {
		e := &trie_blake2b.ProofElement{PathFragment: append([]byte{}, n.pf...), Children: map[byte][]byte{}, ChildIndex: idx[i]}
		if n.data != nil {
			e.Terminal = append([]byte{}, refSlot(n.data, c.Hash)...)
		}
		last := i == len(nodes)-1
		if last {
			switch {
			case f.Last == -2:
				e.ChildIndex = c.Arity
			case f.Last == -3:
				e.ChildIndex = c.Arity + 1
			case f.Last == -4:
				pos := len(n.key) + len(n.pf)
				if pos < len(f.Key) {
					e.ChildIndex = int(f.Key[pos])
				}
			case f.Last >= 0:
				e.ChildIndex = f.Last
			}
		}
		for j, ch := range n.children {
			if !last && j == e.ChildIndex {
				continue // comes from the next element
			}
			e.Children[byte(j)] = append([]byte{}, ch.hash...)
		}
		p.Path = append(p.Path, e)
	}
	for _, a := range f.Alts {
		if a.K == "arity" {
			p.PathArity = []trie.PathArity{trie.PathArity2, trie.PathArity16, trie.PathArity256}[a.I%3]
			continue
		}
		if a.K == "hash" {
			p.HashSize = []trie_blake2b.HashSize{20, 32}[a.I%2]
			continue
		}
		if len(p.Path) == 0 {
			continue
		}
		i := a.E % len(p.Path)
		e := p.Path[i]
		switch a.K {
		case "terminal":
			e.Terminal = append([]byte{}, a.D...)
		case "terminal-drop":
			e.Terminal = nil
		case "terminal-empty":
			e.Terminal = []byte{}
		case "terminal-zero":
			if e.Terminal != nil {
				e.Terminal = append(e.Terminal, 0)
			}
		case "pf":
			e.PathFragment = nil
			for _, b := range a.D {
				e.PathFragment = append(e.PathFragment, byte(int(b)%c.Arity))
			}
		case "pf-cut":
			if len(e.PathFragment) > 0 {
				e.PathFragment = e.PathFragment[:len(e.PathFragment)-1]
			}
		case "pf-zero":
			e.PathFragment = append(e.PathFragment, 0)
		case "pf-trim":
			e.PathFragment = bytes.TrimRight(e.PathFragment, "\x00")
		case "child-drop":
			for _, j := range childIndices(e.Children) {
				if j >= a.I%c.Arity {
					delete(e.Children, byte(j))
					break
				}
			}
		case "child-add":
			e.Children[byte(a.I%c.Arity)] = blake(a.D, c.Hash)
		case "child-copy":
			if ix := childIndices(e.Children); len(ix) > 0 {
				e.Children[byte(a.I%c.Arity)] = e.Children[byte(ix[len(a.D)%len(ix)])]
			}
		case "terminal-ext": // longer than its slot
			if e.Terminal != nil {
				e.Terminal = append(e.Terminal, a.D...)
			}
		case "child-long":
			if ix := childIndices(e.Children); len(ix) > 0 {
				j := byte(ix[a.I%len(ix)])
				e.Children[j] = append(append([]byte{}, e.Children[j]...), a.D...)
			}
		case "key-high": // element of the key out of its range
			if len(p.Key) > 0 {
				p.Key[a.I%len(p.Key)] |= 0x80
			}
		case "sink":
			// a made up element after the last one, reached by an index which is not that of a child
			last, n := p.Path[len(p.Path)-1], nodes[len(nodes)-1]
			last.ChildIndex = c.Arity + a.I%3
			if a.I%4 == 3 {
				last.ChildIndex = 256 + a.I%c.Arity
			}
			x := &trie_blake2b.ProofElement{Terminal: append([]byte{}, a.D...), ChildIndex: c.Arity, Children: map[byte][]byte{}}
			for _, b := range a.D {
				x.PathFragment = append(x.PathFragment, byte(int(b)%c.Arity))
			}
			p.Key = append(append(append([]byte{}, n.key...), n.pf...), byte(last.ChildIndex))
			p.Key = append(p.Key, x.PathFragment...)
			p.Path = append(p.Path, x)
		case "child-alter":
			if ix := childIndices(e.Children); len(ix) > 0 {
				x := e.Children[byte(ix[a.I%len(ix)])]
				x[len(x)-1] ^= 1
			}
		case "index":
			e.ChildIndex = a.I
		case "elem-drop":
			p.Path = append(p.Path[:i], p.Path[i+1:]...)
		case "elem-dup":
			p.Path = append(p.Path[:i+1], p.Path[i:]...)
		case "elem-swap":
			j := a.I % len(p.Path)
			p.Path[i], p.Path[j] = p.Path[j], p.Path[i]
		case "elem-last-only":
			p.Path = p.Path[i:]
		}
	}
	return p
}

func childIndices(m map[byte][]byte) []int {
	var out []int
	for i := 0; i < 256; i++ {
		if _, ok := m[byte(i)]; ok {
			out = append(out, i)
		}
	}
	return out
}

func runC10(f *ForgeCase, st *Stats) error {
	c := f.Cfg
	m := kvMap(f.KVs)
	t := refTree(c, m)
	root := refCommit(c, t)
	byU := map[string]string{} // unpacked key -> key
	for k := range m {
		byU[string(refUnpack([]byte(k), c.Arity))] = k
	}
	accepted, rejected := 0, 0
	for i := range f.Forges {
		fg := &f.Forges[i]
		p := fg.build(c, t)
		var buf bytes.Buffer
		if fg.Raw {
			fmt.Fprintf(&buf, "in memory: key %x of %d elements", p.Key, len(p.Path))
			if try(func() error { _ = trie_blake2b_verify.Validate(p, root); return nil }) != nil {
				// not a proof at all: what does not come from a serialised proof may panic
				rejected++
				continue
			}
		} else {
			if err := try(func() error { return p.Write(&buf) }); err != nil {
				st.Label("unserialisable")
				continue
			}
			var err error
			if p, err = trie_blake2b.ProofFromBytes(buf.Bytes()); err != nil {
				st.Label("unreadable")
				continue
			}
			buf = *bytes.NewBufferString(hex.EncodeToString(buf.Bytes()))
		}
		if err := trie_blake2b_verify.Validate(p, root); err != nil {
			rejected++
			for _, v := range []string{"\x01", m[byU[string(p.Key)]]} {
				if trie_blake2b_verify.ValidateWithValue(p, root, []byte(v)) == nil {
					return errf("%s: forge %d: a proof which does not validate validates with a value", c, i)
				}
			}
			continue
		}
		accepted++
		for j, r := range otherRoots(root, i) {
			if trie_blake2b_verify.Validate(p, r) == nil {
				return errf("%s: forge %d: a proof which validates against the root %x, validates against %x", c, i, root, r)
			}
			if trie_blake2b_verify.ValidateWithValue(p, r, []byte(m[byU[string(p.Key)]])) == nil {
				return errf("%s: forge %d: a proof of the root %x validates with its value against %x (%d)", c, i, root, r, j)
			}
		}
		lie := c10truth(c, p, root, m, byU)
		if lie == "" {
			continue
		}
		if c10padded(c, p, t) {
			st.Known("C10-padding")
			continue
		}
		return errf("%s: forge %d: %s\n proof %s\n contents %s", c, i, lie, buf.String(), dumpMap(m))
	}
	st.Label("cfg:" + c.label())
	st.LabelN("forged:accepted-and-true", accepted)
	st.LabelN("forged:rejected", rejected)
	st.NonTrivial(rejected > 0 && len(m) > 1)
	return nil
}

// otherRoots are roots other than the given one
func otherRoots(root []byte, i int) (out [][]byte) {
	add := func(r []byte) {
		if !bytes.Equal(r, root) {
			out = append(out, r)
		}
	}
	add(nil)
	add([]byte{})
	add([]byte{0})
	add(make([]byte, 20))
	add(make([]byte, 32))
	add(append(append([]byte{}, root...), 0))
	if n := len(root); n > 0 {
		add(root[:n-1])
		add(root[1:])
		add(root[:1])
		add(root[:n/2])
		x := append([]byte{}, root...)
		x[i%n] ^= 1 << (i / n % 8)
		add(x)
		x = append([]byte{}, root...)
		x[n-1-i%n] ^= 0x80
		add(x)
	}
	return
}

// c10truth says what is wrong about a proof which validates
func c10truth(c Cfg, p *trie_blake2b.Proof, root []byte, m map[string]string, byU map[string]string) string {
	k, present := byU[string(p.Key)]
	abs := trie_blake2b_verify.IsProofOfAbsence(p)
	key, term := trie_blake2b_verify.MustKeyWithTerminal(p)
	if len(p.Path) > 0 && !bytes.Equal(key, p.Key) {
		return fmt.Sprintf("the key of the proof %x is given as %x", p.Key, key)
	}
	if abs && present {
		return fmt.Sprintf("validates as a proof of absence of the unpacked key %x, which is present", p.Key)
	}
	if !abs && !present {
		return fmt.Sprintf("validates as a proof of presence of the unpacked key %x, which is absent", p.Key)
	}
	if abs != (len(term) == 0) {
		return fmt.Sprintf("proof of absence %v with terminal %x", abs, term)
	}
	cands := [][]byte{{1}, {}, nil, {0}}
	if len(term) > 0 {
		cands = append(cands, term, append(append([]byte{}, term...), 0))
	}
	for _, v := range m {
		cands = append(cands, []byte(v))
	}
	var data []byte
	if present {
		data = refData(c, k, m[k])
		if !bytes.Equal(term, refSlot(data, c.Hash)) {
			return fmt.Sprintf("shows terminal %x for key %x, whose value %x commits to %x", term, k, clip(m[k], 60), refSlot(data, c.Hash))
		}
		cands = append(cands, data)
	}
	for _, v := range cands {
		ok := trie_blake2b_verify.ValidateWithValue(p, root, v) == nil
		want := present && bytes.Equal(refSlot(v, c.Hash), refSlot(data, c.Hash))
		if ok != want {
			return fmt.Sprintf("validates with value %x: %v, key present: %v, data %x", clip(string(v), 60), ok, present, clip(string(data), 60))
		}
	}
	return ""
}

// c10padded: the elements are not those of the tree, but have the same padded slots (known finding)
func c10padded(c Cfg, p *trie_blake2b.Proof, root *refNode) bool {
	n := root
	differs := false
	for i, e := range p.Path {
		if n == nil {
			return false
		}
		if !bytes.Equal(e.PathFragment, n.pf) {
			if normSlot(e.PathFragment, c.Hash) != normSlot(n.pf, c.Hash) {
				return false
			}
			differs = true
		}
		var slot []byte
		if n.data != nil {
			slot = refSlot(n.data, c.Hash)
		}
		if !bytes.Equal(e.Terminal, slot) {
			if string(bytes.TrimRight(e.Terminal, "\x00")) != string(bytes.TrimRight(slot, "\x00")) {
				return false
			}
			differs = true
		}
		if i < len(p.Path)-1 {
			n = n.children[e.ChildIndex]
		}
	}
	return differs
}

// C11

// ProofCase is a proof, of a trie (KVs, Key) or made up (Proof)
type ProofCase struct {
	Cfg   Cfg       `json:"cfg"`
	KVs   []KV      `json:"kvs,omitempty"`
	Key   B         `json:"key"`
	Made  bool      `json:"made,omitempty"`
	Elems []ElemDef `json:"elems,omitempty"`
	Chunk int       `json:"chunk,omitempty"`
	// scale of a made up proof: that many elements like the first one at the end, elements of 0 and 1 at the end of the key
	// and of the first fragment
	MoreElems, MoreKey, MorePF int `json:",omitempty"`
}

type ElemDef struct {
	PF       B     `json:"pf"`
	Index    int   `json:"index"`
	Term     B     `json:"term,omitempty"`
	HasTerm  bool  `json:"has,omitempty"`
	Children []int `json:"ch,omitempty"`
}

func gProofCase(s *Src) ProofCase {
	c := gcfgB(s)
	p := ProofCase{Cfg: c, Chunk: s.N(9)}
	if s.Pct(50) {
		p.KVs = gContents(s, c, 1, 10)
		m := kvMap(p.KVs)
		pr := probeKeys(m)
		p.Key = pr[s.N(len(pr))]
		return p
	}
	p.Made = true
	el := func(max int) B {
		n := s.N(max + 1)
		if s.Pct(5) {
			n = pick(s, []int{255, 256, 257, 300, 511, 512, 600})
		}
		b := make(B, n)
		for i := range b {
			b[i] = byte(s.N(c.Arity))
		}
		return b
	}
	p.Key = el(24)
	n := s.N(5)
	if s.Pct(2) {
		n = pick(s, []int{255, 256, 257, 300})
	}
	for i := 0; i < n; i++ {
		e := ElemDef{PF: el(12), Index: pick(s, []int{c.Arity, c.Arity + 1, 0, 1, c.Arity - 1, 255, 256, 257, 65535}), HasTerm: s.Pct(60)}
		if e.HasTerm && n < 20 {
			e.Term = s.Seeded(pick(s, []int{1, 2, 20, 32, 31, 33, 0, 255}))
		}
		k := s.N(5)
		if s.Pct(5) && n < 20 {
			k = 300
		}
		for j := 0; j < k; j++ {
			x := pick(s, []int{0, 1, c.Arity - 1, c.Arity / 2, s.N(c.Arity)})
			if k == 300 {
				x = j % c.Arity
			}
			e.Children = append(e.Children, x)
		}
		p.Elems = append(p.Elems, e)
	}
	if s.N(2000) == 0 && len(p.Elems) > 0 {
		switch s.N(3) {
		case 0:
			p.MoreElems = pick(s, []int{65535, 65536, 65537, 70000, 131072}) - len(p.Elems)
		case 1:
			p.MoreKey = pick(s, []int{65534, 65535, 65536, 70000, 131068, 131070, 131072, 8 * 65534, 8*65534 + 1, 8 * 65535, 8 * 65536}) - len(p.Key)
		default:
			p.MorePF = pick(s, []int{65534, 65535, 65536, 70000, 131068, 131070, 131072, 8 * 65534, 8*65534 + 1, 8 * 65535, 8 * 65536}) - len(p.Elems[0].PF)
		}
	}
	return p
}

// tooLong tells if the proof does not fit into the layout, which has 16 bits for lengths
func tooLong(c Cfg, p *trie_blake2b.Proof) bool {
	if len(p.Path) > 65535 || len(refEncode(p.Key, c.Arity)) > 65535 {
		return true
	}
	for i, e := range p.Path {
		if i < 10 && len(refEncode(e.PathFragment, c.Arity)) > 65535 {
			return true
		}
	}
	return false
}

func zerosAndOnes(n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte((i ^ i>>3) & 1)
	}
	return out
}

func (pc *ProofCase) proof() *trie_blake2b.Proof {
	c := pc.Cfg
	if !pc.Made {
		return c.b2b().Proof(append([]byte{}, pc.Key...), fresh(c, kvMap(pc.KVs)))
	}
	p := &trie_blake2b.Proof{PathArity: c.arity(), HashSize: c.hash(), Key: append([]byte{}, pc.Key...)}
	for i, d := range pc.Elems {
		e := &trie_blake2b.ProofElement{PathFragment: append([]byte{}, d.PF...), ChildIndex: d.Index, Children: map[byte][]byte{}}
		if d.HasTerm {
			e.Terminal = append([]byte{}, d.Term...)
		}
		for _, x := range d.Children {
			e.Children[byte(x)] = blake([]byte{byte(x), byte(i)}, c.Hash)
		}
		p.Path = append(p.Path, e)
	}
	p.Key = append(p.Key, zerosAndOnes(pc.MoreKey)...)
	if len(p.Path) > 0 {
		p.Path[0].PathFragment = append(p.Path[0].PathFragment, zerosAndOnes(pc.MorePF)...)
		for i := 0; i < pc.MoreElems; i++ {
			p.Path = append(p.Path, p.Path[0])
		}
	}
	return p
}

// refProofBytes is the documented layout of a proof
func refProofBytes(c Cfg, p *trie_blake2b.Proof) []byte {
	out := []byte{byte(c.Arity - 1), byte(c.Hash)}
	lp := func(b []byte) {
		out = binary.LittleEndian.AppendUint16(out, uint16(len(b)))
		out = append(out, b...)
	}
	lp(refEncode(p.Key, c.Arity))
	out = binary.LittleEndian.AppendUint16(out, uint16(len(p.Path)))
	for _, e := range p.Path {
		out = append(out, refElemBytes(c, e)...)
	}
	return out
}

// refElemBytes is the documented layout of a proof element
func refElemBytes(c Cfg, e *trie_blake2b.ProofElement) []byte {
	pf := refEncode(e.PathFragment, c.Arity)
	out := binary.LittleEndian.AppendUint16(nil, uint16(len(pf)))
	out = append(out, pf...)
	out = binary.LittleEndian.AppendUint16(out, uint16(e.ChildIndex))
	var f byte
	if e.Terminal != nil {
		f |= 1
	}
	if len(e.Children) > 0 {
		f |= 2
	}
	out = append(out, f)
	if e.Terminal != nil {
		out = append(out, byte(len(e.Terminal)))
		out = append(out, e.Terminal...)
	}
	if len(e.Children) > 0 {
		var bm [32]byte
		for i := range e.Children {
			bm[i/8] |= 1 << (i % 8)
		}
		out = append(out, bm[:]...)
		for i := 0; i < 256; i++ {
			if ch, ok := e.Children[byte(i)]; ok {
				out = append(out, ch...)
			}
		}
	}
	return out
}

func sameProof(a, b *trie_blake2b.Proof) string {
	if a.PathArity != b.PathArity || a.HashSize != b.HashSize || !bytes.Equal(a.Key, b.Key) || len(a.Path) != len(b.Path) {
		return fmt.Sprintf("arity, hash size, key or path length differ: %v %v %x %d / %v %v %x %d", byte(a.PathArity), byte(a.HashSize), a.Key, len(a.Path), byte(b.PathArity), byte(b.HashSize), b.Key, len(b.Path))
	}
	for i, x := range a.Path {
		y := b.Path[i]
		if !bytes.Equal(x.PathFragment, y.PathFragment) || x.ChildIndex != y.ChildIndex || (x.Terminal == nil) != (y.Terminal == nil) || !bytes.Equal(x.Terminal, y.Terminal) || len(x.Children) != len(y.Children) {
			return fmt.Sprintf("element %d differs: pf %x index %d term %x (nil: %v) %d children / pf %x index %d term %x (nil: %v) %d children", i, x.PathFragment, x.ChildIndex, x.Terminal, x.Terminal == nil, len(x.Children), y.PathFragment, y.ChildIndex, y.Terminal, y.Terminal == nil, len(y.Children))
		}
		for j, ch := range x.Children {
			if ch2, ok := y.Children[j]; !ok || !bytes.Equal(ch, ch2) {
				return fmt.Sprintf("element %d: child %d differs", i, j)
			}
		}
	}
	return ""
}

// chunked gives a reader which delivers the data in some chunking
func chunked(b []byte, kind int) io.Reader {
	var r io.Reader = bytes.NewReader(b)
	switch kind {
	case 1:
		return iotest.OneByteReader(r)
	case 2:
		return iotest.HalfReader(r)
	case 3:
		return iotest.DataErrReader(r)
	case 4:
		return iotest.DataErrReader(iotest.OneByteReader(r))
	case 5, 6, 7:
		return &nReader{r: r, n: kind*2 - 7}
	case 8:
		return &nReader{r: r, n: 7, zero: true}
	}
	return r
}

// nReader reads at most n bytes at once; if zero, sometimes nothing
type nReader struct {
	r    io.Reader
	n    int
	zero bool
	i    int
}

func (r *nReader) Read(p []byte) (int, error) {
	r.i++
	if r.zero && r.i%3 == 0 {
		return 0, nil
	}
	if len(p) > r.n {
		p = p[:r.n]
	}
	return r.r.Read(p)
}

func runC11(pc *ProofCase, st *Stats) error {
	c := pc.Cfg
	p := pc.proof()
	var buf bytes.Buffer
	if tooLong(c, p) {
		st.Label("too long for the layout")
		if err := try(func() error { return p.Write(&buf) }); err == nil {
			return errf("%s: a proof with a key of %d and a path of %d elements, too long for the layout, is written without an error", c, len(p.Key), len(p.Path))
		}
		return nil
	}
	if err := p.Write(&buf); err != nil {
		return errf("%s: proof can't be written: %v", c, err)
	}
	b := buf.Bytes()
	want := refProofBytes(c, p)
	if !bytes.Equal(b, want) {
		return errf("%s: proof serialises to\n %x, by the layout\n %x", c, b, want)
	}
	if x := p.Bytes(); !bytes.Equal(x, b) {
		return errf("%s: Bytes and Write differ", c)
	}
	if n, err := trie.Size(p); err != nil || n != len(b) {
		return errf("%s: Size is %d (%v), %d bytes", c, n, err, len(b))
	}
	if n := trie.MustSize(p); n != len(b) {
		return errf("%s: MustSize is %d, %d bytes", c, n, len(b))
	}
	back, err := trie_blake2b.ProofFromBytes(append([]byte{}, b...))
	if err != nil {
		return errf("%s: proof does not read back: %v\n %x", c, err, b)
	}
	if d := sameProof(p, back); d != "" {
		return errf("%s: proof changes by serialisation: %s\n %x", c, d, b)
	}
	if !bytes.Equal(back.Bytes(), b) {
		return errf("%s: re-serialisation differs\n %x\n %x", c, back.Bytes(), b)
	}
	var rd trie_blake2b.Proof
	if err := rd.Read(chunked(b, pc.Chunk)); err != nil {
		return errf("%s: reading in chunks (%d): %v", c, pc.Chunk, err)
	}
	if d := sameProof(p, &rd); d != "" {
		return errf("%s: reading in chunks (%d): %s", c, pc.Chunk, d)
	}
	// into a proof which was used already
	used := &trie_blake2b.Proof{PathArity: trie.PathArity16, HashSize: 32, Key: []byte{1}, Path: []*trie_blake2b.ProofElement{{PathFragment: []byte{1}, Terminal: []byte{1}, ChildIndex: 1, Children: map[byte][]byte{2: {1}}}, {}}}
	usedElem := *used.Path[0]
	if err := used.Read(bytes.NewReader(b)); err != nil {
		return errf("%s: reading into a used proof: %v", c, err)
	}
	if d := sameProof(p, used); d != "" {
		return errf("%s: reading into a used proof: %s", c, d)
	}
	if len(p.Path) > 0 {
		e := p.Path[len(p.Path)-1]
		if err := usedElem.Read(bytes.NewReader(refElemBytes(c, e)), c.arity(), c.hash()); err != nil {
			return errf("%s: reading into a used proof element: %v", c, err)
		}
		x := &trie_blake2b.Proof{Path: []*trie_blake2b.ProofElement{&usedElem}}
		if d := sameProof(&trie_blake2b.Proof{Path: []*trie_blake2b.ProofElement{e}}, x); d != "" {
			return errf("%s: reading into a used proof element: %s", c, d)
		}
	}
	// reading leaves what follows in the stream
	rest := bytes.NewReader(append(append([]byte{}, b...), 1, 2, 3))
	var rd2 trie_blake2b.Proof
	if err := rd2.Read(rest); err != nil || rest.Len() != 3 {
		return errf("%s: reading from a longer stream: %v, %d bytes left of 3", c, err, rest.Len())
	}
	st.Label("cfg:" + c.label())
	st.Label(fmt.Sprintf("chunking:%d", pc.Chunk))
	if pc.Made {
		st.Label("made-up")
	}
	st.NonTrivial(len(p.Path) > 0 && len(b) > 10)
	return nil
}

func init() {
	b := Cfg{Arity: 256, Hash: 20}
	register("C09", checkOpt{Quick: 10000, Thor: 600000,
		Rule: histRule + "proofs of present keys and of their neighbours, taken from the trie after commits, and after persist also from a reader and a reopened trie, and after serialisation, must validate against the root by the definition, carry the key, be proofs of absence exactly for absent keys, validate with the value and with no other. Non-trivial: proofs of at least two present and two absent keys.",
	}, func(s *Src) HistCase {
		h := gHist(s, 0, 24, 10, histOpt{reads: true})
		return h
	}, runC09)
	register("C10", checkOpt{Quick: 60000, Thor: 2000000,
		Rule:   "cases are generated contents and up to 12 proofs forged with the knowledge of the whole trie (from an independent model of it): any walk down the tree cut at any depth, any last child index, claimed for any unpacked key (also not a whole number of bytes), with alterations of terminals, path fragments, children, indices, order of elements, arity and hash size; serialised and read back, or as they are in memory (then also with elements of the key, indices and commitments out of their range). Whatever validates against the root must validate against no other (none, empty, cut, extended, bits flipped) and tell the truth about its key by the model. Non-trivial: at least two pairs and one rejected forgery.",
		Assume: []string{"no collisions of blake2b are found by the generator"},
	}, gForgeCase, runC10,
		ForgeCase{Cfg: b, KVs: []KV{{B("a"), B{1}}}, Forges: []Forge{{Walk: B("a"), Key: B("a"), Last: -1, Alts: []Alt{{K: "terminal-zero"}}}}},
		ForgeCase{Cfg: b, KVs: []KV{{B("a\x00"), B{1}}}, Forges: []Forge{{Walk: B("a\x00"), Key: B("a"), Last: -1, Alts: []Alt{{K: "pf-trim"}}}}},
		// regressions
		ForgeCase{Cfg: b, KVs: []KV{{B("a"), B{1}}, {B("b"), B{2}}}, Forges: []Forge{
			{Walk: B("a"), Key: B("b"), Last: -1}, {Walk: B("a"), Key: B("a"), Depth: 1, Last: -3}, {Walk: B("a"), Key: B("a"), Depth: 1, Last: int('c')},
			{Walk: B("a"), Key: B("ab"), Last: -1}, {Walk: B("a"), Key: B("a"), Last: -3}, {Walk: B(""), Key: B(""), Last: -1, Alts: []Alt{{K: "terminal-empty"}}}}},
	)
	register("C11", checkOpt{Quick: 60000, Thor: 2000000,
		Rule: "cases are proofs of present and absent keys of generated tries and made-up proofs (keys and fragments of any number of elements, any index, terminals of 0..255 bytes, up to 256 children, up to 300 elements, sometimes as many elements, or elements of the key or of a fragment, as 16-bit lengths can hold, or more: an error); the bytes must equal an independent writer's, read back (whole, in several chunkings, from a longer stream) to an equal proof with the same bytes, and Size must be their number. Non-trivial: the path is not empty.",
	}, gProofCase, runC11,
		ProofCase{Cfg: b, Key: B("a"), Made: true, Elems: []ElemDef{{Index: 97}}, MoreElems: 65534},
		ProofCase{Cfg: b, Key: B("a"), Made: true, Elems: []ElemDef{{Index: 97}}, MoreElems: 65535},
		ProofCase{Cfg: b, Key: B("a"), Made: true, Elems: []ElemDef{{Index: 97}}, MoreKey: 65534},
		ProofCase{Cfg: b, Key: B("a"), Made: true, Elems: []ElemDef{{Index: 97}}, MorePF: 65536},
	)
}
