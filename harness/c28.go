package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------- C28

// CommCase is data and nodes whose commitments are compared, copied and serialised
type CommCase struct {
	Cfg   Cfg        `json:"cfg"`
	Data  []B        `json:"data"`
	Nodes []*NodeDef `json:"nodes"`
	Tail  B          `json:"tail,omitempty"`
	Chunk int        `json:"chunk,omitempty"`
}

func gCommCase(s *Src) CommCase {
	c := gcfg(s, 25)
	cc := CommCase{Cfg: c, Tail: s.Bytes(s.N(40)), Chunk: s.N(9)}
	n := 1 + s.N(6)
	for i := 0; i < n; i++ {
		var d B
		switch {
		case i > 0 && s.Pct(50): // near an earlier one
			d = append(B{}, cc.Data[s.N(i)]...)
			switch s.N(6) {
			case 0:
				d = append(d, byte(s.N(3)))
			case 1:
				if len(d) > 0 {
					d = d[:len(d)-1]
				}
			case 2:
				if len(d) > 0 {
					d[s.N(len(d))] ^= 1 << uint(s.N(8))
				}
			case 3:
				d = append(d, d...)
			case 4:
				d = append(B{0}, d...)
			}
		case s.Pct(8):
		default:
			d = gValue(s, c, nil)
		}
		cc.Data = append(cc.Data, d)
	}
	n = 1 + s.N(3)
	if c.Kzg {
		n = 1
	}
	for i := 0; i < n; i++ {
		if i > 0 && s.Pct(40) {
			d := *cc.Nodes[i-1]
			switch s.N(4) {
			case 0:
				d.Salt++
			case 1:
				d.PF = append(append(B{}, d.PF...), 1)
			case 2:
				d.Children = append([]int{s.N(c.Arity)}, d.Children...)
			}
			cc.Nodes = append(cc.Nodes, &d)
			continue
		}
		cc.Nodes = append(cc.Nodes, gNodeDef(s, c))
	}
	return cc
}

// termRepr is the same exactly for equal terminal commitments
func termRepr(c Cfg, d []byte) string {
	if len(d) == 0 {
		return "nil"
	}
	if c.Kzg {
		return "t" + kzgHashScalar(d).String()
	}
	if len(d) <= c.Hash {
		return "t" + string(d)
	}
	return "t" + string(blake(d, c.Hash))
}

func runC28(cc *CommCase, st *Stats) error {
	c := cc.Cfg
	m := c.model()
	type item struct {
		o    trie.Serializable
		repr string
		what string
		term bool
	}
	items := []item{{nil, "nil", "nil", true}}
	for _, d := range cc.Data {
		in := append([]byte{}, d...)
		t := m.CommitToData(in)
		if !bytes.Equal(in, d) {
			return errf("CommitToData changed its argument %x", []byte(d))
		}
		if isNil(t) != (len(d) == 0) {
			return errf("commitment to %x is nil: %v", []byte(d), isNil(t))
		}
		if isNil(t) {
			items = append(items, item{t, "nil", "commitment to no data", true})
			if x := m.CommitToData(nil); !isNil(x) {
				return errf("commitment to nil is %s", x)
			}
			continue
		}
		if !bytes.Equal(t.Bytes(), refTermBytes(c, d)) {
			return errf("commitment to %x serialises to %x, by the definition it is %x", []byte(d), t.Bytes(), refTermBytes(c, d))
		}
		items = append(items, item{t, termRepr(c, d), fmt.Sprintf("commitment to data %x", []byte(d)), true})
		// read back
		b := append(append([]byte{}, t.Bytes()...), cc.Tail...)
		r := chunked(b, cc.Chunk)
		back := m.NewTerminalCommitment()
		if err := back.Read(r); err != nil {
			return errf("terminal commitment %x can't be read back: %v", t.Bytes(), err)
		}
		if rest, _ := io.ReadAll(r); !bytes.Equal(rest, cc.Tail) {
			return errf("reading terminal commitment %x leaves %x of the stream, must be %x", t.Bytes(), rest, []byte(cc.Tail))
		}
		if !bytes.Equal(back.Bytes(), t.Bytes()) || m.ForceStoreTerminalWithNode(back) != m.ForceStoreTerminalWithNode(t) {
			return errf("terminal commitment %x is %x after reading back", t.Bytes(), back.Bytes())
		}
		if f := m.ForceStoreTerminalWithNode(t); f != (c.Kzg || len(d) > c.Thr) {
			return errf("commitment to %d bytes must be stored with the node: %v, threshold is %d", len(d), f, c.Thr)
		}
		items = append(items, item{back, termRepr(c, d), fmt.Sprintf("read back commitment to data %x", []byte(d)), true})
		cl := t.Clone()
		items = append(items, item{cl, termRepr(c, d), fmt.Sprintf("clone of commitment to data %x", []byte(d)), true})
		// the clone is not affected by what happens to the original
		t2 := m.CommitToData(in)
		cl2 := t2.Clone()
		if err := t2.Read(bytes.NewReader(m.CommitToData([]byte("something else")).Bytes())); err != nil {
			return err
		}
		if !bytes.Equal(cl2.Bytes(), refTermBytes(c, d)) {
			return errf("clone of the commitment to %x changed to %x when the original was read anew", []byte(d), cl2.Bytes())
		}
		// into a commitment which was used already
		for _, b := range [][]byte{m.CommitToData([]byte("something else")).Bytes(), t.Bytes(), m.NewTerminalCommitment().Bytes(), t.Bytes()} {
			if err := t2.Read(bytes.NewReader(b)); err != nil || !bytes.Equal(t2.Bytes(), b) {
				return errf("terminal commitment %x, read into a used commitment, is %x (%v)", b, t2.Bytes(), err)
			}
		}
		scribble(in)
		if !bytes.Equal(cl2.Bytes(), refTermBytes(c, d)) {
			return errf("clone of the commitment to %x changed to %x when the original was read anew", []byte(d), cl2.Bytes())
		}
		if !bytes.Equal(t.Bytes(), refTermBytes(c, d)) {
			return errf("commitment to %x depends on the buffer of the data", []byte(d))
		}
		if sz := trie.MustSize(t); sz != len(t.Bytes()) {
			return errf("size of %x is %d", t.Bytes(), sz)
		}
	}
	for _, nd := range cc.Nodes {
		d, err := nd.data(c, m)
		if err != nil {
			return err
		}
		if !nd.committing() {
			continue
		}
		if err := nodeCloneDeep(c, m, nd); err != nil {
			return err
		}
		v := m.CalcNodeCommitment(d)
		if isNil(v) {
			return errf("no commitment to node %s", trimJSON(nd))
		}
		want := nd.commitment(c)
		if !bytes.Equal(v.Bytes(), want) {
			return errf("commitment to node %s is %x, by the definition it is %x", trimJSON(nd), v.Bytes(), want)
		}
		repr := "v" + string(want)
		items = append(items, item{v, repr, "commitment to node " + trimJSON(nd), false})
		b := append(append([]byte{}, v.Bytes()...), cc.Tail...)
		r := chunked(b, cc.Chunk)
		back := m.NewVectorCommitment()
		if err := back.Read(r); err != nil {
			return errf("commitment %x can't be read back: %v", v.Bytes(), err)
		}
		if rest, _ := io.ReadAll(r); !bytes.Equal(rest, cc.Tail) {
			return errf("reading commitment %x leaves %x of the stream, must be %x", v.Bytes(), rest, []byte(cc.Tail))
		}
		items = append(items, item{back, repr, "read back commitment", false}, item{v.Clone(), repr, "clone of commitment to node", false})
		cl := v.Clone()
		back2 := m.NewVectorCommitment()
		if err := back2.Read(bytes.NewReader(v.Bytes())); err != nil {
			return err
		}
		cl2 := back2.Clone()
		if err := back2.Read(bytes.NewReader((&NodeDef{Salt: 7}).childBytes(c, 3))); err != nil {
			return err
		}
		if !bytes.Equal(cl2.Bytes(), want) {
			return errf("clone of commitment %x changed to %x when the original was read anew", want, cl2.Bytes())
		}
		if err := back2.Read(bytes.NewReader(want)); err != nil || !bytes.Equal(back2.Bytes(), want) {
			return errf("commitment %x, read into a used commitment, is %x (%v)", want, back2.Bytes(), err)
		}
		if !bytes.Equal(cl2.Bytes(), want) || !bytes.Equal(cl.Bytes(), want) {
			return errf("clone of the commitment changed when the original was read anew")
		}
		if km, ok := m.(*trie_kzg_bn256.CommitmentModel); ok { // and not when something is added to it
			orig := v
			add := v.Clone()
			km.UpdateVCommitment(&add, back)
			if !bytes.Equal(orig.Bytes(), want) || !bytes.Equal(cl.Bytes(), want) {
				return errf("adding to a clone of commitment %x changes the original or another clone", want)
			}
		}
		scribble(v.Bytes())
		if !bytes.Equal(v.Bytes(), want) {
			return errf("changing the bytes of a commitment changes the commitment")
		}
		if sz := trie.MustSize(v); sz != len(want) {
			return errf("size of %x is %d", want, sz)
		}
	}
	nEq := 0
	for i, a := range items {
		for j, b := range items {
			if a.term != b.term && a.o != nil && b.o != nil {
				continue
			}
			got := m.EqualCommitments(a.o, b.o)
			if want := a.repr == b.repr; got != want {
				return errf("EqualCommitments(%s, %s) = %v", a.what, b.what, got)
			}
			if i < j && got {
				nEq++
			}
		}
	}
	st.Label(c.label())
	st.LabelN("equal pairs", nEq)
	st.NonTrivial(len(items) > 4)
	return nil
}

// nodeCloneDeep changes everything in one of a node and its clone: the other stays
func nodeCloneDeep(c Cfg, m trie.CommitmentModel, nd *NodeDef) error {
	for _, what := range []string{"clone", "original"} {
		d, err := nd.data(c, m)
		if err != nil {
			return err
		}
		write := func(d *trie.NodeData) []byte {
			var buf bytes.Buffer
			must(d.Write(&buf, c.arity(), false, false))
			return buf.Bytes()
		}
		cl := d.Clone()
		want, got := write(d), write(cl)
		if !bytes.Equal(want, got) {
			return errf("clone of node %s is %x, the node is %x", trimJSON(nd), got, want)
		}
		change, keep := d, cl
		if what == "original" {
			change, keep = cl, d
		}
		for i := range change.PathFragment {
			change.PathFragment[i] ^= 1
		}
		for i, x := range change.ChildCommitments {
			must(x.Read(bytes.NewReader((&NodeDef{Salt: 7}).childBytes(c, 3))))
			if i%2 == 0 {
				delete(change.ChildCommitments, i)
			}
		}
		if change.Terminal != nil {
			must(change.Terminal.Read(bytes.NewReader(m.CommitToData([]byte("something else")).Bytes())))
		}
		if got := write(keep); !bytes.Equal(want, got) {
			return errf("the %s of node %s changed with the other one to %x, it was %x", what, trimJSON(nd), got, want)
		}
	}
	return nil
}

func trimJSON(v interface{}) string { return clip(string(mustJSON(v)), 300) }

// ---------------------------------------------------------------- C29

// PrimCase is a sequence of primitives written to one stream, and an object, and where the writer fails
type PrimCase struct {
	Prims []Prim    `json:"prims"`
	Obj   string    `json:"obj"` // proof, node, kzgproof, terminal, vector
	Node  *NodeDef  `json:"node,omitempty"`
	Proof ProofCase `json:"proof"`
	Cfg   Cfg       `json:"cfg"`
	Idx   int       `json:"idx,omitempty"`
	Cuts  []int     `json:"cuts"`
	Chunk int       `json:"chunk,omitempty"`
	Err   int       `json:"err,omitempty"`
}

// Prim is a primitive: kind byte, u16, u32, b8, b16, b32
type Prim struct {
	Kind string `json:"kind"`
	Num  uint32 `json:"num,omitempty"`
	Data B      `json:"data,omitempty"`
	Big  int    `json:"big,omitempty"` // if not 0, that many bytes
}

func (p *Prim) data() []byte {
	if p.Big == 0 {
		return p.Data
	}
	b := make([]byte, p.Big)
	for i := range b {
		b[i] = byte(i * 7)
	}
	return b
}

func gPrimCase(s *Src) PrimCase {
	pc := PrimCase{Chunk: s.N(9), Err: s.N(4)}
	for n := 1 + s.N(6); n > 0; n-- {
		p := Prim{Kind: pick(s, []string{"byte", "u16", "u32", "b8", "b16", "b32"})}
		switch p.Kind {
		case "byte":
			p.Num = uint32(s.Byte())
		case "u16":
			p.Num = uint32(pick(s, []int{0, 1, 255, 256, 257, 65535, s.N(65536)}))
		case "u32":
			p.Num = uint32(pick(s, []uint64{0, 1, 255, 256, 65535, 65536, 1 << 24, 1<<32 - 1, s.U64() & (1<<32 - 1)}))
		default:
			p.Data = s.Bytes(s.N(10))
			if s.Pct(12) {
				p.Big = pick(s, []int{254, 255, 256, 257, 511, 512, 65535})
				if p.Kind != "b8" && s.Pct(30) {
					p.Big = pick(s, []int{65536, 65537, 66000, 131072})
				}
			}
		}
		pc.Prims = append(pc.Prims, p)
	}
	pc.Obj = pick(s, []string{"proof", "node", "kzgproof", "terminal", "vector"})
	switch pc.Obj {
	case "proof":
		pc.Proof = gProofCase(s)
		pc.Proof.MoreElems, pc.Proof.MoreKey, pc.Proof.MorePF = 0, 0, 0
		if len(pc.Proof.Elems) > 12 {
			pc.Proof.Elems = pc.Proof.Elems[:12]
		}
	case "kzgproof":
		pc.Idx = s.N(nKzgSamples)
	default:
		pc.Cfg = gcfg(s, 20)
		pc.Node = gNodeDef(s, pc.Cfg)
	}
	for i := 0; i < 6; i++ {
		pc.Cuts = append(pc.Cuts, s.N(1<<16))
	}
	return pc
}

// refPrim is the documented layout; ok is false if the data is too long for its length field
func refPrim(p *Prim) (out []byte, ok bool) {
	d := p.data()
	switch p.Kind {
	case "byte":
		return []byte{byte(p.Num)}, true
	case "u16":
		return binary.LittleEndian.AppendUint16(nil, uint16(p.Num)), true
	case "u32":
		return binary.LittleEndian.AppendUint32(nil, p.Num), true
	case "b8":
		return append([]byte{byte(len(d))}, d...), len(d) < 1<<8
	case "b16":
		return append(binary.LittleEndian.AppendUint16(nil, uint16(len(d))), d...), len(d) < 1<<16
	}
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(d))), d...), true
}

// try turns a panic into an error
func try(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = errf("panic: %v", r)
		}
	}()
	return f()
}

func writePrim(w io.Writer, p *Prim) error {
	d := append([]byte{}, p.data()...)
	switch p.Kind {
	case "byte":
		return trie.WriteByte(w, byte(p.Num))
	case "u16":
		return trie.WriteUint16(w, uint16(p.Num))
	case "u32":
		return trie.WriteUint32(w, p.Num)
	case "b8":
		return trie.WriteBytes8(w, d)
	case "b16":
		return trie.WriteBytes16(w, d)
	}
	return trie.WriteBytes32(w, d)
}

// readPrim gives the encoding of what was read
func readPrim(r io.Reader, p *Prim) ([]byte, error) {
	switch p.Kind {
	case "byte":
		b, err := trie.ReadByte(r)
		return []byte{b}, err
	case "u16":
		var v uint16
		err := trie.ReadUint16(r, &v)
		return binary.LittleEndian.AppendUint16(nil, v), err
	case "u32":
		var v uint32
		err := trie.ReadUint32(r, &v)
		return binary.LittleEndian.AppendUint32(nil, v), err
	}
	var d []byte
	var err error
	switch p.Kind {
	case "b8":
		d, err = trie.ReadBytes8(r)
	case "b16":
		d, err = trie.ReadBytes16(r)
	default:
		d, err = trie.ReadBytes32(r)
	}
	if err != nil {
		return nil, err
	}
	q := Prim{Kind: p.Kind, Data: d}
	out, _ := refPrim(&q)
	return out, nil
}

// failingWrites: whatever is written to a writer which fails must give its error and be a prefix of the encoding
func failingWrites(what string, full []byte, cuts []int, kind int, write func(io.Writer) error) error {
	pos := map[int]bool{}
	for i := 0; i < len(full) && i < 64; i++ {
		pos[i] = true
	}
	for i := len(full) - 4; i < len(full); i++ {
		if i >= 0 {
			pos[i] = true
		}
	}
	for _, x := range cuts {
		if len(full) > 0 {
			pos[x%len(full)] = true
		}
	}
	for n := range pos {
		w := &limWriter{n: n, err: streamErr(kind)}
		err := try(func() error { return write(w) })
		if err == nil {
			return errf("%s: the writer failed after %d of %d bytes and no error was returned", what, n, len(full))
		}
		if !errors.Is(err, w.err) && !bytes.Contains([]byte(err.Error()), []byte(w.err.Error())) {
			return errf("%s: the writer failed after %d of %d bytes with '%v', the error returned is '%v'", what, n, len(full), w.err, err)
		}
		if !bytes.HasPrefix(full, w.buf.Bytes()) {
			return errf("%s: the writer failed after %d bytes, %x was written before instead of %x", what, n, w.buf.Bytes(), full[:n])
		}
		w = &limWriter{n: n, err: streamErr(kind), once: true}
		if err := try(func() error { return write(w) }); err == nil {
			return errf("%s: the writer failed once, after %d of %d bytes, and no error was returned", what, n, len(full))
		}
	}
	w := &limWriter{n: len(full), err: streamErr(kind)}
	if err := try(func() error { return write(w) }); err != nil {
		return errf("%s: error with a writer which takes all %d bytes: %v", what, len(full), err)
	}
	if !bytes.Equal(w.buf.Bytes(), full) {
		return errf("%s: %x was written instead of %x", what, w.buf.Bytes(), full)
	}
	return nil
}

func runC29(pc *PrimCase, st *Stats) error {
	// primitives
	var all []byte
	var ok []*Prim
	var buf bytes.Buffer
	for i := range pc.Prims {
		p := &pc.Prims[i]
		enc, fits := refPrim(p)
		if !fits {
			st.Label("too long")
			n := buf.Len()
			if err := try(func() error { return writePrim(&buf, p) }); err == nil {
				return errf("%d bytes were written as %s", len(p.data()), p.Kind)
			}
			if buf.Len() != n {
				return errf("%d bytes were refused as %s, but something was written", len(p.data()), p.Kind)
			}
			continue
		}
		if err := try(func() error { return writePrim(&buf, p) }); err != nil {
			return errf("writing %s: %v", trimJSON(p), err)
		}
		all = append(all, enc...)
		ok = append(ok, p)
		if !bytes.Equal(buf.Bytes(), all) {
			return errf("writing %s gives %s instead of %s", trimJSON(p), clip(fmt.Sprintf("%x", buf.Bytes()), 300), clip(fmt.Sprintf("%x", all), 300))
		}
	}
	// concatenation of what can be seen as bytes, and the hash of 20 bytes
	var parts []interface{}
	var joined []byte
	for i := range pc.Prims {
		p := &pc.Prims[i]
		d := p.data()
		switch (i + pc.Err) % 4 {
		case 0:
			parts = append(parts, append([]byte{}, d...))
		case 1:
			parts = append(parts, string(d))
		case 2:
			parts = append(parts, bytes.NewBuffer(append([]byte{}, d...)))
		case 3:
			parts = append(parts, byte(p.Num))
			d = []byte{byte(p.Num)}
		}
		joined = append(joined, d...)
	}
	if got := trie.Concat(parts...); !bytes.Equal(got, joined) {
		return errf("concatenation of %d parts is %s instead of %s", len(parts), clip(fmt.Sprintf("%x", got), 300), clip(fmt.Sprintf("%x", joined), 300))
	}
	if h := trie.Blake2b160(append([]byte{}, joined...)); !bytes.Equal(h[:], blake(joined, 20)) {
		return errf("the 20-byte hash of %s is %x instead of %x", clip(fmt.Sprintf("%x", joined), 300), h, blake(joined, 20))
	}
	r := chunked(append(append([]byte{}, all...), 1, 2, 3), pc.Chunk)
	for _, p := range ok {
		enc, _ := refPrim(p)
		got, err := readPrim(r, p)
		if err != nil {
			return errf("reading %s: %v", trimJSON(p), err)
		}
		if !bytes.Equal(enc, got) {
			return errf("%s was read as %s", trimJSON(p), clip(fmt.Sprintf("%x", got), 300))
		}
		// cut: an error, or the end if nothing of it is there
		cuts := []int{0, 1, len(enc) - 1, pc.Cuts[0] % len(enc), pc.Cuts[1] % len(enc)}
		for _, n := range cuts {
			if n >= len(enc) {
				continue
			}
			err := try(func() error { _, err := readPrim(chunked(enc[:n], pc.Chunk), p); return err })
			if err == nil {
				return errf("%s was read from the first %d of its %d bytes", trimJSON(p), n, len(enc))
			}
			if n == 0 && !errors.Is(err, io.EOF) {
				return errf("reading %s from an empty stream gives '%v', not EOF", trimJSON(p), err)
			}
			if n > 0 && (err == io.EOF) {
				return errf("reading %s from the first %d of its %d bytes gives EOF", trimJSON(p), n, len(enc))
			}
			e := streamErr(pc.Err)
			err = try(func() error { _, err := readPrim(&errReader{bytes.NewReader(enc[:n]), e}, p); return err })
			if !errors.Is(err, e) && !(n > 0 && errors.Is(err, io.ErrUnexpectedEOF)) {
				return errf("reading %s, error '%v' of the reader after %d bytes gives '%v'", trimJSON(p), e, n, err)
			}
		}
		if len(enc) < 300 {
			if err := failingWrites(p.Kind, enc, pc.Cuts, pc.Err, func(w io.Writer) error { return writePrim(w, p) }); err != nil {
				return err
			}
		}
	}
	if rest, _ := io.ReadAll(r); !bytes.Equal(rest, []byte{1, 2, 3}) {
		return errf("after the primitives %x is left of the stream", rest)
	}
	for i := range pc.Prims { // conversions
		p := &pc.Prims[i]
		switch p.Kind {
		case "u16":
			b := trie.Uint16To2Bytes(uint16(p.Num))
			v, err := trie.Uint16From2Bytes(b)
			if err != nil || uint32(v) != p.Num || !bytes.Equal(b, binary.LittleEndian.AppendUint16(nil, uint16(p.Num))) {
				return errf("uint16 %d is %x, and back %d, %v", p.Num, b, v, err)
			}
		case "u32":
			b := trie.Uint32To4Bytes(p.Num)
			v, err := trie.Uint32From4Bytes(b)
			if err != nil || v != p.Num || trie.MustUint32From4Bytes(b) != p.Num || !bytes.Equal(b, binary.LittleEndian.AppendUint32(nil, p.Num)) {
				return errf("uint32 %d is %x, and back %d, %v", p.Num, b, v, err)
			}
		case "b8":
			d := p.data()
			if _, err := trie.Uint16From2Bytes(d); (err == nil) != (len(d) == 2) {
				return errf("uint16 from %d bytes: %v", len(d), err)
			}
			if _, err := trie.Uint32From4Bytes(d); (err == nil) != (len(d) == 4) {
				return errf("uint32 from %d bytes: %v", len(d), err)
			}
			if got := trie.Concat(d, byte(7), "str", trie.Concat(d)); !bytes.Equal(got, append(append(append([]byte{}, d...), 7, 's', 't', 'r'), d...)) {
				return errf("Concat of %x, 7, 'str' and it again is %x", d, got)
			}
			if h := trie.Blake2b160(d); !bytes.Equal(h[:], blake(d, 20)) {
				return errf("Blake2b160 of %x is %x", d, h)
			}
		}
	}
	// objects
	var obj interface{ Write(io.Writer) error }
	var full []byte
	var read func(io.Reader) error
	switch pc.Obj {
	case "proof":
		read = func(r io.Reader) error { return new(trie_blake2b.Proof).Read(r) }
		p := pc.Proof.proof()
		full = refProofBytes(pc.Proof.Cfg, p)
		obj = p
		for _, e := range p.Path {
			eb := refElemBytes(pc.Proof.Cfg, e)
			if err := failingWrites("proof element", eb, pc.Cuts, pc.Err, func(w io.Writer) error { return e.Write(w, p.PathArity, p.HashSize) }); err != nil {
				return err
			}
			var back trie_blake2b.ProofElement
			rd := chunked(append(append([]byte{}, eb...), 9), pc.Chunk)
			if err := back.Read(rd, p.PathArity, p.HashSize); err != nil {
				return errf("proof element %x can't be read: %v", eb, err)
			}
			if rest, _ := io.ReadAll(rd); len(rest) != 1 {
				return errf("reading proof element %x leaves %d bytes of the stream, must be 1", eb, len(rest))
			}
			var buf bytes.Buffer
			if err := back.Write(&buf, p.PathArity, p.HashSize); err != nil || !bytes.Equal(buf.Bytes(), eb) {
				return errf("proof element %x is %x after reading back (%v)", eb, buf.Bytes(), err)
			}
		}
	case "kzgproof":
		read = func(r io.Reader) error { return new(trie_kzg_bn256.ProofOfInclusion).Read(r) }
		s := kzgProofSample(pc.Idx)
		p, err := trie_kzg_bn256.ProofOfInclusionFromBytes(s.bytes)
		if err != nil {
			return err
		}
		full, obj = s.bytes, p
		if pc.Chunk == 1 && len(p.Path) > 0 { // a long path and key
			long := &trie_kzg_bn256.ProofOfInclusion{Key: bytes.Repeat([]byte{1, 2, 0}, 85+pc.Idx%3), Terminal: p.Terminal}
			for n := []int{255, 256, 257, 300}[pc.Idx%4]; n > 0; n-- {
				long.Path = append(long.Path, p.Path[n%len(p.Path)])
			}
			tb, err := long.Terminal.MarshalBinary()
			must(err)
			var es []kzgElem
			for _, e := range long.Path {
				es = append(es, kzgElem{ptBytes(e.C), ptBytes(e.Proof), int(e.VectorIndex)})
			}
			b := refKzgProofBytes(long.Key, tb, es)
			if !bytes.Equal(long.Bytes(), b) {
				return errf("a KZG proof with a key of %d bytes and a path of %d elements is not written in the layout", len(long.Key), len(long.Path))
			}
			back, err := trie_kzg_bn256.ProofOfInclusionFromBytes(b)
			if err != nil || !bytes.Equal(back.Bytes(), b) {
				return errf("a KZG proof with a key of %d bytes and a path of %d elements does not read back: %v", len(long.Key), len(long.Path), err)
			}
			st.Label("long KZG proof")
		}
		if pc.Chunk == 0 && len(p.Path) > 0 {
			long := &trie_kzg_bn256.ProofOfInclusion{Key: p.Key, Terminal: p.Terminal, Path: append([]*trie_kzg_bn256.ProofElement{}, p.Path...)}
			for len(long.Path) <= 65535 {
				long.Path = append(long.Path, p.Path[0])
			}
			if long.Write(io.Discard) == nil {
				return errf("a KZG proof with a path of %d elements, too long for its length field, is written without an error", len(long.Path))
			}
		}
	case "node":
		c := pc.Cfg
		if !pc.Node.committing() {
			st.Label("empty node")
			return nil
		}
		m := c.model()
		d, err := pc.Node.data(c, m)
		if err != nil {
			return err
		}
		full = refNodeBytes(c, pc.Node.ref(c), pc.Node.fromKey(), pc.Node.fromValue())
		if !pc.Node.fromKey() && !pc.Node.fromValue() {
			read = func(r io.Reader) error { return trie.NewNodeData().Read(r, m, nil, c.arity(), nil) }
		}
		obj = writerFunc(func(w io.Writer) error {
			return d.Write(w, c.arity(), pc.Node.fromKey(), pc.Node.fromValue())
		})
	case "terminal":
		if !pc.Node.HasTerm || len(pc.Node.Data) == 0 {
			return nil
		}
		obj, full = pc.Cfg.model().CommitToData(pc.Node.Data), refTermBytes(pc.Cfg, pc.Node.Data)
		read = func(r io.Reader) error { return pc.Cfg.model().NewTerminalCommitment().Read(r) }
	case "vector":
		v := pc.Cfg.model().NewVectorCommitment()
		full = pc.Node.childBytes(pc.Cfg, 1)
		if err := v.Read(bytes.NewReader(full)); err != nil {
			return err
		}
		obj = v
		read = func(r io.Reader) error { return pc.Cfg.model().NewVectorCommitment().Read(r) }
	}
	if n, err := trie.Size(obj); err != nil || n != len(full) {
		return errf("Size of %s is %d (%v), it has %d bytes", pc.Obj, n, err, len(full))
	}
	if b := trie.MustBytes(obj); !bytes.Equal(b, full) {
		return errf("bytes of %s are %x, must be %x", pc.Obj, b, full)
	}
	if err := failingWrites(pc.Obj, full, pc.Cuts, pc.Err, obj.Write); err != nil {
		return err
	}
	if read != nil && len(full) > 0 {
		for i, x := range append([]int{0, 1, 2, 3, 4, len(full) - 1}, pc.Cuts...) {
			e := streamErr(pc.Err)
			err := try(func() error { return read(&hiccupReader{bytes.NewReader(full), x % len(full), e}) })
			if err == nil {
				return errf("%s: the reader failed once, after %d of %d bytes, and no error was returned", pc.Obj, x%len(full), len(full))
			}
			if i >= 6 && pc.Obj == "kzgproof" {
				break // slow
			}
		}
	}
	st.Label(pc.Obj)
	st.NonTrivial(len(ok) >= 2)
	return nil
}

// hiccupReader gives one error after n bytes, then goes on
type hiccupReader struct {
	r   io.Reader
	n   int
	err error
}

func (r *hiccupReader) Read(p []byte) (int, error) {
	if r.err == nil {
		return r.r.Read(p)
	}
	if r.n == 0 {
		err := r.err
		r.err = nil
		return 0, err
	}
	if len(p) > r.n {
		p = p[:r.n]
	}
	n, err := r.r.Read(p)
	r.n -= n
	return n, err
}

type writerFunc func(io.Writer) error

func (f writerFunc) Write(w io.Writer) error { return f(w) }

func init() {
	register("C28", checkOpt{Quick: 40000, Thor: 1500000,
		Rule:   "cases are up to 6 data (near each other by a byte, a bit or a zero, empty, long) and up to 3 nodes of all models; commitments to them, read back ones and clones are compared pairwise with EqualCommitments, which must tell equality exactly by an independent normal form; bytes, sizes, exact consumption of streams in 9 chunkings, storage flag and independence of clones are checked. Non-trivial: more than four commitments compared.",
		Assume: []string{"kyber bn256 group operations and x/crypto blake2b are correct"}},
		gCommCase, runC28)
	register("C29", checkOpt{Quick: 40000, Thor: 1500000,
		Rule: "cases are sequences of up to 6 primitives (bytes, 16 and 32 bit numbers, byte strings with 8, 16 and 32 bit lengths at the limits) and an object (blake2b proof, its elements, KZG proof, node, commitments); layout, reading back in 9 chunkings, cuts and reader errors, refusal of too long data, and writers and readers failing, once or for good, after each of the first 64 and last 4 and 6 random numbers of bytes. Non-trivial: at least two primitives written."},
		gPrimCase, runC29)
}
