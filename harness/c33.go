package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------- C33: work is bounded by what is touched

// WorkCase is a history on a trie which has been persisted with many keys
type WorkCase struct {
	Cfg  Cfg  `json:"cfg"`
	Base B    `json:"base"` // see bulkOps
	Ops  []Op `json:"ops"`
}

const (
	opGoClone = "clone" // go on with a clone
	opView    = "view"  // lookup and proof by a new reader
)

func gWork(s *Src) WorkCase {
	c := WorkCase{Cfg: gcfgB(s)}
	if c.Cfg.Thr > 1 { // few configurations: the bases are made once
		c.Cfg.Thr = pick(s, []int{20, 40})
	}
	c.Base = B{1, 2, byte(1+s.W(4, 4, 2, 1)) | byte(s.N(4))<<3}
	if s.Pct(20) { // a small one
		c.Base = nil
	}
	var ks []B
	if len(c.Base) > 0 {
		for _, o := range bulkOps(Op{K: c.Base}) {
			ks = append(ks, o.K)
		}
	} else {
		ks = keyPool(s, 1, 8)
	}
	var near []B // keys which have been used
	for i, n := 0, s.Range(1, 24); i < n; i++ {
		var k B
		switch {
		case len(near) > 0 && s.Pct(40):
			k = pick(s, near)
		default:
			k = ks[s.N(len(ks))]
		}
		if s.Pct(30) {
			k = deriveKey(s, k, []byte{0, 1, 0xff}, ks[:1])
		}
		o := Op{K: k}
		switch s.W(30, 30, 12, 8, 3, 14, 8, 5, 4) {
		case 0:
			o.Op, o.V = opUpdate, gValue(s, c.Cfg, k)
			if len(o.V) > 1000 {
				o.V = o.V[:1000]
			}
		case 1:
			o.Op = opDelete
		case 2:
			o.Op = opRead
		case 3:
			o.Op = opProve
		case 4:
			o = Op{Op: opGoClone}
		case 5:
			o = Op{Op: opCommit}
		case 6:
			o = Op{Op: opPersist}
		case 7:
			o = Op{Op: opFlush}
		case 8:
			o.Op = opView
		}
		if o.K != nil {
			near = append(near, k)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// traceKV remembers what is read and written
type traceKV struct {
	m      map[string]string
	reads  []string
	has    int
	writes []string
}

func (s *traceKV) Get(k []byte) []byte {
	s.reads = append(s.reads, string(k))
	if v, ok := s.m[string(k)]; ok {
		return []byte(v)
	}
	return nil
}
func (s *traceKV) Has(k []byte) bool {
	s.has++ // whether a key is there may be asked before it is read
	_, ok := s.m[string(k)]
	return ok
}
func (s *traceKV) Set(k, v []byte) {
	s.writes = append(s.writes, string(k))
	if len(v) == 0 {
		delete(s.m, string(k))
	} else {
		s.m[string(k)] = string(v)
	}
}

// countModel counts the calculations of node commitments
type countModel struct {
	*trie_blake2b.CommitmentModel
	n *int
}

func (m countModel) CalcNodeCommitment(d *trie.NodeData) trie.VCommitment {
	*m.n++
	return m.CommitmentModel.CalcNodeCommitment(d)
}

func (m countModel) UpdateNodeCommitment(d *trie.NodeData, ch map[byte]trie.VCommitment, delta bool, t trie.TCommitment, u *trie.VCommitment) {
	*m.n++
	m.CommitmentModel.UpdateNodeCommitment(d, ch, delta, t, u)
}

type workBase struct {
	kvs, nodes map[string]string
	keys       ukeys
}

var workBases = map[string]workBase{} // of this worker

func workBaseOf(c *WorkCase) workBase {
	id := fmt.Sprintf("%s %x", c.Cfg, c.Base)
	if b, ok := workBases[id]; ok {
		return b
	}
	m := map[string]string{}
	if len(c.Base) > 0 {
		for _, o := range bulkOps(Op{K: c.Base}) {
			if o.Op == opUpdate {
				m[string(o.K)] = string(o.V)
			} else {
				delete(m, string(o.K))
			}
		}
	}
	b := workBase{m, freshStore(c.Cfg, m), ukeysOf(c.Cfg, m)}
	workBases[id] = b
	return b
}

// ukeys are the unpacked keys of the contents in order
type ukeys []string

func ukeysOf(c Cfg, m map[string]string) (t ukeys) {
	for k := range m {
		t = append(t, string(refUnpack([]byte(k), c.Arity)))
	}
	sort.Strings(t)
	return t
}

func (t *ukeys) set(u string, present bool) {
	i := sort.SearchStrings(*t, u)
	there := i < len(*t) && (*t)[i] == u
	switch {
	case present && !there:
		*t = append(*t, "")
		copy((*t)[i+1:], (*t)[i:])
		(*t)[i] = u
	case !present && there:
		*t = append((*t)[:i], (*t)[i+1:]...)
	}
}

// pathLen is the number of nodes on the path of a key in the tree
func (t ukeys) pathLen(k []byte) int {
	u := string(k)
	for d, n := 0, 0; ; {
		if len(t) == 0 {
			return n
		}
		n++
		a, b := t[0], t[len(t)-1]
		l := d
		for l < len(a) && l < len(b) && a[l] == b[l] {
			l++
		}
		if !strings.HasPrefix(u, a[:l]) || len(u) == l {
			return n
		}
		child := u[:l+1]
		lo := sort.SearchStrings(t, child)
		hi := lo + sort.Search(len(t)-lo, func(i int) bool { return !strings.HasPrefix(t[lo+i], child) })
		t, d = t[lo:hi], l+1
	}
}

func runC33(c *WorkCase, st *Stats) error {
	base := workBaseOf(c)
	cur := copyMap(base.kvs)
	nodes, vals := &traceKV{m: copyMap(base.nodes)}, &traceKV{m: copyMap(base.kvs)}
	calcs := 0
	model := countModel{c.Cfg.b2b(), &calcs}
	tr := trie.New(model, nodes, vals, c.Cfg.Opt)
	rdr0 := trie.NewTrieReader(model, nodes, vals)
	if len(nodes.reads)+len(vals.reads) != 0 {
		return fmt.Errorf("opening a trie or a reader reads %d keys", len(nodes.reads)+len(vals.reads))
	}
	_ = rdr0
	tree := append(ukeys{}, base.keys...)
	ptree := append(ukeys{}, tree...) // of the persisted contents
	var (
		fetched     = map[string]int{} // how often a node has been read since the cache was last cleared
		touched     int                // nodes which may be in the cache
		since       []B                // keys of updates since the last commit
		allowedKeys = map[string]bool{}
		deep, hit   int
	)
	// what an operation on the key may read
	check := func(what string, k []byte, del bool, cached bool, l int) error {
		u := refUnpack(k, c.Cfg.Arity)
		ok := func(enc string) bool {
			d, valid := refDecode([]byte(enc), c.Cfg.Arity)
			if !valid {
				return false
			}
			if bytes.HasPrefix(u, d) {
				return true
			}
			// the child with which a node of the path is merged
			return del && len(d) > 0 && bytes.HasPrefix(u, d[:len(d)-1])
		}
		distinct, off := map[string]bool{}, map[string]bool{}
		for _, r := range nodes.reads {
			if !ok(r) {
				return fmt.Errorf("%s %x reads node %x of another path", what, k, r)
			}
			distinct[r] = true
			d, _ := refDecode([]byte(r), c.Cfg.Arity)
			if _, there := nodes.m[r]; there && !bytes.HasPrefix(u, d) {
				off[r] = true
			}
			if _, there := nodes.m[r]; there && cached {
				fetched[r]++
				if fetched[r] > 2 {
					return fmt.Errorf("%s %x reads node %x for the %d. time since the cache was cleared", what, k, r, fetched[r])
				}
			}
			allowedKeys[r] = true
		}
		if len(off) > 2 {
			return fmt.Errorf("%s %x reads %d nodes which are not on its path", what, k, len(off))
		}
		if max := l + 4; len(distinct) > max || len(nodes.reads) > 4*max {
			return fmt.Errorf("%s %x reads the node store %d times (%d different keys) with a path of %d nodes of %d", what, k, len(nodes.reads), len(distinct), l, len(nodes.m))
		}
		if max := 4 * (l + 4); nodes.has > max || vals.has > max {
			return fmt.Errorf("%s %x asks %d times whether a node and %d times whether a value is there, with a path of %d nodes", what, k, nodes.has, vals.has, l)
		}
		nodes.has, vals.has = 0, 0
		if max := 2 * (len(nodes.reads) + 1); len(vals.reads) > max {
			return fmt.Errorf("%s %x reads the value store %d times, the node store %d times", what, k, len(vals.reads), len(nodes.reads))
		}
		nodes.reads, vals.reads = nil, nil
		return nil
	}
	commit := func(where string) error {
		calcs = 0
		max := 2
		for _, k := range since {
			max += 2 * (tree.pathLen(refUnpack(k, c.Cfg.Arity)) + 1)
		}
		tr.Commit()
		if calcs > max || (len(since) == 0 && calcs > 0) {
			return fmt.Errorf("%s: commit calculates %d node commitments after %d updates, expected at most %d, and none after none", where, calcs, len(since), max)
		}
		distinct := map[string]bool{}
		for _, r := range nodes.reads {
			distinct[r] = true
		}
		if n := len(nodes.reads) + len(vals.reads); len(distinct) > max || n+nodes.has+vals.has > 4*max {
			return fmt.Errorf("%s: commit reads the stores %d times (%d nodes) after %d updates", where, n, len(distinct), len(since))
		}
		nodes.reads, vals.reads = nil, nil
		nodes.has, vals.has = 0, 0
		since = nil
		return nil
	}
	persist := func(where string) error {
		vals.m = copyMap(cur)
		ptree = append(ptree[:0], tree...)
		nodes.writes = nil
		n := tr.PersistMutations(nodes)
		if len(nodes.reads)+len(vals.reads) != 0 {
			return fmt.Errorf("%s: persist reads the stores", where)
		}
		if n != len(nodes.writes) {
			return fmt.Errorf("%s: persist tells %d mutations, but writes %d", where, n, len(nodes.writes))
		}
		if n > touched+2 {
			return fmt.Errorf("%s: persist writes %d nodes, only %d can have been touched since the cache was cleared", where, n, touched)
		}
		nodes.writes = nil
		return nil
	}
	for i, op := range c.Ops {
		where := fmt.Sprintf("op %d (%s %x)", i, op.Op, op.K)
		k := append([]byte{}, op.K...)
		u := refUnpack(k, c.Cfg.Arity)
		l := tree.pathLen(u)
		if l > 3 {
			deep++
		}
		switch op.Op {
		case opUpdate, opDelete:
			_, had := cur[string(k)]
			if op.Op == opUpdate {
				tr.Update(k, append([]byte{}, op.V...))
				cur[string(op.K)] = string(op.V)
			} else {
				tr.Delete(k)
				delete(cur, string(op.K))
			}
			if had {
				hit++
			}
			tree.set(string(u), op.Op == opUpdate)
			if m := tree.pathLen(u); m > l {
				l = m
			}
			since = append(since, op.K)
			touched += l + 4
			if err := check(where, k, true, true, l); err != nil {
				return err
			}
		case opRead:
			t := lookup(tr, k)
			if _, ok := cur[string(op.K)]; ok != (t != nil) {
				return fmt.Errorf("%s: found %v", where, t != nil)
			}
			touched += l + 4
			if err := check(where, k, false, true, l); err != nil {
				return err
			}
			lookup(tr, k)
			for _, r := range nodes.reads {
				if _, there := nodes.m[r]; there && fetched[r] > 0 {
					return fmt.Errorf("%s: node %x is read again by the same lookup", where, r)
				}
			}
			nodes.reads, vals.reads = nil, nil
		case opProve:
			if err := commit(where); err != nil {
				return err
			}
			touched += l + 4
			model.Proof(k, tr)
			if err := check(where, k, false, true, l); err != nil {
				return err
			}
		case opView:
			rdr := trie.NewTrieReader(model, nodes, vals)
			if len(nodes.reads)+len(vals.reads) != 0 {
				return fmt.Errorf("%s: opening a reader reads the stores", where)
			}
			pl := ptree.pathLen(u)
			lookup(rdr, k)
			if err := check(where+" by a reader", k, false, false, pl); err != nil {
				return err
			}
			model.Proof(k, rdr)
			if err := check(where+" by a reader", k, false, false, pl); err != nil {
				return err
			}
		case opGoClone:
			tr = tr.Clone()
			if len(nodes.reads)+len(vals.reads) != 0 {
				return fmt.Errorf("%s: cloning reads the stores", where)
			}
		case opCommit:
			if err := commit(where); err != nil {
				return err
			}
			if err := commit(where + " again"); err != nil {
				return err
			}
		case opPersist, opFlush:
			if err := commit(where); err != nil {
				return err
			}
			if err := persist(where); err != nil {
				return err
			}
			if op.Op == opFlush {
				tr.ClearCache()
				touched, fetched = 0, map[string]int{}
				if err := persist(where + " with empty cache"); err != nil {
					return err
				}
			}
		}
		if len(nodes.writes) != 0 || len(vals.writes) != 0 {
			return fmt.Errorf("%s: writes to the stores", where)
		}
	}
	if err := commit("at the end"); err != nil {
		return err
	}
	if err := persist("at the end"); err != nil {
		return err
	}
	if len(c.Base) > 0 && len(c.Ops)%8 != 0 { // C05 looks at this
	} else if want := freshStore(c.Cfg, cur); !sameMap(nodes.m, want) {
		return fmt.Errorf("persisted nodes differ from those of a fresh trie:%s", diffMap(nodes.m, want))
	}
	st.Label("cfg:" + c.Cfg.label())
	st.Label(fmt.Sprintf("with:about %d nodes", len(nodes.m)/250*250))
	st.NonTrivial(len(nodes.m) > 100 && hit > 0 && deep > 0)
	return nil
}

func init() {
	register("C33", checkOpt{Quick: 12000, Thor: 400000,
		Rule: "cases are histories on a trie persisted before with up to 600 keys, with stores which record every access and a model which counts calculations of node commitments; non-trivial if there are more than 100 nodes, a pair is overwritten or deleted and a key used has a path of more than three nodes",
	}, gWork, runC33)
}
