package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------- C26

// ConcCase is histories of independent tries and readers of one persisted state, run at the same time
type ConcCase struct {
	Cfg     Cfg    `json:"cfg"`
	Hists   [][]Op `json:"hists"`
	State   []KV   `json:"state"`
	Readers int    `json:"readers"`
	Rounds  int    `json:"rounds"`
	Utils   bool   `json:"utils,omitempty"` // the histories also as batches, streams and in bulk
}

func gConcCase(s *Src) ConcCase {
	c := gcfg(s, 8)
	cc := ConcCase{Cfg: c, Readers: s.Range(0, 3), Rounds: s.Range(1, 2), Utils: s.Pct(40)}
	maxOps, maxKeys := 14, 7
	if c.Kzg {
		maxOps, maxKeys = 5, 3
	}
	for n := s.Range(1, 3); n > 0; n-- {
		o := histOpt{maxOps: maxOps, reads: true, pool: keyPool(s, 1, maxKeys)}
		ops := gHistory(s, c, o)
		if c.Kzg && len(ops) > 8 {
			ops = ops[:8]
		}
		cc.Hists = append(cc.Hists, ops)
	}
	cc.State = gContents(s, c, 2, maxKeys)
	if len(cc.Hists)+cc.Readers < 2 {
		cc.Readers = 2
	}
	return cc
}

// concFixed are cases of every configuration, in which several goroutines do the same
func concFixed() (out []ConcCase) {
	cfgs := []Cfg{{Arity: 16, Hash: 20, Opt: true}, {Arity: 2, Hash: 32, Thr: 20}, {Arity: 256, Hash: 20, Thr: 1}, {Kzg: true, Arity: 256},
		{Arity: 16, Hash: 32, Thr: 33, Opt: true}, {Arity: 256, Hash: 32, Opt: true}, {Arity: 2, Hash: 20, Opt: true}, {Kzg: true, Arity: 256, Opt: true}}
	long := bytes.Repeat(B{7}, 70)
	ops := []Op{{opUpdate, B("ab"), B("1")}, {opUpdate, B("abc"), long}, {opUpdate, B("abd"), B("abd")}, {Op: opCommit}, {opUpdate, B{}, long[:21]}, {Op: opPersist},
		{Op: opDelete, K: B("abc")}, {opUpdate, B("b"), long[:33]}, {Op: opFlush}, {Op: opProve, K: B("abd")}, {Op: opProve, K: B("abx")}, {Op: opRead, K: B("b")}, {Op: opDelete, K: B("b")}, {Op: opReopen}}
	for _, c := range cfgs {
		cc := ConcCase{Cfg: c, Hists: [][]Op{ops, ops}, Readers: 2, Rounds: 1, Utils: true,
			State: []KV{{B("ab"), B("1")}, {B("abc"), long}, {B("abd"), B("abd")}, {B("b"), long[:20]}}}
		if !c.Kzg {
			cc.Hists = append(cc.Hists, ops)
			cc.State = append(cc.State, KV{B{}, long[:32]}, KV{B("abcdefgh"), long[:19]})
		}
		out = append(out, cc)
	}
	return out
}

// constKV is a store which is only read, by several goroutines
type constKV map[string]string

func (s constKV) Get(k []byte) []byte {
	v, ok := s[string(k)]
	if !ok {
		return nil
	}
	return []byte(v)
}
func (s constKV) Has(k []byte) bool { _, ok := s[string(k)]; return ok }

// concHist runs a history on its own stores with a shared model and tells everything it saw
func concHist(c Cfg, m trie.CommitmentModel, ops []Op) (out []byte) {
	w := newWorld(c)
	w.model = m // the one which is shared
	w.open()
	for _, op := range ops {
		w.apply(op)
		if !w.dirty {
			out = append(append(out, '|'), rootOf(w.tr)...)
		}
		if op.Op == opProve && !c.Kzg {
			p := m.(*trie_blake2b.CommitmentModel).Proof(append([]byte{}, op.K...), w.tr)
			out = append(out, p.Bytes()...)
			out = append(out, fmt.Sprint(trie_blake2b_verify.Validate(p, rootOf(w.tr)))...)
		}
	}
	w.persist()
	cl := w.tr.Clone()
	cl.Update([]byte("more"), []byte("value"))
	cl.Commit()
	out = append(append(out, '|'), rootOf(cl)...)
	for _, k := range sortedKeys(w.nodes.m) {
		out = append(append(append(out, k...), '='), w.nodes.m[k]...)
	}
	return
}

// concUtil runs a history through what is around tries: bulk and other forms of updates, batches over a hive.go
// store, key/value streams, serialised commitments and nodes
func concUtil(c Cfg, m trie.CommitmentModel, ops []Op, seed int64) (out []byte) {
	say := func(x ...interface{}) { out = append(out, fmt.Sprint(x...)...) }
	kvs := mapdb.NewMapDB()
	u, err := hive_adaptor.NewHiveBatchedUpdater(kvs, m, []byte{1}, []byte{2}, c.Opt)
	must(err)
	nodes, vals := hive_adaptor.NewHiveKVStoreAdaptor(kvs, []byte{1}), hive_adaptor.NewHiveKVStoreAdaptor(kvs, []byte{2})
	mem := trie.NewInMemoryKVStore()
	tr := trie.New(m, trie.NewInMemoryKVStore(), mem, c.Opt)
	var buf bytes.Buffer
	w := trie.NewBinaryStreamWriter(&buf)
	for _, o := range ops {
		switch o.Op {
		case opUpdate, opDelete, opEmpty:
			v := o.V
			if o.Op != opUpdate {
				v = nil
			}
			u.Update(append([]byte{}, o.K...), v)
			must(w.Write(o.K, v))
			mem.Set(o.K, v)
			if len(o.K) > 0 && bytes.Equal(o.K, v) {
				tr.InsertKeyCommitment(append([]byte{}, o.K...))
			} else if v == nil {
				tr.DeleteStr(string(o.K))
			} else {
				tr.UpdateStr(string(o.K), append([]byte{}, v...))
			}
		case opCommit, opPersist, opFlush, opReopen:
			must(u.Commit())
			tr.Commit()
			say("|", trie.RootCommitment(trie.NewTrieReader(m, nodes, vals)), trie.RootCommitment(tr))
		}
	}
	must(u.Commit())
	tr.Commit()
	root := trie.RootCommitment(tr)
	say("|", root, trie.RootCommitment(trie.NewTrieReader(m, nodes, vals)), len(tr.Reconcile(vals)), trie.ByteSize(vals), trie.NumEntries(nodes))
	if !isNil(root) {
		r2, err := tr.VectorCommitmentFromBytes(root.Bytes())
		say(err, m.EqualCommitments(root, r2))
	}
	all := map[string]string{}
	must(kvs.Iterate(nil, func(k, v []byte) bool { all[string(k)] = string(v); return true }))
	for _, k := range sortedKeys(all) {
		out = append(append(append(out, k...), '='), all[k]...)
		if k[0] == 1 {
			if u, err := trie.DecodeToUnpackedBytes([]byte(k[1:]), c.arity()); err == nil {
				n, err := trie.NodeDataFromBytes(m, []byte(all[k]), u, c.arity(), vals)
				say(err, n)
			}
		}
	}
	tr2 := trie.New(m, trie.NewInMemoryKVStore(), trie.NewInMemoryKVStore(), c.Opt)
	must(trie.NewBinaryStreamIterator(bytes.NewReader(buf.Bytes())).Iterate(func(k, v []byte) bool {
		tr2.Update(k, v)
		return true
	}))
	tr2.Commit()
	say(trie.RootCommitment(tr2))
	tr2.UpdateAll(mem)
	must(trie.NewRandStreamIterator(trie.RandStreamParams{Seed: seed, NumKVPairs: 6, MaxKey: 20, MaxValue: 70}).Iterate(func(k, v []byte) bool {
		if !c.Kzg {
			tr2.Update(k, v)
		}
		out = append(append(out, k...), v...)
		return true
	}))
	cl := tr2.Clone()
	tr2.Commit()
	cl.Commit()
	say(trie.RootCommitment(tr2), trie.RootCommitment(cl), m.Description(), m.ShortName(), tr.Info())
	return
}

// concRead reads everything from a persisted state: root, lookups, nodes, proofs
func concRead(c Cfg, rd trie.NodeStore, m map[string]string, probes [][]byte, from int) (out [][]byte) {
	out = make([][]byte, len(probes))
	root := trie.RootCommitment(rd)
	for i := range probes {
		j := (i + from) % len(probes)
		k := probes[j]
		var o []byte
		o = append(o, root.Bytes()...)
		if t := lookup(rd, k); t != nil {
			o = append(append(o, '|'), t.Bytes()...)
		}
		if p := trie.GetProofGeneric(rd, refUnpack(k, c.Arity)); p != nil {
			for _, nk := range p.Path {
				n, ok := rd.GetNode(append([]byte{}, nk...))
				if !ok {
					o = append(o, "missing"...)
					continue
				}
				o = append(o, nodeBytes(n)...)
			}
		}
		v := []byte(m[string(k)])
		if c.Kzg {
			if _, present := m[string(k)]; present && j%3 == 0 {
				p, ok := trie_kzg_bn256.Model.ProofOfInclusion(append([]byte{}, k...), rd)
				o = append(o, fmt.Sprint(ok)...)
				if ok {
					o = append(o, p.Bytes()...)
					o = append(o, fmt.Sprint(p.Validate(root), p.Validate(root, v), p.Validate(root, []byte("wrong")) != nil)...)
				}
			}
		} else {
			p := rd.Model().(*trie_blake2b.CommitmentModel).Proof(append([]byte{}, k...), rd)
			o = append(o, p.Bytes()...)
			o = append(o, fmt.Sprint(trie_blake2b_verify.Validate(p, root.Bytes()), trie_blake2b_verify.ValidateWithValue(p, root.Bytes(), v) == nil)...)
			o = append(o, trie_blake2b_verify.CommitmentToTheTerminalNode(p)...)
			p2, err := trie_blake2b.ProofFromBytes(p.Bytes())
			o = append(o, fmt.Sprint(err == nil && bytes.Equal(p2.Bytes(), p.Bytes()))...)
		}
		out[j] = o
	}
	return
}

func runC26(cc *ConcCase, st *Stats) error {
	c := cc.Cfg
	// at the same time first, so that whatever is set up at its first use is set up by several goroutines;
	// one after another afterwards, each with its own model
	type result struct {
		what string
		got  []byte
		want func() []byte
	}
	var results []*result
	var wg sync.WaitGroup
	var start chan struct{}
	var errs chan error
	begin := func() {
		start = make(chan struct{})
		errs = make(chan error, 3*len(cc.Hists)+2*cc.Readers+2)
	}
	run := func(f func()) {
		wg.Add(1)
		start, errs := start, errs
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs <- errf("%s: panic: %v\n%s", c, p, shortStack())
				}
			}()
			<-start
			f()
		}()
	}
	end := func() error {
		close(start)
		wg.Wait()
		close(errs)
		for err := range errs {
			return err
		}
		return nil
	}
	wantH, wantU := make([][]byte, len(cc.Hists)), make([][]byte, len(cc.Hists))
	histories := func(shared trie.CommitmentModel) {
		for i := range cc.Hists {
			i := i
			r := &result{what: fmt.Sprintf("history %d has other results when run at the same time with %d others and %d readers", i, len(cc.Hists)-1, cc.Readers),
				want: func() []byte {
					if wantH[i] == nil {
						wantH[i] = concHist(c, c.model(), cc.Hists[i])
					}
					return wantH[i]
				}}
			results = append(results, r)
			run(func() { r.got = concHist(c, shared, cc.Hists[i]) })
			if !cc.Utils {
				continue
			}
			u := &result{what: fmt.Sprintf("batches, streams and bulk operations of history %d have other results when run at the same time with others", i),
				want: func() []byte {
					if wantU[i] == nil {
						wantU[i] = concUtil(c, c.model(), cc.Hists[i], int64(i))
					}
					return wantU[i]
				}}
			results = append(results, u)
			run(func() { u.got = concUtil(c, shared, cc.Hists[i], int64(i)) })
		}
	}
	shared := c.model()
	begin()
	histories(shared)
	if len(cc.Hists) == 1 {
		histories(shared)
	}
	if err := end(); err != nil {
		return err
	}

	m := kvMap(cc.State)
	nodes := constKV(freshStore(c, m))
	vals := constKV(copyMap(m))
	probes := probeKeys(m)
	if c.Kzg && len(probes) > 8 {
		probes = probes[:8]
	}
	var wantR [][]byte
	seen := func(j int) func() []byte {
		return func() []byte {
			if wantR == nil {
				wantR = concRead(c, trie.NewTrieReader(c.model(), nodes, vals), m, probes, 0)
			}
			return wantR[j]
		}
	}
	shared = c.model()
	rd := trie.NewTrieReader(shared, nodes, vals)
	rounds := cc.Rounds
	if c.Kzg {
		rounds = 1
	}
	for r := 0; r < rounds; r++ {
		begin()
		if r > 0 || cc.Readers > 0 {
			histories(shared)
		}
		for i := 0; i < cc.Readers; i++ {
			i, r := i, r
			var rs []*result
			for j, k := range probes {
				rs = append(rs, &result{what: fmt.Sprintf("a reader sees something else of key %x when run at the same time with others", k), want: seen(j)})
			}
			results = append(results, rs...)
			run(func() {
				for j, g := range concRead(c, rd, m, probes, i*7+r) {
					rs[j].got = g
				}
			})
			if i == 0 { // a trie on the same stores
				var ts []*result
				for j, k := range probes {
					ts = append(ts, &result{what: fmt.Sprintf("a trie over the persisted state sees something else of key %x when run at the same time with others", k), want: seen(j)})
				}
				results = append(results, ts...)
				run(func() {
					tr := trie.New(shared, nodes, vals, c.Opt)
					for j, g := range concRead(c, tr, m, probes, 3) {
						ts[j].got = g
					}
					tr.Update([]byte("concurrent"), []byte("update"))
					tr.Commit()
				})
			}
		}
		if err := end(); err != nil {
			return err
		}
	}
	for _, r := range results {
		if !bytes.Equal(r.got, r.want()) {
			return errf("%s: %s", c, r.what)
		}
	}
	st.Label("cfg:" + c.label())
	st.Label(fmt.Sprintf("goroutines:%d histories, %d readers", len(cc.Hists), cc.Readers))
	st.NonTrivial(len(cc.Hists) > 0 && cc.Readers > 0)
	return nil
}

// ---------------------------------------------------------------- C27

// RandCase is parameters of the random stream and how it is called
type RandCase struct {
	Seed   int64 `json:"seed"`
	N      int   `json:"n"`
	MaxK   int   `json:"maxk"`
	MaxV   int   `json:"maxv"`
	Stops  []int `json:"stops"` // number of pairs taken by the calls; the last call takes the rest
	Deflt  bool  `json:"default,omitempty"`
	Others int64 `json:"other"` // another seed
}

func gRandCase(s *Src) RandCase {
	rc := RandCase{Seed: int64(s.U64()), N: s.N(60), MaxK: s.Range(1, 70), MaxV: s.Range(1, 140), Deflt: s.Pct(3), Others: int64(s.U64())}
	if s.Pct(30) {
		rc.Seed = int64(s.N(5)) - 2
	}
	if s.Pct(50) { // a seed which is like this one
		rc.Others = pick(s, []int64{-rc.Seed, rc.Seed + 1, rc.Seed ^ 1<<s.N(64), rc.Seed << 1, rc.Seed >> 1, ^rc.Seed, rc.Seed & 0xffff, rc.Seed & 0xffffffff, rc.Seed ^ rc.Seed>>32})
	}
	if s.Pct(25) {
		rc.MaxK = s.Range(1, 2)
	}
	if s.Pct(25) {
		rc.MaxV = s.Range(1, 2)
	}
	if s.Pct(3) {
		rc.MaxK, rc.MaxV = pick(s, []int{255, 256, 1000}), pick(s, []int{255, 256, 3000})
	}
	if s.Pct(2) {
		rc.N = s.N(5000)
	}
	if s.N(1000) == 999 {
		rc.N = s.Range(5000, 150000)
		rc.MaxK, rc.MaxV = s.Range(1, 20), s.Range(1, 20)
	}
	for i := s.N(4); i > 0; i-- {
		rc.Stops = append(rc.Stops, s.Range(1, 20))
	}
	return rc
}

func runC27(rc *RandCase, st *Stats) error {
	// take at most n pairs, all if n < 0
	take := func(it trie.KVStreamIterator, n int) ([]KV, error) {
		var out, raw []KV
		err := it.Iterate(func(k, v []byte) bool {
			out = append(out, KV{append(B{}, k...), append(B{}, v...)})
			raw = append(raw, KV{k, v})
			return n < 0 || len(out) < n
		})
		if d := samePairs(out, raw); d != "" {
			return nil, errf("pairs change after they were given: %s", d)
		}
		return out, err
	}
	bounds := func(kvs []KV, mk, mv int) error {
		for i, kv := range kvs {
			if len(kv.K) < 1 || len(kv.K) > mk || len(kv.V) < 1 || len(kv.V) > mv {
				return errf("pair %d has a key of %d and a value of %d bytes, at most %d and %d are allowed", i, len(kv.K), len(kv.V), mk, mv)
			}
		}
		return nil
	}
	if rc.Deflt {
		it := trie.NewRandStreamIterator()
		kvs, err := take(it, 200)
		if err != nil || len(kvs) != 200 {
			return errf("default parameters: %d pairs, %v", len(kvs), err)
		}
		st.Label("default-parameters")
		return bounds(kvs, 64, 128)
	}
	par := trie.RandStreamParams{Seed: rc.Seed, NumKVPairs: rc.N, MaxKey: rc.MaxK, MaxValue: rc.MaxV}
	want := rc.N
	limit := -1
	if rc.N == 0 { // infinite
		limit = 300
		want = 300
		st.Label("infinite")
	}
	all, err := take(trie.NewRandStreamIterator(par), limit)
	if err != nil {
		return errf("%+v: %v", par, err)
	}
	if len(all) != want {
		return errf("%+v: %d pairs, expected %d", par, len(all), want)
	}
	if err := bounds(all, rc.MaxK, rc.MaxV); err != nil {
		return errf("%+v: %v", par, err)
	}
	// again, in several calls
	it := trie.NewRandStreamIterator(par)
	var got []KV
	for _, n := range rc.Stops {
		if n > want-len(got) {
			n = want - len(got)
		}
		if n == 0 {
			break
		}
		kvs, err := take(it, n)
		if err != nil || len(kvs) != n {
			return errf("%+v: stopped after %d pairs: %d pairs, %v", par, n, len(kvs), err)
		}
		got = append(got, kvs...)
	}
	if rest := want - len(got); rc.N > 0 || rest > 0 {
		n := -1
		if rc.N == 0 {
			n = rest
		}
		kvs, err := take(it, n)
		if err != nil {
			return errf("%+v: %v", par, err)
		}
		got = append(got, kvs...)
	}
	if d := samePairs(all, got); d != "" {
		return errf("%+v: the same stream taken in calls of %v differs: %s", par, rc.Stops, d)
	}
	if rc.N > 0 {
		if kvs, err := take(it, -1); err != nil || len(kvs) != 0 {
			return errf("%+v: %d pairs beyond the requested number, %v", par, len(kvs), err)
		}
	}
	// two streams at once do not disturb each other
	a, b := trie.NewRandStreamIterator(par), trie.NewRandStreamIterator(par)
	other := trie.NewRandStreamIterator(trie.RandStreamParams{Seed: rc.Others, MaxKey: rc.MaxK, MaxValue: rc.MaxV})
	for i := 0; i < want && i < 12; i++ {
		x, _ := take(a, 1)
		_, _ = take(other, 1)
		y, _ := take(b, 1)
		if samePairs(all[i:i+1], x) != "" || samePairs(all[i:i+1], y) != "" {
			return errf("%+v: pair %d depends on other streams", par, i)
		}
	}
	long := map[string]bool{}
	bytesOf := 0
	for i, kv := range all {
		for _, x := range []B{kv.K, kv.V} {
			if bytesOf += len(x); len(x) >= 12 {
				if long[string(x)] {
					return errf("%+v: pair %d has a key or value of %d bytes which there was before", par, i, len(x))
				}
				long[string(x)] = true
			}
		}
	}
	// the generator of math/rand takes seeds modulo 2^31-1, and one for 0
	norm := func(x int64) int64 { return ((x % (1<<31 - 1)) + 1<<31 - 1) % (1<<31 - 1) }
	if a, b := norm(rc.Seed), norm(rc.Others); bytesOf >= 40 && a != b && a != 0 && b != 0 {
		par.Seed = rc.Others
		if x, err := take(trie.NewRandStreamIterator(par), want); err == nil && samePairs(all, x) == "" {
			return errf("seeds %d and %d give the same stream", rc.Seed, rc.Others)
		}
	}
	st.NonTrivial(want >= 2 && len(rc.Stops) > 0)
	if rc.MaxK == 1 || rc.MaxV == 1 {
		st.Label("maximum-length-1")
	}
	return nil
}

func init() {
	register("C26", checkOpt{Quick: 1500, Thor: 80000,
		Rule:   "cases are 1..3 histories of independent tries (own stores) on one shared model and 0..3 readers of one persisted state plus a trie opened over it and (in 40% of the cases) as many users of adaptors, batched updaters, streams and bulk operations on their own objects, first all at the same time in goroutines under the Go race detector (fixed cases of every configuration are the first things the worker processes do, so whatever is set up at its first use is set up in parallel), then one after another; roots, proofs, validations, nodes and stored bytes must be the same, and the detector must be silent. Non-trivial: at least one history and one reader together.",
		Assume: []string{"interleavings are those the Go scheduler produces on 4 processors; the race detector finds unordered accesses whichever comes first"},
	}, gConcCase, runC26, concFixed()...)
	register("C27", checkOpt{Quick: 60000, Thor: 2000000,
		Rule: "cases are seeds, numbers of pairs (0 is infinite), maximum lengths from 1 on, and sequences of stopped calls; the stream must have exactly the number of pairs, all lengths between 1 and the maximum, be the same when taken in several calls, when another stream is used in between, and stop when told; another seed gives another stream, and no key or value of 12 bytes or more comes twice. Non-trivial: at least two pairs in more than one call.",
	}, gRandCase, runC27)
}
