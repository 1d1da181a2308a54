package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/badger"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

var errInjected = errors.New("injected store error")

// faultKV is a hive.go store which fails when told to, and counts
type faultKV struct {
	kvstore.KVStore
	ctl *faultCtl
}

type faultCtl struct {
	failIn    int // the operation after so many fails; negative: never
	fired     bool
	sets      int // direct writes
	created   int // batches
	commits   int // batch commits which succeeded
	flushes   int
	failKind  string // fail only this kind, the failIn-th
	failTimes int    // how often (0 is once)
}

func (c *faultCtl) fail(kind string) error {
	if c.failIn < 0 || (c.failKind != "" && c.failKind != kind) {
		return nil
	}
	if c.failIn > 0 {
		c.failIn--
		return nil
	}
	c.fired = true
	if c.failTimes > 0 {
		c.failTimes--
	} else {
		c.failIn = -1
	}
	return errInjected
}

func newFaultKV() *faultKV {
	return &faultKV{mapdb.NewMapDB(), &faultCtl{failIn: -1}}
}

func (f *faultKV) WithRealm(r kvstore.Realm) (kvstore.KVStore, error) {
	s, err := f.KVStore.WithRealm(r)
	return &faultKV{s, f.ctl}, err
}

func (f *faultKV) Get(k kvstore.Key) (kvstore.Value, error) {
	if err := f.ctl.fail("get"); err != nil {
		return nil, err
	}
	v, err := f.KVStore.Get(k)
	if err != nil {
		return nil, err
	}
	return append([]byte{}, v...), nil
}

func (f *faultKV) Has(k kvstore.Key) (bool, error) {
	if err := f.ctl.fail("has"); err != nil {
		return false, err
	}
	return f.KVStore.Has(k)
}

func (f *faultKV) Set(k kvstore.Key, v kvstore.Value) error {
	if err := f.ctl.fail("set"); err != nil {
		return err
	}
	f.ctl.sets++
	return f.KVStore.Set(append([]byte{}, k...), append([]byte{}, v...))
}

func (f *faultKV) Delete(k kvstore.Key) error {
	if err := f.ctl.fail("delete"); err != nil {
		return err
	}
	f.ctl.sets++
	return f.KVStore.Delete(k)
}

func (f *faultKV) Iterate(prefix kvstore.KeyPrefix, fun kvstore.IteratorKeyValueConsumerFunc, d ...kvstore.IterDirection) error {
	stop := -1
	err := f.ctl.fail("iterate")
	if err != nil {
		stop = len(prefix) % 3 // fails after some pairs
	}
	n := 0
	err2 := f.KVStore.Iterate(prefix, func(k kvstore.Key, v kvstore.Value) bool {
		if n == stop {
			return false
		}
		n++
		return fun(append([]byte{}, k...), append([]byte{}, v...))
	}, d...)
	if err != nil {
		return err
	}
	return err2
}

func (f *faultKV) IterateKeys(prefix kvstore.KeyPrefix, fun kvstore.IteratorKeyConsumerFunc, d ...kvstore.IterDirection) error {
	if err := f.ctl.fail("iterate"); err != nil {
		return err
	}
	return f.KVStore.IterateKeys(prefix, fun, d...)
}

func (f *faultKV) Flush() error {
	if err := f.ctl.fail("flush"); err != nil {
		return err
	}
	f.ctl.flushes++
	return f.KVStore.Flush()
}

func (f *faultKV) Batched() (kvstore.BatchedMutations, error) {
	if err := f.ctl.fail("batched"); err != nil {
		return nil, err
	}
	b, err := f.KVStore.Batched()
	if err != nil {
		return nil, err
	}
	f.ctl.created++
	return &faultBatch{b, f.ctl}, nil
}

type faultBatch struct {
	kvstore.BatchedMutations
	ctl *faultCtl
}

func (b *faultBatch) Set(k kvstore.Key, v kvstore.Value) error {
	if err := b.ctl.fail("batchset"); err != nil {
		return err
	}
	return b.BatchedMutations.Set(k, v)
}

func (b *faultBatch) Delete(k kvstore.Key) error {
	if err := b.ctl.fail("batchset"); err != nil {
		return err
	}
	return b.BatchedMutations.Delete(k)
}

func (b *faultBatch) Commit() error {
	if err := b.ctl.fail("commit"); err != nil {
		return err
	}
	b.ctl.commits++
	return b.BatchedMutations.Commit()
}

// contents is everything in the underlying store
func (f *faultKV) contents() map[string]string {
	m := map[string]string{}
	must(f.KVStore.Iterate(kvstore.EmptyPrefix, func(k kvstore.Key, v kvstore.Value) bool {
		m[string(k)] = string(v)
		return true
	}))
	return m
}

// part is what has the prefix, without it
func part(m map[string]string, prefix []byte) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		if bytes.HasPrefix([]byte(k), prefix) {
			out[k[len(prefix):]] = v
		}
	}
	return out
}

// antichain draws prefixes of which none is a prefix of another
func antichain(s *Src, lo, hi int) []B {
	for {
		var out []B
		cands := []B{{0}, {1}, {1, 0}, {1, 1}, {0, 0}, {0, 1}, {0xff}, {0xff, 0xff}, {2, 0, 1}, {2, 0, 0}, {'a'}, {'a', 'b'}, {'a', 'c'}, {3}}
		for tries := 0; tries < 30 && len(out) < hi; tries++ {
			p := pick(s, cands)
			ok := true
			for _, q := range out {
				ok = ok && !bytes.HasPrefix(p, q) && !bytes.HasPrefix(q, p)
			}
			if ok {
				out = append(out, p)
			}
			if len(out) >= lo && s.N(hi) == 0 {
				break
			}
		}
		if len(out) >= lo {
			return out
		}
		if s.scripted { // a shrunk script gives always the same
			return []B{{0}, {1}}[:lo]
		}
	}
}

// arena gives copies of the slices, lying one after another in one array: each has the next ones
// in its spare capacity, so who appends to one changes the others
func arena(slices ...[]byte) [][]byte {
	n := 64
	for _, x := range slices {
		n += len(x)
	}
	buf := make([]byte, 0, n)
	out := make([][]byte, len(slices))
	for i, x := range slices {
		a := len(buf)
		buf = append(buf, x...)
		out[i] = buf[a:len(buf)]
	}
	return out
}

// two copies of slices, in one array if shared
func twoCopies(shared bool, a, b []byte) ([]byte, []byte) {
	if shared {
		ar := arena(a, b)
		return ar[0], ar[1]
	}
	return append([]byte{}, a...), append([]byte{}, b...)
}

// ---------------------------------------------------------------- C20

type StoreOp struct {
	Op   string `json:"o"`
	P    int    `json:"p"` // partition
	K    B      `json:"k,omitempty"`
	V    B      `json:"v,omitempty"`
	N    int    `json:"n,omitempty"`    // stop the iteration after so many; length of the value of "big"
	Fail bool   `json:"fail,omitempty"` // the store fails during the operation
	Alt  bool   `json:"alt,omitempty"`  // through another adaptor of the same partition
}

type StoreCase struct {
	Mem      bool      `json:"mem,omitempty"`    // the in-memory store
	Badger   bool      `json:"badger,omitempty"` // the store is a database in a directory
	Shared   bool      `json:"shared,omitempty"` // prefixes and arguments are parts of one array
	Prefixes []B       `json:"prefixes"`
	Foreign  []KV      `json:"foreign"` // in the store before, under no prefix
	Ops      []StoreOp `json:"ops"`
}

func gStoreCase(s *Src) StoreCase {
	sc := StoreCase{Mem: s.Pct(15), Shared: s.Pct(40)}
	switch {
	case sc.Mem:
		sc.Prefixes = make([]B, s.Range(1, 2))
	case s.Pct(10):
		sc.Prefixes = []B{{}}
	default:
		sc.Prefixes = antichain(s, 1, 4)
	}
	sc.Badger = !sc.Mem && len(sc.Prefixes[0]) > 0 && s.N(2000) == 1999
	pool := keyPool(s, 2, 8)
	for _, p := range sc.Prefixes { // keys which look like those of a neighbour
		pool = append(pool, p)
		pool = append(pool, append(append(B{}, p...), pick(s, pool)...))
	}
	if !sc.Mem && len(sc.Prefixes[0]) > 0 {
		for i := s.N(4); i > 0; i-- {
			k := append(append(B{}, pick(s, sc.Prefixes)...), pick(s, pool)...)
			k[s.N(len(k))] ^= 1 << s.N(8)
			if s.Pct(30) {
				k = k[:s.N(len(k))]
			}
			ok := true
			for _, p := range sc.Prefixes {
				ok = ok && !bytes.HasPrefix(k, p)
			}
			if ok {
				sc.Foreign = append(sc.Foreign, KV{k, B{9}})
			}
		}
	}
	many := s.N(1000) >= 996 // partitions of hundreds or thousands of pairs
	large := s.N(1000) >= 996 // long values
	for n := s.Range(1, 30); n > 0; n-- {
		if many && s.Pct(15) {
			sc.Ops = append(sc.Ops, StoreOp{Op: "many", P: s.N(len(sc.Prefixes)), K: B{s.Byte(), s.Byte()}, N: s.Range(1, 1600)})
			continue
		}
		if large && s.Pct(25) {
			sc.Ops = append(sc.Ops, StoreOp{Op: "big", P: s.N(len(sc.Prefixes)), K: pick(s, pool), N: pick(s, []int{255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 70000, 200000})})
			continue
		}
		op := StoreOp{P: s.N(len(sc.Prefixes)), K: pick(s, pool), Fail: !sc.Mem && s.Pct(6), Alt: !sc.Mem && s.Pct(15)}
		switch s.W(40, 15, 20, 12, 12) {
		case 0:
			op.Op = "set"
			op.V = s.Bytes(s.Range(1, 4))
		case 1:
			op.Op = "set" // empty value
		case 2:
			op.Op = "get"
		case 3:
			op.Op = "has"
		case 4:
			op.Op = "iterate"
			op.N = -1
			if s.Pct(50) {
				op.N = s.N(4)
				if many && s.Pct(70) {
					op.N = s.N(1500)
				}
			}
		}
		sc.Ops = append(sc.Ops, op)
	}
	return sc
}

// many are the pairs set by the operation of this name: some with empty values, which remove
func (op *StoreOp) many() []KV {
	var out []KV
	rnd := uint32(op.K[0])<<8 | uint32(op.K[1])
	for i := 0; i < op.N; i++ {
		rnd = rnd*1664525 + 1013904223
		kv := KV{K: B{byte(rnd >> 24), byte(i >> 8), byte(i)}, V: B{byte(i), byte(rnd >> 16)}}
		if rnd>>20&7 == 0 {
			kv.V = nil
			if i > 0 && rnd>>19&1 == 0 {
				kv.K = out[int(rnd>>8&0xff)%i].K
			}
		}
		out = append(out, kv)
	}
	return out
}

func runC20(sc *StoreCase, st *Stats) (err error) {
	var stores, alts []trie.KVStore
	var models []map[string]string
	f := newFaultKV()
	if sc.Badger {
		dir, err := os.MkdirTemp("", "verif-c20-")
		must(err)
		defer os.RemoveAll(dir)
		db, err := badger.CreateDB(dir)
		must(err)
		defer db.Close()
		f.KVStore = badger.New(db)
		st.Label("store:badger")
	}
	foreign := kvMap(sc.Foreign)
	if sc.Badger {
		delete(foreign, "") // there such a key can't be
	}
	for k, v := range foreign {
		must(f.KVStore.Set([]byte(k), []byte(v)))
	}
	var shared [][]byte
	if sc.Shared {
		var parts [][]byte
		for _, p := range sc.Prefixes {
			parts = append(parts, p)
		}
		for _, op := range sc.Ops {
			parts = append(parts, op.K, op.V)
		}
		shared = arena(parts...)
		defer func() {
			for i := range parts {
				if err == nil && !bytes.Equal(parts[i], shared[i]) {
					err = errf("an argument %x has been changed to %x", parts[i], shared[i])
				}
			}
		}()
	}
	for i, p := range sc.Prefixes {
		if sc.Mem {
			stores = append(stores, trie.NewInMemoryKVStore())
			continue
		}
		alts = append(alts, hive_adaptor.NewHiveKVStoreAdaptor(f, append([]byte{}, p...)))
		if sc.Shared {
			stores = append(stores, hive_adaptor.NewHiveKVStoreAdaptor(f, shared[i]))
		} else {
			stores = append(stores, hive_adaptor.NewHiveKVStoreAdaptor(f, append([]byte{}, p...)))
		}
	}
	for range sc.Prefixes {
		models = append(models, map[string]string{})
	}
	nHit, nDel := 0, 0
	for i, op := range sc.Ops {
		s, m := stores[op.P], models[op.P]
		if op.Alt {
			s = alts[op.P]
		}
		if op.Op == "many" {
			for _, kv := range op.many() {
				s.Set(kv.K, kv.V)
				if len(kv.V) == 0 {
					delete(m, string(kv.K))
				} else {
					m[string(kv.K)] = string(kv.V)
				}
			}
			st.Label("many pairs")
			continue
		}
		if op.Op == "big" {
			v := bytes.Repeat([]byte{byte(op.N), byte(i), 1}, op.N/3+1)[:op.N]
			s.Set(append([]byte{}, op.K...), v)
			m[string(op.K)] = string(v)
			if g := s.Get(append([]byte{}, op.K...)); !bytes.Equal(g, v) {
				return errf("operation %d: key %x of partition %x was set to a value of %d bytes, but another one of %d bytes is read", i, []byte(op.K), []byte(sc.Prefixes[op.P]), op.N, len(g))
			}
			st.Label("big value")
			continue
		}
		what := fmt.Sprintf("operation %d: %s of key %x in partition %x", i, op.Op, []byte(op.K), []byte(sc.Prefixes[op.P]))
		f.ctl.fired = false
		f.ctl.failIn = -1
		if op.Fail {
			f.ctl.failIn = 0
		}
		old, had := m[string(op.K)]
		var result error
		pan := func() (p interface{}) {
			defer func() { p = recover() }()
			k, v := append([]byte{}, op.K...), append([]byte{}, op.V...)
			if sc.Shared {
				k, v = shared[len(sc.Prefixes)+2*i], shared[len(sc.Prefixes)+2*i+1]
			}
			switch op.Op {
			case "set":
				s.Set(k, v)
			case "get":
				v := s.Get(k)
				if had && string(v) != old {
					result = errf("%s: %x, expected %x", what, v, old)
				} else if !had && v != nil {
					result = errf("%s: %x, but the key is absent", what, v)
				}
			case "has":
				if s.Has(k) != had {
					result = errf("%s: %v, expected %v", what, !had, had)
				}
			case "iterate":
				seen := map[string]string{}
				n := 0
				s.Iterate(func(k, v []byte) bool {
					n++
					if _, twice := seen[string(k)]; twice && result == nil {
						result = errf("%s: key %x is visited twice", what, k)
					}
					if w, ok := m[string(k)]; (!ok || w != string(v)) && result == nil {
						result = errf("%s: pair %x=%x is visited, contents %s", what, k, v, dumpMap(m))
					}
					seen[string(k)] = string(v)
					return op.N < 0 || n <= op.N
				})
				want := len(m)
				if op.N >= 0 && want > op.N+1 {
					want = op.N + 1
				}
				if n != want && result == nil {
					result = errf("%s (stop after %d): %d pairs visited of %d", what, op.N+1, n, len(m))
				}
			}
			return nil
		}()
		if f.ctl.fired {
			st.Label("faults:" + op.Op)
			if pan == nil {
				return errf("%s: the underlying store failed, but the operation shows nothing of it", what)
			}
			if result != nil && op.Op != "iterate" {
				return result
			}
		} else {
			if pan != nil {
				return errf("%s: panic: %v", what, pan)
			}
			if result != nil {
				return result
			}
			if op.Op == "set" {
				if len(op.V) == 0 {
					if had {
						nDel++
					}
					delete(m, string(op.K))
				} else {
					m[string(op.K)] = string(op.V)
				}
			} else if had {
				nHit++
			}
		}
		f.ctl.failIn = -1
		if !sc.Mem { // what the others see
			all := f.contents()
			rest := copyMap(all)
			for j, p := range sc.Prefixes {
				if x := part(all, p); !sameMap(x, models[j]) {
					return errf("%s: partition %x has %s, expected %s", what, []byte(p), dumpMap(x), dumpMap(models[j]))
				}
				for k := range all {
					if bytes.HasPrefix([]byte(k), p) {
						delete(rest, k)
					}
				}
			}
			if !sameMap(rest, foreign) {
				return errf("%s: outside of the partitions: %s, expected %s", what, dumpMap(rest), dumpMap(foreign))
			}
		}
	}
	for j, s := range stores {
		got := map[string]string{}
		s.Iterate(func(k, v []byte) bool { got[string(k)] = string(v); return true })
		if !sameMap(got, models[j]) {
			return errf("partition %x at the end: %s, expected %s", []byte(sc.Prefixes[j]), dumpMap(got), dumpMap(models[j]))
		}
		for _, k := range probeKeys(models[j], sc.Prefixes...) {
			v, ok := models[j][string(k)]
			if s.Has(k) != ok || string(s.Get(k)) != v || (!ok && s.Get(k) != nil) {
				return errf("partition %x at the end: key %x: has %v, get %x, expected %v %x", []byte(sc.Prefixes[j]), k, s.Has(k), s.Get(k), ok, v)
			}
		}
	}
	if _, has := models[0]["\x11\x00\xee"]; !sc.Mem && !has { // an empty value, which somebody else has written, is no value
		k := B{0x11, 0, 0xee}
		must(f.KVStore.Set(append(append([]byte{}, sc.Prefixes[0]...), k...), []byte{}))
		n := 0
		stores[0].Iterate(func(k, v []byte) bool {
			if len(v) > 0 {
				n++
			}
			return true
		})
		if n != len(models[0]) {
			return errf("with a pair with empty value in the underlying store %d of %d pairs are visited", n, len(models[0]))
		}
		if stores[0].Has(k) || stores[0].Get(k) != nil {
			return errf("a pair with empty value in the underlying store: has %v, get %x", stores[0].Has(k), stores[0].Get(k))
		}
	}
	if sc.Shared {
		st.Label("arguments in one array")
	}
	if sc.Mem {
		st.Label("store:in-memory")
	} else {
		st.Label(fmt.Sprintf("store:hive, partitions: %d", len(sc.Prefixes)))
	}
	st.NonTrivial(nHit > 0 && nDel > 0)
	return nil
}

func init() {
	register("C20", checkOpt{Quick: 150000, Thor: 5000000,
		Rule:   "cases are histories of up to 30 sets, removals, reads and (stopped) iterations over the in-memory store or over 1..4 partitions of one hive.go store (each used through two adaptors) on prefixes none of which is a prefix of another, with foreign keys next to them and keys which look like a neighbour's, compared operation by operation with maps, the whole underlying store after each; the underlying operation of about 6% of them fails and must not pass unnoticed. Non-trivial: a present key was read and one removed.",
		Assume: []string{"an error of the underlying store is shown by a panic, as the KVStore interface has no errors"},
	}, gStoreCase, runC20)
}
