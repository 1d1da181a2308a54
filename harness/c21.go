package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

// C21

// BatchCase is a history of updates in batches. Every fault is tried at every commit of it
type BatchCase struct {
	Cfg     Cfg    `json:"cfg"`
	TP      B      `json:"tp"`               // prefix of the trie
	VP      B      `json:"vp"`               // prefix of the values
	Shared  bool   `json:"shared,omitempty"` // the prefixes are parts of one array
	Foreign []KV   `json:"foreign,omitempty"`
	Batches [][]KV `json:"batches"`        // empty value deletes
	Reopen  []bool `json:"reopen"`         // before the batch
	Many    []B    `json:"many,omitempty"` // for each batch as many updates as there are with bulkOps
	Extra   []KV   `json:"extra"`          // what is updated between the failure and the next commit
}

func gBatchCase(s *Src) BatchCase {
	c := gcfg(s, 0)
	if s.Pct(1) {
		c = Cfg{Kzg: true, Arity: 256, Opt: c.Opt}
	}
	ps := antichain(s, 2, 3)
	bc := BatchCase{Cfg: c, TP: ps[0], VP: ps[1], Shared: s.Pct(40)}
	if len(ps) > 2 {
		bc.Foreign = []KV{{ps[2], B{1}}}
	}
	pool := keyPool(s, 2, 8)
	var have []B
	up := func() KV {
		k := pick(s, pool)
		if len(have) > 0 && s.Pct(40) {
			k = pick(s, have)
		}
		if s.Pct(35) {
			return KV{K: k}
		}
		have = append(have, k)
		return KV{k, gValue(s, c, k)}
	}
	nb := s.Range(1, 4)
	if c.Kzg {
		nb = s.Range(1, 2)
	}
	for i := 0; i < nb; i++ {
		var b []KV
		n := s.N(6)
		if i == 0 {
			n++
		}
		for ; n > 0; n-- {
			b = append(b, up())
		}
		bc.Batches = append(bc.Batches, b)
		bc.Reopen = append(bc.Reopen, s.Pct(30))
	}
	if !c.Kzg && s.N(1000) >= 996 { // hundreds of updates in a batch
		for range bc.Batches {
			bc.Many = append(bc.Many, B{s.Byte(), s.Byte(), byte(s.N(32))})
		}
	}
	for i := s.Range(1, 3); i > 0; i-- {
		bc.Extra = append(bc.Extra, up())
	}
	return bc
}

// faults at the commit of a batch, or at its first update
var batchFaults = []struct {
	kind    string
	times   int  // the fault comes so many times in a row
	applied bool // the batch has been applied nevertheless
	recover string
}{
	{"none", 0, true, ""},
	{"commit", 1, false, "retry"},
	{"commit", 2, false, "retry"},
	{"commit", 1, false, "extend"},
	{"commit", 2, false, "extend"},
	{"commit", 1, false, "reopen"},
	{"flush", 1, true, "retry"},
	{"flush", 2, true, "retry"},
	{"flush", 1, true, "extend"},
	{"flush", 1, true, "reopen"},
	{"crash", 1, false, "reopen"}, // before the commit
	{"crash", 1, true, "reopen"},  // after the commit
	{"batched", 1, false, "retry"},
	{"batched", 2, false, "retry"},
	{"batched", 1, false, "reopen"},
}

type batchRun struct {
	bc      *BatchCase
	c       Cfg
	model   trie.CommitmentModel
	f       *faultKV
	u       *hive_adaptor.HiveBatchedUpdater
	durable map[string]string // values which must be in the store
	pending map[string]string // with the updates since
	foreign map[string]string
	what    string
}

func (r *batchRun) open() error {
	tp, vp := twoCopies(r.bc.Shared, r.bc.TP, r.bc.VP)
	u, err := hive_adaptor.NewHiveBatchedUpdater(r.f, r.model, tp, vp, r.c.Opt)
	if err != nil {
		return errf("%s: opening: %v", r.what, err)
	}
	r.u = u
	r.pending = copyMap(r.durable)
	return nil
}

// check compares the store with what it must have. Deep also checks what the persisted trie shows
func (r *batchRun) check(where string, deep bool) error {
	all := r.f.contents()
	vals, nodes := part(all, r.bc.VP), part(all, r.bc.TP)
	if !sameMap(vals, r.durable) {
		return errf("%s: %s: values in the store: %s\nexpected: %s", r.what, where, dumpMap(vals), dumpMap(r.durable))
	}
	if len(all) != len(vals)+len(nodes)+len(r.foreign) {
		return errf("%s: %s: there are pairs outside of the partitions: %s", r.what, where, dumpMap(all))
	}
	for k, v := range r.foreign {
		if all[k] != v {
			return errf("%s: %s: foreign key %x has %x", r.what, where, k, all[k])
		}
	}
	if want := freshStore(r.c, r.durable); !sameMap(nodes, want) {
		return errf("%s: %s: nodes in the store / of the trie of the values %s:%s", r.what, where, dumpMap(r.durable), diffMap(nodes, want))
	}
	if deep {
		rd := trie.NewTrieReader(r.model, hive_adaptor.NewHiveKVStoreAdaptor(r.f, r.bc.TP), hive_adaptor.NewHiveKVStoreAdaptor(r.f, r.bc.VP))
		if got, want := rootOf(rd), refRoot(r.c, r.durable); !bytes.Equal(got, want) {
			return errf("%s: %s: the stored trie has root %x, the values %s have %x", r.what, where, got, dumpMap(r.durable), want)
		}
		probes := probeKeys(r.durable)
		if len(probes) > 12 {
			probes = probes[:12]
		}
		if err := checkLookups(r.c, rd, r.durable, probes, r.what+": "+where); err != nil {
			return err
		}
	}
	return nil
}

// update gives what the updater panics with
func (r *batchRun) update(kv KV) (p interface{}) {
	defer func() { p = recover() }()
	r.u.Update(append([]byte{}, kv.K...), append([]byte{}, kv.V...))
	return nil
}

func (r *batchRun) applyUpdates(kvs []KV) error {
	for _, kv := range kvs {
		if p := r.update(kv); p != nil {
			return errf("%s: update of key %x: panic: %v", r.what, []byte(kv.K), p)
		}
		if len(kv.V) == 0 {
			delete(r.pending, string(kv.K))
		} else {
			r.pending[string(kv.K)] = string(kv.V)
		}
	}
	return nil
}

// unseen: the store is as it was
func (r *batchRun) unseen(before map[string]string, where string) error {
	if now := r.f.contents(); !sameMap(before, now) {
		return errf("%s: %s the store has changed without a commit:%s", r.what, where, diffMap(before, now))
	}
	return nil
}

// commit must give an error exactly if wantErr
func (r *batchRun) commit(wantErr, dirty bool, where string) error {
	var err error
	before := *r.f.ctl
	p := func() (p interface{}) {
		defer func() { p = recover() }()
		err = r.u.Commit()
		return nil
	}()
	if p != nil {
		return errf("%s: %s: panic: %v", r.what, where, p)
	}
	if (err != nil) != wantErr {
		return errf("%s: %s: error is %v, the store failed: %v", r.what, where, err, wantErr)
	}
	ctl := r.f.ctl
	if ctl.sets != before.sets {
		return errf("%s: %s: %d writes past the batch", r.what, where, ctl.sets-before.sets)
	}
	if !wantErr && dirty {
		if n := ctl.commits - before.commits; n != 1 {
			return errf("%s: %s: changes were applied in %d batches", r.what, where, n)
		}
	}
	return nil
}

// run runs the history with the fault at batch number at
func (bc *BatchCase) run(at, fi int, st *Stats) (bool, error) {
	ft := batchFaults[fi]
	r := &batchRun{bc: bc, c: bc.Cfg, model: bc.Cfg.model(), f: newFaultKV(), durable: map[string]string{}, foreign: kvMap(bc.Foreign)}
	r.what = fmt.Sprintf("%s, %s fails %d times at batch %d, then %s", bc.Cfg, ft.kind, ft.times, at, ft.recover)
	for k, v := range r.foreign {
		must(r.f.KVStore.Set([]byte(k), []byte(v)))
	}
	if err := r.open(); err != nil {
		return false, err
	}
	hit := false
	for i, b := range bc.Batches {
		if bc.Reopen[i] {
			if err := r.open(); err != nil {
				return false, err
			}
		}
		dirty := len(b) > 0
		before := r.f.contents()
		if i == at && ft.kind == "batched" && dirty {
			hit = true
			for t := 0; t < ft.times; t++ {
				r.f.ctl.failIn, r.f.ctl.failKind, r.f.ctl.fired = 0, "batched", false
				p := r.update(b[0])
				if !r.f.ctl.fired { // a batch is not created at the first update: nothing to be seen
					r.f.ctl.failIn = -1
					hit = false
					break
				}
				if p == nil {
					return hit, errf("%s: no batch can be created, but the update shows nothing of it", r.what)
				}
			}
			r.f.ctl.failIn = -1
			if err := r.unseen(before, "after the failed update"); err != nil {
				return hit, err
			}
			if ft.recover == "reopen" {
				if err := r.open(); err != nil {
					return hit, err
				}
			}
		}
		if err := r.applyUpdates(b); err != nil {
			return hit, err
		}
		if err := r.unseen(before, "after the updates"); err != nil {
			return hit, err
		}
		fault := i == at && dirty && (ft.kind == "commit" || ft.kind == "flush")
		if i == at && dirty && ft.kind == "crash" {
			hit = true
			if ft.applied {
				if err := r.commit(false, true, "commit before the crash"); err != nil {
					return hit, err
				}
				r.durable = copyMap(r.pending)
			}
			if err := r.open(); err != nil {
				return hit, err
			}
			if err := r.check("after the crash", true); err != nil {
				return hit, err
			}
			continue
		}
		lost := false
		if fault {
			hit = true
			for t := 0; t < ft.times; t++ {
				r.f.ctl.failIn, r.f.ctl.failKind, r.f.ctl.fired = 0, ft.kind, false
				if err := r.commit(true, true, "the failing commit"); err != nil {
					return hit, err
				}
				r.f.ctl.failIn = -1
				if !r.f.ctl.fired {
					return hit, errf("%s: the commit never came to the %s of the store", r.what, ft.kind)
				}
				if ft.applied {
					r.durable = copyMap(r.pending)
				}
				if err := r.check("after the failed commit", t == 0); err != nil {
					return hit, err
				}
				if ft.recover == "extend" {
					before := r.f.contents()
					if err := r.applyUpdates(bc.Extra); err != nil {
						return hit, err
					}
					if err := r.unseen(before, "after more updates"); err != nil {
						return hit, err
					}
				}
			}
			if ft.recover == "reopen" {
				if err := r.open(); err != nil {
					return hit, err
				}
				lost = true
			}
		}
		if !lost {
			if err := r.commit(false, dirty, "commit"); err != nil {
				return hit, err
			}
			r.durable = copyMap(r.pending)
		}
		if err := r.check("after the commit", i == at || i == len(bc.Batches)-1); err != nil {
			return hit, err
		}
	}
	// once more, with everything fine
	if err := r.applyUpdates(bc.Extra); err != nil {
		return hit, err
	}
	if err := r.commit(false, len(bc.Extra) > 0, "the last commit"); err != nil {
		return hit, err
	}
	r.durable = copyMap(r.pending)
	if err := r.check("at the end", true); err != nil {
		return hit, err
	}
	if err := r.commit(false, false, "a commit of nothing"); err != nil {
		return hit, err
	}
	return hit, r.check("after a commit of nothing", false)
}

func runC21(bc *BatchCase, st *Stats) error {
	st.Label("cfg:" + bc.Cfg.label())
	dirty := 0
	if bc.Many != nil {
		st.Label("hundreds of updates in a batch")
		x := *bc
		x.Batches = nil
		for i, b := range bc.Batches {
			b = append([]KV{}, b...)
			for _, o := range bulkOps(Op{K: bc.Many[i]}) {
				b = append(b, KV{o.K, o.V})
			}
			x.Batches = append(x.Batches, b)
		}
		bc = &x
	}
	for at := range bc.Batches {
		if len(bc.Batches[at]) > 0 {
			dirty++
		}
		for fi, ft := range batchFaults {
			if ft.kind == "none" && at > 0 {
				continue
			}
			if bc.Many != nil && (at != len(bc.Batches)-1 || ft.times > 1 || ft.recover == "reopen" && ft.kind != "crash") && ft.kind != "none" {
				continue // too slow
			}
			hit, err := bc.run(at, fi, st)
			if err != nil {
				return err
			}
			if hit {
				st.Label(fmt.Sprintf("fault:%s x%d, %s", ft.kind, ft.times, ft.recover))
			}
		}
	}
	nDel := 0
	for _, b := range bc.Batches {
		for _, kv := range b {
			if len(kv.V) == 0 {
				nDel++
			}
		}
	}
	st.NonTrivial(dirty >= 2 && nDel > 0)
	return nil
}

var _ kvstore.KVStore = &faultKV{}

func init() {
	register("C21", checkOpt{Level: "fault_enumeration", Quick: 2400, Thor: 100000,
		Rule:   "cases are histories of 1..4 batches of up to 6 updates and deletions on two partitions of a hive.go in-memory store; for each, every one of 14 fault scenarios (batch creation fails once or twice, batch commit fails once or twice, flush fails once or twice, crash before or after the commit; followed by retry, more updates and retry, or reopening) is run at every batch, plus the run without fault. After every step the store must be unchanged without a commit, and after every commit attempt the values must be those of whole batches, the nodes exactly those of a trie built from these values, applied in one batch; a failed commit must give an error and lose nothing when retried. Non-trivial: at least two batches with updates, and a deletion.",
		Assume: []string{"a batch of the underlying store is applied as a whole or not at all", "errors of batch creation are shown by a panic of Update, which has no error result"},
	}, gBatchCase, runC21)
}
