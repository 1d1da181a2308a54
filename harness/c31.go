package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/iotaledger/hive.go/core/kvstore/badger"
)

// C31: the program trie_bench, run in a directory of its own

// BenchCase is a file and what is made from it
type BenchCase struct {
	Cfg    Cfg    `json:"cfg"`
	Pairs  []KV   `json:"pairs"`
	Many   int    `json:"many,omitempty"`  // so many more records of a few keys
	Cmd    string `json:"cmd"`             // db, notrie, gen
	Fault  string `json:"fault,omitempty"` // cut, nofile, args
	Alter  string `json:"alter,omitempty"` // value, extra, notrie: the database is changed before it is scanned
	N      int    `json:"n,omitempty"`     // gen
	MaxK   int    `json:"maxk,omitempty"`
	MaxV   int    `json:"maxv,omitempty"`
	Hashkv bool   `json:"hashkv,omitempty"`
}

func gBenchCase(s *Src) BenchCase {
	bc := BenchCase{Cfg: gcfg(s, 0), Cmd: pick(s, []string{"db", "db", "db", "notrie", "gen"})}
	if bc.Cmd == "gen" {
		bc.N, bc.MaxK, bc.MaxV, bc.Hashkv = s.Range(1, 60), s.Range(1, 300), s.Range(1, 300), s.Pct(30)
		if s.Pct(10) {
			bc.N = s.Range(1000, 30000)
		}
		return bc
	}
	pool := keyPool(s, 2, 10)
	for n := s.N(25); n > 0; n-- {
		kv := KV{K: pick(s, pool)}
		if s.Pct(85) {
			kv.V = gValue(s, bc.Cfg, kv.K)
		}
		bc.Pairs = append(bc.Pairs, kv)
	}
	if s.Pct(10) {
		bc.Many = s.Range(1, 5000)
	}
	if bc.Cmd == "notrie" && s.Pct(10) {
		bc.Many = pick(s, []int{9999, 10000, 10001, 20000, 25000})
	}
	if s.Pct(12) {
		bc.Fault = pick(s, []string{"cut", "nofile", "args"})
	} else if s.Pct(50) {
		bc.Alter = pick(s, []string{"value", "extra", "value", "extra", "notrie"})
	}
	return bc
}

// records are what is in the file
func (bc *BenchCase) records() []KV {
	var out []KV
	for i := 0; i < bc.Many; i++ {
		out = append(out, KV{B{byte(i % 7), byte(i % 3)}, B{byte(i), byte(i>>8) | 1}})
	}
	for _, kv := range bc.Pairs {
		if bc.Cmd == "notrie" && (len(kv.K) == 0 || len(kv.V) == 0) {
			continue // such pairs are up to the database
		}
		out = append(out, kv)
	}
	return out
}

type benchResult struct {
	code  int
	out   string
	crash error
}

var (
	rootLine  = regexp.MustCompile(`(?im)root commitment: *([0-9a-f]*)`)
	countLine = regexp.MustCompile(`(?im)(?:commited|committed|total|pairs:) +(\d+)`)
)

func (bc *BenchCase) tool(dir string, args ...string) (*benchResult, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	c := bc.Cfg
	all := []string{fmt.Sprintf("-blake2b=%d", c.Hash), fmt.Sprintf("-arity=%d", c.Arity), fmt.Sprintf("-valuethr=%d", c.Thr), fmt.Sprintf("-optkey=%v", c.Opt)}
	cmd := exec.CommandContext(ctx, os.Getenv("TRIE_BENCH_PROGRAM"), append(all, args...)...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	r := &benchResult{out: string(out)}
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		return nil, errf("%v does not end: %s", args, clip(r.out, 300))
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
		if bytes.Contains(out, []byte("goroutine ")) {
			r.crash = errf("%s: %v crashes: %s", bc.Cfg, args, clip(r.out, 600))
		}
	case err != nil:
		must(err)
	}
	return r, nil
}

// crashed tells if the program has crashed with the message
func (r *benchResult) crashed(with string) bool {
	return r.crash != nil && strings.Contains(r.out, with)
}

const divZero = "integer divide by zero"

// rootNeedsValue tells if the node at the root commits to a value which is not stored with it
func (bc *BenchCase) rootNeedsValue(m map[string]string) bool {
	t := refTree(bc.Cfg, m)
	return t != nil && t.data != nil && len(t.data) <= bc.Cfg.Thr
}

func (r *benchResult) root() (string, bool) {
	m := rootLine.FindAllStringSubmatch(r.out, -1)
	if len(m) == 0 {
		return "", false
	}
	return m[len(m)-1][1], true
}

// badgerContents is everything in the database; change may write to it
func badgerContents(dir string, change func(set func(k, v []byte))) (map[string]string, error) {
	db, err := badger.CreateDB(dir)
	if err != nil {
		return nil, err
	}
	defer db.Close()
	kvs := badger.New(db)
	m := map[string]string{}
	if change != nil {
		change(func(k, v []byte) {
			if v == nil {
				must(kvs.Delete(k))
			} else {
				must(kvs.Set(k, v))
			}
		})
	}
	err = kvs.Iterate(nil, func(k, v []byte) bool { m[string(k)] = string(v); return true })
	return m, err
}

func runC31(bc *BenchCase, st *Stats) error {
	if os.Getenv("TRIE_BENCH_PROGRAM") == "" {
		return errf("TRIE_BENCH_PROGRAM is not set")
	}
	c := bc.Cfg
	dir, err := os.MkdirTemp("", "verif-c31-")
	must(err)
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "a.bin")
	st.Label("cmd:" + bc.Cmd)
	if bc.Cmd == "gen" {
		st.NonTrivial(bc.N > 1)
		args := []string{fmt.Sprintf("-n=%d", bc.N), fmt.Sprintf("-maxkey=%d", bc.MaxK), fmt.Sprintf("-maxvalue=%d", bc.MaxV), fmt.Sprintf("-hashkv=%v", bc.Hashkv), "gen", "a"}
		r, err := bc.tool(dir, args...)
		if err != nil {
			return err
		}
		if r.code != 0 || r.crash != nil {
			return errf("gen fails: %s", clip(r.out, 300))
		}
		data, err := os.ReadFile(file)
		if err != nil {
			return errf("gen: %v", err)
		}
		kvs, rest := refRecords(data)
		if len(kvs) != bc.N || !rest {
			return errf("gen: %d complete records (nothing left: %v), expected %d", len(kvs), rest, bc.N)
		}
		for i, kv := range kvs {
			switch {
			case bc.Hashkv && (len(kv.K) != 32 || len(kv.V) != 32):
				return errf("gen -hashkv: record %d has a key of %d and a value of %d bytes", i, len(kv.K), len(kv.V))
			case !bc.Hashkv && (len(kv.K) < 1 || len(kv.K) > bc.MaxK || len(kv.V) < 1 || len(kv.V) > bc.MaxV):
				return errf("gen: record %d has a key of %d and a value of %d bytes, at most %d and %d are allowed", i, len(kv.K), len(kv.V), bc.MaxK, bc.MaxV)
			}
		}
		return r.countMade(bc.N, "gen", st)
	}
	recs := bc.records()
	var data []byte
	m := map[string]string{}
	for _, kv := range recs {
		data = append(data, refRecord(kv)...)
		if len(kv.V) == 0 {
			delete(m, string(kv.K))
		} else {
			m[string(kv.K)] = string(kv.V)
		}
	}
	if bc.Fault == "cut" {
		if len(recs) == 0 {
			return nil
		}
		last := len(refRecord(recs[len(recs)-1]))
		data = data[:len(data)-1-(bc.Many+len(recs))%(last-1)]
	}
	if bc.Fault != "nofile" {
		must(os.WriteFile(file, data, 0600))
	}
	make := map[string][]string{"db": {"mkdbmem", "mkdbbadger"}, "notrie": {"mkdbbadgernotrie"}}[bc.Cmd]
	dbdir := filepath.Join(dir, fmt.Sprintf("a.%d.%d.%d.dbdir", c.Hash, c.Arity, c.Thr))
	if bc.Cmd == "notrie" {
		dbdir += ".notrie"
	}
	if bc.Fault != "" {
		st.NonTrivial(true)
		st.Label("fault:" + bc.Fault)
		for _, cmd := range make {
			args := []string{cmd, "a"}
			if bc.Fault == "args" {
				args = args[:1]
			}
			r, err := bc.tool(dir, args...)
			if err != nil {
				return err
			}
			if r.crash != nil {
				return r.crash
			}
			if r.code == 0 {
				return errf("%s: %s ends without an error (fault %s): %s", c, cmd, bc.Fault, clip(r.out, 300))
			}
			if x, ok := r.root(); ok {
				return errf("%s: %s gives root %s (fault %s)", c, cmd, x, bc.Fault)
			}
		}
		return nil
	}
	st.NonTrivial(len(m) >= 2)
	if bc.Many > 0 {
		st.Label("many records")
	}
	want := hex.EncodeToString(refRoot(c, m))
	stop := false
	for _, cmd := range make {
		r, err := bc.tool(dir, cmd, "a")
		if err != nil {
			return err
		}
		switch {
		case cmd != "mkdbbadgernotrie" && len(recs) >= 100000 && r.crashed(divZero):
			st.Known("C31-rate")
			stop = true
			continue
		case cmd != "mkdbbadgernotrie" && bc.rootNeedsValue(m) && r.crashed("value store not provided"):
			st.Known("C31-rootvalue")
			stop = true
			continue
		case r.crash != nil:
			return r.crash
		case r.code != 0:
			return errf("%s: %s fails for the records of %s: %s", c, cmd, dumpMap(m), clip(r.out, 400))
		}
		if cmd == "mkdbbadgernotrie" {
			break
		}
		if root, ok := r.root(); !ok || root != want {
			return errf("%s: %s shows root %q of %s, expected %q", c, cmd, root, dumpMap(m), want)
		}
		if err := r.countMade(len(recs), cmd, st); err != nil {
			return err
		}
	}
	if stop { // the program has crashed: what is in the database is not known
		return nil
	}
	check := func(where string) (map[string]string, error) {
		all, err := badgerContents(dbdir, nil)
		if err != nil {
			return nil, errf("%s: %s the database can't be read: %v", c, where, err)
		}
		if bc.Cmd == "notrie" {
			if full := len(recs) / 10000 * 10000; full != len(recs) && len(m) > 0 && !sameMap(all, m) {
				m1 := map[string]string{}
				for _, kv := range recs[:full] {
					m1[string(kv.K)] = string(kv.V)
				}
				if sameMap(all, m1) {
					st.Known("C31-lastbatch")
					return all, nil
				}
			}
			if !sameMap(all, m) {
				return nil, errf("%s: %s the database has (first) other pairs than the file:%s", c, where, diffMap(all, m))
			}
			return all, nil
		}
		if vals := part(all, []byte{2}); !sameMap(vals, m) {
			return nil, errf("%s: %s values in the database and of the file:%s", c, where, diffMap(vals, m))
		}
		if nodes, want := part(all, []byte{1}), freshStore(c, m); !sameMap(nodes, want) {
			return nil, errf("%s: %s nodes in the database and of the trie of %s:%s", c, where, dumpMap(m), diffMap(nodes, want))
		}
		if n := len(part(all, []byte{1})) + len(m); n != len(all) {
			return nil, errf("%s: %s the database has %d pairs, expected %d", c, where, len(all), n)
		}
		return all, nil
	}
	if _, err := check("after it was made"); err != nil {
		return err
	}
	// a database which is there is not touched
	r, err := bc.tool(dir, make[len(make)-1], "a")
	if err != nil {
		return err
	}
	if r.crash != nil {
		return r.crash
	}
	if r.code == 0 {
		return errf("%s: making the database again ends without an error", c)
	}
	all, err := check("after it was made again")
	if err != nil || bc.Cmd == "notrie" {
		return err
	}
	if r, err = bc.tool(dir, "scandbbadger", "a"); err != nil {
		return err
	}
	root, ok := r.root()
	if len(m) == 0 && r.crashed(divZero) {
		st.Known("C31-empty")
		return nil
	}
	if r.crash != nil {
		return r.crash
	}
	if c.Opt && r.code != 0 && root == want && strings.Contains(r.out, "terminal commitment and terminal proof are not equal") {
		for k, v := range m {
			if k == v && !bytes.Equal(refData(c, k, v), []byte(v)) {
				st.Known("C31-optkey")
				return nil
			}
		}
	}
	if r.code != 0 || (len(m) > 0 && (!ok || root != want)) || (ok && root != want) {
		return errf("%s: the scan of a database of %s: exit %d, root %q, expected %q: %s", c, dumpMap(m), r.code, root, want, clip(r.out, 500))
	}
	if err := r.count(len(m), "scan"); err != nil {
		return err
	}
	if _, err := check("after the scan"); err != nil {
		return err
	}
	// a database which is not what it should be
	if bc.Alter == "" || len(m) == 0 {
		return nil
	}
	keys := sortedKeys(m)
	extra := ""
	k := keys[bc.MaxK%len(keys)]
	if len(bc.Pairs) > 0 {
		if x := string(bc.Pairs[len(bc.Pairs)/2].K); m[x] != "" {
			k = x
		}
	}
	if _, err = badgerContents(dbdir, func(set func(k, v []byte)) {
		switch bc.Alter {
		case "value":
			v := []byte(m[k])
			v[0] ^= 0x80
			set([]byte("\x02"+k), v)
		case "extra":
			x := k + "\x00"
			for m[x] != "" {
				x += "\x01"
			}
			set([]byte("\x02"+x), []byte(m[k]))
			extra = x
		case "notrie":
			for x := range all {
				if x[0] == 1 {
					set([]byte(x), nil)
				}
			}
		}
	}); err != nil {
		return errf("%s: %v", c, err)
	}
	st.Label("altered:" + bc.Alter)
	if r, err = bc.tool(dir, "scandbbadger", "a"); err != nil {
		return err
	}
	if bc.Alter == "notrie" && r.crashed(divZero) {
		st.Known("C31-notrie")
		return nil
	}
	if r.crash != nil {
		return r.crash
	}
	if bc.Alter == "extra" && r.code == 0 {
		// is there the same value at the end of the path to the key?
		if _, _, last := refPath(refTree(c, m), refUnpack([]byte(extra), c.Arity)); last != nil && last.data != nil &&
			bytes.Equal(refSlot(last.data, c.Hash), refSlot([]byte(m[k]), c.Hash)) {
			st.Known("C31-absence")
			return nil
		}
	}
	// a short value in the root node is not stored there: a change of it can only be seen in the root
	if root, _ := r.root(); r.code == 0 && (bc.Alter != "value" || root == want) {
		return errf("%s: the scan of a database of %s, altered (%s) near key %x, finds nothing wrong: %s", c, dumpMap(m), bc.Alter, k, clip(r.out, 300))
	}
	return nil
}

// countMade is count for what tells one record more (known finding)
func (r *benchResult) countMade(n int, what string, st *Stats) error {
	err := r.count(n, what)
	if err != nil && r.count(n+1, what) == nil {
		st.Known("C31-count")
		return nil
	}
	return err
}

// count compares the number of records which the program tells, if it does
func (r *benchResult) count(n int, what string) error {
	if m := countLine.FindAllStringSubmatch(r.out, -1); len(m) > 0 {
		if x, err := strconv.Atoi(m[len(m)-1][1]); err != nil || x != n {
			return errf("%s tells %s records, there are %d: %s", what, m[len(m)-1][1], n, clip(r.out, 400))
		}
	}
	return nil
}

func init() {
	register("C31", checkOpt{Quick: 900, Thor: 20000,
		Rule:   "cases are runs of the program trie_bench in a directory of its own on files with up to 25 records (repeated keys, empty keys, deletions; now and then thousands more), for every hash size, arity, threshold and key commitment option: mkdbmem and mkdbbadger must show the root of the reference definition, the badger database must hold exactly the last values and the nodes of a freshly built trie, a database which is there must not be touched, the scan must find it right with the same root, and must not when a value was altered or added or the trie is missing; mkdbbadgernotrie must store all pairs, gen exactly the requested records within their bounds; cut or missing files and missing arguments must end with an error. Non-trivial: at least two pairs, or a fault.",
		Assume: []string{"the badger database keeps what was committed; power failures are not simulated"}},
		gBenchCase, runC31,
		BenchCase{Cfg: Cfg{Arity: 16, Hash: 20}, Cmd: "db", Many: 99999, Alter: "extra"},
		BenchCase{Cfg: Cfg{Arity: 16, Hash: 20}, Cmd: "db", Many: 200001},
		BenchCase{Cfg: Cfg{Arity: 16, Hash: 20, Thr: 20}, Cmd: "db", Pairs: []KV{{B{1}, B{2}}}},
		BenchCase{Cfg: Cfg{Arity: 16, Hash: 20}, Cmd: "db", Pairs: []KV{{B{1}, B{2}}}, Alter: "notrie"},
		BenchCase{Cfg: Cfg{Arity: 16, Hash: 20}, Cmd: "db", Pairs: []KV{{B{1}, B{2}}}, Alter: "extra"},
		BenchCase{Cfg: Cfg{Arity: 2, Hash: 32}, Cmd: "notrie", Many: 20000, Pairs: []KV{{B{1}, B{2}}}},
		BenchCase{Cfg: Cfg{Arity: 16, Hash: 20, Opt: true, Thr: 20}, Cmd: "db", Pairs: []KV{{B{0x12}, B{0x12}}}, Alter: "extra"},
		BenchCase{Cfg: Cfg{Arity: 256, Hash: 20}, Cmd: "db"})
}
