package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"syscall"

	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------- C19

// StreamCase is a sequence of pairs and what happens to the stream of them
type StreamCase struct {
	KVs   []KV `json:"kvs"`
	Big   int  `json:"big,omitempty"` // length of a big value put first
	BigK  int  `json:"bigk,omitempty"`
	Many  int  `json:"many,omitempty"` // so many more pairs
	Chunk int  `json:"chunk,omitempty"`
	Stop  int  `json:"stop"`
	Err   int  `json:"err,omitempty"`  // which error the reader or writer gives
	File  bool `json:"file,omitempty"` // through files, and dumps
	Tail  B    `json:"tail,omitempty"` // raw bytes read as a stream
	Cuts  []int
}

func gStreamCase(s *Src) StreamCase {
	sc := StreamCase{Chunk: s.N(9), Err: s.N(4), File: s.Pct(10)}
	bytesN := func(max int) B {
		n := s.N(max + 1)
		if s.Pct(4) {
			n = pick(s, []int{255, 256, 257, 300, 511, 512, 513, 1024})
		}
		if n > 40 {
			return s.Seeded(n)
		}
		b := make(B, n)
		for i := range b {
			b[i] = pick(s, []byte{0, 1, 2, 6, 0xff, 'a'})
		}
		return b
	}
	for n := s.N(8); n > 0; n-- {
		kv := KV{K: bytesN(6), V: bytesN(8)}
		if s.Pct(15) && len(sc.KVs) > 0 {
			kv = pick(s, sc.KVs)
		}
		sc.KVs = append(sc.KVs, kv)
	}
	if s.Pct(2) {
		sc.Big = pick(s, []int{65535, 65536, 65537, 70000, 200000, 1 << 20})
		sc.BigK = pick(s, []int{0, 1, 255, 256, 32767, 32768, 65535})
	} else if s.Pct(1) {
		sc.BigK = 65536 + s.N(3)
	}
	if s.N(1000) >= 997 {
		sc.Many = s.Range(200, 3000)
	}
	sc.Stop = s.N(len(sc.KVs) + sc.Many + 2)
	if s.Pct(20) {
		sc.Tail = s.Bytes(s.N(16))
	}
	for i := 0; i < 6; i++ {
		sc.Cuts = append(sc.Cuts, s.N(1<<16))
	}
	return sc
}

func streamErr(kind int) error {
	return []error{errors.New("injected"), io.ErrUnexpectedEOF, io.ErrClosedPipe, syscall.EIO}[kind&3]
}

// errReader gives err after the data
type errReader struct {
	r   io.Reader
	err error
}

func (r *errReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	if errors.Is(err, io.EOF) {
		err = r.err
	}
	return n, err
}

// limWriter takes n bytes, then gives err
type limWriter struct {
	buf  bytes.Buffer
	n    int
	err  error
	once bool // one error only, takes everything after
	done bool
}

func (w *limWriter) Write(p []byte) (int, error) {
	if w.once && w.done {
		return w.buf.Write(p)
	}
	if len(p) <= w.n {
		w.n -= len(p)
		return w.buf.Write(p)
	}
	n := w.n
	w.buf.Write(p[:n])
	w.n, w.done = 0, true
	return n, w.err
}

// refRecord is the documented layout of a pair
func refRecord(kv KV) []byte {
	out := binary.LittleEndian.AppendUint16(nil, uint16(len(kv.K)))
	out = append(out, kv.K...)
	out = binary.LittleEndian.AppendUint32(out, uint32(len(kv.V)))
	return append(out, kv.V...)
}

// refRecords parses the layout: complete records, and whether nothing is left
func refRecords(b []byte) (out []KV, clean bool) {
	for len(b) > 0 {
		if len(b) < 2 {
			return out, false
		}
		kl := int(b[0]) + int(b[1])<<8
		if len(b) < 6+kl {
			return out, false
		}
		vl := int(binary.LittleEndian.Uint32(b[2+kl:]))
		if len(b)-6-kl < vl {
			return out, false
		}
		out = append(out, KV{append(B{}, b[2:2+kl]...), append(B{}, b[6+kl:6+kl+vl]...)})
		b = b[6+kl+vl:]
	}
	return out, true
}

func (sc *StreamCase) pairs() []KV {
	kvs := sc.KVs
	if sc.Big > 0 {
		r := newSrc(uint64(sc.Big))
		big := KV{K: bytes.Repeat([]byte{7}, sc.BigK), V: make(B, sc.Big)}
		for i := range big.V {
			big.V[i] = byte(r.next())
		}
		kvs = append([]KV{big}, kvs...)
	}
	if sc.Many > 0 {
		kvs = append([]KV{}, kvs...)
		r := newSrc(uint64(sc.Many))
		for i := 0; i < sc.Many; i++ {
			x := r.next()
			kv := KV{K: B{byte(i >> 8), byte(i), byte(x)}[:3-i%7/6], V: make(B, x>>8%6)}
			for j := range kv.V {
				kv.V[j] = byte(x >> (16 + 8*j))
			}
			kvs = append(kvs, kv)
		}
	}
	return kvs
}

func samePairs(a, b []KV) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("pair %d: %s is too much", i, kvStr(b[i]))
		case i >= len(b):
			return fmt.Sprintf("pair %d: %s is missing", i, kvStr(a[i]))
		case !bytes.Equal(a[i].K, b[i].K) || !bytes.Equal(a[i].V, b[i].V):
			return fmt.Sprintf("pair %d is %s, expected %s", i, kvStr(b[i]), kvStr(a[i]))
		}
	}
	return ""
}

func kvStr(kv KV) string { return clip(fmt.Sprintf("%x=%x", []byte(kv.K), []byte(kv.V)), 100) }

func collect(it trie.KVStreamIterator, stop int) (out []KV, err error) {
	var raw []KV
	err = it.Iterate(func(k, v []byte) bool {
		out = append(out, KV{append(B{}, k...), append(B{}, v...)})
		raw = append(raw, KV{k, v})
		return stop < 0 || len(out) <= stop
	})
	if d := samePairs(out, raw); d != "" && err == nil {
		err = errf("pairs change after they were given: %s", d)
	}
	return
}

func runC19(sc *StreamCase, st *Stats) error {
	kvs := sc.pairs()
	if sc.BigK > 65535 { // a key whose length does not fit: must not be written as something else
		var buf bytes.Buffer
		w := trie.NewBinaryStreamWriter(&buf)
		refused := func() (r bool) {
			defer func() { r = recover() != nil || r }()
			return w.Write(make([]byte, sc.BigK), []byte{1}) != nil
		}()
		if !refused {
			return errf("a key of %d bytes is written", sc.BigK)
		}
		st.Label("too-long-key")
		return nil
	}
	var full []byte
	var bounds []int // ends of the records
	var buf bytes.Buffer
	w := trie.NewBinaryStreamWriter(&buf)
	for i, kv := range kvs {
		full = append(full, refRecord(kv)...)
		bounds = append(bounds, len(full))
		if err := w.Write(append([]byte{}, kv.K...), append([]byte{}, kv.V...)); err != nil {
			return errf("pair %d: %v", i, err)
		}
		if n, b := w.Stats(); n != i+1 || b != len(full) {
			return errf("after %d pairs of %d bytes Stats gives %d, %d", i+1, len(full), n, b)
		}
	}
	if !bytes.Equal(buf.Bytes(), full) {
		return errf("the stream is\n %x, by the layout\n %x", clip(buf.String(), 300), clip(string(full), 300))
	}
	got, err := collect(trie.NewBinaryStreamIterator(chunked(full, sc.Chunk)), -1)
	if err != nil {
		return errf("reading %d pairs back (chunking %d): %v", len(kvs), sc.Chunk, err)
	}
	if d := samePairs(kvs, got); d != "" {
		return errf("reading back (chunking %d): %s", sc.Chunk, d)
	}
	// stopping early, and going on
	it := trie.NewBinaryStreamIterator(chunked(full, sc.Chunk))
	got, err = collect(it, sc.Stop)
	want := kvs
	if sc.Stop < len(kvs) {
		want = kvs[:sc.Stop+1]
	}
	if err != nil {
		return errf("stopping after %d of %d pairs: %v", sc.Stop+1, len(kvs), err)
	}
	if d := samePairs(want, got); d != "" {
		return errf("stopping after %d of %d pairs: %s", sc.Stop+1, len(kvs), d)
	}
	got, err = collect(it, -1)
	if err != nil {
		return errf("iterating on after %d of %d pairs: %v", len(want), len(kvs), err)
	}
	if d := samePairs(kvs[len(want):], got); d != "" {
		return errf("iterating on after %d of %d pairs: %s", len(want), len(kvs), d)
	}
	// every cut, and an error of the reader or writer there
	boundary := map[int]int{0: 0}
	for i, b := range bounds {
		boundary[b] = i + 1
	}
	cuts := map[int]bool{}
	if len(full) <= 160 {
		for n := 0; n <= len(full); n++ {
			cuts[n] = true
		}
	} else {
		for _, b := range append([]int{0}, bounds...) {
			for d := -8; d <= 8; d++ {
				if b+d >= 0 && b+d <= len(full) {
					cuts[b+d] = true
				}
			}
		}
		for _, n := range sc.Cuts {
			cuts[n%(len(full)+1)] = true
		}
	}
	if (sc.Big > 0 || sc.Many > 0) && len(cuts) > 40 { // long data: fewer
		i := 0
		for n := range cuts {
			if i++; i > 40 {
				delete(cuts, n)
			}
		}
	}
	complete := func(n int) int {
		c := 0
		for c < len(bounds) && bounds[c] <= n {
			c++
		}
		return c
	}
	for n := range cuts {
		_, atEnd := boundary[n]
		for _, fault := range []error{nil, streamErr(sc.Err)} {
			var rd io.Reader = chunked(full[:n], sc.Chunk)
			what := fmt.Sprintf("stream of %d pairs cut at byte %d of %d", len(kvs), n, len(full))
			if fault != nil {
				rd = &errReader{rd, fault}
				what += fmt.Sprintf(", where the reader gives '%v'", fault)
			}
			got, err := collect(trie.NewBinaryStreamIterator(rd), -1)
			if (err == nil) != (fault == nil && atEnd) {
				return errf("%s: iteration gives error %v", what, err)
			}
			if d := samePairs(kvs[:complete(n)], got); d != "" {
				return errf("%s: %s", what, d)
			}
		}
		if n < len(full) {
			lw := &limWriter{n: n, err: streamErr(sc.Err)}
			w := trie.NewBinaryStreamWriter(lw)
			failed := -1
			for i, kv := range kvs {
				if err := w.Write(append([]byte{}, kv.K...), append([]byte{}, kv.V...)); err != nil {
					failed = i
					break
				}
			}
			// writing the pair in which the byte is must fail
			if exp := complete(n); failed != exp {
				return errf("writer fails at byte %d of %d, in pair %d: Write reports an error at pair %d", n, len(full), exp, failed)
			}
			if c, _ := w.Stats(); c != complete(n) {
				return errf("writer fails at byte %d of %d: Stats counts %d pairs, %d are written", n, len(full), c, complete(n))
			}
			once := &limWriter{n: n, err: streamErr(sc.Err), once: true}
			w = trie.NewBinaryStreamWriter(once)
			for i, kv := range kvs {
				if err := w.Write(append([]byte{}, kv.K...), append([]byte{}, kv.V...)); (err != nil) != (i == failed) {
					return errf("writer fails once, at byte %d of %d, in pair %d: Write of pair %d gives error %v", n, len(full), failed, i, err)
				}
			}
			if !bytes.Equal(lw.buf.Bytes(), full[:n]) {
				return errf("writer fails at byte %d of %d: what was written before is not the beginning of the stream", n, len(full))
			}
		}
	}
	// anything read as a stream
	if len(sc.Tail) > 0 {
		all := append(append([]byte{}, full...), sc.Tail...)
		want, clean := refRecords(all)
		got, err := collect(trie.NewBinaryStreamIterator(chunked(all, sc.Chunk)), -1)
		if (err == nil) != clean {
			return errf("stream followed by %x: error %v", []byte(sc.Tail), err)
		}
		if d := samePairs(want, got); d != "" {
			return errf("stream followed by %x: %s", []byte(sc.Tail), d)
		}
	}
	if sc.File {
		if err := c19files(sc, kvs, full, bounds); err != nil {
			return err
		}
		st.Label("with:files")
	}
	st.Label(fmt.Sprintf("chunking:%d", sc.Chunk))
	st.LabelN("cuts", len(cuts))
	if sc.Big > 0 {
		st.Label("with:big")
	}
	for _, kv := range kvs {
		if len(kv.K) == 0 || len(kv.V) == 0 {
			st.Label("with:empty key or value")
			break
		}
	}
	st.NonTrivial(len(kvs) >= 2)
	return nil
}

var devFull struct {
	sync.Once
	ok bool
}

type kvList []KV

func (l kvList) Iterate(f func(k, v []byte) bool) {
	for _, kv := range l {
		if !f(append([]byte{}, kv.K...), append([]byte{}, kv.V...)) {
			return
		}
	}
}

func c19files(sc *StreamCase, kvs []KV, full []byte, bounds []int) error {
	dir, err := os.MkdirTemp("", "pbt-c19-")
	must(err)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "stream")
	must(os.WriteFile(fn, bytes.Repeat([]byte{0xee}, 100), 0o600)) // is overwritten
	w, err := trie.CreateKVStreamFile(fn)
	if err != nil {
		return errf("creating a stream file: %v", err)
	}
	for _, kv := range kvs {
		if err := w.Write(append([]byte{}, kv.K...), append([]byte{}, kv.V...)); err != nil {
			return errf("writing to a stream file: %v", err)
		}
	}
	if n, b := w.Stats(); n != len(kvs) || b != len(full) {
		return errf("%d pairs of %d bytes in the stream file: Stats gives %d, %d", len(kvs), len(full), n, b)
	}
	if err := w.Close(); err != nil {
		return errf("closing a stream file: %v", err)
	}
	onDisk, err := os.ReadFile(fn)
	must(err)
	if !bytes.Equal(onDisk, full) {
		return errf("the stream file has\n %x, by the layout\n %x", clip(string(onDisk), 300), clip(string(full), 300))
	}
	readFile := func(fn string) ([]KV, error) {
		it, err := trie.OpenKVStreamFile(fn)
		if err != nil {
			return nil, err
		}
		got, err := collect(it, -1)
		if e := it.Close(); e != nil {
			return nil, errf("closing: %v", e)
		}
		return got, err
	}
	got, err := readFile(fn)
	if err != nil {
		return errf("reading the stream file: %v", err)
	}
	if d := samePairs(kvs, got); d != "" {
		return errf("reading the stream file: %s", d)
	}
	none := filepath.Join(dir, "no", "such")
	if _, err := trie.OpenKVStreamFile(none); err == nil {
		return errf("a stream file which does not exist can be opened")
	}
	if _, err := trie.CreateKVStreamFile(none); err == nil {
		return errf("a stream file in a directory which does not exist can be created")
	}
	if _, err := readFile(dir); err == nil {
		return errf("a directory is read as a stream file without error")
	}

	// dumps
	m := kvMap(kvs)
	src := &memKV{m: m}
	want := 0
	for k, v := range m {
		want += len(k) + len(v) + 6
	}
	if n := trie.ByteSize(src); n != want {
		return errf("ByteSize of %s is %d, expected %d", clip(dumpMap(m), 300), n, want)
	}
	if n := trie.NumEntries(src); n != len(m) {
		return errf("NumEntries of %s is %d, expected %d", clip(dumpMap(m), 300), n, len(m))
	}
	if n := trie.ByteSize(kvList(kvs)); n != len(full) {
		return errf("ByteSize of %d pairs is %d, expected %d", len(kvs), n, len(full))
	}
	if n := trie.NumEntries(kvList(kvs)); n != len(kvs) {
		return errf("NumEntries of %d pairs is %d", len(kvs), n)
	}
	dn := filepath.Join(dir, "dump")
	must(os.WriteFile(dn, bytes.Repeat([]byte{0xee}, want+50), 0o600))
	n, err := trie.DumpToFile(src, dn)
	if err != nil || n != want {
		return errf("dump of %s gives %d, %v, expected %d", clip(dumpMap(m), 300), n, err, want)
	}
	dump, err := os.ReadFile(dn)
	must(err)
	recs, clean := refRecords(dump)
	if !clean || len(recs) != len(m) || !sameMap(kvMap(recs), m) {
		return errf("the dump of %s is %x", clip(dumpMap(m), 300), clip(string(dump), 300))
	}
	// of any iterator, with repeated keys and empty values
	ln := filepath.Join(dir, "list")
	if n, err := trie.DumpToFile(kvList(kvs), ln); err != nil || n != len(full) {
		return errf("dump of %d pairs gives %d, %v, expected %d", len(kvs), n, err, len(full))
	}
	if d, err := os.ReadFile(ln); err != nil || !bytes.Equal(d, full) {
		return errf("the dump of %d pairs is\n %x, by the layout\n %x (%v)", len(kvs), clip(string(d), 300), clip(string(full), 300), err)
	}
	load := func(fn string) (map[string]string, int, error) {
		dst := newMemKV()
		n, err := trie.UnDumpFromFile(dst, fn)
		return dst.m, n, err
	}
	back, n, err := load(dn)
	if err != nil || n != want || !sameMap(back, m) {
		return errf("the dump of %s reads back as %s, %d bytes, %v", clip(dumpMap(m), 300), clip(dumpMap(back), 300), n, err)
	}
	im := trie.NewInMemoryKVStore()
	if n, err := trie.UnDumpFromFile(im, dn); err != nil || n != want || trie.NumEntries(im) != len(m) || trie.ByteSize(im) != want {
		return errf("the dump of %s in an in-memory store: %d bytes, %v, %d entries", clip(dumpMap(m), 300), n, err, trie.NumEntries(im))
	}
	cutAt := map[int]bool{}
	off := 0
	for _, r := range recs {
		l := len(refRecord(r))
		for _, d := range []int{0, 1, 2, 3, 2 + len(r.K), 3 + len(r.K), 5 + len(r.K), 6 + len(r.K), l - 1} {
			if d < l {
				cutAt[off+d] = true
			}
		}
		off += l
	}
	for _, c := range sc.Cuts {
		cutAt[c%(len(dump)+1)] = true
	}
	cn := filepath.Join(dir, "cut")
	i := 0
	for c := range cutAt {
		if i++; i > 20 {
			break
		}
		must(os.WriteFile(cn, dump[:c], 0o600))
		recs, clean := refRecords(dump[:c])
		got, n, err := load(cn)
		if (err == nil) != clean {
			return errf("dump cut at byte %d of %d: error %v", c, len(dump), err)
		}
		if !sameMap(got, kvMap(recs)) {
			return errf("dump cut at byte %d of %d is loaded as %s, complete in it are %s", c, len(dump), clip(dumpMap(got), 300), clip(dumpMap(kvMap(recs)), 300))
		}
		if clean && n != c {
			return errf("dump of %d bytes: %d bytes reported", c, n)
		}
		kvs, err := readFile(cn)
		if (err == nil) != clean {
			return errf("stream file cut at byte %d of %d: error %v", c, len(dump), err)
		}
		if d := samePairs(recs, kvs); d != "" {
			return errf("stream file cut at byte %d of %d: %s", c, len(dump), d)
		}
	}
	if _, err := trie.DumpToFile(src, none); err == nil {
		return errf("a dump to a directory which does not exist gives no error")
	}
	if _, err := trie.DumpToFile(src, dir); err == nil {
		return errf("a dump to a directory gives no error")
	}
	if _, _, err := load(none); err == nil {
		return errf("loading a dump which does not exist gives no error")
	}
	if _, _, err := load(dir); err == nil {
		return errf("loading a directory as a dump gives no error")
	}
	devFull.Do(func() {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err == nil {
			_, err = f.Write([]byte{1})
			devFull.ok = errors.Is(err, syscall.ENOSPC)
			_ = f.Close()
		}
	})
	if devFull.ok && len(m) > 0 {
		if _, err := trie.DumpToFile(src, "/dev/full"); err == nil {
			return errf("a dump to a full device gives no error")
		}
		w, err := trie.CreateKVStreamFile("/dev/full")
		if err != nil {
			return errf("opening /dev/full: %v", err)
		}
		err = w.Write([]byte{1}, []byte{2})
		if e := w.Close(); err == nil && e == nil {
			return errf("a stream written to a full device gives no error")
		}
	}
	return nil
}

func init() {
	register("C19", checkOpt{Quick: 24000, Thor: 2000000,
		Rule: "cases are sequences of 0..8 pairs (empty keys and values, repeated keys, lengths at byte boundaries, big values up to 1 MB and keys up to 65535 bytes, some with up to 3000 pairs) written to a stream; bytes and counts must be those of the documented layout; read back in 9 chunkings, stopped early and continued; cut at every byte (near all record boundaries and at random places beyond 160 bytes) with a clean end and with an injected error of the reader there, and written with an error of the writer there: the complete records must be delivered, and an error exactly if the cut is inside a record or an I/O error was injected. A tenth of the cases also go through files and dumps in a scratch directory, with cut files, missing files, directories and /dev/full. Non-trivial: at least two pairs.",
	}, gStreamCase, runC19)
}
