package main

import (
	"bytes"
	"fmt"
)

// PairCase is a set of pairs and variants of it
type PairCase struct {
	Cfg  Cfg    `json:"cfg"`
	A    []KV   `json:"a"`
	Vars [][]KV `json:"vars"` // each complete contents
}

func kvsOf(m map[string]string) []KV {
	out := []KV{}
	for _, k := range sortedKeys(m) {
		out = append(out, KV{B(k), B(m[k])})
	}
	return out
}

// gVariant makes other contents from m by a small or structural change
func gVariant(s *Src, c Cfg, m map[string]string) map[string]string {
	r := copyMap(m)
	ks := sortedKeys(m)
	n := 1
	if s.Pct(20) {
		n = 2
	}
	for ; n > 0 && len(ks) > 0; n-- {
		k := pick(s, ks)
		v := r[k]
		switch s.W(14, 8, 8, 6, 6, 10, 8, 8, 6, 8, 6, 6, 6) {
		case 0: // change one bit of the value
			if len(v) > 0 {
				x := []byte(v)
				x[s.N(len(x))] ^= 1 << s.N(8)
				r[k] = string(x)
			}
		case 1: // a longer value
			r[k] = v + string([]byte{byte(s.N(3))})
		case 2: // a shorter value
			if len(v) > 1 {
				r[k] = v[:len(v)-1]
			}
		case 3: // remove
			delete(r, k)
		case 4: // the same value at another key
			if len(v) > 0 {
				r[string(deriveKey(s, []byte(k), []byte{0, 1, 'a'}, kvKeys(ks)))] = v
			}
		case 5: // rename
			if len(v) > 0 {
				delete(r, k)
				r[string(deriveKey(s, []byte(k), []byte{0, 1, 'a'}, kvKeys(ks)))] = v
			}
		case 6: // swap two values
			k2 := pick(s, ks)
			v2 := r[k2]
			if len(v) > 0 && len(v2) > 0 {
				r[k], r[k2] = v2, v
			}
		case 7: // move bytes from the key to the value
			if len(k) > 0 && len(v) > 0 {
				delete(r, k)
				r[k[:len(k)-1]] = k[len(k)-1:] + v
			}
		case 8: // and back
			if len(v) > 1 {
				delete(r, k)
				r[k+v[:1]] = v[1:]
			}
		case 9: // the value moves to a prefix or extension of its key
			if len(v) > 0 {
				delete(r, k)
				if len(k) > 0 && s.Pct(50) {
					r[k[:s.N(len(k))]] = v
				} else {
					r[k+string([]byte{byte(s.N(3))})] = v
				}
			}
		case 10: // common prefix of all keys changes
			p := string([]byte{pick(s, []byte{0, 1, 'a', 0x10})})
			x := map[string]string{}
			cut := s.Pct(50)
			for kk, vv := range r {
				if last := ks[len(ks)-1]; cut && len(kk) > 0 && len(last) > 0 && kk[0] == last[0] {
					x[kk[1:]] = vv
				} else {
					x[p+kk] = vv
				}
			}
			r = x
		case 11: // value becomes its hash, or the key or the unpacked key
			if len(v) > 0 {
				switch s.N(3) {
				case 0:
					r[k] = string(blake([]byte(v), max(c.Hash, 20)))
				case 1:
					if len(k) > 0 {
						r[k] = k
					}
				case 2:
					if len(k) > 0 {
						r[k] = string(refUnpack([]byte(k), c.Arity))
					}
				}
			}
		case 12: // the value becomes the value of another pair
			if v2 := r[pick(s, ks)]; len(v2) > 0 && len(v) > 0 {
				r[k] = v2
			}
		}
	}
	return r
}

func kvKeys(ks []string) []B {
	out := []B{}
	for _, k := range ks {
		out = append(out, B(k))
	}
	if len(out) == 0 {
		out = append(out, B{})
	}
	return out
}

func gPairCase(s *Src) PairCase {
	c := gcfg(s, 5)
	hi := 8
	if c.Kzg {
		hi = 4
	}
	m := kvMap(gContents(s, c, 1, hi))
	p := PairCase{Cfg: c, A: kvsOf(m)}
	n := s.Range(1, 5)
	cur := m
	for i := 0; i < n; i++ {
		v := gVariant(s, c, cur)
		p.Vars = append(p.Vars, kvsOf(v))
		if s.Pct(30) {
			cur = v
		}
	}
	return p
}

func runC03(p *PairCase, st *Stats) error {
	c := p.Cfg
	all := []map[string]string{kvMap(p.A), {}}
	for _, v := range p.Vars {
		all = append(all, kvMap(v))
	}
	roots := make([][]byte, len(all))
	for i, m := range all {
		roots[i] = rootOf(fresh(c, m))
	}
	st.Label("cfg:" + c.label())
	for i := range all {
		for j := 0; j < i; j++ {
			if sameMap(all[i], all[j]) {
				if !bytes.Equal(roots[i], roots[j]) {
					return fmt.Errorf("%s: equal contents, different roots", c)
				}
				continue
			}
			st.Label("pairs-compared")
			st.NonTrivial(len(all[i]) > 0 && len(all[j]) > 0)
			if !bytes.Equal(roots[i], roots[j]) {
				continue
			}
			if k := collisionClass(c, all[i], all[j]); k != "" {
				st.Known("C03-" + k)
				continue
			}
			return fmt.Errorf("%s: different contents with the same root %x:\n %s\n %s", c, roots[i], dumpMap(all[i]), dumpMap(all[j]))
		}
	}
	return nil
}

// collisionClass tells which known finding makes the two contents indistinguishable, "" if none does
func collisionClass(c Cfg, a, b map[string]string) string {
	if c.Kzg {
		return ""
	}
	if len(a) == len(b) && c.Opt && c.Arity != 256 {
		same := true
		for k, v := range a {
			w, ok := b[k]
			if !ok || !bytes.Equal(refData(c, k, v), refData(c, k, w)) {
				same = false
			}
		}
		if same {
			return "keycommit"
		}
	}
	if padEqual(c, refTree(c, a), refTree(c, b)) {
		return "padding"
	}
	return ""
}

func init() {
	b := Cfg{Arity: 16, Hash: 20}
	long := B(bytes.Repeat([]byte{7}, 30))
	register("C03", checkOpt{Quick: 60000, Thor: 2000000,
		Rule: "cases are a generated set of pairs and up to five variants of it (bit flips, longer/shorter values, added, removed, renamed, swapped pairs, bytes moved between key and value, values moved along prefixes, prefix added to all keys, values replaced by their hash or key) built as fresh tries of one configuration; all pairs of different contents must have different roots, unless they fall into a listed known finding (recognised by an independent predicate on the canonical trees). Non-trivial: two different non-empty contents compared.",
	}, gPairCase, runC03,
		PairCase{Cfg: b, A: []KV{{B("a"), B{1}}}, Vars: [][]KV{{{B("a"), B{1, 0}}}}},
		PairCase{Cfg: b, A: []KV{{B("a"), long}}, Vars: [][]KV{{{B("a"), B(blake(long, 20))}}}},
		PairCase{Cfg: Cfg{Arity: 256, Hash: 32}, A: []KV{{B("a"), B{1}}}, Vars: [][]KV{{{B("a\x00"), B{1}}}}},
		PairCase{Cfg: Cfg{Arity: 16, Hash: 32, Opt: true}, A: []KV{{B{0x12}, B{0x12}}}, Vars: [][]KV{{{B{0x12}, B{1, 2}}}}},
	)
}
