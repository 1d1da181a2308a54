package main

// knownFinding is a genuine defect recorded in /verif/known_findings.txt instead of being repaired
type knownFinding struct{ Property, What string }

var knownFindings = map[string]knownFinding{
	"C03-padding":   {"C03", "blake2b nodes pad values and path fragments with zeros to a fixed slot and do not mark hashed ones, so contents differing only in trailing zero bytes of a value up to the hash size or of a path fragment, or in a long value versus its hash, have equal roots, e.g. {61:01} and {61:0100}"},
	"C03-keycommit": {"C03", "with the key commitment option on 2-ary and 16-ary blake2b tries a pair with equal key and value and the same key with its unpacked form as value have equal roots, e.g. {12:12} and {12:0102}"},
	"C10-padding":   {"C10", "because of the zero padding of slots, a proof whose terminal or path fragment has trailing zero elements added or removed still validates, so it shows e.g. value 0100 instead of 01, or the pair of key 6100 at key 61"},
	"C14-key":       {"C14", "a KZG inclusion proof does not bind its key: only vector indices are opened, not the path fragments, so an honest proof with its Key altered still validates, e.g. the proof of key 'a' in {61:01} relabelled to key 'b'"},
	"C31-rate":      {"C31", "trie_bench mkdbmem and mkdbbadger divide by zero and crash when 100000 records have been read in less than a second"},
	"C31-rootvalue": {"C31", "trie_bench mkdbmem and mkdbbadger crash before they show the root when the root node commits to a value not above the value-size threshold (the root is read without the value store), e.g. {01:02} with -valuethr=20"},
	"C31-lastbatch": {"C31", "trie_bench mkdbbadgernotrie loses the records after the last full 10000, e.g. all of a file with one record"},
	"C31-empty":     {"C31", "trie_bench scandbbadger divides by zero and crashes for a database without values"},
	"C31-notrie":    {"C31", "trie_bench scandbbadger divides by zero and crashes for a database with values but no trie"},
	"C31-optkey":    {"C31", "trie_bench scandbbadger reports a wrong terminal commitment for a pair with equal key and value in a database made with -optkey on a 2-ary or 16-ary trie"},
	"C31-absence":   {"C31", "trie_bench scandbbadger takes a proof of absence for a proof of the value if the value at the end of the path is the same, e.g. the value 02 added at key 0100 to {01:02}"},
	"C31-count":     {"C31", "trie_bench mkdbmem, mkdbbadger and gen tell one record more than there are"},
	"C22-equal":     {"C22", "a value in the store whose terminal commitment is the same as that of the committed one is not reported: the hash of a long value in place of the value, or with the key commitment option on 2-ary and 16-ary blake2b tries the unpacked key in place of the key, e.g. {12:12} reconciled with {12:0102}"},
}
