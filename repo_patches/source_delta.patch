From 31f3be310923346dc51f91ec7291d3ae7ad648e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:40 +0000
Subject: [PATCH 01/38] fix: take the terminal of a key commitment at the root
 node from the key

A root node holding a key commitment (key == value) was serialized without
the key commitment flag. With a value size threshold its terminal was then
restored from the value store, i.e. from the packed key, while Update commits
to the unpacked key: the root commitment changed after reopening the trie.
---
 trie/node.go     | 2 +-
 trie/nodedata.go | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index e9aa780..e8fffd4 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -144,7 +144,7 @@ func (n *bufferedNode) Bytes(model CommitmentModel, arity PathArity, optimizeKey
 	// Optimization: if terminal commits to unpackedKey, no need to serialize it,
 	// because all information is in the key
 	isKeyCommitment := false
-	if optimizeKeyCommitments && len(n.unpackedKey) > 0 {
+	if optimizeKeyCommitments && n.n.Terminal != nil {
 		keyCommitment := model.CommitToData(Concat(n.unpackedKey, n.n.PathFragment))
 		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment)
 	}
diff --git a/trie/nodedata.go b/trie/nodedata.go
index fc0bc29..d12f8c9 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -215,10 +215,11 @@ func (n *NodeData) Read(r io.Reader, model CommitmentModel, unpackedKey []byte,
 		// terminal exists. Should be taken from 1 or 3 locations
 		if smallFlags&takeTerminalFromKeyFlag != 0 {
 			// terminal is in key
-			if len(unpackedKey) == 0 {
+			fullKey := Concat(unpackedKey, n.PathFragment)
+			if len(fullKey) == 0 {
 				return xerrors.New("non-empty unpackedKey expected")
 			}
-			n.Terminal = model.CommitToData(Concat(unpackedKey, n.PathFragment))
+			n.Terminal = model.CommitToData(fullKey)
 		} else if smallFlags&takeTerminalFromValueFlag != 0 {
 			// terminal should be taken from the value store
 			if valueStore == nil {
-- 
2.43.0


From ad451e01342854450abb448d8e790fce4701f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 02/38] fix: read length prefixed data in full

The readers took whatever a single Read call returned: data of a truncated
stream was silently padded with zeros and a reader delivering in chunks
corrupted it. The end of the stream inside a record is now reported as
io.ErrUnexpectedEOF, and io.EOF means the end at a record boundary.
---
 trie/kv.go   |  4 ++++
 trie/util.go | 29 ++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/trie/kv.go b/trie/kv.go
index 1097e73..4cf78b9 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -156,6 +156,10 @@ func (b BinaryStreamIterator) Iterate(fun func(k []byte, v []byte) bool) error {
 			return err
 		}
 		v, err := ReadBytes32(b.r)
+		if errors.Is(err, io.EOF) {
+			// the stream ends in the middle of the record
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return err
 		}
diff --git a/trie/util.go b/trie/util.go
index 2eb9133..513ed44 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -192,6 +192,16 @@ func readKV(r io.Reader) ([]byte, []byte, bool) {
 // r/w utility functions
 // TODO rewrite with generics when switch to Go 1.18
 
+// readFull fills the buffer from the reader. It is used for the data which must follow, so the end of the stream
+// is always an unexpected one
+func readFull(r io.Reader, buf []byte) error {
+	_, err := io.ReadFull(r, buf)
+	if errors.Is(err, io.EOF) {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func ReadBytes8(r io.Reader) ([]byte, error) {
 	length, err := ReadByte(r)
 	if err != nil {
@@ -201,8 +211,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readFull(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -232,8 +241,7 @@ func ReadBytes16(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readFull(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -255,7 +263,7 @@ func WriteBytes16(w io.Writer, data []byte) error {
 
 func ReadUint16(r io.Reader, pval *uint16) error {
 	var tmp2 [2]byte
-	_, err := r.Read(tmp2[:])
+	_, err := io.ReadFull(r, tmp2[:])
 	if err != nil {
 		return err
 	}
@@ -283,7 +291,7 @@ func Uint16From2Bytes(b []byte) (uint16, error) {
 
 func ReadByte(r io.Reader) (byte, error) {
 	var b [1]byte
-	_, err := r.Read(b[:])
+	_, err := io.ReadFull(r, b[:])
 	if err != nil {
 		return 0, err
 	}
@@ -305,11 +313,14 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 	if length == 0 {
 		return []byte{}, nil
 	}
-	ret := make([]byte, length)
-	_, err = r.Read(ret)
+	// the length is not trusted: memory is allocated only for the data which is there
+	ret, err := io.ReadAll(io.LimitReader(r, int64(length)))
 	if err != nil {
 		return nil, err
 	}
+	if len(ret) != int(length) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return ret, nil
 }
 
@@ -348,7 +359,7 @@ func MustUint32From4Bytes(b []byte) uint32 {
 
 func ReadUint32(r io.Reader, pval *uint32) error {
 	var tmp4 [4]byte
-	_, err := r.Read(tmp4[:])
+	_, err := io.ReadFull(r, tmp4[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 65c1534fa6b7b572c139e5d83e72ddeb36d38baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 03/38] fix: UnDumpFromFile returns an error for a damaged file

An error reading a key was ignored and an error reading a value panicked.
---
 trie/util.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index 513ed44..77e43a4 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -151,11 +151,13 @@ func UnDumpFromFile(w KVWriter, fname string) (int, error) {
 	}
 	defer func() { _ = file.Close() }()
 
-	var k, v []byte
-	var exit bool
 	n := 0
 	for {
-		if k, v, exit = readKV(file); exit {
+		k, v, exit, err := readKV(file)
+		if err != nil {
+			return n, err
+		}
+		if exit {
 			break
 		}
 		n += len(k) + len(v) + 6
@@ -175,17 +177,24 @@ func writeKV(w io.Writer, k, v []byte) (int, error) {
 	return len(k) + len(v) + 6, nil
 }
 
-// readKV deserializes key/value pair from io.Reader. Returns key/value pair and an error flag if not enough data
-func readKV(r io.Reader) ([]byte, []byte, bool) {
+// readKV deserializes key/value pair from io.Reader. Returns key/value pair and true if there are no more pairs
+func readKV(r io.Reader) ([]byte, []byte, bool, error) {
 	k, err := ReadBytes16(r)
 	if errors.Is(err, io.EOF) {
-		return nil, nil, true
+		return nil, nil, true, nil
+	}
+	if err != nil {
+		return nil, nil, false, err
 	}
 	v, err := ReadBytes32(r)
+	if errors.Is(err, io.EOF) {
+		// the file ends in the middle of the record
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
-		panic(err)
+		return nil, nil, false, err
 	}
-	return k, v, false
+	return k, v, false, nil
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 0bd25d8d2d4f3b357ecb8c16dc8237cd2aa12721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 04/38] fix: read nodes, commitments, proofs and trusted setups
 in full

Truncated nodes, commitments and proofs were accepted with the missing bytes
taken as zeros, because a short Read was not noticed.
---
 models/trie_blake2b/model.go     | 9 ++-------
 models/trie_blake2b/proof.go     | 4 ++--
 models/trie_kzg_bn256/trusted.go | 2 +-
 trie/nodedata.go                 | 6 +-----
 4 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 0193fb1..2feec20 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -4,7 +4,6 @@ package trie_blake2b
 import (
 	"bytes"
 	"encoding/hex"
-	"errors"
 	"fmt"
 	"io"
 
@@ -238,7 +237,7 @@ func (v vectorCommitment) Bytes() []byte {
 }
 
 func (v vectorCommitment) Read(r io.Reader) error {
-	_, err := r.Read(v)
+	_, err := io.ReadFull(r, v)
 	return err
 }
 
@@ -312,13 +311,9 @@ func (t *terminalCommitment) Read(r io.Reader) error {
 	if l > 0 {
 		t.bytes = make([]byte, l)
 
-		n, err := r.Read(t.bytes)
-		if err != nil {
+		if _, err = io.ReadFull(r, t.bytes); err != nil {
 			return err
 		}
-		if n != int(l) {
-			return errors.New("bad data length")
-		}
 	}
 	return nil
 }
diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 81785c6..65bd01c 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -245,14 +245,14 @@ func (e *ProofElement) Read(r io.Reader, arity trie.PathArity, sz HashSize) erro
 	e.Children = make(map[byte][]byte)
 	if smallFlags&hasChildrenFlag != 0 {
 		var flags [32]byte
-		if _, err = r.Read(flags[:]); err != nil {
+		if _, err = io.ReadFull(r, flags[:]); err != nil {
 			return err
 		}
 		for i := 0; i < arity.NumChildren(); i++ {
 			ib := uint8(i)
 			if flags[i/8]&(0x1<<(i%8)) != 0 {
 				e.Children[ib] = make([]byte, sz)
-				if _, err = r.Read(e.Children[ib]); err != nil {
+				if _, err = io.ReadFull(r, e.Children[ib]); err != nil {
 					return err
 				}
 			}
diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 9f6d77b..8de993f 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -275,7 +275,7 @@ func (sd *TrustedSetup) write(w io.Writer) error {
 // read unmarshal
 func (sd *TrustedSetup) read(r io.Reader) error {
 	var tmp2 [2]byte
-	if _, err := r.Read(tmp2[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
 		return err
 	}
 
diff --git a/trie/nodedata.go b/trie/nodedata.go
index d12f8c9..b56ba0a 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -106,13 +106,9 @@ func newCflags(arity PathArity) cflags {
 
 func readCflags(r io.Reader, arity PathArity) (cflags, error) {
 	ret := newCflags(arity)
-	n, err := r.Read(ret)
-	if err != nil {
+	if _, err := io.ReadFull(r, ret); err != nil {
 		return nil, err
 	}
-	if n != cflagsSize(arity) {
-		return nil, fmt.Errorf("expected %d bytes, got %d", cflagsSize(arity), n)
-	}
 	return ret, nil
 }
 
-- 
2.43.0


From 1d28998521c83e59875e4ddacc4d0733be666a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 05/38] fix: reject encoded keys which consist of the padding
 length only

Decoding {1} for the 16-ary and {1}..{7} for the 2-ary trie panicked. These
bytes come from serialized proofs, i.e. from outside.
---
 trie/encode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trie/encode.go b/trie/encode.go
index 8712103..75f60fe 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -52,7 +52,7 @@ func decode16(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*2)
 	ret = unpack16(ret, data[1:])
-	if data[0] == 1 && ret[len(ret)-1] != 0 {
+	if data[0] == 1 && (len(ret) == 0 || ret[len(ret)-1] != 0) {
 		// enforce padding with 0
 		return nil, ErrWrongFormat
 	}
@@ -117,8 +117,9 @@ func decode2(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*8)
 	ret = unpack2(ret, data[1:])
-	Assert(len(ret) >= int(data[0]), "trie::decode2:: assert failed: len(ret) >= int(data[0]), data: %s",
-		hex.EncodeToString(data))
+	if len(ret) < int(data[0]) {
+		return nil, ErrWrongFormat
+	}
 	// enforce the last data[0] elements are 0
 	for j := len(ret) - int(data[0]); j < len(ret); j++ {
 		if ret[j] != 0 {
-- 
2.43.0


From 2aeca76d63c34abbd96e310eb5fbcc03bfb3bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 06/38] fix: check both nibbles when packing 16-ary keys

Only every other element was checked, so different (invalid) unpacked keys
were encoded to the same bytes instead of being rejected.
---
 trie/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index 75f60fe..c5cbdda 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -30,6 +30,9 @@ func pack16(dst, src []byte) ([]byte, error) {
 		}
 		c := src[i] << 4
 		if i+1 < len(src) {
+			if src[i+1] > 0x0F {
+				return nil, ErrWrongNibble
+			}
 			c |= src[i+1]
 		}
 		dst = append(dst, c)
-- 
2.43.0


From cba728a117f618654bb9a5d28eaf35899ed800aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 07/38] fix: WriteBytes8 can't write 256 bytes

The length was written as 0.
---
 trie/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/util.go b/trie/util.go
index 77e43a4..4145922 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -227,7 +227,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 }
 
 func WriteBytes8(w io.Writer, data []byte) error {
-	if len(data) > 256 {
+	if len(data) > math.MaxUint8 {
 		panic(fmt.Sprintf("WriteBytes8: too long data (%v)", len(data)))
 	}
 	err := WriteByte(w, byte(len(data)))
-- 
2.43.0


From 465a6c80df54d3d3fc8f9fbd4f88def90276faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 08/38] fix: reject proofs with a wrong path arity

---
 models/trie_blake2b/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 65bd01c..a4ee55e 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -130,6 +130,11 @@ func (p *Proof) Read(r io.Reader) error {
 		return err
 	}
 	p.PathArity = trie.PathArity(b)
+	switch p.PathArity {
+	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
+	default:
+		return trie.ErrWrongArity
+	}
 
 	b, err = trie.ReadByte(r)
 	if err != nil {
-- 
2.43.0


From ca5e80c639c78a40e07602f22a9aad44c30ccb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 09/38] fix: write each child commitment of a 256-ary proof
 element once

---
 models/trie_blake2b/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index a4ee55e..1e03c3b 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -206,7 +206,7 @@ func (e *ProofElement) Write(w io.Writer, arity trie.PathArity, sz HashSize) err
 		if _, err = w.Write(flags[:]); err != nil {
 			return err
 		}
-		for i := 0; i < arity.VectorLength(); i++ {
+		for i := 0; i < arity.NumChildren(); i++ {
 			child, ok := e.Children[uint8(i)]
 			if !ok {
 				continue
-- 
2.43.0


From 6204c92c3d8bafc817a4260dcfbacaf9e17d06c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 10/38] fix: reject the encoding of a key with padding length
 only

---
 trie/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index c5cbdda..f522c98 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -194,6 +194,10 @@ func DecodeToUnpackedBytes(encoded []byte, arity PathArity) ([]byte, error) {
 	if len(encoded) == 0 {
 		return nil, nil
 	}
+	if len(encoded) == 1 && arity != PathArity256 {
+		// only the length of padding: empty key has empty encoding
+		return nil, ErrWrongFormat
+	}
 	switch arity {
 	case PathArity256:
 		return encoded, nil
-- 
2.43.0


From 2d9cf9f837c6243d6a73d613e27ef3eee7ab2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 11/38] fix: validate that the blake2b proof path follows the
 key up to its end

---
 .../trie_blake2b_verify/verify.go             | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 47e1b32..5d594ec 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -92,6 +92,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	trie.Assert(keyIdx <= len(p.Key), "assertion: keyIdx <= lenPlus1(p.Key)")
 
 	elem := p.Path[pathIdx]
+	if len(elem.Terminal) > int(p.HashSize) {
+		return nil, fmt.Errorf("wrong proof: terminal commitment too long. Path position: %d, key position %d", pathIdx, keyIdx)
+	}
 	tail := p.Key[keyIdx:]
 	isPrefix := bytes.HasPrefix(tail, elem.PathFragment)
 	last := pathIdx == len(p.Path)-1
@@ -110,6 +113,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		if nextKeyIdx > len(p.Key) {
 			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
+		if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: child index does not follow the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
 		c, err := verify(p, pathIdx+1, nextKeyIdx)
 		if err != nil {
 			return nil, err
@@ -117,6 +123,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		return hashIt(elem, c, p.PathArity, p.HashSize), nil
 	}
 	// it is the last in the path
+	if err := checkLastElement(elem, tail, p.PathArity); err != nil {
+		return nil, fmt.Errorf("wrong proof: %v. Path position: %d, key position %d", err, pathIdx, keyIdx)
+	}
 	if p.PathArity.IsChildIndex(elem.ChildIndex) {
 		c := elem.Children[byte(elem.ChildIndex)]
 		if c != nil {
@@ -131,6 +140,35 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	return hashIt(elem, nil, p.PathArity, p.HashSize), nil
 }
 
+// checkLastElement checks if the last element says about the rest of the key what its child index means
+func checkLastElement(elem *trie_blake2b.ProofElement, tail []byte, arity trie.PathArity) error {
+	if elem.ChildIndex == arity.TerminalCommitmentIndex() {
+		if !bytes.Equal(tail, elem.PathFragment) {
+			return errors.New("path fragment of the last element does not end the key")
+		}
+		return nil
+	}
+	// it is a proof of absence: either the key diverges from the path fragment or
+	// there is no child in the direction of the key
+	if !bytes.HasPrefix(tail, elem.PathFragment) {
+		if arity.IsChildIndex(elem.ChildIndex) {
+			return errors.New("proof path does not follow the key")
+		}
+		return nil
+	}
+	if len(tail) == len(elem.PathFragment) {
+		return errors.New("the key ends at the last element")
+	}
+	next := tail[len(elem.PathFragment)]
+	if arity.IsChildIndex(elem.ChildIndex) && elem.ChildIndex != int(next) {
+		return errors.New("child index does not follow the key")
+	}
+	if _, ok := elem.Children[next]; ok {
+		return errors.New("unexpected child commitment in the direction of the key")
+	}
+	return nil
+}
+
 func makeHashVector(e *trie_blake2b.ProofElement, missingCommitment []byte, arity trie.PathArity, sz trie_blake2b.HashSize) [][]byte {
 	hashes := make([][]byte, arity.VectorLength())
 	for idx, c := range e.Children {
-- 
2.43.0


From 1838ab2f504ade860166e0596bd456d6aaa092a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 12/38] fix: empty terminal in the proof means the key is
 absent

---
 models/trie_blake2b/trie_blake2b_verify/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 5d594ec..53a5275 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -26,7 +26,7 @@ func MustKeyWithTerminal(p *trie_blake2b.Proof) ([]byte, []byte) {
 		}
 		return p.Key, nil
 	case lastElem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
-		if lastElem.Terminal == nil {
+		if len(lastElem.Terminal) == 0 {
 			return p.Key, nil
 		}
 		return p.Key, lastElem.Terminal
-- 
2.43.0


From 204bdf0a9a289299f0dfbd10610605d60e42f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 13/38] fix: reconcile empty trie

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 9bafa7f..693faa0 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -436,7 +436,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 	ret := make([][]byte, 0)
 	store.Iterate(func(k, v []byte) bool {
 		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
-		if ending == EndingTerminal {
+		if len(p) > 0 && ending == EndingTerminal {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
-- 
2.43.0


From 60a9f840d84c5f9538b6f20c6a7fc240aebcaba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 14/38] fix: reconcile takes key commitments into account

---
 trie/trie.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 693faa0..7b1f704 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -156,14 +156,17 @@ func (tr *Trie) commitNode(key []byte, update *VCommitment) {
 	n.pathChanged = false
 }
 
-// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
-func (tr *Trie) Update(key []byte, value []byte) {
-	var c TCommitment
+// commitToValue calculates terminal commitment of the key/value pair
+func (tr *Trie) commitToValue(key, value []byte) TCommitment {
 	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
-		c = tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
-	} else {
-		c = tr.nodeStore.reader.m.CommitToData(value)
+		return tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
 	}
+	return tr.nodeStore.reader.m.CommitToData(value)
+}
+
+// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
+func (tr *Trie) Update(key []byte, value []byte) {
+	c := tr.commitToValue(key, value)
 	if c == nil {
 		// nil value means deletion
 		tr.Delete(key)
@@ -442,7 +445,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 			if !ok {
 				ret = append(ret, k)
 			} else {
-				if !tr.Model().EqualCommitments(tr.nodeStore.reader.m.CommitToData(v), n.Terminal()) {
+				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
 					ret = append(ret, k)
 				}
 			}
-- 
2.43.0


From e6df64b1dade7f913635ce22351a0bcaa5bf407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 15/38] fix: trie does not keep the key slice of the caller

---
 trie/encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/encode.go b/trie/encode.go
index f522c98..b0e6ed1 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -133,10 +133,11 @@ func decode2(data []byte) ([]byte, error) {
 	return ret, nil
 }
 
+// UnpackBytes splits bytes to elements of the path. The result does not share memory with the source
 func UnpackBytes(src []byte, arity PathArity) []byte {
 	switch arity {
 	case PathArity256:
-		return src
+		return append(make([]byte, 0, len(src)), src...)
 	case PathArity16:
 		return unpack16(make([]byte, 0, 2*len(src)), src)
 	case PathArity2:
-- 
2.43.0


From 49cbf297426708d59fa4bb8b4a2d618f352c6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 16/38] fix: blake2b proof does not share memory with the trie

---
 models/trie_blake2b/proof.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 1e03c3b..9e0cc81 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -74,20 +74,20 @@ func (m *CommitmentModel) Proof(key []byte, tr trie.NodeStore) *Proof {
 			}
 		}
 		em := &ProofElement{
-			PathFragment: node.PathFragment(),
+			PathFragment: append([]byte(nil), node.PathFragment()...),
 			Children:     make(map[byte][]byte),
 			Terminal:     nil,
 			ChildIndex:   childIndex,
 		}
 		if node.Terminal() != nil {
-			em.Terminal = node.Terminal().(*terminalCommitment).bytes
+			em.Terminal = append([]byte(nil), node.Terminal().(*terminalCommitment).bytes...)
 		}
 		for idx, v := range node.ChildCommitments() {
 			if int(idx) == childIndex {
 				// skipping the commitment which must come from the next child
 				continue
 			}
-			em.Children[idx] = v.(vectorCommitment)
+			em.Children[idx] = append([]byte(nil), v.(vectorCommitment)...)
 		}
 		ret.Path[i] = em
 	}
-- 
2.43.0


From 3c09c4820a3422ca26c7187fe08a5beea2340af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 17/38] fix: HiveKVStoreAdaptor.Has does not hide errors of the
 store

---
 hive_adaptor/hiveadaptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 06e621d..99a6bfb 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -46,11 +46,11 @@ func (kvs *HiveKVStoreAdaptor) Get(key []byte) []byte {
 
 func (kvs *HiveKVStoreAdaptor) Has(key []byte) bool {
 	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
-	if errors.Is(err, kvstore.ErrKeyNotFound) || len(v) == 0 {
+	if errors.Is(err, kvstore.ErrKeyNotFound) {
 		return false
 	}
 	mustNoErr(err)
-	return true
+	return len(v) != 0
 }
 
 func (kvs *HiveKVStoreAdaptor) Set(key, value []byte) {
-- 
2.43.0


From 94403e6db229e0cfc9e1ec20a5c405a011da7d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 18/38] fix: batched updater does not keep the value slice of
 the caller

---
 hive_adaptor/hiveadaptor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 99a6bfb..4078723 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -107,7 +107,8 @@ func (a *HiveBatchedUpdater) Update(key []byte, value []byte) {
 		a.wTrie = newBatchWriter(a.batch, a.triePrefix)
 		a.wValue = newBatchWriter(a.batch, a.valueStorePrefix)
 	}
-	a.wValue.Set(key, value)
+	// the batch may keep the value until it is committed
+	a.wValue.Set(key, append([]byte(nil), value...))
 	a.trie.Update(key, value)
 }
 
-- 
2.43.0


From a0357a2d8ac9e56439081ac1dcefc59a6752563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 19/38] fix: no KZG proof of inclusion for a key of a branching
 node

---
 models/trie_kzg_bn256/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 33b3e9c..52035ea 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -88,6 +88,11 @@ func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*Proo
 		}
 	}
 
+	if nodes[proofLength-1].Terminal == nil {
+		// the key ends at a node which does not contain value
+		return nil, false
+	}
+
 	for i, n := range nodes {
 		ret.Path[i].C = m.calcNodeCommitment(n).Point
 		//if i == 0 || i == proofLength-1 {
-- 
2.43.0


From 040149b8bf71d41aea2767a1a48b3b2b421016be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 20/38] fix: KZG proof of inclusion must end with the terminal
 of the last element

---
 models/trie_kzg_bn256/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 52035ea..38677ee 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -138,6 +138,9 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	var val kyber.Scalar
 
 	for i := range p.Path {
+		if isLast := i == len(p.Path)-1; isLast != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
+			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[i].VectorIndex, i))
+		}
 		if p.Path[i].VectorIndex < 256 {
 			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
 		} else {
-- 
2.43.0


From ec1d41e8d1be27728ddba302b700cb16e6350a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 21/38] fix: KZG delta of the node commitment takes deleted
 children into account

---
 models/trie_kzg_bn256/model.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index f6d7966..6fcccea 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -164,21 +164,21 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 	for i, childUpd := range childUpdates {
 		if calcDelta {
 			delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
-			prevC, existsPrevC := mutate.ChildCommitments[i]
+			prevC := mutate.ChildCommitments[i]
 			if childUpd == nil {
-				// deleting child
-				trie.Assert(prevC != nil, "prevC != nil")
-				trie.Assert(existsPrevC, "par.ChildCommitments[i] != nil")
-				delta = scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
-				delta.Neg(delta)
+				// deleting child, if any
+				if prevC != nil {
+					delta = scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
+					delta.Neg(delta)
+				}
 			} else {
 				delta = scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), childUpd.(*vectorCommitment).Point)
 				if prevC != nil {
 					prevS := scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
 					delta.Sub(delta, prevS)
 				}
-				deltas[int(i)] = delta
 			}
+			deltas[int(i)] = delta
 		}
 		// update mutated part
 		if childUpd == nil {
-- 
2.43.0


From 1e248d20bb13f322c224539470938cd6e2a1bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:17 +0000
Subject: [PATCH 22/38] fix: KZG delta does not change the previous commitments
 in place

---
 models/trie_kzg_bn256/model.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index 6fcccea..b5876ee 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -191,8 +191,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 		delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
 		if terminal == nil {
 			if mutate.Terminal != nil {
-				delta = mutate.Terminal.(*terminalCommitment).Scalar
-				delta.Neg(delta)
+				delta.Neg(mutate.Terminal.(*terminalCommitment).Scalar)
 			}
 		} else {
 			delta.Set(terminal.(*terminalCommitment).Scalar)
@@ -208,7 +207,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 
 		// update upper commitment by adding calculated delta
 		if *update != nil {
-			prevP = (*update).(*vectorCommitment).Point
+			prevP = (*update).(*vectorCommitment).Point.Clone()
 		} else {
 			prevP = m.TrustedSetup.Suite.G1().Point().Null()
 		}
-- 
2.43.0


From 4766dbd5cac1d073d4651ab68cc29ac5d6c4c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 23/38] fix: KZG model calculates node commitment from scratch
 if there is no previous one

---
 models/trie_kzg_bn256/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index b5876ee..949d032 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -155,7 +155,8 @@ func (m *CommitmentModel) UpdateVCommitment(c *trie.VCommitment, delta trie.VCom
 func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdates map[byte]trie.VCommitment, calcDelta bool, terminal trie.TCommitment, update *trie.VCommitment) {
 	var deltas map[int]kyber.Scalar
 
-	trie.Assert(!calcDelta || (update != nil && *update != nil), "UpdateNodeCommitment: inconsistent parameters")
+	// without previous commitment there is nothing to add the delta to
+	calcDelta = calcDelta && update != nil && *update != nil
 
 	if calcDelta {
 		deltas = make(map[int]kyber.Scalar)
-- 
2.43.0


From b1f040b16ec10d68421b37bb415a127ef9bb04a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 24/38] fix: no commitment to the node which is left without
 children and terminal

---
 models/trie_blake2b/model.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 2feec20..01fc723 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -119,11 +119,8 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 		delete(mutate.ChildCommitments, i)
 	}
 	mutate.Terminal = newTerminalUpdate // for hash commitment just replace
-	if len(mutate.ChildCommitments) == 0 && mutate.Terminal == nil {
-		return
-	}
 	if update != nil {
-		*update = (vectorCommitment)(HashTheVector(m.makeHashVector(mutate), m.arity, m.hashSize))
+		*update = m.CalcNodeCommitment(mutate)
 	}
 }
 
-- 
2.43.0


From 2bacb4c1b63fe4baa0654ba5fcc2c55b1bc792e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 25/38] fix: read trusted setup on the natural domain

---
 models/trie_kzg_bn256/trusted.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 8de993f..50ec6fc 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -133,6 +133,9 @@ func TrustedSetupFromBytes(suite *bn256.Suite, data []byte) (*TrustedSetup, erro
 	for i := range ret.AprimeDomainI {
 		ret.aprime(i, ret.AprimeDomainI[i])
 	}
+	if ret.Omega.Equal(ret.ZeroG1) {
+		ret.precalculate()
+	}
 	return ret, nil
 }
 
@@ -284,7 +287,8 @@ func (sd *TrustedSetup) read(r io.Reader) error {
 	if _, err := sd.Omega.UnmarshalFrom(r); err != nil {
 		return err
 	}
-	if !isRootOfUnity(sd.Suite, sd.Omega) {
+	// zero omega means natural domain
+	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
 		return errNotROU
 	}
 	for i := range sd.LagrangeBasis {
-- 
2.43.0


From ff48e0dffab391ff6d7d1cf2b7ad3506d9c9bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 26/38] fix: trusted setup can be generated from powers of a
 root of unity only

---
 models/trie_kzg_bn256/trusted.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 50ec6fc..7130821 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -166,6 +166,9 @@ func (sd *TrustedSetup) generatePowers(omega, secret kyber.Scalar) error {
 	if len(secret.String()) < 50 {
 		return errWrongSecret
 	}
+	if !isRootOfUnity(sd.Suite, omega) {
+		return errNotROU
+	}
 	sd.Omega.Set(omega)
 	for i := range sd.Domain {
 		powerSimple(sd.Suite, sd.Omega, i, sd.Domain[i])
-- 
2.43.0


From 5b4e015d4eb9d065737a205fa7b2ef952d956395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 27/38] fix: random stream with maximum length of 1

---
 trie/kv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trie/kv.go b/trie/kv.go
index 4cf78b9..1501bc0 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -261,9 +261,9 @@ func (r *RandStreamIterator) Iterate(fun func(k []byte, v []byte) bool) error {
 		max = math.MaxInt
 	}
 	for r.count < max {
-		k := make([]byte, r.rnd.Intn(r.par.MaxKey-1)+1)
+		k := make([]byte, r.rnd.Intn(r.par.MaxKey)+1)
 		r.rnd.Read(k)
-		v := make([]byte, r.rnd.Intn(r.par.MaxValue-1)+1)
+		v := make([]byte, r.rnd.Intn(r.par.MaxValue)+1)
 		r.rnd.Read(v)
 		if !fun(k, v) {
 			return nil
-- 
2.43.0


From b59fcd45b5fd9984160fa0e209d424bf65a12a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 28/38] fix: random stream counts the pair at which it was
 stopped

---
 trie/kv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/kv.go b/trie/kv.go
index 1501bc0..230374c 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -265,10 +265,10 @@ func (r *RandStreamIterator) Iterate(fun func(k []byte, v []byte) bool) error {
 		r.rnd.Read(k)
 		v := make([]byte, r.rnd.Intn(r.par.MaxValue)+1)
 		r.rnd.Read(v)
+		r.count++
 		if !fun(k, v) {
 			return nil
 		}
-		r.count++
 	}
 	return nil
 }
-- 
2.43.0


From 42800376bbffc1a636573d0327a52b993ee07d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 29/38] fix: KZG proof does not keep the key slice of the
 caller

---
 models/trie_kzg_bn256/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 38677ee..28dfe1b 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -55,7 +55,7 @@ func ProofOfInclusionFromBytes(data []byte) (*ProofOfInclusion, error) {
 func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*ProofOfInclusion, bool) {
 	trie.Assert(tr.PathArity() == trie.PathArity256, "for KZG commitment model only 256-ary trie is supported")
 
-	proofGeneric := trie.GetProofGeneric(tr, key)
+	proofGeneric := trie.GetProofGeneric(tr, trie.UnpackBytes(key, tr.PathArity()))
 	if proofGeneric == nil || len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal {
 		// key is not present in the state
 		return nil, false
-- 
2.43.0


From 1487f98d2016872b23dded3f46a91cdaf57657b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 30/38] fix: node does not keep the key slice of the caller of
 GetNode

---
 trie/nodestore.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trie/nodestore.go b/trie/nodestore.go
index d638504..85e0a9c 100644
--- a/trie/nodestore.go
+++ b/trie/nodestore.go
@@ -33,7 +33,8 @@ func (sr *nodeStore) getNode(unpackedKey []byte) (*nodeReadOnly, bool) {
 	if len(nodeBin) == 0 {
 		return nil, false
 	}
-	n, err := nodeReadOnlyFromBytes(sr.m, nodeBin, unpackedKey, sr.arity, sr.valueStore)
+	// the node keeps its key, so it must not be the slice of the caller
+	n, err := nodeReadOnlyFromBytes(sr.m, nodeBin, Concat(unpackedKey), sr.arity, sr.valueStore)
 	Assert(err == nil, "trie::nodeStore::getNode assert 2: err: '%v' nodeBin: '%s', unpackedKey: '%s', arity: %s",
 		err, hex.EncodeToString(nodeBin), hex.EncodeToString(unpackedKey), sr.arity.String())
 	return n, true
@@ -92,7 +93,7 @@ func (sc *nodeStoreBuffered) getNode(unpackedKey []byte) (*bufferedNode, bool) {
 	if !ok {
 		return nil, false
 	}
-	ret = newBufferedNode(unpackedKey)
+	ret = newBufferedNode(n.key)
 	ret.n = n.n
 	ret.newTerminal = n.n.Terminal
 	sc.nodeCache[string(unpackedKey)] = ret
-- 
2.43.0


From 16d4aa585268930f5f23391eccc5c4fad612a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 31/38] fix: KZG proof of inclusion with zero terminal is not
 valid

---
 models/trie_kzg_bn256/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 28dfe1b..2e93cdc 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -132,6 +132,10 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	if len(p.Path) == 0 {
 		return xerrors.New("proof path is empty")
 	}
+	if p.Terminal.Equal(Model.ZeroG1) {
+		// node without value opens to zero at the index of the terminal
+		return xerrors.New("proof does not commit to a value")
+	}
 	if !equalCommitments(root, &vectorCommitment{Point: p.Path[0].C}) {
 		return xerrors.New("provided commitment and commitment to the first element are not equal")
 	}
-- 
2.43.0


From 8c66906c7073dd34d8a673a88237b50ac801b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:16 +0000
Subject: [PATCH 32/38] fix: ReadBytes32 takes data which comes together with
 an error of the reader

---
 trie/util.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index 4145922..f567ef2 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -324,13 +324,14 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 	}
 	// the length is not trusted: memory is allocated only for the data which is there
 	ret, err := io.ReadAll(io.LimitReader(r, int64(length)))
-	if err != nil {
-		return nil, err
+	if len(ret) == int(length) {
+		// all data is there, even if the last of it came with an error
+		return ret, nil
 	}
-	if len(ret) != int(length) {
-		return nil, io.ErrUnexpectedEOF
+	if err == nil {
+		err = io.ErrUnexpectedEOF
 	}
-	return ret, nil
+	return nil, err
 }
 
 func WriteBytes32(w io.Writer, data []byte) error {
-- 
2.43.0


From ec7589a43f17946311f82d2ae25cfb306cb9082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 33/38] fix: a proof with more path elements than its length
 field holds is refused when written

---
 models/trie_blake2b/proof.go   | 4 ++++
 models/trie_kzg_bn256/proof.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 9e0cc81..88357c1 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 )
@@ -113,6 +114,9 @@ func (p *Proof) Write(w io.Writer) error {
 	if err = trie.WriteBytes16(w, encodedKey); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return errors.New("proof path is too long")
+	}
 	if err = trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 2e93cdc..62a94bf 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 	"go.dedis.ch/kyber/v3"
@@ -164,6 +165,9 @@ func (p *ProofOfInclusion) Write(w io.Writer) error {
 	if _, err := p.Terminal.MarshalTo(w); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return xerrors.New("proof path is too long")
+	}
 	if err := trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
-- 
2.43.0


From b0fefff56ecea345fde9418e3bb8418d5bf1c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 34/38] fix: reading into a node which is not new leaves none
 of its children

---
 trie/nodedata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trie/nodedata.go b/trie/nodedata.go
index b56ba0a..d4660fb 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -242,6 +242,7 @@ func (n *NodeData) Read(r io.Reader, model CommitmentModel, unpackedKey []byte,
 			return errors.New("wrong flag")
 		}
 	}
+	n.ChildCommitments = make(map[byte]VCommitment)
 	if smallFlags&serializeChildrenFlag != 0 {
 		var flags cflags
 		if flags, err = readCflags(r, arity); err != nil {
-- 
2.43.0


From 2b563a1247f72e4b0ff15d94b7797be980c9a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 35/38] fix: reading an empty commitment into one which is not
 new leaves none of its bytes

---
 models/trie_blake2b/model.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 01fc723..8e10d11 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -305,9 +305,8 @@ func (t *terminalCommitment) Read(r io.Reader) error {
 	if l > 32 {
 		return fmt.Errorf("wrong data size")
 	}
+	t.bytes = make([]byte, l)
 	if l > 0 {
-		t.bytes = make([]byte, l)
-
 		if _, err = io.ReadFull(r, t.bytes); err != nil {
 			return err
 		}
-- 
2.43.0


From 38ffa76a858c7e27eb75d61bb9422fb14ad8db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 36/38] fix: kzg_setup ends when there is no terminal or no
 more input

---
 models/trie_kzg_bn256/kzg_setup/kzg_setup.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/kzg_setup/kzg_setup.go b/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
index 54239e9..634c84a 100644
--- a/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
+++ b/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
@@ -42,8 +42,9 @@ func main() {
 		fmt.Printf("please enter seed > %d symbols and press ENTER (CTRL-C to exit) > ", minSeed)
 		seed, err = term.ReadPassword(int(syscall.Stdin))
 		if err != nil {
+			// no terminal or the end of the input: asking again would not help
 			fmt.Printf("\nerror: %v\n", err)
-			continue
+			os.Exit(1)
 		}
 		if len(seed) < minSeed {
 			fmt.Printf("\nerror: seed too short\n")
-- 
2.43.0


From 0fa042d9f6f59aeae383fd440679367a6f012df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 37/38] fix: kzg_setup does not ignore an error writing the Go
 file

---
 models/trie_kzg_bn256/kzg_setup/kzg_setup.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/kzg_setup/kzg_setup.go b/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
index 634c84a..3361df8 100644
--- a/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
+++ b/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
@@ -110,7 +110,8 @@ func writeToFile(tr *trie_kzg_bn2562.TrustedSetup, fname string) {
 			dataStr += " +\n"
 		}
 		res := strings.Replace(ftemplate, "{{HEX DATA}}", dataStr, 1)
-		_, err = fmt.Fprintf(f, res)
+		_, err = f.WriteString(res)
+		checkErr(err)
 	}
 }
 
-- 
2.43.0


From e3d9fe31cfa8724ffef04fa3071dabf15a0498b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 38/38] fix: ToString of a node without a value commitment does
 not panic

---
 trie/node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/node.go b/trie/node.go
index e8fffd4..6559688 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -160,10 +160,14 @@ func childKey(n Node, childIndex byte) []byte {
 }
 
 func ToString(n Node) string {
+	t := "<nil>"
+	if term := n.Terminal(); term != nil {
+		t = term.String()
+	}
 	return fmt.Sprintf("nodeData(key: '%s', pathFragment: '%s', term: '%s', numChildren: %d",
 		hex.EncodeToString(n.Key()),
 		hex.EncodeToString(n.PathFragment()),
-		n.Terminal().String(),
+		t,
 		len(n.ChildCommitments()),
 	)
 }
-- 
2.43.0

