#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is easier to edit here)."""
import json, os
T="trie/trie.go"; NS="trie/nodestore.go"; ND="trie/nodedata.go"; NO="trie/node.go"; EN="trie/encode.go"; KV="trie/kv.go"; UT="trie/util.go"; PR="trie/proof.go"
BM="models/trie_blake2b/model.go"; BP="models/trie_blake2b/proof.go"; BV="models/trie_blake2b/trie_blake2b_verify/verify.go"
KM="models/trie_kzg_bn256/model.go"; KP="models/trie_kzg_bn256/proof.go"; KT="models/trie_kzg_bn256/trusted.go"; KF="models/trie_kzg_bn256/fun.go"; KU="models/trie_kzg_bn256/util.go"; KS="models/trie_kzg_bn256/setup_data.go"
HA="hive_adaptor/hiveadaptor.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CFG="every commitment model (blake2b with 20 or 32 byte hashes, KZG), path arity (2, 16, 256), key-commitment option and value-size threshold"

p("C01","Root commitment depends only on the current contents, not on the history",
 "After a commit, the root commitment is a function of the set of key/value pairs the trie currently holds. Any history that ends in the same pairs - any order, overwrites, inserts that are deleted again, deletions of absent keys, updates with an empty value, commits, persists, cache clears and reopenings anywhere in between - gives the same root as inserting those pairs once into an empty trie. When no pair is left there is no root commitment.",
 ["histories","inputs","configurations"],"all histories of updates/deletes/commits/persists/cache clears/reopenings over all variable-length keys, for "+CFG,
 "Tests replay fixed key lists and a few random sequences with a single final commit; radix splits and merges that straddle commits, persists and reloads depend on the exact interleaving and key shape.",
 [T,NS,NO,PR,BM,KM],[("Update/splitNode/newTerminalNode",T),("Delete/checkReorg/mergeNode/hasCommitment",T),("commitNode recomputation of modified nodes",T),("deleted marks and node cache",NS)],
 ["trie.RootCommitment","Trie.Commit"],[("nodeCache/deleted","buffered part of the trie",NS),("modifiedChildren/newTerminal/pathChanged","what the next commit must recompute",NO)])
p("C02","Root commitment equals the trie definition evaluated on the contents",
 "The root commitment equals the value obtained by evaluating the trie definition directly on the set of pairs: the canonical radix tree of the unpacked keys (every node other than the root carries a value or at least two children), each node committing to its child commitments, to its value and to its path fragment in the positions and encoding of the commitment model (blake2b hash vector; KZG commitment in Lagrange form). With the key-commitment option a pair whose key equals its value commits to the unpacked key.",
 ["inputs","histories","configurations"],"all finite sets of pairs and histories reaching them, for "+CFG,
 "Tests compare roots only with other roots produced by the same code, so a wrong but self-consistent commitment, or one that ignores part of a node, is invisible to them.",
 [T,BM,KM,KF,"trie/model.go",EN],[("makeHashVector/HashTheVector",BM),("CommitToDataRaw",BM),("makeVector/commit",KM),("UnpackBytes",EN),("TerminalCommitmentIndex/PathFragmentCommitmentIndex/VectorLength","trie/model.go")],
 ["trie.RootCommitment","CommitmentModel.CalcNodeCommitment"])
p("C03","Different contents have different root commitments",
 "Two different sets of key/value pairs held by tries of the same configuration have different root commitments: changing, adding, removing, renaming or swapping any pair, however small the difference, changes the root.",
 ["inputs","configurations"],"all pairs of distinct finite contents, especially neighbouring ones (one byte of a key or a value changed, a key extended or cut, values swapped, value lengths around the hash size), for "+CFG,
 "Tests check inequality for a handful of hard-coded states; a commitment that drops or truncates one component still separates those.",
 [BM,KM,T],[("makeHashVector/HashTheVector/CommitToDataRaw",BM),("makeVector/scalarFromPoint/scalarFromBytes/commitToData",KM),("commitNode isModified",T)],["trie.RootCommitment"])
p("C04","Lookups agree with the latest contents",
 "At any moment, looking a key up in the trie (its path ends at a node holding a value) finds it exactly if the key is in the current contents, and the value commitment found is the commitment to the key's latest value. A direct reader of the persisted stores gives the same answers for the contents last persisted.",
 ["histories","inputs","configurations"],"all histories and all probed keys: present, deleted, never inserted, prefixes and extensions of present keys, for "+CFG,
 "Tests look up keys of small fixed sets, mostly right after building the trie; lookups between updates and commits, after reorganisations and through partly loaded caches are unbounded.",
 [T,NS,PR,NO,BM,KM],[("proofPath",PR),("getNode read-through with deleted marks",NS),("Terminal of buffered node",NO)],["trie.GetProofGeneric","Trie.GetNode","TrieReader.GetNode"])
p("C05","Persisted state is complete and exact: reopening loses and leaves nothing",
 "After commit and persist, a trie or a direct reader opened on the same stores has the same root, nodes, lookups and proofs as the trie in memory, whether or not its cache was cleared, and continues to behave like it under further updates. The persisted node store holds exactly the nodes of the current contents - byte for byte what persisting a freshly built trie would hold - with no missing, stale or orphaned entries; with no contents left it is empty.",
 ["histories","configurations","inputs"],"all histories with persists, cache clears and reopenings at any point, repeated persists without clearing, for "+CFG,
 "Tests reopen a few times at fixed points; whether a node removed, merged or moved several commits ago is still in the store depends on the whole history.",
 [NS,ND,NO,T,BM,KM],[("persistMutations",NS),("removeKey/unDelete/insertNewNode/replaceNode",NS),("NodeData.Write/Read",ND),("bufferedNode.Bytes",NO)],["the trie KVStore","trie.New","trie.NewTrieReader"])
p("C06","Nothing reaches the store before persist, and clearing the cache rolls back",
 "Updating, deleting, committing, looking up, proving, cloning and reconciling never write to the stores; only persisting does, and only the node store passed to it. Clearing the cache discards every change made since the last persist: the trie then behaves exactly like one freshly opened on the stores. Read operations never change the contents, the root or later results.",
 ["histories","configurations"],"all histories of mutations and reads with cache clears at any point, for "+CFG,
 "Tests never clear a dirty cache and never check that reads and commits leave the stores alone.",
 [NS,T,PR],[("clearCache",NS),("persistMutations",NS),("getNode caching",NS)],["Trie.ClearCache","Trie.PersistMutations","KVWriter.Set"])
p("C07","A clone is a deep copy: clone and original never affect each other",
 "A cloned trie, taken at any moment including with uncommitted and deleted buffered nodes, has the same contents and gives the same roots and proofs as the original would. After cloning, any operation on one (updates, deletes, commits, persists to separate stores, cache clears) leaves the other exactly as if the clone had never been made.",
 ["histories","configurations"],"all histories before cloning and all pairs of diverging continuations, clones of clones, for "+CFG,
 "Tests clone a trie a few times with simple continuations; shared mutable node state only shows when both sides later touch the same node.",
 [T,NS,NO,ND,BM,KM],[("Trie.Clone / nodeStoreBuffered.clone",NS),("bufferedNode.Clone",NO),("NodeData.Clone",ND),("commitment Clone",BM)],["Trie.Clone"])
p("C08","Storage optimisations are transparent",
 "The value-size threshold never changes any root, lookup or proof, and the key-commitment option does not either, except that on 2-ary and 16-ary tries a pair whose value equals its key commits to the unpacked key. With any combination of them every node can be read back from the stores alone, values up to the threshold are not duplicated in the node store, and values above it are readable without the value store.",
 ["configurations","inputs","histories"],"all thresholds (0, around the value lengths and hash sizes, huge), option on/off, values equal to the key or to the unpacked key, lengths around hash size and threshold, with persist/reopen histories",
 "Tests sample a few thresholds and value lengths with keys and values that never meet the interesting coincidences (value equals key, length equals threshold, key of the root node).",
 [NO,ND,BM,T,KM],[("bufferedNode.Bytes key commitment and skipTerminal",NO),("NodeData.Read terminal sources",ND),("ForceStoreTerminalWithNode/isCostlyCommitment",BM),("Update key commitment",T)],["the trie KVStore","trie.RootCommitment"])
p("C09","Every blake2b proof the library makes validates and says the truth",
 "For every key, present or absent, the proof taken from a committed trie, or from a reader or trie reopened on its persisted stores, validates against the root, carries that key, and is a proof of absence exactly if the key is absent; for a present key it validates with the key's value and with no other value, and for an absent key with no value. The proof is the same whichever of these it is taken from, and after serialisation.",
 ["inputs","histories","configurations"],"all contents and probed keys (present, branch points without value, prefixes, extensions, siblings, empty key, empty trie), hash sizes, arities, thresholds, histories",
 "Tests prove keys of a few fixed sets; the shape of the path (split inside a fragment, missing child, valueless branch node, root) combined with value length and arity is open-ended.",
 [BP,BV,PR,BM],[("CommitmentModel.Proof",BP),("Validate/ValidateWithValue/IsProofOfAbsence",BV),("proofPath",PR)],["trie_blake2b_verify.Validate","trie_blake2b_verify.ValidateWithValue","trie_blake2b_verify.IsProofOfAbsence"])
p("C10","No blake2b proof that validates lies",
 "Any serialized proof, honest, altered or forged by someone who knows the whole trie, that validates against the root of some contents tells the truth about its key in these contents: if it shows a value commitment, the key is present with a value having that commitment, and if it is a proof of absence, the key is absent. Validation with a value succeeds only for the value of the key.",
 ["inputs","configurations"],"all byte strings offered as proofs, in particular honest proofs with key, path, fragment, index, child, terminal or element order changed, relabelled to another key, truncated, extended or spliced with other nodes of the same trie",
 "Tests validate honest proofs and a few broken ones; soundness quantifies over everything an adversary can write.",
 [BV,BP,BM],[("verify",BV),("MustKeyWithTerminal",BV),("HashTheVector",BM)],["trie_blake2b_verify.Validate"])
p("C11","Blake2b proofs serialise faithfully in the documented layout",
 "Serialising a proof and reading it back gives an equal proof with identical bytes on re-serialisation, whatever its key and path, and the bytes follow the fixed layout (arity, hash size, encoded key, path elements with fragment, child index, flags, terminal, child bitmap and child hashes in index order). The reported size equals the number of bytes, and reading works for any chunking of the input stream.",
 ["inputs","configurations"],"all proofs reachable from all contents and keys, arities and hash sizes, plus arbitrary well-formed proof structures; all chunkings of the reader",
 "Tests round-trip a few proofs against the library's own reader only, from one contiguous buffer.",
 [BP,UT,EN],[("Proof.Write/Read",BP),("ProofElement.Write/Read",BP),("WriteBytes8/16 and ReadBytes8/16",UT)],["Proof.Bytes","trie_blake2b.ProofFromBytes","trie.Size"])
p("C12","Malformed bytes are rejected with an error, never a panic or silent acceptance",
 "Decoding untrusted bytes - blake2b and KZG proofs, trie nodes, commitments, encoded keys, trusted setups - and validating whatever was decoded never panics. A strict prefix of a valid encoding of a proof, node, commitment or setup, or a valid encoding followed by extra bytes, is rejected with an error.",
 ["inputs"],"all byte strings: mutated, truncated, extended and random encodings of every decodable type",
 "Tests feed only encodings produced by the library itself.",
 [BP,BV,KP,KT,ND,EN,UT,BM,KM],[("ProofFromBytes",BP),("ProofOfInclusionFromBytes",KP),("NodeDataFromBytes",ND),("DecodeToUnpackedBytes",EN),("TrustedSetupFromBytes",KT),("Trie.VectorCommitmentFromBytes",T)],["returned error"])
p("C13","Every KZG inclusion proof the library makes validates",
 "For a committed KZG trie, a proof of inclusion is returned exactly for the keys present in the contents; it validates against the root, validates with the key's value and with no other value, carries the key, and still does after serialisation, whether it is taken from the trie in memory or from a reader of the persisted stores. For absent keys, including branch points without a value and keys of an empty trie, no proof is returned.",
 ["inputs","histories"],"all contents, histories and probed keys",
 "Tests prove keys of a few small sets where no branch node without a value is probed.",
 [KP,KF,KM,KT],[("CommitmentModel.ProofOfInclusion",KP),("ProofOfInclusion.Validate",KP),("prove/verify",KF)],["ProofOfInclusion.Validate"])
p("C14","No KZG inclusion proof that validates lies",
 "A serialized inclusion proof, honest or altered, that validates against the root of some contents shows the value commitment which those contents hold at the proof's key, and it validates with a value only if it is the value held there. A proof whose commitments, indices, opening proofs, terminal or element order are altered does not validate, and validation never panics.",
 ["inputs"],"all alterations of honest proofs: indices out of range or moved, points and scalars replaced, elements dropped, duplicated, swapped, spliced from other keys or other tries",
 "Tests only validate honest proofs.",
 [KP,KF],[("ProofOfInclusion.Validate",KP),("verify pairing equation",KF)],["ProofOfInclusion.Validate"])
p("C15","Incremental node commitment updates equal recomputation",
 "Updating a node's commitment with changed, added and removed children and a changed, added or removed value gives the commitment computed from scratch from the updated node, whether or not the incremental (delta) mode is requested, and leaves exactly the updated children and value in the node. For KZG and blake2b alike a node left with no children and no value, or an update without an upper commitment, is handled consistently.",
 ["inputs","histories"],"all nodes and all update sets (children added, replaced, removed; value added, replaced, removed, unchanged), sequences of such updates, both modes, all models",
 "Tests reach this only through whole-trie updates, where delta mode is hardly ever chosen.",
 [KM,BM,T],[("UpdateNodeCommitment",KM),("CalcNodeCommitment",KM),("UpdateNodeCommitment",BM)],["CommitmentModel.UpdateNodeCommitment","CommitmentModel.CalcNodeCommitment"])
p("C16","KZG trusted setups are algebraically consistent and survive serialisation",
 "A trusted setup built from a secret, on powers of a root of unity or on the natural domain, and the built-in one, satisfies the defining relations (the Lagrange basis and the opening points belong to one secret over the stated domain), so that commitments open at every index to the committed value and to no other value. Serialising a setup and reading it back, from bytes or file, gives an equal working setup; degenerate secrets or domains and malformed bytes are rejected.",
 ["inputs","configurations"],"all secrets, domain sizes, roots of unity, vectors and indices",
 "Tests build a handful of setups with fixed parameters and read back only the kind with a root of unity.",
 [KT,KF,KU,KS,"models/trie_kzg_bn256/constants.go"],[("generatePowers/generateFromNaturalDomain/precalculate",KT),("read/write/TrustedSetupFromBytes",KT),("commit/prove/verify",KF),("powerBig/GenRootOfUnityQuasiPrimitive",KU)],["TrustedSetup fields","pairing checks"])
p("C17","Trie nodes serialise faithfully in the documented layout",
 "Writing a node and reading it back gives the same path fragment, children and value commitment - the latter restored from the node, from the key or from the value store as the flags say - for every arity and model, with the same node commitment. The bytes follow the documented layout (flags, encoded fragment, terminal, child bitmap of the arity's width, child commitments in index order), do not depend on anything but the node, and a node that commits to nothing cannot be written.",
 ["inputs","configurations"],"all nodes: fragments of any length, any subset of children including the highest index, hash size and 32, any arity and model, all terminal sources",
 "Tests round-trip two or three tiny nodes per configuration against the library's own reader.",
 [ND,BM,KM,NO,UT],[("NodeData.Write/Read",ND),("cflags",ND),("terminalCommitment.Write/Read",BM),("vectorCommitment.Write/Read",KM)],["trie.NodeDataFromBytes","NodeData.Write"])
p("C18","Key encodings are exact inverses and reject everything else",
 "Unpacking a key and packing it again is the identity, unpacking preserves and reflects the prefix order of keys, and encoding and decoding unpacked keys of any length (also not a whole number of bytes) are inverse bijections, so distinct unpacked keys never share a storage key. Elements too large for the arity and encodings that no key produces are rejected with an error.",
 ["inputs","configurations"],"all byte strings and all unpacked keys of all lengths, valid and invalid, arities 2, 16 and 256",
 "Tests encode a few short keys; odd lengths, padding bits and invalid elements at particular positions are barely sampled.",
 [EN],[("UnpackBytes/PackUnpackedBytes",EN),("EncodeUnpackedBytes/DecodeToUnpackedBytes",EN)],["trie.EncodeUnpackedBytes","trie.DecodeToUnpackedBytes"])
p("C19","Key/value streams and dump files reproduce exactly what was written",
 "Writing any sequence of pairs to a binary stream or dump file and reading it back yields exactly that sequence (for dumps: that store contents), in the documented length-prefixed layout, with correct counts and byte sizes, for any chunking of the underlying reader and early stop of the iteration. A stream or file cut inside a record, or an I/O error of the underlying reader or writer, is reported as an error after the complete records, never as a clean end, a panic or invented data.",
 ["inputs","fault_sequences"],"all sequences of pairs (empty keys and values, values of any length), all cut points, all reader chunkings, errors at any read or write",
 "Tests write and read back one random file; no test truncates, chunks or fails the stream.",
 [KV,UT],[("BinaryStreamWriter/BinaryStreamIterator",KV),("DumpToFile/UnDumpFromFile",UT),("ReadBytes16/32, WriteBytes16/32",UT),("ByteSize/NumEntries",UT)],["KVStreamIterator.Iterate","trie.UnDumpFromFile"])
p("C20","Key/value stores behave as a map, each partition on its own",
 "The in-memory store and a hive.go store seen through an adaptor prefix behave as a map from keys to non-empty values: a read returns the last value set, setting an empty value removes the key, and iteration visits each present pair exactly once with its own key until told to stop. Adaptors on prefixes of which neither is a prefix of the other never see or change each other's pairs, and an error of the underlying store is never hidden as absence of a key or as success.",
 ["histories","fault_sequences","inputs"],"all histories of sets, deletes, reads and iterations over several partitions of one store, with store errors injected at any operation",
 "Tests use the adaptor on one partition for loading a trie, never against a model, with no neighbour prefixes and no failing store.",
 [HA,KV],[("HiveKVStoreAdaptor Get/Has/Set/Iterate",HA),("makeKey",HA),("inMemoryKVStore",KV)],["KVStore methods"])
p("C21","Batched updates are atomic: stored values and stored trie always agree",
 "With the batched updater nothing is visible in the underlying store before its commit, which applies all value and node changes in one batch. After every commit, successful or failed at any point and whether or not retried or reopened, the value partition holds the result of a whole number of batches and the trie persisted in the trie partition commits to exactly these values; a failed commit reports the error and loses no update when it is retried.",
 ["fault_sequences","crash_points","histories"],"all update histories split into batches, with a failure of batch creation, batch commit or flush or a crash at any commit, followed by retry or reopening",
 "Tests run the updater on a store that never fails and reopen it once.",
 [HA,T,NS],[("HiveBatchedUpdater.Update/Commit",HA),("PersistMutations into the batch",NS)],["underlying kvstore contents","HiveBatchedUpdater.Commit error"])
p("C22","Reconcile reports exactly the store entries the trie does not commit to",
 "Reconciling a trie with a key/value store returns exactly the keys of the store whose pair is not in the trie's contents: nothing for a store equal to or a subset of the contents, and every key that is missing in the trie or has another value there. It works on empty tries, uncommitted, persisted and reopened ones, with every option.",
 ["inputs","histories","configurations"],"all contents and all stores differing from them by changed, added and removed pairs, for "+CFG,
 "Tests reconcile equal stores and one modified store, never an empty trie or stores whose keys fall on valueless branch points.",
 [T,PR],[("Reconcile",T),("proofPath",PR)],["Trie.Reconcile"])
p("C23","A sub-state's commitment can be taken from a proof",
 "If a state holds a value at a prefix, the commitment to the terminal node taken from a valid proof of the prefix equals the root commitment of the trie that contains just the pairs under that prefix with the prefix removed, up to the path fragment being the one the node has in the full state; so it depends only on the pairs under that prefix and on where its node is attached, and changes whenever one of them changes.",
 ["inputs","configurations"],"all contents with values at prefixes of other keys, all changes inside and outside the sub-state",
 "Tests compute it for a couple of fixed sub-states and compare only with a hash inside the same proof.",
 [BV,BP,BM],[("CommitmentToTheTerminalNode",BV),("hashIt",BV)],["trie_blake2b_verify.CommitmentToTheTerminalNode"])
p("C24","Callers' buffers and earlier results are isolated from the trie",
 "The trie never depends on buffers handed to it after the call returns: overwriting the key or value slices passed to updates, deletes, lookups or proofs changes nothing. Roots, proofs, clones' results and node bytes obtained earlier are not changed by later operations, and changing a returned proof or root does not affect the trie.",
 ["histories","inputs","configurations"],"all histories in which key and value buffers are reused or overwritten after each call, and results are kept over later operations, for "+CFG,
 "Tests pass freshly allocated buffers and use results at once.",
 [T,EN,BM,BP,HA,NO],[("UnpackBytes copy",EN),("CommitToDataRaw copy",BM),("CommitmentModel.Proof",BP),("batchWriter.Set",HA)],["trie.RootCommitment","Proof bytes"])
p("C25","Bulk and convenience operations are equivalent to single updates",
 "Updating a trie from a store or key/value iterator, inserting key commitments, and the string forms of update and delete have the same effect as the equivalent sequence of single updates and deletes; updating with an empty value is the same as deleting; a root commitment reads back from its bytes to an equal commitment.",
 ["inputs","histories","configurations"],"all stores, keys and values, on tries with prior contents, for "+CFG,
 "Tests use one form per scenario and never compare the forms with each other.",
 [T,KV],[("UpdateAll",T),("InsertKeyCommitment",T),("UpdateStr/DeleteStr",T),("VectorCommitmentFromBytes",T)],["trie.RootCommitment"])
p("C26","Independent tries and readers can be used concurrently",
 "Tries that share nothing but a commitment model, readers of one unchanging persisted trie, and stores, batched updaters and streams which share nothing, give the same roots, lookups, proof results and contents when used from several goroutines at once as when used one after another, without data races.",
 ["schedules","inputs","configurations"],"all interleavings of concurrent users of independent tries on one shared model and of concurrent readers, provers and validators of one persisted state",
 "Tests are sequential; a shared scratch buffer or cache in a model would only fail under concurrent use.",
 [BM,KM,KF,KT,NS,BV,KP],[("models hold no mutable state",BM),("Model singleton",KM),("nodeStore.getNode reads only",NS)],["results of concurrent operations","Go race detector"])
p("C27","The random stream generator is reproducible and within its bounds",
 "Random key/value streams with equal parameters yield equal sequences, exactly the requested number of pairs over one or several calls, with every key and value between one byte and the stated maximum length, different ones for different seeds; stopping early stops at once.",
 ["inputs","configurations"],"all seeds, counts and maximum lengths including 1",
 "Tests use one parameter set.",
 [KV],[("RandStreamIterator.Iterate",KV)],["RandStreamIterator.Iterate"])
p("C28","Commitments compare, copy and serialise as values",
 "For every commitment model two commitments of the same kind are equal exactly if they commit to the same: equality holds exactly for commitments with the same content (whether a value is stored with the node does not matter), nothing but nil equals nil, and equal data or nodes give equal commitments. A clone equals its original and is not affected by it. Serialising a commitment and reading it back gives an equal one, takes exactly its bytes from the stream, and keeps whether the value must be stored with the node. Committing to empty data gives no commitment.",
 ["inputs","configurations"],"all data and nodes, all pairs of commitments to them, for "+CFG,
 "Tests compare a few commitments which differ grossly; comparisons by prefix or pointer, or state kept in a reused object, show only for near pairs.",
 [BM,KM,"trie/commitment.go",UT],[("equalCommitments",BM),("equalCommitments",KM),("CheckNils",UT),("Read/Write/Clone of commitments",BM)],["CommitmentModel.EqualCommitments","VCommitment/TCommitment Read, Write, Clone"])
p("C29","Encoding primitives round-trip and every serialisation reports I/O errors",
 "Bytes, 16 and 32 bit numbers and length-prefixed byte strings read back exactly as written in the little-endian layout; data too long for its length field is refused; reading takes exactly the bytes of the item, whatever the chunking of the stream, and an item cut short or an error of the reader is reported as an error, end of stream only where nothing of the item is there. Writing any proof, proof element, node or commitment to a writer which fails at any point returns the writer's error, having written a prefix of the encoding; the size function gives the number of bytes.",
 ["inputs","faults"],"all values and lengths up to and beyond the limits of the length fields, all serialisable objects, all failure points of writer and reader",
 "Tests write to memory buffers, which never fail or deliver in parts.",
 [UT,BP,KP,ND,BM,KM],[("WriteBytes8/16/32, ReadBytes8/16/32, ReadUint16/32",UT),("Size/MustBytes",UT),("Proof.Write/ProofElement.Write",BP),("NodeData.Write",ND)],["errors returned by Write and Read"])
KG="models/trie_kzg_bn256/kzg_setup/kzg_setup.go"
p("C30","The setup generator program makes a working trusted setup from the seed, or fails visibly",
 "The kzg_setup program asks for a seed of at least the minimum length, again if it is shorter, never shows it, and writes to the named file (binary, or a Go source file holding the same bytes) a trusted setup which reads back, has 258 distinct domain elements and a repeated hash of the seed as its secret, whatever was in the file before. Without a terminal, at the end of the input, with too many arguments or when the file cannot be written completely it ends with an error and does not report success.",
 ["inputs","faults"],"all seeds, sequences of too short answers, file names and previous contents, and faults of terminal and file",
 "No test runs the program; its result is a file which everything later depends on and its failures only show with particular terminals and files.",
 [KG,KT,KS],[("main/generate loop",KG),("writeToFile",KG),("TrustedSetupFromSeed",KT)],["exit status, output and file of the program"])
TB="examples/trie_bench/main.go"
p("C31","The trie_bench tool makes, scans and generates databases truthfully",
 "The trie_bench program generates files with exactly the requested number of records within the given bounds; makes from such a file, in memory or in a badger database, every record's last value and a complete trie of them, showing the root commitment and number of records, or stores just the values if asked for no trie; and its scan of a database ends without error exactly if every stored value is proven by the stored trie, showing the same root. A database which exists is not written to, and a missing or truncated file, missing arguments, an altered value, a value unknown to the trie or a missing trie end with an error. This holds for all arities, hash sizes, thresholds, key commitment options and numbers of records including none.",
 ["inputs","faults","configurations"],"all record files, cut at any byte, all options, all alterations of the database between making and scanning",
 "No test runs the program.",
 [TB,HA,KV],[("file2kvs/file2kvsNoTrie",TB),("scandbbadger",TB),("genrnd",TB),("NewHiveBatchedUpdater",HA)],["exit status, output, file and database of the program"])
p("C32","Texts of tries, nodes, proofs and commitments are truthful and have no effects",
 "Every text form - Info, description, cache dump, texts of nodes, node data, generic and KZG proofs and commitments - can be taken at any moment in any state, of a trie, its clone or a reader, without a panic and without changing any later root, lookup or persisted node. The same state gives the same text. A node's text shows its key, path fragment, value commitment if it has one, and the number of children, node data show every child, the dump of a trie shows every cached node with its commitment, a KZG proof all its elements. Texts of value commitments are equal exactly if the commitments are, and Info, description and short name tell configurations apart.",
 ["inputs","histories","configurations"],"all histories, all moments at which texts are taken, for "+CFG,
 "Tests print a few texts and look at none; nodes without a value and effects on later commits need particular states.",
 [T,NS,ND,NO,PR,BM,KM,KP],[("ToString",NO),("NodeData.String",ND),("dangerouslyDumpCacheToString",NS),("Info",T),("ProofOfInclusion.String",KP)],["trie.ToString","NodeData.String","Trie.Info","TrieReader.Info","Trie.DangerouslyDumpCacheToString","String methods of commitments and proofs"])
p("C33","Work is bounded by what is touched, not by the size of the trie",
 "Opening a trie or reader and cloning read nothing. A lookup, proof, update or deletion on a persisted trie of any size reads from the node store only nodes on the path of its key (a deletion also the child a node is merged with), about as many as the path is long, and from the value store only what these nodes need; nodes once read or made stay in the cache until it is cleared and are not read again. A commit calculates only commitments of nodes on the paths of the keys updated since the last commit, and none if there were no updates. Persisting writes only nodes touched since the cache was cleared, nothing if nothing was, and returns the number of writes.",
 ["histories","inputs","configurations"],"all histories on tries of any size and shape, for the blake2b configurations",
 "Tests compare results, which stay right when everything is read or calculated again.",
 [T,NS,PR],[("getNode",NS),("commitNode",T),("checkReorg",T),("persistMutations",NS),("clone",NS)],["number and keys of reads and writes of the stores","number of calls of CalcNodeCommitment and UpdateNodeCommitment","result of PersistMutations"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
