#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G="the assurance is that of the search: nothing is shown beyond the generated cases; trusted: the harness' reference model, the Go toolchain"
T={
"C01":("stateful property-based testing, metamorphic oracle (same contents inserted once)","random histories, shrunk failures"),
"C02":("stateful property-based testing against an independent reference implementation of the trie definition","also trusts x/crypto blake2b and the kyber bn256 group operations, which the reference uses"),
"C03":("property-based testing: metamorphic variants of contents must have different roots","two kinds of collisions by construction of the encoding are listed as known findings and recognised by class, so another collision of these classes is not reported"),
"C04":("stateful model-based testing of lookups against a map and the canonical radix tree",""),
"C05":("stateful model-based testing, differential oracle (byte-equal store of a freshly built trie; reopened trie and reader vs. memory)",""),
"C06":("stateful model-based testing with stores which record writes; rollback compared with a reopened trie",""),
"C07":("stateful model-based testing of several clones, each against its own model",""),
"C08":("differential property-based testing over storage options",""),
"C09":("stateful property-based testing of proofs against the model's contents, with an independent verifier","no value other than the tried ones is shown to be rejected"),
"C10":("property-based testing with forged proofs built by an independent prover; truth decided by the model's contents","assumes blake2b collisions are not found; ambiguity by zero padding is a known finding, recognised by class"),
"C11":("round-trip and differential testing against an independent writer of the layout",""),
"C12":("structured mutation fuzzing of every decoder, exhaustive truncation, panics caught",""),
"C13":("stateful property-based testing against an independent KZG prover (byte-equal proofs)","trusts the pairing library"),
"C14":("property-based testing with forged KZG proofs built by an independent prover; truth decided by the model's contents","trusts the pairing library and uniqueness of openings; the unbound key is a known finding"),
"C15":("property-based testing of node updates, differential oracle (commitment from scratch by an independent reference)",""),
"C16":("property-based testing of trusted setups against their defining relations in exponents and pairings","trusts the pairing library"),
"C17":("round-trip and differential testing of node bytes against an independent writer",""),
"C18":("property-based testing plus exhaustive enumeration of short encodings against an independent description",""),
"C19":("round-trip testing with injected reader/writer faults and every cut point",""),
"C20":("stateful model-based testing with injected store faults against maps",""),
"C21":("fault enumeration over generated batch histories (every fault at every batch) against a model","assumes that a batch of the underlying store is atomic"),
"C22":("property-based testing of Reconcile against set difference of the model",""),
"C23":("metamorphic property-based testing of sub-state commitments against the definition and a separate trie",""),
"C24":("stateful metamorphic testing: buffers overwritten after each call, results frozen and compared",""),
"C25":("differential property-based testing of equivalent call forms",""),
"C26":("randomised concurrent schedules under the Go race detector, differential oracle (sequential results)","interleavings are those the scheduler produces"),
"C28":("property-based testing of commitments as values against an independent normal form",""),
"C29":("round-trip testing of primitives and serialisation with injected reader and writer faults",""),
"C30":("property-based testing of the program in a pseudo-terminal with faults of terminal and file, against the defining relations of the setup","trusts the pairing library"),
"C31":("property-based testing of the program with file faults and altered databases, against the reference trie and the contents of the database",""),
"C32":("stateful metamorphic testing: histories with and without texts taken, texts against the state",""),
"C33":("stateful property-based testing with stores which record every access and a model which counts calculations","constant slack: up to a few accesses more than needed are accepted"),
"C27":("property-based testing of stream parameters and stop points against counts, bounds and repetition",""),
}
checks=[]
for k,(t,n) in T.items():
    checks.append({"property":k,"quick_cmd":f"bash check.sh {k} quick","thorough_cmd":f"bash check.sh {k} thorough",
      "evidence_file":f"evidence/{k}.json","technique":t,"level":"fault_enumeration" if k=="C21" else "exploration",
      "level_note":(n+"; " if n else "")+G})
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks: the checks use the exported API of /repo only","source_commits":[]},
 "checks":checks,"not_applicable":[],
 "notes":"Commits in /repo are repairs (fix:) only; see known_findings.txt and DESIGN.md. bash check.sh replay FILE re-runs a recorded case."}
open(os.path.join(V,"MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
