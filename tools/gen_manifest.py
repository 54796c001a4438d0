#!/usr/bin/env python3
# Generates /verif/MANIFEST.json.
import json,sys
CL={} # id -> (level, technique, note)
def c(i,level,tech,note): CL[i]=(level,tech,note)
MC="model_checking"; FE="fault_enumeration"
HIST="stateless exploration of the real code: every commit history up to a depth over small colliding key universes, plus every member of the tree-shape families"
TR="Trusts SHA-256 collision freedom on the explored inputs and the independent reference model in mc/src/spec.rs; versions are committed contiguously."
c("C01",MC,HIST+"; each read compared with a per-version map","Holds for every (key, version) read after every explored history; not beyond the stated depths and key families. "+TR)
c("C02",MC,HIST+"; each root compared with an independently written sparse-Merkle hash","Two hash functions. "+TR)
c("C03",MC,HIST+"; each read's proof compared with the reference proof, verified, and presented for false claims","The decoded proof must equal the unique reference proof or at least be accepted by an independent verifier. "+TR)
c("C04",MC,"exhaustive attacker enumeration: every proof assembled within bounds from known hashes, leaves and siblings, against every false claim on every small tree","Attacker closure is bounded (terms known from the tree, other trees and the claims; edits of honest proofs). "+TR)
c("C05",MC,HIST+"; each batch's update proof verified for the true transition and for neighbouring false ones","Covers ordered update lists within the alphabets. "+TR)
c("C06",MC,"exhaustive attacker enumeration of update proofs (every per-step proof assembled from known terms, every update, every candidate new root) on every small tree","As C04, for transitions. "+TR)
c("C07",MC,"exhaustive enumeration of decodable proof shapes (every length 0..=600 around the limits, every leaf/sibling kind and pattern) against every claim; each call must return","Shapes beyond the enumerated lengths and patterns are not covered. Built with overflow checks on.")
c("C08",MC,"exhaustive schedule exploration: every placement of later commits between the storage reads of a reader pinned to a committed version, plus a write-set disjointness check on every commit","The store is a controlled seam, so every interleaving point of the single-threaded library is covered. "+TR)
c("C09",MC,HIST+"; prune at every version, compare reachable node sets and all answers, keep writing","Reachability is computed by walking raw storage. "+TR)
c("C10",FE,"exhaustive crash-point enumeration: every subset (for larger batches, every prefix of several orders and every single missing or single surviving record) of a commit's records on disk, then reads and retries","Torn batches are subsets of whole records (records are atomic). One known finding is listed in known_findings.txt. "+TR)
c("C11",MC,HIST+"; every split of a history into calls, every permutation of a batch, every write interface compared","Bulk interface compared only for insert-only histories. "+TR)
c("C12",MC,HIST+"; iteration from every relevant starting key and every index compared with the sorted map",TR)
c("C13",MC,HIST+" for honest range proofs, and exhaustive attacker enumeration of range proofs, leaves and left parts on every small tree",TR)
c("C14",MC,"exhaustive enumeration of chunkings (every cut of every small tree, structured cuts of larger ones) fed to the real restore, compared with the tree built by writing",TR)
c("C15",FE,"exhaustive interruption enumeration: every stop point (between chunks, at every write, after the last) and every re-chunking, resumed on the same storage","Batch writes of the store are atomic, as documented by the code. "+TR)
c("C16",MC,"exhaustive enumeration of tampered chunks and proofs at every position of every small restore, followed by continuation",TR)
c("C17",MC,HIST+" over keys with real SHA-256 key hashes; each ics23 proof checked by the ics23 verifier under the published spec and against the true neighbours",TR)
c("C18",MC,"exhaustive attacker enumeration: every ics23 proof assembled from honest parts and bounded edits against every false claim on every small tree","The ics23 crate (0.11) is the verifier; a panic in it counts as rejection. "+TR)
c("C19",MC,HIST+"; every produced record and proof encoded, decoded, truncated at every byte and extended, and the tree re-read from encoded storage",TR)
c("C20",MC,HIST+"; counts and statistics compared with raw storage and the model",TR)
c("C21",MC,"explicit-state exploration: every sequence of store operations up to a depth on the real store against a model",TR)
c("C22",MC,"exhaustive exploration of histories mixing commits, appends and pruning against the model",TR)
c("C23",FE,"exhaustive fault enumeration: a failure at every storage call (and pairs of calls) of every operation after every explored history","Faults are errors returned by the storage trait. "+TR)
c("C24",MC,HIST+"; every unknown and every pruned version asked through every interface, also after every partial pruning (every subset of the due nodes, or of larger sets prefixes, suffixes, singles)",TR)
c("C25",MC,HIST+"; the batch of each commit and the recorded storage accesses of each commit and read compared with the paths of the keys concerned","How often one record may be read in one operation is bounded generously (8 times, per update for commits). "+TR)
c("C26",MC,"explicit-state exploration: every sequence of batch operations up to a depth against a model; every history's batches merged in every split and compared with writing them singly",TR)
c("C27",MC,"explicit-state exploration: every node of every version of every explored history walked and compared with the map it stands for; every short path, every length, every interleaving of the two iterator ends, all pairs of keys",TR)
c("C28",MC,"stateless exploration with a controlled scheduler: every interleaving of the lock acquisitions of threads sharing the real in-memory store, checked for linearizability against the calls in every order","The store's locks are replaced, in this check's build only, by ones with scheduling points; between a release and the next acquisition a thread touches nothing shared (safe Rust without other synchronisation). Longer programs up to a number of preemptions. "+TR)
c("C29",MC,HIST+", on the library built without its std feature; with the oracles of C02, C09, C11, C20, C21, C22 and C24","A build of its own (nostd/) of the same explorer; bounds as in the quick tiers of those checks. "+TR)
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
skip=set(sys.argv[1:])
m={"version":1,"setup_cmd":"(cd mc && cargo build --release --offline -q) && (cd conc && cargo build --release --offline -q) && cd nostd && cargo build --release --offline -q",
"checks":[{"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"./check {i} --tier thorough","evidence_file":f"evidence/{i}.json","technique":CL[i][1],"level":CL[i][0],"level_note":CL[i][2]} for i in props if i not in skip],
"not_applicable":[{"property":i,"reason":"check under construction"} for i in props if i in skip],
"notes":"No hooks in /repo: every check uses only the public API (features mocks and migration). ./check <id> rebuilds mc/ against /repo's working tree. Repaired and known defects: known_findings.txt."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
