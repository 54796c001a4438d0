#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the text is reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every committed version reads back exactly what history wrote",
  "After any history of committed batches of insertions, overwrites and deletions, reading any key at any committed version returns the value of the last write to that key at or before that version, and nothing if that write was a deletion or never happened. Plain reads, reads that return a proof, and reads that return a proof of exclusion all give that same answer. Commits that change nothing, including the first one made on an empty store, still make their version readable.",
  ["histories","inputs"],"every history of versioned batches over every key shape, and every (key, version) read afterwards",
  "The tests sample a few histories and mostly read the latest version; the answer depends on the whole history of splits, collapses and no-op versions.",
  ["src/tree.rs","src/tree_cache.rs","src/node_type.rs"],
  [("recursive insert/delete with splitting and collapsing","src/tree.rs put / insert_at*"),("per-version cache and freeze (no-op root copy)","src/tree_cache.rs freeze"),("versioned lookup walk","src/tree.rs get_with_proof")],
  observe=["get","get_with_proof","get_with_exclusion_proof"])
p("C02","The root hash is the documented function of a version's contents alone",
  "The root hash reported for a version is the sparse-Merkle hash of exactly the key-value pairs live at that version: the fixed placeholder for an empty tree, the domain-separated leaf hash for a subtree with one pair, and the domain-separated hash of both halves otherwise. It does not depend on the order, grouping, versions or detours (overwrites, deletions, reinsertions) by which those contents came about. Different contents have different roots. The root returned by a write, the root later read for that version, and the root of a no-op version all agree with it.",
  ["histories","inputs"],"all histories reaching the same contents, all contents, all hash functions",
  "Unit tests compare a few fixed vectors and random insert orders; history independence quantifies over every history, including deletions that must collapse back to the canonical shape.",
  ["src/tree.rs","src/node_type.rs","src/tree_cache.rs","src/types/proof.rs"],
  [("4-level subtree hashing with bitmaps","src/node_type.rs merkle_hash"),("collapse on delete","src/tree.rs insert_at_internal_node"),("domain separated hashes","src/types/proof.rs")],
  observe=["put_value_set(s) return value","get_root_hash","get_root_hash_option"])
p("C03","Every read proof verifies for the true statement",
  "For every committed version and every key, the proof returned with the read verifies against that version's root for exactly what the tree contains: existence with the stored value, or non-existence. The same proof is rejected when it is presented for the opposite claim, for a different value, or against a different root.",
  ["histories","inputs"],"all tree contents and shapes (including depths up to 256 bits), all present and absent keys, all versions",
  "Tests verify proofs on sampled trees; the proof format depends on the position of every sibling at each of 256 levels and on which children are leaves.",
  ["src/tree.rs","src/node_type.rs","src/types/proof/definition.rs","src/bytes32ext.rs"],
  [("sibling construction inside a 16-way node","src/node_type.rs get_only_child_with_siblings / build_sibling"),("verification fold","src/types/proof/definition.rs verify")],
  observe=["get_with_proof","get_with_exclusion_proof","SparseMerkleProof::verify*"])
p("C04","No read proof convinces a verifier of a false statement",
  "For any honestly computed root, there is no proof, however it was built or altered, that a verifier accepts as showing a key to hold a value it does not hold, a present key to be absent, or an absent key to be present. Knowing all leaves and all subtree hashes of the tree, and of other trees, does not help.",
  ["inputs"],"all proofs an attacker can assemble from the hashes, leaves and siblings known to it, for every tree over a small key universe and every false claim",
  "Tests only try a handful of corrupted proofs; soundness quantifies over all attacker-built proofs.",
  ["src/types/proof/definition.rs","src/types/proof.rs","src/bytes32ext.rs"],
  [("key, value and prefix checks plus root recomputation","src/types/proof/definition.rs verify"),("domain separation of leaves and internal nodes","src/types/proof.rs")],
  observe=["SparseMerkleProof::verify","verify_existence","verify_nonexistence"])
p("C05","Update proofs verify the transition that really happened",
  "Whenever a batch of insertions, overwrites and deletions (including no-ops, repeats of a key and deletions of missing keys) is applied with proofs, the returned proof verifies against the old root, the new root and that list of updates. The same proof is rejected for a different new root, a different old root, or a different list of updates that leads to different contents. Applying the batch with proofs produces the same roots and the same storage changes as applying it without.",
  ["histories","inputs"],"every prior history and every batch applied to it, for all shapes",
  "Tests sample batches; computing the post-state from the proof must mirror splitting and collapsing at every depth and child pattern.",
  ["src/tree.rs","src/types/proof/definition.rs","src/node_type.rs"],
  [("proof collection during insertion","src/tree.rs insert_at* with_proof"),("recomputing the new path","src/types/proof/definition.rs check_compute_new_root / compute_new_merkle_path_on_split")],
  observe=["put_value_set(s)_with_proof","UpdateMerkleProof::verify_update"])
p("C06","No update proof convinces a verifier of a wrong transition",
  "For any honestly computed old root, a verifier accepts an update proof only for the new root that results from applying exactly the listed updates to the old contents. No forged or altered proof makes it accept an update that was skipped (such as a deletion of a present key passed off as a no-op), applied at the wrong place, or applied twice.",
  ["inputs"],"all update proofs an attacker can assemble from known hashes, leaves and siblings, for every small tree, every update and every candidate new root",
  "Existing tests check that honest proofs pass and a few tampered ones fail; the guarantee is about every possible proof.",
  ["src/types/proof/definition.rs"],
  [("old-root check and new-root recomputation","src/types/proof/definition.rs check_compute_new_root")],
  observe=["UpdateMerkleProof::verify_update"])
p("C07","Checking any proof an attacker can send ends in a verdict, never a crash",
  "Whatever proof a peer sends that can be decoded at all (read proof, update proof or range proof, of any length, with any leaf or none, and siblings of any kind), verifying it returns acceptance or an error. It never panics, overflows or hangs.",
  ["inputs"],"all decodable proofs, including those with more than 256 siblings, no leaf, foreign leaves and mismatched lengths, for all claims",
  "Tests feed well-formed proofs; a panic needs an ill-formed length or leaf combination.",
  ["src/types/proof/definition.rs","src/bytes32ext.rs"],
  [("length checks before indexing bits","src/types/proof/definition.rs verify / verify_update / range verify")],
  observe=["SparseMerkleProof::verify*","UpdateMerkleProof::verify_update","SparseMerkleRangeProof::verify"])
p("C08","Committed versions are immutable snapshots under concurrent commits",
  "Computing a new version only reads from storage and its write batch only adds records for the versions being created, never replacing or removing an existing record. Hence a reader pinned to a committed version gets exactly the answers it would get alone (values, proofs, roots, iteration), whatever commits of later versions land between any two of its storage reads.",
  ["schedules","histories"],"all interleavings of a reader's storage accesses with later commits, after every short history",
  "No existing test interleaves a reader with a commit in the middle of the reader's walk.",
  ["src/tree.rs","src/tree_cache.rs","src/iterator.rs","src/node_type.rs"],
  [("copy-on-write node keys carrying the version","src/node_type.rs NodeKey"),("versioned child pointers","src/node_type.rs Child")],
  observe=["TreeReader calls","TreeUpdateBatch contents"])
p("C09","Pruning by the stale-node index loses nothing that is readable and leaks nothing",
  "After deleting every node the batches reported stale at or before some version, that version and every later one answer every read, proof and iteration exactly as before. Each stored node that is no longer part of the newest version's tree is reported stale exactly once, with the first version that no longer uses it.",
  ["histories","inputs"],"every history, every pruning point in it, and continued writing after pruning",
  "Tests prune a few fixed histories; an off-by-one in the stale version or a missing or extra entry only shows for particular split/collapse/no-op sequences.",
  ["src/tree_cache.rs","src/tree.rs","src/mock.rs"],
  [("stale index collection","src/tree_cache.rs delete_node / freeze"),("pruning by stale-since version","src/mock.rs purge_stale_nodes")],
  observe=["TreeUpdateBatch.stale_node_index_batch","reads after pruning"])
p("C10","A commit torn by a crash is harmless and can simply be retried",
  "If a crash leaves only an arbitrary part of a version's write batch on disk, every earlier version still answers exactly as before. Recomputing the same version from that torn storage produces the identical root and batch, and a different batch for that version likewise produces exactly what it would on clean storage. Writing the recomputed batch then completes the version, whose reads, proofs and iteration are those of an undisturbed commit.",
  ["crash_points","histories"],"every subset (or every prefix in either order, for larger batches) of the records of a commit surviving the crash, after every short history",
  "There is no crash test at all; it quantifies over partial writes.",
  ["src/tree.rs","src/tree_cache.rs"],
  [("new nodes are only reachable from the new version's root","src/node_type.rs NodeKey"),("cache starts from the previous version's root","src/tree_cache.rs TreeCache::new")],
  observe=["put_value_set on torn storage","reads at earlier versions"])
p("C11","All ways of writing the same changes give the same tree",
  "Writing several versions in one call, one call per version, through the non-deleting bulk interface, or with proofs yields the same root hash for every version and trees that answer every read identically. Within a batch, the order of updates to different keys does not matter, and for repeated updates of one key only the last counts. Repeating a computation yields the identical result.",
  ["histories","inputs"],"every split of a history into calls, every permutation of a batch, every supported write interface",
  "Tests check equality of interfaces for random samples of insertions into fresh trees only.",
  ["src/tree.rs","src/tree_cache.rs"],
  [("sequential and bulk insertion","src/tree.rs put_value_sets / batch_put_value_sets"),("frozen cache reused across versions of a call","src/tree_cache.rs")],
  observe=["root hashes","TreeUpdateBatch","subsequent reads"])
p("C12","Iteration yields exactly the live pairs at a version, in key order",
  "Iterating a version from any starting key yields exactly the pairs live at that version whose key is not smaller than it, in increasing key order, each once with its value, and then ends. Iterating from any index yields exactly the pairs from that position on, and nothing if the index is past the end.",
  ["inputs","histories"],"every tree shape, every starting key (present, absent, in gaps, before the first and after the last) and every index",
  "Tests iterate a few shapes; the resume logic depends on where the starting key leaves the tree at each level.",
  ["src/iterator.rs","src/node_type.rs"],
  [("depth-first stack with child bitmaps","src/iterator.rs"),("skipping by leaf counts","src/iterator.rs skip_leaves")],
  observe=["JellyfishMerkleIterator::new","new_by_index","next"])
p("C13","Range proofs show exactly the true left part of the tree",
  "For every version and every key present in it, the range proof up to that key verifies against the version's root with that key's leaf and the true hashes of everything to its left; asking for one at an absent key is an error. No range proof, honest or altered, is accepted for a leaf that is not in the tree or together with wrong hashes for the part to its left.",
  ["inputs","histories"],"every tree shape, every rightmost key, and every proof and left part an attacker can assemble from known hashes",
  "Tests use range proofs only through a sampled restore.",
  ["src/tree.rs","src/types/proof/definition.rs"],
  [("selecting right siblings","src/tree.rs get_range_proof"),("combining left and right siblings","src/types/proof/definition.rs SparseMerkleRangeProof::verify")],
  observe=["get_range_proof","SparseMerkleRangeProof::verify"])
p("C14","Restoring from honest chunks rebuilds the identical tree",
  "Feeding all pairs of a tree in key order, cut into chunks anywhere, each with its honest range proof, is accepted chunk by chunk, and finishing leaves a tree at the chosen version whose root, reads, proofs, leaf count, iteration and nodes are those of a tree built by writing those pairs. The restored tree can be written to further.",
  ["inputs","histories"],"every tree shape, every way of cutting it into chunks, any version",
  "Tests restore sampled trees with few chunkings.",
  ["src/restore.rs"],
  [("left-to-right freezing","src/restore.rs add_one / freeze"),("chunk verification","src/restore.rs verify")],
  observe=["JellyfishMerkleRestore add_chunk / finish","store contents"])
p("C15","An interrupted restore resumes to the identical tree",
  "If a restore stops at any point (between chunks, on a failing write, or after its last write but before the caller learns of it) and a new restore is opened on the same storage, continuing after the last stored leaf, or simply overwriting from the beginning, ends with the same tree as an uninterrupted restore. Opening a restore on storage whose restore is already complete (and holds at least one pair) reports that instead of crashing or damaging it.",
  ["crash_points","inputs"],"every interruption point (any number of them), every chunking before and after, every tree shape",
  "Tests interrupt a sampled restore at one point.",
  ["src/restore.rs"],
  [("recovering partial nodes from storage","src/restore.rs recover_partial_nodes"),("rightmost leaf lookup","src/reader.rs get_rightmost_leaf")],
  observe=["JellyfishMerkleRestore::new on partially restored storage"])
p("C16","A restore never accepts or stores a wrong chunk or a wrong tree",
  "A chunk is accepted only if its pairs are exactly the next pairs of the tree with the expected root; a chunk with a missing, extra, altered, reordered or repeated pair, or with a wrong proof, is rejected with an error and nothing is written. Finishing succeeds only when the restored tree has the expected root; finishing too early is an error and does not produce a tree.",
  ["inputs","fault_sequences"],"every tampering of every chunk and proof at every position of a restore, followed by any continuation",
  "Tests only feed honest chunks.",
  ["src/restore.rs","src/types/proof/definition.rs"],
  [("verification of everything added so far","src/restore.rs verify"),("key order check","src/restore.rs add_chunk_impl")],
  observe=["add_chunk","finish","writes to the store"])
p("C17","Every ics23 proof is accepted by the published proof spec",
  "For every non-empty tree whose keys and values are non-empty byte strings, reading any key with an ics23 proof returns its value and an existence proof, or no value and a non-existence proof, and the standard verifier accepts it under the published spec for that root and key. A non-existence proof names exactly the closest present neighbours by key hash on each side, and omits a side only when there is none.",
  ["inputs","histories"],"every tree shape and every queried key: present, absent, left of all, right of all, in every gap",
  "Tests sample key sets; neighbour search depends on where the absent key leaves the tree.",
  ["src/tree/ics23_impl.rs","src/tree.rs"],
  [("neighbour search","src/tree.rs get_bounding_path / search_closest_extreme_node"),("translation of siblings to prefix/suffix","src/tree/ics23_impl.rs")],
  observe=["get_with_ics23_proof","get_with_exclusion_proof","ics23_spec"])
p("C18","No ics23 proof is accepted under the published spec for a false statement",
  "Under the published proof spec, the standard verifier rejects every existence proof for a pair that is not in the tree and every non-existence proof for a key that is, including proofs made of genuine parts: existence proofs of non-adjacent neighbours, swapped or missing sides, altered steps, or steps of other trees.",
  ["inputs"],"all proofs assembled from honest proof parts and bounded alterations, for every small tree and false claim",
  "Tests only check that honest proofs are accepted.",
  ["src/tree/ics23_impl.rs"],
  [("spec parameters","src/tree/ics23_impl.rs ics23_spec")],
  observe=["ics23_spec","ics23 verify functions"])
p("C19","Stored and transmitted data survives encoding unchanged",
  "Every node key, node, write batch, stale index and proof that the library produces decodes from its binary encoding, and where a text encoding is offered from that too, to an equal value that encodes to the same bytes, verifies and hashes the same, and different values never share an encoding. A tree read back from encoded storage answers exactly as the original; truncated or overlong encodings are rejected without a crash.",
  ["inputs","histories"],"every record and proof produced over all tree shapes, every truncation of each",
  "Tests round-trip a few samples per type.",
  ["src/node_type.rs","src/types/nibble/nibble_path.rs","src/types/proof/definition.rs","src/types/proof.rs","src/writer.rs","src/lib.rs"],
  [("derived encodings and their manual helpers","src/node_type.rs, src/types/proof/definition.rs")],
  observe=["borsh and serde encodings"])
p("C20","Leaf counts and node statistics are exact",
  "The leaf count reported for a version equals the number of keys live at it. The statistics returned with each version count exactly the nodes and leaves its batch adds and the nodes and leaves it makes stale.",
  ["histories","inputs"],"every history and shape, every write interface",
  "Tests check the numbers for a few fixed sequences.",
  ["src/tree_cache.rs","src/node_type.rs","src/tree.rs"],
  [("counting in the cache","src/tree_cache.rs put_node / delete_node"),("leaf counts in internal nodes","src/node_type.rs sum_leaf_count")],
  observe=["get_leaf_count","TreeUpdateBatch.node_stats"])
p("C21","The bundled in-memory store behaves as a versioned map with pruning",
  "The bundled in-memory store returns each written node, the newest value at or below the asked version (a deletion reading as no value), the leaf with the greatest key, and registered preimages; it refuses to overwrite a node when overwriting is off and refuses values pushed out of version order. Purging removes exactly the nodes reported stale at or before the given version and can be repeated.",
  ["histories"],"every sequence of store operations up to a depth, compared with a simple model",
  "Tests use the store only as scaffolding.",
  ["src/mock.rs","src/reader.rs","src/writer.rs"],
  [("value history lookup","src/mock.rs get_value_option / put_value"),("purging","src/mock.rs purge_stale_nodes")],
  observe=["MockTreeStore public methods","NodeBatch public methods"])
p("C22","Appending to the latest version equals having written it all at once",
  "Appending changes to the latest version gives the root and reads of that version's contents with those changes applied, leaves earlier versions untouched, and allows further appends and later versions. Nothing that is still readable is reported stale, and appending to a version that is not the latest, or to an empty store, is refused.",
  ["histories","inputs"],"every history followed by every sequence of appends (insertions, overwrites, deletions, no-ops) and later commits and pruning",
  "One sampled test appends once to a fresh tree.",
  ["src/tree.rs","src/tree_cache.rs"],
  [("overwriting cache","src/tree_cache.rs new_overwrite"),("append","src/tree.rs append_value_set")],
  observe=["append_value_set (migration feature)","reads afterwards","stale index"])
p("C23","A failing storage read never yields a wrong answer",
  "If storage fails on any read during a read, proof, iteration, write, append or restore-resume, the call reports an error or still gives exactly the right answer; it never crashes, never returns a wrong value, proof, root or batch, and a later retry gives the right answer. An iterator that reported a failure resumes with the pair it failed on, skipping and repeating nothing.",
  ["fault_sequences","histories"],"a failure at every storage call of every operation, after every short history and shape",
  "No existing test injects storage failures.",
  ["src/tree.rs","src/node_type.rs","src/iterator.rs","src/restore.rs","src/tree_cache.rs"],
  [("error propagation from the reader","src/tree.rs, src/node_type.rs build_sibling")],
  observe=["TreeReader errors","results of every public operation"])
p("C24","A version that is missing or pruned is reported, never answered wrongly",
  "Asking for the root, a proof, a range proof or an iteration at a version that was never committed yields an error (or no root), and the error for proofs identifies the missing root and its version. After pruning, including a pruning that stopped part way and removed only some of the stale nodes, each pruned version either still answers correctly or yields an error; it never crashes and never gives a wrong answer.",
  ["histories","inputs"],"every history, every unknown version and every pruning point",
  "Tests check one missing version on one tree.",
  ["src/tree.rs","src/lib.rs","src/iterator.rs"],
  [("missing root detection","src/tree.rs MissingRootError"),("stale roots","src/tree_cache.rs freeze")],
  observe=["get_with_proof","get_root_hash(_option)","get_range_proof","JellyfishMerkleIterator"])
p("C25","Commits and reads touch only the nodes along the keys they concern",
  "A commit writes and retires only nodes on the paths of the keys it updates, plus leaves directly beside those paths that have to move when a node is split or collapsed; every other subtree is shared with the previous version, unchanged and under the same node keys, and values are written only for updated keys. Computing it reads only nodes of the previous version that lie on those paths or directly beside them. A read of a key at a version reads only nodes of that very version, on the key's path or directly beside it (for an exclusion proof, also those of the two neighbouring keys), and no other key's value; a root hash or leaf count reads only the root node, and an iteration reads only the part of the tree from its starting key on. None of them reads a node over and over, and none of them writes or uses records of later versions.",
  ["histories","inputs"],"every history and tree shape, every update, every key and version read",
  "Tests compare results, not which nodes were read, rewritten or shared; a commit that copies too much, or a read that strays into other subtrees or versions, gives the same answers on a complete store.",
  ["src/tree.rs","src/tree_cache.rs","src/iterator.rs","src/node_type.rs"],
  [("copy-on-write along the path","src/tree.rs put / insert_at*"),("bulk insertion along shared prefixes","src/tree.rs batch_insert_at"),("lookup walk and sibling reads","src/tree.rs get_with_proof, src/node_type.rs get_child_with_siblings"),("iterator descent","src/iterator.rs new / new_by_index / next")],
  observe=["storage accesses made through TreeReader","TreeUpdateBatch"])
p("C26","Write batches combine as maps, so commits can be merged and written at once",
  "A write batch holds exactly what was put into it: for each node key and each (version, key) the last node or value (or deletion) inserted, extended or merged, and nothing after it is cleared; its lookups, views, emptiness and equality agree with that. Merging batches is associative, the right-hand side wins, and writing the merged batch of a history of commits stores the same as writing the commits' batches one after the other.",
  ["histories","inputs"],"every sequence of batch operations, every history and every way of merging its batches",
  "Tests never merge, extend or clear batches with overlapping contents or deletions.",
  ["src/writer.rs","src/mock.rs"],
  [("map-backed batch","src/writer.rs NodeBatch"),("writing a batch","src/mock.rs write_node_batch")],
  observe=["NodeBatch::{new,insert_node,insert_value,extend,merge,clear,get_node,nodes,values,is_empty}","TreeWriter::write_node_batch"])
p("C27","Stored nodes, node keys and paths describe themselves truthfully",
  "Every stored node says of itself what its subtree holds: its children (by slot, in order, as bitmaps), their hashes, versions, kinds and leaf counts, its own hash and leaf count, and which record a lookup of a slot leads to. A path behaves as the sequence of its nibbles in every accessor (length, indexing, last, both iterators from either end and part way through, printing, rebuilding from nibbles). Node keys sort by version, then path length, then nibbles, and stale records by the version since which they are stale; equal values hash equally.",
  ["histories","inputs"],"every node of every version of every history and shape; every path up to a length and of every length, every order of taking from the two ends, all pairs of keys of a pool",
  "Storage implementations inspect, index and prune by these; tests look at a few sampled paths and nodes.",
  ["src/node_type.rs","src/types/nibble/nibble_path.rs","src/types/nibble.rs","src/writer.rs"],
  [("packed nibbles","src/types/nibble/nibble_path.rs push / get_nibble / NibbleIterator / BitIterator"),("children and bitmaps","src/node_type.rs Children, InternalNode"),("derived orders","src/node_type.rs NodeKey, src/writer.rs StaleNodeIndex")],
  observe=["NodeKey, NibblePath, Node, LeafNode, StaleNodeIndex public methods"])
p("C28","Threads sharing one in-memory store never see each other's work half done",
  "Threads that share one in-memory store (reading, writing node batches, pruning, setting leaves and preimages) always get the outcome their calls would have had one after the other, in an order that respects which call was over before another began; of a whole update batch, the nodes and values appear at once and before its stale records. So a version, once its root can be read, reads completely while it is being committed; reading, proving and iterating over a version are undisturbed by a concurrent commit and by concurrent pruning that keeps it; a version being restored is either missing or complete; and no threads wait for each other forever.",
  ["schedules"],"every interleaving of the lock acquisitions of two threads with one or two calls each and three with one, of readers against commits, pruning and restores",
  "The store is shared behind a lock and has Send and Sync handles; tests use it from one thread only.",
  ["src/mock.rs","src/reader.rs","src/iterator.rs","src/restore.rs"],
  [("one lock around nodes, values and stale records","src/mock.rs MockTreeStore"),("write_node_batch, purge_stale_nodes, put_leaf under one acquisition","src/mock.rs")],
  observe=["MockTreeStore public methods","Sha256Jmt reads and put_value_set","JellyfishMerkleIterator","JellyfishMerkleRestore"])
p("C29","Built without the standard library, the crate gives the same guarantees",
  "With default features off (no std; another hash map, another error type), every write gives the documented roots, nodes, stale records and statistics, every version reads, prunes and appends as specified, all write interfaces agree (also with node hashes supplied in a map), the in-memory store behaves as its model, and a missing version is reported by an error that names it.",
  ["histories","inputs"],"the histories, store operations, prunings, appends and interfaces of C02, C09, C11, C20, C21, C22 and C24, on the build without std",
  "The code takes other branches without std, and the tests look at a few histories there.",
  ["src/lib.rs","src/tree.rs","src/tree_cache.rs","src/mock.rs"],
  [("hashbrown maps in place of std's","src/tree.rs, src/tree_cache.rs, src/mock.rs"),("MissingRootError without thiserror","src/lib.rs")],
  observe=["the public API with default-features = false"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
