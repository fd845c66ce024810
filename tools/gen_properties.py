#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

MI = "gaoya/src/minhash/minhash_index.rs"
MM = "gaoya/src/minhash/mod.rs"
SI = "gaoya/src/simhash/sim_hash_index.rs"

prop("C01", "A MinHash signature is a function of the token set alone",
 "For every hash width, number of hashes, seed and token hasher, the signature of a collection of tokens depends only on the set of distinct tokens: order, repetition, the concrete hasher instance, the thread or process it runs in and the route (one at a time or bulk) never change it, and it always has exactly the configured number of entries. The full-width (32 and 64 bit) signature of a union is the position-wise minimum of the parts' signatures; the 8 and 16 bit signatures are the low bits of the 32 bit one built with the same seed. An empty collection gives the all-zero signature.",
 ["inputs", "configurations"], "all token multisets, orders, splits into sub-collections, widths 8/16/32/64, seeds, hashers, signature lengths",
 "Tests compute a similarity for two fixed sentence pairs with 128/200 hashes; no test compares signatures across orders, multiplicities, instances, unions or widths.",
 ["gaoya/src/minhash/min_hasher.rs", "gaoya/src/minhash/min_hasher64.rs", MM],
 [("affine hash family applied to every token hash, minimum per function", "make_min_hasher! / MinHasher64V1::create_signature"), ("bulk routes map create_signature over the batch", "MinHasher::bulk_create_signature[_refs]")],
 ["create_signature", "bulk_create_signature", "bulk_create_signature_refs", "num_hashes"])

prop("C02", "MinHash similarity is an accurate estimate of Jaccard similarity",
 "For any two token sets and any supported hash width, the fraction of agreeing signature positions estimates the sets' Jaccard similarity: it is exactly 1 for equal sets, its average over sets of a given overlap is unbiased (up to a small rate of accidental matches of truncated hashes), and its spread shrinks like sqrt(J(1-J)/num_hashes). Different positions of a signature therefore behave like independent hash functions, for every seed and every supported token hasher, and different seeds give different hash functions.",
 ["inputs", "configurations"], "all pairs of token sets (any sizes and overlap), widths, seeds, hashers, signature lengths",
 "Tests check two sentence pairs with tolerance 0.1-0.15, which a badly biased, correlated or seed-ignoring hash family still passes.",
 ["gaoya/src/minhash/min_hasher.rs", "gaoya/src/minhash/min_hasher64.rs", MM],
 [("per-function random multiplier and offset", "new_with_hasher_and_seed"), ("minimum over all token hashes", "create_signature")],
 ["MinHasher::compute_similarity", "compute_minhash_similarity", "compute_jaccard_similarity"])

prop("C03", "Similarity and distance functions compute the exact measure",
 "On any two equally long non-empty signatures the minhash similarity is exactly the fraction of equal positions, and on any two collections with a non-empty union the Jaccard similarity is exactly |intersection|/|union| of the distinct elements; both are symmetric, lie in [0,1], are 1 exactly on equal inputs, and the distances are one minus them. The threshold predicate answers true exactly when the similarity is at least the threshold. Signatures of different lengths are refused rather than compared.",
 ["inputs"], "all pairs of signatures (any length >= 1, any integer width), all pairs of collections, all thresholds in [0,1]",
 "One doc test compares a single pair one-sidedly (without abs()), and nothing tests the threshold predicate or the distances.",
 [MM],
 [("zip/count of equal positions", "compute_minhash_similarity"), ("set intersection over union", "compute_jaccard_similarity"), ("early-exit match count", "similarity_greater_than_threshold")],
 ["compute_minhash_similarity", "compute_minhash_distance", "compute_jaccard_similarity", "compute_jaccard_distance", "similarity_greater_than_threshold"])

prop("C04", "Computed banding parameters meet the requested collision probability",
 "For every similarity in (0,1], hash budget of at least 1 and probability in (0,1), the computed (bands, rows) are both at least one, never need more hashes than the budget and use every whole band that fits into it. Whenever rows > 1, two sets at the given similarity share a bucket with probability greater than the requested one (0.99 by default), and the rows are the widest reachable: one more row would miss the probability or there is a single band left.",
 ["inputs"], "all similarities, budgets and probabilities",
 "Two fixed doc-test points with the default probability.",
 [MM], [("greedy widening of bands while the S-curve probability holds", "calculate_b_and_r")],
 ["calculate_minhash_params", "calculate_minhash_params_with_proba"])

prop("C05", "Index queries return exactly the live similar candidates after any history",
 "After any sequence of single and bulk insertions, overwrites, removals, bulk removals, clears and capacity changes, a MinHash index query returns every live id whose current signature shares at least one band with the query and has similarity at or above the threshold, and never an id that was removed or whose current signature is below the threshold; ids that were never overwritten are returned only if they share a band. Borrowed, owned, by-id and clustering-interface queries all give this same set, and unknown ids give the empty set. Signatures of the wrong length are refused by insertion (also inside a bulk) and query without changing the index.",
 ["histories", "inputs", "configurations"], "all operation histories, signatures, band layouts, thresholds (including a similarity exactly at the threshold), integer widths, id types and id containers",
 "Tests use a handful of sentences and one fixed removal script; bulk removal is tried only with ids that all exist, overwriting only for two query methods.",
 [MI, "gaoya/src/minhash/id_container.rs", "gaoya/src/clustering/mod.rs"],
 [("per-band hash tables keyed by the band's hash give candidates", "MinHashBand::insert/query/remove"), ("full-signature filter against the id map", "MinHashIndex::query/query_owned")],
 ["insert", "par_bulk_insert", "par_bulk_insert_pairs", "remove", "bulk_remove", "clear", "query", "query_owned", "query_by_id", "query_by_id_owned", "QueryIndex::query"],
 state=[{"name": "id -> signature map", "meaning": "the live documents", "where": "MinHashIndex.id_signatures"}, {"name": "band tables", "meaning": "candidate buckets", "where": "MinHashBand.hash_table"}])

prop("C06", "Ranked index queries report true similarities in the right order",
 "After any history, the similarity-returning query lists exactly the ids the plain query returns, each once, with its exact current similarity, from most to least similar; the nearest-one query returns an id of maximal similarity among them, or nothing exactly when the plain query is empty. The top-k query returns the k closest live candidates (those sharing a band, regardless of threshold; all of them if fewer) in order of increasing distance with exact distances. None of them fails because of overwritten or removed ids.",
 ["histories", "inputs", "configurations"], "all histories, query signatures, k, thresholds including exact ties at the threshold",
 "Only top-k's length and two nearest-one examples are tested; similarity-returning queries are tested on one small corpus from Python.",
 [MI], [("similarity computed against the id map then sorted", "query_owned_return_similarity / query_top_k"), ("max_by over filtered candidates", "query_one")],
 ["query_one", "query_owned_return_similarity", "query_top_k", "par_bulk_query_return_similarity"])

prop("C07", "Index bookkeeping matches the set of live documents",
 "After any history, size, the id-to-signature map and signature lookup describe exactly the live ids with their latest signatures, and removal returns the signature that was stored (nothing for unknown ids), bulk removal the signatures of precisely the ids that were present. As long as no live id was overwritten, every band holds exactly one bucket per distinct band value among the live signatures, so removing documents releases their buckets and an emptied index holds none. Its printed form states its configuration and its size.",
 ["histories", "configurations"], "all operation histories, id containers, widths and layouts",
 "Tests look at size a few times and at remove's return value once; bucket statistics and bulk removal's result are never checked.",
 [MI, "gaoya/src/minhash/id_container.rs"],
 [("map update on insert/remove", "MinHashIndex::insert/remove/bulk_remove"), ("empty bucket dropped", "MinHashBand::remove")],
 ["size", "get_signature", "get_id_signature_map", "remove", "bulk_remove", "band_sizes"])

prop("C08", "Bulk and parallel operations equal their one-at-a-time counterparts",
 "For every batch (empty, with repeated ids, of any size) and any number of worker threads, bulk insertion leaves a MinHash index answering exactly like inserting the pairs one by one in order, bulk removal like removing one by one, bulk queries return the single-query answers in input order, and bulk signature creation equals creating each signature alone. Both bulk-insert forms agree, and the result does not depend on scheduling.",
 ["schedules", "inputs", "histories"], "all batches, prior index contents, thread-pool sizes and schedules",
 "Two batch tests with distinct ids check a few memberships; nothing compares with sequential use, nor varies threads.",
 [MI, MM], [("bands processed in parallel, each applying the batch in order", "par_bulk_insert[_pairs], bulk_remove"), ("order-preserving parallel map", "par_bulk_query*, bulk_create_signature*")],
 ["par_bulk_insert", "par_bulk_insert_pairs", "bulk_remove", "par_bulk_query", "par_bulk_query_return_similarity", "bulk_create_signature", "bulk_create_signature_refs"])

prop("C09", "The choice of id container is invisible in query results",
 "The set, vector and small-vector id containers (any inline capacity), and any user container that honours the contract, give the same answers to every query after the same history (where a live id was overwritten, answers within the bounds of C05). Each container behaves as a collection of the pushed and not removed ids: copying out yields exactly those ids, length and emptiness agree with it, and removing one id (present or not) never affects another.",
 ["histories", "configurations"], "all push/remove/copy sequences, ids, inline capacities, index histories",
 "One removal script of seven ids is run against three containers; spilling, removal of absent ids and copying are not compared.",
 ["gaoya/src/minhash/id_container.rs", MI],
 [("IdContainer implementations", "HashSetContainer / VecContainer / SmallVecContainer")],
 ["IdContainer::{push,remove,len,is_empty,copy_to,copy_refs_to}", "MinHashIndex queries"])

prop("C10", "Capacity hints, shrinking and clearing never change answers or fail",
 "Creating an index with any initial capacity and similarity ratio, shrinking it to fit or to any minimum capacity at any point of a history (empty, all-distinct or all-duplicate contents) succeeds, leaves every query answer, size and bucket count unchanged, and never leaves less capacity than the index holds. Shrinking to a minimum keeps at least that capacity if it was available. A cleared index is indistinguishable from a new one and fully reusable.",
 ["histories", "configurations"], "all histories interleaved with shrink/clear calls, all capacities and ratios",
 "No test calls any of these operations.",
 [MI], [("shrink_to with per-band proportional capacity", "MinHashIndex::shrink_to"), ("shrink_to_fit / clear over all bands and the map", "MinHashIndex::{shrink_to_fit,clear}")],
 ["new_with_capacity", "shrink_to_fit", "shrink_to", "clear", "capacity"])

prop("C11", "An index centroid consists of the most frequent bands of its members",
 "For any index and any list of ids with at least one live member, the centroid has the signature length of the index and each of its bands is a band value occurring with the highest frequency (repeated ids counted repeatedly, unknown ids ignored) among the listed members' signatures. The centroid of copies of one document is that document's signature.",
 ["inputs", "histories"], "all index contents and id lists with at least one live id",
 "Only the private per-position variants are tested, on two tiny matrices; the public band-wise centroid is untested.",
 [MI, MM], [("per-band frequency count and maximum", "minhash_band_centroid_from_refs / calculate_centroid")],
 ["calculate_centroid"])

prop("C12", "A SimHash signature is the bitwise majority vote of its token hashes",
 "For 64 and 128 bit signatures and any keys, each bit of a signature depends only on how many token occurrences have that bit set in their keyed SipHash: it is 1 exactly when strictly more occurrences have it clear than set, so order is irrelevant, repetition counts as weight, and no tokens give zero. The centroid of signatures has a bit set exactly when a strict majority of the signatures has it set. Hamming distance is the number of differing bits (a metric), and its angle is distance times pi over the bit length.",
 ["inputs", "configurations"], "all token sequences, keys, widths; all signature collections; all pairs of bit strings",
 "Two fixed sentence pairs are required to be within a loose distance; centroid, angle, ties, weights and empty inputs are untested.",
 ["gaoya/src/simhash/sim_hash.rs", "gaoya/src/simhash/sim_hasher.rs", "gaoya/src/simhash/mod.rs"],
 [("signed counters per bit", "SimHash::create_signature / create_centroid"), ("keyed SipHash 64/128", "SimSipHasher64 / SimSipHasher128"), ("popcount of xor", "SimHashBits::hamming_distance")],
 ["SimHash::create_signature", "SimHash::create_centroid", "SimHashBits::{hamming_distance,hamming_angle,count_ones,to_u32_high_bits,to_u64_high_bits,bit_length}"])

prop("C13", "SimHash distance estimates the angle between documents",
 "For any two documents seen as token-count vectors, the Hamming angle of their signatures estimates the angle between the vectors, for both widths and any keys: identical documents are at distance 0, disjoint ones at about half of the bits, and documents sharing more of their weight are closer on average. All bits of the signature carry this information independently.",
 ["inputs", "configurations"], "all pairs of token-count vectors, keys, widths",
 "Two near-identical sentences are required to be closer than 8 (13) bits; no relation to the true angle, other overlaps or individual bits is tested.",
 ["gaoya/src/simhash/sim_hash.rs", "gaoya/src/simhash/sim_hasher.rs"],
 [("random hyperplane rounding by independent hash bits", "SimHash::create_signature")],
 ["SimHash::create_signature", "SimHashBits::hamming_angle"])

prop("C14", "A SimHash index finds exactly the entries within the Hamming radius",
 "For 64 and 128 bit signatures and every legal configuration (distance smaller than the number of blocks, at most one block per bit), after any sequence of single and bulk insertions including overwrites, a query returns exactly the ids whose current signature differs from the query in at most the configured number of bits: none is missed however the differing bits are placed, none beyond the radius is returned.",
 ["histories", "inputs", "configurations"], "all signature sets, queries, placements of differing bits, block counts (also not dividing the width), distances, overwrites",
 "One test inserts documents with a single replaced token and only checks the nearest one's distance for 8 blocks and distance 6.",
 [SI, "gaoya/src/simhash/permutation.rs"],
 [("one table per choice of blocks that must agree (pigeonhole)", "Permutation::create"), ("distance filter", "SimHashTable::query/query_owned")],
 ["SimHashIndex::{new,insert,par_bulk_insert,par_bulk_insert_pairs,query,query_owned}"],
 state=[{"name": "block tables", "meaning": "ids keyed by the masked signature", "where": "SimHashTable.table"}])

prop("C15", "SimHash index ranking, bulk use and size agree with plain use",
 "After any history the distance-returning query lists exactly the plain query's ids once each with their exact Hamming distances in non-decreasing order, the nearest-one query returns one at minimal distance or nothing exactly when the plain query is empty, and bulk queries return the single answers in input order for any number of threads. Bulk insertion in either form is equivalent to inserting one by one, and size is the number of distinct ids inserted.",
 ["histories", "schedules", "inputs"], "all histories, batches, queries, thread counts",
 "Only the nearest-one query is tested, on one configuration; size, bulk and distance-returning calls are untested.",
 [SI], [("ranking from the id map", "query_one / query_return_distance"), ("parallel per-table insertion", "par_bulk_insert[_pairs]")],
 ["SimHashIndex::{query_one,query_return_distance,par_bulk_query,par_bulk_query_return_distance,size}"])

prop("C16", "Word tokenization splits exactly at ASCII punctuation and whitespace",
 "For every Unicode text, the word tokens are, in order, the maximal runs of characters that are neither ASCII punctuation nor ASCII whitespace: no token is empty or contains a separator, nothing else is dropped, and non-ASCII characters are never split. The boxed and plain forms agree, and adding or changing separators between tokens does not change the tokens.",
 ["inputs"], "all UTF-8 strings",
 "Tokenization is only exercised through a few English sentences inside other tests.",
 ["gaoya/src/text/tokenizers.rs"], [("split on a character predicate, drop empties", "whitespace_split / whitespace_split_boxed")],
 ["whitespace_split", "whitespace_split_boxed"])

prop("C17", "Shingling yields every n-gram of the requested sizes exactly once each",
 "For every Unicode text or token list and every range 1 <= from <= to, the range shingler yields exactly the contiguous n-grams of each size in the range at each position where they fit (as a multiset: nothing missing near the end, nothing extra), counting characters rather than bytes, and then ends. Fixed-size shingling (plain, boxed, and of tokens, joined without separator) yields every window of that size in order, and a range with equal bounds gives the same n-grams.",
 ["inputs"], "all UTF-8 strings and token lists, all ranges 1 <= from <= to (also larger than the input)",
 "No test covers shingling at all.",
 ["gaoya/src/text/multi_shingles.rs", "gaoya/src/text/tokenizers.rs"],
 [("iterator over sizes then positions, for slices and for str", "MultiShingles::next"), ("Shingles crate for fixed sizes", "shingle_text*, shingle_tokens")],
 ["shingle_text", "shingle_text_boxed", "shingle_text_range", "shingle_tokens", "MultiShingles"])

prop("C18", "The string index keeps every document, however it was loaded",
 "After any mixture of single insertions, line-reader loads, file loads and parallel file loads, the string index counts every document (in its size and its printed form), each load reports the number of lines added, and a query returns the stored text of each and only matching documents (one entry per stored copy); an inserted document is always found by its own text. Serial and parallel loading of the same file are interchangeable, undecodable lines are skipped without losing others, a reader or file that keeps failing ends the load with the lines read so far, and a missing file is reported as an error leaving the index unchanged.",
 ["histories", "inputs"], "all sequences of insert/load operations, file contents (empty lines, CRLF, no final newline, invalid UTF-8), layouts and thresholds",
 "One test loads six lines from memory into an empty index; no test mixes routes or uses files or the parallel loader.",
 ["gaoya/src/minhash/string_index.rs"],
 [("running document id", "MinHashStringIndex.doc_id"), ("line loaders", "load_from_lines / load_from_file / load_from_file_parallel")],
 ["MinHashStringIndex::{insert,query,load_from_lines,load_from_file,load_from_file_parallel,size}"])

prop("C19", "Serial clustering yields disjoint, valid and maximal clusters",
 "For any reflexive similarity index, serial clustering assigns each point to at most one cluster: clusters are disjoint, have at least the minimum size, lie within the neighbourhood of one of their members, and every point's recorded cluster is the one that lists it while all other points stay unassigned. No unassigned input point is left with enough unassigned neighbours to form a cluster. Cluster ids are unique for the lifetime of the clusterer, also across repeated or incremental calls, and earlier assignments are never changed.",
 ["inputs", "histories"], "all similarity graphs, point orders, minimum sizes, and sequences of clustering calls",
 "Clustering has no tests.",
 ["gaoya/src/clustering/clustering_serial.rs", "gaoya/src/clustering/mod.rs"],
 [("greedy assignment of unassigned neighbours", "Clusterer::cluster"), ("cluster id sequence", "Clusterer.cluster_id_sequence")],
 ["clustering_serial::Clusterer::cluster", "ClusterPointInner.cluster", "Cluster.points"])

prop("C20", "Parallel clustering yields disjoint, valid and maximal clusters on any schedule",
 "For any points in a MinHash index, any minimum size, any number of threads (also more threads than points, or no points) and any thread schedule, parallel clustering puts each point in at most one returned cluster, every cluster has at least the minimum size, lies within the neighbourhood of one of its members and has a unique id, and points refer to exactly the cluster that lists them while all others are unassigned. No unassigned point is left with enough unassigned neighbours to form a cluster. The single-threaded entry point over any reflexive similarity index gives the same guarantees and visits points with more neighbours first.",
 ["schedules", "inputs", "configurations"], "all similarity structures, chunkings, minimum sizes, thread counts and interleavings",
 "Clustering has no tests; conflicts between threads need specific interleavings.",
 ["gaoya/src/clustering/clusterer_parallel.rs", MI],
 [("atomic assignment of points to clusters with commit/rollback", "Clusterer::try_create_cluster"), ("chunking of the points over threads", "Clusterer::cluster_par"), ("sort by neighbour count", "sort_by_most_number_of_similar_points")],
 ["clusterer_parallel::Clusterer::{cluster,cluster_par}", "ClusterPointInner.{cluster,is_cluster_assigned}", "Cluster.{points,cluster_id}"])

prop("C21", "The Python MinHash index behaves as documented for every option",
 "For every hash size, id container, analyzer (word, char or callable), n-gram range, lowercase flag and way of giving the band layout, the Python MinHash index follows the documented model after any sequence of single and bulk insertions, overwrites and removals: documents with the same features are interchangeable, an inserted document is found by itself with similarity 1, removed ones never appear, and size counts live ids. Built-in analysis agrees with a callable returning the documented features, all query forms (single, bulk, with similarities in descending order) agree with each other, similarities estimate the Jaccard similarity of the feature sets, invalid options raise ValueError, and its printed form shows its true configuration and size.",
 ["histories", "inputs", "configurations"], "all option combinations, Unicode documents, integer ids, operation sequences, batch sizes on both sides of the parallel cut-over",
 "The Python tests use a few ASCII documents; char analyzers, n-gram ranges, large batches, bulk queries and lowercase combinations are not covered.",
 ["py-gaoya/gaoya/minhash.py", "py-gaoya/src/min_hash.rs", "py-gaoya/src/lib.rs"],
 [("dispatch to typed Rust indexes", "MinHashStringIndex.__init__"), ("tokenizer specification", "TokenizerSpecification::new / tokenize_and_minhash"), ("bulk cut-over at 100 documents", "par_bulk_insert_docs")],
 ["gaoya.minhash.MinHashStringIndex"])

prop("C22", "The Python SimHash index behaves as documented for every option",
 "For 64 and 128 bits and every analyzer, n-gram range, lowercase flag and legal blocks/distance configuration, the Python SimHash index returns for any history exactly the ids whose documents' signatures are within the configured Hamming distance (inclusive) of the query's: documents with the same feature counts are interchangeable and an inserted document is found by itself at distance 0. Single, bulk, with-distance (ascending) and callable-analyzer forms all work and agree with each other, and documented-invalid options raise ValueError.",
 ["histories", "inputs", "configurations"], "all option combinations, Unicode documents, integer ids, operation sequences",
 "No Python test touches the SimHash index.",
 ["py-gaoya/gaoya/simhash.py", "py-gaoya/src/sim_hash.rs", "py-gaoya/src/lib.rs"],
 [("wrapper dispatch by analyzer and flags", "SimHashStringIndex.query / par_bulk_query"), ("tokenizer specification", "tokenize_and_simhash")],
 ["gaoya.simhash.SimHashStringIndex"])

prop("C23", "Near-duplicates are found and unrelated documents are not, end to end",
 "For a corpus of arbitrary token sets indexed with computed banding parameters (any width, container and threshold in the useful range), documents whose Jaccard similarity is clearly above the threshold are returned at a rate of at least the promised probability, and documents clearly below the threshold are returned at no more than the statistical error rate of the signature (token sets that are not tiny, when hashes are truncated to 8 bits). Candidates are retrieved with the S-curve probability 1-(1-s^r)^b of the chosen bands and rows.",
 ["inputs", "configurations"], "all corpora and queries at controlled overlaps, widths, thresholds, budgets",
 "The end-to-end tests use five sentences, where any candidate generation that returns about everything or about the right five passes.",
 [MI, MM, "gaoya/src/minhash/min_hasher.rs", "gaoya/src/minhash/min_hasher64.rs"],
 [("banding", "MinHashIndex::new_index"), ("parameters", "calculate_b_and_r"), ("signatures", "create_signature")],
 ["calculate_minhash_params", "MinHashIndex::{insert,query,query_top_k}"])

prop("C24", "Exported hashers are faithful, streaming and interchangeable",
 "The exported SHA-1 hasher yields the first eight bytes (big endian) of the SHA-1 digest of all bytes written so far, and the exported SipHash-2-4 builder yields the standard keyless SipHash-2-4: for any way of splitting the writes, reading the result at any time any number of times, and any number of hashers in use at once. Any such hasher can be plugged into every MinHash width and yields reproducible signatures.",
 ["inputs", "histories"], "all byte strings, splits into writes, interleavings of finish and of several hashers",
 "No test exercises the hashers; the SHA-1 one is used in a single fixed-sentence test.",
 ["gaoya/src/minhash/hashers.rs"], [("buffering hasher", "Sha1Hasher"), ("default-built SipHash", "SipHasher24BuildHasher")],
 ["Sha1Hasher", "SipHasher24BuildHasher", "MinHasher*::new_with_hasher"])

prop("C25", "A failing Python call leaves the index unchanged and usable",
 "Whenever a call on a Python MinHash or SimHash index cannot be carried out, because a document or id has the wrong type or is out of range, a document cannot be encoded, or a user analyzer raises or returns something other than a list of strings, alone or at any place of a bulk insertion or bulk query, it fails with an exception (the analyzer's own one if it raised). The index then answers, counts and prints exactly as before the call, and later valid calls behave as if the failing one had never been made. A user analyzer may itself query the index while a document is being inserted.",
 ["histories", "fault_sequences", "inputs"], "all histories of valid and failing calls, fault kinds, positions of the fault in a batch, batch sizes, options",
 "No test makes a call fail after the index was created.",
 ["py-gaoya/gaoya/minhash.py", "py-gaoya/gaoya/simhash.py", "py-gaoya/src/min_hash.rs", "py-gaoya/src/sim_hash.rs"],
 [("analysis of the whole batch before any insertion", "MinHashStringIndex.par_bulk_insert_docs"), ("conversion of arguments before the native call", "insert_tokens / par_bulk_insert_docs")],
 ["gaoya.minhash.MinHashStringIndex", "gaoya.simhash.SimHashStringIndex"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
