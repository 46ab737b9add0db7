# What decides each property: harness binaries, counters that must have been observed, wording of the evidence rule.
HARNESS = {
 "core_tree": {}, "core_util": {}, "py_node": dict(kind="py", targets=["pymods_all"]), "core_num": {}, "core_mem": {}, "core_text": {}, "core_ser": {}, "relay_io": {}, "relay_csv": {}, "relay_silo": {}, "relay_fault": {}, "bp_mesh": {}, "bp_part": {}, "bp_mat": {}, "bp_o2m": {}, "bp_query": {}, "bp_adj": {}, "bp_derive": {}, "bp_padj": {}, "bp_flat": {}, "bp_verify": {}, "relay_bpio": {}, "relay_capi": {}, "mpi_comm": {"kind": "mpi", "ranks": 6, "workers": 2}, "mpi_mesh": {"kind": "mpi", "ranks": 4, "workers": 2},
}
BASE_NOTE = "Held on every execution of this run, observed by the monitor named in `technique` on an ASan+UBSan build of the working tree; says nothing about inputs not generated. Trusts the reference model and the sanitizer runtimes."
SPEC = {}
def spec(id, harness, technique, rule, need=(), level="exploration", note=BASE_NOTE, **k):
    SPEC[id] = dict(harness=harness, technique=technique, rule=rule, need=list(need), level=level, note=note, **k)

spec("C01", ["core_tree"], "online monitor: random operation histories compared step by step with an ordered-tree reference model, under ASan/UBSan",
 "A case is a random history of tree operations on up to 3 trees, generated from the seed; after every operation the observed tree is compared with the model and parent/schema links are walked. distinct_nontrivial counts distinct tree states (hash of kinds, names, order, values) reached.",
 ["op:swap", "op:remove_path", "op:rename", "leak_checked_cases"], scale=5)
spec("C02", ["core_mem"], "online monitor: guard-byte, aliasing, allocator-ledger and leak monitors over copy/external workloads, under ASan/UBSan",
 "A case builds random trees in random layouts (compact, strided, offset, caller-owned), applies copies and external views, mutates one side and observes the other, and checks guard bytes, the allocator ledger and the heap balance. distinct_nontrivial counts distinct (tree, layout, operation) states observed.", ["leak_checked_cases"], scale=5)
spec("C03", ["core_num"], "online monitor: element-wise oracle (C++ conversion) over type x type x layout workloads, under ASan/UBSan",
 "A case picks a source type, layout and boundary-biased values and observes every conversion, assignment, accessor and reduction; the oracle is static_cast of each element (defined conversions only). distinct_nontrivial counts distinct (source type, destination type, layout, values) observed.", scale=20)

spec("C04", ["core_text"], "offline checker over recorded text: independent strict JSON reader and typed round-trip oracle, under ASan/UBSan and the heap-balance monitor",
 "A case writes a random tree in a random layout and text format to JSON (pure, typed, base64, external), or generates a foreign JSON document; the recorded text is read back by an independent RFC 8259 reader and by the library and both are compared with the model. distinct_nontrivial counts distinct trees and documents observed.",
 ["pure_leaves", "detailed_leaves", "base64_leaves", "external_leaves", "foreign_docs", "leak_checked_cases"], scale=5)
spec("C05", ["core_text"], "offline checker over recorded text: round-trip oracle with YAML typing rules, plus layout texts laid over caller buffers, under ASan/UBSan and the heap-balance monitor",
 "A case writes a random tree to YAML and reads it back, reads typed YAML text, or lays a layout text over a buffer (copied and external); the observed tree is compared with the model and the buffer with its guard copy. distinct_nontrivial counts distinct trees and layouts observed.",
 ["yaml_leaves", "leak_checked_cases", "list_of_entries", "foreign_order"], scale=5)
spec("C10", ["core_text"], "sanitizers (ASan/UBSan) and heap-balance monitor over mutated, truncated and token-soup text given to every parser",
 "A case feeds mutated valid text or random tokens to a parser; the monitors require that the call returns or raises conduit::Error, that the resulting node can be walked, printed and destroyed, and that nothing is leaked. distinct_nontrivial counts distinct texts observed.",
 ["leak_checked_cases"], scale=4)
spec("C06", ["core_ser"], "offline checker over recorded bytes and files: reference encoder, round-trip oracle and map-alias monitor, under ASan/UBSan and the heap-balance monitor",
 "A case builds a random tree in a random layout, records what compact, serialize (memory, file, stream), save, load and mmap produce, and compares bytes, schema and reread tree with a reference encoder. distinct_nontrivial counts distinct trees observed.", ["saved_trees", "mmaps", "serialized_bytes", "leak_checked_cases"], scale=8)
spec("C07", ["core_ser"], "online monitor: update operations compared with a reference merge, with aliasing and heap-balance monitors, under ASan/UBSan",
 "A case applies update, update_compatible or update_external to a pair of related random trees in random layouts and compares destination and source with the reference merge, then writes to one side and observes the other. distinct_nontrivial counts distinct (destination, source, operation) observed.", ["updates", "compatible_updates", "external_updates", "related_updates", "leak_checked_cases"], scale=10)
spec("C08", ["core_ser"], "online monitor: verdicts of diff and diff_compatible compared with a reference comparison over near-equal pairs, under ASan/UBSan",
 "A case compares two random trees that are equal or differ by a few changes near the decision boundary (tolerance, type, length, order, nan, terminators) in random layouts; verdict and report are compared with the reference. distinct_nontrivial counts distinct pairs observed.", ["leak_checked_cases", "reported_places"], scale=2)
spec("C09", ["core_ser"], "online monitor: schema and data type answers compared with a reference layout model, under ASan/UBSan",
 "A case builds a random layout as a Schema and compares byte accounting, compact form, equality, compatibility, text round trip and element addressing with the reference. distinct_nontrivial counts distinct layouts observed.", ["leak_checked_cases"], scale=8)
spec("C13", ["core_ser"], "online monitor: byte-reversal oracle over leaves, trees, swap functions and files, under ASan/UBSan",
 "A case converts leaves and trees between byte orders in random layouts, directly and through files, and compares every byte with the reversal oracle. distinct_nontrivial counts distinct trees observed.", ["leak_checked_cases"], scale=8)
spec("C20", ["relay_io"], "offline checker over recorded files: round-trip and merge oracle for every protocol, with open-identifier, global-option and heap-balance monitors, under ASan/UBSan",
 "A case saves a random tree in a random layout with a random protocol, sub path and HDF5 options, loads it (whole and in part) and compares; or runs a sequence of save_merged (some of them incompatible) and load_merged against the reference merge. distinct_nontrivial counts distinct (tree, protocol, path).",
 ["proto:hdf5", "proto:conduit_bin", "proto:conduit_json", "proto:conduit_base64_json", "proto:json", "proto:yaml", "proto:conduit_silo", "merges", "refused_merges", "load_merges", "leak_checked_cases"], scale=1.3)
spec("C21", ["relay_io"], "online monitor: HDF5 store histories compared with a reference tree after every operation, with open-identifier and heap-balance monitors, under ASan/UBSan",
 "A case runs a random sequence of store operations on one file and compares the file with the model after each; or reads random slabs of a multi-dimensional dataset written with the HDF5 API. distinct_nontrivial counts distinct store states and slab requests.",
 ["slab_reads", "removes", "queries", "leak_checked_cases"], scale=2.5)
spec("C22", ["relay_io"], "online monitor: handle histories compared with a reference model of modes and content, under ASan/UBSan and the heap-balance monitor",
 "A case runs a random sequence of opens in random modes, writes, reads, removes, queries and closes on one file and compares every answer and the file after close with the model. distinct_nontrivial counts distinct (content, mode).",
 ["writes", "reads", "removes", "closes", "file_reads", "leak_checked_cases"], scale=8)
spec("C25", ["relay_fault"], "fault injection with an oracle on the outcome: writes cut off by a file size limit, damaged, cut and absent files; descriptor, HDF5-identifier and heap-balance monitors, under ASan/UBSan",
 "A case saves a random tree with a random protocol and interface while the kernel refuses writes beyond a random size, or loads a file after cutting or damaging it, or addresses what is not a file; either conduit::Error is raised or the file (the tree read) is complete. distinct_nontrivial counts distinct (tree, protocol).",
 ["failures_reported", "refused", "still_loads", "sets_reported", "leak_checked_cases"], scale=10)
spec("C31", ["bp_mesh"], "online monitor: random meshes converted by the library, the result read by an independent reader and compared with the generating model, under ASan/UBSan and the heap-balance monitor",
 "A case generates a mesh (uniform, rectilinear, structured, unstructured of every shape, polytopal, mixed; any numeric type and memory layout), applies one conversion or chain of conversions and compares points, elements, offsets and the source tree with the model. distinct_nontrivial counts distinct meshes.",
 ["poly_conversions", "polyhedral", "offset_runs", "strips", "leak_checked_cases"], scale=5)
spec("C32", ["bp_mesh"], "online monitor: derived topologies, their maps and mapped fields compared with a reference enumeration and with conservation of measure, under ASan/UBSan and the heap-balance monitor",
 "A case generates an unstructured mesh, derives points, lines, faces, centroids, sides or corners and checks entity sets, both maps, geometry, total measure and field values against the model. distinct_nontrivial counts distinct meshes.",
 ["dim0", "dim1", "dim2", "centroids", "sides", "corners", "volume_fields", "vertex_fields", "leak_checked_cases"], scale=5)
spec("C33", ["bp_part"], "online monitor: conservation and identity of elements, points and field values through partition, combine, split and map-back, checked against the generated domains, under ASan/UBSan and the heap-balance monitor",
 "A case generates a mesh cut into domains (lattice blocks of one or several kinds, or an unstructured mesh split up), partitions it by whole domains, logical, explicit, ranges or field selections with a target and options, and checks every output domain (fields and material sets) against the mapping fields, the inputs and the selection; or maps changed fields back and compares. distinct_nontrivial counts distinct mesh and option pairs.",
 ["partitions", "jittered", "overlapping_ranges", "logical_origins", "combines", "splits", "lattices", "unstructured_inputs", "field_partitions", "domains_mapped_back", "matsets_partitioned", "leak_checked_cases"], scale=4)
spec("C35", ["bp_mat"], "online monitor: an independent reader of every matset form compares volume fractions and material values with the generated materials after chains of conversions and after conversion to silo, under ASan/UBSan and the heap-balance monitor",
 "A case generates materials per element, writes them and a field in one of the documented forms (full, full with indices, sparse by element with shuffled offsets and indices, sparse by material, uni-buffer material-dominant) with random numeric types and strides, converts through 1-4 forms or to silo, and reads every result back independently. distinct_nontrivial counts distinct material sets.",
 ["to_full", "to_sbe", "to_sbm", "silo_full", "silo_full_o2m", "silo_sbe", "silo_sbm", "silo_umat", "species_checked", "leak_checked_cases"], scale=5)
spec("C36", ["bp_o2m"], "online monitor: reference model of the relation compared with O2MIndex, O2MIterator (forward, backward, direct), compact_to and generate_offsets, under ASan/UBSan and the heap-balance monitor",
 "A case generates a relation (sizes with empty entries, shuffled offsets with gaps, indices with repeats, several data arrays, any integer types, strided storage) and compares everything the API reports with the model. distinct_nontrivial counts distinct relations.",
 ["relations", "compacted", "values_iterated", "leak_checked_cases"], scale=8)
spec("C37", ["bp_flat"], "online monitor: component values, layout addresses and verify verdicts of multi-component arrays, and flat indices of nd-arrays, compared with a model, under ASan/UBSan",
 "A case builds a multi-component array (1-5 components of any numeric types, strided, caller-owned, interleaved with padding, list or object), converts it to interleaved and contiguous layouts in chains and checks values and byte layout, and breaks it and asks verify; or builds an nd-array index and compares flat indices. distinct_nontrivial counts distinct arrays and shapes.",
 ["interleaved", "contiguous", "interleaved_inputs", "flat_indices", "leak_checked_cases"], scale=6)
spec("C38", ["bp_flat"], "online monitor: every row of the flattened tables compared with the generated mesh, under ASan/UBSan and the heap-balance monitor",
 "A case generates a mesh of one or several domains with fields present on some of them, flattens it with random options and compares row counts, ids, locations, element centres, field values, types and fill values with the mesh. distinct_nontrivial counts distinct mesh and option pairs.",
 ["flattened", "multi_domain", "field_columns", "rows", "leak_checked_cases"], scale=5)
spec("C39", ["bp_adj"], "online monitor: adjacency sets of generated decompositions compared, before and after every conversion, with the entities the domains really share; damaged sets must be refused; under ASan/UBSan and the heap-balance monitor",
 "A case cuts a mesh into 2-5 domains (ids with gaps and in any order), derives which points or elements they share, writes it down as pairwise or maximal groups with canonical, arbitrary or misleading names, in any integer type and layout, and converts, validates, damages, compares and extracts it. distinct_nontrivial counts distinct domains.",
 ["pairwise", "maxshare", "canonicalized", "damages_refused", "compared", "swaps_refused", "extracted", "leak_checked_cases"], scale=1)
spec("C40", ["bp_query"], "online monitor: answers of point, entity and match queries compared with a brute-force reference over the generated meshes; orders, renumberings and slices compared entity by entity, under ASan/UBSan and the heap-balance monitor",
 "A case generates coordsets (explicit in any layout and precision, uniform, rectilinear; below and above the size at which the search tree takes over; lattices whose points lie on the cutting planes, flat, clustered, far from the origin) and asks for points at, near and away from their points; or generates unstructured meshes and asks for entities, orders, renumberings, slices and measures. distinct_nontrivial counts distinct meshes and point sets.",
 ["points_found_exactly", "points_found_nearby", "points_absent", "entities_found", "matches", "reordered", "rewritten", "leak_checked_cases"], scale=4)
spec("C26", ["mpi_comm"], "online monitor: 6-rank MPI jobs in which every rank knows what all ranks send and compares all it receives, with injected delays, any-source receives and a leftover-message probe, under ASan/UBSan",
 "A case is one exchange on a random communicator: blocking, non-blocking (waits in random order), batched messages, broadcast, gather, all_gather, reduce, all_reduce, with or without schema, of random trees in random memory layouts into empty, other or compatible receivers. distinct_nontrivial counts distinct exchanges.",
 ["messages_received", "wait_all", "wait", "batches", "broadcasts", "broadcasts_schema", "gathers", "gathers_schema", "reductions"], scale=20)
spec("C27", ["relay_csv"], "offline checker over recorded CSV files, round-trip oracle, and malformed texts under ASan/UBSan and the heap-balance monitor",
 "A case writes a random table or set of tables (any number type and memory layout, components, rows) and compares header, lines and the tables read back, or feeds a text with or without header, well formed or damaged, to the reader. distinct_nontrivial counts distinct tables and texts observed.",
 ["tables", "cells", "table_sets", "read_texts", "refused", "headerless", "leak_checked_cases"], scale=8)
spec("C30", ["bp_verify"], "online monitor: verdicts and reports of verify over valid and damaged trees compared with an independent statement of the protocol, under ASan/UBSan and the heap-balance monitor",
 "A case generates a tree that conforms to a protocol (mesh, mesh index, every mesh sub-protocol and its index form, o2mrelation, mcarray, table) using all its forms, asks verify, damages it in 1-3 random places (remove, retype, rename, resize, swap, nest, add) and asks again; the verdict is compared with the specification (trees the documentation leaves open are only checked for safety), the report with the verdict, and the tree with its copy. distinct_nontrivial counts distinct trees.",
 ["accepted", "refused", "damage_found", "unknown_protocols", "p:mesh", "p:mesh/index", "p:mesh/adjset", "p:mesh/nestset", "p:mesh/specset", "p:mesh/matset/index", "p:table", "leak_checked_cases"], scale=1.5)
spec("C23", ["relay_bpio"], "offline checker over recorded files: meshes saved and loaded through every layout of root and domain files, compared item by item with what was saved, under ASan/UBSan and the heap-balance monitor",
 "A case saves a random mesh (1-7 domains, all sections, any layout and type) with a random protocol, file style, number of files, suffix and mesh name, absolute or relative path, once or over an earlier save, and loads it; or writes several meshes into the same files; or writes domain files and a root file by hand (tree and file patterns, partition maps in any order) and loads them; or checks the domain-to-file map. distinct_nontrivial counts distinct save and load histories.",
 ["p:hdf5", "p:yaml", "p:json", "root_only", "file_per_domain", "shared_files", "replaced", "several", "patterns", "partition_maps", "maps", "domains_loaded", "leak_checked_cases"], scale=1)
spec("C24", ["relay_silo"], "offline checker over recorded files: meshes saved to Silo files and loaded again, compared element by element with what was saved, under ASan/UBSan",
 "A case cuts a random mesh into 1-5 domains with fields and materials in any form, saves it to Silo files in a random layout and file type and loads it; points, elements, fields and materials are compared with what was generated. distinct_nontrivial counts distinct meshes and options.",
 ["saved", "domains_loaded", "fields_loaded", "matsets_loaded", "k:default", "k:root_only", "k:multi_file", "absent_fields", "replaced"], scale=6)
spec("C41", ["relay_bpio"], "online monitor: every entry of a generated index compared with the domains it indexes, under ASan/UBSan and the heap-balance monitor",
 "A case generates a mesh of 1-5 domains with different sections, types and names, generates its index and compares entries, paths, types, references, components, axes, materials, species and state with the domains. distinct_nontrivial counts distinct meshes.",
 ["coordsets", "topologies", "matsets", "specsets", "fields", "adjsets", "nestsets", "leak_checked_cases"], scale=3)
spec("C34", ["mpi_mesh"], "online monitor: 4-rank MPI jobs in which every rank knows the whole mesh; results on all ranks are gathered and compared with the whole mesh, with injected delays, under ASan/UBSan",
 "A case spreads 0-8 random domains over the ranks (some without any) of a random communicator and saves and loads them, builds indices, counts, rank maps and delegates, distributes, flattens or partitions them; results are compared with the generated mesh or with the serial operation on all domains. distinct_nontrivial counts distinct cases.",
 ["saved", "domains_loaded", "wholes", "domains_arrived", "tables", "partitions", "field_partitions", "domains_derived", "domains_mapped_back"], scale=2)
spec("C43", ["bp_derive"], "online monitor: derived meshes of several domains compared with the domains on their own and their adjacency sets with the entities the domains have in common, under ASan/UBSan and the heap-balance monitor",
 "A case cuts a random unstructured mesh into 2-5 domains with a vertex adjacency set in any form and derives points, lines, faces, centroids, sides or corners of all domains; every entity two domains have must be listed by both, in the same group and order, and nothing else. distinct_nontrivial counts distinct domains.",
 ["derived", "shared_entities", "k:points", "k:lines", "k:faces", "k:centroids", "k:sides", "k:corners", "leak_checked_cases"], scale=3)
spec("C44", ["bp_padj", "mpi_mesh"], "online monitor: adjacency sets of partitioned meshes compared with the points the output domains have in common, under ASan/UBSan and the heap-balance monitor",
 "A case cuts a random mesh into 2-5 domains with a vertex adjacency set in any form and partitions it, all of it or parts, into 1-6 domains; every point two output domains have must be listed by both, in one group and in the same order, and nothing else. distinct_nontrivial counts distinct domains.",
 ["partitioned", "several_domains", "shared_points", "mpi_partitions", "without_adjsets", "leak_checked_cases"], scale=2)
spec("C11", ["relay_capi"], "online monitor: the same operations applied through the C interface to one tree and through C++ to its twin, compared after every step; typed accessors compared with the values written, under ASan/UBSan and the heap-balance monitor",
 "A case writes values of one of 24 C types or a string through one of the set, set_path, external and detailed forms and reads them back through every accessor; or applies a random history of tree, copy, text, file and diff operations to both twins; or generates, verifies, indexes, partitions and flattens an example mesh. distinct_nontrivial counts distinct trees reached and cases.",
 ["t:int8", "t:unsigned_long", "t:char", "t:double", "strings", "ops", "texts", "meshes", "leak_checked_cases"], scale=2)

spec("C12", ["py_node"], "online monitor: the Python module, built with ASan, driven by random values and histories and compared step by step with a model in plain Python values; aliasing watched from both sides",
 "A case hands a random value (Python scalars, strings, lists, tuples, nodes; numpy scalars and arrays of every type, strided, reversed, swapped, matrices, string arrays) to a node and reads it back; or points a node at a numpy array and writes through both; or runs a history of 3-22 structural operations on two trees, comparing both with the model after each. distinct_nontrivial counts distinct stored values and tree states.",
 ["view_writes", "saves", "appends", "queries", "string_arrays", "reversed_views", "swapped_arrays", "matrices", "mixed_lists", "p:hdf5", "p:conduit_bin"], scale=5)

spec("C14", ["core_util"], "online monitor: results of the helpers compared with independent one-line statements of what they do, with guard bytes around promised buffer sizes, under ASan/UBSan and the heap-balance monitor",
 "A case draws random strings, separators, paths, byte buffers, numbers, format patterns with argument nodes (any integer type, strided, lists, names) or a history of file operations in a scratch directory and compares every result. distinct_nontrivial counts distinct inputs.",
 ["strings", "encoded", "formats", "format_maps", "directories", "leak_checked_cases"], scale=1)
