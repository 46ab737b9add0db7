# Texts of the properties.  tools/mk.py turns them into properties.jsonl and MANIFEST.json.
P = {}
def prop(id, **k): P[id] = dict(id=id, **k)

prop("C01", title="A node tree always behaves as an ordered tree of named and listed children",
 statement="After any sequence of tree operations (fetch, set, append, add_child, remove, rename, move, swap, reset, iteration, path queries), what a node reports - kinds, child names and order, paths, parents, values - is what the same operations do to an ordered tree. An operation that is refused raises an error and leaves unrelated parts of the tree unchanged. No sequence leaves dangling children, wrong parent links or a schema that disagrees with the tree.",
 over=["histories", "inputs"], text="every finite sequence of tree operations on every tree, including lists inside objects, odd names, '..' paths, self, ancestor and descendant arguments",
 why="Tests run a few fixed sequences; index maps, child vectors and parent links are maintained separately by every mutator, so mistakes need particular sequences (remove in the middle, then rename, then fetch; swap between related nodes).",
 files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_schema.cpp", "src/libs/conduit/conduit_node_iterator.cpp"],
 mech=[("Node::fetch / fetch_existing / append / add_child / remove / rename_child / move / swap", "src/libs/conduit/conduit_node.cpp"), ("Schema hierarchy: children vector, object_order, object_map", "src/libs/conduit/conduit_schema.cpp")],
 observe=["child(i), child_names(), has_path(), path(), parent(), name(), dtype(), iterators"])

prop("C02", title="Copies own their data; external views alias exactly the caller's memory",
 statement="Setting a node copies values, so later changes on either side never show on the other; set_external makes a view whose reads and writes touch exactly the elements the described layout names and nothing else. Buffers the library allocates are released exactly once, through the allocator that made them, and caller-owned memory is never freed or resized. Every transfer keeps each element's value for every combination of source and destination layout.",
 over=["inputs", "histories"], text="all leaf types, layouts (offset, stride, foreign memory), trees, ownership mixes, allocator choices and sequences of set/set_external/update/compact/reset/destroy",
 why="Tests use mostly compact layouts; aliasing, overrun, leak and double free errors need strided, offset or mixed-ownership layouts and destruction order that tests do not sample.",
 files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_data_array.cpp", "src/libs/conduit/conduit_utils.cpp"],
 mech=[("Node::set_* / set_external_* / init / release / allocate", "src/libs/conduit/conduit_node.cpp"), ("allocator registry and memset/memcpy handlers", "src/libs/conduit/conduit_utils.cpp")],
 observe=["element reads, data_ptr(), is_data_external(), guard bytes around foreign buffers, allocator call log, ASan heap"])

prop("C03", title="Numeric access and conversion give the C++ conversion of every element",
 statement="Reading, converting, assigning, reducing or accessing numeric data gives, for every source type, destination type and memory layout, the value that the plain C++ conversion of each element gives, with the right element count. Access to a leaf under a type it does not hold is refused or reports the documented default, and never reinterprets or reads outside the data.",
 over=["inputs"], text="all pairs of the ten numeric types and native types, all lengths and layouts, values up to the limits of each type, NaN, infinities and signed zero",
 why="There are thousands of generated per-type conversion paths; tests touch a few with small values, so a wrong branch for one type pair or stride stays unseen.",
 files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_data_array.cpp", "src/libs/conduit/conduit_data_accessor.cpp", "src/libs/conduit/conduit_data_type.cpp"],
 mech=[("Node::to_* / to_*_array / as_* / value()", "src/libs/conduit/conduit_node.cpp"), ("DataArray, DataAccessor element access, set, reductions", "src/libs/conduit/conduit_data_array.cpp")],
 observe=["converted values, element counts, reduction results, UBSan and ASan reports"])

prop("C04", title="JSON text says what the tree holds and parses back to it",
 statement="The JSON written for any tree, in any format option, is valid JSON whose names, order and values are those of the tree; parsing it back gives the same tree (typed protocols: same types, integers and strings exactly, floats to the 15 digits written; base64: bit for bit; external: views of the original memory). Any valid JSON document parses to the tree it describes, integers as int64 or uint64, other numbers as float64, and uniform numeric arrays as arrays.",
 over=["inputs"], text="all trees with any names and strings (quotes, backslashes, control characters, slashes, UTF-8), types, lengths and memory layouts, all indent/pad/line-end options, and all valid JSON documents; names 'dtype' are reserved in the typed protocols and text after an embedded NUL is not kept",
 why="Tests parse a few friendly documents; escaping, number limits, non-finite values, odd names and strided sources each have their own code path and only fail on particular content.",
 files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_generator.cpp", "src/libs/conduit/conduit_utils.cpp", "src/libs/conduit/conduit_data_array.cpp"],
 mech=[("Node::to_json* / to_pure_json / to_base64_json", "src/libs/conduit/conduit_node.cpp"), ("Generator::Parser::JSON", "src/libs/conduit/conduit_generator.cpp"), ("escape_special_chars, json_sanitize, base64_encode/decode, float64_to_string", "src/libs/conduit/conduit_utils.cpp")],
 observe=["the text, read by an independent JSON reader", "the tree parsed back", "heap balance"])

prop("C05", title="YAML text and layout descriptions parse back to the tree they describe",
 statement="The YAML written for a tree parses back to a tree with the same names, order, strings and numbers (numbers widened to int64, uint64 or float64; a list of numeric scalars reads as one array). A typed JSON or YAML layout laid over a buffer gives, for each leaf, exactly the elements the stated offset, stride, length and byte order name, copied or as a view as requested.",
 over=["inputs"], text="all trees without empty containers, empty strings or strings that spell a number (YAML text cannot tell those apart), any names; all layout texts over all buffers",
 why="Tests check a few documents with plain names and compact layouts; quoting, large integers, nested lists and offset or strided layouts take separate paths.",
 files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_generator.cpp"],
 mech=[("Node::to_yaml_generic", "src/libs/conduit/conduit_node.cpp"), ("Generator::Parser::YAML, walk / walk_external, parse_leaf_dtype", "src/libs/conduit/conduit_generator.cpp")],
 observe=["the tree parsed back", "the caller's buffer", "heap balance"])

prop("C10", title="No text makes a parser crash, read out of bounds, leak or hang",
 statement="Given any text, the JSON, YAML and schema parsers either produce a node or schema that can be walked, printed and destroyed, or raise conduit::Error. They never touch memory out of bounds, abort, leak, or recurse without end.",
 over=["inputs"], text="arbitrary text: truncated, mutated or random documents in every protocol (raw 'address' entries and gigantic requested sizes excluded, they are what they say)",
 why="Tests feed well-formed documents and a few hand-written errors; damaged files reach the parsers in practice and the failing inputs are not guessable one by one.",
 files=["src/libs/conduit/conduit_generator.cpp", "src/libs/conduit/conduit_schema.cpp", "src/libs/conduit/conduit_utils.cpp"],
 mech=[("Generator::walk / walk_external", "src/libs/conduit/conduit_generator.cpp"), ("Schema text constructor", "src/libs/conduit/conduit_schema.cpp")],
 observe=["return or conduit::Error", "ASan, UBSan and heap-balance reports", "readability of the result"])

prop("C11", title="The C interface does exactly what the C++ interface does",
 statement="Every conduit_node_*, conduit_datatype_* and conduit_blueprint_mesh_* call has the effect and the result of the C++ operation it names: typed setters (values, pointers, detailed layouts, paths, external or copied) store exactly the given values with the named type, typed getters return them, external forms alias the caller's memory and the others never do; structural operations (fetch, add, append, rename, remove, move, swap, update, compare, parse, save, load, compact) leave the tree in the state the C++ call leaves its twin in; strings handed out are the caller's to destroy and nothing leaks.",
 over=["inputs", "histories"], text="all value types and setter forms with random layouts, paths and values; random histories of structural operations; random example meshes and mesh operations",
 why="The C tests set a few constants per type. Hundreds of near-identical wrappers invite a swapped argument, a wrong type or a copy where an alias is promised, each visible only for particular layouts.",
 files=["src/libs/conduit/c/conduit_node_c.cpp", "src/libs/conduit/c/conduit_datatype_c.cpp", "src/libs/blueprint/c/conduit_blueprint_mesh_c.cpp"],
 mech=[("conduit_node_set_* / fetch_path_as_*", "src/libs/conduit/c/conduit_node_c.cpp"), ("conduit_datatype_*", "src/libs/conduit/c/conduit_datatype_c.cpp")],
 observe=["tree state of the twin nodes", "values, addresses and strings returned", "heap balance"])

prop("C12", title="Python sees exactly the values and the memory a node holds",
 statement="A value given to a node from Python (scalar, string, list, tuple, node, numpy scalar or array of any supported type, byte order, stride and direction, string array) is stored with the matching type and exactly its elements in their order, as a copy; reading it back gives the same values. set_external and array views alias the same memory in both directions. Structural operations, iteration, data types, diff, byte swapping, save and load, and relay file handles behave as the same operations on a plain Python model; valid use never crashes the interpreter or touches memory out of bounds.",
 over=["inputs", "histories"], text="all supported value kinds and numpy layouts, histories of operations on two trees, files in three protocols",
 why="The Python tests set contiguous native arrays and a few constants; layouts such as reversed, swapped or sliced arrays and operation sequences are not sampled, and silent reordering looks like success.",
 files=["src/libs/conduit/python/conduit_python.cpp", "src/libs/relay/python/conduit_relay_io_python.cpp"],
 mech=[("PyConduit_Node_Set_From_Python / PyConduit_Create_Numpy_Type", "src/libs/conduit/python/conduit_python.cpp"), ("PyRelay_IOHandle_*", "src/libs/relay/python/conduit_relay_io_python.cpp")],
 observe=["values and types read back", "memory seen through numpy and through the node", "ASan reports"])

prop("C06", title="Compacting, serializing, saving, loading and mapping reproduce the tree exactly",
 statement="compact_to, serialize and the conduit binary, JSON and base64 files hold every leaf once, in order, bit for bit, whatever memory layout the tree had; the compact schema describes exactly those bytes. Loading them gives the same tree, with the target's previous content gone, and a mapped file is a view: what is written through the map is what the file holds afterwards. None of this changes the source.",
 over=["inputs", "histories"], text="all trees, leaf types, lengths (also zero), layouts and byte orders, file name forms and protocols, reused targets",
 why="Tests save compact trees with friendly names; offsets, strides, empty leaves, reused targets and bytes after short files take separate paths.",
 files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_schema.cpp"],
 mech=[("Node::compact_to / serialize / save / load / mmap", "src/libs/conduit/conduit_node.cpp"), ("Schema::compact_to, save, load", "src/libs/conduit/conduit_schema.cpp")],
 observe=["the bytes written", "the tree read back", "total_bytes_mmaped, total_bytes_allocated", "heap balance"])

prop("C07", title="Update merges the source into the destination and touches nothing else",
 statement="update brings every leaf of the source into the destination under the same path, creates what is missing, writes in place when type matches and the destination is long enough, and keeps everything else. update_compatible writes only into leaves that exist with the same type and room for the source; update_external makes the destination's leaves views of the source's memory. The source never changes, and a second identical update changes nothing.",
 over=["inputs", "histories"], text="all pairs of trees, related or not, including parts of the destination itself, in all layouts and ownerships",
 why="Tests update small flat objects; length mismatches, lists, mixed kinds, strided destinations and self updates take separate paths.",
 files=["src/libs/conduit/conduit_node.cpp"],
 mech=[("Node::update / update_compatible / update_external", "src/libs/conduit/conduit_node.cpp")],
 observe=["destination and source trees after the call", "effect of writes to either side", "heap balance"])

prop("C08", title="diff and diff_compatible give the right verdict and name the differences",
 statement="diff reports a difference exactly when the two trees differ in kind, names, type, length, string or any element beyond the tolerance (nan equals only nan; child order of objects does not matter; relaxint ignores integer width and sign only where values agree). diff_compatible reports one exactly when the tree is not contained in the other. The report names the places that differ, and neither tree changes.",
 over=["inputs"], text="all pairs of trees, in all memory layouts, all tolerances, nan, infinities, extreme integers, unterminated strings",
 why="Users and the library's own tests decide equality with diff; a missed difference in one type or layout silently blesses wrong data.",
 files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_data_array.cpp"],
 mech=[("Node::diff / diff_compatible", "src/libs/conduit/conduit_node.cpp"), ("DataArray::diff / diff_compatible", "src/libs/conduit/conduit_data_array.cpp")],
 observe=["verdict", "info tree", "both trees afterwards"])

prop("C09", title="Schemas and data types account for layout exactly",
 statement="A Schema's byte totals, compact form, equality, compatibility, path queries and text form are those of the layout it was built with; its JSON and YAML text reads back to an equal schema. DataType sizes, element addresses, compatibility and names agree with offset, stride, element size and count, also for zero elements.",
 over=["inputs"], text="all schema trees with any names, types, counts, offsets, strides and byte orders",
 why="Every buffer size in the library is computed from these numbers; tests check a few compact layouts.",
 files=["src/libs/conduit/conduit_schema.cpp", "src/libs/conduit/conduit_data_type.cpp"],
 mech=[("Schema::total_strided_bytes / total_bytes_compact / compact_to / equals / compatible / to_json", "src/libs/conduit/conduit_schema.cpp"), ("DataType sizes, element_index, equals, compatible", "src/libs/conduit/conduit_data_type.cpp")],
 observe=["numbers and texts reported", "schema read back"])

prop("C13", title="Byte order is converted exactly once and never changes values",
 statement="endian_swap between byte orders reverses the bytes of each element of every leaf whose order differs from the target, and of nothing else; the dtype records the new order. Swapping there and back restores every byte, memory between strided elements is untouched, and data written in either order reads back with the same values after conversion.",
 over=["inputs"], text="all leaf types and widths, layouts, trees with mixed orders, and the raw 16/32/64-bit swap functions on aligned and unaligned memory",
 why="Tests swap one compact array per width; mixed trees, strides and string leaves are not sampled.",
 files=["src/libs/conduit/conduit_endianness.cpp", "src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_data_type.cpp"],
 mech=[("Node::endian_swap", "src/libs/conduit/conduit_node.cpp"), ("Endianness::swap16/32/64", "src/libs/conduit/conduit_endianness.cpp")],
 observe=["bytes of every element and gap", "dtype().endianness()"])

prop("C14", title="The string, path, encoding, format and file helpers do what they say",
 statement="For every input: splitting at a separator gives the text before and after it and joining undoes it; trimming removes exactly the named characters at the ends; escaping gives valid JSON text and unescaping undoes it; base64 is the standard encoding, fits the promised buffer sizes and decodes to the same bytes; float text keeps 15 digits and reads as a float; format replaces each field with the named or next argument, or with the entry of each map at the given index whatever the array's type and layout, and refuses missing arguments and indices out of range; directory and file helpers report what is there.",
 over=["inputs", "histories"], text="random strings over separators and special characters, byte buffers, numbers, patterns and argument nodes, file operation histories in a scratch directory",
 why="Tests call each helper with one or two literals; separators of several characters, empty parts, strided map arrays and empty directories are where they go wrong.",
 files=["src/libs/conduit/conduit_utils.cpp", "src/libs/conduit/conduit_utils.hpp"],
 mech=[("split_string / join_path / trim_string", "src/libs/conduit/conduit_utils.cpp"), ("base64_* / escape_special_chars / format", "src/libs/conduit/conduit_utils.cpp")],
 observe=["returned strings and values", "bytes around the buffers", "the file system below the scratch directory"])

prop("C20", title="Saving a node to a file and loading it back gives the same tree",
 statement="relay::io::save followed by load returns the tree that was saved, for every protocol (hdf5, conduit_bin, conduit_json, conduit_base64_json, json, yaml, conduit_silo), named or taken from the file suffix, under every HDF5 option; a path after ':' addresses the part of the file it names. save_merged and load_merged combine with what is there as Node::update does; a merge that HDF5 refuses leaves the file as it was. Nothing else changes: not the node saved, not the global HDF5 options, and no HDF5 identifier stays open, also after a refused call.",
 over=["inputs", "configurations", "histories"], text="all trees a protocol can hold, in any memory layout and byte order, all protocols, suffixes, sub paths and HDF5 options, sequences of saves and merges on one file",
 why="Tests write a few small trees per protocol; layouts, option combinations, merge histories and refused writes are not sampled.",
 files=["src/libs/relay/conduit_relay_io.cpp", "src/libs/relay/conduit_relay_io_hdf5.cpp", "src/libs/relay/conduit_relay_io_identify_protocol.cpp", "src/libs/relay/conduit_relay_io_silo.cpp"],
 mech=[("save / save_merged / load / load_merged", "src/libs/relay/conduit_relay_io.cpp"), ("hdf5_save / hdf5_append / hdf5_read", "src/libs/relay/conduit_relay_io_hdf5.cpp")],
 observe=["tree loaded back from the file", "hdf5_options()", "number of open HDF5 identifiers"])

prop("C21", title="HDF5 files behave as a tree store under partial writes and reads",
 statement="Through any sequence of hdf5_write (whole, or with offset and stride), hdf5_read (whole, or with offset, stride and size), hdf5_remove_path, hdf5_has_path and child listing, by path or by open handle, a HDF5 file holds the tree those operations define: partial writes change the addressed elements only and extend the dataset when needed, partial reads return the addressed elements or an error, incompatible writes are refused and change nothing.",
 over=["histories", "inputs", "configurations"], text="all sequences of store operations on one file, all leaf types, offsets, strides, sizes, slabs of multi-dimensional datasets, storage options",
 why="Tests check single partial writes and reads; sequences over compact, fixed, chunked and compressed datasets are not sampled.",
 files=["src/libs/relay/conduit_relay_io_hdf5.cpp"],
 mech=[("write_conduit_leaf_to_hdf5_dataset / read_hdf5_dataset_into_conduit_node", "src/libs/relay/conduit_relay_io_hdf5.cpp"), ("calculate_readsize / hdf5_read_info / hdf5_remove_path", "src/libs/relay/conduit_relay_io_hdf5.cpp")],
 observe=["file content after every operation", "open HDF5 identifiers", "errors raised"])

prop("C22", title="An I/O handle gives each open mode's view of a file",
 statement="IOHandle gives the same answers for HDF5 and the basic protocols: a handle opened r, w, rw, with append or truncate, allows exactly the operations of its mode; reads, has_path and list_child_names reflect earlier writes and removes through the handle; after close the file holds the content that existed before, unless truncated, merged with what was written.",
 over=["histories", "configurations", "inputs"], text="all sequences of open, write, read, remove, query and close with any mode, protocol and tree",
 why="Tests follow one script per protocol; mode and reopen sequences are not sampled.",
 files=["src/libs/relay/conduit_relay_io_handle.cpp"],
 mech=[("IOHandle, HandleInterface, BasicHandle, HDF5Handle", "src/libs/relay/conduit_relay_io_handle.cpp")],
 observe=["result or refusal of each call", "file content after close"])

prop("C25", title="A save that returns is complete; failed or damaged storage is reported",
 statement="When storage fails while a node, schema, mesh or table is saved in a text or binary protocol (no space, size limit, path that cannot be written), the call raises conduit::Error; a save that returns has written a file that loads as the saved tree. Loading a missing, cut or damaged file raises conduit::Error or gives a well-formed tree, never a crash; a cut binary or HDF5 file never loads as a different tree. Either way the source node is unchanged, no file stays open, and later saves and loads work.",
 over=["crash_points", "inputs", "fault_sequences"], text="all trees, protocols and interfaces, all points at which a write stops, all cuts and damages of a file",
 why="Tests only save to working disks and load intact files.",
 files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_schema.cpp", "src/libs/relay/conduit_relay_io.cpp", "src/libs/relay/conduit_relay_io_hdf5.cpp"],
 mech=[("Node::save / serialize / to_*_stream / load / mmap", "src/libs/conduit/conduit_node.cpp"), ("Schema::save / load", "src/libs/conduit/conduit_schema.cpp"), ("hdf5_save / hdf5_close_file", "src/libs/relay/conduit_relay_io_hdf5.cpp")],
 observe=["conduit::Error or its absence", "the file or tree afterwards", "open descriptors and identifiers"])

prop("C31", title="Mesh conversions keep every point and every element",
 statement="Converting a coordset (uniform, rectilinear, explicit) or a topology (points, uniform, rectilinear, structured, unstructured, polygonal, polyhedral) to another representation, generating offsets, or generating a strip from a 1D mesh gives a valid mesh with the same points in the same order and the same elements in the same order, made of the same vertices and faces, and the logical origin; polyhedral faces shared by elements are stored once. The source mesh does not change.",
 over=["inputs"], text="all valid meshes in 1 to 3 dimensions of every coordset, topology and shape type, integer and float types, strided and interleaved arrays",
 why="Tests convert the library's own example meshes: compact arrays, one integer type, regular grids; other shapes, types and layouts are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"],
 mech=[("coordset::*::to_*, topology::*::to_*", "src/libs/blueprint/conduit_blueprint_mesh.cpp"), ("topology::unstructured::to_polygonal / generate_offsets", "src/libs/blueprint/conduit_blueprint_mesh.cpp"), ("generate_strip", "src/libs/blueprint/conduit_blueprint_mesh.cpp")],
 observe=["points and elements of the result, read independently", "mesh::verify of the result", "source tree afterwards"])

prop("C32", title="Derived topologies contain exactly the right entities, maps and fields",
 statement="generate_points, lines, faces, centroids, sides and corners return a valid topology with exactly the entities of the source elements, each shared entity once; the source-to-destination and destination-to-source maps are inverse to each other and name exactly those entities. Sides and 2D corners fill their element. Fields mapped to sides keep element values, split volume dependent values by volume so that they sum to the original, keep vertex values and average them at new points.",
 over=["inputs"], text="all unstructured meshes in 1 to 3 dimensions of every shape, with unused points, permuted elements, any integer type and memory layout, any field options",
 why="Tests count entities on regular example grids; the maps, irregular meshes and field mapping are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"],
 mech=[("topology::unstructured::generate_points / lines / faces / centroids / sides / corners", "src/libs/blueprint/conduit_blueprint_mesh.cpp"), ("TopologyMetadata", "src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp")],
 observe=["entities, maps and geometry read independently", "field values and their sums", "source tree afterwards"])
prop("C33", title="Partitioning a mesh conserves its elements, points and field values",
 statement="Serial partition returns valid domains, as many as the target asks for (a target out of reach ends in conduit::Error or as many domains as there are elements, never a hang), that together hold exactly the selected elements, each as often as it was selected (at least once if one selection names it repeatedly); the mapping fields name for every element and point the one it came from, with the same geometry, shape and vertex order; points of a domain closer than the merge tolerance are merged; pieces of logical domains keep their place in the logical grid; every selected field keeps the value of its element or point (and its volume_dependent attribute where domains are not combined), and every element its materials and volume fractions. A field selection puts each element in the domain its value names. partition_map_back returns changed values to exactly the elements and points they came from and touches nothing else. Neither changes its input otherwise.",
 over=["inputs", "configurations"], text="all meshes of uniform, rectilinear, structured and unstructured domains (one or mixed kinds, adjacent or apart, unordered ids, polygons and polyhedra), all disjoint or whole selections, targets, field lists and mapping names",
 why="Tests partition a few example grids and compare with stored baselines; splits, combines, mixed kinds, non-integer origins and map-back of subsets are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mesh_partition.cpp", "src/libs/blueprint/conduit_blueprint_mesh_partition.hpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"],
 mech=[("Partitioner, Selection*, point_merge, combine_implicit_topologies", "src/libs/blueprint/conduit_blueprint_mesh_partition.cpp"), ("fields::map_vertex_field / map_element_field, map_back_fields", "src/libs/blueprint/conduit_blueprint_mesh_partition.cpp")],
 observe=["output domains read independently", "mapping fields and field values", "input tree afterwards", "application arrays after map-back"])
prop("C35", title="Material set conversions keep every volume fraction and material value",
 statement="Converting a valid material set and a material-dependent field between the full, sparse-by-element and sparse-by-material forms, in any chain, gives a valid result of the asked form in which every element has exactly the materials it had, with the same volume fractions and the same material values; converting to the silo form lists every element once, clean elements by material number and mixed ones by a linked run of slots with their fractions and values, and a species set is indexed so that each element and material finds its own mass fractions. The inputs are unchanged.",
 over=["inputs", "representations"], text="all material sets (empty and mixed elements, arbitrary ids and names, with or without a material map), all forms, numeric types and strides",
 why="Tests convert the venn example and compare with each other; types, indices, shuffled offsets and elements without materials are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp", "src/libs/blueprint/conduit_blueprint_mesh.hpp"],
 mech=[("matset/field to_silo, to_multi_buffer_full, to_sparse_by_element, to_multi_buffer_by_material", "src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp"), ("specset::to_silo", "src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp")],
 observe=["converted trees read independently", "silo arrays walked per zone", "input trees afterwards"])
prop("C36", title="One-to-many relations reach exactly the data they describe",
 statement="For every relation that verifies, O2MIndex and O2MIterator visit for each entry exactly the data its sizes, offsets and indices name, in order, forwards, backwards and by direct access, skipping entries without data; compact_to returns a valid relation without gaps that yields the same values in the same order for every data array, keeping types; generate_offsets yields the running sums of the sizes.",
 over=["inputs", "representations"], text="all relations: empty entries, gaps and shuffled offsets, repeated indices, several data arrays, all integer types and strides",
 why="Tests use the uniform example with equal sizes; empty entries, general indices and several data arrays are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_o2mrelation.cpp", "src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp", "src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp"],
 mech=[("O2MIterator", "src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp"), ("O2MIndex", "src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp"), ("compact_to, generate_offsets", "src/libs/blueprint/conduit_blueprint_o2mrelation.cpp")],
 observe=["every data index reported by index and iterator", "compacted relation", "generated offsets"])
prop("C37", title="Multi-component and nd-array layouts address the data they describe",
 statement="mcarray::to_interleaved and to_contiguous return the same component values under the same names or list positions and types, in the layout asked for, whatever the layout of the input; is_interleaved names exactly the arrays in that layout; verify accepts an mcarray exactly when all components are numeric and of equal length. NDIndex gives for every shape, offset and stride the flat index the specification defines, with defaults for those left out.",
 over=["inputs", "representations"], text="all multi-component arrays (numeric types, mixed types, strides, padding, list or object, caller-owned), all nd-array shapes, offsets and strides",
 why="Tests convert the library's xyz examples of one type; lists, mixed types, padded and strided sources are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mcarray.cpp", "src/libs/blueprint/conduit_blueprint_ndarray_index.cpp"],
 mech=[("to_contiguous / to_interleaved / is_interleaved / verify", "src/libs/blueprint/conduit_blueprint_mcarray.cpp"), ("NDIndex", "src/libs/blueprint/conduit_blueprint_ndarray_index.cpp")],
 observe=["component values, types and byte addresses", "verify and is_interleaved verdicts", "flat indices"])
prop("C38", title="Flattening a mesh gives one right row per point and per element",
 statement="mesh::flatten returns a valid table set with one row per vertex and one per element of the chosen topology, in domain order; each row carries its domain and vertex or element id, its coordinates or element centre, and the value of every selected scalar or vector field that exists on its domain, the fill value otherwise; column types do not lose values. The mesh is unchanged.",
 over=["inputs", "configurations"], text="all single and multi domain meshes of uniform, rectilinear, structured and unstructured topologies, fields present on any subset of the domains, all options",
 why="Tests flatten example meshes with the same fields everywhere; missing fields, mixed types and vector fields over several domains are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp"],
 mech=[("MeshFlattener", "src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp"), ("table::verify", "src/libs/blueprint/conduit_blueprint_table.cpp")],
 observe=["table columns read row by row", "table::verify of the result", "mesh tree afterwards"])
prop("C43", title="Adjacency sets of derived meshes name exactly what the domains share",
 statement="Deriving points, lines, faces, centroids, sides or corners of a mesh of several domains gives every domain the topology, coordset and maps it has on its own, and an adjacency set in which an entity is listed with exactly the domains that have it: both sides list it, in the group named after its domains and in the same order, and nothing else is listed. The source topology, coordset and adjacency set do not change. (Lines of 3D meshes: only entities of one element are considered.)",
 over=["inputs"], text="all unstructured meshes of every shape, cut into domains in any way, with any domain ids, and vertex adjacency sets in any form, order and integer type",
 why="Tests derive regular grids cut into two or a few blocks.",
 files=["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"],
 mech=[("generate_derived_entities / generate_decomposed_entities", "src/libs/blueprint/conduit_blueprint_mesh.cpp"), ("MatchQuery / PointQuery / TopologyBuilder / topology::search", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp")],
 observe=["derived topologies, coordsets and maps", "groups, neighbors and values of every domain", "source tree afterwards"])

prop("C44", title="Adjacency sets of a partitioned mesh name the points its domains share",
 statement="Partitioning a mesh of several domains that has a vertex adjacency set gives every output domain an adjacency set with one group for each other output domain it shares points with, which lists exactly the points both have, each once, under the same group name and in the same order on both sides, in serial and over MPI; without build_adjsets there is none. The source does not change. (Structured domains that would be combined into a structured domain may be refused with an error.)",
 over=["inputs", "configurations"], text="all meshes cut into domains in any way, with any domain ids and any form of adjacency set, all selections and targets",
 why="Tests partition a few regular grids and compare with baselines.",
 files=["src/libs/blueprint/conduit_blueprint_mesh_partition.cpp"],
 mech=[("Partitioner::build_interdomain_adjsets / build_intradomain_adjsets", "src/libs/blueprint/conduit_blueprint_mesh_partition.cpp"), ("merge_chunked_adjsets", "src/libs/blueprint/conduit_blueprint_mesh_partition.cpp")],
 observe=["groups, neighbors and values of every output domain", "points of every output domain", "source tree afterwards"])

prop("C39", title="Adjacency sets name the shared entities; validation tells right from wrong",
 statement="to_pairwise, to_maxshare, to_pairwise_canonical and canonicalize give a valid adjset that records exactly the sharing the source records, each shared entity once per group, under canonical group names, in an order that agrees between the domains of a group when the orders of the source groups agree; is_pairwise, is_maxshare and is_canonical tell the form. validate accepts an adjset exactly when every entry exists on each neighbour it names and the reference is mutual, and gives a reason otherwise; compare_pointwise accepts it exactly when entries agree one by one on both sides; to_topo extracts the entities of each side. All hold whatever the domain ids, group names, integer types and layout, and leave the mesh unchanged.",
 over=["inputs", "configurations"], text="all decompositions into two or more domains, vertex and element association, pairwise and maximal groups, any domain ids and group names",
 why="Tests use tiled example meshes with ids 0..n-1 and canonical names; gaps in the ids, 2D damage reports, ids out of range and names that collide are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"],
 mech=[("mesh::adjset::to_maxshare", "src/libs/blueprint/conduit_blueprint_mesh.cpp"), ("adjset::validate", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"), ("foreach_adjset_mesh_pair_impl", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp")],
 observe=["groups, neighbours and values of every domain before and after", "verdict and reasons of validate and compare_pointwise", "extracted topologies", "mesh tree afterwards"])
prop("C40", title="Queries on a mesh answer what is there, and renumbering keeps the mesh",
 statement="A point query answers, for each question in order, the id of a point of the named coordset that lies within the tolerance, or -1 exactly when there is none, for coordsets of every type, size and precision. TopologyBuilder builds exactly the entities it is given; topology::search and MatchQuery find an entity exactly when one with the same points exists on the other side. spatial_ordering and hilbert_ordering give each element once. reorder, reindex_coords and rewrite_connectivity keep every element on the same points in the same order, with field values following their entity; slice_array and slice_field pick the given entries. dims, length, axes, extents, logical dims and element points are those of the mesh. Queries leave the mesh unchanged.",
 over=["inputs", "configurations"], text="all coordsets (explicit, uniform, rectilinear, any number of points, float32/float64/mixed, strided or interleaved), all query points and tolerances, all unstructured topologies, orders and selections",
 why="Tests query a handful of points of regular example meshes; a point near a cutting plane of the search tree, a flat coordset in single precision, a repeated point or an in-place reorder is not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mesh_utils.cpp", "src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp"],
 mech=[("kdtree::findPoint", "src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp"), ("PointQuery::normalSearch", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"), ("topology::unstructured::reorder", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp")],
 observe=["answers of every query", "connectivity, coordinates and fields of the renumbered mesh", "the mesh tree afterwards"])
prop("C26", title="What arrives over MPI is what was sent",
 statement="relay::mpi send/recv, isend/irecv with wait and wait_all, communicate_using_schema, broadcast, gather, all_gather, reduce and all_reduce (raw and _using_schema) deliver on every rank exactly the trees and values that were sent or reduced, in rank order, whatever the memory layout of sender and receiver, communicator, root, tag and timing; receivers of matching type are filled in place; senders and receivers that take no part do not change; no message is left over and no call hangs.",
 over=["inputs", "schedules", "configurations"], text="all trees, memory layouts, communicators, ranks, roots, tags, posting and waiting orders",
 why="Tests exchange a few fixed trees between two ranks; layouts, offsets, posting orders, any-source receives and longer receivers are not sampled.",
 files=["src/libs/relay/conduit_relay_mpi.cpp"],
 mech=[("send / recv / isend / irecv / wait / wait_all", "src/libs/relay/conduit_relay_mpi.cpp"), ("reduce, gather, broadcast and *_using_schema", "src/libs/relay/conduit_relay_mpi.cpp"), ("communicate_using_schema, safe_tag", "src/libs/relay/conduit_relay_mpi.cpp")],
 observe=["trees on every rank after each exchange", "pending messages", "data pointers of receivers"])
prop("C27", title="CSV tables read back as written; other text is read or refused",
 statement="Writing a blueprint table as CSV gives a header with every column's name (name/component for columns of several components) and one line per row; several tables become one file each. Reading gives the same tables: columns in order, integers exactly and other numbers to the six digits written, in the float type asked for. A file without header reads as a list of columns. Whatever a CSV file holds, it is read or refused with conduit::Error; no memory out of bounds is touched and nothing leaks.",
 over=["inputs", "configurations"], text="all tables (types, layouts, rows, columns, components) and all CSV texts",
 why="Tests write one example table; types, layouts, headerless and malformed files are not sampled.",
 files=["src/libs/relay/conduit_relay_io_csv.cpp"],
 mech=[("write_csv, read_csv", "src/libs/relay/conduit_relay_io_csv.cpp")],
 observe=["lines of the written file", "columns and cells read back", "refusals"])

prop("C30", title="verify accepts exactly the trees that follow the Blueprint protocols",
 statement="blueprint::verify, for mesh, mesh index, every mesh sub-protocol and its index form, o2mrelation, mcarray and table, answers true exactly for the trees that conform to the protocol: required children of the required kind, known types, shapes and associations, consistent lengths and dimensions, and references that exist; one wrong child anywhere is enough for false. It never raises or crashes on any tree, never changes the tree, clears the info node first, and info reports the same verdict. Unknown protocols raise an error, unknown sub-protocols are false.",
 over=["inputs"], text="all trees: conforming ones in every documented form and integer or float type, and any damage to them",
 why="Tests try a fixed list of breakages on small hand-made nodes; combinations of forms, types and damage are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint.cpp", "src/libs/blueprint/conduit_blueprint_o2mrelation.cpp", "src/libs/blueprint/conduit_blueprint_mcarray.cpp", "src/libs/blueprint/conduit_blueprint_table.cpp", "src/libs/conduit/conduit_log.cpp"],
 mech=[("mesh::verify and its sub-protocols", "src/libs/blueprint/conduit_blueprint_mesh.cpp"), ("verify dispatch", "src/libs/blueprint/conduit_blueprint.cpp")],
 observe=["verdict", "info tree", "input tree afterwards", "errors raised"])
prop("C23", title="A saved mesh loads back as it was, however it is laid out in files",
 statement="After save_mesh or write_mesh, load_mesh and read_mesh of the root file return every domain under its number with every coordset, topology, field, matset, specset, adjset, nestset and its state as saved (numbers exactly for hdf5; types kept), for every number of domains, protocol of root files (hdf5, json, yaml), file style, number of files, suffix, mesh name, path and earlier content; the number of files written is the one asked for, several meshes can share files, and the mesh passed in is not changed. Root files of other codes (file and tree patterns, partition maps in any order) load too. Missing files or meshes raise an error.",
 over=["inputs", "configurations", "histories"], text="all meshes of 1 to n domains with any sections, all save options, repeated saves, foreign root files",
 why="Tests save the library's examples with a few option settings from the current directory; domain counts against file counts, paths, material fields and foreign root files are not sampled.",
 files=["src/libs/relay/conduit_relay_io_blueprint.cpp", "src/libs/relay/conduit_relay_io_identify_protocol.cpp"],
 mech=[("write_mesh / save_mesh / clean_mesh", "src/libs/relay/conduit_relay_io_blueprint.cpp"), ("read_mesh / load_mesh and path generators", "src/libs/relay/conduit_relay_io_blueprint.cpp"), ("gen_domain_to_file_map", "src/libs/relay/conduit_relay_io_blueprint.cpp")],
 observe=["loaded trees item by item", "files on disk", "mesh tree afterwards"])
prop("C34", title="Mesh operations over MPI give what the whole mesh gives",
 statement="For every mesh whose domains are spread over the ranks of a communicator, some ranks holding none: mpi save_mesh writes files from which all domains load, load_mesh gives each domain to exactly one rank, evenly and in order; number_of_domains, verify, generate_index, generate_domain_ids, generate_domain_to_rank_map and find_delegate_domain answer on every rank for the mesh as a whole; distribute delivers each domain unchanged to exactly the ranks asked for; flatten gives the root rank the serial table; partition gives each selected element to exactly one output domain with its data, on the destination rank asked for, and partition_map_back returns fields of it to the original domains; points, lines, faces, centroids, sides and corners with their adjacency sets come out as in serial. No call hangs or changes its input.",
 over=["inputs", "schedules", "configurations"], text="all meshes, all spreads of domains over ranks, communicators, options and timings",
 why="Tests run a few example meshes with one domain per rank; empty ranks, uneven spreads, other communicators and domains without destination are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp", "src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp", "src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp", "src/libs/relay/conduit_relay_io_blueprint.cpp"],
 mech=[("generate_index, verify, domain maps", "src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp"), ("distribute", "src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp"), ("ParallelMeshFlattener", "src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp"), ("ParallelPartitioner", "src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp"), ("mpi write_mesh / read_mesh", "src/libs/relay/conduit_relay_io_blueprint.cpp")],
 observe=["results on every rank, gathered", "files on disk", "input trees afterwards"])
prop("C24", title="Meshes saved to Silo files load as the same meshes",
 statement="For every 2D or 3D mesh of rectilinear, uniform, structured or unstructured domains (triangles, quads, polygons, tetrahedra, hexahedra, wedges, pyramids), silo save_mesh followed by load_mesh returns every domain with the same points and elements in the same order, every field with its association and values, and every element's materials and volume fractions (every element having a material and all domains one material map), the cycle and time, whatever the file style, number of files, suffix, extension and mesh name; domains are numbered from 0 and items named mesh_item. Saving replaces an earlier mesh of the same name. Saving does not change the mesh.",
 over=["inputs", "configurations"], text="all such meshes, array layouts and save options",
 why="Tests round-trip a few example meshes with two or three layouts.",
 files=["src/libs/relay/conduit_relay_io_silo.cpp"],
 mech=[("write_mesh, silo_mesh_write", "src/libs/relay/conduit_relay_io_silo.cpp"), ("read_mesh", "src/libs/relay/conduit_relay_io_silo.cpp")],
 observe=["loaded trees item by item", "mesh tree afterwards"])
prop("C41", title="A generated index describes every domain's items",
 statement="mesh::generate_index of any valid mesh gives an index that verifies and has exactly one entry for every coordset, topology, matset, specset, field, adjset and nestset that any domain has, with its path under the reference path, type, coordinate system and axes, referenced items, association or basis, component count, materials and species, and a state with the domain count and the cycle and time if a domain has them. The mesh is not changed.",
 over=["inputs"], text="all single and multi domain meshes with any sections on any subset of the domains",
 why="Tests index the examples; sections that exist on some domains only, material-only fields and mixed types are not sampled.",
 files=["src/libs/blueprint/conduit_blueprint_mesh.cpp"],
 mech=[("generate_index, generate_index_for_single_domain", "src/libs/blueprint/conduit_blueprint_mesh.cpp")],
 observe=["every index entry", "index::verify of the result", "mesh tree afterwards"])
