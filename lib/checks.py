"""What decides each property: harnesses, level, bounds as stated in the evidence."""
MC = "model_checking"
EX = "exploration"
FE = "fault_enumeration"

CHECKS = {
    "C01": {
        "harness": ["c01"], "level": MC,
        "technique": "explicit-state exploration of collection histories on the real code against a reference set",
        "level_note": "every operation history up to the stated depth is replayed on the real collections; states are deduplicated by canonical structure",
        "bounds": "all seven collection kinds, all histories of insert/delete/find/index/visit/free over small key universes (with colliding and zero keys), "
                  "all histories over the generic interface, and grown collections",
        "assumptions": ["elements are a struct with an integer key; user comparison and hash functions are consistent"],
    },
    "C02": {
        "harness": ["c02"], "level": MC,
        "technique": "explicit-state exploration of both search trees with an independent balance checker",
        "level_note": "all shapes reachable for small node counts, all placements in the node pool and all deletion orders; large trees along structured orders",
        "bounds": "all reachable red-black and AVL shapes up to the stated node count, every insert/delete from each, plus large ordered histories",
        "assumptions": ["keys are distinct integers under the comparison given"],
    },
    "C03": {
        "harness": ["c03"], "level": EX,
        "technique": "exhaustive enumeration of small arrays through the real sort, in buffers of exactly the right size",
        "level_note": "all weak orders and permutations up to the stated length decide the comparison network of the heap sort; longer arrays in structured orders only",
        "bounds": "all arrays of up to 7 (thorough: 8) elements over as many keys in ten element sizes, all permutations of up to 9 (11), all two-valued arrays of up to 15 (18), "
                  "every length up to 299 (1199) in twelve orders; every basic type over boundary values, char arrays, structures and enumerations by name up to length 4-6",
        "rule": "distinct (length, element size or type, input array)",
        "assumptions": ["the comparison function is a weak order"],
    },
    "C04": {
        "harness": ["c04"], "level": EX,
        "technique": "exhaustive enumeration of small object graphs through the real save and load code, against an independent isomorphism oracle",
        "level_note": "every graph of the stated families and bounds, in all seven formats; graphs beyond the bounds are not covered",
        "bounds": "all linkings of up to 3 (thorough: 4) two-pointer nodes; all pointer placements into members, array elements, sized blocks, strings, pointer cells, "
                  "untyped pointers; references that come before what they point to, down to the last node; all overlaps of three slices of one array; regular graphs of up to 120 nodes; seven formats each",
        "rule": "distinct (format, canonical graph) pairs",
        "assumptions": ["the types are those of harness/graphs.h"],
    },
    "C05": {
        "harness": ["c05"], "level": EX,
        "technique": "exhaustive enumeration of scalar values of every kind through the real save and load code of seven formats",
        "level_note": "every value of the one-byte kinds, every value (thorough) or a grid (quick) of the two-byte kinds, structured grids of bit patterns for wider kinds, "
                      "every declared width and sign of bit-field with all or boundary values; values beyond the grids are not covered",
        "bounds": "kinds: bool, char, integers of 8..128 bits, float, double, long double, their complex versions, enums of every size and sign, eleven bit masks of every width and sign (all subsets), bit-fields of every width, "
                  "as member, array element, pointer target and sized block; seven formats",
        "rule": "distinct (format, kind, canonical value)",
        "assumptions": ["NaNs are one value", "XML2 and YAML carry only valid UTF-8 text"],
    },
    "C07": {
        "harness": ["c07"], "level": EX,
        "technique": "exhaustive enumeration of small object graphs through the real deep copy, with an ownership ledger of every heap block",
        "level_note": "every graph of the stated families and bounds; ownership and block sizes are checked against a ledger kept behind the library's memory hooks",
        "bounds": "graph families of C04 plus all boundary values of every scalar kind, unions and sized pointers",
        "rule": "distinct canonical graphs",
        "assumptions": ["the types are those of harness/graphs.h and harness/values.h"],
    },
    "C08": {
        "harness": ["c08"], "level": EX,
        "technique": "exhaustive enumeration of small object graphs, built, copied and loaded from seven formats, through the real recursive free with a ledger of every heap block",
        "level_note": "every graph of the stated families and bounds; the ledger counts every block and stops at the first release of something that is not a live block",
        "bounds": "graph families of C04 plus unions and sized pointers, each built by hand, deep-copied, and loaded from each of seven formats",
        "rule": "distinct (origin, canonical graph)",
        "assumptions": ["the types are those of harness/graphs.h and harness/values.h", "what the caller built is in heap blocks of its own, all referred to by their start"],
    },
    "C09": {
        "harness": ["c09"], "level": EX, "budget": 400,
        "technique": "exhaustive enumeration of all pairs of structures in families of small object graphs through the real comparison and hash, against an isomorphism oracle and a total order",
        "level_note": "within each family every ordered pair is compared, and all results must agree with one ranking, which decides transitivity for all triples at once",
        "bounds": "families: boundary values of every scalar kind, unions, sized pointers, linked pairs and triples, interior pointers, strings, pointer cells, untyped pointers, slices, arrays; "
                  "and the same through copy and seven formats",
        "rule": "distinct canonical structures",
        "assumptions": ["the types are those of harness/graphs.h and harness/values.h", "NaNs are one value, and so are the two zeros"],
    },
    "C21": {
        "harness": ["c21"], "level": EX,
        "technique": "exhaustive enumeration of member selections and orders in hand-written documents of six text formats, loaded by the real code, against the object they spell out",
        "level_note": "all ordered selections up to the stated size, structured orders of all members, all positional runs with up to two designators, an unknown name at every place",
        "bounds": "a type of 22 members (integers, adjacent bit-fields, enums, text, nested structures, arrays, pointers, sized pointers); ordered selections of up to 3 (thorough: 4) members; "
                  "120 orders of all members with any one left out",
        "rule": "distinct documents",
        "assumptions": ["the type is that of harness/c21.c"],
    },
    "C22": {
        "harness": ["c22"], "level": EX,
        "technique": "exhaustive enumeration of array shapes, element kinds, fill patterns and input lengths through the real save, load, copy and comparison",
        "level_note": "18 shapes of one to four dimensions times 12 element kinds times every all/one/all-but-one pattern in seven formats; every number of listed elements from zero to one too many at every level in six text formats; "
                      "arrays with a size member with every size",
        "bounds": "dimensions of up to 5 elements, at most 24 elements in all",
        "rule": "distinct (format, document or canonical object)",
        "assumptions": ["the types are those of harness/c22.c"],
    },
    "C06": {
        "harness": ["c06"], "level": EX,
        "technique": "exhaustive enumeration of texts through the real save and load code of seven formats, in strings, character arrays and arrays of strings",
        "level_note": "all texts of one and two bytes; all words over structured alphabets; all characters of the basic plane; all concatenations of reserved words of the formats; lengths around every power of two",
        "bounds": "words of 3 over 54 special characters, of up to 5 (thorough: 6) over eight alphabets of seven; texts of up to 258 (8194) characters",
        "rule": "distinct (format, text)",
        "assumptions": ["XML2 carries only what XML 1.0 calls characters, and YAML only valid UTF-8 text"],
    },
    "C10": {
        "harness": ["c10"], "level": FE, "budget": 400,
        "technique": "exhaustive fault injection: every allocation of every load of small object graphs fails, alone or with all later ones, on the real code",
        "level_note": "every allocation index of each load is failed in turn until the load no longer reaches it; a ledger of all blocks checks for leaks and double frees and the result is compared with the object saved",
        "bounds": "objects: linked pairs, strings, pointer cells, slices, unions, sized pointers, texts, scalar values, untyped pointers (thorough: interior pointers, arrays, large graphs); seven formats; "
                  "allocations through Metaresc's own memory functions",
        "rule": "distinct (format, object, fault mode, failing allocation)",
        "assumptions": ["libxml2's and libyaml's own allocators do not fail", "type descriptors were set up before the fault"],
    },
    "C11": {
        "harness": ["c11"], "level": FE, "budget": 400,
        "technique": "exhaustive fault injection: every allocation of every save, copy, free, hash, comparison of small object graphs fails, alone or with all later ones, on the real code",
        "level_note": "every allocation index of each operation is failed in turn until the operation no longer reaches it; outputs are compared with the ones without a fault, the source byte for byte with what it was",
        "bounds": "objects: linked pairs, strings, pointer cells, slices, unions, sized pointers, texts, scalar values, untyped pointers (thorough: interior pointers, arrays, large graphs); "
                  "seven formats, deep copy, recursive free, hash, comparison, the graph of descriptors; allocations through Metaresc's own memory functions",
        "rule": "distinct (operation, object, fault mode, failing allocation)",
        "assumptions": ["libxml2's and libyaml's own allocators do not fail", "type descriptors were set up before the fault"],
    },
    "C12": {
        "harness": ["c12"], "level": FE, "budget": 300,
        "technique": "explicit-state exploration of the real collections with fault injection: every operation in every reached state, with no fault, the first, the second or every allocation failing",
        "level_note": "breadth-first over histories of add, remove, bulk index and faults; after each step all elements, look-ups, tree invariants and live blocks are compared with a reference set; state graph deduplicated by the collection's layout",
        "bounds": "six kinds of collection; key universes and depth of C01's histories; a growth scope that crosses every capacity threshold up to the size of the scope (tens of elements) with a fault at each",
        "rule": "distinct (kind, state, operation, fault)",
        "assumptions": ["comparison and hash functions do not allocate (collections of generic key types compare through serialization, which does)"],
    },
    "C13": {
        "harness": ["c13"], "level": EX, "budget": 420,
        "technique": "exhaustive enumeration of token sequences and of all single edits of documents, each loaded by the real loaders under an address sanitizer and a ledger of all blocks",
        "level_note": "every input is loaded in full by the real code; refused inputs must leave no block behind, accepted ones must be well-typed graphs by an independent description and be released completely by a recursive free",
        "bounds": "six text formats; token sequences up to 4 (thorough: 5) tokens in two frames over six target types; all single edits (truncation, byte lost, replaced by or preceded by one of 33 special bytes, token runs up to 24 lost or repeated, tokens exchanged, replaced by one of 19 numbers) "
                  "of documents of linked, string, union, sized, typed and scalar objects; nesting 10 to 20000 (thorough: 100000)",
        "rule": "distinct accepted texts",
        "assumptions": ["libxml2 and libyaml are memory safe", "one thread"],
    },
    "C14": {
        "harness": ["c14"], "level": EX, "budget": 420,
        "technique": "exhaustive exploration of binary streams: a stream that is made up, word by word, while the real loader reads it, and all edits of streams the library wrote",
        "level_note": "the stream is the nondeterministic environment: at each read every word of an alphabet, every kind of text and the end of the stream are tried, so that exactly the streams the loader can tell apart are explored; "
                      "each is then loaded again from a buffer of just this size under an address sanitizer, with a ledger of all blocks; what is accepted must be a well-typed graph that a recursive free releases completely",
        "bounds": "streams: four (thorough: six) words of an alphabet of 12 and an end or filling of zeroes or ones, over seven target types; edits: truncation at every byte, every word replaced by one of 24, lost, repeated or added, every byte by one of 8, "
                  "and all pairs of words replaced in streams of up to 30 (thorough: 60) words, of documents of linked, text, union, sized, typed and scalar objects",
        "rule": "distinct accepted streams",
        "assumptions": ["an allocation beyond 1 MB fails", "unions and pointers sized by a member of the stream only have to load safely when the stream refers to nodes (what they reach depends on it)"],
    },
    "C15": {
        "harness": ["c15"], "level": EX,
        "technique": "exhaustive enumeration of discriminator kinds, placements and values through the real save, load, copy, comparison and hash",
        "level_note": "every kind of discriminator in every placement with every value of interest decides which member is written; the member selected is known from the enumeration",
        "bounds": "over 30 kinds of discriminator (integers of 8 to 128 bits, bool, char, enums, strings, char arrays, pointers to them, bit-fields, in nested structures, overridden by the caller), seven placements, seven formats; records of 1 to 13 unions reached from two holders whose discriminators differ in any one or two of them",
        "rule": "distinct (format, kind, placement, canonical object)",
        "assumptions": ["the types are those of harness/c15.c"],
    },
    "C16": {
        "harness": ["c16"], "level": EX,
        "technique": "exhaustive enumeration of size member kinds, placements, element kinds and counts through the real save, load and copy",
        "level_note": "every combination of a kind of size member, its placement, a kind of element, a number of elements and a format; also documents in which size and elements disagree, and raw bytes",
        "bounds": "29 kinds of size member (integers of 8 to 128 bits, char, bool, signed and unsigned enums of every size, bit-fields, behind pointers), each with every number, eight placements, 15 kinds of element, 0-4 (thorough: 0-9) elements and sizes that are no multiple; seven formats",
        "rule": "distinct (format, kind, placement, element, size)",
        "assumptions": ["the types are those of harness/c16.c", "a negative size is a mistake of the caller"],
    },
    "C17": {
        "harness": ["c17"], "level": EX,
        "technique": "exhaustive enumeration of objects through both XML writers and, for each document, both XML readers",
        "level_note": "four combinations per object; each loaded object must be isomorphic to the one saved",
        "bounds": "graph families of C04, boundary values of every scalar kind, unions, sized pointers, texts over an alphabet of markup, Unicode blocks",
        "rule": "distinct canonical objects",
        "assumptions": ["texts are what XML 1.0 can carry; see C05 and C06"],
    },
    "C18": {
        "harness": ["c18"], "level": EX,
        "technique": "exhaustive enumeration of token sequences, expression trees and number spellings through the real readers against an evaluator of its own",
        "level_note": "every sequence of the stated tokens up to the stated length, well-formed or not, is loaded into members of every scalar kind at once",
        "bounds": "all sequences of up to 5 (thorough: 6) tokens; chains of up to 4 (5) operands over all operators; all trees of 3 (4) leaves with parentheses and signs; all pairs of 27 kinds of constants; "
                  "all words of up to 5 (6) characters that look like numbers; all texts of up to 3 (4) names and numbers joined by bars in six formats; expressions in twelve places of a document",
        "rule": "distinct expression texts",
        "assumptions": ["values stay within 128 bits", "no product or quotient of complex infinities, no division by NaN", "a float beyond the range of an integer member is not defined, as in C"],
    },
    "C19": {
        "harness": [{"name": "c19", "variant": "sched", "sources": ["c19.c", "mark_c19.c", "ops_c19.c"]}], "level": EX, "budget": 600,
        "technique": "stateless model checking of the real code: every interleaving of two or three threads up to a number of preemptions, under a scheduler of our own with a vector-clock race check on every access",
        "level_note": "the library is compiled for the thread sanitizer and linked with our own scheduler instead of its run time; threads are switched at every atomic and volatile access, lock and yield, which is complete "
                      "as long as no two other accesses are unordered, and that is checked on every execution; every output is compared with that of the operation alone in a fresh program",
        "bounds": "32 operations (all loaders and savers, look-ups of types, constants and members, comparison, release, graphs, hashes, collections, values, functions, messages, printing); first use: all pairs with one preemption, triples of five "
                  "operations with one, one operation in two or three threads with two and one; the same after the initialisation with one, one, and three and one (thorough: one or two preemptions more, triples of eight)",
        "rule": "distinct executions (operations and schedules)",
        "assumptions": ["calls into libc, libxml2 and libyaml happen at once", "memory is sequentially consistent for ordered accesses; unordered ones are reported unless the write does not change the value",
                        "threads work on objects of their own; the user's allocator and message handler do not call back into the saving of pointers to functions"],
    },
    "C20": {
        "harness": ["c20"], "level": EX,
        "technique": "exhaustive enumeration of small object graphs saved twice, loaded back and saved again by the real code",
        "level_note": "every heap block is compared byte for byte across the save, both outputs with each other, the input across the load, and the output of the object loaded with the input",
        "bounds": "graph families of C04, values, unions, sized pointers; seven formats",
        "rule": "distinct (format, canonical object)",
        "assumptions": ["the types are those of harness/graphs.h and harness/values.h"],
    },
    "C23": {
        "harness": ["c23"], "level": EX,
        "technique": "exhaustive enumeration of sequences of output and growth operations on the real growable array, against a plain array; each allocation failed in turn",
        "level_note": "every sequence of the stated operations up to the stated length is run; contents, sizes and termination are compared after each",
        "bounds": "see scopes of harness/c23.c: text output (printf, appended characters and strings), blocks, node lists, and every single allocation fault in them",
        "rule": "distinct contents",
        "assumptions": ["nodes are added depth first, as all callers do"],
    },
    "C24": {
        "harness": ["c24"], "level": EX,
        "technique": "exhaustive enumeration of sets of declared names and values registered with the real library, of every text one edit away from a name, of every value next to a constant, and of every order of registration in a process of its own",
        "level_note": "all 4096 subsets of 12 names made to look alike (prefixes, same hash) are declared as structures, all subsets of boundary values as enumerations of each width; every look-up is compared with the declarations",
        "bounds": "structures of 0-70 members; all subsets of 12 names; all 120 orders of description of five members; all subsets of 6-10 values in seven integer types; about 6000 type and 7000 constant names with all their edits; "
                  "all 120 orders of registration of five types that depend on each other, each of them registered once more or not",
        "rule": "distinct types, names and orders",
        "assumptions": ["descriptors of the large families are made at run time in the image of those the macros make"],
    },
    "C25": {
        "harness": ["c25"], "level": EX,
        "technique": "exhaustive enumeration of argument lists printed by the real macros into memory, against an independent formatter",
        "level_note": "all pairs of 24 kinds of arguments over all boundary values, lists of five kinds in three rotations, every form of argument of the documentation",
        "bounds": "24 kinds (characters, booleans, integers of 8..128 bits, floats, complex numbers, strings, untyped pointers) with 2 to 8 boundary values each; enumerations of four sizes; "
                  "pointers to basic types, arrays, structures and unions; explicit serialization in all text formats",
        "rule": "distinct printed texts",
        "assumptions": ["types of pointers are named through MR_OBJ_TYPE, as DWARF is not available here"],
    },
    "C26": {
        "harness": ["c26"], "level": EX,
        "technique": "exhaustive enumeration of small documents of six text formats with every assignment of identifiers and references, loaded by the real library and compared with an oracle that resolves names on the document itself",
        "level_note": "documents are written by the harness, not by the library's savers; every pointer of the result has to be the address of the node named, or NULL",
        "bounds": "12 shapes of up to 60 nodes (structures, pointers to them, to integers and to arrays, strings, arrays, members of members); one reference of either kind from every null pointer to every node; "
                  "two references from every pair of pointers; up to five (thorough: six) at a time among strings or among structures, with chains and cycles; three numberings (rising, falling, scattered); "
                  "references to themselves, to the enclosing node, to undefined identifiers and to nodes of other types included",
        "rule": "distinct documents",
        "assumptions": ["an identifier that is given twice in one document is not defined", "in YAML and JSON a number that is no anchor names the node of that number; identifiers that are to be undefined are beyond all node numbers",
                        "nodes that are null or references themselves carry no identifier in YAML"],
    },
    "C27": {
        "harness": ["c27"], "level": EX,
        "technique": "exhaustive enumeration of histories of the growable XDR stream against an array of bytes, and of sequences of objects in growable, memory and file streams with every truncation and every capacity",
        "level_note": "every sequence of stream operations up to the stated length; every pair and triple of 12 objects, every object of the graph families followed by another one, cut at every byte",
        "bounds": "six (thorough: seven) stream operations of which up to three write; pairs and triples of 12 objects; graph families of C04 (quick: large families are cut at the ends of objects and units of the stream only)",
        "rule": "distinct histories and sequences of objects",
        "assumptions": ["the types are those of harness/graphs.h and harness/values.h"],
    },
    "C29": {
        "harness": ["c29"], "level": EX,
        "technique": "exhaustive enumeration of streams of XML documents: every object of the graph families through both writers, every length around the sizes of the buffer with every failure of an allocation, every small tree of elements, every short sequence of significant characters",
        "level_note": "the real reader on a stream in memory; what is delivered is compared with what was written byte for byte, with the position of the stream, and by loading it",
        "bounds": "graph families of C04 and C05, three documents to a stream, three separators, cut at every byte (quick: the small families only); lengths within 9 of 2, 4, 8, 16 and 32 KB (thorough: all up to 34000); "
                  "trees of up to three (thorough: five) elements in all spellings; all sequences of up to six (thorough: seven) of eight characters",
        "rule": "distinct streams",
        "assumptions": ["a document is a declaration and a root element, as the writers produce it; comments and CDATA sections are not written by them"],
    },
    "C30": {
        "harness": ["c30"], "level": EX,
        "technique": "exhaustive enumeration of function names, addresses and places through every format and copy, and of histories of the memory of names, each in a process of its own",
        "level_note": "the real writers, readers and dynamic linker; the functions are generated with names of every stated length; what comes back is compared as an address",
        "bounds": "names of 1 to 140 characters and around 256, 512, 1024, 2000 and 4096; 50 names with a meaning in some format; all 128 addresses with one bit or a prefix of bits set and 23 others; seven places; crowds of 15 sizes up to 200 functions in four orders; "
                  "all histories of four (thorough: five) questions about four functions with the memory on and off",
        "rule": "distinct documents and histories",
        "assumptions": ["names are C identifiers that are not keywords or macros; functions are exported by the program or have no exported name"],
    },
    "C31": {
        "harness": ["c31"], "level": EX,
        "technique": "exhaustive enumeration of faults in documents and of failing allocations, with every message recorded and compared with the place and kind of the fault; enumeration of all message numbers, levels and thresholds",
        "level_note": "the real parsers, loaders, writers and message printer; places are computed from the text by counting line ends",
        "bounds": "twelve rich objects in every format: every byte deleted, cut or replaced by 26 characters, every place between tokens in four layouts with four foreign characters, 14 other values for every number and string; every byte of XDR streams with nine values; every failing allocation; "
                  "all message numbers and ten levels with nine thresholds, five line numbers, four ways; silence on all objects of thirteen graph families",
        "rule": "distinct documents, faults and messages",
        "assumptions": ["messages of libxml2 count as messages", "stderr of the C library can be replaced by a memory stream"],
    },
}

NOT_APPLICABLE = {
    "C28": "libdwarf is not installed here, so mr_dwarf.c can neither be built nor run",
}
