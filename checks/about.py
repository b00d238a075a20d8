"""Titles, statements and explanations of all properties: the single source of properties.jsonl and MANIFEST.json (see tools/make.py)."""

ED = "spine_json_lib/spine_animation_editor.py"
AD = "spine_json_lib/data/spine_anim_data.py"
T = "spine_json_lib/data/data_types/"
BT = T + "base_type.py"
SK = T + "skin.py"
AN = T + "animation.py"
DO = T + "draworder.py"
SN = "spine_json_lib/deserializer/spine_nodes.py"
DA = "spine_json_lib/graph/dagraph.py"
SP = "spine_json_lib/graph/spamnode.py"
GV = "spine_json_lib/graph/graph_validator.py"
GC = "spine_json_lib/spine_graph_container.py"
SV = "spine_json_lib/data/spine_version_type.py"
UT = "spine_json_lib/utils.py"
TYPES = [T + x for x in ("animation.py", "base_type.py", "bone.py", "deform.py", "draworder.py", "events.py", "ik.py", "path.py", "skin.py", "slot.py", "transform.py")]

ABSTRACT = "abstract interpretation of the package source (unknown names, numbers, counts) against an independent specification"
GRAPHS = "abstract interpretation of the graph code over unknown identifiers, per enumerated graph shape"
SHARE = "abstract interpretation: heap reachability, aliasing and mutation effects of every operation"
EFFECT = "abstract interpretation: file effects on every path, for unknown path names"
ORDER = "abstract interpretation: taint of set iteration order and of values that differ between runs"

BASE = ("What the statement says about documents is checked for documents whose names and numbers are unknown, in the shapes listed in the evidence file "
        "(families of any length where a shape says 'any number'). Paths the interpreter cannot follow exactly are reported as undecided, never as violations. "
        "Trusted: the abstract interpreter in absint/, its models of the Python built-ins and of copy, json, os, re, functools, collections, enum, and the specification in checks/.")
FINITE = ("Identifiers are unknown, graph shapes are enumerated up to the size given in the evidence file; larger graphs are not covered. "
          "Trusted: the abstract interpreter in absint/ and the specification in checks/.")

A = {}


def prop(pid, title, statement, over, text, why, files, mech, technique=ABSTRACT, rule="", note=BASE, state=(), observe=()):
    A[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, rule=rule, note=note, state=state, observe=observe)


prop("C01", "Loading and saving keeps everything",
     "Loading a valid Spine 3.8 document and saving it without editing yields a document that means the same: every object, attribute, key frame, list order and name of the "
     "original is there with its value, and nothing is added. An attribute may be left out of the saved document only if its value is the one the Spine format assumes when it is absent.",
     ["inputs"], "every valid document: every kind of object, every attribute of it, any values, any number of objects, any order",
     "The tests compare one example document; they contain a fraction of the attributes, one value for each and no boundary between default and other values.",
     TYPES + [AD, ED], [("to_json / to_spine_data_ignoring_default_values", BT), ("DEFAULT_VALUES and SPINE_3_8_DEFAULT_VALUES", T), ("parse_skin_attachment_data", SK), ("to_json_data", AD)],
     rule="For every kind of object the format defines, a document with all attributes, with each single attribute, with families of any number of elements and with chosen orders of names "
          "is interpreted through loading and saving; the result must equal the input under the format's own table of absent values (checks/fmt38.py).",
     observe=["SpineAnimationEditor(json_data).to_json_data()"])

prop("C02", "Only true default values are omitted when saving",
     "Whatever value an attribute of a valid document has, also a value that equals some default, saving the document again preserves its meaning: the saved document has that "
     "value, or leaves the attribute out where the Spine format takes exactly that value for a missing attribute.",
     ["inputs"], "every optional attribute of every kind of object and every value of it, including zero, one, empty and the defaults of other objects",
     "Each test fixes concrete values; a wrong default only shows for a value that happens to equal it.",
     TYPES, [("to_spine_data_ignoring_default_values", BT), ("DEFAULT_VALUES and SPINE_3_8_DEFAULT_VALUES", T)],
     rule="Each attribute alone is given an unrestricted unknown value; the interpreter splits cases where the code compares it with a constant, and in each case the saved document must mean the same.",
     observe=["SpineAnimationEditor(json_data).to_json_data()"])

prop("C03", "Nothing in a document is dropped silently",
     "A document that contains something the library does not support, such as an attribute, timeline or kind of attachment it does not know, or that lacks something the library needs, "
     "such as the name of a bone or a draw-order offset, is either rejected with an error when it is loaded or kept completely; it is never loaded with a part missing. "
     "Documents without a usable version or with two bones, slots or constraints of one name are rejected.",
     ["inputs"], "every document with any unknown attribute name at any place, any unknown attachment type, missing required attribute, malformed version or duplicate name",
     "Tests try no unknown attribute; the property is about every name at every place.",
     TYPES + [AD, DA, SV], [("SpineData.__init__ (unsupported and REQUIRED attributes)", BT), ("parse_skin_attachment_data", SK), ("add_node (duplicate id)", DA), ("SpineVersion.__init__", SV)],
     rule="An unknown attribute name different from the known ones, unknown attachment types, attributes of other kinds of attachments, missing required parts: interpreted through loading and saving, "
          "every path has to end in an exception or in a document that equals the input.")

prop("C04", "Editors, inputs and results are independent of each other",
     "Creating an editor and using it never changes the data the caller passed in, nor do later changes of that data affect the editor; the data it returns shares no mutable part with the editor, with other results, with the input, or with tables of the library. "
     "Consequently an operation on one editor changes neither another editor made from the same data nor any data handed out before.",
     ["inputs", "histories"], "every document, every pair of editors, and every editing operation followed by observation of everything handed out before",
     "Tests use one editor and never look at the input afterwards; sharing only shows after a second, unrelated operation.",
     [ED, AD, BT, SK, AN, SN], [("deepcopy of the input", AD), ("parse_skin_attachment_data (copy)", SK), ("traverse_spine_data (fresh containers)", BT), ("default_values (copy)", BT)],
     technique=SHARE,
     rule="After interpreting load, save and each operation, the sets of mutable heap objects reachable from editor, other editor, input, class tables and results must be disjoint pairwise, "
          "the input must compare equal to what was passed, and results handed out before must be unchanged.")

prop("C05", "Versions are ordered by their numbers",
     "Spine versions compare as triples of numbers: major first, then minor, then patch, a missing patch counting as zero; all six comparisons agree with each other, also against a version given as text. "
     "Text that is not two or three numbers separated by dots is rejected. Documents of version 3.8 and all later versions are handled like 3.8 documents.",
     ["inputs"], "every pair of version numbers, any number of digits",
     "Tests compare a few pairs that differ in one component; an ordering that is wrong when components disagree passes them.",
     [SV, "spine_json_lib/data/constants.py"], [("SpineVersion comparison operators", SV), ("SPINE_3_8_VERSION", "spine_json_lib/data/constants.py")],
     rule="Two versions whose components are unknown digit strings; for each ordering of the components assumed as facts about the integers, the six operators must return what the triple order says. For other supported versions, every kind of object with and without each attribute must be saved exactly as for 3.8.99.",
     note="Covers versions of two and three parts with any non-negative numbers. " + BASE)

prop("C06", "Graph edges are kept consistently on both sides",
     "After any accepted sequence of adding and removing nodes and edges, a node lists another as child exactly when that one lists it as parent, both are in the graph, no pair is listed twice, and the edges are exactly those added and not removed. "
     "Removing a node removes it from all its neighbours and leaves all other nodes and edges as they were.",
     ["histories", "inputs"], "every graph and every following operation, any node identifiers",
     "Tests build a few fixed graphs and look at one side of the edges.",
     [DA, SP], [("add_edge, remove_edge, remove_node_by_id", DA), ("_add_parent, _add_child and removal", SP)], technique=GRAPHS, note=FINITE,
     rule="For every enumerated graph (built by the library through its own operations) and every further operation, the parents and children seen through the graph must be the reference relation.")

prop("C07", "Rejected graph operations change nothing; identifiers are unique",
     "Adding a node whose identifier is taken, or using an identifier that does not exist, raises an error and leaves the graph exactly as it was. Identifiers that the graph chooses itself are never in use already, whatever identifiers the caller chose before.",
     ["histories", "inputs"], "every graph, every invalid operation, every mix of chosen and generated identifiers",
     "Tests provoke one or two errors and do not compare the graph afterwards; generated identifiers are not mixed with chosen ones.",
     [DA], [("add_node, get_node, generate_unique_id", DA)], technique=GRAPHS, note=FINITE,
     rule="As for C06, for the operations that must be rejected: every path raises, and the graph compares equal to the one before. Plus sequences of requests with unknown, numeric and generated identifiers and removals in between, against a reference list.")

prop("C08", "Equal nodes have equal hashes",
     "Two graph nodes are equal exactly if they have the same identifier; equality is symmetric, 'not equal' is its negation, equal nodes have equal hashes, and so a node is found in sets, dictionaries and lists through an equal one.",
     ["inputs"], "every two nodes with any identifiers and any data",
     "No test uses nodes as keys.", [SP], [("__eq__ and __hash__", SP)], technique=GRAPHS, note=FINITE,
     rule="Two nodes with unknown identifiers, in the cases equal, different and undetermined, put through ==, !=, hash, set, dictionary and list lookup; nodes of SpamNode, of a subclass, of different types, with and without neighbours.")

prop("C09", "Heads and tails of a graph are found exactly",
     "The reported heads of a graph are exactly the nodes without parents and the tails exactly those without children, each once, for any graph including isolated nodes.",
     ["inputs"], "every graph, any identifiers, any order of construction",
     "Tests use two hand-made graphs.", [DA], [("get_heads_id, get_tails_id", DA)], technique=GRAPHS, note=FINITE,
     rule="For every enumerated graph shape, also with cycles and isolated nodes, the two lists must be permutations of the reference lists.")

prop("C10", "A document survives the conversion into a graph and back",
     "Converting the bones, slots and inverse-kinematics constraints of a document into the ownership graph and back gives the same objects with the same attributes in the same order, whatever their names.",
     ["inputs"], "every document, any names, including names shared between bones, slots, constraints and attachments",
     "Tests do it for one document whose names are all different and whose lists happen to be sorted.",
     [SN, DA], [("create_from_json_data, to_json_data", SN), ("_to_graph_id, _to_base_id", SN)],
     rule="Documents with unknown names in chosen orders, IK chains, several slots on a bone, any number of slots, every attribute, constraints on any list of bones, names ending in the library's own suffixes and random combinations are interpreted through graph construction and serialization; the lists must be equal.")

prop("C11", "Ownership queries remove exactly what nothing owns",
     "After removing slots, attachments or bones from the ownership graph of a document, the leaf slots that are found are exactly the remaining slots without attachment, the orphaned attachments exactly those left without a slot, and the orphaned images exactly those left without an attachment. "
     "Names come back exactly as in the document, whatever characters they end in.",
     ["inputs", "histories"], "every document and every set of removed slots, attachments and bones; any names",
     "Tests use short names that contain none of the library's own separators and one removal.",
     [GC, SN, DA], [("remove_slots, remove_attachments, remove_leafs_of_type, remove_heads_of_type", GC), ("_to_base_id", SN)],
     rule="Ownership patterns (own, shared image, shared attachment, several, nothing) times removals times endings of names, with unknown names, against set formulas.")

prop("C12", "Erasing animations removes exactly those animations",
     "Erasing animations removes exactly the requested ones and keeps all others as they are, apart from what cleaning the remaining document removes (nothing in safe mode); the returned data is the resulting document. "
     "In strict mode a request naming an unknown animation is rejected and changes nothing; otherwise unknown and repeated names are ignored.",
     ["inputs", "histories"], "every document, every list of names (known, unknown, repeated), both modes",
     "Tests erase one or two existing animations.", [ED, AD], [("erase_animations, _erase_raw_animations_data", ED)],
     rule="Documents with up to three animations and with any number of them; requests of known, unknown and undetermined names; result must equal the reference erasure followed by the reference cleaning.")

prop("C13", "Erasing skins removes exactly those skins and what belongs to them",
     "Erasing skins removes exactly the requested skins together with the mesh deformations animations make in them, and keeps all other skins, animations and deformations, apart from what cleaning the remaining document removes (nothing in safe mode). "
     "A request naming an unknown skin is rejected and changes nothing; repeating a name makes no difference.",
     ["inputs", "histories"], "every document, every list of skin names, both modes",
     "Tests erase one skin of one document.", [ED, AD], [("erase_skins", ED), ("remove_skin", AD)],
     rule="Random skeletons with unknown names, two to four skins with all kinds of attachments, deforms and draw orders; result must equal the reference.")

prop("C14", "Linked meshes survive the erasure of their parent's skin",
     "When a skin is erased, every linked mesh of a remaining skin whose parent is in the erased skin becomes an ordinary mesh with the geometry of that parent and its own name, image path, size and colour; all other linked meshes and meshes stay as they are.",
     ["inputs", "histories"], "every arrangement of linked meshes over skins and slots, every parent and own attributes, every set and sequence of erased skins",
     "The test has one linked mesh with the same key as its parent.", [AD, SK], [("remove_skin", AD)],
     rule="Random arrangements of meshes and linked meshes with unknown names over two to four skins; after erasing, all skins must equal the reference.")

prop("C15", "Cleaning leaves no reference to a removed slot",
     "After cleaning, no skin, slot timeline, deformation, draw-order offset, path constraint or clipping attachment refers to a slot that was in the document before and is not any more.",
     ["inputs"], "every valid document", "Tests compare a few documents with stored results; each covers few kinds of references.",
     [ED, AN, DO, AD], [("remove_slots and _clean_* functions", ED), ("remove_deforms_using_slots, remove_draw_order_with_ids", AN), ("get_slots_referenced_by_name", AD)],
     rule="The shared set of cleaning documents (a slot in focus in all visibility situations, combinations, draw orders, random documents), unknown names and times; every reference of the result must exist if its target existed before.")

prop("C16", "Cleaning leaves no reference to a removed attachment",
     "After cleaning, no deformation of a skin refers to an attachment that was removed from that skin, no slot shows a removed attachment at setup, and no linked mesh lost its parent mesh.",
     ["inputs"], "every valid document", "Tests do not look at deformations or setup attachments of what was removed.",
     [ED, AN, AD], [("remove_attachments, _clean_attachments_in_*", ED), ("remove_deforms_with_attachments_on_skin", AN)],
     rule="As C15, for attachments.")

prop("C17", "Cleaning never removes anything that can be seen or is needed",
     "Cleaning keeps every slot that is visible in some remaining animation or that a path constraint or clipping attachment needs, every attachment that such a slot can show, every mesh of a visible slot, and their timelines. "
     "A slot counts as invisible in an animation only if its timelines there show nothing at any time, or if it is transparent or empty at setup and its timelines there do not make it appear.",
     ["inputs"], "every document: every combination of setup state, timelines, alpha, kinds of attachments, over all animations",
     "Tests contain few visibility situations, one each.", [AD, T + "slot.py", ED], [("get_unused_slots_and_attachments, get_visible_slots_and_attachments", AD), ("is_empty, get_used_attachments, has_color", T + "slot.py")],
     rule="Every setup state of a slot x its attachments x up to three timelines of it x its place, unknown times and colours (the case split at zero is explicit); what the reference keeps must be kept.")

prop("C18", "Cleaning removes what can never be seen",
     "After cleaning no slot is left that is invisible in every animation or has no attachments and is not needed by name, and no attachment of a kind other than a visible slot's mesh that no remaining animation or setup pose uses.",
     ["inputs"], "every valid document", "Tests compare a few documents with stored results.",
     [AD, ED, GC], [("get_unused_slots_and_attachments", AD), ("remove_leafs_of_type", GC)],
     rule="As C17: what the reference removes must be gone.")

prop("C19", "Cleaning changes nothing else",
     "Apart from the removed slots and attachments and the references to them, the document after cleaning is the document before: every bone, constraint, skin, event, timeline and attribute is kept with its value and order.",
     ["inputs", "histories"], "every valid document, also after other edits", "Tests compare a few documents with stored results.",
     [ED, AD, SN, BT], [("clean_animation", ED), ("SpineGraphParser.to_json_data", SN), ("set_default_values", BT)],
     rule="The whole document after interpretation must equal the reference document (removal plus draw order recomputation).")

prop("C20", "Scaling scales each bone exactly once, and survives everything",
     "Scaling multiplies the horizontal and vertical scale of the root bone, and of every bone that does not inherit scale, by the respective factors, each once, and changes nothing else. "
     "Repeated scalings multiply, and the scale is still there after cleaning.",
     ["inputs", "histories"], "every skeleton, any factors, any transform modes and existing scales; followed by other operations",
     "Tests scale one skeleton once.", [ED, T + "bone.py"], [("scale_animation", ED), ("Bone.scale", T + "bone.py")],
     rule="Skeletons with all combinations of transform modes, unknown scales and unknown factors; the saved scales must be the symbolic products.",
     note="Products are compared as polynomials over the rationals: rounding of floating-point products is not covered. " + BASE)

prop("C21", "Image references are those of the document",
     "The image references of an editor list exactly the images its regions, meshes and linked meshes use: by their path, else by their name, else by the name they have in the skin; below the document's image folder; and with the product of the scale tags in the names of the slot and the bones above it if that is not one. "
     "Other kinds of attachments never add an image.",
     ["inputs"], "every document, any kinds of attachments, names, paths and folders", "Tests look at one document.",
     [ED, AD, UT, T + "slot.py", T + "bone.py"], [("get_images_references", ED), ("get_slot_custom_scale", AD), ("get_tags_from_name", UT)],
     rule="Every kind of attachment with unknown names and paths, any number of regions, combinations over skins and slots; scale tags are evaluated for constant names.",
     note="Scale tags: only constant names are covered, not the whole grammar of names. " + BASE)

prop("C22", "Image references follow every edit",
     "After erasing animations or skins and after cleaning, in any mode and sequence, the image references list exactly the images the remaining document uses, each with the entry it had before.",
     ["inputs", "histories"], "every document and every sequence of edits", "Tests check one edit on one document, where no image is shared.",
     [ED, AD], [("_clean_images_references, get_images_references", ED), ("remove_skin", AD)],
     rule="The documents of C13, C14, C15 and C12, edited in one and two steps; references must equal those of the resulting document.")

prop("C23", "Cleaning keeps the drawing order",
     "When cleaning removes slots, every draw-order key frame of every animation still describes the same relative order of the remaining slots at the same time, and is valid for them.",
     ["inputs"], "every valid draw order over any slots and every set of removed slots", "Tests have two key frames.",
     [DO, AN, ED], [("remove_draw_order_with_ids", DO), ("_clean_draw_order_refs", ED)],
     rule="All draw orders over small numbers of slots, with all sets of invisible slots (sampled in the quick tier); the order that the result describes must be the old one restricted to the remaining slots.",
     note="Draw orders over up to the number of slots given in the evidence; times and names unknown. " + BASE)

prop("C24", "A circular reference is reported exactly if there is one",
     "Validating a graph reports a circular dependency exactly if the graph has a cycle, also when the cycle cannot be reached from a head, and does not change the graph.",
     ["inputs"], "every graph", "Tests use two graphs.", [GV, DA], [("get_circular_dependencies", GV), ("validate", DA)], technique=GRAPHS, note=FINITE,
     rule="All graphs of up to three nodes and samples (quick) or all (thorough) of four, random larger ones; report must be non-empty iff the shape is cyclic.")

prop("C25", "Execution order respects all dependencies",
     "The sequential order of execution lists every node of an acyclic graph exactly once, and each after all of its parents.",
     ["inputs"], "every acyclic graph", "Tests use three graphs.", [DA], [("sequential_order_of_execution", DA)], technique=GRAPHS, note=FINITE,
     rule="All acyclic graphs of up to three nodes, samples or all of four, random ones of five and six.")

prop("C26", "All paths between two nodes are found",
     "For an acyclic graph, the paths reported between two nodes are exactly the directed paths between them of at most the given number of nodes, each once.",
     ["inputs"], "every acyclic graph, every pair of nodes, every depth limit", "Tests use one graph.", [DA], [("get_all_paths", DA)], technique=GRAPHS, note=FINITE,
     rule="Graphs as for C25, pairs with most paths, depth limits at and around the longest path.")

prop("C27", "Saving writes the data to the given file",
     "Saving the document or the image references writes exactly one file, the one at the given path, whatever the path looks like, and its contents are the data the editor returns. "
     "A missing directory is created first, an existing one is left alone, and nothing is created for a bare file name.",
     ["inputs", "configurations"], "every path (with or without directory, absolute or relative), existing or missing directories, every document",
     "Tests write to one path with an existing directory.", [ED], [("to_json, save_images_json", ED)], technique=EFFECT,
     rule="Unknown file and directory names; on every path of the code, the recorded effects (directory creation, open, dump) must be those required.",
     note="The written text is taken to be what json.dump makes of the data; errors of the file system are not covered. " + BASE)

prop("C28", "Results do not depend on hash order",
     "For the same document and the same operations, the resulting document and image references are the same in every run, down to the order of all lists and entries: nothing depends on the iteration order of sets, on hashes, on identities or on other values that differ between runs.",
     ["inputs", "configurations"], "every document and operation, every hash seed", "Tests compare with equality that ignores the order of entries, under one hash seed.",
     [ED, AD, SN, DA], [("frozensets in get_unused_slots_and_attachments", AD), ("ordering of nodes", SN)], technique=ORDER,
     rule="The interpreter marks every container whose order comes from iterating a set and every value from hash, id or set.pop; none may reach a result with more than one element.")

prop("C32", "A document in a file is that document",
     "An editor made from a file is the same as one made from the JSON document in it, and so is a graph; loading reads that file only and writes nothing. A document that was edited and saved to a file is, loaded again, the same document with the same image references. "
     "Serialising a graph to text and reading that text gives the graph's data. Graphs are only made by and written with graph parsers; other classes are rejected.",
     ["inputs", "histories"], "every document, every path, every operation before saving and after loading",
     "Tests load two fixture files and never compare with an editor made from data, nor load what they saved.",
     [ED, SN, DA], [("from_json_file, to_json", ED), ("create_from_json_file, to_json", SN), ("create_from_json_file, create_from_json_data, to_json", DA)], technique=EFFECT,
     rule="A file with an unknown name is given unknown contents (the scenario's document); loading, operations, saving and loading again are interpreted with the recorded file effects; documents, references and graphs must agree pairwise and with the specification.",
     note="Reading and writing JSON text is taken to be faithful (floating-point formatting is not covered), errors of the file system are not covered. " + BASE)

prop("C33", "Edits compose: an editor carries no hidden history",
     "After any sequence of edits, every further operation does on the editor exactly what it does on a new editor made from the document saved at that point: same resulting document, same image references, same reported removals. "
     "Requests that were rejected leave no trace in anything that follows.",
     ["histories"], "every document, every sequence of operations, including rejected ones",
     "Each test performs one operation on a fresh editor; state kept from an earlier operation (graph, slot lists, image references) only shows in the next one.",
     [ED, AD, GC], [("__init__, clean_animation, erase_skins, erase_animations, scale_animation", ED), ("remove_skin, set_default_values", AD)],
     rule="Both runs are interpreted in one driver for unknown names, numbers and factors: an editor after one or two edits against a new editor on its saved document, then the same operation on both; documents, references and returned values must agree.")

prop("C34", "What an edit reports is what it did",
     "Cleaning, and erasing outside safe mode, report each slot that was removed exactly once and exactly the names of the attachments that nothing uses any more; in safe mode nothing is reported as cleaned. "
     "Erasing skins also reports the images that the erased skins used and no remaining skin uses.",
     ["inputs"], "every document, every operation and request",
     "Tests compare a report in one or two fixed cases; callers delete files by it.",
     [ED, AD, GC], [("clean_animation, erase_skins, erase_animations (returned values)", ED), ("remove_skin (removed images)", AD), ("get_unused_slots_and_attachments", AD)],
     rule="The returned values of every operation on the documents of C12 to C22 are compared, as sets of unknown names, with the reference removals and with the slots missing from the resulting document.")

prop("C35", "Validation names exactly the unconnected nodes",
     "Validating a graph lists as unconnected exactly the nodes without parents that are not input roots, each once, whatever else is wrong with the graph, and changes nothing. "
     "A search for paths in a graph with errors, or between nodes that are not in it, is rejected.",
     ["inputs", "histories"], "every graph, every choice of roots, every history", "Tests validate two fixed graphs.",
     [GV, DA], [("get_unconnected_nodes, validate", GV), ("get_all_paths", DA)], technique=GRAPHS, note=FINITE,
     rule="All graphs of up to three nodes and samples of four, with all, no and some nodes as roots, and graphs changed step by step; the list must be the reference list at every step.")

NA = {
    "C29": dict(
        title="Numbers survive loading, scaling and saving without loss of precision",
        statement="Every number of a document is saved with exactly the value it was loaded with, and scaling gives the correctly rounded product of the factors.",
        over=["inputs"], text="every finite number",
        why="Tests use a few short decimals.",
        files=[ED, T + "bone.py", T + "deform.py"], mech=[("json.load and json.dump", ED), ("Bone.scale", T + "bone.py")],
        reason="About rounding of floating-point arithmetic and about the number formatting of the json module at run time; the abstract domain treats numbers as exact, so a static argument here says nothing about rounding. That values are passed on unchanged is decided by C01, C02, C19 and C20."),
    "C30": dict(
        title="Documents of any size are processed within the interpreter's limits",
        statement="A document of any size and any depth of its bone hierarchy can be loaded, cleaned and saved without running into recursion or memory limits.",
        over=["inputs"], text="every size and depth",
        why="The test documents are small.",
        files=[DA, SN, GV], mech=[("recursive visits", DA), ("recursive serialization", SN)],
        reason="A resource bound: it depends on the run-time stack limit and on sizes that no static argument in reach bounds; the code recurses over the hierarchy by design."),
    "C31": dict(
        title="Every scale tag in a name is understood",
        statement="A scale tag in the name of a slot or bone is recognised with its exact value wherever it stands in the name and however it is spelled, and malformed tags are rejected.",
        over=["inputs"], text="every name",
        why="Tests use a handful of names.",
        files=[UT, T + "bone.py", T + "slot.py"], mech=[("get_tags_from_name, cast_element", UT)],
        reason="Quantifies over the text of names matched by a regular expression and converted to numbers at run time; the abstract domain of strings decides constant names only (covered within C21) and cannot decide matches in unknown text."),
}
