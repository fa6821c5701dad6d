#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = [observe]
    a["hook_needed"] = "none: every observation is a public call's result, an object's contents, or ASAN shadow memory"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

REL = "release/cee.c (committed amalgamation of the same source)"
JREL = "cee-json/release/cee-json.c (committed amalgamation)"
NOTEST = "The four stable tests are two smoke programs without assertions on this part; "

p("L01", "A list is exactly the sequence its history of operations describes",
  "After any sequence of appends, inserts at an index between 0 and the size, removes and merges, starting from any initial capacity (0 included), a list holds exactly the elements of the abstract sequence, in order: indexed access, size and iteration all show that sequence. Removing at an index that is not smaller than the size changes nothing and reports false; every other removal reports true. Iteration visits elements in order with their index, stops at the first callback that returns non-zero and returns that value (0 if none, or if the list is empty or NULL), and a NULL list has size and capacity 0.",
  ["histories"], "every finite history of list calls on one or several lists, every initial capacity, every growth point",
  NOTEST + "a handful of appends cannot cover each capacity boundary combined with each index and each merge.",
  ["list.c", REL], [("append/insert with doubling of the buffer", "list.c cee_list_append, cee_list_insert"), ("remove with shift", "list.c cee_list_remove"), ("merge", "list.c cee_list_merge")],
  "cee_list_size, cee_list_capacity, element array, cee_list_iterate callback sequence",
  [("sequence", "elements and their order", "list.c header.size, cee_list.a")])

p("M01", "A map is a finite function: add, find, remove, rename and size agree with it",
  "After any history of adds, removes and renames, looking up a key yields exactly the value most recently bound to an equal key (by the map's comparison function) and not removed since, or NULL; the size is the number of bound keys. Adding under an already bound key replaces the value and returns the old one (NULL when the key was not bound), removing returns the removed value or NULL, renaming moves the value to the new key (replacing what was bound there) and reports whether the old key was bound. A lookup, removal or rename that fails, and any call with a NULL key, changes nothing; a NULL map has size 0, finds nothing and removes nothing.",
  ["histories"], "every history over any key set, any comparison function that is a total order, any number of keys",
  NOTEST + "the balanced tree has a different shape for each history, and only some shapes exercise each rotation and each deletion case.",
  ["map.c", "musl-tsearch.c", "tuple.c", REL], [("AVL search/insert/delete", "musl-tsearch.c"), ("replace and remove paths", "map.c cee_map_add_e, cee_map_remove, cee_map_rename")],
  "return values of cee_map_add/find/remove/rename/size",
  [("bindings", "key to value function", "map.c header, tree of tuples")])

p("M02", "Map enumerations list every binding once; insertion order is kept",
  "For every history, enumerating keys, values or key/value pairs of a map yields each current binding exactly once and nothing else, and pairwise iteration stops at the first callback returning non-zero and returns that value. The insertion-ordered key listing contains exactly the current keys, ordered by when each was first bound since it was last absent: replacing a value keeps the position, removing a key drops it, and re-adding or renaming puts the key at the end. Enumerations are snapshots: they leave the map unchanged and are not changed by it later.",
  ["histories"], "every history of map calls followed by any enumeration",
  NOTEST + "order and completeness depend on the interleaving of adds, replaces, removes and renames.",
  ["map.c", REL], [("insertion_ordered_keys list", "map.c"), ("tree walk", "map.c cee_map_keys/values/iterate; musl-tsearch.c musl_twalk")],
  "cee_map_keys, cee_map_values, cee_map_iterate, cee_map_insertion_ordered_keys")

p("M03", "Map merge and clone combine bindings exactly and leave the source alone",
  "Merging map S into map D binds every key of S in D: keys only in S get S's value, keys in both get the value chosen by the merge function (S's value when none is given), keys only in D keep theirs, and S is unchanged. A clone has exactly the bindings of the original, and later changes to either one never show in the other. Ownership follows the bindings: after a merge or clone each value is owned once per binding that holds it, so releasing the maps afterwards frees every key and value exactly once.",
  ["histories", "inputs"], "every pair of maps reachable by any history and every merge function (pick old, pick new, pick a third value)",
  NOTEST + "no test merges maps with overlapping keys and then releases both sides.",
  ["map.c", REL], [("merge with per-key choice", "map.c cee_map_merge, cee_map_add_e"), ("clone", "map.c cee_map_clone")],
  "bindings of both maps, reference counts and liveness of the values")

p("X01", "A set holds each element once; add, find, remove, clear, union, clone agree",
  "After any history, a set contains exactly the elements added and not removed or cleared since, each once: adding an element that is already present (the same one or an equal one) changes nothing, size counts distinct elements, and listing or iterating shows each exactly once. Find and remove return the stored element equal to the argument or NULL; union yields a new set with exactly the elements of both operands, clone one with the same elements, and neither changes its operands. A NULL set behaves as an empty set for find, remove, size, emptiness and iteration.",
  ["histories"], "every history over any elements and total order, including repeated adds of the same pointer",
  NOTEST + "they do not use sets except internally.",
  ["set.c", "musl-tsearch.c", REL], [("membership in the AVL tree", "set.c cee_set_add/remove/find"), ("size counter", "set.c header.size")],
  "cee_set_size/empty/find/remove/values/iterate results")

p("X02", "Map and set operations cost O(log n) comparisons after any history",
  "For every history of insertions and deletions, in any order, the next lookup, insertion or removal of a map lookup structure or set with n elements calls the comparison function at most 1.45*log2(n+2)+1 times per tree search. No order of insertions and deletions degenerates the structure. (Removal from a map additionally scans the insertion-ordered key list and is excluded; set additions and removals perform at most two searches each.)",
  ["histories"], "every insertion/deletion history; every element count",
  NOTEST + "a sorted, reversed, or adversarial sequence with deletions is needed to unbalance a tree, and results stay correct when it is unbalanced.",
  ["musl-tsearch.c", "map.c", "set.c", REL], [("AVL rebalancing on insert and delete", "musl-tsearch.c rot, __tsearch_balance, musl_tdelete")],
  "number of calls of the user comparison function")

p("K01", "A stack is a bounded LIFO",
  "For every history of pushes and pops on a stack of capacity n, pop and nth-from-top return exactly what a mathematical LIFO stack would (NULL when empty or when n-th does not exist), and size, empty and full agree with it. A push is refused (returns 0, changes nothing) exactly when the stack holds n elements; every other push returns non-zero.",
  ["histories"], "every push/pop history and every capacity, 0 included",
  NOTEST + "boundary behaviour at empty and full is never asserted.",
  ["stack.c", REL], [("top/used counters", "stack.c cee_stack_push, cee_stack_pop, cee_stack_top")],
  "return values of all stack calls")

p("D01", "A dict finds every inserted key, however many keys and collisions",
  "For every sequence of additions to a dict of any declared size, including more additions than that size and keys whose hashes collide, looking up a key returns the value first added under an equal string, and looking up a string never added returns NULL.",
  ["histories", "inputs"], "every insertion sequence, key set (including hash-colliding and empty keys) and declared size",
  NOTEST + "no test uses dicts; growth and collision chains need specific key sets.",
  ["dict.c", "musl-hsearch.c", REL], [("open addressing with quadratic probing and resize", "musl-hsearch.c lookup, resize, musl_hsearch_r")],
  "cee_dict_find results")

p("H01", "Reference counting frees an object exactly when its last owner goes",
  "With the default ownership policy, in every acyclic object graph and every history of building containers, inserting, removing and deleting, an object's reference count is the number of container slots that own it, however many there are, and deleting a container releases each of its slots. An owned object is freed, together with whatever it exclusively owns, exactly when a deletion removes the last owning slot, and never earlier; taking an element out of a container returns the ownership to the caller without freeing it. Nothing is freed twice and nothing that still has an owner is ever touched by a deletion elsewhere.",
  ["histories"], "every history over every container kind (list, stack, set, map, tuple, triple, quadruple, n-tuple, tagged, env, dict) and any sharing pattern without cycles",
  NOTEST + "premature frees only show with shared sub-objects deleted in a particular order, and usually do not crash.",
  ["cee-common.c", "list.c", "stack.c", "set.c", "map.c", "tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "tagged.c", "env.c", "dict.c", REL], [("in_degree counting", "cee-common.c cee_incr_indegree/cee_decr_indegree/cee_del_ref"), ("per-kind delete traces", "each container's trace function")],
  "liveness of each object (ASAN shadow), cee_get_rc",
  [("in_degree", "number of owning slots", "cee.h struct cee_sect")])

p("H02", "DEL and NOOP ownership policies do what they promise",
  "A container made with the delete policy frees each of its elements exactly when it is deleted, whatever their reference count, and an element held by such a container is not freed by releasing other owners. A container made with the no-op policy never frees, counts or otherwise touches its elements or keys, so they may be plain memory not managed by the library. Mixed policies (one per tuple slot, key versus value of a map) each apply to their own slot only.",
  ["histories", "configurations"], "every assignment of the three policies to containers and slots, every graph in which a delete-policy element has one owner",
  NOTEST + "they use only the default policy.",
  ["cee-common.c", "list.c", "stack.c", "set.c", "map.c", "tuple.c", "triple.c", "quadruple.c", "tagged.c", REL], [("policy dispatch", "cee-common.c cee_del_e, cee_incr_indegree"), ("map insertion-ordered keys must respect the key policy", "map.c")],
  "liveness of elements, contents of unmanaged memory")

p("H03", "Deleting a state frees everything allocated under it, exactly once",
  "At any point of any history (objects of every kind, arbitrarily connected, cycles included, some already deleted, before or after garbage collections, with roots and contexts registered), deleting the state releases every object still allocated under it, and all memory those objects use, exactly once. Objects of other states are unaffected. Nothing allocated under the state is leaked.",
  ["histories"], "every history and every cut point at which the state is deleted",
  NOTEST + "the tests exit without checking leaks and delete a state at most once at one point.",
  ["state.c", "cee-resize.h", "list.c", "map.c", "set.c", "dict.c", "str.c", REL], [("allocation chain kept by chain/de_chain/resize", "cee-resize.h"), ("state teardown", "state.c trace")],
  "liveness of all objects and allocated byte count before/after (ASAN)")

p("G01", "Garbage collection never frees an object reachable from a root or context",
  "In every object graph (sharing and cycles included), for every history of mutations, root and context registrations and collections, an object reachable from a registered root or context through the contents of containers, pairs, environments, closures or JSON values survives every collection with its contents intact and all later operations on it work. Removing a root or context stops it from keeping objects alive, and nothing else does.",
  ["histories"], "every finite object graph and every interleaving of mutation, root/context changes and collections",
  NOTEST + "no test calls the collector.",
  ["state.c", "list.c", "stack.c", "set.c", "map.c", "tuple.c", "closure.c", "env.c", "dict.c", "tagged.c", REL], [("mark traversal", "each kind's trace function, mark case"), ("sweep", "state.c sweep"), ("roots and contexts", "state.c")],
  "liveness and contents of every reachable object after each collection")

p("G02", "Each garbage collection frees every unreachable object",
  "After any collection, every object of the state that is not reachable from a root or context (cyclic garbage included, whatever its reference count, and however many collections ran before) has been freed, and collections always terminate. Freed once means freed once: later collections and the deletion of the state do not touch it again.",
  ["histories"], "every finite object graph, every number of earlier collections, allocation before/between collections",
  NOTEST + "no test calls the collector, and garbage that survives a collection is invisible without tracking each allocation.",
  ["state.c", REL], [("alternating mark value", "state.c cee_state_gc next_mark"), ("sweep over the allocation chain", "state.c sweep")],
  "liveness of every unreachable object after each collection")

p("E01", "Environments resolve names lexically; closures call with their environment",
  "Looking a name up in an environment yields the value bound in the innermost enclosing environment that binds it, or NULL if none does, for every nesting, including environments without variables of their own. Calling a closure runs its function with the closure's own environment and exactly the arguments given, and returns its result. Environments share their outer environment and variable map with other owners safely: deleting one frees only what nothing else owns.",
  ["histories", "programs"], "every nesting and shadowing pattern, every order of deletion",
  NOTEST + "no test uses environments or closures.",
  ["env.c", "closure.c", REL], [("chain lookup", "env.c cee_env_find"), ("ownership of outer and vars", "env.c cee_env_mk_e, trace"), ("call", "closure.c cee_closure_call")],
  "cee_env_find, cee_closure_call results, liveness")

p("B01", "Products, tagged and boxed values return exactly what was stored",
  "Tuples, triples, quadruples, n-tuples of up to 16 slots and tagged values hold exactly the pointers (and tag) they were made with, in order. A boxed primitive of each of the ten types reads back bit-identical at its own type for every value, prints in decimal exactly (integers), and printing reports the number of characters needed whatever the buffer size. Blocks have the requested size, zero-filled when so promised, and every byte of them is usable.",
  ["inputs"], "all values at type boundaries, every arity, every size",
  NOTEST + "no test reads boxed values back at their limits.",
  ["tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "tagged.c", "boxed.c", "block.c", "singleton.c", REL], [("typed boxes", "boxed.c"), ("product constructors", "tuple.c, triple.c, quadruple.c, n_tuple.c")],
  "slots, cee_boxed_to_*, cee_boxed_snprint, cee_block_size")

p("S01", "String building produces exactly the intended bytes at every length",
  "Making a string from a format (with or without a size hint), from a counted buffer, concatenating formatted text, appending a character, or replacing the contents yields a NUL-terminated string equal to what the same operation gives on mathematical strings, for every length and every crossing of an internal capacity boundary, with either growth method selected. Operations that return a string must be continued on the returned one; with the malloc growth method the previous string also stays valid and unchanged. No operation reads or writes outside the string's memory.",
  ["histories", "inputs"], "every sequence of string operations, all lengths around multiples of the block size, both growth methods",
  NOTEST + "they only print; short strings never cross a capacity boundary.",
  ["str.c", "cee-resize.h", REL], [("two-pass formatting", "str.c cee_str_mkv, cee_str_mk_e, cee_str_catf, cee_str_replace"), ("growth", "cee-resize.h resize"), ("append char", "str.c cee_str_add")],
  "bytes of the returned string, old string's bytes, ASAN")

p("S02", "Trimming removes exactly the surrounding white space",
  "Right trim removes exactly the maximal run of trailing spaces, tabs, newlines and carriage returns, left trim exactly the maximal leading run, for every string including the empty one and strings made only of white space; every other byte is kept in order. The end-of-string query returns the position of the terminating NUL.",
  ["inputs"], "every string", NOTEST + "trimming is not tested.",
  ["str.c", REL], [("trim loops", "str.c cee_str_rtrim, cee_str_ltrim")], "bytes of the string after trimming")

p("S03", "Substring replacement is exact, leftmost-first, and stays in bounds",
  "Replacing all occurrences scans left to right and replaces each non-overlapping occurrence of the needle, leaving everything else unchanged, for every subject, non-empty needle and replacement (empty, shorter or longer). The multi-pair form applies at each position the first listed pair that matches, reports the exact output length, and consumes exactly the given number of subject bytes; replacing at an offset substitutes exactly the given range. Results are NUL-terminated and no byte outside the subject or the result is touched.",
  ["inputs"], "every subject, needle set and replacement",
  NOTEST + "replacement is not tested; buffer sizing errors show only for specific length ratios.",
  ["str.c", REL], [("output sizing and scan", "str.c str_replace_all, str_replace_all_ext, str_replace_at_offset")], "returned bytes and length, ASAN")

p("V01", "String views split, trim and compare without losing or inventing bytes",
  "Every chop and split operation on a string view returns a prefix or suffix piece and leaves a remainder such that piece, removed delimiter (if any) and remainder concatenate to the original view; chopping by a delimiter (character or view) returns exactly the bytes before its first occurrence, or everything when it does not occur. Trims, searches, prefix/suffix tests, (case-insensitive) equality and decimal conversion agree with their mathematical meaning for all views, including empty ones. No operation reads outside the view.",
  ["inputs"], "every view and delimiter, empty and longer-than-view delimiters included",
  NOTEST + "nothing tests string views.",
  ["strview.c"], [("chop functions", "strview.c sv_chop_by_delim, sv_chop_by_sv, sv_try_chop_by_delim")], "returned view and remainder")

p("J01", "The JSON parser accepts exactly the JSON grammar and builds that value",
  "With end-of-input enforced, a text is accepted exactly when it is one JSON value (any value, not only object or array) surrounded by optional white space, and not otherwise: no missing, extra, trailing or doubled commas, colons or brackets, no text after the value, with arrays and objects nested at most 511 deep. The value built has exactly the structure of the text: array elements in order, object members in order with the last value of a duplicated name in the first one's place. Without end enforcement the parser accepts exactly the texts that start with such a value and builds it (each token taken as long as possible, so that a malformed number is an error and not a shorter number).",
  ["inputs"], "every token sequence and every nesting",
  NOTEST + "a few well-formed documents; no rejection is asserted.",
  ["cee-json/parser.c", "cee-json/tokenizer.c", JREL], [("push-down automaton", "cee-json/parser.c cee_json_parsex")], "return code, out value, accessor results",
  [("state stack", "pending containers", "cee-json/parser.c sp")])

p("J02", "Parsing never looks past the given length",
  "Parsing a buffer of a given length depends only on those bytes: whatever follows the buffer (nothing, digits, quotes, letters completing a literal) never changes the outcome and is never read, so a buffer that is exactly as long as its text needs no terminator. Every prefix of every document gives the outcome of that prefix alone, and files of any content load the same way.",
  ["inputs", "crash_points"], "every text, every cut point (truncated input), every continuation after the cut",
  NOTEST + "tests pass whole NUL-terminated literals.",
  ["cee-json/tokenizer.c", "cee-json/parser.c", "cee-json/value.c", JREL], [("buf_end check", "cee-json/tokenizer.c cee_json_next_token, parse_string, parse_number, check")], "ASAN on exact-size buffers; equal outcomes under different continuations")

p("J03", "JSON strings decode and encode exactly",
  "A quoted string is accepted exactly when it has no raw control character, only the legal escapes, four hex digits after each \\u, and surrogates only as complete high-low pairs; its value is then the exact UTF-8 text denoted, in values and in member names alike (text containing an encoded NUL excepted, since strings are NUL-terminated). Printing a string escapes quotes, backslashes and control characters such that parsing the output gives back the identical bytes. An escaped string denoting invalid UTF-8 is rejected.",
  ["inputs"], "every character/escape sequence, all code points, all surrogate combinations",
  NOTEST + "escapes appear in at most one test string.",
  ["cee-json/tokenizer.c", "cee-json/snprint.c", JREL], [("unescape state machine", "cee-json/tokenizer.c json_string_unescape"), ("escape on print", "cee-json/snprint.c str_append")], "string bytes after parse; printed bytes")

p("J04", "JSON numbers: exact syntax, exact integers, nearest doubles",
  "A number token is accepted exactly when it follows the JSON number grammar (no leading zeros, plus sign, bare dot or empty exponent). A number without fraction and exponent that fits a signed 64-bit integer is stored exactly as that integer, one that fits only unsigned 64 bits exactly as unsigned, and every other number as the nearest double; typed accessors succeed exactly for the stored type. Integers print in exact decimal form.",
  ["inputs"], "every digit/sign/dot/exponent string, all boundary values of the integer types",
  NOTEST + "only small integers are printed.",
  ["cee-json/tokenizer.c", "boxed.c", JREL], [("number scanner", "cee-json/tokenizer.c parse_number"), ("typed accessors", "cee-json/value.c")], "accept/reject, type and value through accessors")

p("J05", "Printing then parsing gives back the same JSON value, compact or pretty",
  "For every JSON value made of null, booleans, integers, strings, arrays and objects nested at most 511 deep, in either format, the printed text is valid JSON and parses back to an equal value with object members in insertion order; compact output contains no white space outside strings and is exactly the canonical text. Doubles print as JSON numbers that parse back to the nearest value at six significant digits. Printing changes nothing, and printing the same value twice gives the same text.",
  ["inputs", "histories"], "every value, built by parsing or by any history of mutators, both formats, all depths",
  NOTEST + "outputs are printed to the terminal and never compared.",
  ["cee-json/snprint.c", "cee-json/parser.c", "boxed.c", JREL], [("iterative printer with explicit stack", "cee-json/snprint.c cee_json_snprint"), ("delimiters and padding", "cee-json/snprint.c delimiter, pad")], "bytes printed, reparse")

p("J06", "Measuring, printing to a buffer and allocating print agree on the exact size",
  "The measuring call returns the exact number of bytes (without terminator) that printing produces; printing into a buffer of at least that many bytes plus one writes exactly that text and one NUL and nothing beyond, and returns the same number. When the given size is smaller, printing never writes beyond the given size and still returns the full length. The allocating variant yields a NUL-terminated buffer with the same text and reports its length.",
  ["inputs"], "every value, format and buffer size, every nesting depth up to the limit",
  NOTEST + "buffers in tests are large and sizes unchecked.",
  ["cee-json/snprint.c", JREL], [("two-pass printing", "cee-json/snprint.c cee_json_snprint, cee_json_asprint")], "return values; guard bytes around exact-size buffers; ASAN")

p("J07", "JSON object and array mutators do exactly what they say",
  "After any history of object set/append/rename/remove/convert and array append/insert/remove/concat calls, the document equals the one obtained by applying the same edits to an abstract JSON value, as seen by every accessor, length, emptiness test and iteration. Setting a key replaces or adds it, appending to an absent key sets it, and to a present one makes or extends an array (a value that was not an array becomes its first element), converting a key to an integer turns a decimal string into that integer and reports whether the value is an integer afterwards. Values shared between documents stay valid while any holder exists.",
  ["histories"], "every history of edits on a tree of values",
  NOTEST + "a few sets are made and printed.",
  ["cee-json/value.c", "map.c", "list.c", JREL], [("object mutators", "cee-json/value.c cee_json_object_*"), ("array mutators", "cee-json/value.c cee_json_array_*")], "all accessors and printed form after each step")

p("J08", "JSON merge is recursive on objects, concatenates arrays, else overwrites",
  "Merging a source value into a destination: two objects merge member by member, recursively where both members are objects, concatenating where both are arrays, and taking the source's member otherwise; two arrays concatenate; anything else reports failure and changes nothing. Destination-only members and their order are kept, new members come after them, and the source is never changed. The merge-or-return form adopts the source when there is no destination yet.",
  ["inputs"], "every pair of JSON values",
  NOTEST + "no test merges.",
  ["cee-json/value.c", "map.c", "list.c", JREL], [("recursive merge", "cee-json/value.c cee_json_merge, merge_json_value; map.c cee_map_merge")], "both documents after the merge")

p("J09", "Selectors and deep key search find exactly the addressed value",
  "A selector made of member names (up to 256 bytes), indexes (their closing bracket is optional) and type checks, with or without values supplied as extra arguments, returns the value reached by following it step by step, and NULL exactly when a step does not exist, is applied to the wrong kind of value, fails its type check, or the selector is malformed; selecting as an integer gives exactly the integer there or reports failure; no selector reads outside its text. Deep search for a key returns a member value with that key from somewhere in the value exactly when one exists.",
  ["inputs"], "every document and every selector string",
  NOTEST + "two fixed selectors are tried.",
  ["cee-json/value.c", JREL], [("selector interpreter", "cee-json/value.c cee_json_select"), ("deep search", "cee-json/value.c cee_json_has")], "pointer identity of the returned value")

p("J10", "A failed parse reports the line and leaves no value behind",
  "When parsing fails, it returns a non-zero code, the output value is NULL, and the reported line is the number of line break characters (every LF and every CR counts) before the point where the text stopped being a prefix of acceptable input (the offending token), counting from 0; when it succeeds it returns 0 and a non-NULL value. Success or failure, the parser leaks nothing outside its state and the state remains usable for further parsing, so any sequence of good and bad parses gives each the outcome it has alone.",
  ["inputs", "histories"], "every rejected text with line breaks at any position, every sequence of parses under one state",
  NOTEST + "no rejected text is tested.",
  ["cee-json/parser.c", "cee-json/tokenizer.c", JREL], [("line counter", "cee-json/tokenizer.c cee_json_next_token"), ("error exit", "cee-json/parser.c cee_json_parsex")], "return code, out, error_at_line, allocation balance")

p("J11", "Saving then loading a file gives back the value; merging files merges values",
  "Saving any JSON value to a file or descriptor in either format and loading it back gives an equal value, for contents of any size; loading a file gives the same result as parsing its bytes, with the error line on failure; printing to a descriptor writes the prefix, the compact text and a line break. A save that cannot write everything reports failure. Merging several files writes the successive merge of their values plus the list of input names, and fails, writing nothing, when an input cannot be read or parsed or the first one is not an object.",
  ["inputs", "fault_sequences"], "every value and size, every combination of good, missing and malformed input files",
  NOTEST + "no test touches files.",
  ["cee-json/value.c", "cee-json/cee_json_merge.c", JREL], [("save/load", "cee-json/value.c cee_json_save_fileno, cee_json_load_from_fileno"), ("merge_all", "cee-json/cee_json_merge.c")], "file bytes and loaded values")

p("J12", "Escaping a byte string for JSON yields text that decodes to the same bytes",
  "Escaping any byte string writes exactly its JSON escape (quote, backslash and control characters as escapes, everything else unchanged), returns the number of bytes written, and reports the next free position and remaining size consistently. The result placed between quotes parses back to the original bytes.",
  ["inputs"], "every byte string (NUL excluded for the parse-back part)",
  NOTEST + "the function is not called by any test.",
  ["cee-json/value.c", JREL], [("escape loop", "cee-json/value.c cee_json_escape_string")], "written bytes, return value, next pointer/size")

p("Q01", "SQL insert then select returns the same typed values as JSON",
  "Rows written through the binding layer come back from select as one JSON object per row, in query order, with one member per returned column holding exactly the stored value (integers exactly, text, null, floating point, blobs), for every combination of bound values. Columns marked not to be returned are omitted, a single unlabelled column yields bare values, results append to an already given array, and the one-row form yields the first row or nothing when there is none.",
  ["inputs", "histories"], "every table content, row count and column-flag combination",
  "No stable test touches the SQLite layer at all.",
  ["sqlite3/cee-sqlite3.c"], [("row to JSON", "sqlite3/cee-sqlite3.c get_a_row"), ("select family", "sqlite3/cee-sqlite3.c cee_sqlite3_select*")], "returned JSON; table contents read independently")

p("Q02", "SQL parameters bind by the documented precedence, or the statement does not run",
  "Each named parameter of a statement is bound to the supplied data if present, else to the field's default data, else (inserts only, fields that must not be null) to the type's zero value, else to NULL; a null datum binds NULL unless the field must not be null. If fields are given and a parameter of the statement is named by none of them, an error is reported and the statement has no effect. Fields not used by the statement are ignored.",
  ["inputs", "configurations"], "every combination of data present/null/absent, defaults, not-null flags, types and statement kinds",
  "No stable test touches the SQLite layer at all.",
  ["sqlite3/cee-sqlite3.c"], [("binding loop", "sqlite3/cee-sqlite3.c cee_sqlite3_bind_run_sql")], "table contents after the statement, error in the status object")

p("Q03", "Upsert-style SQL operations pick update or insert by what exists",
  "Update-or-insert updates the matching rows when the select statement finds one and inserts otherwise; select-one-or-insert returns the existing row without changing the table or inserts and reports the new row id; update-if-exists changes rows only when the select finds one and reports how many rows it updated; delete reports how many rows it deleted. In every history of such operations the table equals the one an abstract table undergoes, and the returned row ids and counts are those of that operation alone.",
  ["histories"], "every history of inserts, upserts, updates, deletes over any keys",
  "No stable test touches the SQLite layer at all.",
  ["sqlite3/cee-sqlite3.c"], [("upsert decision", "sqlite3/cee-sqlite3.c cee_sqlite3_update_or_insert, select1_or_insert, update_if_exists"), ("delete", "cee_sqlite3_delete")], "table contents, status members")

p("Q04", "JSON-driven SQL operations write exactly the members given",
  "An operation driven by a JSON object binds each member that names a field (null included) and no other, lists bound members as used and unknown ones as unused, reports type mismatches (such a member is not bound), and with generated statements writes exactly the columns given (plus not-null defaults on insert, minus no-update columns on update). Each call depends only on its own input: values or nulls from an earlier call on the same operation never carry over.",
  ["histories", "inputs"], "every sequence of JSON inputs to the same operation object",
  "No stable test touches the SQLite layer at all.",
  ["sqlite3/cee-sqlite3.c"], [("JSON to bind data", "sqlite3/cee-sqlite3.c populate_usage, cee_sqlite3_bind_data_from_json"), ("statement composition", "compose_dyn_stmts, cee_sqlite3_generic_opcode")], "table contents, debug/used/unused members, bind data")

p("Q05", "A failing SQL statement is reported, changes nothing, and leaks no statement",
  "When a statement cannot be prepared, has an unbound parameter, or fails while running (constraint violation, run-time error in the middle of a result), the operation terminates, reports an error in its status and does not report success; rows are not changed by it, and an insert is not attempted when the lookup itself failed. After any history of succeeding and failing operations no statement is left open, so the database can be closed.",
  ["fault_sequences", "histories"], "every placement of failing statements in a history of operations",
  "No stable test touches the SQLite layer at all.",
  ["sqlite3/cee-sqlite3.c"], [("error paths", "sqlite3/cee-sqlite3.c cee_sqlite3_bind_run_sql, cee_sqlite3_select_iter")], "status error member, return code, table contents, sqlite3_next_stmt")

p("Q06", "Joins, next-id and bulk insert through SQL agree with the tables",
  "Joining a table to a JSON array or object runs the query once per element with that element's own members as parameters, and merges the first row into it or attaches all rows under the given key, leaving elements without matches otherwise unchanged. The next-integer query returns one more than the current maximum, or 1 for no rows, and fails rather than wrap when no int follows. Bulk insertion of a JSON array adds exactly one row per object with exactly its members.",
  ["inputs", "histories"], "every table content and every array of objects",
  "No stable test touches the SQLite layer at all.",
  ["sqlite3/join.c", "sqlite3/cee-sqlite3.c"], [("join per element", "sqlite3/join.c join_one"), ("next int", "sqlite3/cee-sqlite3.c cee_sqlite3_next_int"), ("bulk insert", "cee_sqlite3_insert_json_array")], "resulting JSON and table contents")

p("Q07", "Managed databases are created, restored and migrated as configured",
  "Initialising a managed database creates its file (and the directories above it) with the create script of the configured version when it does not exist, or empties and recreates it when asked to; a new database then gets its restoration script and, when asked, its customisation script if they exist, and finally the migration script of the version reached is run once if there is one. It returns whether the database is a new one and the final version, and logs each step; without recreation no existing row is lost, other databases are untouched, and opening again with nothing to migrate changes nothing. Databases attached by the manager can be read and not written; a database of the same directory attached through the binding layer can be read and written under its name until it is detached. A backup of a database changes no database and writes the rows the dump program gave under the name by which a later recreation restores them; a backup of a missing database reports so. All of this holds for directories of every length a configuration can hold.",
  ["histories", "configurations"], "every combination of scripts present, versions and flags, in every history of openings and writes",
  "No stable test touches the SQLite layer at all (the file is not even compiled by the build).",
  ["sqlite3/cee_dbm.c", "sqlite3/cee-sqlite3.c"], [("lifecycle", "sqlite3/cee_dbm.c cee_dbm_db_init"), ("scripts", "sqlite3/cee-sqlite3.c cee_sqlite3_init_db, cee_sqlite3_drop_all_tables")], "tables, rows and user_version read independently, return values, log entries")

p("Q08", "Texts of database settings fit the buffer they are given",
  "Rendering database settings or paths as text into a buffer of any size writes the text cut to the size with a terminating NUL and nothing beyond it, and the rendering functions that return a length return that of the whole text. Expanding $HOME at the beginning of a configured path gives the home directory followed by the rest of the path, leaves paths not beginning with $HOME alone, and never writes beyond the path's array.",
  ["inputs"], "every content and buffer size",
  "No stable test touches the SQLite layer at all (the file is not even compiled by the build).",
  ["sqlite3/cee_dbm.c"], [("rendering", "sqlite3/cee_dbm.c cee_dbm_path_info_snprint, cee_dbm_settings_snprint, cee_dbm_*2str"), ("paths", "sqlite3/cee_dbm.c cee_dbm_path_info_normalize")], "buffer bytes, return value, AddressSanitizer")


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
