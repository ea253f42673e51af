#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so it can be edited as text)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A list is an exact growable sequence",
 "After any sequence of cee_list_mk/append/insert/remove (insert index within 0..size), cee_list_size and the slots a[0..size-1] hold exactly the sequence those operations describe: append adds at the end, insert shifts the tail up by one, remove of a valid index shifts it down and returns true, any other index (or NULL) returns false and changes nothing. No operation reads or writes outside the allocated storage, capacity never falls below size, and growth preserves every element. cee_list_iterate calls f on the elements in index order, stops at the first non-zero result and returns it (0 when every call returned 0 or the list is empty).",
 ["inputs", "histories"], "every list length and capacity, every index, every element value, every history of operations",
 "A test runs a few lengths; the shift loops, the capacity-doubling boundary and the empty/last-index cases must be right for every length and index.",
 ["list.c", "release/cee.c", "cee.h"],
 [("header size/capacity/array invariant", "list.c struct S(header)"), ("growth", "list.c cee_list_append, cee_list_insert"), ("shifting", "list.c cee_list_insert, cee_list_remove"), ("iteration", "list.c cee_list_iterate")],
 observe_at=["cee_list_size", "cee_list_capacity", "list->a[i]"])

prop("C02", "A stack is a bounded LIFO",
 "A cee_stack made with capacity n holds at most n elements: push returns 1 and puts the element on top exactly when fewer than n are held, otherwise it returns 0 and changes nothing. pop returns and removes the most recently pushed remaining element (NULL when empty), cee_stack_top(s,k) returns the k-th element from the top or NULL when k is not smaller than the size, and size/empty/full always agree with the contents. Memory outside the n slots is never accessed.",
 ["inputs", "histories"], "every capacity (0 included), every k, every push/pop history",
 "The wrap-around of top at empty and the full boundary are hit only by particular histories.",
 ["stack.c", "release/cee.c"], [("used/top/capacity", "stack.c struct S(header)"), ("bounds", "stack.c cee_stack_push, cee_stack_pop, cee_stack_top")],
 observe_at=["cee_stack_push", "cee_stack_pop", "cee_stack_top", "cee_stack_size", "cee_stack_empty", "cee_stack_full"])

prop("C03", "The search tree stays an ordered, balanced AVL tree",
 "For every comparison function that is a total preorder, musl_tsearch, musl_tdelete and musl_tfind keep the tree strictly ordered, every stored height exact and every node's subtree heights within one of each other. tfind returns the node equal to the key or NULL, tsearch returns the existing equal node or inserts the key, tdelete removes exactly the equal node, and no other key is lost, added or duplicated. musl_twalk visits every node (once as leaf, or as preorder/postorder/endorder) in order and musl_tdestroy hands every key to the free function exactly once and frees every node.",
 ["inputs", "histories"], "every tree shape reachable by any insertion/deletion history, every key, every consistent comparison function",
 "Rotations in deletion depend on tree shape; tests insert a handful of keys and never check balance or heights.",
 ["musl-tsearch.c", "release/cee.c"], [("rotation", "musl-tsearch.c rot, __tsearch_balance"), ("insert", "musl-tsearch.c musl_tsearch"), ("delete", "musl-tsearch.c musl_tdelete"), ("lookup", "musl-tsearch.c musl_tfind"), ("walk/destroy", "musl-tsearch.c walk, musl_tdestroy")])

prop("C04", "A map is a finite map with insertion-ordered keys",
 "After any history of cee_map_add/add_e/remove/rename, cee_map_find returns the value last stored for that key (by the map's comparison function) or NULL, cee_map_size is the number of distinct keys present, and an operation on one key never changes another. cee_map_add returns the replaced value or NULL; cee_map_remove returns the removed value or NULL; rename moves the value to the new key. cee_map_keys/values/iterate deliver each present entry exactly once (iterate stops at the first non-zero result and returns it), and cee_map_insertion_ordered_keys lists the present keys in the order they were first inserted.",
 ["inputs", "histories"], "every history of map operations, every key and value, every consistent comparison function",
 "Size, tree and insertion-order list are three structures that must stay in step across arbitrary histories.",
 ["map.c", "musl-tsearch.c", "release/cee.c"], [("add/replace/merge", "map.c cee_map_add_e"), ("remove", "map.c cee_map_remove, cee_map_ordered_key_delete"), ("lookup", "map.c cee_map_find"), ("iteration", "map.c cee_map_iterate, cee_map_keys, cee_map_values")])

prop("C05", "A set holds each equal element once",
 "After any history of cee_set_add/remove/clear, cee_set_find(k) returns the stored element comparing equal to k (the one added first) or NULL, cee_set_size is the number of distinct elements and cee_set_empty agrees with it. cee_set_remove returns and removes the stored equal element or returns NULL leaving the set unchanged. cee_set_values and cee_set_iterate deliver every element exactly once, clone and union_set build sets with exactly the elements of the source(s).",
 ["inputs", "histories"], "every history of set operations, every element, every consistent comparison function",
 "Adding an equal but distinct element, removing absent ones and reuse after clear are histories no existing test runs.",
 ["set.c", "musl-tsearch.c", "release/cee.c"], [("add", "set.c cee_set_add"), ("remove", "set.c cee_set_remove"), ("values/iterate", "set.c cee_set_values, cee_set_iterate"), ("clear", "set.c cee_set_clear")])

prop("C06", "A dict finds every key it was given",
 "After any sequence of cee_dict_add, cee_dict_find(k) returns the data of the first addition whose key string equals k, and NULL if there was none. This holds across hash collisions and any number of table growths: the hash table always keeps an empty slot, a growth keeps every entry, and no access leaves the table. musl_hsearch_r with ENTER returns the entry holding the key.",
 ["inputs", "histories"], "every set of key strings (colliding ones included), every number of additions, every initial size",
 "Probe sequences that wrap, collide and survive growth occur only for particular key sets.",
 ["musl-hsearch.c", "dict.c", "release/cee.c"], [("probing", "musl-hsearch.c lookup"), ("growth", "musl-hsearch.c resize, musl_hsearch_r"), ("dict", "dict.c cee_dict_add, cee_dict_find")])

prop("C07", "Every live block is on its state's trace chain exactly once",
 "Every constructor links the new block at the tail of its state's doubly linked trace chain and records the state (cee_get_state), every deletion unlinks exactly that block, wherever it stands, before freeing it, and resizing keeps the chain consistent. Consequently cee_del(state) releases every block of the state that is still alive exactly once, including the state itself.",
 ["inputs", "histories"], "every chain length, every position of the unlinked block (first, middle, last), every history of creations, deletions and resizes",
 "Unlinking in the middle versus at the tail, and deletion orders, are combinatorial; a stale tail pointer shows only in a later operation.",
 ["cee-resize.h", "state.c", "release/cee.c"], [("link", "cee-resize.h S(chain)"), ("unlink", "cee-resize.h S(de_chain)"), ("resize", "cee-resize.h S(resize)"), ("state deletion", "state.c S(trace)")])

prop("C08", "Reference counts and delete policies are honoured",
 "Putting an object in a container counts one reference under CEE_DP_DEL_RC, marks it retained under CEE_DP_DEL and does nothing under CEE_DP_NOOP; taking it out undoes that. cee_del_ref lowers a positive count and deletes the object only when the count is then zero and it is not retained. Deleting a container with cee_del applies its policy to each element it holds exactly once (cee_del_ref for DEL_RC, cee_del for DEL, nothing for NOOP) and then frees the container's own storage.",
 ["inputs", "histories"], "every count value, retained or not, every policy, every container kind and size",
 "Wrong counts surface only as a later double free or leak on particular ownership graphs.",
 ["cee-common.c", "list.c", "stack.c", "tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "tagged.c", "set.c", "env.c", "release/cee.c"],
 [("counting", "cee-common.c cee_incr_indegree, cee_decr_indegree, cee_del_ref, cee_del_e"), ("container deletion", "S(trace) CEE_TRACE_DEL_FOLLOW in each container")])

prop("C09", "Garbage collection keeps what is reachable",
 "cee_state_gc never frees a block that is reachable, through any container, from the state's roots, stack or contexts, including the internal blocks those containers own: every container's mark action marks itself and passes the mark to every block it holds. The sweep releases exactly the blocks of the state's chain whose mark differs from the current one, and the next collection uses the other mark value. A block unreachable through two consecutive collections has been freed.",
 ["inputs", "histories"], "every acyclic object graph, every set of roots and contexts, every history of collections",
 "Whether a block survives depends on the whole object graph and the collection history.",
 ["state.c", "map.c", "set.c", "list.c", "stack.c", "tuple.c", "tagged.c", "dict.c", "env.c", "closure.c", "release/cee.c"],
 [("mark and sweep", "state.c cee_state_gc, S(sweep), S(trace)"), ("mark action", "S(trace) CEE_TRACE_MARK in each container")])

prop("C10", "Boxed values round-trip and are type-checked",
 "For each primitive type, cee_boxed_to_T(cee_boxed_from_T(x)) returns exactly x for every x of the type. Calling cee_boxed_to_T on a box of a different type never returns a value: it traps. cee_boxed_snprint formats the stored value with its own type's conversion.",
 ["inputs"], "every value of each of the ten primitive types and every pair of different types",
 "Truncation or sign errors show only at extreme values.",
 ["boxed.c", "release/cee.c"], [("constructors", "boxed.c cee_boxed_from_*"), ("accessors", "boxed.c cee_boxed_to_*"), ("tag", "boxed.c S(mk_header)")])

prop("C11", "Product and wrapper objects hold exactly what they were built from",
 "cee_tuple/triple/quadruple_mk_e, cee_n_tuple_mk (up to 16), cee_tagged_mk, cee_env_mk, cee_closure_mk, cee_block_mk and cee_singleton_init return objects whose fields are exactly the arguments in order (blocks: n zeroed bytes with cee_block_size n), whose headers are fully initialised and whose storage is large enough. cee_env_find returns the value of the key from the innermost environment that has it, else NULL. cee_closure_call invokes the closure's function with its own environment and the given state, count and arguments and returns its result.",
 ["inputs"], "every argument value, every tuple width up to 16, every block size, every nesting of environments",
 "An uninitialised or mis-indexed header field is harmless until a particular later operation reads it.",
 ["tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "tagged.c", "env.c", "closure.c", "block.c", "singleton.c", "release/cee.c"],
 [("constructors", "cee_*_mk_e"), ("environment lookup", "env.c cee_env_find"), ("closure", "closure.c cee_closure_call")])

prop("C12", "String operations keep contents, termination and bounds",
 "cee_str_mk/mkv/mk_e build the formatted text, cee_str_strn the given bytes; cee_str_add appends one character, cee_str_catf the formatted text and cee_str_replace replaces the contents, each returning a NUL-terminated string with exactly the expected characters (growing when needed). cee_str_rtrim and cee_str_ltrim remove exactly the trailing respectively leading blanks, tabs, carriage returns and newlines. None of them writes outside the block, and the recorded capacity never exceeds the storage that follows the header.",
 ["inputs", "histories"], "every string length and capacity, every character, every sequence of appends",
 "Off-by-one writes at the capacity boundary corrupt silently and need specific lengths.",
 ["str.c", "release/cee.c"], [("capacity", "str.c struct S(header), cee_str_mk_e, cee_str_mkv, cee_str_strn"), ("append", "str.c cee_str_add, cee_str_catf"), ("trim", "str.c cee_str_rtrim, cee_str_ltrim")])

prop("C13", "Substring replacement is exact and in bounds",
 "str_replace_at_offset returns a fresh NUL-terminated string equal to the original with len characters at offset replaced. str_replace_all replaces every left-to-right non-overlapping occurrence of the (non-empty) old substring and nothing else; str_replace_all_ext does the same for several pairs, the first matching pair winning at each position, and reports the result length. The result buffer is always large enough.",
 ["inputs"], "every string, every (non-empty) needle, every replacement, every offset/len within the string, every number of pairs",
 "Buffer-size arithmetic fails only for particular length ratios.",
 ["str.c", "release/cee.c"], [("size computation", "str.c str_replace_all, str_replace_all_ext"), ("copy loops", "str.c str_replace_at_offset")])

prop("C14", "String views only ever denote parts of the original text",
 "Every sv_* operation returns and leaves views lying inside the view it was given: trims drop exactly the leading/trailing white space, chop_left/right(n) split off min(n,count) bytes, chop_by_delim/chop_by_sv return the text before the first delimiter and leave what follows it (the whole text and nothing when there is none), index_of finds the first occurrence, starts_with/ends_with/eq compare exactly, and to_u64/chop_u64 give the leading decimal number modulo 2^64.",
 ["inputs"], "every text, length, delimiter and count, empty views included",
 "strview.c has no tests at all; edge cases are empty views, delimiters at the end or longer than the text.",
 ["strview.c"], [("chopping", "strview.c sv_chop_*"), ("trimming", "strview.c sv_trim_*"), ("comparison", "strview.c sv_eq, sv_starts_with, sv_ends_with")])

prop("C15", "UTF-8 and JSON string escapes are decoded exactly",
 "utf8_encode and the validating decoder are inverse to each other on all Unicode scalar values; the decoder accepts exactly the well-formed UTF-8 sequences (no overlong forms, surrogates or values above U+10FFFF) and never reads past the end. A JSON string body is rejected if it contains a raw control character, an unknown or truncated escape or an unpaired surrogate escape; otherwise it decodes to the text it denotes, a string without escapes being passed through unchanged (the cee_str a string token becomes holds the decoded text up to its first NUL, which only \\u0000 can produce). The decoded text never exceeds the buffer.",
 ["inputs"], "every code point, every byte sequence, every string length",
 "There are 1.1 million code points and unboundedly many escape sequences; tests use a few.",
 ["cee-json/tokenizer.c", "cee-json/release/cee-json.c"], [("encode", "tokenizer.c utf8_encode, append"), ("decode", "tokenizer.c next, utf8_validate"), ("unescape", "tokenizer.c json_string_unescape, read_4_digits")])

prop("C16", "The tokenizer classifies JSON tokens and stays in its buffer",
 "On a NUL-terminated buffer cee_json_next_token returns eof at the end, the character for each of []{}:, and the right kind for true/false/null, numbers and strings, tock_err for anything else, always advancing past exactly the token and never reading beyond the terminator. A number token follows the JSON grammar (no leading zeros in integers, digits required after '.' and exponent); integers that fit int64 or uint64 keep their exact value, others become doubles. Line numbers count the line-break characters skipped between tokens.",
 ["inputs"], "every byte buffer, every starting position",
 "Malformed tokens at the end of the buffer are where overreads hide; numbers at the 64-bit limits are not tested.",
 ["cee-json/tokenizer.c", "cee-json/release/cee-json.c"], [("dispatch", "tokenizer.c cee_json_next_token, check"), ("numbers", "tokenizer.c parse_number"), ("strings", "tokenizer.c parse_string")])

prop("C17", "The parser accepts exactly its grammar and builds that value",
 "cee_json_parsex returns 0 and the value denoted by the text when the text is one JSON value (a trailing comma before a closing bracket is tolerated; nesting up to 511 levels), and otherwise returns EINVAL with *out NULL and the line of the error; with force_eof anything after the value is an error. Objects keep the last value of a repeated key, arrays keep order. It never pops an empty stack, never touches memory outside its buffers and never crashes, whatever the text.",
 ["inputs"], "every token sequence, every nesting depth",
 "The push-down automaton has unboundedly many configurations; the test suite samples a few hundred documents and does not inspect the resulting values.",
 ["cee-json/parser.c", "cee-json/release/cee-json.c"], [("state machine", "parser.c cee_json_parsex")])

prop("C18", "Printed JSON fits its computed size and reads back the same",
 "cee_json_snprint(NULL) returns exactly the number of bytes that cee_json_snprint writes into a buffer (then a NUL), in both formats, so buffers sized that way are never overrun. Strings are escaped so that quotes, backslashes and control characters never appear raw. Parsing the output of printing yields an equal value (same keys in the same order, numbers numerically equal) for any nesting depth the parser accepts and any value JSON can write (no NaN or infinity, no embedded NUL, no undefined or blob).",
 ["inputs"], "every JSON value, every string content, both formats",
 "The estimate and the writing pass must agree for every value; a mismatch is a heap overflow that only some value triggers.",
 ["cee-json/snprint.c", "cee-json/release/cee-json.c"], [("size/emit", "snprint.c cee_json_snprint, pad, delimiter"), ("escaping", "snprint.c str_append")])

prop("C19", "JSON accessors are type-checked and value-exact",
 "cee_json_to_object/array/str/boxed/blob return the stored container exactly when the value has that kind and NULL otherwise; cee_json_to_doublex/intx/i64x/u64x/boolx/strn store the value and succeed exactly for their own kind, leaving *r untouched otherwise. Each constructor yields a value of its kind that its accessor returns unchanged; true, false, null and undefined are unique objects. cee_json_array_get returns the element for 0<=i<length and NULL otherwise, and cee_json_empty is true exactly for empty objects and arrays.",
 ["inputs"], "every JSON kind paired with every accessor, every stored value, every index",
 "Kind confusion reads a pointer of the wrong type; the matrix of kinds by accessors is not tested.",
 ["cee-json/value.c", "cee-json/release/cee-json.c"], [("kinds", "value.c cee_json_to_*"), ("constructors", "value.c cee_json_*_mk"), ("index check", "value.c cee_json_array_get, cee_json_array_remove")])

prop("C20", "JSON object/array updates and merge do exactly what they say",
 "cee_json_object_set* binds the key to the value (copying the key) and leaves other keys alone, append turns a non-array value of any kind into an array of it and appends (an array to append is concatenated), remove/rename act on that key only, array append/insert/remove/concat change the sequence accordingly. cee_json_merge returns true for two objects or two arrays (recursively merging members present in both, otherwise taking the source's; appending arrays) and false otherwise without changing dest; src, which is another value than dest, is never changed. The order of keys added by a merge is unspecified. cee_json_has returns the value of the key found at any depth or NULL. cee_json_object_convert_to_i64 replaces a string member that is one decimal integer by that integer and returns whether the member is an integer then; cee_json_set_error binds the formatted text to the member error unless there is one.",
 ["inputs", "histories"], "every pair of JSON values, every key, every history of updates",
 "Merging is recursive over arbitrary structure.",
 ["cee-json/value.c", "map.c", "list.c", "cee-json/release/cee-json.c"], [("merge", "value.c cee_json_merge, merge_json_value"), ("updates", "value.c cee_json_object_set*, cee_json_object_append, cee_json_array_*")])

prop("C21", "JSON escaping produces exactly the escaped text",
 "cee_json_escape_string writes the JSON escape of the s_size input bytes to dest, returns the number of bytes written and reports dest plus that number and the remaining size through next_dest_p and next_dest_size. Quotes, backslashes and control characters are escaped (\\b \\f \\n \\r \\t or \\u00XX), every other byte is copied. Given a destination of at least 6*s_size+1 bytes it writes only inside it.",
 ["inputs"], "every byte string", "A control character in the middle of the text needs the six-byte form; nothing tests it.",
 ["cee-json/value.c", "cee.h", "cee-json/release/cee-json.c"], [("escape loop", "value.c cee_json_escape_string")])

prop("C22", "JSON selection follows the selector path or returns NULL",
 "cee_json_select walks the selector left to right: .name selects a member, [n] an element, '*' takes the name or index from the arguments (not in a type check, where it gives NULL), :t checks the kind (s string, n any number, a array, o object, b boolean, ! null); [n] is read as atoi reads it and a name or index longer than 256 bytes gives NULL. It returns the value reached, or NULL as soon as a step does not apply or the selector is malformed. It never writes outside its token buffer however long the selector or argument is.",
 ["inputs"], "every selector string, every argument, every JSON value",
 "Token-buffer boundaries and selector errors are input dependent.",
 ["cee-json/value.c", "cee-json/release/cee-json.c"], [("token buffer", "value.c cee_json_select")])

prop("C23", "SQL statements run with exactly the bound parameters",
 "cee_sqlite3_bind_run_sql binds each named parameter of the statement to the value given for that name with its declared type, refuses to run when a parameter of the statement does not appear in the given binding list, and finalizes the statement on every path (unless the caller asked for the statement). A value given in data takes precedence over the list's own; a listed parameter without any value is NULL, or the type's zero value for a not_null column of an INSERT. Generic insert/select/update helpers report the outcome in the status object.",
 ["inputs", "histories"], "every statement, binding list and JSON value",
 "Needs a database; no test covers it.",
 ["sqlite3/cee-sqlite3.c"], [("binding", "sqlite3/cee-sqlite3.c cee_sqlite3_bind_run_sql")])

prop("C24", "JSON files are saved, loaded and merged completely",
 "cee_json_save and cee_json_save_fileno write exactly the text cee_json_snprint gives for the value and format and return true only if all of it was written. cee_json_load_from_fileno, _FILE and _file_path return the value cee_json_parsex gives for the whole text of the (regular, readable) file with the caller's force_eof, or NULL and the line of the error, and free what they allocated; cee_json_load_from_buffer does the same for a terminated buffer in a state of its own. A saved value loads back equal. cee_json_dprintf writes the formatted message, the value's compact text (null for none) and a newline. cee_json_merge_all merges the objects of the files in order into the first, adds the file names as member originals and saves that; it returns 0 only if the result was saved, and writes no result when an input cannot be read.",
 ["inputs"], "every JSON value, every file content and length, every outcome of the system's calls, any number of files",
 "The text's terminator, the size passed on and the failure of a write matter only for particular lengths and full devices; no test loads a file.",
 ["cee-json/value.c", "cee-json/snprint.c", "cee-json/cee_json_merge.c", "cee-json/release/cee-json.c"], [("loading", "value.c cee_json_load_from_fileno"), ("saving", "value.c cee_json_save_fileno"), ("merging files", "cee_json_merge.c cee_json_merge_all")])

prop("C25", "Linear searches and queue links are exact",
 "musl_lfind searches an array of *nelp pointers to elements (as this library has it: the array holds pointers, not the elements) and returns the first one for which compar(element, key) is 0, or NULL when there is none; it changes nothing. musl_lsearch does the same, except that when no element matches it copies the width bytes of the key to the storage the next slot of the array points to (p[*nelp]), adds 1 to *nelp and returns that storage; nothing else changes. musl_insque(e, NULL) makes e an element with no neighbours; musl_insque(e, pred) puts e between pred and the element that followed it, with all the links in both directions (also in a ring); musl_remque(e) links the two neighbours of e to each other, where they exist. No other link changes.",
 ["inputs"], "every array, width, count and comparison, every queue shape",
 "Which element is first, the last element and an absent neighbour are corners of every length and shape; no test calls these functions.",
 ["musl-c/musl-lsearch.c", "musl-c/musl-insque.c", "release/cee.c"], [("linear search", "musl-lsearch.c musl_lsearch, musl_lfind"), ("queue links", "musl-insque.c musl_insque, musl_remque")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
