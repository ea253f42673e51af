"""What each check claims."""
COMMON = [
 "the C library functions and malloc behave as documented; malloc does not fail",
 "cvf's reading of clang's AST is C's meaning for the constructs it accepts (it rejects the others)",
 "sizes and lengths below 2^31, reference counts below 65535",
 "arithmetic on integers and pointers is exact (overflow is an obligation); floating-point operations are uninterpreted",
 "distinct live objects do not overlap; ownership between blocks is acyclic",
]
PROPS = {
 "C01": dict(level="proof", note="every list function meets its sequence contract for all lengths, indices and contents; element destruction enters through the contract of cee_del_e"),
 "C02": dict(level="proof", note="every stack function meets its LIFO contract for all capacities and contents"),
 "C07": dict(level="proof", lemmas=("chain",), note="every constructor, resize and trace function under contract keeps the chain linked at the touched places; the state's own deletion and the sweep are proved over the whole chain (a sequence of any length): every block leaves it exactly once; that any history of such links and unlinks keeps it is proved in Coq (lemmas/chain.v) and searched natively"),
 "C08": dict(level="proof", note="counting primitives and each container's deletion under contract; recursion enters through contracts"),
 "C09": dict(level="proof", lemmas=("gc",), note="each container's mark action under contract, sweeping proved to delete exactly the unmarked blocks of a chain of any length, collection = mark then sweep with the alternating mark; that what is reachable is therefore kept and what stays unreachable is freed is proved in Coq (lemmas/gc.v) and searched natively"),
 "C10": dict(level="proof", note="all 20 conversions for all values and printing of every kind; the digits themselves natively"),
 "C12": dict(level="proof", note="constructors, add, catf, replace, trims and their resizing for every text, format and argument; formatting itself (vsnprintf) is the C library's"),
 "C13": dict(level="proof", note="the three replacement functions for every text, pattern and number of pairs, against the left-to-right scan given as a recurrence"),
 "C14": dict(level="proof", note="all 20 sv_* functions meet their contracts for every text, length and argument (ctype classes as in the C locale)"),
 "C11": dict(level="proof", note="constructors for all arguments; environment lookup for any nesting"),
 "C21": dict(level="proof", note="cee_json_escape_string for every input text and destination size"),
 "C19": dict(level="proof", note="accessors, converters, constructors, emptiness and the unique objects for every value"),
 "C04": dict(level="proof", note="add, find, remove, rename, keys, values, iterate, deletion and marking for every content, given the search tree's contract; merge and clone as exactly the operations they stand for"),
 "C05": dict(level="proof", note="create, add, find, remove, clear, values, iterate, deletion and marking for every content, given the search tree's contract; union and clone as exactly the operations they stand for"),
 "C15": dict(level="proof", note="coder, validating decoder, surrogates, escapes and whole-body decoding for every text"),
 "C16": dict(level="proof", note="every tokenizer function for every NUL-terminated text; numeric conversion itself (strtod/strtoll) is the C library's"),
 "C20": dict(level="proof", note="every object and array update, append, merge and has: the array operations against the list's contracts, the object operations as exactly the map operation they stand for"),
 "C18": dict(level="proof", lemmas=("grammar",), note="padding, delimiters, string escaping and the measure-then-print wrapper for every input; the traversal step by step against a per-round reference printer; that such rounds print, for every value, exactly its tokens and that these parse back to it is proved in Coq (lemmas/grammar.v)"),
 "C22": dict(level="proof", note="the selector walk step by step for every selector, argument and value; lookups enter as recorded calls"),
 "C23": dict(level="proof", variants=("sqlite",), note="binding, running, refusing and finalizing for every statement, list and data, with the SQL library as recorded calls; the insert, update, delete and select helpers as exactly the calls they stand for; the JSON-driven operations likewise"),
 "C06": dict(level="proof", lemmas=("probing",), note="the table operations, the dict operations and its trace function proved for all histories by invariant; that probing a power-of-two table meets every slot is proved in Coq (lemmas/probing.v); text identity stands for strcmp and keyhash of unchanged keys"),
 "C03": dict(level="proof", lemmas=("avl_size",), note="height, rot, balance, tfind, tsearch, tdelete, walk, twalk, tdestroy under contract: AVL tree predicate with its in-order sequence, path predicate for the way down and up; every function of musl-tsearch.c proved for all trees below 2^31 items. The views of the callers (map, set) state the same without order."),
 "C17": dict(level="proof", lemmas=("grammar",), note="cee_json_parsex for every token sequence, by loop invariant against a reference recogniser (phase, open containers, values built, error line), which is proved in Coq (lemmas/grammar.v) to accept exactly JSON with optional trailing commas and to build the value denoted; tokens, constructors, map, list and stack enter as calls (their own contracts are C16, C19, C05, C01, C02)"),
 "C24": dict(level="proof", note="loading, saving, dprintf and merging of files as exactly the system, parser and printer calls they stand for, for every outcome of those calls; the text passed on is compared byte for byte; the parser and printer themselves are C17 and C18"),
 "C25": dict(level="proof", note="linear search and queue insertion and removal for every array, comparison (an arbitrary function of the two addresses that writes nothing) and queue shape"),
}
NA = {

}
