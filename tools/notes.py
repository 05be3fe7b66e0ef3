NOTES = {
 "C01": "match proved for every pattern and chunk (any number of slots, negated values and negated variables, any earlier bindings) by nested loop invariants; <= and < over that contract; equality of chunks is the equivalence of C02.",
 "C04": "Every add/clear/discard/copy of every buffer kind, from an empty or a full buffer, all contents and times; assumes no hash collisions between chunks.",
 "C05": "Buffer.modify (and its overrides) for every buffer kind: the dictionary passed to the new chunk is compared with the specification at an arbitrary slot name, for chunks with any number of slots; check_bound_vars by its contract (C06), the Chunk constructor by its contract (C22).",
 "C06": "check_bound_vars proved for every content (loop invariants over the negated values and variables) and every binding; Goal.create over that contract for requests with any number of slots. < and > joined with values that are not strings are outside the precondition.",
 "C08": "baselevel_learning proved against the equation for all presentation lists (sums and log/exp as uninterpreted folds of the same terms).",
 "C17": "Each action process is run symbolically step by step: all yielded events, their times, the buffer state at each, and all contents are proved for every content, delay and start time.",
 "C10": "DecMemBuffer.retrieve proved for every memory (any number of chunks and presentations), request, parameters, noise and recency list by an invariant of the search loop plus an inductive lemma (the running maximum is the maximum); activation terms by the contracts of their functions.",
 "C11": "The time returned by retrieve and the whole retrieval process (events, times, buffer content at each step) proved for every memory, request and parameters.",
 "C12": "The recency list proved after every retrieval (only the retrieved chunk enters, oldest leaves, length never above finst) for every memory, list and finst.",
 "C20": "The timing functions proved against the EMMA equations; Visual.shift, visualshift, visualcontinue and visualencode run symbolically step by step for any number of stimuli, every distance, delay and start time, with noise as uninterpreted draws of the stated distribution.",
 "C21": "environment_process proved for lists of stimuli, triggers and times of any length (validation, trigger and presentation loops by invariants; time as a prefix sum of the durations), each argument single or a list; the forms of one trigger (any string, lists of strings, non-strings) in a task bounded to two stimuli.",
 "C07": "add, assignment, deletion, add_activation and copy proved on a memory with any number of chunks and presentations (the resulting mapping is compared at an arbitrary chunk and position; loops over any number of added or copied chunks by invariants); the constructor in a task bounded to two chunks.",
 "C02": "__hash__ proved to hash exactly the set of (slot, kind, hash) entries of the statement, compared at an arbitrary entry, for chunks with any number of slots, negated values and negated variables and any bindings (nested loop invariants; the remembered hash used only for equal bindings); removeempty and __eq__ over their contracts. Assumes no hash collisions.",
 "C03": "match with partial matching on proved to return the sum of the similarities of the violated constraints for every pattern, chunk, bindings, penalty and symmetric table of similarities (nested loop invariants over slots, excluded values, negated variables and negated values); set_similarities proved to write both directions and refuse positive values. Chunks holding the string 'None' as a value are outside the precondition.",
 "C25": "chunk_from_stimulus proved for stimuli with any features (compared at an arbitrary slot name), any list of visible features, with and without position, for both buffers; automatic_buffering over that contract. The Chunk constructor by its contract (C22). 'position' and 'externally_visible' listed as visible are outside the precondition.",
 "C16": "ProductionRules.update proved for actions with any number of entries and any bindings: the sort is evaluated on the real key function, two arbitrary entries and an arbitrary buffer are followed through the loops (each carried out once, in order, right buffer, bindings and time, concurrent or not; harvested once or never). What the actions do is C17, C18, C20.",
 "C14": "One cycle of procedural_process run symbolically for any number of rules (utilities, noise and applicability arbitrary): the search loop by an invariant naming the best rule so far, the sort by its order contract on the real key function; whether a rule applies is LHStest (C15). Rules have different non-empty names.",
 "C15": "LHStest proved for any number of conditions (loop invariant: the bindings are those of the conditions to the left, an arbitrary condition met has held), test over the contracts of match and ==, query for any number of queries, test/test_buffer of every buffer; the second test, stop and firing on a symbolic run of a whole cycle with any number of rules.",
 "C19": "VisualLocation.find proved for any number of stimuli, any request and memory of attended stimuli: one task per pair of position constraints (none, exact, <, >, lowest, highest, closest, one-way closest) plus one for arbitrary other slots, with a ghost winner followed by the loop invariant; automatic_search likewise; the two distance functions. Distances are compared through the uninterpreted square root; the Chunk constructor and comparison by their contracts (C22, C01).",
 "C18": "motorset and motorcontinue run symbolically step by step for every key, previous key and start time, with another press starting between any two steps; Motor.create over the contracts of check_bound_vars and Chunk. Requests without a key or with a key that is no text are outside the precondition.",
 "C13": "Nested loop invariants over any number of rules and firings; rounding and reals treated as mathematical.",
 "C22": "The register of chunk types is an abstract map from names to types with any number of fields; a declaration is a sequence of names or an abstract string whose split gives the declared names (commas and spaces are separators by contract). Slot texts given to Chunk are split by the contract of stringsplitting (its body is C26). Declared names are different identifiers; existing types have no slot isa; contents given as Varval tuples are legal ones. namedtuple is modelled by its documentation.",
 "C09": "Fan counts are folds over a memory of any size and chunks of any number of slots (nested loop invariants); the cached counters are abstract maps with the invariant that a cached number is 1 + the fold over the current memory, which storing, deleting and copying are proved to keep. Values are not empty strings; ln is uninterpreted except ln(a/b) = ln a - ln b.",
 "C23": "The constructor proved for any dictionary of parameters (each documented parameter followed; unknown ones refused), aliasing decided on the whole object graph of two models; setters for tables with any number of buffers under any names; simulation() for any number of buffers and parameters (loop invariant over the memories they harvest into). The constructors of ProductionRules and Simulation are recorded, not run; 'documented defaults' are those of the class docstring, written down in the contract.",
 "C24": "__check_valid_compilation__ proved equivalent to the stated unsafe conditions for rules with any number of entries and any number of buffers of any kind; compile_rules proved never to start merging when that check says unsafe or a retrieved chunk is still in its buffer (loop invariant over the buffers); the three functions on slot contents proved for contents with any number of negations; __rename__ and __substitute__ proved to rewrite every entry that carries a chunk, every slot of it once, over the contracts of those functions. match and __collapse__ (which entries end up in the merged rule) are not under contract. Whether a new name is already a variable of the first rule is tested by the code only for names with '='; such clashes are outside the statement.",
 "C26": "createchunkdict proved for any number of parts and slots (the reading of a slot is a fold over the parts, followed at an arbitrary slot and member by loop invariants; a lemma turns the fold into 'all negations given, at most one different value and variable'); makechunk for any number of slots; chunkstring and productionstring over those contracts, rules with any number of entries. The grammar (pyparsing) and stringsplitting (regular expressions on the older composed strings, '=x~!y') are contracts: they are exercised by the search for failing inputs on real strings, which is bounded. isa, ISA and Isa are not given together.",
 "C28": "Each process (a generator that runs for ever) is cut at the head of its loop and one round is proved from an arbitrary state, for every resumption or interruption. Bounded: two visual buffers and one other in the environment; at most two processes on the list while a rule is being selected. simpy is a contract (timeout, event, process, interrupt, run, step, peek as in 4.1); no gui. That the others start before the next rule cycle (five waits of no time) is only exercised by the search.",
}
NOT_APPLICABLE = {
 "C27": "The scheduling is done by simpy coroutines (yield of external Event objects, interrupts, callbacks); contracts on generator functions can state what one process yields (see C11, C16-C18, C20, C21) but not how simpy interleaves several of them, and simpy itself is outside /repo.",
}
