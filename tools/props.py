"""The property list; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["pyactr/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe],
                               **({"state": [dict(name=x) for x in state]} if state else {}))))


prop("C01", "A pattern matches a chunk exactly when every slot constraint is satisfied",
     "A pattern matches a chunk exactly when, for every slot of the pattern, the chunk's value in that slot (empty if the chunk has no such slot) equals the required value, differs from every forbidden value, agrees with the binding of the slot's variable and is not excluded for it, and differs from the bindings of the slot's negated variables. "
     "Slots are checked in slot order under the bindings made so far: a variable without a binding is bound to the slot's value (also an empty one), and a negated variable records the value as excluded for later slots. "
     "A pattern equal to the chunk always matches.",
     ["inputs"], "every pattern, chunk, number of slots and prior bindings",
     "Tests try a few two-slot patterns; combinations of bound, negated and empty constraints over any number of slots are unbounded.",
     ["chunks.py"], [("Chunk.match", "pyactr/chunks.py, match with partialmatching False"), ("Chunk.__le__/__lt__", "pyactr/chunks.py")], "return value of <=, <, match and the bindings left in the pattern")
prop("C02", "Chunk equality and hashing depend only on the non-empty slot contents",
     "Two chunks are equal exactly when the same slots are filled with the same value, variable, negated values and negated variables, where a variable or negated variable that has a binding counts as the bound value; empty slots, the order of slots and of negated values, and the chunk type do not matter. "
     "Equal chunks have equal hashes, so memories and buffers treat them as one element, and a chunk whose bindings change is compared by its new bindings.",
     ["inputs", "histories"], "every pair of chunks and every sequence of changes to their bindings",
     "A hash that mixes in an order or a stale cache agrees on the sampled pairs and separates equal chunks on others.",
     ["chunks.py"], [("Chunk.__hash__", "pyactr/chunks.py"), ("Chunk.__eq__", "pyactr/chunks.py"), ("Chunk.removeempty", "pyactr/chunks.py")], "==, hash, membership in a declarative memory")
prop("C03", "Partial matching adds one similarity per mismatching constraint",
     "The partial-match score of a pattern against a chunk is the sum, over all violated slot constraints, of the similarity between the value demanded (or forbidden) and the chunk's value, a pair without a set similarity counting as minus the mismatch penalty; satisfied constraints add nothing and equal chunks score 0. "
     "Similarities are symmetric, and a positive similarity is refused.",
     ["inputs"], "every pattern, chunk, similarity table and penalty",
     "Tests compare a few activations; a term dropped or counted twice shows only for particular mismatch combinations.",
     ["chunks.py", "utilities.py", "model.py"], [("Chunk.match", "pyactr/chunks.py, partialmatching True"), ("get_similarity", "pyactr/utilities.py"), ("ACTRModel.set_similarities", "pyactr/model.py")], "return value of match with partial matching on")
prop("C04", "A buffer holds at most one chunk and harvests the old one exactly once",
     "Every buffer holds nothing or exactly one chunk at any time: adding a chunk leaves exactly that chunk in the buffer, clearing leaves it empty, and anything that is not a chunk is refused. "
     "When a retrieval, visual or visual-location buffer is refilled, or any buffer is cleared, the chunk that was inside is added once to the buffer's memory (or the memory named in the call) at the time of the operation; clearing an empty buffer adds nothing. "
     "A copied buffer holds the same chunk, keeps its settings, and changing the copy does not change the original.",
     ["histories", "inputs"], "every sequence of add, clear, discard and copy on every kind of buffer",
     "Tests look at single operations; a chunk harvested twice or lost needs a particular order of operations.",
     ["buffers.py", "goals.py", "declarative.py", "vision.py", "motor.py"], [("Buffer.add/clear/discard/copy", "pyactr/buffers.py and its subclasses")], "buffer contents and memory contents after each operation")
prop("C05", "Modifying a buffer changes only the named slots",
     "Modifying a buffer replaces its chunk by a new one in which each slot named by the modification has the value given there (variables resolved by their bindings) and every other slot keeps its old content. "
     "The old chunk object is not altered and nothing is harvested to memory; slots the old chunk did not have are added, and a modification that cannot be resolved raises an error.",
     ["inputs"], "every chunk, modification and binding, with any number of slots",
     "Tests modify one or two slots of small chunks.",
     ["buffers.py", "vision.py"], [("Buffer.modify", "pyactr/buffers.py"), ("VisualLocation.modify", "pyactr/vision.py")], "buffer content after modify")
prop("C06", "Actions resolve every variable before a request is carried out",
     "A value used in the action of a rule is replaced by the binding of its variable; an unbound variable or negated variable is an error, negated values are an error where a chunk is created or modified, and two different values for one slot are an error (a comparison sign < or > is not a second value but is joined with the number). "
     "Resolved negated variables are passed on as negated values exactly where negation is allowed (retrieval and visual search). "
     "Creating a goal chunk replaces the buffer's content by a chunk of the requested type having exactly the resolved slots.",
     ["inputs"], "every slot content and every set of bindings",
     "Tests cover single variables; combinations with negation, empty bindings and relational markers are not enumerated.",
     ["utilities.py", "goals.py"], [("check_bound_vars", "pyactr/utilities.py"), ("Goal.create", "pyactr/goals.py")], "value returned or error raised")
prop("C07", "Declarative memory records every presentation of a chunk",
     "Adding a chunk at a time appends that time (rounded to 4 decimals) to the chunk's list of presentations, and adding several times (kept as given), or any iterable of chunks, appends all of them; existing presentations are never lost or reordered and other chunks are untouched. "
     "Only chunks can be stored, a base activation can be set only for stored chunks, and a copied memory has the same contents and evolves independently of the original.",
     ["histories", "inputs"], "every sequence of additions, assignments, deletions and copies",
     "Tests add a few chunks; lost or shared traces need longer histories.",
     ["declarative.py"], [("DecMem.add/__setitem__/copy", "pyactr/declarative.py")], "contents of the declarative memory", ["presentation times per chunk", "base activations per chunk"])
prop("C08", "Base-level activation equals the ACT-R equation",
     "Base-level activation of a chunk is ln of the sum of (now - t)^(-d) over the presentations strictly before now, or, in optimized learning, ln(n/(1-d)) - d*ln(now - latest presentation) with n the number of those presentations; without base-level learning it is 0. "
     "A base activation set by the user is combined as ln(e^B + e^a), or used alone when the chunk has no presentation in the past; a chunk with neither has no base-level activation and cannot be retrieved.",
     ["inputs"], "every list of presentation times, decay, current time and base activation",
     "Tests check a few activations to limited precision.",
     ["utilities.py"], [("baselevel_learning", "pyactr/utilities.py")], "return value")
prop("C09", "Spreading activation follows source weights and fan",
     "Spreading activation of a chunk is, summed over the source buffers that hold a chunk, the buffer's weight divided by its number of source slots, times the sum over these slots of the association strength from the slot's value to the chunk; a slot is a source if it is filled (with a chunk, when only chunks may be sources). "
     "The association strength is S - ln((1+slots of chunks in memory holding the value)/max(1, slots of the chunk holding it)) if the chunk equals the value or contains it, and 0 otherwise, limited to the same slot in the restricted variant. "
     "The number of slots in memory that hold a value is always the number for the memory's current contents, also after chunks were added or deleted.",
     ["inputs", "histories"], "every memory, buffer contents, chunk, and every history of changes to the memory",
     "The fan counts are cached, so errors need changes to the memory between two retrievals.",
     ["utilities.py", "declarative.py"], [("spreading_activation, calculate_strength_association, weigh_buffer, find_chunks", "pyactr/utilities.py"), ("fan counters", "pyactr/declarative.py, DecMem.__setitem__/__delitem__")], "return values; counters of the memory", ["cached fan counts"])
prop("C10", "Retrieval returns the best eligible chunk",
     "A subsymbolic retrieval returns a chunk of the memory that matches the request (any chunk, under partial matching), has a base-level activation, reaches the threshold, passes the recently-retrieved test if there is one, and has the highest total activation (base level + spreading + partial match + noise) among all such chunks; it returns nothing exactly when there is no such chunk. "
     "A symbolic retrieval returns a matching chunk that passes the same test and whose first presentation is not at the current time, and nothing exactly when there is none.",
     ["inputs", "histories"], "every memory of any size, request, recency list and parameter setting",
     "Tests use memories with a handful of chunks and no ties of conditions.",
     ["declarative.py"], [("DecMemBuffer.retrieve", "pyactr/declarative.py")], "chunk returned by retrieve", ["recently retrieved chunks"])
prop("C11", "Retrieval time follows the latency equation and the buffer follows the result",
     "A subsymbolic retrieval takes F*e^(-f*A) with A the activation of the retrieved chunk, or the retrieval threshold on failure; a symbolic one takes no time on success and one rule-firing time on failure. "
     "The retrieved chunk enters the buffer exactly at the end of that time, harvesting the previous one, and the buffer is then free; on failure the buffer keeps its content and is in the error state.",
     ["inputs"], "every activation, threshold and latency parameter",
     "Tests compare a few traces.",
     ["declarative.py", "utilities.py", "productions.py"], [("retrieval_latency", "pyactr/utilities.py"), ("ProductionRules.retrieve", "pyactr/productions.py")], "events and buffer state")
prop("C12", "Recency lists keep exactly the last finst items",
     "The retrieval buffer remembers the results of the last finst retrievals (failures included) and the visual-location buffer the last finst stimuli encoded, oldest dropped first, never more than finst, and nothing when finst is 0. "
     "Negative finst values and negative goal delays are refused.",
     ["histories", "inputs"], "every sequence of retrievals and encodings, every finst",
     "Overflow shows only after more than finst events.",
     ["declarative.py", "vision.py", "goals.py"], [("recent", "pyactr/declarative.py DecMemBuffer.retrieve; pyactr/vision.py VisualLocation.add/modify")], "the list of recent items", ["recent items per buffer"])
prop("C13", "Utility learning applies the delta rule to every firing since the last reward",
     "When a reward r is given at time T, every recorded firing at time t of every rule updates that rule's utility once to U + alpha*(r - (T - t) - U), rounded to 4 decimals, firings of one rule being applied in the order in which they happened. "
     "Rules without recorded firings keep their utility.",
     ["histories", "inputs"], "every set of rules, firing record, reward and learning rate",
     "Tests run one short model; order and repetition errors need several firings of several rules.",
     ["utilities.py"], [("modify_utilities", "pyactr/utilities.py")], "rule utilities after the reward")
prop("C14", "The selected rule is a matching rule of highest current utility",
     "In each cycle the rule selected is one whose conditions hold, with no other applicable rule having a higher current utility (with utility noise added to each rule's utility once, when noise is on); no rule is selected exactly when no rule applies. "
     "Changes of utilities and newly compiled rules take effect in the next cycle.",
     ["inputs", "histories"], "every rule set, utilities, noise and buffer contents",
     "Tests have few rules with fixed utilities.",
     ["productions.py", "utilities.py"], [("ProductionRules.procedural_process", "pyactr/productions.py"), ("calculate_instantaneous_noise", "pyactr/utilities.py")], "the RULE SELECTED / NO RULE FOUND events")
prop("C15", "A rule fires only if all its conditions hold under one consistent binding",
     "The conditions of a rule hold exactly when every buffer test matches the chunk in its buffer (an empty buffer fails) and every query agrees with the buffer's state, all under one set of bindings built up from left to right; testing changes no buffer and, unless the rule fires, no bindings. "
     "A selected rule is tested again one rule-firing time later and its action is carried out, with the bindings of that test, only if it still holds; otherwise it stops without changing anything.",
     ["inputs", "schedules"], "every left-hand side, buffer contents, and any change between selection and firing",
     "Needs several conditions sharing variables, or a buffer changed during the firing time.",
     ["productions.py", "buffers.py"], [("ProductionRules.LHStest/test/query", "pyactr/productions.py"), ("ProductionRules.procedural_process", "pyactr/productions.py"), ("Buffer.test_buffer/test", "pyactr/buffers.py and subclasses")], "events, buffer contents and bindings")
prop("C16", "Actions of a rule are carried out in a fixed order, each once",
     "The actions of a fired rule are carried out in the order execute and extra tests, modifications, overwrites, modification requests, requests, clearings, each exactly once and on the buffer it names; requests and modification requests are left to run concurrently with the rule cycle. "
     "With strict harvesting, every buffer tested but not mentioned in the action is cleared exactly once, and no other buffer is.",
     ["inputs"], "every set of actions and tested buffers",
     "Tests have one or two actions per rule.",
     ["productions.py"], [("ProductionRules.update", "pyactr/productions.py")], "sequence of processes started and events")
prop("C17", "Every buffer action ends in the documented state after the documented time",
     "Each action on a buffer takes exactly its documented time and then leaves the buffer free (error if a visual search fails): clearing, executing, modifying and extra tests take no time; setting, overwriting and modification requests of the goal take the goal's delay. "
     "The buffer is busy in between, the change becomes visible at the end of that time only, and setting a goal first clears the old goal to memory.",
     ["inputs", "schedules"], "every buffer content, delay and start time",
     "Tests compare the traces of a few models with delay 0.",
     ["productions.py", "utilities.py"], [("clear, execute, modify, modify_request, overwrite, extra_test, retrieveorset", "pyactr/productions.py")], "events, buffer state at each event")
prop("C18", "Key presses run through the motor phases with the documented times",
     "A key press goes through preparation, initiation, execution and finish with the documented durations for the key; preparation is 0 for a repeated key or a prepared first movement, and is shortened by 0.1 s (same hand) or 0.05 s (other hand) after a movement of the same style. "
     "A press that is prepared while an earlier one is running starts its initiation when that one has finished; the key counts as pressed for the environment from the end of execution to the end of the movement, and the motor module is free again at the end, unless another press is being prepared or waits. "
     "Keys and commands that do not exist are refused.",
     ["inputs", "histories"], "every key, previous key, and overlap of presses",
     "Tests press one or two keys.",
     ["motor.py", "productions.py"], [("motorset, motorcontinue", "pyactr/productions.py"), ("Motor.create", "pyactr/motor.py")], "events, motor states and keys visible to the environment", ["last key and its end time"])
prop("C19", "Visual search returns a location that satisfies the request",
     "A visual search returns the location chunk of a stimulus on the screen that satisfies every constraint of the request: the text, exact or relational (< and >) positions, the attended test, and whose features that are externally visible are those asked for; it returns nothing exactly when no stimulus satisfies them. "
     "For lowest, highest, closest and one-way closest requests no other satisfying stimulus is lower, higher or closer (if both positions ask for one of these, none is better in one and at least as good in the other), and the stimulus remembered as attended is the one whose location is returned.",
     ["inputs"], "every screen with any number of stimuli, request and focus position",
     "Tests have screens with two or three stimuli.",
     ["vision.py", "utilities.py"], [("VisualLocation.find/automatic_search", "pyactr/vision.py"), ("distances", "pyactr/utilities.py")], "chunk and stimulus returned by the search")
prop("C20", "Attention shifts follow the EMMA timing",
     "In an attention shift, encoding takes K*delay*e^(k*distance) (0 without a delay), preparation 0.135 s, execution 0.07 s plus 2 ms per degree (gamma distributed with these means when noise is on); without EMMA encoding and execution take 0.085 s and preparation 0. "
     "The chunk is encoded at the encoding time, before, during or after the eye movement, the remaining encoding being re-scaled from the landing site if it outlasts the movement; the eye moves at the end of execution, movements do not overlap, and the visual buffer ends up free with the new chunk.",
     ["inputs", "schedules"], "every position, delay, EMMA parameter and running movement",
     "The three relations of encoding to movement time and overlap of movements are not enumerated by tests.",
     ["utilities.py", "vision.py", "productions.py"], [("calculate_* functions", "pyactr/utilities.py"), ("Visual.shift", "pyactr/vision.py"), ("visualshift, visualcontinue, visualencode", "pyactr/productions.py")], "events, focus position, buffer content")
prop("C21", "The environment shows each stimulus for its time and knows its trigger",
     "The environment presents the stimuli in the given order, one event per stimulus, the k-th one ending at the start time plus the sum of the first k durations, and at that point its stimulus and its trigger (upper case) are the current ones; single stimuli, triggers or times are repeated for all. "
     "The start time is counted from the initial time of the simulation. Lists of different lengths, stimuli with an entry that is not a dictionary, and triggers that are not strings are refused; a stimulus that is not a dictionary is shown at the default position.",
     ["inputs"], "every number of stimuli, triggers and durations",
     "Tests use two or three stimuli.",
     ["environment.py"], [("Environment.environment_process", "pyactr/environment.py")], "events and the environment's current stimulus and trigger")
prop("C22", "Chunk types have the declared and inherited slots",
     "A chunk type has exactly the slots declared plus those of its parents, whatever the order or form (string or list) of the declaration, and the slot isa is refused, as is an unknown parent and a redefinition of a built-in type. "
     "A chunk has exactly one content for every slot of its type, empty if not given; using further slots extends the type with them.",
     ["inputs"], "every declaration, inheritance and chunk",
     "Tests declare a few types.",
     ["chunks.py"], [("chunktype", "pyactr/chunks.py"), ("Chunk.__init__", "pyactr/chunks.py")], "slots of a created chunk")
prop("C23", "Model set-up connects buffers, memories and parameters without sharing state",
     "A model has the documented default parameters overridden exactly by the ones given, unknown parameters are refused, and models share no mutable state with each other or with the defaults. "
     "With a single declarative memory every buffer harvests into it; goals, retrieval and visual buffers are reachable under the names they were given, and the record of fired rules is empty when a simulation is prepared.",
     ["configurations"], "every set of parameters and buffers",
     "Aliasing shows only when a second model is built or a simulation is prepared twice.",
     ["model.py"], [("ACTRModel", "pyactr/model.py")], "model parameters and buffers")
prop("C24", "Compilation never merges rules when the result would be unsafe",
     "Two rules are compiled only if they do not both request in the same non-retrieval buffer, the second does not query a requested motor or visual buffer other than for being busy, test a requested visual buffer, or query retrieval for an error after a request, and the retrieved chunk has been used. "
     "Renaming replaces every variable consistently and only variables; a variable with a known value is replaced by the value, and two different values for one slot are an error.",
     ["inputs"], "every pair of rules and every slot content",
     "Tests compile a few pairs of rules.",
     ["productions.py", "utilities.py"], [("__check_valid_compilation__", "pyactr/productions.py"), ("make_chunkparts_without_varconflicts, make_chunkparts_with_new_vars, merge_chunkparts", "pyactr/utilities.py")], "result of compilation")
prop("C25", "A stimulus is encoded with exactly its visible features",
     "The chunk made from a stimulus for the visual-location buffer has the stimulus's integer screen coordinates (if asked for) and exactly its externally visible features; the one for the visual buffer has its text as value, its location chunk, and every feature that is not a control key. "
     "The chunk has the type named by the stimulus for that buffer, or the built-in type.",
     ["inputs"], "every stimulus with any number of features",
     "Tests use stimuli with text and position only.",
     ["vision.py"], [("chunk_from_stimulus", "pyactr/vision.py"), ("Visual.automatic_buffering", "pyactr/vision.py")], "the chunk created")
prop("C26", "Chunk and rule strings are read as written",
     "A slot written in a chunk string or rule with =x, ~x, ~=x or a plain value is read as variable, negated value, negated variable or value respectively, several such parts for one slot are collected, and more than one variable or more than one value in a slot is refused. "
     "The slot isa (also ISA, Isa) names the type; quotes around a value are dropped, and the name of an existing chunk stands for that chunk.",
     ["inputs"], "every sequence of slot parts",
     "Tests use a few strings.",
     ["chunks.py", "utilities.py"], [("createchunkdict, makechunk, chunkstring", "pyactr/chunks.py"), ("stringsplitting", "pyactr/utilities.py")], "slot contents of the chunk read")
prop("C27", "Events of a whole run happen in time order and requests are interruptible",
     "Over a whole run, events are reported in non-decreasing time, a new request to a module replaces the one still running there, and the rule cycle resumes after every event that could change a buffer or the environment.",
     ["schedules"], "every model and every interleaving of modules",
     "Interleavings depend on all module times at once.",
     ["simulation.py"], [("Simulation", "pyactr/simulation.py")], "trace of a run")
prop("C28", 'Each process of a simulation reports its events at their time, wakes the rule cycle, and starts or replaces what a rule or a stimulus asks for',
     "A running process of a module waits for each of its events until the event's time; then the event is the current one (and is printed if the trace is on; an unknown action is not reported) and the rule cycle is woken, unless the event is the rule cycle's own or unknown. An interrupted process reports nothing more; what a process hands on is run after it. A module runs the processes started for it in the order they were started, otherwise it waits to be started; no process put on the list they share is lost when a rule cycle ends. After a rule fired the next rule cycle starts without waiting for an event, otherwise it waits to be woken; a process that a rule starts makes an idle module run it, and interrupts a different replaceable process (retrieval, or modifying request) that still runs there. A stimulus of the environment stays until its time or until a key pressed is its trigger, and is then interrupted; automatic visual buffers of this environment, and no others, look at the new stimulus. A step through the simulation ends with the next event reported. The simulation starts at its initial time. When a run, or going on to the next event, leaves nothing to do, the rules fired last are compiled, and only then.",
     ["inputs", "schedules"], 'every state of the simulation at the start of a round of each process, every event, every list of started processes, every point at which simpy resumes or interrupts the process',
     'Each process runs for ever and can be resumed or interrupted at every wait; the example models visit a few of these states.',
     ["simulation.py"], [('Simulation', "pyactr/simulation.py"), ("__localprocess__, __extraprocessGenerator__, __procprocessGenerator__, __envGenerator__, __envprocess__, run, step", "pyactr/simulation.py")], 'trace and current_event while stepping, the times at which the rules are asked')
